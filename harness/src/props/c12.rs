//! C12: operation and request limits.
use crate::runner::{truncate, BoxFut, Property};
use crate::simple::*;
use crate::tape::{hash_str, mix, Outcome, Src};
use crate::world::opgen::{gen_op, Op, OpCfg};
use apollo_compiler::ast;
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashMap};

pub fn property() -> Property {
    Property::new("C12", "operations: a case is a router with generated limits (depth with both switches, aliases, directives, tokens; each may be absent) and generated operations with nested and repeated fragments, aliases, directives, block strings and comments; the limits are drawn near the measures of the operations, which a reference computes on its own lexer and tree. An operation must be refused exactly for the limits it exceeds, with their codes, and must not reach a subgraph. sizes: requests whose body or header block is at, below or above the limit, with a declared length, chunked, in pieces. Non-trivial: at least one request was refused and one served")
        .part("operations", 260, 8000, |s: &mut Src| -> BoxFut<'_> { Box::pin(operations(s)) })
        .part("sizes", 60, 1500, |s: &mut Src| -> BoxFut<'_> { Box::pin(sizes(s)) })
        .workers(10)
}

const SDL: &str = r#"
type Query { t(s: String, n: [Int], i: In): T ts: [T!] node: N s: String any: U }
input In { a: Int b: [String] c: In }
interface N { id: ID n: N }
type T implements N { id: ID n: N t(s: String): T u: U name: String }
type V implements N { id: ID n: N v: Int }
union U = T | V
"#;

struct Frag<'a> {
    sels: &'a [ast::Selection],
    dirs: usize,
}
type Frags<'a> = HashMap<String, Frag<'a>>;

fn depth(sels: &[ast::Selection], fr: &Frags, at: usize, flat: bool, ignore: bool) -> usize {
    let mut max = at;
    for s in sels {
        let d = match s {
            ast::Selection::Field(f) if ignore && (f.name == "__schema" || f.name == "__type") => 0,
            ast::Selection::Field(f) => depth(&f.selection_set, fr, at + 1, flat, ignore),
            ast::Selection::InlineFragment(f) => depth(&f.selection_set, fr, at + usize::from(!flat), flat, ignore),
            ast::Selection::FragmentSpread(f) => depth(fr[f.fragment_name.as_str()].sels, fr, at + if flat { 0 } else { 2 }, flat, ignore),
        };
        max = max.max(d);
    }
    max
}

fn aliases(sels: &[ast::Selection], fr: &Frags) -> usize {
    sels.iter()
        .map(|s| match s {
            ast::Selection::Field(f) => f.alias.is_some() as usize + aliases(&f.selection_set, fr),
            ast::Selection::InlineFragment(f) => aliases(&f.selection_set, fr),
            ast::Selection::FragmentSpread(f) => aliases(fr[f.fragment_name.as_str()].sels, fr),
        })
        .sum()
}

fn directives(sels: &[ast::Selection], fr: &Frags) -> usize {
    sels.iter()
        .map(|s| match s {
            ast::Selection::Field(f) => f.directives.len() + directives(&f.selection_set, fr),
            ast::Selection::InlineFragment(f) => f.directives.len() + directives(&f.selection_set, fr),
            ast::Selection::FragmentSpread(f) => {
                let x = &fr[f.fragment_name.as_str()];
                f.directives.len() + x.dirs + directives(x.sels, fr)
            }
        })
        .sum()
}

/// lexical tokens of the grammar (no end-of-file token)
pub fn tokens(s: &str) -> usize {
    let b = s.as_bytes();
    let (mut i, mut n) = (0, 0);
    while i < b.len() {
        let c = b[i];
        if c == b'#' {
            while i < b.len() && b[i] != b'\n' && b[i] != b'\r' {
                i += 1;
            }
        } else if b[i..].starts_with(b"\"\"\"") {
            i += 3;
            while !b[i..].starts_with(b"\"\"\"") {
                i += if b[i..].starts_with(b"\\\"\"\"") { 4 } else { 1 };
            }
            i += 3;
            n += 1;
        } else if c == b'"' {
            i += 1;
            while b[i] != b'"' {
                i += if b[i] == b'\\' { 2 } else { 1 };
            }
            i += 1;
            n += 1;
        } else if b[i..].starts_with(b"...") {
            i += 3;
            n += 1;
        } else if c.is_ascii_alphabetic() || c == b'_' {
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
            n += 1;
        } else if c.is_ascii_digit() || c == b'-' {
            i += 1;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || ((b[i] == b'+' || b[i] == b'-') && (b[i - 1] | 32) == b'e')) {
                i += 1;
            }
            n += 1;
        } else {
            n += b"!$():=@[]{|}&".contains(&c) as usize;
            i += 1;
        }
    }
    n
}

struct M {
    text: String,
    op: Op,
    flat: usize,
    deep: usize,
    flat_i: usize,
    deep_i: usize,
    aliases: usize,
    directives: usize,
    tokens: usize,
}

fn measure(text: String, op: Op) -> Option<M> {
    let doc = ast::Document::parse(text.clone(), "q").ok()?;
    let mut fr = Frags::new();
    let mut root: Option<(&[ast::Selection], usize)> = None;
    for d in &doc.definitions {
        match d {
            ast::Definition::OperationDefinition(o) => root = Some((&o.selection_set, o.directives.len())),
            ast::Definition::FragmentDefinition(f) => {
                fr.insert(f.name.to_string(), Frag { sels: &f.selection_set, dirs: f.directives.len() });
            }
            _ => {}
        }
    }
    let (sels, dirs) = root?;
    Some(M {
        flat: depth(sels, &fr, 0, true, false),
        deep: depth(sels, &fr, 0, false, false),
        flat_i: depth(sels, &fr, 0, true, true),
        deep_i: depth(sels, &fr, 0, false, true),
        aliases: aliases(sels, &fr),
        directives: dirs + directives(sels, &fr),
        tokens: tokens(&text),
        text,
        op,
    })
}

/// comments, commas, block strings
fn disguise(src: &mut Src, text: &str) -> String {
    let mut o = String::new();
    let mut in_str = false;
    let mut prev = ' ';
    for c in text.chars() {
        if c == '"' && prev != '\\' {
            in_str = !in_str;
        }
        prev = c;
        if !in_str && c == ' ' && src.chance(12) {
            o += *src.pick(&["\n", ", ", "  ", " # c \" ( { \n", ",,\t", "\r\n"]);
        } else {
            o.push(c);
        }
    }
    o
}

async fn operations(src: &mut Src) -> Outcome {
    let sc = schemas(&[("a", SDL)]);
    let mut ops = vec![];
    for _ in 0..src.range(3, 10) {
        let intro = src.chance(30);
        let cfg = OpCfg { max_depth: 6, introspection: intro, ..OpCfg::default() };
        let mut op = gen_op(src, &sc.api, &cfg);
        if src.chance(15) {
            op.text = op.text.replacen('{', &format!("{{ long: t(s: {}) {{ name }} ", src.pick(&["\"\"\"two\nlines\"\"\"", "\"\"\"one\"\"\"", "\"\"", "\"a b c\""])), 1);
        }
        if apollo_compiler::ExecutableDocument::parse_and_validate(&sc.api, &op.text, "q").is_err() {
            continue;
        }
        let text = if src.chance(50) { disguise(src, &op.text) } else { op.text.clone() };
        if let Some(m) = measure(text, op) {
            ops.push(m);
        }
    }
    if ops.is_empty() {
        return Outcome::Discard;
    }
    let (flat, ignore) = (src.chance(50), src.chance(50));
    let dep = |m: &M| match (flat, ignore) {
        (true, true) => m.flat_i,
        (true, false) => m.flat,
        (false, true) => m.deep_i,
        (false, false) => m.deep,
    };
    let mut limit = |f: &dyn Fn(&M) -> usize| -> Option<usize> {
        if src.chance(45) {
            return None;
        }
        let at = f(&ops[src.n(ops.len())]);
        Some((at + src.n(3)).saturating_sub(1))
    };
    let (ld, la, li, lt) = (limit(&dep), limit(&|m| m.aliases), limit(&|m| m.directives), limit(&|m| m.tokens));
    let mut yaml = "limits:\n  max_request_body_size: 2MB\n".to_string();
    if let Some(n) = ld {
        yaml += &format!("  max_depth:\n    n: {n}\n    flatten_fragments: {flat}\n    ignore_introspection: {ignore}\n");
    }
    for (k, l) in [("aliases", la), ("directives", li), ("tokens", lt)] {
        if let Some(n) = l {
            yaml += &format!("  max_{k}:\n    n: {n}\n");
        }
    }
    let s = match Simple::start(&[("a", SDL)], &yaml, auto(), plain()).await {
        Ok(s) => s,
        Err(e) => return Outcome::fail("router-does-not-start", e),
    };
    let (mut evals, mut sig, mut refused, mut served) = (0, hash_str(&yaml), 0, 0);
    let mut sample = None;
    for k in 0..ops.len() + src.n(4) {
        let m = &ops[k % ops.len()];
        let mut body = m.op.body();
        body["query"] = json!(m.text);
        s.take();
        let r = match s.router.gql(&body, &[]).await {
            Ok(r) => r,
            Err(e) => return Outcome::fail("no-response", format!("{e}\n{}", m.text)),
        };
        let asked = s.take();
        evals += 1;
        sig = mix(sig, hash_str(&m.text));
        let mut want = BTreeSet::new();
        if lt.is_some_and(|n| m.tokens > n) {
            want.insert("TOKEN_LIMIT_EXCEEDED".to_string());
        } else {
            for (l, v, c) in [(ld, dep(m), "MAX_DEPTH_EXCEEDED"), (la, m.aliases, "MAX_ALIASES_EXCEEDED"), (li, m.directives, "MAX_DIRECTIVES_EXCEEDED")] {
                if l.is_some_and(|n| v > n) {
                    want.insert(c.to_string());
                }
            }
        }
        let j = r.json().unwrap_or(Value::Null);
        let got: BTreeSet<String> = j["errors"].as_array().into_iter().flatten().map(|e| e["extensions"]["code"].as_str().unwrap_or("?").to_string()).collect();
        // the limit was reached between two definitions: refused, though with the code of a syntax error
        if want.contains("TOKEN_LIMIT_EXCEEDED") && got.len() == 1 && got.contains("GRAPHQL_PARSE_FAILED") && asked.is_empty() && j["data"].is_null() {
            refused += 1;
            continue;
        }
        if want != got || (want.is_empty() != j["data"].is_object()) || (!want.is_empty() && !asked.is_empty()) {
            let class = if want.is_empty() {
                "refused-within-limits"
            } else if got.is_empty() {
                "limit-not-enforced"
            } else if !asked.is_empty() {
                "refused-but-executed"
            } else {
                "wrong-refusal"
            };
            return Outcome::fail(&format!("{class}:{}", want.symmetric_difference(&got).next().cloned().unwrap_or_default()), format!("{yaml}depth {} aliases {} directives {} tokens {}\n{}\nexpected refusal for {want:?}, got {} {}", dep(m), m.aliases, m.directives, m.tokens, m.text, r.status, truncate(&r.text(), 400)));
        }
        if want.is_empty() {
            served += 1;
        } else {
            refused += 1;
            sample.get_or_insert_with(|| format!("{want:?} {}", truncate(&m.text, 300)));
        }
    }
    Outcome::Pass { nontrivial: refused > 0 && served > 0, sig, labels: vec![format!("limits: {}", [ld, la, li, lt].iter().flatten().count())], evals, sample }
}

/// one request over a plain socket; the pieces are written one after the other
pub async fn raw_http(port: u16, pieces: &[Vec<u8>]) -> Result<(u16, String), String> {
    use tokio::io::{AsyncReadExt, AsyncWriteExt};
    let c = tokio::net::TcpStream::connect(("127.0.0.1", port)).await.map_err(|e| e.to_string())?;
    c.set_nodelay(true).ok();
    let (mut r, mut w) = c.into_split();
    let pieces = pieces.to_vec();
    let writer = tokio::spawn(async move {
        for p in pieces {
            if w.write_all(&p).await.is_err() {
                break;
            }
            tokio::task::yield_now().await;
        }
        w
    });
    let mut out = vec![];
    let read = async {
        let mut buf = [0u8; 8192];
        loop {
            match r.read(&mut buf).await {
                Ok(0) => break,
                Ok(n) => {
                    out.extend_from_slice(&buf[..n]);
                    let t = String::from_utf8_lossy(&out);
                    if let Some((head, _)) = t.split_once("\r\n\r\n") {
                        let len = head.lines().find_map(|l| l.to_ascii_lowercase().strip_prefix("content-length:").and_then(|x| x.trim().parse::<usize>().ok()));
                        if len.is_some_and(|l| out.len() >= head.len() + 4 + l) {
                            break;
                        }
                    }
                }
                Err(e) if out.is_empty() => return Err(e.to_string()),
                Err(_) => break,
            }
        }
        Ok(())
    };
    tokio::time::timeout(std::time::Duration::from_secs(20), read).await.map_err(|_| "no end of response".to_string())??;
    let _ = writer.await;
    let t = String::from_utf8_lossy(&out).to_string();
    let status = t.split(' ').nth(1).and_then(|s| s.parse().ok()).ok_or_else(|| format!("not an answer: {}", truncate(&t, 200)))?;
    Ok((status, t.split_once("\r\n\r\n").map(|x| x.1.to_string()).unwrap_or_default()))
}

async fn sizes(src: &mut Src) -> Outcome {
    let units = [("B", 1usize), ("KiB", 1024)];
    let (bu, bm) = *src.pick(&units);
    let bn = if bm == 1 { src.range(120, 9000) } else { src.range(1, 40) };
    let (hu, hm) = *src.pick(&units);
    let hn = if hm == 1 { src.range(200, 9000) } else { src.range(1, 20) };
    let (bl, hl) = (bn * bm, hn * hm);
    let yaml = format!("limits:\n  max_request_body_size: {bn}{bu}\n  max_request_header_size: {hn}{hu}\n");
    let s = match Simple::start(&[("a", SDL)], &yaml, auto(), plain()).await {
        Ok(s) => s,
        Err(e) => return Outcome::fail("router-does-not-start", format!("{yaml}{e}")),
    };
    let (mut evals, mut sig, mut refused, mut served) = (0, hash_str(&yaml), 0, 0);
    for _ in 0..src.range(4, 12) {
        let near = |src: &mut Src, l: usize| match src.n(6) {
            0 => l,
            1 => l + 1,
            2 => l.saturating_sub(1),
            3 => l + src.range(2, 60000),
            _ => src.n(l),
        };
        let (want_b, want_h) = (near(src, bl), near(src, hl));
        let mut body = "{\"query\":\"{ s }\"".to_string();
        let pad = want_b.saturating_sub(body.len() + 1);
        match src.n(3) {
            0 => body += &" ".repeat(pad),
            1 if pad > 24 => body += &format!(",\"extensions\":{{\"p\":\"{}\"}}", "x".repeat(pad - 22)),
            _ => body += &"\n".repeat(pad),
        }
        body += "}";
        let chunked = src.chance(40);
        let mut headers: Vec<(String, String)> = vec![("host".into(), "localhost".into()), ("content-type".into(), "application/json".into()), ("connection".into(), "close".into())];
        if chunked {
            headers.push(("transfer-encoding".into(), "chunked".into()));
        } else {
            headers.push(("content-length".into(), body.len().to_string()));
        }
        let size = |h: &[(String, String)]| h.iter().map(|(k, v)| k.len() + v.len() + 4).sum::<usize>();
        let mut i = 0;
        while size(&headers) + 8 < want_h && headers.len() < 60 {
            let left = want_h - size(&headers);
            let name = format!("x-{i}");
            let most = left.saturating_sub(name.len() + 4);
            let n = if src.chance(50) || headers.len() > 40 { most } else { src.n(most + 1) };
            headers.push((name, "v".repeat(n)));
            i += 1;
        }
        let h = size(&headers);
        if h > 60000 {
            continue; // the HTTP server has its own limit
        }
        let mut head = format!("POST {} HTTP/1.1\r\n", s.router.path);
        for (k, v) in &headers {
            head += &format!("{k}: {v}\r\n");
        }
        head += "\r\n";
        let mut pieces = vec![head.into_bytes()];
        let b = body.as_bytes();
        let mut at = 0;
        while at < b.len() {
            let n = if src.chance(50) { b.len() - at } else { src.range(1, b.len() - at) };
            if chunked {
                pieces.push([format!("{n:x}\r\n").as_bytes(), &b[at..at + n], b"\r\n"].concat());
            } else {
                pieces.push(b[at..at + n].to_vec());
            }
            at += n;
        }
        if chunked {
            pieces.push(b"0\r\n\r\n".to_vec());
        }
        if src.chance(50) {
            pieces = vec![pieces.concat()];
        }
        s.take();
        let got = raw_http(s.router.port, &pieces).await;
        let asked = s.take();
        evals += 1;
        sig = mix(sig, mix(b.len() as u64, h as u64));
        let want = if h > hl {
            431
        } else if b.len() > bl {
            413
        } else {
            200
        };
        let (status, text) = match got {
            Ok(x) => x,
            // a server may close the connection while a refused body is still being sent
            Err(_) if want != 200 && b.len() > 16000 && asked.is_empty() => continue,
            Err(e) => return Outcome::fail("no-answer", format!("{yaml}body {} headers {h} chunked {chunked}: {e}", b.len())),
        };
        if status != want || (want == 200) != (asked.len() == 1) || (want == 200 && !text.contains("\"data\"")) {
            return Outcome::fail(&format!("size-limit:{want}-{status}"), format!("{yaml}body {} headers {h} chunked {chunked} pieces {}: expected {want}, got {status} {}; subgraph requests {}\nbody {}", b.len(), pieces.len(), truncate(&text, 300), asked.len(), truncate(&body, 200)));
        }
        if want == 200 {
            served += 1;
        } else {
            refused += 1;
        }
    }
    Outcome::Pass { nontrivial: refused > 0 && served > 0, sig, labels: vec![], evals, sample: None }
}
