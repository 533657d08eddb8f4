//! C07: what is parsed is what was written, and printing or minifying does not change it.
use crate::runner::{truncate, BoxFut, Property};
use crate::simple::*;
use crate::tape::{hash_str, mix, Outcome, Src};
use crate::world::interp::RV;
use crate::world::opgen::{gen_op, OpCfg};
use apollo_compiler::ast;
use apollo_compiler::Schema;
use graphql_tools::parser as gt;
use serde_json::{json, Value};
use std::panic::catch_unwind;
use std::sync::Arc;

pub fn property() -> Property {
    Property::new("C07", "part documents: up to 40 texts per case, generated operations and schemas with random literals (all escapes, block strings, numbers), descriptions, comments, separators and character-level mutations. The library's parser must accept exactly the texts apollo-compiler accepts, and for each the printed, the minified and the token-minified document must mean the same as the source (compared by apollo-compiler's AST), without a panic. Part literals: fields of a router over an echoing subgraph get random literals in every lexical form; the subgraph must receive the value the specification gives them. Non-trivial: an accepted document with a string, number or block string literal")
        .part("documents", 1500, 40000, documents)
        .part("literals", 250, 5000, literals)
        .finding("exponent-leading-zero", "a Float literal whose exponent has no sign and starts with 0 (10e0, 1e05) is a syntax error (an existing unit test demands it)", |_| Box::pin(async {
            match gt::parse_query::<String>("{ f(a: 10e0) }") {
                Ok(_) => Outcome::Pass { nontrivial: true, sig: 1, labels: vec![], evals: 1, sample: None },
                Err(e) => Outcome::fail("exponent-leading-zero", e.to_string()),
            }
        }))
}

fn documents<'a>(src: &'a mut Src) -> BoxFut<'a> {
    Box::pin(async move { docs(src) })
}
fn literals<'a>(src: &'a mut Src) -> BoxFut<'a> {
    Box::pin(lits(src))
}

const CHARS: &[&str] = &["a", "Z", "0", " ", "é", "😀", "\t", "#", "{", "'", "$", ",", "&", "\u{7f}", "\u{2028}", "\u{a0}", "\u{3000}", "/"];

fn plain_string(src: &mut Src) -> String {
    let mut s = String::from("\"");
    for _ in 0..src.n(6) {
        match src.n(6) {
            0 => s.push_str(*src.pick(&["\\n", "\\t", "\\r", "\\b", "\\f", "\\\\", "\\\"", "\\/"])),
            1 => s.push_str(*src.pick(&["\\u0041", "\\u00e9", "\\u0000", "\\u001F", "\\uFFFF", "\\u2028"] )),
            _ => s.push_str(src.pick(CHARS)),
        }
    }
    s.push('"');
    s
}

fn block_string(src: &mut Src) -> String {
    let mut s = String::from("\"\"\"");
    for _ in 0..src.n(12) {
        match src.n(10) {
            0 | 1 => s.push('\n'),
            2 => {
                // no accidental end
                let p = *src.pick(&["\\\"\"\"", "\"", "\"\" ", "\\n", "\\", "\\u0041"]);
                s.push_str(if s.ends_with(['"', '\\']) && p.starts_with('"') { " " } else { p });
            }
            3 | 4 => s.push_str(*src.pick(&["  ", "    ", "\t", " "])),
            5 if src.chance(20) => s.push_str("\r\n"),
            _ => s.push_str(src.pick(CHARS)),
        }
    }
    // the end must not be swallowed
    if s.ends_with('"') || s.ends_with('\\') {
        s.push(' ');
    }
    s.push_str("\"\"\"");
    s
}

fn number(src: &mut Src) -> String {
    src.pick(&["0", "-0", "1", "-1", "7", "2147483647", "-2147483648", "9223372036854775807", "-9223372036854775808", "0.0", "-0.0", "1.5", "-0.25", "1e3", "1E3", "1e+3", "1.5e-3", "-12.5E+9", "0.1", "123456789.123456789", "1e-7", "1e22", "3.0", "10e9", "2e8"]).to_string()
}

fn lit(src: &mut Src, depth: usize, vars: bool) -> String {
    match src.n(if depth > 2 { 9 } else { 12 }) {
        0 | 1 => plain_string(src),
        2 | 3 => block_string(src),
        4 | 5 => number(src),
        6 => src.pick(&["true", "false"]).to_string(),
        7 => "null".into(),
        8 if vars => "$v".into(),
        8 => src.pick(&["RED", "_x", "on", "query", "fragment", "truex", "nullable", "e1"]).to_string(),
        9 | 10 => format!("[{}]", (0..src.n(4)).map(|_| lit(src, depth + 1, vars)).collect::<Vec<_>>().join(*src.pick(&[" ", ", ", ",", "\n"]))),
        _ => format!("{{{}}}", (0..src.n(3)).map(|i| format!("{}{i}{}{}", src.pick(&["a", "on", "type", "_"]), src.pick(&[": ", ":", " : "]), lit(src, depth + 1, vars))).collect::<Vec<_>>().join(*src.pick(&[" ", ", ", ","]))),
    }
}

fn sep(src: &mut Src) -> String {
    match src.n(14) {
        0 => "\n".into(),
        1 => ", ".into(),
        2 => " # comment \" { ' \"\"\"\n".into(),
        3 => "\t".into(),
        4 => "\r\n".into(),
        5 => "\u{feff} ".into(),
        _ => " ".into(),
    }
}

const WORDS: &[&str] = &["a", "b", "on1", "type", "query", "mutation", "fragment", "input", "_", "x9", "null1", "true_", "schema", "extend", "implements", "directive", "interface", "subscription", "enum", "union", "scalar", "repeatable"];

fn sels(src: &mut Src, depth: usize, out: &mut String) {
    out.push('{');
    for _ in 0..src.range(1, 3) {
        out.push_str(&sep(src));
        match src.n(if depth > 3 { 6 } else { 9 }) {
            0..=5 => {
                if src.chance(25) {
                    out.push_str(&format!("{}{}", src.pick(WORDS), src.pick(&[":", " : ", ": "])));
                }
                out.push_str(src.pick(WORDS));
                if src.chance(45) {
                    out.push('(');
                    for k in 0..src.range(1, 3) {
                        out.push_str(&format!("{}{k}:{}{}", src.pick(WORDS), sep(src), lit(src, 0, true)));
                        out.push_str(&sep(src));
                    }
                    out.push(')');
                }
                dirs(src, out);
                if depth < 4 && src.chance(35) {
                    sels(src, depth + 1, out);
                }
            }
            6 => {
                out.push_str(&format!("...{}{}", src.pick(&["", " "]), src.pick(&["F", "type", "query", "onn"])));
                dirs(src, out);
            }
            _ => {
                out.push_str("...");
                if src.chance(60) {
                    out.push_str(&format!("on {}", src.pick(WORDS)));
                }
                dirs(src, out);
                sels(src, depth + 1, out);
            }
        }
    }
    out.push_str(&sep(src));
    out.push('}');
}

fn dirs(src: &mut Src, out: &mut String) {
    while src.chance(18) {
        out.push_str(&format!(" @{}", src.pick(WORDS)));
        if src.chance(60) {
            out.push_str(&format!("(if:{}{})", sep(src), lit(src, 1, true)));
        }
    }
}

fn ty(src: &mut Src, depth: usize) -> String {
    let mut t = if depth < 3 && src.chance(30) { format!("[{}]", ty(src, depth + 1)) } else { src.pick(&["Int", "T", "type", "_x"]).to_string() };
    if src.chance(35) {
        t.push('!');
    }
    t
}

fn exec_doc(src: &mut Src) -> String {
    let mut o = String::new();
    for _ in 0..src.range(1, 3) {
        match src.n(8) {
            0 | 1 => sels(src, 0, &mut o),
            2 => {
                o.push_str(&format!("fragment {} on {}", src.pick(&["F", "type", "query"]), src.pick(WORDS)));
                dirs(src, &mut o);
                sels(src, 0, &mut o);
            }
            _ => {
                o.push_str(*src.pick(&["query", "mutation", "subscription"]));
                if src.chance(60) {
                    o.push_str(&format!(" {}", src.pick(WORDS)));
                }
                if src.chance(45) {
                    o.push_str(&sep(src));
                    o.push('(');
                    for k in 0..src.range(1, 3) {
                        o.push_str(&format!("${}{k}:{}{}", src.pick(WORDS), sep(src), ty(src, 0)));
                        if src.chance(40) {
                            o.push_str(&format!(" ={}{}", sep(src), lit(src, 0, false)));
                        }
                        o.push_str(&sep(src));
                    }
                    o.push(')');
                }
                dirs(src, &mut o);
                sels(src, 0, &mut o);
            }
        }
        o.push_str(&sep(src));
    }
    o
}

fn desc(src: &mut Src) -> String {
    match src.n(5) {
        0 => format!("{}\n", plain_string(src)),
        1 => format!("{}\n", block_string(src)),
        _ => String::new(),
    }
}
fn cdirs(src: &mut Src) -> String {
    let mut o = String::new();
    while src.chance(20) {
        o.push_str(&format!(" @{}", src.pick(WORDS)));
        if src.chance(60) {
            o.push_str(&format!("(a: {})", lit(src, 1, false)));
        }
    }
    o
}
fn input_val(src: &mut Src, k: usize) -> String {
    format!("{}{}{k}: {}{}{}", desc(src), src.pick(WORDS), ty(src, 0), if src.chance(40) { format!(" = {}", lit(src, 0, false)) } else { String::new() }, cdirs(src))
}
fn fields(src: &mut Src) -> String {
    let mut o = String::from(" {");
    for k in 0..src.range(1, 3) {
        let args = if src.chance(40) { format!("({})", (0..src.range(1, 2)).map(|i| input_val(src, i)).collect::<Vec<_>>().join(*src.pick(&[" ", ", ", "\n"]))) } else { String::new() };
        o.push_str(&format!("\n{}{}{k}{args}: {}{}{}", desc(src), src.pick(WORDS), ty(src, 0), cdirs(src), sep(src)));
    }
    o.push_str("\n}\n");
    o
}
fn schema_doc(src: &mut Src) -> String {
    let mut o = String::new();
    for k in 0..src.range(1, 4) {
        let ext = src.chance(15);
        let what = src.n(if ext { 6 } else { 8 });
        if ext {
            o.push_str("extend ");
        } else if what != 7 {
            // descriptions of `schema` itself are not supported by the library
            o.push_str(&desc(src));
        }
        let imp = |src: &mut Src| match src.n(4) {
            0 => " implements A".to_string(),
            1 => " implements A & B".to_string(),
            2 => " implements & A & B".to_string(),
            _ => String::new(),
        };
        match what {
            0 => o.push_str(&format!("scalar S{k}{}\n", if ext { " @a".to_string() } else { cdirs(src) })),
            1 => {
                let i = imp(src);
                o.push_str(&format!("type T{k}{i}{}{}", cdirs(src), fields(src)))
            }
            2 => o.push_str(&format!("interface I{k}{}{}", cdirs(src), fields(src))),
            3 => o.push_str(&format!("union U{k}{} = {}A | B\n", cdirs(src), src.pick(&["", "| "]))),
            4 => o.push_str(&format!("enum E{k}{} {{ {} }}\n", cdirs(src), (0..src.range(1, 3)).map(|i| format!("{}V{i}{}", desc(src), cdirs(src))).collect::<Vec<_>>().join(*src.pick(&[" ", "\n", ", "])))),
            5 => o.push_str(&format!("input N{k}{} {{ {} }}\n", cdirs(src), (0..src.range(1, 3)).map(|i| input_val(src, i)).collect::<Vec<_>>().join("\n"))),
            6 => o.push_str(&format!("directive @d{k}{}{} on {}FIELD | OBJECT | ENUM_VALUE\n", if src.chance(50) { format!("({})", input_val(src, 0)) } else { String::new() }, if src.chance(30) { " repeatable" } else { "" }, src.pick(&["", "| "]))),
            _ => o.push_str(&format!("schema{} {{ query: Q{} }}\n", cdirs(src), src.pick(&["", " mutation: M", ", subscription: S"]))),
        }
    }
    o
}

fn mutate(src: &mut Src, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..src.range(1, 3) {
        if c.is_empty() {
            break;
        }
        let i = src.n(c.len());
        match src.n(4) {
            0 => {
                let n = src.range(1, 3).min(c.len() - i);
                c.drain(i..i + n);
            }
            1 => c[i] = *src.pick(&['{', '}', '(', ')', '[', ']', '"', '\\', '.', ':', '!', '$', '@', '=', '|', '&', '-', '1', 'e', 'E', '+', 'a', '\n', '#', ' ', '\u{0}', '😀', '_', '0']),
            2 => {
                let x = *src.pick(&['{', '}', '(', ')', '[', ']', '"', '\\', '.', ':', '!', '$', '@', '=', '|', '&', '-', '1', 'e', 'E', '+', 'a', '\n', '#', ' ', '\u{0}', '😀', '_', '0']);
                c.insert(i, x);
            }
            _ => {
                let n = src.range(1, 8).min(c.len() - i);
                let d: Vec<char> = c[i..i + n].to_vec();
                for (k, x) in d.into_iter().enumerate() {
                    c.insert(i + k, x);
                }
            }
        }
    }
    c.into_iter().collect()
}

/// the meaning of a document: apollo-compiler's AST in its normal print, numbers by value
fn meaning(d: &ast::Document) -> String {
    let t = d.to_string();
    let b = t.as_bytes();
    let (mut out, mut i) = (String::new(), 0);
    while i < t.len() {
        let rest = &t[i..];
        let prev = if i == 0 { b' ' } else { b[i - 1] };
        if rest.starts_with("\"\"\"") {
            // a block string, up to the next unescaped end
            let mut j = 3;
            while !rest[j..].starts_with("\"\"\"") {
                j += if rest[j..].starts_with("\\\"\"\"") { 4 } else { rest[j..].chars().next().map_or(1, char::len_utf8) };
            }
            out.push_str(&rest[..j + 3]);
            i += j + 3;
        } else if b[i] == b'"' {
            let mut j = 1;
            while rest.as_bytes()[j] != b'"' {
                j += if rest.as_bytes()[j] == b'\\' { 2 } else { 1 };
            }
            out.push_str(&rest[..j + 1]);
            i += j + 1;
        } else if (b[i] == b'-' || b[i].is_ascii_digit()) && !(prev.is_ascii_alphanumeric() || prev == b'_') {
            let n = rest.find(|c: char| !(c.is_ascii_alphanumeric() || matches!(c, '.' | '+' | '-'))).unwrap_or(rest.len());
            let mut num = rest[..n].to_string();
            flush(&mut num, &mut out);
            i += n;
        } else {
            let c = rest.chars().next().unwrap_or(' ');
            out.push(c);
            i += c.len_utf8();
        }
    }
    out
}
fn flush(num: &mut String, out: &mut String) {
    if !num.is_empty() {
        // an integral float may be printed as an int (any consumer of a Float accepts both)
        match num.parse::<i64>() {
            Ok(i) if i.unsigned_abs() < 1 << 53 => out.push_str(&format!("num({i})")),
            _ => match num.parse::<f64>().unwrap_or(f64::NAN) {
                f if f.fract() == 0.0 && f.abs() < 9007199254740992.0 => out.push_str(&format!("num({})", f as i64)),
                f => out.push_str(&format!("num({f:?})")),
            },
        }
        num.clear();
    }
}

/// no block strings in the print, so that it can be scanned
fn apollo(text: &str) -> Result<String, String> {
    match ast::Document::parse(text, "t") {
        Ok(d) => Ok(meaning(&d)),
        Err(e) => Err(e.errors.iter().map(|d| d.error.to_string()).collect::<Vec<_>>().join("; ")),
    }
}

fn docs(src: &mut Src) -> Outcome {
    let (mut evals, mut sig, mut labels, mut sample) = (0, 1, vec![], None);
    let mut nontrivial = false;
    let sc = schemas(&[("a", crate::props::c05::SDL_A), ("b", crate::props::c05::SDL_B)]);
    for _ in 0..src.range(10, 40) {
        let exec = src.chance(65);
        let mut text = if exec && src.chance(30) {
            gen_op(src, &sc.api, &OpCfg { introspection: true, ..OpCfg::default() }).text
        } else if exec {
            exec_doc(src)
        } else {
            schema_doc(src)
        };
        let mutated = src.chance(35);
        if mutated {
            text = mutate(src, &text);
        }
        evals += 1;
        sig = mix(sig, hash_str(&text));
        let a = apollo(&text);
        let t2 = text.clone();
        let r = catch_unwind(move || -> Result<Vec<(&'static str, String)>, String> {
            if exec {
                let d = gt::parse_query::<String>(&t2).map_err(|e| e.to_string())?;
                let mut v = vec![("print", d.to_string()), ("minify-document", gt::query::minify_query_document(&d))];
                v.push(("minify-text", gt::query::minify_query(&t2).map_err(|e| format!("minify_query fails: {e}"))?));
                let st = gt::parse_query::<&str>(&t2).map_err(|e| e.to_string())?;
                v.push(("print-borrowed", st.to_string()));
                Ok(v)
            } else {
                let d = gt::parse_schema::<String>(&t2).map_err(|e| e.to_string())?;
                Ok(vec![("print", d.to_string())])
            }
        });
        let outs = match r {
            Err(_) => return Outcome::fail("panic", format!("the parser or printer panics\n{text}\n{text:?}")),
            Ok(r) => r,
        };
        match (&a, outs) {
            (Err(_), Err(_)) => labels.push("rejected by both".to_string()),
            (Ok(m), Ok(outs)) => {
                for (k, o) in outs {
                    match apollo(&o) {
                        Ok(m2) if m2 == *m => {}
                        Ok(m2) => return Outcome::fail(&format!("{k}-changes-meaning"), format!("{text}\n{text:?}\n--- {k}:\n{o}\n--- meaning of the source\n{m}\n--- meaning of the output\n{m2}")),
                        Err(e) => return Outcome::fail(&format!("{k}-unparsable"), format!("{text}\n{text:?}\n--- {k}:\n{o}\n--- {e}")),
                    }
                }
                nontrivial |= m.contains('"') || m.contains("num(");
                labels.push("accepted by both".to_string());
                sample.get_or_insert_with(|| truncate(&text, 400));
            }
            (Ok(_), Err(e)) => {
                if e.contains("too large to fit") || e.contains("too small to fit") || mutated {
                    // integers are limited to 64 bits; apollo-compiler is lenient about broken texts such as `f(a)`
                    labels.push("rejected by the library only (not judged)".to_string());
                } else {
                    return Outcome::fail("valid-text-rejected", format!("{text}\n{text:?}\n--- {e}"));
                }
            }
            // the schema parser is lenient (a directive definition without locations); it reads trusted documents
            (Err(_), Ok(_)) if !exec => labels.push("schema text accepted by the library only (not judged)".to_string()),
            (Err(e), Ok(_)) => return Outcome::fail("invalid-text-accepted", format!("{text}\n{text:?}\n--- {e}")),
        }
    }
    Outcome::Pass { nontrivial, sig, labels, evals, sample }
}

fn resolver() -> Resolver {
    Arc::new(|_, f, args, _| if f.starts_with('e') { Some(RV::Leaf(json!({"args": args}))) } else { None })
}
const SDL: &str = "scalar Blob\nenum Color { RED on query }\ntype Query { eb(a: Blob, s: String): Blob es(a: String): Blob ei(a: Int, b: [Int!]): Blob ef(a: Float): Blob ed(a: ID): Blob el(a: [String]): Blob eo(a: In): Blob }\ninput In { s: String f: Float i: Int c: Color n: In b: Blob }\n";

/// equal, with numbers by value
fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => x == y || (x.as_f64().unwrap() - y.as_f64().unwrap()).abs() <= x.as_f64().unwrap().abs() * 1e-15,
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, a)| y.get(k).is_some_and(|b| same(a, b))),
        _ => a == b,
    }
}

async fn lits(src: &mut Src) -> Outcome {
    let s = match Simple::start(&[("a", SDL)], "", resolver(), plain()).await {
        Ok(s) => s,
        Err(e) => return Outcome::fail("router-rejects-supergraph", e),
    };
    let res = resolver();
    let (mut evals, mut sig, mut sample) = (0, 1, None);
    for _ in 0..src.range(5, 20) {
        let mut text = String::from("query");
        let mut vars = String::new();
        let mut body = String::new();
        for k in 0..src.range(1, 4) {
            let (f, l, t) = match src.n(8) {
                0 => ("eb", lit(src, 0, false), "Blob"),
                1 => ("es", plain_string(src), "String"),
                2 => ("es", block_string(src), "String"),
                3 => ("ei", src.pick(&["0", "-0", "1", "-1", "2147483647", "-2147483648"]).to_string(), "Int"),
                4 => ("ef", number(src), "Float"),
                5 => ("ed", if src.chance(50) { plain_string(src) } else { src.pick(&["0", "1", "-7", "9223372036854775807"]).to_string() }, "ID"),
                6 => ("el", format!("[{}, null {}]", plain_string(src), block_string(src)), "[String]"),
                _ => ("eo", format!("{{s: {} f: {}, c: {} n: {{ s: {} b: {}}}}}", plain_string(src), number(src), src.pick(&["RED", "on", "query"]), block_string(src), lit(src, 1, false)), "In"),
            };
            if src.chance(25) {
                vars.push_str(&format!("$v{k}: {t} = {l} "));
                body.push_str(&format!("k{k}: {f}(a: $v{k}) "));
            } else {
                body.push_str(&format!("k{k}: {f}(a: {l}) "));
            }
        }
        if !vars.is_empty() {
            text.push_str(&format!("({vars})"));
        }
        text.push_str(&format!(" {{ {body}}}"));
        let Ok(expected) = s.reference(&res, &text, None, &json!({})) else { continue };
        let resp = match s.router.gql(&json!({"query": text}), &[]).await {
            Ok(r) => r,
            Err(e) => return Outcome::fail("no-response", format!("{e}\noperation: {text}")),
        };
        let asked = s.take();
        evals += 1;
        sig = mix(sig, hash_str(&text));
        let v: Value = resp.json().unwrap_or(Value::Null);
        if !same(&v["data"], &expected) {
            return Outcome::fail("literal-changed", format!("the subgraph did not receive the written value\noperation: {text}\n{text:?}\nrouter: {} {}\nexpected: {expected}\nsubgraph requests: {}", resp.status, truncate(&resp.text(), 1500), asked.iter().map(|a| a.body.to_string()).collect::<Vec<_>>().join("\n  ")));
        }
        sample.get_or_insert_with(|| truncate(&text, 300));
    }
    let _ = Schema::new();
    Outcome::Pass { nontrivial: evals > 0, sig, labels: vec![], evals, sample }
}
