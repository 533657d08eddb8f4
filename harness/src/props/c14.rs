//! C14: header propagation rules and the merged cache-control.
use crate::mock::{json_resp, MockResp};
use crate::runner::{truncate, BoxFut, Property};
use crate::simple::*;
use crate::tape::{hash_str, mix, Outcome, Src};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex};

pub fn property() -> Property {
    Property::new("C14", "request: generated rule lists (propagate by name or pattern with exclusions, rename, default; insert of values and expressions; remove) for all and for single subgraphs, over client headers with repeated and non-ASCII values and hop-by-hop headers; every subgraph request must carry exactly what a reference interpreter of the rules computes. response: the same for the headers of subgraph answers (first, last, append, never-joined headers, defaults) of operations which ask several subgraphs. cache: cache-control values of all shapes (none, unusable, extension directives) with errors and mutations, against the documented restrictive merge. Non-trivial: at least two rules changed the outcome, or two subgraphs answered with different values")
        .part("request", 130, 4000, |s: &mut Src| -> BoxFut<'_> { Box::pin(request(s)) })
        .part("response", 130, 4000, |s: &mut Src| -> BoxFut<'_> { Box::pin(response(s)) })
        .part("cache", 130, 4000, |s: &mut Src| -> BoxFut<'_> { Box::pin(cache(s)) })
        .workers(10)
}

const A: &str = "type Query { ia: Int ta: T } type Mutation { ma: Int } type T @key(fields: \"id\") { id: ID! fa: Int }";
const B: &str = "type Query { ib: Int tb: T } type T @key(fields: \"id\") { id: ID! fb: Int }";
const C: &str = "type Query { ic: Int } type T @key(fields: \"id\") { id: ID! fc: Int }";
const SUBS: &[(&str, &str)] = &[("a", A), ("b", B), ("c", C)];
const QUERIES: &[&str] = &["query Op { ia }", "query Op { ib }", "query Op { ia ib ic }", "query Op { ta { fa fb } }", "query Op { tb { fa fb fc } ic }", "query Op { ta { fb fc } }", "query Op { ic }"];
const HOP: &[&str] = &["connection", "keep-alive", "proxy-authenticate", "proxy-authorization", "te", "trailer", "transfer-encoding", "upgrade", "proxy-connection", "host", "content-length"];

type Bytes = Vec<u8>;
type HMap = BTreeMap<String, Vec<Bytes>>;

#[derive(Clone, Debug)]
enum Rule {
    Named { names: Vec<String>, rename: Option<String>, default: Option<String> },
    Pattern { include: Vec<&'static str>, exclude: Vec<&'static str> },
    Insert { name: String, value: String },
    Expr { name: String, expr: &'static str },
    RemoveNamed(Vec<String>),
    RemovePattern(&'static str),
}

/// the patterns used, as predicates
fn matches(p: &str, n: &str) -> bool {
    match p {
        "^x-.*" => n.starts_with("x-"),
        "^x-a" => n.starts_with("x-a"),
        "-b$" => n.ends_with("-b"),
        "x-legacy" => n.contains("x-legacy"),
        "^x-[ab]$" => n == "x-a" || n == "x-b",
        "^(authorization|cookie)$" => n == "authorization" || n == "cookie",
        "^te$|^host$|^keep-alive$|^proxy-" => HOP.contains(&n) && (n == "te" || n == "host" || n == "keep-alive" || n.starts_with("proxy-")),
        _ => panic!("{p}"),
    }
}
const PATTERNS: &[&str] = &["^x-.*", "^x-a", "-b$", "x-legacy", "^x-[ab]$", "^(authorization|cookie)$", "^te$|^host$|^keep-alive$|^proxy-"];
const NAMES: &[&str] = &["x-a", "X-B", "x-legacy-1", "x-a-b", "Authorization", "cookie", "x-one", "te", "keep-alive", "proxy-authorization"];
const NEW: &[&str] = &["x-new", "x-b", "X-Renamed", "authorization", "te", "proxy-authorization", "keep-alive"];
const EXPRS: &[&str] = &[".subgraph.name", ".request.headers.\"x-one\"", ".request.operation.name", ".request.method", "\"fixed\"", "null"];

fn rules(src: &mut Src, max: usize) -> Vec<Rule> {
    (0..src.n(max + 1))
        .map(|_| match src.n(8) {
            0 | 1 => {
                let n = if src.chance(60) { 1 } else { src.range(2, 3) };
                let mut names: Vec<String> = vec![];
                for _ in 0..n {
                    let x = src.pick(NAMES).to_string();
                    if !names.iter().any(|y| y.eq_ignore_ascii_case(&x)) {
                        names.push(x);
                    }
                }
                let single = names.len() == 1;
                Rule::Named { rename: Some(src.pick(NEW).to_string()).filter(|_| single && src.chance(40)), default: Some("dflt v".to_string()).filter(|_| single && src.chance(40)), names }
            }
            2 | 3 => Rule::Pattern { include: (0..src.range(1, 2)).map(|_| *src.pick(PATTERNS)).collect(), exclude: (0..src.n(3)).map(|_| *src.pick(PATTERNS)).collect() },
            4 => Rule::Insert { name: src.pick(NEW).to_string(), value: src.pick(&["v1", "two words", "a, b", ""]).to_string() },
            5 => Rule::Expr { name: src.pick(NEW).to_string(), expr: src.pick(EXPRS) },
            6 => Rule::RemoveNamed((0..src.range(1, 2)).map(|_| {
                let l = if src.chance(50) { NAMES } else { NEW };
                src.pick(l).to_string()
            }).collect()),
            _ => Rule::RemovePattern(src.pick(PATTERNS)),
        })
        .collect()
}

fn yaml_rules(rules: &[Rule], pad: &str, algo: &dyn Fn(&Rule) -> Option<&'static str>) -> String {
    let list = |l: &[&str]| format!("[{}]", l.iter().map(|s| format!("'{s}'")).collect::<Vec<_>>().join(", "));
    let mut o = String::new();
    for r in rules {
        match r {
            Rule::Named { names, rename, default } => {
                let n: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
                o += &format!("{pad}- propagate:\n{pad}    named: {}\n", if n.len() == 1 { format!("'{}'", n[0]) } else { list(&n) });
                if let Some(x) = rename {
                    o += &format!("{pad}    rename: '{x}'\n");
                }
                if let Some(x) = default {
                    o += &format!("{pad}    default: '{x}'\n");
                }
            }
            Rule::Pattern { include, exclude } => {
                o += &format!("{pad}- propagate:\n{pad}    matching: {}\n", list(include));
                if !exclude.is_empty() {
                    o += &format!("{pad}    exclude: {}\n", list(exclude));
                }
            }
            Rule::Insert { name, value } => o += &format!("{pad}- insert:\n{pad}    name: '{name}'\n{pad}    value: '{value}'\n"),
            Rule::Expr { name, expr } => o += &format!("{pad}- insert:\n{pad}    name: '{name}'\n{pad}    expression: '{expr}'\n"),
            Rule::RemoveNamed(n) => o += &format!("{pad}- remove:\n{pad}    named: {}\n", list(&n.iter().map(|s| s.as_str()).collect::<Vec<_>>())),
            Rule::RemovePattern(p) => o += &format!("{pad}- remove:\n{pad}    matching: '{p}'\n"),
        }
        if let Some(a) = algo(r) {
            o += &format!("{pad}    algorithm: {a}\n");
        }
    }
    o
}

fn apply_request(rules: &[Rule], client: &[(String, Bytes)], sub: &str, out: &mut HMap) {
    let all = |n: &str| client.iter().filter(|(k, _)| k.eq_ignore_ascii_case(n)).map(|(_, v)| v.clone()).collect::<Vec<_>>();
    let hop = |n: &str| HOP.contains(&n);
    for r in rules {
        match r {
            Rule::Named { names, rename, default } => {
                let mut any = false;
                for n in names {
                    let n = n.to_lowercase();
                    let dest = rename.clone().unwrap_or(n.clone()).to_lowercase();
                    if hop(&n) {
                        continue;
                    }
                    let l = all(&n);
                    any |= !l.is_empty();
                    if !l.is_empty() && !hop(&dest) {
                        out.entry(dest).or_default().extend(l);
                    }
                }
                if let (false, Some(d)) = (any, default) {
                    let dest = rename.clone().unwrap_or(names[0].clone()).to_lowercase();
                    if !hop(&dest) {
                        out.entry(dest).or_default().push(d.clone().into());
                    }
                }
            }
            Rule::Pattern { include, exclude } => {
                for (k, v) in client {
                    let k = k.to_lowercase();
                    if !hop(&k) && include.iter().any(|p| matches(p, &k)) && !exclude.iter().any(|p| matches(p, &k)) {
                        out.entry(k).or_default().push(v.clone());
                    }
                }
            }
            Rule::Insert { name, value } => {
                if !hop(&name.to_lowercase()) {
                    out.insert(name.to_lowercase(), vec![value.clone().into()]);
                }
            }
            Rule::Expr { name, expr } => {
                let v: Option<Bytes> = match *expr {
                    ".subgraph.name" => Some(sub.into()),
                    ".request.headers.\"x-one\"" => all("x-one").first().cloned(),
                    ".request.operation.name" => Some("Op".into()),
                    ".request.method" => Some("POST".into()),
                    "\"fixed\"" => Some("fixed".into()),
                    _ => None,
                };
                if let (Some(v), false) = (v, hop(&name.to_lowercase())) {
                    out.insert(name.to_lowercase(), vec![v]);
                }
            }
            Rule::RemoveNamed(n) => {
                for n in n {
                    out.remove(&n.to_lowercase());
                }
            }
            Rule::RemovePattern(p) => out.retain(|k, _| !matches(p, k)),
        }
    }
}

fn show(m: &HMap) -> String {
    format!("{:?}", m.iter().map(|(k, v)| (k, v.iter().map(|x| String::from_utf8_lossy(x).to_string()).collect::<Vec<_>>())).collect::<Vec<_>>())
}

async fn request(src: &mut Src) -> Outcome {
    let all = rules(src, 5);
    let per: Vec<(&str, Vec<Rule>)> = SUBS.iter().filter_map(|(n, _)| if src.chance(40) { Some((*n, rules(src, 4))) } else { None }).collect();
    let none = |_: &Rule| None;
    let mut yaml = String::from("headers:\n");
    if !all.is_empty() {
        yaml += &format!("  all:\n    request:\n{}", yaml_rules(&all, "      ", &none));
    }
    if per.iter().any(|(_, r)| !r.is_empty()) {
        yaml += "  subgraphs:\n";
        for (n, r) in per.iter().filter(|(_, r)| !r.is_empty()) {
            yaml += &format!("    {n}:\n      request:\n{}", yaml_rules(r, "        ", &none));
        }
    }
    if yaml == "headers:\n" {
        return Outcome::Discard;
    }
    let s = match Simple::start(SUBS, &yaml, auto(), plain()).await {
        Ok(s) => s,
        Err(e) => return Outcome::fail("router-does-not-start", format!("{e}\n{yaml}")),
    };
    let (mut evals, mut sig, mut changed) = (0, hash_str(&yaml), BTreeSet::new());
    let mut sample = None;
    for _ in 0..src.range(2, 6) {
        let mut client: Vec<(String, Bytes)> = vec![];
        for n in NAMES {
            if !src.chance(50) || (*n == "keep-alive" && src.chance(70)) {
                continue;
            }
            let times = if *n == "x-one" || HOP.contains(n) || !src.chance(25) { 1 } else { 2 };
            for k in 0..times {
                let v: Bytes = match src.n(6) {
                    _ if *n == "te" => b"trailers".to_vec(),
                    0 if *n != "x-one" => b"caf\xc3\xa9 \xff".to_vec(),
                    1 => b"a,b;c=\"d\"".to_vec(),
                    _ => format!("{}-{k}", src.n(9)).into_bytes(),
                };
                client.push((n.to_string(), v));
            }
        }
        let q = *src.pick(QUERIES);
        let mut h: Vec<(String, Bytes)> = vec![("content-type".into(), b"application/json".to_vec())];
        h.extend(client.clone());
        s.take();
        let r = match s.router.try_send("POST", &s.router.path, &h, serde_json::to_vec(&json!({"query": q})).unwrap().into()).await {
            Ok(r) => r,
            Err(e) => return Outcome::fail("no-response", format!("{e}\n{yaml}")),
        };
        let ok = r.json().is_some_and(|j| j["errors"].is_null() && j["data"].is_object());
        let seen = s.take();
        if !ok || seen.is_empty() {
            return Outcome::fail("request-failed", format!("{yaml}client {client:?}\n{q}\n{}", truncate(&r.text(), 400)));
        }
        evals += 1;
        for x in &seen {
            let mut want = HMap::new();
            apply_request(&all, &client, &x.sub, &mut want);
            if let Some((_, r)) = per.iter().find(|(n, _)| *n == x.sub) {
                apply_request(r, &client, &x.sub, &mut want);
            }
            let mut got = HMap::new();
            for (k, v) in &x.headers {
                got.entry(k.to_string()).or_default().push(v.as_bytes().to_vec());
            }
            // the connection's own headers
            for k in ["content-type", "accept", "accept-encoding", "content-length", "host", "user-agent", "connection", "traceparent", "tracestate"] {
                if k == "content-type" && got.get(k).is_none_or(|l| l.len() != 1) {
                    return Outcome::fail("content-type", format!("{yaml}{}", show(&got)));
                }
                got.remove(k);
            }
            let (mut w, mut g) = (want.clone(), got.clone());
            // the lines of one header keep no order between different rules
            w.values_mut().chain(g.values_mut()).for_each(|l| l.sort());
            if w != g {
                let k = w.keys().chain(g.keys()).find(|k| w.get(*k) != g.get(*k)).unwrap().clone();
                let class = if HOP.contains(&k.as_str()) {
                    "hop-by-hop"
                } else if w.get(&k).map(|l| l.len()) > g.get(&k).map(|l| l.len()) {
                    "header-missing"
                } else {
                    "header-wrong"
                };
                return Outcome::fail(&format!("request:{class}"), format!("{yaml}subgraph {}\nclient {}\nexpected {}\ngot      {}", x.sub, show(&client.iter().fold(HMap::new(), |mut m, (k, v)| { m.entry(k.clone()).or_default().push(v.clone()); m })), show(&want), show(&got)));
            }
            sig = mix(sig, hash_str(&show(&want)));
            changed.insert(show(&want));
        }
        sample.get_or_insert_with(|| format!("{yaml}{q}"));
    }
    Outcome::Pass { nontrivial: changed.len() > 1, sig, labels: vec![format!("rules: {}", all.len() + per.iter().map(|p| p.1.len()).sum::<usize>())], evals, sample }
}

const RNAMES: &[&str] = &["x-r1", "x-r2", "X-List", "vary", "set-cookie", "www-authenticate", "x-r-b", "keep-alive", "content-type"];

async fn response(src: &mut Src) -> Outcome {
    // one algorithm per header for the whole case
    let algos: HashMap<String, &'static str> = RNAMES.iter().map(|n| n.to_string()).chain(["x-dst".to_string(), "x-ins".to_string()]).map(|n| (n.to_lowercase(), *src.pick(&["first", "last", "append"]))).collect();
    #[derive(Clone, Debug)]
    enum R {
        P { names: Vec<String>, rename: bool, default: bool },
        I { name: &'static str, expr: bool },
        Rm(String),
        RmP,
    }
    let list = |src: &mut Src, used: &mut BTreeSet<String>, max: usize| -> Vec<R> {
        let mut l = vec![];
        for _ in 0..src.n(max + 1) {
            if src.chance(75) {
                // a header is propagated by one rule only
                let first = src.pick(RNAMES).to_string();
                if !used.insert(first.to_lowercase()) {
                    continue;
                }
                let mut names = vec![first.clone()];
                for n in RNAMES {
                    if src.chance(15) && algos[&n.to_lowercase()] == algos[&first.to_lowercase()] && used.insert(n.to_lowercase()) {
                        names.push(n.to_string());
                    }
                }
                let never = ["set-cookie", "www-authenticate"].contains(&first.as_str());
                let rename = names.len() == 1 && !never && algos["x-dst"] == algos[&first.to_lowercase()] && src.chance(40) && used.insert("x-dst".into());
                let default = names.len() == 1 && src.chance(40);
                l.push(R::P { names, rename, default });
            } else if used.insert("x-ins".into()) {
                l.push(R::I { name: src.pick(&["x-ins", "content-type", "keep-alive"]), expr: src.chance(40) });
            }
        }
        l
    };
    let mut used = BTreeSet::new();
    let all = list(src, &mut used, 5);
    let per: Vec<(&str, Vec<R>)> = SUBS.iter().map(|(n, _)| (*n, if src.chance(30) { list(src, &mut used, 2) } else { vec![] })).collect();
    let mut removes = vec![];
    if src.chance(25) {
        removes.push(R::Rm(src.pick(RNAMES).to_string()));
    }
    if src.chance(10) {
        removes.push(R::RmP);
    }
    let out = |l: &[R], pad: &str| -> String {
        let mut o = String::new();
        for r in l {
            match r {
                R::P { names, rename, default } => {
                    o += &format!("{pad}- propagate:\n{pad}    named: [{}]\n{pad}    algorithm: {}\n", names.iter().map(|n| format!("'{n}'")).collect::<Vec<_>>().join(", "), algos[&names[0].to_lowercase()]);
                    if *rename {
                        o += &format!("{pad}    rename: X-Dst\n");
                    }
                    if *default {
                        o += &format!("{pad}    default: dflt\n");
                    }
                }
                R::I { name, expr } => {
                    o += &format!("{pad}- insert:\n{pad}    name: {name}\n{pad}    algorithm: {}\n{pad}    {}\n", algos["x-ins"], if *expr { "expression: '.subgraph.name'" } else { "value: ins" });
                }
                R::Rm(n) => o += &format!("{pad}- remove:\n{pad}    named: {n}\n"),
                R::RmP => o += &format!("{pad}- remove:\n{pad}    matching: '^x-r'\n"),
            }
        }
        o
    };
    let mut first = all.clone();
    first.extend(removes.clone());
    let mut yaml = String::from("headers:\n");
    if !first.is_empty() {
        yaml += &format!("  all:\n    response:\n{}", out(&first, "      "));
    }
    if per.iter().any(|p| !p.1.is_empty()) {
        yaml += "  subgraphs:\n";
        for (n, l) in per.iter().filter(|p| !p.1.is_empty()) {
            yaml += &format!("    {n}:\n      response:\n{}", out(l, "        "));
        }
    }
    if used.is_empty() {
        return Outcome::Discard;
    }
    // what each subgraph answers with
    let table: Arc<Mutex<HashMap<String, Vec<(String, String)>>>> = Arc::default();
    let t = table.clone();
    let hook: Hook = Arc::new(move |x, v| {
        let l = t.lock().unwrap().get(&x.sub).cloned().unwrap_or_default();
        Box::pin(async move {
            let mut r = json_resp(200, &v);
            if let MockResp::Http(r) = &mut r {
                for (k, v) in l {
                    if k == "content-type" {
                        continue;
                    }
                    r.headers_mut().append(http::HeaderName::from_bytes(k.to_lowercase().as_bytes()).unwrap(), v.parse().unwrap());
                }
            }
            r
        })
    });
    let s = match Simple::start(SUBS, &yaml, auto(), hook).await {
        Ok(s) => s,
        Err(e) => return Outcome::fail("router-does-not-start", format!("{e}\n{yaml}")),
    };
    let (mut evals, mut sig, mut seen_sets) = (0, hash_str(&yaml), BTreeSet::new());
    for _ in 0..src.range(2, 6) {
        let mut tab = HashMap::new();
        for (n, _) in SUBS {
            let mut l = vec![];
            for h in RNAMES {
                for k in 0..src.weighted(&[50, 40, 10]) {
                    l.push((h.to_string(), format!("{n}{k}-{}", src.n(4))));
                }
            }
            tab.insert(n.to_string(), l);
        }
        *table.lock().unwrap() = tab.clone();
        let q = *src.pick(QUERIES);
        s.take();
        let r = match s.router.gql(&json!({"query": q}), &[]).await {
            Ok(r) => r,
            Err(e) => return Outcome::fail("no-response", format!("{e}\n{yaml}")),
        };
        let asked: Vec<String> = s.take().into_iter().map(|x| x.sub).collect();
        if r.json().is_none_or(|j| !j["errors"].is_null() || !j["data"].is_object()) {
            return Outcome::fail("request-failed", format!("{yaml}{q}\n{}", truncate(&r.text(), 300)));
        }
        evals += 1;
        // header -> values written by answers, default
        let mut writes: BTreeMap<String, Vec<Vec<String>>> = BTreeMap::new();
        let mut defaults: BTreeSet<String> = BTreeSet::new();
        for sub in &asked {
            for r in all.iter().chain(&per.iter().find(|p| p.0 == sub).unwrap().1) {
                match r {
                    R::P { names, rename, default } => {
                        for n in names {
                            let n = n.to_lowercase();
                            if HOP.contains(&n.as_str()) || n == "content-type" {
                                continue;
                            }
                            let dest = if *rename { "x-dst".to_string() } else { n.clone() };
                            let l: Vec<String> = tab[sub].iter().filter(|(k, _)| k.to_lowercase() == n).map(|x| x.1.clone()).collect();
                            if !l.is_empty() {
                                writes.entry(dest).or_default().push(l);
                            } else if *default {
                                defaults.insert(dest);
                            }
                        }
                        if *default {
                            let n = names[0].to_lowercase();
                            if (HOP.contains(&n.as_str()) || n == "content-type") && *rename {
                                defaults.insert("x-dst".into());
                            }
                        }
                    }
                    R::I { name, expr } => {
                        if *name == "x-ins" {
                            writes.entry("x-ins".into()).or_default().push(vec![if *expr { sub.clone() } else { "ins".into() }]);
                        }
                    }
                    _ => {}
                }
            }
        }
        for d in defaults {
            writes.entry(d).or_insert_with(|| vec![vec!["dflt".into()]]);
        }
        for r in &removes {
            match r {
                R::Rm(n) => {
                    // only what this list propagated itself comes before the removal
                    writes.remove(&n.to_lowercase());
                }
                _ => writes.retain(|k, _| !k.starts_with("x-r")),
            }
        }
        // rules of one subgraph come after the removal: do not judge these headers
        let late: BTreeSet<String> = if removes.is_empty() { BTreeSet::new() } else { per.iter().flat_map(|p| &p.1).flat_map(|r| match r { R::P { names, .. } => names.iter().map(|n| n.to_lowercase()).collect(), _ => vec![] }).collect() };
        for h in RNAMES.iter().map(|n| n.to_lowercase()).chain(["x-dst".into(), "x-ins".into()]) {
            if late.contains(&h) {
                continue;
            }
            let got = r.all(&h);
            let explain = |c: &str| Outcome::fail(&format!("response:{c}"), format!("{yaml}header {h}\n{q}\nasked {asked:?}\nanswers {tab:?}\nvalues from answers {:?}\ngot {got:?}", writes.get(&h)));
            if h == "content-type" {
                if got.len() != 1 || !got[0].starts_with("application/") {
                    return explain("content-type");
                }
                continue;
            }
            if HOP.contains(&h.as_str()) {
                if got.iter().any(|v| v.starts_with(['a', 'b', 'c', 'i', 'd'])) {
                    return explain("hop-by-hop");
                }
                continue;
            }
            let Some(w) = writes.get(&h) else {
                // the router adds Vary itself in places
                if !got.is_empty() && h != "vary" {
                    return explain("not-propagated-but-sent");
                }
                continue;
            };
            seen_sets.insert(format!("{h}{w:?}"));
            sig = mix(sig, hash_str(&format!("{h}{w:?}")));
            let flat: BTreeSet<String> = w.iter().flatten().cloned().collect();
            let sorted = |mut l: Vec<String>| {
                l.sort();
                l
            };
            if h == "set-cookie" || h == "www-authenticate" {
                if sorted(got.clone()) != sorted(w.iter().flatten().cloned().collect()) {
                    return explain("never-join");
                }
                continue;
            }
            match algos[&h] {
                "append" => {
                    let parts: Vec<String> = got.iter().flat_map(|v| v.split(", ").map(|s| s.to_string())).collect();
                    if got.len() != 1 || sorted(parts) != sorted(w.iter().flatten().cloned().collect()) {
                        return explain("append");
                    }
                }
                a => {
                    let ends: BTreeSet<&String> = w.iter().map(|l| if a == "first" { &l[0] } else { l.last().unwrap() }).collect();
                    if got.len() != 1 || !flat.contains(&got[0]) || !ends.contains(&got[0]) {
                        return explain(a);
                    }
                    // one answer after the other: the order is known
                    if q.contains("{ ta {") && asked.len() == 2 && !q.contains("fc") {
                        let want = if a == "first" { &w[0][0] } else { w.last().unwrap().last().unwrap() };
                        if &got[0] != want {
                            return explain(&format!("{a}-order"));
                        }
                    }
                }
            }
        }
    }
    Outcome::Pass { nontrivial: seen_sets.len() > 2, sig, labels: vec![format!("removes: {}", removes.len())], evals, sample: Some(yaml) }
}

#[derive(Default, Clone, Debug)]
struct Cc {
    poison: bool,
    public: bool,
    age: Option<u64>,
    revalidate: bool,
}

/// None: absent or unusable
fn parse_cc(v: &str) -> Option<Cc> {
    let mut c = Cc::default();
    let mut bad = v.trim().is_empty();
    for p in v.split(',').map(|p| p.trim()).filter(|p| !p.is_empty()) {
        let (t, a) = p.split_once('=').map(|(t, a)| (t.trim(), Some(a.trim()))).unwrap_or((p, None));
        match t.to_lowercase().as_str() {
            "no-store" | "no-cache" | "private" => c.poison = true,
            "public" => c.public = true,
            "must-revalidate" => c.revalidate = true,
            "max-age" => match a.and_then(|a| a.parse::<u32>().ok()) {
                Some(n) => c.age = Some(c.age.map_or(n as u64, |a| a.min(n as u64))),
                None => bad = true,
            },
            _ => bad = true,
        }
    }
    (!bad || c.poison).then_some(c)
}

async fn cache(src: &mut Src) -> Outcome {
    let default = src.chance(15);
    let pattern = !default && src.chance(20);
    let yaml = format!("headers:\n  all:\n    response:\n      - propagate:\n          {}\n          algorithm: append\n{}", if pattern { "matching: '^cache-'" } else { "named: Cache-Control" }, if default { "          default: max-age=5\n" } else { "" });
    type Tab = HashMap<String, (Vec<String>, usize)>;
    let table: Arc<Mutex<Tab>> = Arc::default();
    let t = table.clone();
    let hook: Hook = Arc::new(move |x, mut v| {
        let (l, how) = t.lock().unwrap().get(&x.sub).cloned().unwrap_or_default();
        Box::pin(async move {
            if how == 1 {
                v["errors"] = json!([{"message": "e"}]);
            }
            if how == 2 {
                return MockResp::Drop;
            }
            let mut r = json_resp(if how == 3 { 500 } else { 200 }, &if how == 3 { json!({"errors": [{"message": "down"}]}) } else { v });
            if let MockResp::Http(r) = &mut r {
                for v in l {
                    r.headers_mut().append("cache-control", v.parse().unwrap());
                }
            }
            r
        })
    });
    let s = match Simple::start(SUBS, &yaml, auto(), hook).await {
        Ok(s) => s,
        Err(e) => return Outcome::fail("router-does-not-start", format!("{e}\n{yaml}")),
    };
    let (mut evals, mut sig, mut multi) = (0, hash_str(&yaml), 0);
    let mut sample = None;
    for _ in 0..src.range(4, 12) {
        let mut tab = Tab::new();
        let calm = src.chance(70);
        for (n, _) in SUBS {
            let n_values = src.weighted(&[15, 75, 10]);
            let l = (0..n_values)
                .map(|_| {
                    let mut parts: Vec<String> = vec![];
                    for _ in 0..src.range(1, 3) {
                        parts.push(match src.n(if calm { 8 } else { 14 }) {
                            0..=1 => "public".into(),
                            2..=4 => format!("max-age={}", src.pick(&[0, 1, 5, 60, 300, 86400])),
                            5 => "must-revalidate".into(),
                            6 => format!("Max-Age = {}", src.n(1000)),
                            7 => "PUBLIC".into(),
                            8 => src.pick(&["private", "no-store", "no-cache", "Private"]).to_string(),
                            9 => "no-cache=\"x-a\"".into(),
                            10 => src.pick(&["s-maxage=10", "immutable", "stale-while-revalidate=60", "bogus"]).to_string(),
                            11 => src.pick(&["max-age=woof", "max-age", "max-age=-1"]).to_string(),
                            12 => "".into(),
                            _ => "private=\"set-cookie\"".into(),
                        });
                    }
                    parts.join(src.pick(&[", ", ",", " , "]))
                })
                .collect();
            tab.insert(n.to_string(), (l, if calm || src.chance(80) { 0 } else { src.range(1, 3) }));
        }
        *table.lock().unwrap() = tab.clone();
        let mutation = src.chance(10);
        let q = if mutation { "mutation { ma }" } else { *src.pick(QUERIES) };
        s.take();
        let r = match s.router.gql(&json!({"query": q}), &[]).await {
            Ok(r) => r,
            Err(e) => return Outcome::fail("no-response", format!("{e}\n{yaml}")),
        };
        let asked: Vec<String> = s.take().into_iter().map(|x| x.sub).collect();
        let j = r.json().unwrap_or(Value::Null);
        evals += 1;
        let failed = asked.iter().any(|x| tab[x].1 != 0);
        let mut values: Vec<String> = vec![];
        let mut silent = 0;
        for x in &asked {
            let l = &tab[x].0;
            if tab[x].1 == 2 {
                continue;
            }
            if l.is_empty() {
                silent += 1;
            }
            // several lines of one answer are one list
            if !l.is_empty() {
                values.push(l.join(", "));
            }
        }
        if values.is_empty() && default && asked.iter().any(|x| tab[x].1 != 2) {
            values.push("max-age=5".into());
        }
        let parsed: Vec<Option<Cc>> = values.iter().map(|v| parse_cc(v)).collect();
        let got = r.all("cache-control");
        let explain = |c: &str| Outcome::fail(&format!("cache:{c}"), format!("{yaml}{q}\nasked {asked:?} errors {}\nvalues {tab:?}\ngot {got:?}", j["errors"]));
        sig = mix(sig, hash_str(&format!("{values:?}{failed}{mutation}")));
        if failed != !j["errors"].is_null() {
            return explain("errors");
        }
        if got.len() > 1 {
            return explain("repeated");
        }
        let set: BTreeSet<String> = got.iter().flat_map(|v| v.split(',').map(|p| p.trim().to_lowercase())).collect();
        if values.is_empty() {
            if !got.is_empty() {
                return explain("from-nowhere");
            }
            continue;
        }
        multi += (values.len() > 1) as usize;
        let want: BTreeSet<String> = if failed || mutation {
            ["no-store", "no-cache", "must-revalidate"].iter().map(|s| s.to_string()).collect()
        } else if parsed.iter().flatten().any(|c| c.poison) {
            ["no-store", "no-cache"].iter().map(|s| s.to_string()).collect()
        } else {
            let mut o = BTreeSet::new();
            let l: Vec<&Cc> = parsed.iter().flatten().collect();
            if !l.is_empty() && l.len() == parsed.len() && silent == 0 && l.iter().all(|c| c.public) {
                o.insert("public".to_string());
            }
            if let Some(a) = l.iter().filter_map(|c| c.age).min() {
                o.insert(format!("max-age={a}"));
            }
            if l.iter().any(|c| c.revalidate) {
                o.insert("must-revalidate".into());
            }
            o
        };
        let mut set = set;
        set.remove("");
        if set != want {
            return explain(if parsed.iter().flatten().any(|c| c.poison) { "poison-lost" } else { "merge" });
        }
        sample.get_or_insert_with(|| format!("{values:?} -> {got:?}"));
    }
    Outcome::Pass { nontrivial: multi > 1, sig, labels: vec![], evals, sample }
}
