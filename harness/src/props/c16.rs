//! C16: what browsers of foreign sites may do: CORS headers and CSRF prevention.
use crate::runner::{truncate, BoxFut, Property};
use crate::simple::*;
use crate::tape::{hash_str, mix, Outcome, Src};
use bytes::Bytes;
use serde_json::{json, Value};
use std::collections::BTreeSet;

pub fn property() -> Property {
    Property::new("C16", "a case is a CORS configuration (any origin, or policies by literal origins and patterns, with credentials, methods, request and exposed headers, max age and preflight headers on either level), a CSRF configuration and 8-24 requests as browsers and others send them: preflights, simple and preflighted requests, from allowed, look-alike, opaque (null) and no origins, with all kinds of content types, valid or not. The answer's headers must be exactly those of the first matching policy, computed by a reference; a browser (reference algorithm) must let the page read the answer if and only if the origin is allowed; a request a browser sends without preflight must not reach a subgraph without one of the required headers. Non-trivial: allowed and foreign origins, or requests refused and served")
        .part("browser", 220, 8000, |s: &mut Src| -> BoxFut<'_> { Box::pin(run(s)) })
        .workers(8)
}

const SDL: &str = "type Query { a: Int } type Mutation { m: Int }";
const ORIGINS: &[&str] = &["https://example.com", "https://a.example.com", "https://b.a.example.com", "https://a.example.com.evil.org", "https://evil.org", "http://example.com", "https://example.com:8443", "http://localhost:3000", "http://localhost:x", "null", "https://EXAMPLE.com", "https://aexample.com", "https://example.com.", "file://"];

type Pat = (&'static str, fn(&str) -> bool);
const PATTERNS: &[Pat] = &[
    ("^https://.*\\.example\\.com$", |o| o.starts_with("https://") && o.ends_with(".example.com") && o.len() >= "https://.example.com".len()),
    ("^http://localhost:[0-9]+$", |o| o.strip_prefix("http://localhost:").is_some_and(|p| !p.is_empty() && p.bytes().all(|b| b.is_ascii_digit()))),
    ("evil", |o| o.contains("evil")),
    ("(?i)^https://example\\.com(:[0-9]+)?$", |o| {
        let l = o.to_lowercase();
        l.strip_prefix("https://example.com").is_some_and(|r| r.is_empty() || r.strip_prefix(':').is_some_and(|p| !p.is_empty() && p.bytes().all(|b| b.is_ascii_digit())))
    }),
    ("^null$", |o| o == "null"),
    ("^https?://example\\.com$", |o| o == "https://example.com" || o == "http://example.com"),
];

#[derive(Default, Clone, Debug)]
struct Level {
    origins: Option<Vec<&'static str>>,
    patterns: Option<Vec<usize>>,
    credentials: Option<bool>,
    methods: Option<Vec<&'static str>>,
    allow: Option<Vec<&'static str>>,
    expose: Option<Vec<&'static str>>,
    age: Option<u64>,
    pre: Vec<(&'static str, String)>,
}

fn level(src: &mut Src, policy: bool) -> Level {
    let mut l = Level::default();
    let list = |src: &mut Src, xs: &[&'static str]| match src.n(4) {
        0 => Some(src.subset(xs, 50)),
        _ => None,
    };
    if policy {
        if src.chance(65) {
            l.origins = Some(src.subset(ORIGINS, 20));
        }
        if src.chance(45) {
            let all: Vec<usize> = (0..PATTERNS.len()).collect();
            l.patterns = Some(src.subset(&all, 30));
        }
    }
    if src.chance(40) {
        l.credentials = Some(src.chance(60));
    }
    l.methods = list(src, &["GET", "POST", "OPTIONS", "PUT"]);
    l.allow = list(src, &["Content-Type", "Authorization", "X-A"]);
    l.expose = list(src, &["X-Exposed", "X-B"]);
    if src.chance(30) {
        l.age = Some(src.n(100000) as u64);
    }
    if src.chance(35) {
        for k in src.subset(&["cache-control", "x-pre", "server-timing"], 50) {
            l.pre.push((k, format!("v{}", src.n(5))));
        }
    }
    l
}

fn yaml_level(l: &Level, pad: &str) -> String {
    let mut o = String::new();
    let list = |xs: &Vec<&str>| format!("[{}]", xs.iter().map(|x| format!("'{x}'")).collect::<Vec<_>>().join(", "));
    if let Some(x) = &l.origins {
        o += &format!("{pad}origins: {}\n", list(x));
    }
    if let Some(x) = &l.patterns {
        o += &format!("{pad}match_origin: {}\n", list(&x.iter().map(|i| PATTERNS[*i].0).collect()));
    }
    if let Some(x) = l.credentials {
        o += &format!("{pad}allow_credentials: {x}\n");
    }
    for (n, x) in [("methods", &l.methods), ("allow_headers", &l.allow), ("expose_headers", &l.expose)] {
        if let Some(x) = x {
            o += &format!("{pad}{n}: {}\n", list(x));
        }
    }
    if let Some(x) = l.age {
        o += &format!("{pad}max_age: {x}\n");
    }
    if !l.pre.is_empty() {
        o += &format!("{pad}preflight_response_headers:\n");
        for (k, v) in &l.pre {
            o += &format!("{pad}  {k}: '{v}'\n");
        }
    }
    o
}

const TYPES: &[Option<&str>] = &[Some("application/json"), Some("application/json; charset=utf-8"), Some("text/plain"), Some("TEXT/Plain"), Some("text/plain;charset=UTF-8"), Some("application/x-www-form-urlencoded"), Some("multipart/form-data; boundary=x"), None, Some("application/graphql"), Some("application/xml"), Some("Multipart/Form-Data")];

async fn run(src: &mut Src) -> Outcome {
    let enabled = src.chance(92);
    let any = src.chance(25);
    let global = level(src, false);
    let policies: Vec<Level> = (0..src.range(1, 3)).map(|_| level(src, true)).collect();
    let mut yaml = format!("cors:\n  enabled: {enabled}\n  allow_any_origin: {any}\n{}", yaml_level(&global, "  "));
    if policies.is_empty() {
        yaml += "  policies: []\n";
    } else {
        yaml += "  policies:\n";
        for p in &policies {
            let y = yaml_level(p, "      ");
            yaml += &match y.is_empty() {
                true => "    - {}\n".to_string(),
                false => format!("    - {}", &y[6..]),
            };
        }
    }
    let csrf = src.chance(70);
    let csrf_on = src.chance(85);
    let required = if src.chance(90) { src.subset(&["X-Csrf", "x-other-token", "Apollo-Require-Preflight"], 60) } else { vec![] };
    if csrf {
        yaml += &format!("csrf:\n  enabled: {csrf_on}\n  required_headers: [{}]\n", required.join(", "));
    }
    let s = match Simple::start(&[("a", SDL)], &yaml, auto(), plain()).await {
        Ok(s) => s,
        Err(e) => return Outcome::fail("router-does-not-start", format!("{yaml}{e}")),
    };
    let active = enabled && (any || !policies.is_empty());
    let (mut evals, mut sig) = (0, hash_str(&yaml));
    let mut kinds = BTreeSet::new();
    for _ in 0..src.range(8, 24) {
        let origin = if src.chance(85) { Some(*src.pick(ORIGINS)) } else { None };
        let mut h: Vec<(String, String)> = vec![];
        if let Some(o) = origin {
            h.push((if src.chance(50) { "origin" } else { "Origin" }.into(), o.into()));
        }
        let preflight = src.chance(30);
        let reflect_m = (preflight && src.chance(85)) || src.chance(5);
        let reflect_h = (preflight && src.chance(70)) || src.chance(5);
        let rm = *src.pick(&["POST", "GET", "DELETE"]);
        let rh = *src.pick(&["content-type", "content-type,x-a", "x-weird"]);
        if reflect_m {
            h.push(("access-control-request-method".into(), rm.into()));
        }
        if reflect_h {
            h.push(("access-control-request-headers".into(), rh.into()));
        }
        let ctype = if preflight { None } else { *src.pick(TYPES) };
        if let Some(t) = ctype {
            h.push(("content-type".into(), t.into()));
        }
        let token = !preflight && src.chance(30);
        if token {
            let name = *src.pick(&["x-csrf", "X-OTHER-Token", "apollo-require-preflight", "x-unrelated"]);
            h.push((name.into(), src.pick(&["1", "", "abc"]).to_string()));
        }
        let has_required = h.iter().any(|(k, _)| required.iter().any(|r| r.eq_ignore_ascii_case(k)));
        let get = !preflight && src.chance(25);
        let valid = src.chance(80);
        let mutation = src.chance(40);
        let op = match (valid, mutation) {
            (false, _) => "{ a nope ",
            (_, true) => "mutation { m }",
            _ => "{ a }",
        };
        let (method, path, body) = if preflight {
            ("OPTIONS", s.router.path.clone(), Bytes::new())
        } else if get {
            ("GET", format!("{}?query={}", s.router.path, super::enc(op)), Bytes::new())
        } else {
            ("POST", s.router.path.clone(), Bytes::from(json!({"query": op}).to_string()))
        };
        s.take();
        let hb: Vec<(String, Vec<u8>)> = h.iter().map(|(k, v)| (k.clone(), v.clone().into_bytes())).collect();
        let r = match s.router.try_send(method, &path, &hb, body).await {
            Ok(r) => r,
            Err(e) => return Outcome::fail("no-response", format!("{yaml}{method} {path} {h:?}: {e}")),
        };
        let asked = s.take();
        evals += 1;
        sig = mix(sig, hash_str(&format!("{method}{h:?}")));
        let explain = |c: &str, m: String| Outcome::fail(c, format!("{m}\n{yaml}request: {method} {path} {h:?}\nanswer: {} {:?} {}\nsubgraph requests: {}", r.status, r.headers, truncate(&r.text(), 300), asked.len()));
        // CSRF
        let simple = ctype.is_none_or(|t| ["application/x-www-form-urlencoded", "multipart/form-data", "text/plain"].iter().any(|x| t.to_lowercase().starts_with(x)));
        let blocked = csrf && csrf_on && !required.is_empty() && simple && !has_required;
        if !(preflight && active) {
            if blocked {
                kinds.insert("blocked");
                if !asked.is_empty() {
                    return explain("forged-request-executed", "a request without preflight reached a subgraph".into());
                }
                if r.status != 403 && !preflight {
                    return explain("forged-request-not-refused", "expected 403".into());
                }
            } else {
                if r.status == 403 {
                    return explain("refused-without-need", "not expected to be refused".into());
                }
                if ctype == Some("application/json") && valid && !preflight && !(get && mutation) {
                    kinds.insert("served");
                    if asked.len() != 1 || r.status != 200 {
                        return explain("not-served", "expected the operation to be executed".into());
                    }
                }
            }
        }
        if preflight && active && (r.status != 204 || !asked.is_empty() || !r.body.is_empty()) {
            return explain("preflight-answer", "expected 204 without a body".into());
        }
        // CORS
        let policy = match origin {
            _ if !active => None,
            None => None,
            Some(_) if any => Some(None),
            Some(o) => policies.iter().find(|p| p.origins.iter().flatten().any(|x| *x == o) || p.patterns.iter().flatten().any(|i| PATTERNS[*i].1(o))).map(Some),
        };
        let all = |n: &str| r.all(n);
        let aca: Vec<String> = ["allow-origin", "allow-methods", "allow-headers", "allow-credentials", "expose-headers", "max-age"].iter().map(|n| format!("access-control-{n}")).collect();
        let Some(p) = policy else {
            let origins = all("access-control-allow-origin");
            let foreign = origin.is_some() && active;
            if foreign {
                kinds.insert("foreign");
            }
            if origins.iter().any(|x| x == "*" || Some(x.as_str()) == origin) {
                return explain("answer-shown-to-foreign-site", "a browser would let the page read the answer".into());
            }
            if let Some(n) = aca.iter().skip(1).find(|n| !all(n).is_empty()) {
                return explain("headers-for-foreign-origin", n.clone());
            }
            if !foreign && !origins.is_empty() {
                return explain("headers-without-cors", String::new());
            }
            continue;
        };
        kinds.insert("allowed");
        let none = Level::default();
        let p = p.unwrap_or(&none);
        let list = |a: &Option<Vec<&str>>, b: &Option<Vec<&str>>| [a, b].into_iter().flatten().find(|l| !l.is_empty()).map(|l| l.join(", "));
        let mut want: Vec<(String, Option<String>)> = vec![
            ("allow-origin".into(), origin.map(|o| o.to_string())),
            ("allow-methods".into(), list(&p.methods, &global.methods).or(reflect_m.then(|| rm.to_string()))),
            ("allow-headers".into(), list(&p.allow, &global.allow).or(reflect_h.then(|| rh.to_string()))),
            ("allow-credentials".into(), p.credentials.or(global.credentials).unwrap_or(false).then(|| "true".to_string())),
            ("expose-headers".into(), list(&p.expose, &global.expose)),
            ("max-age".into(), p.age.or(global.age).map(|x| x.to_string())),
        ];
        for w in &mut want {
            w.0 = format!("access-control-{}", w.0);
        }
        if preflight {
            for k in ["cache-control", "x-pre", "server-timing"] {
                let v = p.pre.iter().chain(&global.pre).find(|x| x.0 == k).map(|x| x.1.clone());
                want.push((k.into(), v));
            }
        } else {
            want.push(("x-pre".into(), None));
        }
        for (n, w) in want {
            if all(&n) != w.clone().into_iter().collect::<Vec<_>>() {
                return explain(&format!("header:{n}"), format!("{n}: expected {w:?}, got {:?}", all(&n)));
            }
        }
        let vary: Vec<String> = all("vary").iter().flat_map(|v| v.split(',').map(|x| x.trim().to_lowercase()).collect::<Vec<_>>()).collect();
        if origin != Some("null") && !vary.contains(&"origin".to_string()) {
            return explain("vary-origin-missing", "the answer depends on the origin".into());
        }
    }
    let _: Value = Value::Null;
    Outcome::Pass { nontrivial: (kinds.contains("allowed") && kinds.contains("foreign")) || (kinds.contains("blocked") && kinds.contains("served")), sig, labels: kinds.iter().map(|k| k.to_string()).collect(), evals, sample: Some(yaml) }
}
