//! C21: reloading the supergraph: every request is served by one version, and the newest valid one wins.
use crate::mock::*;
use crate::router::{yaml_str, Router};
use crate::runner::{truncate, BoxFut, Property};
use crate::simple::*;
use crate::tape::{hash_str, mix, Outcome, Src};
use crate::world::interp::RV;
use futures::FutureExt;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub fn property() -> Property {
    Property::new("C21", "a case is a history of 3-7 supergraph updates - valid versions that move fields between subgraphs, change types, add and remove fields and subgraphs; broken ones (no GraphQL, truncated, no supergraph, empty), removals, CDN failures - published through a polled file (written in place, renamed, with an older modification time) or a mock CDN (ETags, two endpoints, broken transfers), with requests before, across (slow subgraphs) and after each. Every value tells its version: an answer must be wholly that of one version which was current during the request; within bounds the newest valid version must be the one answering, and a broken one must change nothing. Non-trivial: two versions answered the same document differently")
        .part("file", 80, 3000, |s: &mut Src| -> BoxFut<'_> { Box::pin(run(s, false)) })
        .part("cdn", 60, 2500, |s: &mut Src| -> BoxFut<'_> { Box::pin(run(s, true)) })
        .workers(8)
}

/// Version shapes; every one has `v`.
const SHAPES: &[&[(&str, &str)]] = &[
    &[("a", "type Query { v: Int x: Int p: P only0: Int } type P @key(fields: \"id\") { id: ID! pa: Int }"), ("b", "type Query { y: Int } type P @key(fields: \"id\") { id: ID! pb: Int }")],
    &[("a", "type Query { y: Int p: P } type P @key(fields: \"id\") { id: ID! pb: Int }"), ("b", "type Query { v: Int x: Int only1: Int } type P @key(fields: \"id\") { id: ID! pa: Int }")],
    &[("a", "type Query { v: Int x: String p: P } type P @key(fields: \"id\") { id: ID! pa: Int pb: Int }")],
    &[("c", "type Query { v: Int x: [Int] y(n: Int!): Int p: [P] } type P @key(fields: \"id\") { id: ID! pa: Int }"), ("b", "type P @key(fields: \"id\") { id: ID! pb: P }"), ("a", "type Query { only0: Int }")],
    &[("a", "type Query { v: Int x: Int y: Int p: I only1: Int } interface I { id: ID! pa: Int pb: Int } type P implements I @key(fields: \"id\") { id: ID! pa: Int pb: Int }"), ("b", "type Query { only0: Int }")],
];
const OPS: &[&str] = &["{ v }", "{ v x y }", "{ x }", "{ p { pa pb } v }", "{ p { id pb } }", "{ only0 v }", "{ only1 }", "{ p { pb { id } } }", "query($n: Int!) { y(n: $n) }", "{ p { ... on P { pa } pb } }", "{ y v only0 }"];

struct Version {
    sc: Arc<Schemas>,
    mount: Mount,
    text: String,
    n: u64,
}
impl Version {
    fn res(&self) -> Resolver {
        res(self.n)
    }
}
/// Every leaf carries the version.
fn res(n: u64) -> Resolver {
    Arc::new(move |ty, f, _, id| {
        let h = mix(hash_str(f), id) % 100;
        Some(match (ty, f) {
            (_, "id") => return None,
            ("Query", "p") if n % 5 == 3 => RV::List(vec![obj("P", 1), obj("P", 2)]),
            ("Query", "p") => obj("P", 1),
            (_, "pb") if n % 5 == 3 => obj("P", id + 5),
            (_, "x") if n % 5 == 3 => RV::List(vec![RV::Leaf(json!(n * 1000 + h))]),
            (_, "x") if n % 5 == 2 => RV::Leaf(json!(format!("version {n}"))),
            (_, "_entities") => return None,
            _ => RV::Leaf(json!(n * 1000 + h)),
        })
    })
}

#[derive(Default)]
struct Cdn {
    text: String,
    etag: u64,
    /// how to fail: 0 not, 1 status, 2 broken transfer, 3 drop
    fail: [u8; 2],
    hits: u64,
    no_key: bool,
}

async fn run(src: &mut Src, cdn: bool) -> Outcome {
    // `n % 5` is the shape: version numbers are chosen to fit
    let count = src.range(3, 7);
    let slow = Arc::new(Mutex::new(0u64));
    let mut next_n = 10u64;
    let make = |shape: usize, next_n: &mut u64| -> Version {
        while *next_n % 5 != shape as u64 {
            *next_n += 1;
        }
        let n = *next_n;
        *next_n += 1;
        let sc = schemas(SHAPES[shape]);
        let slow = slow.clone();
        let hook: Hook = Arc::new(move |seen, v| {
            let ms = match !seen.header("x-slow").is_empty() {
                true => *slow.lock().unwrap(),
                false => 0,
            };
            async move {
                tokio::time::sleep(Duration::from_millis(ms)).await;
                json_resp(200, &v)
            }
            .boxed()
        });
        let m = mount(&sc, &Default::default(), res(n), hook);
        let mut text = sc.supergraph.clone();
        for s in &sc.subs {
            text = text.replace(&format!("http://127.0.0.1:1/placeholder/{}/", s.name), &m.url(&s.name));
        }
        Version { sc, mount: m, text, n }
    };
    let s0 = src.n(SHAPES.len());
    let first = make(s0, &mut next_n);
    let dir = tempfile::tempdir().unwrap_or_else(|e| crate::runner::harness_error(e));
    let file = dir.path().join("sg.graphql");
    std::fs::write(&file, &first.text).unwrap();
    let state = Arc::new(Mutex::new(Cdn { text: first.text.clone(), etag: 1, ..Default::default() }));
    let etags = src.chance(75);
    let st = state.clone();
    let cdn_mount = Mount::new(Arc::new(move |r: MockReq| {
        let st = st.clone();
        async move {
            let mut g = st.lock().unwrap();
            g.hits += 1;
            g.no_key |= r.headers.get("x-hive-cdn-key").is_none_or(|k| k != "the-key");
            let which = usize::from(r.uri.path().contains("second"));
            let tag = format!("\"{}\"", g.etag);
            match g.fail[which] {
                1 => raw_resp(500, &[], "failure"),
                2 => broken_resp(200, &[("etag", &tag)], g.text[..g.text.len() / 2].to_string()),
                3 => MockResp::Drop,
                _ if etags && r.headers.get("if-none-match").is_some_and(|t| t == &tag) => raw_resp(304, &[], ""),
                _ if etags => raw_resp(200, &[("etag", &tag)], g.text.clone()),
                _ => raw_resp(200, &[], g.text.clone()),
            }
        }
        .boxed()
    }));
    let second = src.chance(50);
    let yaml = match cdn {
        true => format!(
            "supergraph:\n  source: hive\n  endpoint: [{}{}]\n  key: the-key\n  poll_interval: 25ms\n  retry_policy:\n    max_retries: 0\n",
            yaml_str(&cdn_mount.url("first")),
            if second { format!(", {}", yaml_str(&cdn_mount.url("second"))) } else { String::new() }
        ),
        false => format!("supergraph:\n  source: file\n  path: {}\n  poll_interval: 25ms\n", yaml_str(file.to_str().unwrap())),
    };
    let yaml = format!("{yaml}log:\n  level: error\nheaders:\n  all:\n    request:\n      - propagate:\n          named: x-slow\n");
    let router = match Router::start(&yaml).await {
        Ok(r) => match r.ready().await {
            Ok(r) => Arc::new(r),
            Err(e) => return Outcome::fail("router-never-ready", e),
        },
        Err(e) => return Outcome::fail("router-does-not-start", format!("{yaml}{e}")),
    };
    let mut current = Arc::new(first);
    let mut history = vec![format!("version {} (shape {s0})", current.n)];
    let mut sig = hash_str(&yaml.replace(|c: char| c.is_ascii_digit(), ""));
    let mut kinds: BTreeSet<&'static str> = BTreeSet::new();
    let mut evals = 0u64;
    let mut failures = 0;
    let mut past = 1_000_000u64;

    fn expected(v: &Version, q: &str) -> Result<Value, String> {
        v.sc.reference_of(&v.res(), q, &json!({"n": 3}))
    }
    fn judge(r: &crate::router::Resp, q: &str, versions: &[Arc<Version>]) -> Result<(), (String, String)> {
        let Some(b) = r.json() else { return Err(("answer-is-no-json".into(), format!("{q}: {} {}", r.status, truncate(&r.text(), 300)))) };
        let mut want = vec![];
        for v in versions {
            match expected(v, q) {
                Ok(d) if b["data"] == d && b.get("errors").is_none() => return Ok(()),
                Err(_) if b["errors"].as_array().is_some_and(|l| !l.is_empty()) && b["data"].is_null() => return Ok(()),
                Ok(d) => want.push(format!("version {}: {d}", v.n)),
                Err(e) => want.push(format!("version {}: refused ({})", v.n, truncate(&e, 80))),
            }
        }
        Err((if versions.len() == 1 { "not-the-current-version".into() } else { "not-one-version".into() }, format!("{q}: got {} {}\nexpected {}", r.status, truncate(&r.text(), 500), want.join("\n or "))))
    }
    let send = |q: &'static str, slow: bool| {
        let router = router.clone();
        async move { router.gql(&json!({"query": q, "variables": {"n": 3}}), if slow { &[("x-slow", "1")] } else { &[] }).await }
    };
    macro_rules! check {
        ($q:expr, $r:expr, $vs:expr) => {
            evals += 1;
            match $r {
                Ok(r) => {
                    if let Err((c, m)) = judge(&r, $q, $vs) {
                        return Outcome::fail(&c, format!("{m}\nhistory: {history:#?}\n{yaml}"));
                    }
                }
                Err(e) => return Outcome::fail("no-response", format!("{}: {e}\nhistory: {history:#?}", $q)),
            }
        };
    }
    for step in 0..count {
        // settled: exactly the current version
        for _ in 0..src.range(1, 4) {
            let q = *src.pick(OPS);
            check!(q, send(q, false).await, &[current.clone()]);
        }
        // requests that the update overtakes
        *slow.lock().unwrap() = src.range(5, 90) as u64;
        let mut flying = vec![];
        for _ in 0..src.n(4) {
            let q = *src.pick(OPS);
            flying.push((q, tokio::task::spawn_local(send(q, true))));
        }
        if !flying.is_empty() && src.chance(70) {
            tokio::time::sleep(Duration::from_millis(5)).await;
        }
        let kind = src.weighted(&[60, 25, 15]);
        let good = kind == 0;
        let mut next = current.clone();
        let text = if good {
            let shape = src.n(SHAPES.len());
            let v = make(shape, &mut next_n);
            next = Arc::new(v);
            next.text.clone()
        } else {
            match src.n(3) {
                0 => String::new(),
                1 => "this is no graphql {{{".into(),
                _ => format!("{} {{", &current.text[..current.text.len() / 2]),
            }
        };
        let mut what = if good { format!("version {} (shape {})", next.n, next.n % 5) } else { format!("broken {:?}", truncate(&text, 20)) };
        let mut effective = good;
        if cdn {
            let mut g = state.lock().unwrap();
            g.fail = [0, 0];
            if kind == 2 {
                // the CDN fails for a moment, nothing new
                if failures < 2 {
                    failures += 1;
                    let f = 1 + src.n(3) as u8;
                    g.fail = [f, f];
                    what = format!("CDN failure {f}");
                } else {
                    what = "nothing".into();
                }
            } else {
                g.text = text;
                g.etag += 1;
                if failures < 2 && src.chance(30) {
                    failures += 1;
                    let f = 1 + src.n(3) as u8;
                    g.fail[0] = f;
                    if !second || f == 2 {
                        g.fail[1] = f;
                    }
                    what += &format!(", fetched after failure {f} of the first endpoint");
                }
            }
            let hits = g.hits;
            let failing = g.fail != [0, 0];
            drop(g);
            if failing {
                kinds.insert("failing");
                // one failing poll, then all is well
                let t = Instant::now();
                while state.lock().unwrap().hits == hits && t.elapsed() < Duration::from_secs(5) {
                    tokio::time::sleep(Duration::from_millis(1)).await;
                }
                state.lock().unwrap().fail = [0, 0];
            }
        } else if kind == 2 && src.chance(50) {
            std::fs::remove_file(&file).unwrap();
            tokio::time::sleep(Duration::from_millis(60)).await;
            what = "removed".into();
            effective = false;
            next = current.clone();
            history.push(what.clone());
            let q = *src.pick(OPS);
            check!(q, send(q, false).await, &[current.clone()]);
            std::fs::write(&file, &current.text).unwrap();
            what = "restored".into();
        } else {
            let tmp = dir.path().join("next.graphql");
            match src.n(3) {
                0 => {
                    std::fs::write(&tmp, &text).unwrap();
                    std::fs::rename(&tmp, &file).unwrap();
                    what += ", renamed";
                }
                1 => {
                    // a file deployed with the modification time it had at its origin
                    past += 10;
                    std::fs::write(&tmp, &text).unwrap();
                    let t = std::time::SystemTime::UNIX_EPOCH + Duration::from_secs(if src.chance(50) { past } else { 2_000_000_000 + past });
                    std::fs::File::options().write(true).open(&tmp).unwrap().set_modified(t).unwrap();
                    std::fs::rename(&tmp, &file).unwrap();
                    what += ", renamed, of another time";
                }
                _ => {
                    std::fs::write(&file, &text).unwrap();
                    what += ", in place";
                }
            }
        }
        history.push(what);
        sig = mix(sig, hash_str(history.last().unwrap()));
        let both = [current.clone(), next.clone()];
        for _ in 0..src.n(4) {
            let q = *src.pick(OPS);
            check!(q, send(q, src.chance(50)).await, &both);
        }
        if effective {
            let t = Instant::now();
            let want = expected(&next, "{ v }").unwrap_or_default();
            loop {
                let r = send("{ v }", false).await;
                let there = r.as_ref().is_ok_and(|r| r.json().is_some_and(|b| b["data"] == want));
                check!("{ v }", r, &both);
                if there {
                    break;
                }
                if t.elapsed() > Duration::from_secs(12) {
                    return Outcome::fail("update-was-not-loaded", format!("after {:?}\nhistory: {history:#?}\n{yaml}", t.elapsed()));
                }
                tokio::time::sleep(Duration::from_millis(4)).await;
            }
            if OPS.iter().any(|q| expected(&current, q).is_ok() != expected(&next, q).is_ok()) {
                kinds.insert("changed");
            }
        } else {
            tokio::time::sleep(Duration::from_millis(src.range(40, 90) as u64)).await;
            kinds.insert("kept");
        }
        for (q, h) in flying {
            kinds.insert("overtaken");
            let r = match h.await {
                Ok(r) => r,
                Err(e) => crate::runner::harness_error(e),
            };
            check!(q, r, &both);
        }
        current = next;
        if step + 1 == count {
            for q in OPS {
                check!(q, send(q, false).await, &[current.clone()]);
            }
        }
    }
    let _ = &current.mount;
    if cdn && state.lock().unwrap().no_key {
        return Outcome::fail("cdn-key-missing", yaml);
    }
    Outcome::Pass { nontrivial: kinds.contains("changed"), sig, labels: kinds.iter().map(|k| k.to_string()).collect(), evals, sample: Some(history.join("; ")) }
}
