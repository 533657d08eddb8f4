//! C27: which of the subgraphs' response extensions a client sees, and how they merge.
use crate::mock::{json_resp, raw_resp, MockResp};
use crate::router::yaml_str;
use crate::runner::{truncate, BoxFut, Property};
use crate::simple::*;
use crate::tape::{hash_str, mix, Outcome, Src};
use futures::FutureExt;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

pub fn property() -> Property {
    Property::new("C27", "a case is a response extension configuration (none, or an algorithm - first, last, append - with or without a list of allowed keys) and 4-12 operations over three subgraphs whose answers carry generated extensions of any JSON kind, beside data, errors or as failures. The reference merges what was sent by the subgraphs actually called, in the order of their calls where the plan is sequential; nothing may appear that the configuration does not let through, queryPlan is the router's own. Non-trivial: one key was sent by two subgraphs, and one key was not let through")
        .part("graphql", 220, 8000, |s: &mut Src| -> BoxFut<'_> { Box::pin(run(s)) })
        .workers(8)
}

const SDL_A: &str = "type Query { a: Int p: P ps: [P] } type Mutation { ma: Int } type P @key(fields: \"id\") { id: ID! pa: Int }";
const SDL_B: &str = "type Query { b: Int } type Mutation { mb: Int } type P @key(fields: \"id\") { id: ID! pb: Int k: ID! }";
const SDL_C: &str = "type Query { c: Int } type Mutation { mc: Int } type P @key(fields: \"id\") { id: ID! pc(x: Int): Int k: ID! @external pd: Int @requires(fields: \"k\") }";
const KEYS: &[&str] = &["trace", "cost", "queryPlan", "weird \"key\\ ü", "a.b", "", "data", "errors"];

/// Operations, and whether their fetches happen one after another.
const OPS: &[(&str, bool)] = &[
    ("{ a }", true),
    ("{ b }", true),
    ("{ a b }", false),
    ("{ p { pb } }", true),
    ("{ ps { pb } }", true),
    ("{ p { pd } }", true),
    ("{ p { pb pc } c }", false),
    ("{ ps { x: pc(x: 1) y: pc(x: 2) } }", true),
    ("mutation { ma mb mc }", true),
    ("mutation { mb ma x: mb }", true),
    ("{ p { id } q: p { pb } }", true),
    ("{ __typename }", true),
    ("{ __schema { queryType { name } } b }", true),
    ("{ a nope }", true),
];

fn value(src: &mut Src, n: &mut usize) -> Value {
    *n += 1;
    let t = format!("V{n}");
    match src.n(10) {
        0 => json!(null),
        1 => json!([t, null, {"y": []}]),
        2 => json!({"x": {"y": t}, "n": 1}),
        3 => json!(*n as f64 + 0.5),
        4 => json!(9007199254740993u64 + *n as u64),
        5 => json!(format!("{t} \"\\\n\u{7}ü😀")),
        6 => json!(-(*n as i64)),
        7 => json!(n.is_multiple_of(2)),
        8 => json!({"": t, "\"": [[]], "k\n": {}}),
        _ => json!(t),
    }
}

async fn run(src: &mut Src) -> Outcome {
    let algo = src.weighted(&[10, 25, 25, 30, 10]); // none, first, last, append, default
    let allow: Option<Vec<&'static str>> = src.chance(60).then(|| {
        let mut l = src.subset(KEYS, 50);
        if src.chance(20) {
            l.push("other");
        }
        l
    });
    let mut yaml = String::new();
    if algo > 0 {
        yaml += "response_extensions:\n  propagate:\n";
        if algo < 4 {
            yaml += &format!("    algorithm: {}\n", ["", "first", "last", "append"][algo]);
        }
        match &allow {
            Some(l) => yaml += &format!("    allow: [{}]\n", l.iter().map(|x| yaml_str(x)).collect::<Vec<_>>().join(", ")),
            None if algo == 4 => yaml = "response_extensions:\n  propagate: {}\n".into(),
            None => {}
        }
    } else if src.chance(50) {
        yaml += "response_extensions: {}\n";
    }
    yaml += "query_planner:\n  allow_expose: true\n";
    let lets = |k: &str| algo > 0 && k != "queryPlan" && allow.as_ref().is_none_or(|l| l.contains(&k));
    // per subgraph: an extension object for each call in turn, and a fault
    type Script = BTreeMap<String, (Vec<Value>, usize)>;
    let scripts: Arc<Mutex<(Script, Vec<(String, Option<Value>)>)>> = Default::default();
    let sc = scripts.clone();
    let hook: Hook = Arc::new(move |seen, mut v| {
        let mut g = sc.lock().unwrap();
        let nth = g.1.iter().filter(|x| x.0 == seen.sub).count();
        let (ext, fault) = g.0.get(&seen.sub).map(|(l, f)| (l[nth % l.len()].clone(), *f)).unwrap_or_default();
        let gone = matches!(fault, 3..);
        g.1.push((seen.sub.clone(), (!gone).then(|| ext.clone())));
        async move {
            if !ext.is_null() {
                v["extensions"] = ext;
            }
            match fault {
                0 => json_resp(200, &v),
                1 => {
                    v["errors"] = json!([{"message": "partial"}]);
                    json_resp(200, &v)
                }
                2 => {
                    v["errors"] = json!([{"message": "none"}]);
                    v["data"] = Value::Null;
                    json_resp(200, &v)
                }
                3 => json_resp(500, &v),
                4 => raw_resp(200, &[("content-type", "application/json")], v.to_string()[..v.to_string().len() - 1].to_string()),
                _ => MockResp::Drop,
            }
        }
        .boxed()
    });
    let s = match Simple::start(&[("a", SDL_A), ("b", SDL_B), ("c", SDL_C)], &yaml, auto(), hook).await {
        Ok(s) => s,
        Err(e) => return Outcome::fail("router-does-not-start", format!("{yaml}{e}")),
    };
    let mut sig = hash_str(&yaml);
    let mut kinds = BTreeSet::new();
    let mut n = 0;
    let count = src.range(4, 12);
    for _ in 0..count {
        let mut now: Script = BTreeMap::new();
        for sub in ["a", "b", "c"] {
            let mut l = vec![];
            for _ in 0..3 {
                l.push(match src.weighted(&[70, 10, 10, 5, 5]) {
                    0 => {
                        let mut m = Map::new();
                        for k in KEYS {
                            if src.chance(45) {
                                m.insert(k.to_string(), value(src, &mut n));
                            }
                        }
                        Value::Object(m)
                    }
                    1 => Value::Null,
                    2 => json!({}),
                    3 => json!({"trace": value(src, &mut n)}),
                    _ => json!({"other": value(src, &mut n)}),
                });
            }
            now.insert(sub.into(), (l, src.weighted(&[80, 8, 5, 3, 2, 2])));
        }
        *scripts.lock().unwrap() = (now.clone(), vec![]);
        let (q, sequential) = *src.pick(OPS);
        let plan = src.chance(30);
        s.take();
        let hs: &[(&str, &str)] = if plan { &[("hive-expose-query-plan", "true")] } else { &[] };
        let r = match s.router.gql(&json!({"query": q}), hs).await {
            Ok(r) => r,
            Err(e) => return Outcome::fail("no-response", format!("{yaml}{q}: {e}")),
        };
        let calls = scripts.lock().unwrap().1.clone();
        sig = mix(sig, hash_str(&format!("{q}{now:?}")));
        let text = r.text();
        let explain = |c: &str, m: String| Outcome::fail(c, format!("{m}\n{yaml}{q} plan={plan}\ncalls: {calls:#?}\nscripts: {}\nanswer: {} {}", json!(now), r.status, truncate(&text, 2500)));
        let Some(body) = r.json() else { return explain("answer-is-no-json", String::new()) };
        let mut got = match &body["extensions"] {
            Value::Null => Map::new(),
            Value::Object(m) => m.clone(),
            _ => return explain("extensions-are-no-object", String::new()),
        };
        let qp = got.remove("queryPlan");
        if q.contains("nope") {
            if !got.is_empty() || qp.is_some() {
                return explain("extensions-out-of-nothing", String::new());
            }
            continue;
        }
        match (&qp, plan) {
            (Some(p), true) if p["kind"] == "QueryPlan" => {}
            (None, false) => {}
            _ => return explain("query-plan-extension-is-not-the-routers", String::new()),
        }
        // what may and must be there; an answer that failed as a whole may count or not
        let mut sent: BTreeMap<String, Vec<Value>> = BTreeMap::new();
        let mut unsure: BTreeMap<String, Vec<Value>> = BTreeMap::new();
        for (sub, e) in &calls {
            let fault = now[sub].1;
            let (target, e) = match e {
                Some(e) => (&mut sent, e.clone()),
                None if fault == 3 => {
                    // the extension of this answer
                    let l = &now[sub].0;
                    for e in l {
                        if let Value::Object(m) = e {
                            for (k, v) in m {
                                unsure.entry(k.clone()).or_default().push(v.clone());
                            }
                        }
                    }
                    continue;
                }
                None => continue,
            };
            if let Value::Object(m) = e {
                for (k, v) in m {
                    if lets(&k) {
                        target.entry(k).or_default().push(v);
                    } else {
                        kinds.insert("withheld");
                    }
                }
            }
        }
        if sent.values().any(|l| l.len() > 1) {
            kinds.insert("merged");
        }
        for (k, v) in &got {
            if !lets(k) {
                return explain("extension-was-not-let-through", k.clone());
            }
            let have = sent.get(k).cloned().unwrap_or_default();
            let maybe = unsure.get(k).cloned().unwrap_or_default();
            let bad = match algo {
                3 => match v {
                    Value::Array(l) => {
                        let mut rest = l.clone();
                        let missing = have.iter().any(|h| match rest.iter().position(|x| x == h) {
                            Some(i) => {
                                rest.remove(i);
                                false
                            }
                            None => true,
                        });
                        missing || rest.iter().any(|x| !maybe.contains(x)) || sequential && maybe.is_empty() && *l != have
                    }
                    _ => true,
                },
                1 if sequential && maybe.is_empty() => Some(v) != have.first(),
                2 | 4 if sequential && maybe.is_empty() => Some(v) != have.last(),
                _ => !have.contains(v) && !maybe.contains(v),
            };
            if bad {
                return explain("extension-value-differs", format!("{k:?}: {v}\nsent {}", json!(have)));
            }
        }
        for (k, l) in &sent {
            if !got.contains_key(k) {
                return explain("extension-is-missing", format!("{k:?}: {}", json!(l)));
            }
        }
        if calls.iter().all(|c| now[&c.0].1 == 0) && !q.starts_with("mutation") && !q.contains("__") {
            match s.reference(&auto(), q, None, &json!({})) {
                Ok(w) if body["data"] == w => {}
                Ok(w) => return explain("data-differs", format!("expected {w}")),
                Err(e) => return explain("reference-failed", e),
            }
        }
    }
    Outcome::Pass { nontrivial: kinds.len() == 2, sig, labels: kinds.iter().map(|k| k.to_string()).collect(), evals: count as u64, sample: Some(yaml) }
}
