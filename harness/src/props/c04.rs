//! C04: mutations run one after another, each exactly once, excluded ones never.
use crate::runner::{truncate, BoxFut, Property};
use crate::simple::*;
use crate::tape::{hash_str, mix, Outcome, Src};
use crate::world::interp::{effective_vars, RV};
use crate::world::opgen::{gen_op, OpCfg};
use apollo_compiler::executable as ex;
use apollo_compiler::{ast, ExecutableDocument};
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

pub fn property() -> Property {
    Property::new("C04", "a case is a router over three subgraphs with mutations (slow ones among them) and several generated mutation operations: aliases, repeated and merged root fields, fragments, conditions, selections which need other subgraphs; some with subgraph failures, some sent twice at the same time, some by GET. The subgraphs' log must show every included root field exactly once (per client request), in document order, no mutation starting before everything earlier has ended; data (with a field telling how many mutations ran before) equals the reference executor's. Non-trivial: at least two mutations in different subgraphs in one operation")
        .part("histories", 260, 8000, case)
        .workers(12)
        .finding("repeat-after-excluded", "a mutation field selected conditionally first and again later runs at its first position even if the condition excludes it there", |_| Box::pin(async {
            let state = Arc::new(AtomicUsize::new(0));
            let s = match Simple::start(&[("a", A), ("b", B), ("c", C)], "", resolver(state), plain()).await {
                Ok(s) => s,
                Err(e) => return Outcome::fail("router-rejects-supergraph", e),
            };
            match s.router.gql(&json!({"query": "mutation($v: Boolean!) { must @include(if: $v) pay must }", "variables": {"v": false}}), &[]).await {
                Ok(r) if r.json().map(|v| v["data"]["pay"].as_u64() < v["data"]["must"].as_u64()).unwrap_or(false) => Outcome::Pass { nontrivial: true, sig: 1, labels: vec![], evals: 1, sample: None },
                Ok(r) if r.status == 200 => Outcome::fail("repeat-after-excluded", r.text()),
                r => Outcome::fail("other", format!("{:?}", r.map(|r| r.text()))),
            }
        }))
}
fn case<'a>(src: &'a mut Src) -> BoxFut<'a> {
    Box::pin(run(src))
}

const A: &str = r#"
type Item @key(fields: "id") { id: ID! name: String tag(n: Int): String seen: Int @shareable owner: Person }
type Person @key(fields: "id") { id: ID! nick: String }
type Query { item: Item }
type Mutation { addItem(n: Int): Item setName(name: String): String items: [Item] must: Int! }
"#;
const B: &str = r#"
type Item @key(fields: "id") { id: ID! price: Int late: Int }
type Person @key(fields: "id") { id: ID! age: Int items: [Item] }
type Query { person: Person }
type Mutation { addPerson(n: Int): Person pay(n: Int): Int person(id: ID): Person! }
"#;
const C: &str = r#"
type Person @key(fields: "id") { id: ID! mood: String late: Int }
type Query { mood: String }
type Mutation { cheer(n: Int): String greet: Person }
"#;

fn resolver(state: Arc<AtomicUsize>) -> Resolver {
    Arc::new(move |t, f, a, _| match (t, f) {
        ("Mutation", _) => {
            let n = state.fetch_add(1, Ordering::SeqCst) as u64 + 1;
            let h = n * 100_000 + hash_str(&a.to_string()) % 500;
            Some(match f {
                "addItem" => obj("Item", h),
                "items" => RV::List(vec![obj("Item", h), RV::Null, obj("Item", h + 501)]),
                "addPerson" | "person" | "greet" => obj("Person", h),
                "must" | "pay" => RV::Leaf(json!(h)),
                _ => RV::Leaf(json!(format!("{f}{h}"))),
            })
        }
        _ => None,
    })
}

#[derive(Clone, Debug)]
struct Ev {
    at: usize,
    sub: String,
    query: String,
    vars: Value,
    name: Option<String>,
    end: Option<usize>,
}

/// (response key, name) of root fields which run
fn roots(doc: &ExecutableDocument, set: &ex::SelectionSet, vars: Option<&Map<String, Value>>, out: &mut Vec<(String, String)>) {
    let inc = |ds: &ast::DirectiveList| {
        let val = |d: &str| {
            ds.get(d).and_then(|d| d.specified_argument_by_name("if")).map(|v| match &**v {
                ast::Value::Boolean(b) => Some(*b),
                ast::Value::Variable(n) => vars.map(|vars| vars.get(n.as_str()).and_then(|v| v.as_bool()).unwrap_or(false)),
                _ => None,
            })
        };
        val("skip") != Some(Some(true)) && val("include") != Some(Some(false))
    };
    for s in &set.selections {
        match s {
            ex::Selection::Field(f) if inc(&f.directives) => {
                let k = (f.response_key().to_string(), f.name.to_string());
                if k.1 != "__typename" && !out.contains(&k) {
                    out.push(k);
                }
            }
            ex::Selection::InlineFragment(f) if inc(&f.directives) => roots(doc, &f.selection_set, vars, out),
            ex::Selection::FragmentSpread(f) if inc(&f.directives) => roots(doc, &doc.fragments[&f.fragment_name].selection_set, vars, out),
            _ => {}
        }
    }
}

fn rep_ids(v: &Value, out: &mut Vec<u64>) {
    match v {
        Value::Array(l) => l.iter().for_each(|v| rep_ids(v, out)),
        Value::Object(m) => m.iter().for_each(|(k, v)| match v.as_str().filter(|_| k == "id").and_then(|s| s.parse().ok()) {
            Some(n) => out.push(n),
            None => rep_ids(v, out),
        }),
        _ => {}
    }
}

async fn run(src: &mut Src) -> Outcome {
    let state = Arc::new(AtomicUsize::new(0));
    let events: Arc<Mutex<Vec<Ev>>> = Default::default();
    let clock = Arc::new(AtomicUsize::new(0));
    // how the next mutation requests fail, per subgraph
    let fail: Arc<Mutex<BTreeMap<String, u8>>> = Default::default();
    let delays: Vec<u64> = (0..3).map(|_| *src.pick(&[0, 0, 4, 12])).collect();
    let hook: Hook = {
        let (events, clock, fail) = (events.clone(), clock.clone(), fail.clone());
        Arc::new(move |seen, v| {
            let at = clock.fetch_add(1, Ordering::SeqCst);
            let i = {
                let mut e = events.lock().unwrap();
                e.push(Ev { at, sub: seen.sub.clone(), query: seen.query().into(), vars: seen.body["variables"].clone(), name: seen.body["operationName"].as_str().map(String::from), end: None });
                e.len() - 1
            };
            let d = delays[(seen.sub.as_bytes()[0] - b'a') as usize];
            let (events, clock) = (events.clone(), clock.clone());
            let how = if seen.query().trim_start().starts_with("mutation") { fail.lock().unwrap().get(&seen.sub).copied().unwrap_or(0) } else { 0 };
            Box::pin(async move {
                if d > 0 {
                    tokio::time::sleep(std::time::Duration::from_millis(d)).await;
                }
                let at = clock.fetch_add(1, Ordering::SeqCst);
                if let Some(e) = events.lock().unwrap().get_mut(i) {
                    e.end = Some(at);
                }
                match how {
                    1 => crate::mock::raw_resp(500, &[("content-type", "application/json")], "oops"),
                    2 => crate::mock::raw_resp(200, &[("content-type", "application/json")], "{\"data\":null,\"errors\":[{\"message\":\"no\"}]}"),
                    3 => crate::mock::raw_resp(503, &[("content-type", "text/plain"), ("retry-after", "0")], ""),
                    4 => crate::mock::raw_resp(200, &[("content-type", "application/json")], "{"),
                    _ => crate::mock::raw_resp(200, &[("content-type", "application/json")], v.to_string()),
                }
            })
        })
    };
    let s = match Simple::start(&[("a", A), ("b", B), ("c", C)], "traffic_shaping:\n  router:\n    dedupe:\n      enabled: true\n      headers: all\n", resolver(state.clone()), hook).await {
        Ok(s) => s,
        Err(e) => return Outcome::fail("router-rejects-supergraph", e),
    };
    let api = &s.schemas.api;
    let (mut evals, mut sig, mut spread) = (0, 1u64, false);
    let mut sample = None;
    for _ in 0..src.range(2, 6) {
        let op = gen_op(src, api, &OpCfg { kind: "mutation", max_depth: 3, max_roots: 6, ..OpCfg::default() });
        let Ok(doc) = ExecutableDocument::parse_and_validate(api, &op.text, "q") else { continue };
        let Ok(o) = doc.operations.get(op.name.as_deref()) else { continue };
        let vars = effective_vars(api, o, &op.variables);
        let mut want = vec![];
        roots(&doc, &o.selection_set, Some(&vars), &mut want);
        // where a field would run if no occurrence of it were excluded
        let mut fixed = vec![];
        roots(&doc, &o.selection_set, None, &mut fixed);
        fixed.retain(|x| want.contains(x));
        let failing = src.chance(20);
        {
            let mut f = fail.lock().unwrap();
            f.clear();
            if failing {
                f.insert(src.pick(&["a", "b", "c"]).to_string(), 1 + src.n(4) as u8);
            }
        }
        let twice = src.chance(15);
        let get = !twice && src.chance(10);
        state.store(0, Ordering::SeqCst);
        events.lock().unwrap().clear();
        let body = op.body();
        let fut = async {
            if get {
                let mut uri = format!("/graphql?query={}&variables={}", crate::props::enc(&op.text), crate::props::enc(&op.variables.to_string()));
                if let Some(n) = &op.name {
                    uri += &format!("&operationName={n}");
                }
                s.router.try_send("GET", &uri, &[("accept".into(), b"application/json".to_vec())], Default::default()).await.map(|r| vec![r])
            } else if twice {
                let (a, b) = futures::join!(s.router.gql(&body, &[]), s.router.gql(&body, &[]));
                Ok(vec![a?, b?])
            } else {
                s.router.gql(&body, &[]).await.map(|r| vec![r])
            }
        };
        let rs = match fut.await {
            Ok(r) => r,
            Err(e) => return Outcome::fail("no-response", format!("{e}\n{}", op.text)),
        };
        evals += 1;
        sig = mix(sig, hash_str(&op.text));
        let evs = events.lock().unwrap().clone();
        let explain = |class: &str, m: String| {
            Outcome::fail(
                class,
                format!("{m}\noperation: {}\nvariables: {}\nfailures: {:?} twice {twice} get {get}\nexpected root fields: {want:?}\nanswer: {}\nrequests:\n{}", op.text, op.variables, fail.lock().unwrap(), rs.iter().map(|r| truncate(&r.text(), 800)).collect::<Vec<_>>().join("\n        "), evs.iter().map(|e| format!("  [{}..{:?}] {} {} {}", e.at, e.end, e.sub, e.query, e.vars)).collect::<Vec<_>>().join("\n")),
            )
        };
        if get {
            if !evs.is_empty() || rs[0].status < 300 {
                return explain("mutation-by-get", format!("status {}", rs[0].status));
            }
            continue;
        }
        // what ran, in the order of the requests
        let mut ran: Vec<(String, String)> = vec![];
        let mut subs = std::collections::BTreeSet::new();
        let (mut broken, mut before_last) = (false, 0);
        for e in &evs {
            let Some(sub) = s.schemas.subs.iter().find(|x| x.name == e.sub) else { continue };
            let Ok(d) = ExecutableDocument::parse_and_validate(&sub.schema, &e.query, "q") else {
                return explain("invalid-subgraph-request", e.query.clone());
            };
            let Ok(so) = d.operations.get(e.name.as_deref()) else { continue };
            if so.operation_type == ast::OperationType::Mutation {
                let v = effective_vars(&sub.schema, so, &e.vars);
                let mut r = vec![];
                roots(&d, &so.selection_set, Some(&v), &mut r);
                if !r.is_empty() {
                    subs.insert(e.sub.clone());
                }
                broken |= fail.lock().unwrap().contains_key(&e.sub);
                if !twice {
                    before_last = ran.len() as u64;
                    for x in &evs {
                        if x.at < e.at && x.end.is_none_or(|t| t > e.at) {
                            return explain("not-serial", format!("{} started before {} had ended", e.query, x.query));
                        }
                    }
                }
                ran.extend(r);
            } else if !twice {
                let mut ids = vec![];
                rep_ids(&e.vars, &mut ids);
                if let Some(i) = ids.iter().find(|i| **i >= 100_000 && **i / 100_000 <= before_last) {
                    return explain("not-serial", format!("{} reads entity {i} of an earlier mutation only after a later one", e.query));
                }
            }
        }
        spread |= subs.len() > 1;
        if twice {
            let mut n: BTreeMap<&(String, String), usize> = BTreeMap::new();
            ran.iter().for_each(|x| *n.entry(x).or_default() += 1);
            for w in &want {
                if n.get(w).copied().unwrap_or(0) != 2 && !broken {
                    return explain("shared-mutation", format!("{w:?} ran {} times for two requests", n.get(w).copied().unwrap_or(0)));
                }
                n.remove(w);
            }
            if let Some(x) = n.keys().next() {
                return explain("excluded-mutation-ran", format!("{x:?}"));
            }
            continue;
        }
        for x in &ran {
            if !want.contains(x) {
                return explain("excluded-mutation-ran", format!("{x:?}"));
            }
            if ran.iter().filter(|y| *y == x).count() > 1 {
                return explain("mutation-ran-twice", format!("{x:?}"));
            }
        }
        if broken {
            // what follows a failed non-null field may be left out
            let (mut it, mut it2) = (want.iter(), fixed.iter());
            if !ran.iter().all(|r| it.any(|w| w == r)) && !ran.iter().all(|r| it2.any(|w| w == r)) {
                return explain("wrong-order", format!("ran {ran:?}"));
            }
            let nonnull = want.iter().any(|w| ["must", "person"].contains(&w.1.as_str()));
            if !nonnull && ran != want && ran != fixed {
                return explain("mutation-not-run", format!("ran {ran:?}"));
            }
            continue;
        }
        if ran == fixed && ran != want {
            // the known finding
            sample.get_or_insert_with(|| truncate(&op.text, 800));
            continue;
        }
        if ran != want {
            return explain(if ran.len() < want.len() { "mutation-not-run" } else { "wrong-order" }, format!("ran {ran:?}"));
        }
        let res = resolver(Arc::new(AtomicUsize::new(0)));
        let Ok(expected) = s.reference(&res, &op.text, op.name.as_deref(), &op.variables) else { continue };
        let got: Value = rs[0].json().unwrap_or(Value::Null);
        if got["data"] != expected {
            return explain("wrong-data", format!("expected: {expected}"));
        }
        sample.get_or_insert_with(|| truncate(&op.text, 800));
    }
    if evals == 0 {
        return Outcome::Discard;
    }
    Outcome::Pass { nontrivial: spread, sig, labels: vec![if spread { "several subgraphs".into() } else { "one subgraph".into() }], evals, sample }
}
