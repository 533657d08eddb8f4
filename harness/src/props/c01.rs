//! C01: a federated answer equals the answer of one server holding all the data.
use crate::runner::{harness_error, truncate, BoxFut, Property};
use crate::tape::{hash_str, Outcome, Src};
use crate::world::gen::Profile;
use crate::world::interp::{execute, Mono};
use crate::world::opgen::{gen_op, Op, OpCfg, VarDef};
use crate::world::*;
use apollo_compiler::ExecutableDocument;
use serde_json::{json, Value};
use std::sync::Arc;

pub fn property() -> Property {
    Property::new("C01", "a case is a generated federated world (2-4 composed subgraphs with generated data) with up to 8 generated operations, each sent over HTTP to a router started for that world; the answer must equal a monolithic interpretation over the API schema. Non-trivial: some operation of the case needed at least two subgraph requests of which one was an entity fetch, and returned non-null data")
        .part("queries", 2600, 40000, case)
        .finding("any", "developer aid", pinned)
        .finding("static-empty-root", "an operation whose selections are all removed by literal @skip/@include is answered with QUERY_PLAN_BUILD_FAILED instead of an empty object", pinned)
        .finding("static-empty-nested", "a field whose sub-selection is emptied by literal @skip/@include or by impossible type conditions is never fetched and answered as null", pinned)
        .finding("interface-object-fragment", "a type-conditioned fragment on a value coming from an @interfaceObject subgraph cannot be planned (QUERY_PLAN_BUILD_FAILED)", pinned)
        .finding("interface-object-fields", "fields next to a type-conditioned fragment on a value coming from an @interfaceObject subgraph are missing from the answer", pinned)
        .finding("requires-multi-key-plan", "@requires on an entity with several or differing keys cannot be planned (Expected a single parent)", pinned)
        .finding("requires-multi-key-null", "@requires on an entity with several or differing keys is answered with null", pinned)
        .finding("requires-multi-key-panic", "@requires on an entity with several or differing keys panics while planning, the connection is closed without an answer", pinned)
        .finding("alias-shadows-field", "an alias equal to the name of a key or @requires field of the same entity ends up in the representation, the answer is wrong", pinned)
        .finding("requires-under-root-condition", "a field needing a second fetch below a conditional fragment on the root type cannot be planned (Path .. cannot be found)", pinned)
        .finding("partial-value-type", "a value type whose field is missing in one subgraph cannot be planned (No paths found)", pinned)
        .finding("runtime-type-intersection", "a shared field of abstract type whose subgraphs disagree on the possible types cannot be planned when a type only one of them knows is selected", pinned)
        .finding("split-shared-field", "fields of an entity which only different copies of a shared field can deliver cannot be planned when selected in fragments with different conditions", pinned)
        .finding("requires-type-conflict", "inputs of @requires with the same name but different types on two entity types are fetched in one invalid subgraph operation", pinned)
        .finding("conditional-abstract-merge", "an abstract field selected several times under different conditions loses fields (the needed __typename is not fetched)", pinned)
}

fn case<'a>(src: &'a mut Src) -> BoxFut<'a> {
    Box::pin(run(src, Profile::default(), "query"))
}

pub async fn run(src: &mut Src, prof: Profile, kind: &'static str) -> Outcome {
    let Some(live) = gen_live(src, &prof) else { return Outcome::Discard };
    let live = Arc::new(live);
    let d = match deploy(live.clone(), "").await {
        Ok(d) => d,
        Err(e) => return Outcome::fail("router-rejects-supergraph", format!("{e}\n{}\n{}", dump_world(&live), live.supergraph)),
    };
    let nops = src.range(1, 8);
    let mut t = Tally { sig: hash_str(&live.supergraph), ..Default::default() };
    for _ in 0..nops {
        let cfg = OpCfg { kind, ..OpCfg::default() };
        let op = gen_op(src, &live.api, &cfg);
        if let Err(o) = check(&d, &op, &mut t).await {
            if let (Ok(p), Outcome::Fail { .. }) = (std::env::var("VERIF_DUMP"), &o) {
                let v = json!({"world": live.w, "query": op.text, "operationName": op.name, "variables": op.variables});
                let _ = std::fs::write(p, v.to_string());
            }
            return o;
        }
    }
    Outcome::Pass { nontrivial: t.nontrivial, sig: t.sig, labels: t.labels, evals: t.evals, sample: t.sample }
}

#[derive(Default)]
struct Tally {
    labels: Vec<String>,
    nontrivial: bool,
    evals: u64,
    sample: Option<String>,
    sig: u64,
}

/// a recorded case: /verif/pinned/<key>.json holds the world and the operation
fn pinned(key: &'static str) -> BoxFut<'static> {
    Box::pin(async move {
        let p = match std::env::var("VERIF_PINFILE") {
            Ok(p) => p.into(),
            Err(_) => crate::runner::verif_dir().join("pinned").join(format!("{key}.json")),
        };
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&p).unwrap_or_else(|e| harness_error(format!("{}: {e}", p.display())))).unwrap();
        let w = serde_json::from_value(v["world"].clone()).unwrap_or_else(|e| harness_error(format!("{}: {e}", p.display())));
        let live = Arc::new(build(w).unwrap_or_else(|e| harness_error(format!("{}: {e}", p.display()))));
        let d = match deploy(live, "").await {
            Ok(d) => d,
            Err(e) => return Outcome::fail("router-rejects-supergraph", e),
        };
        let op = Op {
            text: v["query"].as_str().unwrap().into(),
            variables: v["variables"].clone(),
            name: v["operationName"].as_str().map(|s| s.to_string()),
            vars: v["variables"].as_object().unwrap().keys().map(|k| VarDef { name: k.clone(), ty: String::new(), default: None }).collect(),
            roots: vec![],
            frags: vec![],
            kind: "query",
        };
        let mut t = Tally::default();
        match check(&d, &op, &mut t).await {
            Err(o) => o,
            Ok(()) => {
                println!("{}", explain(&d.live, &op).await);
                Outcome::Discard
            }
        }
    })
}

async fn check(d: &Deployed, op: &Op, t: &mut Tally) -> Result<(), Outcome> {
    let live = &d.live;
    let doc = match ExecutableDocument::parse_and_validate(&live.api, &op.text, "q.graphql") {
        Ok(d) => d,
        Err(e) => panic!("HARNESS generated an invalid operation: {e}\n{}", op.text),
    };
    let o = doc.operations.get(op.name.as_deref()).unwrap();
    let mut back = Mono::new(&live.w);
    let want = execute(&live.api, &doc, o, &op.variables, &mut back);
    d.reset();
    let resp = match d.router.gql(&op.body(), &[]).await {
        Ok(r) => r,
        Err(e) => return Err(Outcome::fail("no-response", format!("{e}\noperation: {}\nvariables: {}\n{}", op.text, op.variables, dump_world(live)))),
    };
    let log = d.take_log();
    t.evals += 1;
    let got: Value = resp.json().unwrap_or(Value::Null);
    let bad = if got.get("errors").is_some() && want.errors.is_empty() {
        Some("unexpected-errors")
    } else if got.get("data") != Some(&want.data) && want.errors.is_empty() {
        Some("data-differs")
    } else {
        None
    };
    if let Some(class) = bad {
        let plan = explain(live, op).await;
        let mut m = format!(
            "operation: {}\nvariables: {}\nstatus: {}\nrouter answer:    {}\nreference answer: {}\n",
            op.text,
            op.variables,
            resp.status,
            truncate(&resp.text(), 6000),
            truncate(&want.data.to_string(), 6000)
        );
        m.push_str(&show_log(&log));
        m.push_str(&plan);
        m.push_str(&dump_world(live));
        return Err(Outcome::fail(class, m));
    }
    let ents: u64 = log.iter().map(|l| l.entities).sum();
    if log.len() >= 2 && ents > 0 && !want.data.is_null() {
        t.nontrivial = true;
        if t.sample.is_none() {
            t.sample = Some(format!("{} {} => {} subgraph requests, {}", op.text, op.variables, log.len(), truncate(&want.data.to_string(), 600)));
        }
    }
    t.labels.push(format!("fetches={}", log.len().min(6)));
    if want.data.is_null() {
        t.labels.push("data=null".into());
    }
    if !want.errors.is_empty() {
        t.labels.push("reference-errors".into());
    }
    t.sig = crate::tape::mix(t.sig, hash_str(&op.text));
    Ok(())
}
