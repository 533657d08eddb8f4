//! C02: every subgraph request respects the federation contract.
use crate::runner::{truncate, BoxFut, Property};
use crate::tape::{hash_str, mix, Outcome, Src};
use crate::world::gen::Profile;
use crate::world::interp::{execute, Mono};
use crate::world::opgen::{gen_op, OpCfg};
use crate::world::*;
use apollo_compiler::ExecutableDocument;
use std::sync::Arc;

pub fn property() -> Property {
    Property::new("C02", "a case is a generated federated world with up to 8 generated operations (queries and mutations) sent over HTTP to a router; every request a mock subgraph received is judged: the operation validates against that subgraph's schema, its variables are declared, used and coercible, representations carry __typename and a resolvable key with the entity's true values, only fields this subgraph resolves are asked for, @requires inputs are present. Non-trivial: the case made at least one entity request")
        .part("requests", 2600, 40000, case)
}

fn case<'a>(src: &'a mut Src) -> BoxFut<'a> {
    Box::pin(run(src))
}

async fn run(src: &mut Src) -> Outcome {
    let prof = Profile::default();
    let Some(live) = gen_live(src, &prof) else { return Outcome::Discard };
    let live = Arc::new(live);
    let d = match deploy(live.clone(), "").await {
        Ok(d) => d,
        Err(e) => return Outcome::fail("router-rejects-supergraph", format!("{e}\n{}\n{}", dump_world(&live), live.supergraph)),
    };
    let nops = src.range(1, 8);
    let (mut labels, mut nontrivial, mut evals, mut sample, mut sig) = (vec![], false, 0, None, hash_str(&live.supergraph));
    for _ in 0..nops {
        let op = gen_op(src, &live.api, &OpCfg::default());
        d.reset();
        let resp = match d.router.gql(&op.body(), &[]).await {
            Ok(r) => r,
            Err(e) => return Outcome::fail("no-response", format!("{e}\noperation: {}\n{}", op.text, dump_world(&live))),
        };
        let mut log = d.take_log();
        // root fields excluded by @skip/@include must not be executed
        let doc = ExecutableDocument::parse_and_validate(&live.api, &op.text, "q.graphql").unwrap_or_else(|e| panic!("HARNESS invalid operation: {e}\n{}", op.text));
        let want = execute(&live.api, &doc, doc.operations.get(op.name.as_deref()).unwrap(), &op.variables, &mut Mono::new(&live.w)).data;
        if let (Some(want), Some(_)) = (want.as_object(), resp.json().filter(|r| r.get("errors").is_none())) {
            for l in log.iter_mut().filter(|l| l.entities == 0) {
                if let Some(k) = l.answer["data"].as_object().into_iter().flatten().map(|x| x.0).find(|k| !want.contains_key(*k) && *k != "__typename") {
                    l.violations.push(format!("excluded root field: {k} is not part of the answer but was fetched"));
                }
            }
        }
        for l in &log {
            evals += 1;
            labels.push((if l.entities > 0 { "entity request" } else { "root request" }).into());
            if !l.violations.is_empty() {
                let plan = explain(&live, &op).await;
                let kind = l.violations[0].split(&['{', '(', ':'][..]).next().unwrap_or("").split_whitespace().filter(|w| !w.contains(|c: char| c.is_ascii_digit())).take(6).collect::<Vec<_>>().join("-");
                return Outcome::fail(
                    &format!("contract-{kind}"),
                    format!("operation: {}\nvariables: {}\nrouter answer: {}\n{}{plan}{}", op.text, op.variables, truncate(&resp.text(), 3000), show_log(&log), dump_world(&live)),
                );
            }
            if l.entities > 0 {
                nontrivial = true;
                sample.get_or_insert_with(|| format!("{} => s{}: {} {}", op.text, l.sub, l.query, truncate(&l.variables.to_string(), 500)));
            }
            sig = mix(sig, hash_str(&l.query));
        }
    }
    Outcome::Pass { nontrivial, sig, labels, evals, sample }
}
