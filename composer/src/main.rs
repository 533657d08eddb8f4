//! Supergraph composition service: one JSON request per stdin line, one JSON reply per stdout line.
//! Lives in its own crate so that apollo-federation's cargo features cannot leak into the router build.
use apollo_federation::composition::{compose, CompositionOptions};
use apollo_federation::subgraph::typestate::Subgraph;
use serde::{Deserialize, Serialize};
use std::io::{BufRead, Write};

#[derive(Deserialize)]
struct In {
    subgraphs: Vec<Sub>,
}
#[derive(Deserialize)]
struct Sub {
    name: String,
    url: String,
    sdl: String,
}
#[derive(Serialize, Default)]
struct Out {
    ok: bool,
    supergraph: String,
    api: String,
    errors: Vec<String>,
}

fn run(i: In) -> Out {
    let mut errs = vec![];
    let mut subs = vec![];
    for s in i.subgraphs {
        match Subgraph::parse(&s.name, &s.url, &s.sdl) {
            Ok(x) => subs.push(x),
            Err(e) => errs.push(format!("{}: {:?}", s.name, e)),
        }
    }
    if !errs.is_empty() {
        return Out { errors: errs, ..Default::default() };
    }
    match compose(subs, CompositionOptions::default()) {
        Ok(sg) => {
            let sdl = sg.schema().schema().to_string();
            let api = match apollo_federation::Supergraph::new_with_router_specs(&sdl)
                .and_then(|s| s.to_api_schema(Default::default()))
            {
                Ok(a) => a.schema().to_string(),
                Err(e) => return Out { errors: vec![format!("api: {e}")], ..Default::default() },
            };
            Out { ok: true, supergraph: sdl, api, errors: vec![] }
        }
        Err(f) => Out { errors: f.errors.iter().map(|e| format!("{e}")).collect(), ..Default::default() },
    }
}

fn main() {
    let stdin = std::io::stdin();
    let mut stdout = std::io::stdout();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        if line.trim().is_empty() {
            continue;
        }
        let out = match serde_json::from_str::<In>(&line) {
            Ok(i) => std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(i)))
                .unwrap_or_else(|_| Out { errors: vec!["panic".into()], ..Default::default() }),
            Err(e) => Out { errors: vec![format!("bad request: {e}")], ..Default::default() },
        };
        let _ = writeln!(stdout, "{}", serde_json::to_string(&out).unwrap());
        let _ = stdout.flush();
    }
}
