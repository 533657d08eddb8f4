//! C26: error masking: what of a subgraph's errors a client may see.
use crate::mock::{json_resp, raw_resp, MockResp};
use crate::router::yaml_str;
use crate::runner::{truncate, BoxFut, Property};
use crate::simple::*;
use crate::tape::{hash_str, mix, Outcome, Src};
use futures::FutureExt;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

pub fn property() -> Property {
    Property::new("C26", "a case is an error masking configuration (switches, message and extension lists, for all and by subgraph) and 4-12 operations over two subgraphs that answer with generated errors - any extensions, among them code, service and affectedPath of any JSON type - beside partial data, or fail as servers (HTML with status 500, broken JSON, dropped connections). The client's errors must be exactly the subgraphs' errors after masking, as a reference computes it from the subgraph that sent them, the data must be what came back, and no marked secret text of a masked part may occur anywhere in the answer. Non-trivial: a masked and an unmasked part was answered")
        .part("graphql", 220, 8000, |s: &mut Src| -> BoxFut<'_> { Box::pin(run(s)) })
        .workers(8)
}

const SDL_A: &str = "type Query { a: Int p: P ps: [P] } type P @key(fields: \"id\") { id: ID! pa: Int }";
const SDL_B: &str = "type Query { b: Int } type P @key(fields: \"id\") { id: ID! pb: Int }";
const KEYS: &[&str] = &["code", "service", "affectedPath", "stack", "debug", "http", "a.b"];

#[derive(Clone, Debug)]
enum Plan {
    Allow(Vec<&'static str>),
    Deny(Vec<&'static str>),
}
impl Plan {
    fn keeps(&self, k: &str) -> bool {
        match self {
            Plan::Allow(l) => l.contains(&k),
            Plan::Deny(l) => !l.contains(&k),
        }
    }
    fn yaml(&self, pad: &str) -> String {
        let (m, l) = match self {
            Plan::Allow(l) => ("allow", l),
            Plan::Deny(l) => ("deny", l),
        };
        format!("{pad}extensions:\n{pad}  mode: {m}\n{pad}  keys: [{}]\n", l.iter().map(|x| yaml_str(x)).collect::<Vec<_>>().join(", "))
    }
}
fn plan(src: &mut Src) -> Option<Plan> {
    match src.n(3) {
        0 => None,
        1 => Some(Plan::Allow(src.subset(KEYS, 40))),
        _ => Some(Plan::Deny(src.subset(KEYS, 40))),
    }
}

#[derive(Clone, Debug, Default)]
struct Script {
    /// errors sent beside the data
    errors: Vec<Value>,
    fault: usize,
    secret: String,
}

async fn run(src: &mut Src) -> Outcome {
    let configured = src.chance(90);
    let enabled = src.chance(85);
    let message = src.pick(&["Unexpected error", "masked!", ""]).to_string();
    let all_on = src.chance(60);
    let all_plan = plan(src);
    let mut subs: BTreeMap<&'static str, (Option<bool>, Option<Plan>)> = BTreeMap::new();
    for n in ["a", "b", "x"] {
        if src.chance(50) {
            let on = *src.pick(&[None, Some(true), Some(false)]);
            let p = plan(src);
            subs.insert(n, (on, p));
        }
    }
    let mut yaml = String::new();
    if configured {
        yaml += &format!("error_masking:\n  enabled: {enabled}\n  redacted_error_message: {}\n  all:\n    enabled: {all_on}\n", yaml_str(&message));
        if let Some(p) = &all_plan {
            yaml += &p.yaml("    ");
        }
        if !subs.is_empty() {
            yaml += "  subgraphs:\n";
            for (n, (on, p)) in &subs {
                let mut y = String::new();
                if let Some(o) = on {
                    y += &format!("      enabled: {o}\n");
                }
                if let Some(p) = p {
                    y += &p.yaml("      ");
                }
                yaml += &if y.is_empty() { format!("    {n}: {{}}\n") } else { format!("    {n}:\n{y}") };
            }
        }
    }
    let on = |s: &str| match configured {
        false => true,
        true => enabled && subs.get(s).and_then(|x| x.0).unwrap_or(all_on),
    };
    let keeps = |s: &str, k: &str| match configured && enabled {
        false => true,
        true => subs.get(s).and_then(|x| x.1.as_ref()).or(all_plan.as_ref()).is_none_or(|p| p.keeps(k)),
    };
    let message = if configured { message } else { "Unexpected error".into() };
    let scripts: Arc<Mutex<BTreeMap<String, Script>>> = Default::default();
    let sc = scripts.clone();
    let hook: Hook = Arc::new(move |seen, mut v| {
        let s = sc.lock().unwrap().get(&seen.sub).cloned().unwrap_or_default();
        async move {
            if !s.errors.is_empty() {
                v["errors"] = Value::Array(s.errors.clone());
            }
            match s.fault {
                0 => json_resp(200, &v),
                1 => raw_resp(500, &[("content-type", "text/html")], format!("<h1>{}</h1>", s.secret)),
                2 => raw_resp(200, &[("content-type", "application/json")], format!("{{\"data\": {{\"{}\"", s.secret)),
                3 => raw_resp(200, &[("content-type", "text/plain")], s.secret.clone()),
                4 => json_resp(200, &json!({"data": null, "errors": s.errors})),
                5 => json_resp(503, &v),
                _ => MockResp::Drop,
            }
        }
        .boxed()
    });
    let s = match Simple::start(&[("a", SDL_A), ("b", SDL_B)], &yaml, auto(), hook).await {
        Ok(s) => s,
        Err(e) => return Outcome::fail("router-does-not-start", format!("{yaml}{e}")),
    };
    let mut sig = hash_str(&yaml);
    let mut kinds = BTreeSet::new();
    let mut n = 0;
    let count = src.range(4, 12);
    for _ in 0..count {
        let mut now = BTreeMap::new();
        for sub in ["a", "b"] {
            let mut sp = Script { secret: format!("SECRET{sub}{n}f"), ..Default::default() };
            if src.chance(75) {
                for _ in 0..src.range(1, 3) {
                    n += 1;
                    let mut e = Map::new();
                    e.insert("message".into(), json!(format!("SECRET{sub}{n}m")));
                    if src.chance(85) {
                        let mut x = Map::new();
                        for k in KEYS {
                            if !src.chance(40) {
                                continue;
                            }
                            n += 1;
                            let t = format!("SECRET{sub}{n}e");
                            let v = match *k {
                                "service" => src.pick(&[json!("a"), json!("b"), json!("x"), json!("unknown"), json!("a"), json!("x"), json!(7), Value::Null]).clone(),
                                "code" | "affectedPath" => match src.n(8) {
                                    0 => json!(n),
                                    1 => json!({"x": t}),
                                    2 => Value::Null,
                                    _ => json!(t),
                                },
                                _ => match src.n(4) {
                                    0 => json!({"x": [t]}),
                                    1 => json!([t, null, 1.5]),
                                    _ => json!(t),
                                },
                            };
                            x.insert(k.to_string(), v);
                        }
                        e.insert("extensions".into(), Value::Object(x));
                    }
                    if src.chance(20) {
                        e.insert("locations".into(), json!([{"line": 1, "column": 2}]));
                    }
                    sp.errors.push(Value::Object(e));
                }
            }
            sp.fault = src.weighted(&[80, 3, 3, 3, 4, 4, 3]);
            if sp.fault == 4 && sp.errors.is_empty() {
                sp.fault = 0;
            }
            now.insert(sub.to_string(), sp);
        }
        *scripts.lock().unwrap() = now.clone();
        let q = *src.pick(&["{ a }", "{ b }", "{ a b }", "{ p { pb } b }", "{ ps { pa pb } }", "{ a nope }", "{ b p { id } }"]);
        s.take();
        let r = match s.router.gql(&json!({"query": q}), &[]).await {
            Ok(r) => r,
            Err(e) => return Outcome::fail("no-response", format!("{yaml}{q}: {e}")),
        };
        let log = s.take();
        sig = mix(sig, hash_str(&format!("{q}{now:?}")));
        let text = r.text();
        let explain = |c: &str, m: String| Outcome::fail(c, format!("{m}\n{yaml}{q}\nsubgraphs: {now:#?}\ncalls: {:?}\nanswer: {} {}", log.iter().map(|x| format!("{}: {}", x.sub, x.query())).collect::<Vec<_>>(), r.status, truncate(&text, 1500)));
        let Some(body) = r.json() else { return explain("answer-is-no-json", String::new()) };
        let errs = body["errors"].as_array().cloned().unwrap_or_default();
        if q.contains("nope") {
            if errs.is_empty() || errs[0]["message"].as_str().is_none_or(|m| !m.contains("nope")) {
                return explain("the-routers-own-error-is-masked", String::new());
            }
            continue;
        }
        // what was sent, after masking
        let mut want: BTreeMap<String, usize> = BTreeMap::new();
        let mut exact = true;
        let mut forbidden: Vec<String> = vec![];
        for call in &log {
            let sub = call.sub.as_str();
            let sp = &now[sub];
            let masked = on(sub);
            kinds.insert(if masked { "masked" } else { "shown" });
            if matches!(sp.fault, 1 | 2 | 3 | 6) {
                exact = false;
                forbidden.push(sp.secret.clone());
                continue;
            }
            if sp.fault == 5 {
                exact = false;
            }
            for e in &sp.errors {
                let m = e["message"].as_str().unwrap();
                if masked {
                    forbidden.push(m.to_string());
                }
                let mut x = e["extensions"].as_object().cloned().unwrap_or_default();
                for (k, v) in &x {
                    if !keeps(sub, k) {
                        if let Some(i) = v.to_string().find("SECRET") {
                            forbidden.push(v.to_string()[i..].chars().take_while(|c| c.is_ascii_alphanumeric()).collect());
                        }
                    }
                }
                x.insert("service".into(), json!(sub));
                if x.get("code").is_none_or(|c| c.is_null()) {
                    x.insert("code".into(), json!("DOWNSTREAM_SERVICE_ERROR"));
                }
                x.retain(|k, v| keeps(sub, k) && k != "affectedPath" && !v.is_null());
                *want.entry(json!([if masked { message.as_str() } else { m }, x]).to_string()).or_default() += 1;
            }
        }
        for f in &forbidden {
            if text.contains(f.as_str()) {
                return explain("masked-text-in-the-answer", f.clone());
            }
        }
        let mut got: BTreeMap<String, usize> = BTreeMap::new();
        for e in &errs {
            let mut x = e["extensions"].as_object().cloned().unwrap_or_default();
            if let Some(Value::String(sub)) = x.get("service").cloned() {
                if ["a", "b"].contains(&sub.as_str()) {
                    if !keeps(&sub, "affectedPath") && x.contains_key("affectedPath") {
                        return explain("masked-extension-in-the-answer", "affectedPath".into());
                    }
                    if on(&sub) && e["message"] != json!(message) {
                        return explain("message-not-masked", e.to_string());
                    }
                }
            }
            x.retain(|k, v| k != "affectedPath" && !v.is_null());
            *got.entry(json!([e["message"], x]).to_string()).or_default() += 1;
        }
        if exact && got != want {
            return explain("errors-differ", format!("expected {want:#?}\ngot {got:#?}"));
        }
        if exact && log.iter().all(|c| now[&c.sub].fault == 0) {
            match s.reference(&auto(), q, None, &json!({})) {
                Ok(w) if body["data"] == w => {}
                Ok(w) => return explain("data-lost", format!("expected {w}")),
                Err(e) => return explain("reference-failed", e),
            }
        }
        if !exact && errs.is_empty() {
            return explain("failure-without-errors", String::new());
        }
    }
    Outcome::Pass { nontrivial: kinds.len() == 2, sig, labels: kinds.iter().map(|k| k.to_string()).collect(), evals: count as u64, sample: Some(yaml) }
}
