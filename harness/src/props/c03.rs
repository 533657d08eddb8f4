//! C03: a failing subgraph or field costs only what depends on it, is reported, and never invents data.
use crate::mock::{json_resp, raw_resp, MockResp};
use crate::runner::{truncate, BoxFut, Property};
use crate::tape::{hash_str, mix, Outcome, Src};
use crate::world::data::*;
use crate::world::gen::Profile;
use crate::world::interp::*;
use crate::world::mock_sub::{SubAnswer, SubLog};
use crate::world::model::*;
use crate::world::opgen::{gen_op, Op, OpCfg, Sel};
use crate::world::*;
use apollo_compiler::ast::Type;
use apollo_compiler::executable as ex;
use apollo_compiler::ExecutableDocument;
use futures::FutureExt;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

pub fn property() -> Property {
    Property::new("C03", "part fields: generated worlds where generated nullable resolvers fail; data must equal the reference execution with the same failing resolvers and errors must be reported at exactly its error paths. Part subgraphs: one or two subgraphs fail in a generated way (HTTP errors, dropped connections, broken JSON, missing data, short or null entity lists); the answer must be below the truth, respect non-null, report errors, and keep root fields which need no failing subgraph. Non-trivial: a failing resolver was hit, or a failing subgraph was called and some other root field or leaf survived")
        .part("fields", 900, 15000, fields_case)
        .part("subgraphs", 1100, 15000, subs_case)
}

const CONF: &str = "error_masking:\n  enabled: false\n";

fn fields_case<'a>(src: &'a mut Src) -> BoxFut<'a> {
    Box::pin(fields(src))
}
fn subs_case<'a>(src: &'a mut Src) -> BoxFut<'a> {
    Box::pin(subs(src))
}

/// fields whose failure stays where it is: nullable, no key, no input of @requires
fn breakable(w: &World) -> Vec<(String, String)> {
    let mut used = BTreeSet::new();
    for t in w.types.values() {
        for f in &t.fields {
            for a in f.at.values() {
                if let Some(r) = &a.requires {
                    used.extend(r.split(|c: char| !c.is_alphanumeric() && c != '_').map(|s| s.to_string()));
                }
            }
        }
    }
    let mut out = vec![];
    for t in w.types.values() {
        if !matches!(t.kind, Kind::Object) && t.iface_object.is_empty() {
            continue;
        }
        for f in &t.fields {
            if f.key.is_none() && !matches!(f.ty, Ty::NonNull(_)) && !used.contains(&f.name) && !t.name.starts_with("KRef") {
                out.push((t.name.clone(), f.name.clone()));
            }
        }
    }
    out
}

fn report(op: &Op, resp: &str, want: &str, log: &[SubLog], live: &Live, extra: &str) -> String {
    format!("{extra}\noperation: {}\nvariables: {}\nrouter answer:    {}\nreference answer: {}\n{}{}", op.text, op.variables, truncate(resp, 5000), truncate(want, 5000), show_log(log), dump_world(live))
}

async fn fields(src: &mut Src) -> Outcome {
    let prof = Profile { mutations: false, coin: false, ..Profile::default() };
    let Some(live) = gen_live(src, &prof) else { return Outcome::Discard };
    let live = Arc::new(live);
    let d = match deploy(live.clone(), CONF).await {
        Ok(d) => d,
        Err(e) => return Outcome::fail("router-rejects-supergraph", format!("{e}\n{}", dump_world(&live))),
    };
    let cands = breakable(&live.w);
    let (mut nontrivial, mut labels, mut evals, mut sample, mut sig) = (false, vec![], 0, None, hash_str(&live.supergraph));
    for _ in 0..src.range(1, 8) {
        let op = gen_op(src, &live.api, &OpCfg { kind: "query", ..Default::default() });
        let pct = *src.pick(&[10u64, 30, 60]);
        let broken: BTreeMap<(String, String), String> = cands.iter().filter(|_| src.chance(pct)).map(|k| (k.clone(), format!("broken {}.{}", k.0, k.1))).collect();
        d.shared.lock().unwrap().broken = broken.clone();
        let doc = ExecutableDocument::parse_and_validate(&live.api, &op.text, "q.graphql").unwrap_or_else(|e| panic!("HARNESS invalid operation: {e}\n{}", op.text));
        let o = doc.operations.get(op.name.as_deref()).unwrap();
        let mut back = Mono::new(&live.w);
        back.broken = broken.clone();
        let want = execute(&live.api, &doc, o, &op.variables, &mut back);
        d.reset();
        let resp = match d.router.gql(&op.body(), &[]).await {
            Ok(r) => r,
            Err(e) => return Outcome::fail("no-response", format!("{e}\n{}", report(&op, "", "", &d.take_log(), &live, ""))),
        };
        let log = d.take_log();
        evals += 1;
        let got = resp.json().unwrap_or(Value::Null);
        let want_errs: BTreeSet<String> = want.errors.iter().map(|e| format!("{} {}", Value::Array(e.path.clone()), e.message)).collect();
        let errs = got["errors"].as_array().cloned().unwrap_or_default();
        let got_errs: BTreeSet<String> = errs.iter().map(|e| format!("{} {}", e["path"], e["message"].as_str().unwrap_or("?"))).collect();
        // an error of a field the operation excludes (over-fetched, C02 looks at root fields) is not judged here
        let present = |path: &Value| {
            let mut v = &want.data;
            for k in path.as_array().into_iter().flatten() {
                if v.is_null() {
                    return true;
                }
                let next = match k {
                    Value::String(s) => v.get(s.as_str()),
                    k => v.get(k.as_u64().unwrap_or(0) as usize),
                };
                match next {
                    Some(n) => v = n,
                    None => return false,
                }
            }
            true
        };
        let errs: Vec<Value> = errs.into_iter().filter(|e| present(&e["path"])).collect();
        let got_errs: BTreeSet<String> = errs.iter().map(|e| format!("{} {}", e["path"], e["message"].as_str().unwrap_or("?"))).collect();
        let bad = if resp.status != 200 {
            Some("status")
        } else if got.get("data") != Some(&want.data) {
            Some("data-differs")
        } else if got_errs != want_errs {
            Some("errors-differ")
        } else if errs.iter().any(|e| e["extensions"]["code"] != json!("BROKEN")) {
            Some("error-extensions-lost")
        } else {
            None
        };
        if let Some(b) = bad {
            let mut x = format!("failing resolvers: {:?}\n", broken.keys().collect::<Vec<_>>());
            x.push_str(&format!("missing errors: {:?}\nextra errors: {:?}\n", want_errs.difference(&got_errs).take(5).collect::<Vec<_>>(), got_errs.difference(&want_errs).take(5).collect::<Vec<_>>()));
            x.push_str(&explain(&live, &op).await);
            return Outcome::fail(b, report(&op, &resp.text(), &want.data.to_string(), &log, &live, &x));
        }
        if !want.errors.is_empty() {
            nontrivial = true;
            labels.push("failing resolver".into());
            if log.iter().any(|l| l.entities > 0 && l.answer.get("errors").is_some()) {
                labels.push("failing resolver below _entities".into());
            }
            sample.get_or_insert_with(|| format!("{} failing {:?} => {}", op.text, broken.keys().collect::<Vec<_>>(), truncate(&resp.text(), 700)));
        }
        sig = mix(sig, hash_str(&op.text));
    }
    Outcome::Pass { nontrivial, sig, labels, evals, sample }
}

/// records the declared type at every path of the true answer
struct Typed<'a> {
    m: Mono<'a>,
    types: HashMap<String, Type>,
}
impl Backend for Typed<'_> {
    fn typename(&self, o: &Obj) -> String {
        self.m.typename(o)
    }
    fn resolve(&mut self, o: &Obj, f: &ex::Field, args: &Value, path: &[Value]) -> RV {
        self.types.insert(Value::Array(path.to_vec()).to_string(), f.definition.ty.clone());
        self.m.resolve(o, f, args, path)
    }
}

/// `got` may have null where `truth` has something (not in a non-null position); otherwise they are equal
fn below(got: &Value, truth: &Value, ty: Option<&Type>, types: &HashMap<String, Type>, path: &mut Vec<Value>, lost: &mut u64) -> Result<(), String> {
    let at = |p: &Vec<Value>| Value::Array(p.clone()).to_string();
    if got.is_null() {
        if ty.is_some_and(|t| t.is_non_null()) {
            return Err(format!("null at non-null position {}", at(path)));
        }
        if !truth.is_null() {
            *lost += 1;
        }
        return Ok(());
    }
    match (got, truth) {
        (Value::Object(g), Value::Object(t)) => {
            for (k, v) in g {
                let Some(tv) = t.get(k) else { return Err(format!("unknown key {k} at {}", at(path))) };
                path.push(json!(k));
                let ft = types.get(&at(path)).cloned();
                below(v, tv, ft.as_ref(), types, path, lost)?;
                path.pop();
            }
            for k in t.keys() {
                if !g.contains_key(k) {
                    return Err(format!("key {k} missing at {}", at(path)));
                }
            }
            Ok(())
        }
        (Value::Array(g), Value::Array(t)) => {
            if g.len() != t.len() {
                return Err(format!("list of {} instead of {} items at {}", g.len(), t.len(), at(path)));
            }
            for (i, (x, y)) in g.iter().zip(t).enumerate() {
                path.push(json!(i));
                below(x, y, ty.map(|t| t.item_type()), types, path, lost)?;
                path.pop();
            }
            Ok(())
        }
        _ if got == truth => Ok(()),
        _ => Err(format!("value {} instead of {} at {}", truncate(&got.to_string(), 200), truncate(&truth.to_string(), 200), at(path))),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    Http500,
    Html,
    Errors500,
    Drop,
    ErrorsOnly,
    NullData,
    BadJson,
    Cut,
    Empty,
    EmptyObject,
    NotAnObject,
    ShortEntities,
    NullEntities,
}
const FAULTS: &[Fault] = &[
    Fault::ErrorsOnly,
    Fault::NullData,
    Fault::Http500,
    Fault::Html,
    Fault::Errors500,
    Fault::Drop,
    Fault::BadJson,
    Fault::Cut,
    Fault::Empty,
    Fault::EmptyObject,
    Fault::NotAnObject,
    Fault::ShortEntities,
    Fault::NullEntities,
];

fn inject(f: Fault, mut a: SubAnswer) -> MockResp {
    let errs = json!([{"message": "subgraph is sick", "extensions": {"code": "SICK"}}]);
    match f {
        Fault::Http500 => raw_resp(500, &[("content-type", "text/plain")], "oh no"),
        Fault::Html => raw_resp(200, &[("content-type", "text/html")], "<html>login</html>"),
        Fault::Errors500 => json_resp(503, &json!({"errors": errs})),
        Fault::Drop => MockResp::Drop,
        Fault::ErrorsOnly => json_resp(200, &json!({"errors": errs})),
        Fault::NullData => json_resp(200, &json!({"data": null, "errors": errs})),
        Fault::BadJson => raw_resp(200, &[("content-type", "application/json")], "{\"data\": {\"a\": nul"),
        Fault::Cut => {
            let s = serde_json::to_string(&a.body).unwrap();
            let mut n = s.len() * 2 / 3;
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            raw_resp(200, &[("content-type", "application/json")], s[..n].to_string())
        }
        Fault::Empty => raw_resp(200, &[("content-type", "application/json")], ""),
        Fault::EmptyObject => json_resp(200, &json!({})),
        Fault::NotAnObject => json_resp(200, &json!([1, 2])),
        Fault::ShortEntities | Fault::NullEntities => {
            let mut hit = false;
            if let Some(o) = a.body["data"].as_object_mut() {
                for (_, v) in o.iter_mut() {
                    if a.log.entities > 0 {
                        if let Value::Array(l) = v {
                            hit = true;
                            if f == Fault::ShortEntities {
                                l.pop();
                            } else {
                                l.iter_mut().step_by(2).for_each(|x| *x = Value::Null);
                            }
                        }
                    }
                }
            }
            if hit {
                a.body["errors"] = errs;
            } else {
                a.body = json!({"data": null, "errors": errs});
            }
            json_resp(200, &a.body)
        }
    }
}

fn key_of(s: &Sel) -> Option<&str> {
    match s {
        Sel::Field { alias, name, .. } => Some(alias.as_deref().unwrap_or(name)),
        _ => None,
    }
}

fn calls(log: &[SubLog], s: &BTreeSet<usize>) -> Vec<String> {
    let mut v: Vec<String> = log.iter().filter(|l| s.contains(&l.sub)).map(|l| format!("{} {} {}", l.sub, l.query, l.variables)).collect();
    v.sort();
    v
}

async fn subs(src: &mut Src) -> Outcome {
    let prof = Profile { mutations: false, coin: false, ..Profile::default() };
    let Some(live) = gen_live(src, &prof) else { return Outcome::Discard };
    let live = Arc::new(live);
    let d = match deploy(live.clone(), CONF).await {
        Ok(d) => d,
        Err(e) => return Outcome::fail("router-rejects-supergraph", format!("{e}\n{}", dump_world(&live))),
    };
    let (mut nontrivial, mut labels, mut evals, mut sample, mut sig) = (false, vec![], 0, None, hash_str(&live.supergraph));
    d.shared.lock().unwrap().lenient = true;
    for _ in 0..src.range(1, 6) {
        let mut faults: BTreeMap<usize, Fault> = BTreeMap::new();
        for _ in 0..src.range(1, 2) {
            let s = src.n(live.w.nsub);
            faults.insert(s, *src.pick(FAULTS));
        }
        // only the n-th request and later ones may be hit
        let skip = if src.chance(20) { 1 } else { 0 };
        let op = gen_op(src, &live.api, &OpCfg { kind: "query", ..Default::default() });
        let failing: BTreeSet<usize> = faults.keys().copied().collect();
        let doc = ExecutableDocument::parse_and_validate(&live.api, &op.text, "q.graphql").unwrap_or_else(|e| panic!("HARNESS invalid operation: {e}\n{}", op.text));
        let o = doc.operations.get(op.name.as_deref()).unwrap();
        let mut typed = Typed { m: Mono::new(&live.w), types: HashMap::new() };
        let want = execute(&live.api, &doc, o, &op.variables, &mut typed);
        let types = typed.types;

        // healthy runs: the whole operation, and for each plain root field with and without it
        let plain: Vec<usize> = (0..op.roots.len()).filter(|i| matches!(&op.roots[*i], Sel::Field { name, .. } if name != "__typename")).collect();
        let keys: Vec<Option<&str>> = op.roots.iter().map(key_of).collect();
        let separable = keys.iter().all(|k| k.is_some()) && keys.iter().collect::<BTreeSet<_>>().len() == keys.len() && op.roots.len() >= 2;
        d.shared.lock().unwrap().hook = None;
        d.reset();
        let Ok(healthy) = d.router.gql(&op.body(), &[]).await else { return Outcome::fail("no-response", report(&op, "", "", &d.take_log(), &live, "healthy run")) };
        if healthy.json().and_then(|v| v.get("data").cloned()).as_ref() != Some(&want.data) {
            // C01's business
            continue;
        }
        let hlog = d.take_log();
        let mut safe: Vec<String> = vec![];
        if separable {
            for i in plain {
                let sub_op = |roots: Vec<Sel>| {
                    let mut o = op.clone();
                    o.roots = roots;
                    o.render_minimal();
                    o
                };
                let solo = sub_op(vec![op.roots[i].clone()]);
                let rest = sub_op(op.roots.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, x)| x.clone()).collect());
                d.reset();
                let a = d.router.gql(&solo.body(), &[]).await;
                let la = d.take_log();
                let b = d.router.gql(&rest.body(), &[]).await;
                let lb = d.take_log();
                let ok = |r: &Result<crate::router::Resp, String>| r.as_ref().is_ok_and(|r| r.json().is_some_and(|j| j.get("errors").is_none()));
                if ok(&a) && ok(&b) && calls(&la, &failing).is_empty() && calls(&lb, &failing) == calls(&hlog, &failing) {
                    safe.push(keys[i].unwrap().to_string());
                }
            }
        }
        let f2 = faults.clone();
        let count = Arc::new(std::sync::atomic::AtomicUsize::new(0));
        let struck = Arc::new(std::sync::atomic::AtomicUsize::new(0));
        let struck2 = struck.clone();
        d.shared.lock().unwrap().hook = Some(Arc::new(move |_r, s, a| {
            let f = f2.get(&s).copied();
            let n = count.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            let struck = struck2.clone();
            async move {
                match f {
                    Some(f) if n >= skip => {
                        struck.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        inject(f, a)
                    }
                    _ => MockResp::from_answer(a),
                }
            }
            .boxed()
        }));
        d.reset();
        let resp = match d.router.gql(&op.body(), &[]).await {
            Ok(r) => r,
            Err(e) => return Outcome::fail("no-response", report(&op, &e, &want.data.to_string(), &d.take_log(), &live, &format!("faults: {faults:?}"))),
        };
        let log = d.take_log();
        evals += 1;
        let struck = struck.load(std::sync::atomic::Ordering::SeqCst);
        let Some(got) = resp.json() else { return Outcome::fail("not-json", report(&op, &resp.text(), &want.data.to_string(), &log, &live, &format!("faults: {faults:?}"))) };
        let errs = got.get("errors").and_then(|e| e.as_array()).cloned().unwrap_or_default();
        let mut lost = 0;
        let mut bad: Option<(String, String)> = None;
        let data = got.get("data").cloned().unwrap_or(json!("<absent>"));
        if let Err(e) = below(&data, &want.data, None, &types, &mut vec![], &mut lost) {
            bad = Some(("not-below-truth".into(), e));
        } else if errs.is_empty() && (got.get("errors").is_some() || lost > 0) {
            bad = Some(("loss-without-errors".into(), format!("{lost} lost values")));
        } else if errs.is_empty() && struck > 0 {
            bad = Some(("failure-not-reported".into(), String::new()));
        } else if struck == 0 && !errs.is_empty() {
            bad = Some(("errors-without-failure".into(), String::new()));
        } else if let Some(e) = errs.iter().find(|e| !e["message"].is_string()) {
            bad = Some(("error-without-message".into(), e.to_string()));
        } else if errs.iter().any(|e| e["message"] == "subgraph is sick" && e["extensions"]["code"] != "SICK") {
            bad = Some(("error-extensions-lost".into(), String::new()));
        } else if data.is_object() {
            for k in &safe {
                if data.get(k) != want.data.get(k) {
                    bad = Some(("independent-field-lost".into(), format!("root field {k} needs no failing subgraph")));
                }
            }
        } else if struck > 0 && !want.data.is_null() {
            // everything is gone: some root field is non-null and failed
            let nn = want.data.as_object().into_iter().flatten().any(|(k, _)| !safe.contains(k) && types.get(&json!([k]).to_string()).is_some_and(|t| t.is_non_null()));
            if !nn {
                bad = Some(("data-null-without-reason".into(), "no dependent non-null root field".into()));
            }
        }
        if let Some((b, why)) = bad {
            let x = format!("{why}\nfaults: {faults:?} struck {struck} status {}\n{}", resp.status, explain(&live, &op).await);
            return Outcome::fail(&b, report(&op, &resp.text(), &want.data.to_string(), &log, &live, &x));
        }
        if struck > 0 {
            labels.extend(faults.values().map(|f| format!("{f:?}")));
            if !safe.is_empty() {
                labels.push("independent root field kept".into());
            }
            if !safe.is_empty() || (data.is_object() && data != json!({})) {
                nontrivial = true;
                sample.get_or_insert_with(|| format!("{} faults {faults:?} => {}", op.text, truncate(&resp.text(), 700)));
            }
        }
        sig = mix(sig, hash_str(&op.text));
    }
    Outcome::Pass { nontrivial, sig, labels, evals, sample }
}
