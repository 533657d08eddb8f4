//! Executes what the router sends to a subgraph, judging each request against the federation contract.
use super::data::*;
use super::interp::*;
use super::model::*;
use apollo_compiler::executable as ex;
use apollo_compiler::validation::Valid;
use apollo_compiler::{ExecutableDocument, Schema};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex};

pub struct SubSchema {
    pub schema: Valid<Schema>,
    cache: Mutex<HashMap<String, Arc<Result<Valid<ExecutableDocument>, String>>>>,
}
impl SubSchema {
    pub fn new(sdl: &str, name: &str) -> Result<Self, String> {
        let schema = Schema::parse_and_validate(sdl, name).map_err(|e| format!("{e}"))?;
        Ok(SubSchema { schema, cache: Mutex::new(HashMap::new()) })
    }
    pub fn parse(&self, q: &str) -> Arc<Result<Valid<ExecutableDocument>, String>> {
        if let Some(x) = self.cache.lock().unwrap().get(q) {
            return x.clone();
        }
        let r = Arc::new(ExecutableDocument::parse_and_validate(&self.schema, q, "op.graphql").map_err(|e| format!("{e}")));
        self.cache.lock().unwrap().insert(q.to_string(), r.clone());
        r
    }
}

#[derive(Clone, Debug, Default)]
pub struct SubLog {
    pub sub: usize,
    pub query: String,
    pub variables: Value,
    pub violations: Vec<String>,
    pub entities: u64,
    pub op_name: Option<String>,
    pub answer: Value,
}

pub struct SubBackend<'a> {
    pub w: &'a World,
    pub s: usize,
    pub violations: Vec<String>,
    pub entities: u64,
    pub broken: &'a BTreeMap<(String, String), String>,
    pub hits: u64,
    pub entity_calls: u64,
    /// some subgraph is failing on purpose
    pub lenient: bool,
    /// labels of progressive overrides which are active for this request
    pub labels: Option<&'a BTreeSet<String>>,
}

fn poison(ty: &Ty, w: &World) -> RV {
    match ty {
        Ty::NonNull(t) => poison(t, w),
        Ty::List(t) => RV::List(vec![poison(t, w)]),
        Ty::Named(n) => match n.as_str() {
            "Int" => RV::Leaf(json!(-99999)),
            "Float" => RV::Leaf(json!(-99999.5)),
            "String" | "ID" => RV::Leaf(json!("POISON")),
            "Boolean" => RV::Leaf(json!(false)),
            _ => match w.types.get(n).map(|t| &t.kind) {
                Some(Kind::Enum(v)) => RV::Leaf(json!(v[0].0)),
                Some(Kind::Scalar) => RV::Leaf(json!("POISON")),
                _ => RV::Null,
            },
        },
    }
}

impl<'a> SubBackend<'a> {
    fn view(&self, ty: &str) -> String {
        // concrete type as this subgraph names it
        if let Some(t) = self.w.types.get(ty) {
            if !t.subs.contains(&self.s) {
                if let Some(i) = self.w.types.get(&t.ns) {
                    if i.iface_object.contains(&self.s) {
                        return i.name.clone();
                    }
                }
            }
        }
        ty.to_string()
    }

    fn entity(&mut self, rep: &Value) -> RV {
        let w = self.w;
        self.entities += 1;
        let Some(tn) = rep.get("__typename").and_then(|t| t.as_str()) else {
            self.violations.push(format!("representation without __typename: {rep}"));
            return RV::Null;
        };
        let Some(t) = w.types.get(tn).filter(|t| t.subs.contains(&self.s)) else {
            self.violations.push(format!("representation of type {tn} which subgraph s{} does not define: {rep}", self.s));
            return RV::Null;
        };
        let keys: Vec<&KeyDef> = t.keys.get(&self.s).map(|k| k.iter().collect()).unwrap_or_default();
        if keys.is_empty() {
            self.violations.push(format!("representation of non-entity {tn}: {rep}"));
            return RV::Null;
        }
        let mut found: Option<u64> = None;
        for k in keys.iter().filter(|k| k.resolvable) {
            if let Some(i) = w.decode(tn, &k.sel, rep) {
                found = Some(i);
                break;
            }
        }
        let Some(i) = found else {
            self.violations.push(format!("representation for s{} satisfies no resolvable key of {tn} ({:?}): {rep}", self.s, keys.iter().map(|k| (&k.sel, k.resolvable)).collect::<Vec<_>>()));
            return RV::Null;
        };
        let ty = w.class_of(&t.ns, i);
        // everything else in the representation must be true of that entity
        if let Value::Object(o) = rep {
            let inst = Inst { ty: ty.clone(), id: Ident::Ent(i) };
            for (k, v) in o {
                if k == "__typename" {
                    continue;
                }
                match w.find_field(&ty, k) {
                    None => self.violations.push(format!("representation of {tn} carries unknown field {k}: {rep}")),
                    Some((fd, _)) if fd.args.is_empty() => {
                        let tv = w.truth(&inst, k, &json!({}), None);
                        if !consistent(w, v, &tv) {
                            self.violations.push(format!("representation of {tn} carries a wrong value for {k}: {rep} (entity {i})"));
                        }
                    }
                    _ => {}
                }
            }
        }
        RV::Obj(Obj { inst: Inst { ty, id: Ident::Ent(i) }, rep: Some(Arc::new(rep.clone())), provided: vec![] })
    }
}

fn consistent(w: &World, have: &Value, truth: &Val) -> bool {
    match (have, truth) {
        (Value::Null, Val::Null) => true,
        (h, Val::Leaf(x)) => h == x,
        (Value::Array(a), Val::List(l)) => a.len() == l.len() && a.iter().zip(l).all(|(x, y)| consistent(w, x, y)),
        (Value::Object(o), Val::Obj(i)) => o.iter().all(|(k, v)| {
            if k == "__typename" {
                return v == &json!(i.ty) || v == &json!(w.ns(&i.ty));
            }
            match w.find_field(&i.ty, k) {
                Some((fd, _)) if fd.args.is_empty() => consistent(w, v, &w.truth(i, k, &json!({}), None)),
                Some(_) => true,
                None => false,
            }
        }),
        _ => false,
    }
}

impl<'a> Backend for SubBackend<'a> {
    fn typename(&self, o: &Obj) -> String {
        self.view(&o.inst.ty)
    }
    fn resolve(&mut self, o: &Obj, f: &ex::Field, args: &Value, _path: &[Value]) -> RV {
        let w = self.w;
        let name = f.name.as_str();
        if o.inst.ty == "Query" && name == "_entities" {
            let reps = args["representations"].as_array().cloned().unwrap_or_default();
            // a batched request may leave one of its aliases empty, but a request has to ask for something
            self.entity_calls += 1;
            return RV::List(reps.iter().map(|r| self.entity(r)).collect());
        }
        if name == "_service" {
            return RV::Null;
        }
        let Some((fd, home)) = w.find_field(&o.inst.ty, name) else {
            self.violations.push(format!("s{} asked for unknown {}.{name}", self.s, o.inst.ty));
            return RV::Null;
        };
        let prov = o.provided.iter().find(|p| p.name == name).cloned();
        // an interface object declares the fields itself, whatever the concrete type is elsewhere
        let seen_as = self.view(&o.inst.ty);
        let decl = if seen_as != o.inst.ty { w.types.get(&seen_as).and_then(|t| t.field(name)).unwrap_or(fd) } else { fd };
        let Some(at) = decl.at.get(&self.s) else {
            self.violations.push(format!("s{} asked for {}.{name} which it does not define", self.s, o.inst.ty));
            return poison(&fd.ty, w);
        };
        if at.external && prov.is_none() {
            self.violations.push(format!("s{} asked for external field {}.{name}", self.s, o.inst.ty));
            return poison(&fd.ty, w);
        }
        if fd.at.values().any(|a| matches!(&a.over, Some((from, None)) if *from == self.s)) {
            self.violations.push(format!("s{} asked for {}.{name} which is overridden by another subgraph", self.s, o.inst.ty));
            return poison(&fd.ty, w);
        }
        if let Some(active) = self.labels {
            if let Some((_, Some(l))) = &at.over {
                if !active.contains(l) {
                    self.violations.push(format!("s{} asked for {}.{name} but override label {l} is not active", self.s, o.inst.ty));
                    return poison(&fd.ty, w);
                }
            }
            for a in fd.at.values() {
                if let Some((from, Some(l))) = &a.over {
                    if *from == self.s && active.contains(l) {
                        self.violations.push(format!("s{} asked for {}.{name} although override label {l} is active", self.s, o.inst.ty));
                        return poison(&fd.ty, w);
                    }
                }
            }
        }
        if let Some(m) = self.broken.get(&(home, name.to_string())) {
            self.hits += 1;
            return RV::Err(m.clone());
        }
        let mut given = None;
        if let Some(r) = &at.requires {
            let sel = parse_fsel(r);
            let v = o.rep.as_ref().and_then(|rep| project(w, rep, &sel));
            match v {
                Some(v) => given = Some(v),
                None => {
                    self.violations.push(format!("s{} asked for {}.{name} without the required fields {{{r}}}; representation {:?}", self.s, o.inst.ty, o.rep));
                    // (the router is known to ask without inputs whose fetch failed)
                    return if self.lenient { RV::Null } else { poison(&fd.ty, w) };
                }
            }
        }
        let next: Vec<FSel> = match (&at.provides, prov) {
            (Some(p), _) => parse_fsel(p),
            (None, Some(p)) => p.sub,
            _ => vec![],
        };
        lift(w.truth(&o.inst, name, args, given.as_ref()), &next)
    }
}

pub struct SubAnswer {
    pub body: Value,
    pub log: SubLog,
    pub hits: u64,
    pub op_type: Option<ex::OperationType>,
}

/// run one HTTP GraphQL request of the router against subgraph `s`
pub fn answer(w: &World, s: usize, ss: &SubSchema, body: &[u8], broken: &BTreeMap<(String, String), String>, labels: Option<&BTreeSet<String>>, lenient: bool) -> SubAnswer {
    let mut log = SubLog { sub: s, ..Default::default() };
    let req: Value = match serde_json::from_slice(body) {
        Ok(v) => v,
        Err(e) => {
            log.violations.push(format!("request body is not JSON ({e}): {}", String::from_utf8_lossy(body)));
            return SubAnswer { body: json!({"errors":[{"message":"bad body"}]}), log, hits: 0, op_type: None };
        }
    };
    let q = req.get("query").and_then(|q| q.as_str()).unwrap_or("").to_string();
    let vars = match req.get("variables") {
        None | Some(Value::Null) => json!({}),
        Some(v) => v.clone(),
    };
    log.query = q.clone();
    log.variables = vars.clone();
    log.op_name = req.get("operationName").and_then(|x| x.as_str()).map(|s| s.to_string());
    let doc = ss.parse(&q);
    let doc = match doc.as_ref() {
        Ok(d) => d,
        Err(e) => {
            log.violations.push(format!("operation is not valid in s{}: {e}\n{q}", log.sub));
            return SubAnswer { body: json!({"errors":[{"message":"invalid operation"}]}), log, hits: 0, op_type: None };
        }
    };
    let op = match doc.operations.get(log.op_name.as_deref()) {
        Ok(o) => o,
        Err(_) => {
            log.violations.push(format!("operationName {:?} does not select an operation in {q}", log.op_name));
            return SubAnswer { body: json!({"errors":[{"message":"no operation"}]}), log, hits: 0, op_type: None };
        }
    };
    // variables must be coercible and declared
    match serde_json_bytes_map(&vars) {
        Some(m) => {
            if let Err(e) = apollo_compiler::request::coerce_variable_values(&ss.schema, op, &m) {
                log.violations.push(format!("variables do not coerce in s{}: {}\n{q}\n{vars}", log.sub, e.message()));
            }
        }
        None => log.violations.push(format!("variables are not an object: {vars}")),
    }
    if let Value::Object(o) = &vars {
        for k in o.keys() {
            if !op.variables.iter().any(|d| d.name.as_str() == k) {
                log.violations.push(format!("variable {k} is not declared by the operation\n{q}\n{vars}"));
            }
        }
    }
    let mut back = SubBackend { w, s, violations: vec![], entities: 0, broken, hits: 0, entity_calls: 0, lenient, labels };
    let r = execute(&ss.schema, doc, op, &vars, &mut back);
    log.violations.append(&mut back.violations);
    log.entities = back.entities;
    if back.entity_calls > 0 && back.entities == 0 {
        log.violations.push("_entities called without any representation".into());
    }
    let mut out = json!({"data": r.data});
    if !r.errors.is_empty() {
        out["errors"] = Value::Array(
            r.errors.iter().filter(|e| e.message != "null in non-null position").map(|e| json!({"message": e.message, "path": e.path, "extensions": {"code": "BROKEN"}})).collect(),
        );
    }
    log.answer = out.clone();
    SubAnswer { body: out, log, hits: back.hits, op_type: Some(op.operation_type) }
}

pub fn serde_json_bytes_map(v: &Value) -> Option<apollo_compiler::response::JsonMap> {
    match serde_json_bytes_from(v) {
        apollo_compiler::response::JsonValue::Object(m) => Some(m),
        _ => None,
    }
}
pub fn serde_json_bytes_from(v: &Value) -> apollo_compiler::response::JsonValue {
    serde_json::from_value(v.clone()).unwrap_or(apollo_compiler::response::JsonValue::Null)
}
