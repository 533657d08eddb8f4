//! A small GraphQL executor (own collection, coercion, completion and null propagation) used for the
//! monolith reference and, with a different backend, for every mock subgraph.
use super::data::*;
use super::model::*;
use apollo_compiler::ast;
use apollo_compiler::executable as ex;
use apollo_compiler::schema::ExtendedType;
use apollo_compiler::validation::Valid;
use apollo_compiler::{ExecutableDocument, Node, Schema};
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct Obj {
    pub inst: Inst,
    pub rep: Option<Arc<Value>>,
    pub provided: Vec<FSel>,
}
impl Obj {
    pub fn plain(inst: Inst) -> Obj {
        Obj { inst, rep: None, provided: vec![] }
    }
    pub fn root(ty: &str) -> Obj {
        Obj::plain(Inst { ty: ty.to_string(), id: Ident::Hash(0) })
    }
}

#[derive(Clone, Debug)]
pub enum RV {
    Null,
    Leaf(Value),
    List(Vec<RV>),
    Obj(Obj),
    Err(String),
}
pub fn lift(v: Val, provided: &[FSel]) -> RV {
    match v {
        Val::Null => RV::Null,
        Val::Leaf(x) => RV::Leaf(x),
        Val::List(l) => RV::List(l.into_iter().map(|x| lift(x, provided)).collect()),
        Val::Obj(i) => RV::Obj(Obj { inst: i, rep: None, provided: provided.to_vec() }),
    }
}

pub trait Backend {
    fn typename(&self, o: &Obj) -> String;
    fn resolve(&mut self, o: &Obj, field: &ex::Field, args: &Value, path: &[Value]) -> RV;
}

#[derive(Clone, Debug)]
pub struct GErr {
    pub path: Vec<Value>,
    pub message: String,
}

pub struct Exec<'a, B: Backend> {
    pub schema: &'a Valid<Schema>,
    pub doc: &'a ExecutableDocument,
    pub vars: &'a Map<String, Value>,
    pub back: &'a mut B,
    pub errors: Vec<GErr>,
    pub fields: u64,
}

/// canonical argument values: integers given for Float become floats, ids become strings, single values
/// become lists, defaults are filled in
pub fn coerce_input(schema: &Schema, ty: &ast::Type, v: &ast::Value, vars: &Map<String, Value>) -> Option<Value> {
    if let ast::Value::Variable(n) = v {
        return vars.get(n.as_str()).cloned();
    }
    match ty {
        ast::Type::NonNullNamed(n) => coerce_input(schema, &ast::Type::Named(n.clone()), v, vars),
        ast::Type::NonNullList(t) => coerce_input(schema, &ast::Type::List(t.clone()), v, vars),
        ast::Type::List(t) => match v {
            ast::Value::Null => Some(Value::Null),
            ast::Value::List(l) => Some(Value::Array(l.iter().map(|x| coerce_input(schema, t, x, vars).unwrap_or(Value::Null)).collect())),
            x => Some(Value::Array(vec![coerce_input(schema, t, x, vars)?])),
        },
        ast::Type::Named(n) => Some(match v {
            ast::Value::Null => Value::Null,
            ast::Value::Boolean(b) => json!(*b),
            ast::Value::Enum(e) => json!(e.as_str()),
            ast::Value::String(s) => json!(s),
            ast::Value::Int(i) => match n.as_str() {
                "Float" => json!(i.as_str().parse::<f64>().unwrap_or(0.0)),
                "ID" => json!(i.as_str()),
                _ => serde_json::from_str(i.as_str()).unwrap_or(Value::Null),
            },
            ast::Value::Float(f) => serde_json::from_str(f.as_str()).unwrap_or(Value::Null),
            ast::Value::List(l) => Value::Array(l.iter().map(|x| coerce_input(schema, ty, x, vars).unwrap_or(Value::Null)).collect()),
            ast::Value::Object(o) => {
                let mut m = Map::new();
                if let Some(ExtendedType::InputObject(io)) = schema.types.get(n) {
                    for (fname, fd) in &io.fields {
                        let given = o.iter().find(|(k, _)| k == fname).and_then(|(_, x)| coerce_input(schema, &fd.ty, x, vars));
                        match given {
                            Some(x) => {
                                m.insert(fname.to_string(), x);
                            }
                            None => {
                                if let Some(d) = &fd.default_value {
                                    if let Some(x) = coerce_input(schema, &fd.ty, d, &Map::new()) {
                                        m.insert(fname.to_string(), x);
                                    }
                                }
                            }
                        }
                    }
                } else {
                    for (k, x) in o {
                        m.insert(k.to_string(), coerce_input(schema, ty, x, vars).unwrap_or(Value::Null));
                    }
                }
                Value::Object(m)
            }
            ast::Value::Variable(_) => unreachable!(),
        }),
    }
}

/// canonical form of a JSON variable value (assumed valid)
pub fn canon_json(schema: &Schema, ty: &ast::Type, v: &Value) -> Value {
    match ty {
        ast::Type::NonNullNamed(n) => canon_json(schema, &ast::Type::Named(n.clone()), v),
        ast::Type::NonNullList(t) => canon_json(schema, &ast::Type::List(t.clone()), v),
        ast::Type::List(t) => match v {
            Value::Null => Value::Null,
            Value::Array(l) => Value::Array(l.iter().map(|x| canon_json(schema, t, x)).collect()),
            x => Value::Array(vec![canon_json(schema, t, x)]),
        },
        ast::Type::Named(n) => match (n.as_str(), v) {
            (_, Value::Null) => Value::Null,
            ("Float", Value::Number(x)) => json!(x.as_f64().unwrap_or(0.0)),
            ("Int", Value::Number(x)) if x.is_f64() => json!(x.as_f64().unwrap_or(0.0) as i64),
            ("ID", Value::Number(x)) => json!(x.to_string()),
            (_, Value::Object(o)) => {
                if let Some(ExtendedType::InputObject(io)) = schema.types.get(n) {
                    let mut m = Map::new();
                    for (fname, fd) in &io.fields {
                        if let Some(x) = o.get(fname.as_str()) {
                            m.insert(fname.to_string(), canon_json(schema, &fd.ty, x));
                        } else if let Some(d) = &fd.default_value {
                            if let Some(x) = coerce_input(schema, &fd.ty, d, &Map::new()) {
                                m.insert(fname.to_string(), x);
                            }
                        }
                    }
                    Value::Object(m)
                } else {
                    v.clone()
                }
            }
            _ => v.clone(),
        },
    }
}

/// request variables (assumed valid) with defaults applied; absent stays absent
pub fn effective_vars(schema: &Schema, op: &ex::Operation, given: &Value) -> Map<String, Value> {
    let mut m = Map::new();
    for d in &op.variables {
        match given.get(d.name.as_str()) {
            Some(v) => {
                m.insert(d.name.to_string(), canon_json(schema, &d.ty, v));
            }
            None => {
                if let Some(dv) = &d.default_value {
                    if let Some(x) = coerce_input(schema, &d.ty, dv, &Map::new()) {
                        m.insert(d.name.to_string(), x);
                    }
                }
            }
        }
    }
    m
}

type Group<'a> = Vec<(String, Vec<&'a Node<ex::Field>>)>;

impl<'a, B: Backend> Exec<'a, B> {
    fn included(&self, dirs: &ast::DirectiveList) -> bool {
        let get = |n: &str| -> Option<bool> {
            let d = dirs.get(n)?;
            let v = d.specified_argument_by_name("if")?;
            match &**v {
                ast::Value::Boolean(b) => Some(*b),
                ast::Value::Variable(x) => self.vars.get(x.as_str()).and_then(|v| v.as_bool()),
                _ => None,
            }
        };
        get("skip") != Some(true) && get("include") != Some(false)
    }

    pub fn applies(schema: &Schema, cond: &str, ty: &str) -> bool {
        cond == ty || schema.is_subtype(cond, ty)
    }

    fn collect(&self, ty: &str, sets: &[&'a ex::SelectionSet], out: &mut Group<'a>, seen: &mut Vec<String>) {
        for ss in sets {
            for s in &ss.selections {
                match s {
                    ex::Selection::Field(f) => {
                        if !self.included(&f.directives) {
                            continue;
                        }
                        let k = f.response_key().to_string();
                        match out.iter_mut().find(|(n, _)| *n == k) {
                            Some((_, v)) => v.push(f),
                            None => out.push((k, vec![f])),
                        }
                    }
                    ex::Selection::FragmentSpread(sp) => {
                        if !self.included(&sp.directives) || seen.iter().any(|x| x == sp.fragment_name.as_str()) {
                            continue;
                        }
                        seen.push(sp.fragment_name.to_string());
                        if let Some(fr) = self.doc.fragments.get(&sp.fragment_name) {
                            if Self::applies(self.schema, fr.type_condition().as_str(), ty) {
                                self.collect(ty, &[&fr.selection_set], out, seen);
                            }
                        }
                    }
                    ex::Selection::InlineFragment(i) => {
                        if !self.included(&i.directives) {
                            continue;
                        }
                        if i.type_condition.as_ref().map_or(true, |c| Self::applies(self.schema, c.as_str(), ty)) {
                            self.collect(ty, &[&i.selection_set], out, seen);
                        }
                    }
                }
            }
        }
    }

    pub fn args(&self, f: &ex::Field) -> Value {
        let mut m = Map::new();
        for d in &f.definition.arguments {
            let given = f.arguments.iter().find(|a| a.name == d.name).and_then(|a| coerce_input(self.schema, &d.ty, &a.value, self.vars));
            match given {
                Some(v) => {
                    m.insert(d.name.to_string(), v);
                }
                None => {
                    if let Some(dv) = &d.default_value {
                        if let Some(x) = coerce_input(self.schema, &d.ty, dv, &Map::new()) {
                            m.insert(d.name.to_string(), x);
                        }
                    }
                }
            }
        }
        Value::Object(m)
    }

    /// Err(()) = null propagates to the parent
    pub fn selection(&mut self, obj: &Obj, sets: &[&'a ex::SelectionSet], path: &mut Vec<Value>) -> Result<Value, ()> {
        let ty = self.back.typename(obj);
        let mut groups: Group<'a> = vec![];
        self.collect(&ty, sets, &mut groups, &mut vec![]);
        let mut m = Map::new();
        for (key, fs) in groups {
            let f = fs[0];
            path.push(json!(key));
            self.fields += 1;
            let r = if f.name == "__typename" {
                Ok(json!(ty))
            } else {
                let args = self.args(f);
                let rv = self.back.resolve(obj, f, &args, path);
                let subs: Vec<&'a ex::SelectionSet> = fs.iter().map(|f| &f.selection_set).collect();
                self.complete(&f.definition.ty, rv, &subs, path)
            };
            path.pop();
            match r {
                Ok(v) => {
                    m.insert(key, v);
                }
                Err(()) => return Err(()),
            }
        }
        Ok(Value::Object(m))
    }

    fn complete(&mut self, ty: &ast::Type, v: RV, subs: &[&'a ex::SelectionSet], path: &mut Vec<Value>) -> Result<Value, ()> {
        let nn = ty.is_non_null();
        let r = match v {
            RV::Err(m) => {
                self.errors.push(GErr { path: path.clone(), message: m });
                Err(())
            }
            RV::Null => {
                if nn {
                    self.errors.push(GErr { path: path.clone(), message: "null in non-null position".into() });
                    Err(())
                } else {
                    Ok(Value::Null)
                }
            }
            RV::Leaf(x) => Ok(x),
            RV::List(l) => {
                let item = ty.item_type();
                let mut out = vec![];
                let mut bad = false;
                for (i, x) in l.into_iter().enumerate() {
                    path.push(json!(i));
                    let r = self.complete(item, x, subs, path);
                    path.pop();
                    match r {
                        Ok(v) => out.push(v),
                        Err(()) => {
                            bad = true;
                            break;
                        }
                    }
                }
                if bad {
                    Err(())
                } else {
                    Ok(Value::Array(out))
                }
            }
            RV::Obj(o) => self.selection(&o, subs, path),
        };
        match r {
            Err(()) if !nn => Ok(Value::Null),
            r => r,
        }
    }
}

/// the reference: one process which knows everything
pub struct Mono<'a> {
    pub w: &'a World,
    /// (concrete type or interface-object home, field) -> error message
    pub broken: BTreeMap<(String, String), String>,
    pub hits: u64,
    pub touched: std::collections::BTreeSet<(String, String)>,
}
impl<'a> Mono<'a> {
    pub fn new(w: &'a World) -> Self {
        Mono { w, broken: BTreeMap::new(), hits: 0, touched: Default::default() }
    }
}
impl<'a> Backend for Mono<'a> {
    fn typename(&self, o: &Obj) -> String {
        o.inst.ty.clone()
    }
    fn resolve(&mut self, o: &Obj, f: &ex::Field, args: &Value, _p: &[Value]) -> RV {
        let name = f.name.as_str();
        if let Some((_, home)) = self.w.find_field(&o.inst.ty, name) {
            self.touched.insert((home.clone(), name.to_string()));
            if let Some(m) = self.broken.get(&(home, name.to_string())) {
                self.hits += 1;
                return RV::Err(m.clone());
            }
        }
        lift(self.w.truth(&o.inst, name, args, None), &[])
    }
}

pub struct Executed {
    pub data: Value,
    pub errors: Vec<GErr>,
    pub fields: u64,
}

pub fn execute<B: Backend>(schema: &Valid<Schema>, doc: &ExecutableDocument, op: &ex::Operation, given: &Value, back: &mut B) -> Executed {
    let vars = effective_vars(schema, op, given);
    let root = op.selection_set.ty.to_string();
    let mut e = Exec { schema, doc, vars: &vars, back, errors: vec![], fields: 0 };
    let data = e.selection(&Obj::root(&root), &[&op.selection_set], &mut vec![]).unwrap_or(Value::Null);
    Executed { data, errors: e.errors, fields: e.fields }
}
