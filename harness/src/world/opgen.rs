//! Generates operations from a client-visible schema.
use super::on;
use crate::tape::Src;
use apollo_compiler::ast::Type;
use apollo_compiler::schema::ExtendedType;
use apollo_compiler::validation::Valid;
use apollo_compiler::{ExecutableDocument, Schema};
use serde_json::{json, Map, Value};
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub enum Sel {
    Field { alias: Option<String>, name: String, args: String, dirs: String, sub: Vec<Sel> },
    Inline { on: Option<String>, dirs: String, sub: Vec<Sel> },
    Spread { name: String, dirs: String },
}

#[derive(Clone, Debug)]
pub struct VarDef {
    pub name: String,
    pub ty: String,
    pub default: Option<String>,
}

#[derive(Clone, Debug)]
pub struct OpCfg {
    pub max_depth: usize,
    pub fragments: bool,
    pub variables: bool,
    pub conditions: bool,
    pub args: bool,
    pub introspection: bool,
    pub kind: &'static str,
    pub max_roots: usize,
}
impl Default for OpCfg {
    fn default() -> Self {
        OpCfg { max_depth: 5, fragments: true, variables: true, conditions: true, args: true, introspection: false, kind: "query", max_roots: 3 }
    }
}

#[derive(Clone, Debug)]
pub struct Op {
    pub text: String,
    pub variables: Value,
    pub name: Option<String>,
    pub roots: Vec<Sel>,
    pub frags: Vec<(String, String, Vec<Sel>)>,
    pub vars: Vec<VarDef>,
    pub kind: &'static str,
}

pub struct Gen<'a> {
    pub schema: &'a Schema,
    pub cfg: OpCfg,
    pub vars: Vec<VarDef>,
    pub values: Map<String, Value>,
    pub frags: Vec<(String, String, Vec<Sel>)>,
    /// fragments whose body was made for use under a condition
    cond_frags: Vec<String>,
    flat_next: bool,
    /// number of enclosing selections with a condition
    under_cond: usize,
    keys: HashMap<String, String>,
    liberal: bool,
    budget: i64,
    next_alias: usize,
}

// known finding alias-shadows-field: aliases equal to a field name of the same object are a case of its own
const ALIASES: &[&str] = &["a", "b", "c", "d", "name", "data", "errors", "extensions", "x_1", "_y", "type", "query"];

impl<'a> Gen<'a> {
    pub fn new(schema: &'a Schema, cfg: OpCfg) -> Self {
        Gen { schema, cfg, vars: vec![], values: Map::new(), frags: vec![], cond_frags: vec![], flat_next: false, under_cond: 0, keys: HashMap::new(), liberal: false, budget: 40, next_alias: 0 }
    }

    fn fields(&self, ty: &str) -> Vec<(String, Type, Vec<apollo_compiler::Node<apollo_compiler::ast::InputValueDefinition>>)> {
        match self.schema.types.get(ty) {
            Some(ExtendedType::Object(o)) => o.fields.values().map(|f| (f.name.to_string(), f.ty.clone(), f.arguments.clone())).collect(),
            Some(ExtendedType::Interface(o)) => o.fields.values().map(|f| (f.name.to_string(), f.ty.clone(), f.arguments.clone())).collect(),
            _ => vec![],
        }
    }
    fn is_composite(&self, ty: &str) -> bool {
        matches!(self.schema.types.get(ty), Some(ExtendedType::Object(_) | ExtendedType::Interface(_) | ExtendedType::Union(_)))
    }
    fn possible(&self, ty: &str) -> Vec<String> {
        match self.schema.types.get(ty) {
            Some(ExtendedType::Object(_)) => vec![ty.to_string()],
            Some(ExtendedType::Union(u)) => u.members.iter().map(|m| m.to_string()).collect(),
            Some(ExtendedType::Interface(_)) => self
                .schema
                .types
                .iter()
                .filter_map(|(n, t)| match t {
                    ExtendedType::Object(o) if o.implements_interfaces.iter().any(|i| i.as_str() == ty) => Some(n.to_string()),
                    _ => None,
                })
                .collect(),
            _ => vec![],
        }
    }
    fn is_abstract(&self, ty: &str) -> bool {
        matches!(self.schema.types.get(ty), Some(ExtendedType::Interface(_) | ExtendedType::Union(_)))
    }
    /// no type of `possible` has a field selected, once literal conditions are applied
    fn nothing_left(&self, s: &[Sel], possible: &[String]) -> bool {
        let gone = |d: &str| d.contains("@skip(if: true)") || d.contains("@include(if: false)");
        s.iter().all(|x| match x {
            Sel::Field { dirs, .. } => gone(dirs),
            Sel::Inline { on, dirs, sub } => {
                let p: Vec<String> = match on {
                    Some(t) => self.possible(t).into_iter().filter(|x| possible.contains(x)).collect(),
                    None => possible.to_vec(),
                };
                gone(dirs) || p.is_empty() || self.nothing_left(sub, &p)
            }
            Sel::Spread { name, dirs } => {
                let Some((_, t, f)) = self.frags.iter().find(|(n, _, _)| n == name) else { return true };
                let p: Vec<String> = self.possible(t).into_iter().filter(|x| possible.contains(x)).collect();
                gone(dirs) || p.is_empty() || self.nothing_left(f, &p)
            }
        })
    }
    /// type conditions which can apply inside `ty`
    fn conds(&self, ty: &str) -> Vec<String> {
        if ty.starts_with("__") {
            return vec![ty.to_string()];
        }
        let p = self.possible(ty);
        let mut out: Vec<String> = self
            .schema
            .types
            .iter()
            .filter(|(n, t)| !n.starts_with("__") && matches!(t, ExtendedType::Object(_) | ExtendedType::Interface(_) | ExtendedType::Union(_)))
            .map(|(n, _)| n.to_string())
            .filter(|n| self.possible(n).iter().any(|x| p.contains(x)))
            .collect();
        out.sort();
        out
    }

    fn dirs(&mut self, src: &mut Src) -> String {
        if !self.cfg.conditions || !src.chance(14) {
            return String::new();
        }
        let mut one = |me: &mut Self, src: &mut Src, n: &str| {
            let v = if me.cfg.variables && src.chance(65) {
                format!("${}", me.bool_var(src))
            } else {
                (if src.chance(50) { "false" } else { "true" }).to_string()
            };
            format!(" @{n}(if: {v})")
        };
        match src.weighted(&[45, 45, 10]) {
            0 => one(self, src, "include"),
            1 => one(self, src, "skip"),
            _ => {
                let a = one(self, src, "skip");
                let b = one(self, src, "include");
                a + &b
            }
        }
    }

    /// conditions of a fragment; none at the root (known finding requires-under-root-condition)
    fn frag_dirs(&mut self, src: &mut Src, parent: &str, depth: usize) -> String {
        if (depth == 0 || matches!(parent, "Query" | "Mutation" | "Subscription")) && !on("requires-under-root-condition") {
            return String::new();
        }
        self.dirs(src)
    }

    fn bool_var(&mut self, src: &mut Src) -> String {
        let have: Vec<String> = self.vars.iter().filter(|v| v.ty == "Boolean!").map(|v| v.name.clone()).collect();
        if !have.is_empty() && src.chance(60) {
            return src.pick(&have).clone();
        }
        let name = format!("v{}", self.vars.len());
        let val = src.chance(50);
        let default = if src.chance(30) { Some((if src.chance(50) { "true" } else { "false" }).to_string()) } else { None };
        if default.is_none() || src.chance(50) {
            self.values.insert(name.clone(), json!(val));
        }
        self.vars.push(VarDef { name: name.clone(), ty: "Boolean!".into(), default });
        name
    }

    pub fn json_value(&mut self, src: &mut Src, ty: &Type, depth: usize) -> Value {
        match ty {
            Type::NonNullNamed(n) => self.json_named(src, n.as_str(), depth),
            Type::NonNullList(t) => {
                let n = src.n(3);
                Value::Array((0..n).map(|_| self.json_value(src, t, depth + 1)).collect())
            }
            _ if src.chance(8) => Value::Null,
            Type::List(t) => {
                if src.chance(15) && t.is_named() {
                    // single value coerced to a list
                    let n = t.inner_named_type().to_string();
                    return self.json_named(src, &n, depth + 1);
                }
                let n = src.n(3);
                Value::Array((0..n).map(|_| self.json_value(src, t, depth + 1)).collect())
            }
            Type::Named(n) => self.json_named(src, n.as_str(), depth),
        }
    }
    fn json_named(&mut self, src: &mut Src, n: &str, depth: usize) -> Value {
        match n {
            "Int" => json!(*src.pick(&[0i64, 1, -1, 7, 2147483647, -2147483648])),
            "Float" => match src.n(4) {
                0 => json!(0.5),
                1 => json!(2),
                2 => json!(-1.25e10),
                _ => json!(-3.75),
            },
            "String" => json!(*src.pick(&["", "x", "a\"b", "\u{3b1}\n\\", "$v0", "{}", "\u{1F600}"])),
            "Boolean" => json!(src.chance(50)),
            "ID" => match src.n(3) {
                0 => json!("id-1"),
                1 => json!(42),
                _ => json!("4\"2"),
            },
            _ => match self.schema.types.get(n) {
                Some(ExtendedType::Enum(e)) => {
                    let vs: Vec<String> = e.values.keys().map(|k| k.to_string()).collect();
                    json!(src.pick(&vs))
                }
                Some(ExtendedType::InputObject(io)) => {
                    let io = io.clone();
                    let mut m = Map::new();
                    for (fname, fd) in &io.fields {
                        let required = fd.ty.is_non_null() && fd.default_value.is_none();
                        let nested = fd.ty.inner_named_type().as_str() == n;
                        if required || (src.chance(45) && !(nested && depth > 1)) {
                            let v = self.json_value(src, &fd.ty, depth + 1);
                            m.insert(fname.to_string(), v);
                        }
                    }
                    Value::Object(m)
                }
                _ => match src.n(5) {
                    0 => json!("blob"),
                    1 => json!({"k": [1, {"z": null}], "__typename": "q"}),
                    2 => json!([1, "two", false]),
                    3 => json!(12),
                    _ => json!(true),
                },
            },
        }
    }

    /// GraphQL literal of a JSON value of a given type
    pub fn literal(schema: &Schema, ty: &Type, v: &Value) -> String {
        let n = ty.inner_named_type().as_str();
        match v {
            Value::Null => "null".into(),
            Value::Bool(b) => b.to_string(),
            Value::Number(x) => x.to_string(),
            Value::String(s) => match schema.types.get(n) {
                Some(ExtendedType::Enum(_)) => s.clone(),
                _ => gql_string(s),
            },
            Value::Array(l) => {
                let inner = match ty {
                    Type::List(t) | Type::NonNullList(t) => (**t).clone(),
                    t => t.clone(),
                };
                format!("[{}]", l.iter().map(|x| Self::literal(schema, &inner, x)).collect::<Vec<_>>().join(", "))
            }
            Value::Object(o) => {
                let io = match schema.types.get(n) {
                    Some(ExtendedType::InputObject(io)) => Some(io.clone()),
                    _ => None,
                };
                let parts: Vec<String> = o
                    .iter()
                    .map(|(k, x)| {
                        let t = io.as_ref().and_then(|io| io.fields.get(k.as_str()).map(|f| (*f.ty).clone())).unwrap_or(ty.clone());
                        format!("{k}: {}", Self::literal(schema, &t, x))
                    })
                    .collect();
                format!("{{{}}}", parts.join(", "))
            }
        }
    }

    fn arg_text(&mut self, src: &mut Src, ty: &Type, has_default: bool) -> Option<String> {
        let required = ty.is_non_null() && !has_default;
        if !required && !src.chance(70) {
            return None;
        }
        if self.cfg.variables && src.chance(45) {
            let tys = ty.to_string();
            let have: Vec<String> = self
                .vars
                .iter()
                .filter(|v| v.ty == tys || v.ty == format!("{tys}!"))
                .map(|v| v.name.clone())
                .collect();
            if !have.is_empty() && src.chance(50) {
                return Some(format!("${}", src.pick(&have)));
            }
            let name = format!("v{}", self.vars.len());
            let tightened = !ty.is_non_null() && src.chance(15);
            let vt: Type = if tightened { ty.clone().non_null() } else { ty.clone() };
            let default = if src.chance(25) {
                let dv = self.json_value(src, &vt, 0);
                Some(Self::literal(self.schema, &vt, &dv))
            } else {
                None
            };
            let must = vt.is_non_null() && default.is_none();
            if must || src.chance(75) {
                let v = self.json_value(src, &vt, 0);
                self.values.insert(name.clone(), v);
            }
            self.vars.push(VarDef { name: name.clone(), ty: vt.to_string(), default });
            return Some(format!("${name}"));
        }
        let v = self.json_value(src, ty, 0);
        // a variable nested inside an input object
        if self.cfg.variables && src.chance(12) {
            if let (Value::Object(_), Some(ExtendedType::InputObject(io))) = (&v, self.schema.types.get(ty.inner_named_type().as_str())) {
                if let (true, Some(f)) = (ty.is_named(), io.fields.get("a")) {
                    let mut o = v.as_object().unwrap().clone();
                    o.remove("a");
                    let name = format!("v{}", self.vars.len());
                    if src.chance(70) {
                        self.values.insert(name.clone(), json!(src.n(50)));
                    }
                    self.vars.push(VarDef { name: name.clone(), ty: f.ty.to_string(), default: None });
                    let lit = Self::literal(self.schema, ty, &Value::Object(o));
                    let inner = lit[1..lit.len() - 1].to_string();
                    return Some(format!("{{a: ${name}{}{inner}}}", if inner.is_empty() { "" } else { ", " }));
                }
            }
        }
        Some(Self::literal(self.schema, ty, &v))
    }

    fn field(&mut self, src: &mut Src, parent: &str, depth: usize) -> Option<Sel> {
        let mut fs = self.fields(parent);
        if depth + 1 >= self.cfg.max_depth || self.budget <= 0 {
            fs.retain(|(_, t, _)| !self.is_composite(t.inner_named_type().as_str()));
        }
        self.budget -= 1;
        if fs.is_empty() || src.chance(9) {
            // __typename
            let alias = if src.chance(25) { Some(format!("tn{}", src.n(3))) } else { None };
            let dirs = self.dirs(src);
            return Some(self.keyed(src, alias, "__typename".into(), String::new(), "String!".into(), dirs, vec![]));
        }
        let (name, ty, args) = src.pick(&fs).clone();
        let mut at = vec![];
        if self.cfg.args {
            for a in &args {
                if let Some(t) = self.arg_text(src, &a.ty, a.default_value.is_some()) {
                    at.push(format!("{}: {}", a.name, t));
                }
            }
        }
        let at = if at.is_empty() { String::new() } else { format!("({})", at.join(", ")) };
        let mut alias = if src.chance(22) { Some(src.pick(ALIASES).to_string()) } else { None };
        if on("alias-shadows-field") && alias.is_some() {
            alias = Some(src.pick(&fs).0.clone());
        }
        let dirs = self.dirs(src);
        let inner = ty.inner_named_type().to_string();
        let sub = if self.is_composite(&inner) {
            self.under_cond += !dirs.is_empty() as usize;
            if self.under_cond > 0 && self.is_abstract(&inner) && !on("conditional-abstract-merge") {
                // known finding conditional-abstract-merge: the same abstract field selected with different conditions
                alias = Some(format!("k{}", self.next_alias));
                self.next_alias += 1;
            }
            let mut sub = self.set(src, &inner, depth + 1);
            self.under_cond -= !dirs.is_empty() as usize;
            if self.nothing_left(&sub, &self.possible(&inner)) && !on("static-empty") {
                // known finding static-empty
                sub.push(Sel::Field { alias: None, name: "__typename".into(), args: String::new(), dirs: String::new(), sub: vec![] });
            }
            sub
        } else {
            vec![]
        };
        Some(self.keyed(src, alias, name, at, ty.to_string(), dirs, sub))
    }

    fn keyed(&mut self, _src: &mut Src, alias: Option<String>, name: String, args: String, ty: String, dirs: String, sub: Vec<Sel>) -> Sel {
        let key = alias.clone().unwrap_or_else(|| name.clone());
        let sig = format!("{name}{args}:{ty}");
        let mut alias = alias;
        if !self.liberal {
            match self.keys.get(&key) {
                Some(s) if *s != sig => {
                    let k = format!("u{}", self.next_alias);
                    self.next_alias += 1;
                    alias = Some(k);
                }
                _ => {
                    self.keys.insert(key, sig);
                }
            }
        } else {
            // one field always has the same arguments under one response key
            let k = format!("{key}|{name}");
            match self.keys.get(&k) {
                Some(a) if *a != args => {
                    alias = Some(format!("u{}", self.next_alias));
                    self.next_alias += 1;
                }
                _ => {
                    self.keys.insert(k, args.clone());
                }
            }
        }
        if alias.as_deref() == Some(name.as_str()) {
            alias = None;
        }
        Sel::Field { alias, name, args, dirs, sub }
    }

    pub fn set(&mut self, src: &mut Src, parent: &str, depth: usize) -> Vec<Sel> {
        let n = src.range(1, if depth == 0 { self.cfg.max_roots } else { 4 });
        let mut out = vec![];
        // a fragment with a condition on an abstract type holds fields only (known finding conditional-abstract-merge)
        let flat = std::mem::take(&mut self.flat_next) && !on("conditional-abstract-merge");
        let is_abstract = !matches!(self.schema.types.get(parent), Some(ExtendedType::Object(_)));
        for _ in 0..n {
            if self.budget <= 0 && !out.is_empty() {
                break;
            }
            let w = if flat || (parent.starts_with('N') && !on("interface-object")) {
                // known finding interface-object-fragments: only fields are selected there
                [1, 0, 0]
            } else if is_abstract {
                [50, 38, 12]
            } else { [84, 8, 8] };
            match src.weighted(&w) {
                1 if self.cfg.fragments && depth < self.cfg.max_depth + 1 => {
                    let conds = self.conds(parent);
                    let on = if conds.is_empty() || (!is_abstract && src.chance(40)) { None } else { Some(src.pick(&conds).clone()) };
                    let t = on.clone().unwrap_or(parent.to_string());
                    let dirs = self.frag_dirs(src, parent, depth);
                    self.flat_next = is_abstract && !dirs.is_empty();
                    self.budget -= 1;
                    self.under_cond += !dirs.is_empty() as usize;
                    let sub = self.set(src, &t, depth + 1);
                    self.under_cond -= !dirs.is_empty() as usize;
                    out.push(Sel::Inline { on, dirs, sub });
                }
                2 if self.cfg.fragments && depth < self.cfg.max_depth && !self.conds(parent).is_empty() => {
                    let conds = self.conds(parent);
                    let dirs = self.frag_dirs(src, parent, depth);
                    let cond = self.under_cond > 0 || !dirs.is_empty();
                    let reuse: Vec<String> = self
                        .frags
                        .iter()
                        .filter(|(n, t, _)| conds.contains(t) && (!cond || self.cond_frags.contains(n)))
                        .map(|(n, _, _)| n.clone())
                        .collect();
                    if !reuse.is_empty() && src.chance(60) {
                        out.push(Sel::Spread { name: src.pick(&reuse).clone(), dirs });
                        self.budget -= 3;
                    } else if !conds.is_empty() {
                        let t = src.pick(&conds).clone();
                        self.budget -= 1;
                        self.flat_next = cond;
                        self.under_cond += cond as usize;
                        let sub = self.set(src, &t, depth + 1);
                        self.under_cond -= cond as usize;
                        let name = format!("F{}", self.frags.len());
                        if cond {
                            self.cond_frags.push(name.clone());
                        }
                        self.frags.push((name.clone(), t, sub));
                        out.push(Sel::Spread { name, dirs });
                    }
                }
                _ => {
                    if let Some(f) = self.field(src, parent, depth) {
                        out.push(f);
                    }
                }
            }
        }
        if out.is_empty() {
            out.push(Sel::Field { alias: None, name: "__typename".into(), args: String::new(), dirs: String::new(), sub: vec![] });
        }
        out
    }
}

pub fn gql_string(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn print_sels(s: &[Sel], o: &mut String) {
    o.push_str("{ ");
    for x in s {
        match x {
            Sel::Field { alias, name, args, dirs, sub } => {
                if let Some(a) = alias {
                    o.push_str(a);
                    o.push_str(": ");
                }
                o.push_str(name);
                o.push_str(args);
                o.push_str(dirs);
                o.push(' ');
                if !sub.is_empty() {
                    print_sels(sub, o);
                    o.push(' ');
                }
            }
            Sel::Inline { on, dirs, sub } => {
                o.push_str("...");
                if let Some(t) = on {
                    o.push_str(" on ");
                    o.push_str(t);
                }
                o.push_str(dirs);
                o.push(' ');
                print_sels(sub, o);
                o.push(' ');
            }
            Sel::Spread { name, dirs } => {
                o.push_str("...");
                o.push_str(name);
                o.push_str(dirs);
                o.push(' ');
            }
        }
    }
    o.push('}');
}

impl Op {
    pub fn render(&mut self) {
        let mut o = String::new();
        o.push_str(self.kind);
        if let Some(n) = &self.name {
            o.push(' ');
            o.push_str(n);
        }
        if !self.vars.is_empty() {
            let v: Vec<String> =
                self.vars.iter().map(|v| format!("${}: {}{}", v.name, v.ty, v.default.as_ref().map(|d| format!(" = {d}")).unwrap_or_default())).collect();
            o.push_str(&format!("({})", v.join(", ")));
        }
        o.push(' ');
        print_sels(&self.roots, &mut o);
        for (n, t, s) in &self.frags {
            o.push_str(&format!(" fragment {n} on {t} "));
            print_sels(s, &mut o);
        }
        self.text = o;
    }
    /// drops fragments and variables the root selections do not use, then renders
    pub fn render_minimal(&mut self) {
        fn text(s: &[Sel], all: &[(String, String, Vec<Sel>)], used: &mut Vec<String>, out: &mut String) {
            print_sels(s, out);
            fn spreads(s: &[Sel], o: &mut Vec<String>) {
                for x in s {
                    match x {
                        Sel::Field { sub, .. } | Sel::Inline { sub, .. } => spreads(sub, o),
                        Sel::Spread { name, .. } => o.push(name.clone()),
                    }
                }
            }
            let mut l = vec![];
            spreads(s, &mut l);
            for n in l {
                if !used.contains(&n) {
                    used.push(n.clone());
                    if let Some((_, _, f)) = all.iter().find(|(m, _, _)| *m == n) {
                        text(f, all, used, out);
                    }
                }
            }
        }
        let (mut used, mut t) = (vec![], String::new());
        text(&self.roots, &self.frags, &mut used, &mut t);
        self.frags.retain(|(n, _, _)| used.contains(n));
        let toks: std::collections::HashSet<&str> = t.split(|c: char| !c.is_alphanumeric() && c != '_' && c != '$').collect();
        self.vars.retain(|v| toks.contains(format!("${}", v.name).as_str()));
        if let Value::Object(o) = &mut self.variables {
            o.retain(|k, _| self.vars.iter().any(|v| v.name == *k));
        }
        self.render();
    }
    pub fn body(&self) -> Value {
        let mut b = json!({"query": self.text});
        if !self.vars.is_empty() {
            b["variables"] = self.variables.clone();
        }
        if let Some(n) = &self.name {
            b["operationName"] = json!(n);
        }
        b
    }
}

fn uniq(s: &mut [Sel], n: &mut usize) {
    for x in s {
        match x {
            Sel::Field { alias, sub, .. } => {
                *alias = Some(format!("u{n}"));
                *n += 1;
                uniq(sub, n);
            }
            Sel::Inline { sub, .. } => uniq(sub, n),
            Sel::Spread { .. } => {}
        }
    }
}

/// nothing is left of the selection once literal @skip/@include are applied
pub fn statically_empty(s: &[Sel], frags: &[(String, String, Vec<Sel>)]) -> bool {
    let gone = |d: &str| d.contains("@skip(if: true)") || d.contains("@include(if: false)");
    s.iter().all(|x| match x {
        Sel::Field { dirs, .. } => gone(dirs),
        Sel::Inline { dirs, sub, .. } => gone(dirs) || statically_empty(sub, frags),
        Sel::Spread { name, dirs } => gone(dirs) || frags.iter().find(|(n, _, _)| n == name).is_none_or(|(_, _, f)| statically_empty(f, frags)),
    })
}

/// a valid operation
pub fn gen_op(src: &mut Src, schema: &Valid<Schema>, cfg: &OpCfg) -> Op {
    let mut g = Gen::new(schema, cfg.clone());
    g.liberal = src.chance(35);
    let root = match cfg.kind {
        "mutation" => "Mutation",
        "subscription" => "Subscription",
        _ => "Query",
    };
    let mut roots = g.set(src, root, 0);
    if statically_empty(&roots, &g.frags) && !on("static-empty") {
        // known finding C01/static-empty: excluded here, pinned as a case of its own
        roots.push(Sel::Field { alias: None, name: "__typename".into(), args: String::new(), dirs: String::new(), sub: vec![] });
    }
    let mut op = Op {
        text: String::new(),
        variables: Value::Object(g.values.clone()),
        name: if src.chance(50) { Some(format!("Op{}", src.n(5))) } else { None },
        roots,
        frags: g.frags.clone(),
        vars: g.vars.clone(),
        kind: cfg.kind,
    };
    op.render();
    if op.text.is_empty() || ExecutableDocument::parse_and_validate(schema, &op.text, "q.graphql").is_err() {
        let mut n = 0;
        uniq(&mut op.roots, &mut n);
        for (_, _, s) in &mut op.frags {
            uniq(s, &mut n);
        }
        op.render();
    }
    op
}

/// an operation about the schema itself, possibly next to ordinary fields
pub fn gen_meta(src: &mut Src, schema: &Valid<Schema>, cfg: &OpCfg) -> Op {
    let mut g = Gen::new(schema, cfg.clone());
    let types: Vec<String> = schema.types.keys().map(|k| k.to_string()).filter(|k| !k.starts_with("__")).chain(["Nope".to_string(), "".into()]).collect();
    let mut roots = vec![];
    for i in 0..src.range(1, 3) {
        if src.chance(30) && i > 0 {
            roots.extend(g.set(src, "Query", 0));
            continue;
        }
        let (name, args, ty) = if src.chance(50) {
            ("__schema", String::new(), "__Schema")
        } else {
            let t = src.pick(&types).clone();
            let a = if cfg.variables && src.chance(40) {
                let n = format!("v{}", g.vars.len());
                g.values.insert(n.clone(), json!(t));
                g.vars.push(VarDef { name: n.clone(), ty: "String!".into(), default: None });
                format!("(name: ${n})")
            } else {
                format!("(name: {})", gql_string(&t))
            };
            ("__type", a, "__Type")
        };
        let dirs = g.dirs(src);
        let sub = g.set(src, ty, 1);
        g.budget += 20;
        roots.push(Sel::Field { alias: Some(format!("m{i}")).filter(|_| src.chance(60) || i > 0), name: name.into(), args, dirs, sub });
    }
    if statically_empty(&roots, &g.frags) && !on("static-empty") {
        roots.push(Sel::Field { alias: None, name: "__typename".into(), args: String::new(), dirs: String::new(), sub: vec![] });
    }
    let mut frags = g.frags.clone();
    for l in frags.iter_mut().map(|f| &mut f.2).chain([&mut roots]) {
        label_types(l);
    }
    let mut op = Op { text: String::new(), variables: Value::Object(g.values.clone()), name: None, roots, frags, vars: g.vars.clone(), kind: "query" };
    op.render();
    op
}

/// members of a `types` list carry their name as `kname`; no `directives`
fn label_types(l: &mut Vec<Sel>) {
    let typename = || Sel::Field { alias: None, name: "__typename".into(), args: String::new(), dirs: String::new(), sub: vec![] };
    l.retain(|x| !matches!(x, Sel::Field { name, .. } if name == "directives"));
    if l.is_empty() {
        l.push(typename());
    }
    for x in l {
        match x {
            Sel::Field { sub, name, .. } => {
                if !sub.is_empty() {
                    label_types(sub);
                }
                if name == "types" {
                    sub.insert(0, Sel::Field { alias: Some("kname".into()), name: "name".into(), args: String::new(), dirs: String::new(), sub: vec![] });
                }
            }
            Sel::Inline { sub, .. } => label_types(sub),
            Sel::Spread { .. } => {}
        }
    }
}
