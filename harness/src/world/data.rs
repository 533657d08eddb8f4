//! Ground truth: the value of every field of every instance is a pure function of the world seed.
use super::model::*;
use crate::tape::{hash_str, mix, Rng};
use serde_json::{json, Map, Value};

#[derive(Clone, Debug, PartialEq)]
pub enum Ident {
    /// entity index in its namespace
    Ent(u64),
    /// value object
    Hash(u64),
    /// the `ref` object of entity (namespace, index)
    KeyRef(String, u64),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Inst {
    /// concrete type
    pub ty: String,
    pub id: Ident,
}

#[derive(Clone, Debug)]
pub enum Val {
    Null,
    Leaf(Value),
    List(Vec<Val>),
    Obj(Inst),
}

const STRS: &[&str] = &["alpha", "beta \"q\"", "\u{3b3}amma", "d\\e\n\t", "", "\u{1F600} smile", "null", "{\"a\":1}", "zzz", "</x>&", "\u{0}\u{1f}", "ünï\u{2028}"];

impl World {
    pub fn ns(&self, ty: &str) -> String {
        self.types.get(ty).map(|t| t.ns.clone()).unwrap_or_else(|| ty.to_string())
    }
    /// concrete type of entity `i` of namespace `ns`
    pub fn class_of(&self, ns: &str, i: u64) -> String {
        match self.classes.get(ns) {
            Some(c) if !c.is_empty() => c[(i % c.len() as u64) as usize].clone(),
            _ => ns.to_string(),
        }
    }
    /// entity of type `ty` chosen by `h`
    pub fn pick_entity(&self, ty: &str, h: u64) -> Inst {
        let ns = self.ns(ty);
        match self.classes.get(&ns) {
            Some(c) => {
                let n = c.len() as u64;
                let at = c.iter().position(|x| x == ty).unwrap_or(0) as u64;
                let rounds = (self.pop / n).max(1);
                Inst { ty: ty.to_string(), id: Ident::Ent(at + n * (h % rounds)) }
            }
            None => Inst { ty: ty.to_string(), id: Ident::Ent(h % self.pop) },
        }
    }
    pub fn key_value(&self, ns: &str, enc: KeyEnc, i: u64) -> Value {
        match enc {
            KeyEnc::Id => json!(format!("{ns}-{i}")),
            KeyEnc::Sku => json!(100 + i),
            KeyEnc::Part => json!(format!("p\"{}", i / 2)),
            KeyEnc::Ver => json!(i % 2),
            KeyEnc::Code => json!(format!("{ns}.c{i}")),
            KeyEnc::Ref => Value::Null,
        }
    }
    /// finds the field definition a concrete object has in the supergraph, and its home (for hashing)
    pub fn find_field(&self, ty: &str, f: &str) -> Option<(&FieldDef, String)> {
        let t = self.types.get(ty)?;
        if let Some(fd) = t.field(f) {
            return Some((fd, ty.to_string()));
        }
        let it = self.types.get(&t.ns)?;
        if !it.iface_object.is_empty() {
            if let Some(fd) = it.field(f) {
                return Some((fd, it.name.clone()));
            }
        }
        None
    }

    fn requires_of<'a>(&'a self, fd: &'a FieldDef) -> Option<&'a str> {
        fd.at.values().find_map(|a| a.requires.as_deref())
    }

    /// values of a key/requires selection from the truth
    pub fn extract(&self, inst: &Inst, sel: &[FSel]) -> Value {
        let mut m = Map::new();
        for s in sel {
            if let Some(on) = &s.on {
                if on == &inst.ty || self.types.get(&inst.ty).is_some_and(|t| t.implements.contains_key(on)) {
                    if let Value::Object(x) = self.extract(inst, &s.sub) {
                        m.extend(x);
                    }
                }
                continue;
            }
            if s.name == "__typename" {
                continue;
            }
            let v = self.truth(inst, &s.name, &Value::Object(Map::new()), None);
            m.insert(s.name.clone(), self.extract_val(&v, &s.sub));
        }
        Value::Object(m)
    }
    fn extract_val(&self, v: &Val, sub: &[FSel]) -> Value {
        match v {
            Val::Null => Value::Null,
            Val::Leaf(x) => x.clone(),
            Val::List(l) => Value::Array(l.iter().map(|x| self.extract_val(x, sub)).collect()),
            Val::Obj(i) => self.extract(i, sub),
        }
    }

    /// `given`: values for the field's @requires, when they come from outside (a representation)
    pub fn truth(&self, inst: &Inst, field: &str, args: &Value, given: Option<&Value>) -> Val {
        let (fd, home) = match self.find_field(&inst.ty, field) {
            Some(x) => x,
            None => panic!("HARNESS no field {field} on {}", inst.ty),
        };
        if let Some(enc) = fd.key {
            let (ns, i) = match &inst.id {
                Ident::Ent(i) => (self.ns(&inst.ty), *i),
                Ident::KeyRef(ns, i) => (ns.clone(), *i),
                Ident::Hash(_) => panic!("HARNESS key on value"),
            };
            if enc == KeyEnc::Ref {
                return Val::Obj(Inst { ty: fd.ty.name().to_string(), id: Ident::KeyRef(ns, i) });
            }
            return Val::Leaf(self.key_value(&ns, enc, i));
        }
        let mut h = mix(self.seed, hash_str(&home));
        h = mix(
            h,
            match &inst.id {
                Ident::Ent(i) => mix(11, *i),
                Ident::Hash(x) => *x,
                Ident::KeyRef(n, i) => mix(hash_str(n), *i),
            },
        );
        h = mix(h, hash_str(field));
        h = mix(h, hash_str(&args.to_string()));
        if let Some(r) = self.requires_of(fd) {
            let rv = match given {
                Some(v) => v.clone(),
                None => self.extract(inst, &parse_fsel(r)),
            };
            h = mix(h, hash_str(&rv.to_string()));
        }
        self.gen(&fd.ty, &fd.cands, h, true)
    }

    fn gen(&self, ty: &Ty, cands: &[String], h: u64, nullable: bool) -> Val {
        let mut r = Rng::new(h);
        match ty {
            Ty::NonNull(t) => self.gen(t, cands, h, false),
            _ if nullable && r.next() % 100 < self.null_pct => Val::Null,
            Ty::List(t) => {
                let n = Rng::new(mix(h, 3)).next() % (self.max_list + 1);
                Val::List((0..n).map(|i| self.gen(t, cands, mix(h, 100 + i), true)).collect())
            }
            Ty::Named(n) => self.gen_named(n, cands, mix(h, 5)),
        }
    }

    fn gen_named(&self, n: &str, cands: &[String], h: u64) -> Val {
        let leaf = |v: Value| Val::Leaf(v);
        match n {
            "Int" => leaf(match h % 16 {
                0 => json!(i32::MAX),
                1 => json!(i32::MIN),
                2 => json!(0),
                _ => json!((h >> 8) as i64 % 1000),
            }),
            "Float" => leaf(json!(((h >> 8) % 2000) as f64 - 1000.0 + 0.25)),
            "String" => leaf(json!(format!("{}{}", STRS[(h % STRS.len() as u64) as usize], (h >> 20) % 50))),
            "Boolean" => leaf(json!(h & 1 == 1)),
            "ID" => leaf(json!(format!("x{}", (h >> 8) % 1000))),
            _ => {
                let t = self.types.get(n).unwrap_or_else(|| panic!("HARNESS type {n}"));
                match &t.kind {
                    Kind::Enum(vs) => {
                        let ok: Vec<&String> = vs.iter().filter(|(_, d)| d.is_empty()).map(|(v, _)| v).collect();
                        leaf(json!(ok[(h % ok.len() as u64) as usize]))
                    }
                    Kind::Scalar => leaf(match h % 7 {
                        0 => json!({"a": (h >> 8) % 9, "__typename": "Nope", "b": [1, null, "x\u{7f}"]}),
                        1 => json!([1, [2.5], {"z": {}}]),
                        2 => json!("plain"),
                        3 => json!((h >> 8) % 100000),
                        4 => json!(true),
                        5 => json!({}),
                        _ => json!(-0.125),
                    }),
                    Kind::Object => {
                        if t.is_entity() {
                            Val::Obj(self.pick_entity(n, h))
                        } else {
                            Val::Obj(Inst { ty: n.to_string(), id: Ident::Hash(h) })
                        }
                    }
                    Kind::Interface | Kind::Union => {
                        if cands.is_empty() {
                            return Val::Null;
                        }
                        let c = &cands[(h % cands.len() as u64) as usize];
                        self.gen_named(c, &[], mix(h, 9))
                    }
                    Kind::Input => panic!("HARNESS input as output"),
                }
            }
        }
    }

    /// entity index encoded by key values, when they are well formed and consistent
    pub fn decode(&self, ty: &str, key: &str, rep: &Value) -> Option<u64> {
        let sels = parse_fsel(key);
        let ns = self.ns(ty);
        for i in 0..self.pop.max(16) {
            let c = self.class_of(&ns, i);
            if ty != ns && c != ty {
                continue;
            }
            let inst = Inst { ty: c, id: Ident::Ent(i) };
            let want = self.extract(&inst, &sels);
            if covers(&want, rep) {
                return Some(i);
            }
        }
        None
    }
}

/// every field of `want` is in `have` with the same value
pub fn covers(want: &Value, have: &Value) -> bool {
    match (want, have) {
        (Value::Object(w), Value::Object(h)) => w.iter().all(|(k, v)| h.get(k).is_some_and(|x| covers(v, x))),
        (Value::Array(w), Value::Array(h)) => w.len() == h.len() && w.iter().zip(h).all(|(a, b)| covers(a, b)),
        (a, b) => a == b,
    }
}

/// the part of `v` a selection names
pub fn project(w: &World, v: &Value, sel: &[FSel]) -> Option<Value> {
    match v {
        Value::Array(l) => l.iter().map(|x| project(w, x, sel)).collect::<Option<Vec<_>>>().map(Value::Array),
        Value::Object(o) if !sel.is_empty() => {
            let mut m = Map::new();
            for s in sel {
                if let Some(on) = &s.on {
                    let tn = o.get("__typename").and_then(|x| x.as_str())?;
                    if tn == on || w.types.get(tn).is_some_and(|t| t.implements.contains_key(on)) {
                        if let Some(Value::Object(x)) = project(w, v, &s.sub) {
                            m.extend(x);
                        } else {
                            return None;
                        }
                    }
                    continue;
                }
                if s.name == "__typename" {
                    continue;
                }
                m.insert(s.name.clone(), project(w, o.get(&s.name)?, &s.sub)?);
            }
            Some(Value::Object(m))
        }
        x => Some(x.clone()),
    }
}
