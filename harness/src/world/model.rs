//! A federated world: which subgraph declares what.  Rendered to one SDL per subgraph.
use std::collections::{BTreeMap, BTreeSet};
use std::fmt;

#[derive(Clone, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub enum Ty {
    Named(String),
    List(Box<Ty>),
    NonNull(Box<Ty>),
}
impl Ty {
    pub fn parse(s: &str) -> Ty {
        let s = s.trim();
        if let Some(i) = s.strip_suffix('!') {
            return Ty::NonNull(Box::new(Ty::parse(i)));
        }
        if let Some(i) = s.strip_prefix('[') {
            return Ty::List(Box::new(Ty::parse(i.strip_suffix(']').expect("HARNESS type"))));
        }
        Ty::Named(s.to_string())
    }
    pub fn name(&self) -> &str {
        match self {
            Ty::Named(n) => n,
            Ty::List(t) | Ty::NonNull(t) => t.name(),
        }
    }
}
impl fmt::Display for Ty {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Ty::Named(n) => f.write_str(n),
            Ty::List(t) => write!(f, "[{t}]"),
            Ty::NonNull(t) => write!(f, "{t}!"),
        }
    }
}

/// selection used by @key / @requires / @provides
#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct FSel {
    pub name: String,
    /// inline fragment when set (name is then empty)
    pub on: Option<String>,
    pub sub: Vec<FSel>,
}
pub fn parse_fsel(s: &str) -> Vec<FSel> {
    let spaced = s.replace('{', " { ").replace('}', " } ");
    let toks: Vec<&str> = spaced.split_whitespace().collect();
    fn go(t: &[&str], i: &mut usize) -> Vec<FSel> {
        let mut out: Vec<FSel> = vec![];
        while *i < t.len() {
            match t[*i] {
                "}" => {
                    *i += 1;
                    return out;
                }
                "{" => {
                    *i += 1;
                    let sub = go(t, i);
                    out.last_mut().expect("HARNESS fsel").sub = sub;
                }
                "..." => {
                    let ty = t[*i + 2].to_string();
                    *i += 3;
                    out.push(FSel { name: String::new(), on: Some(ty), sub: vec![] });
                }
                n => {
                    out.push(FSel { name: n.to_string(), on: None, sub: vec![] });
                    *i += 1;
                }
            }
        }
        out
    }
    go(&toks, &mut 0)
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct ArgDef {
    pub name: String,
    pub ty: Ty,
    pub default: Option<String>,
    pub dirs: String,
}

#[derive(Clone, Debug, Default, serde::Serialize, serde::Deserialize)]
pub struct FieldAt {
    pub external: bool,
    pub requires: Option<String>,
    pub provides: Option<String>,
    /// (from, label)
    pub over: Option<(usize, Option<String>)>,
    /// further directives in this subgraph only
    pub dirs: String,
}

/// how a key field's value is computed from the entity's index
#[derive(Clone, Copy, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum KeyEnc {
    Id,
    Sku,
    Part,
    Ver,
    /// object holding Code
    Ref,
    Code,
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct FieldDef {
    pub name: String,
    pub ty: Ty,
    pub args: Vec<ArgDef>,
    pub at: BTreeMap<usize, FieldAt>,
    pub key: Option<KeyEnc>,
    /// concrete types a value of abstract type may have (computed)
    pub cands: Vec<String>,
    pub dirs: String,
}

#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum Kind {
    Object,
    Interface,
    Union,
    Enum(Vec<(String, String)>),
    Input,
    Scalar,
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct KeyDef {
    pub sel: String,
    pub resolvable: bool,
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct TypeDef {
    pub name: String,
    pub kind: Kind,
    pub subs: BTreeSet<usize>,
    pub keys: BTreeMap<usize, Vec<KeyDef>>,
    pub fields: Vec<FieldDef>,
    pub inputs: Vec<ArgDef>,
    /// interface name -> subgraphs where implemented
    pub implements: BTreeMap<String, BTreeSet<usize>>,
    /// union: members per subgraph
    pub members: BTreeMap<usize, Vec<String>>,
    /// subgraphs where this interface is an @interfaceObject type
    pub iface_object: BTreeSet<usize>,
    /// entity namespace (entity interface shared by implementers, or the type itself)
    pub ns: String,
    pub dirs: String,
}
impl TypeDef {
    pub fn new(name: &str, kind: Kind) -> TypeDef {
        TypeDef {
            name: name.into(),
            kind,
            subs: BTreeSet::new(),
            keys: BTreeMap::new(),
            fields: vec![],
            inputs: vec![],
            implements: BTreeMap::new(),
            members: BTreeMap::new(),
            iface_object: BTreeSet::new(),
            ns: name.into(),
            dirs: String::new(),
        }
    }
    pub fn field(&self, n: &str) -> Option<&FieldDef> {
        self.fields.iter().find(|f| f.name == n)
    }
    pub fn field_mut(&mut self, n: &str) -> Option<&mut FieldDef> {
        self.fields.iter_mut().find(|f| f.name == n)
    }
    pub fn is_entity(&self) -> bool {
        self.keys.values().any(|k| !k.is_empty())
    }
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct World {
    pub seed: u64,
    pub nsub: usize,
    pub types: BTreeMap<String, TypeDef>,
    /// entities per namespace
    pub pop: u64,
    /// for namespace of an entity interface: its implementers
    pub classes: BTreeMap<String, Vec<String>>,
    /// percentage of nulls in nullable positions
    pub null_pct: u64,
    pub max_list: u64,
}

pub fn sub_name(i: usize) -> String {
    format!("s{i}")
}

pub fn field(name: &str, ty: &str) -> FieldDef {
    FieldDef { name: name.into(), ty: Ty::parse(ty), args: vec![], at: BTreeMap::new(), key: None, cands: vec![], dirs: String::new() }
}
pub fn arg(name: &str, ty: &str, default: Option<&str>) -> ArgDef {
    ArgDef { name: name.into(), ty: Ty::parse(ty), default: default.map(|s| s.into()), dirs: String::new() }
}

impl World {
    /// does subgraph `s` resolve the field (ignoring @provides)?
    pub fn resolvable_at(f: &FieldDef, s: usize) -> bool {
        match f.at.get(&s) {
            None => false,
            Some(a) if a.external => false,
            Some(_) => !f.at.values().any(|a| matches!(&a.over, Some((from, None)) if *from == s)),
        }
    }

    pub fn sub_possible(&self, ty: &str, s: usize) -> Vec<String> {
        let Some(t) = self.types.get(ty) else { return vec![] };
        match t.kind {
            Kind::Object => vec![ty.to_string()],
            Kind::Interface => {
                if t.iface_object.contains(&s) {
                    return self.classes.get(ty).cloned().unwrap_or_default();
                }
                self.types
                    .values()
                    .filter(|o| o.kind == Kind::Object && o.subs.contains(&s) && o.implements.get(ty).is_some_and(|x| x.contains(&s)))
                    .map(|o| o.name.clone())
                    .collect()
            }
            Kind::Union => t.members.get(&s).cloned().unwrap_or_default(),
            _ => vec![],
        }
    }

    /// fills `cands`; false when some field of abstract type can have no value
    pub fn compute_cands(&mut self) -> bool {
        let snapshot = self.clone();
        let mut ok = true;
        for t in self.types.values_mut() {
            for f in &mut t.fields {
                let n = f.ty.name();
                let Some(rt) = snapshot.types.get(n) else { continue };
                if !matches!(rt.kind, Kind::Interface | Kind::Union) {
                    continue;
                }
                let mut acc: Option<Vec<String>> = None;
                for s in f.at.keys() {
                    if t.kind == Kind::Interface && !t.iface_object.contains(s) {
                        continue;
                    }
                    let p = snapshot.sub_possible(n, *s);
                    acc = Some(match acc {
                        None => p,
                        Some(a) => a.into_iter().filter(|x| p.contains(x)).collect(),
                    });
                }
                f.cands = acc.unwrap_or_default();
                if f.cands.is_empty() && t.kind == Kind::Object {
                    ok = false;
                }
            }
        }
        ok
    }

    /// subgraphs which can be asked for more of an entity of type `t` found in subgraph `a`
    pub fn reach(&self, t: &TypeDef, a: usize) -> BTreeSet<usize> {
        let mut seen = BTreeSet::from([a]);
        loop {
            let have: BTreeSet<&str> = t.fields.iter().filter(|f| f.at.iter().any(|(s, x)| seen.contains(s) && !x.external)).map(|f| f.name.as_str()).collect();
            let next = t.subs.iter().find(|b| {
                !seen.contains(b)
                    && t.keys.get(b).is_some_and(|ks| ks.iter().any(|k| k.resolvable && parse_fsel(&k.sel).iter().all(|x| have.contains(x.name.as_str()))))
            });
            match next {
                Some(b) => seen.insert(*b),
                None => return seen,
            };
        }
    }
    /// known finding split-shared-field: a shared field where some entity, found through one subgraph, cannot be
    /// completed by the others
    pub fn split_shared_field(&self) -> bool {
        self.types.values().flat_map(|t| t.fields.iter()).filter(|f| f.at.values().filter(|a| !a.external).count() >= 2).any(|f| {
            let n = f.ty.name();
            f.at.iter().filter(|(_, a)| !a.external).any(|(s, _)| {
                let here: Vec<String> = self.sub_possible(n, *s);
                here.iter().filter_map(|x| self.types.get(x)).any(|x| x.is_entity() && x.subs.contains(s) && self.reach(x, *s).len() != x.subs.len())
            })
        })
    }

    /// known finding requires-type-conflict: two entity types need an input of the same name but of different types
    pub fn requires_type_conflict(&self) -> bool {
        let mut seen: BTreeMap<&str, &Ty> = BTreeMap::new();
        for t in self.types.values().filter(|t| t.is_entity()) {
            for r in t.fields.iter().flat_map(|f| f.at.values()).filter_map(|a| a.requires.as_ref()) {
                for n in r.split(|c: char| !c.is_alphanumeric() && c != '_') {
                    if let Some(f) = t.fields.iter().find(|f| f.name == n) {
                        if *seen.entry(&f.name).or_insert(&f.ty) != &f.ty {
                            return true;
                        }
                    }
                }
            }
        }
        false
    }

    /// known finding runtime-type-intersection: a shared field of abstract type whose subgraphs disagree on the
    /// possible types, where a type which can never be there is not reachable with all of its fields
    pub fn odd_runtime_types(&self) -> bool {
        for t in self.types.values() {
            for f in &t.fields {
                let n = f.ty.name();
                if f.at.len() < 2 || !self.types.get(n).is_some_and(|r| matches!(r.kind, Kind::Interface | Kind::Union)) {
                    continue;
                }
                let ps: Vec<Vec<String>> = f.at.keys().map(|s| self.sub_possible(n, *s)).collect();
                for x in ps.iter().flatten() {
                    if ps.iter().all(|p| p.contains(x)) {
                        continue;
                    }
                    let xt = &self.types[x];
                    if xt.keys.is_empty() {
                        continue;
                    }
                    let sets: Vec<BTreeSet<&String>> =
                        xt.subs.iter().map(|s| xt.keys.get(s).map(|k| k.iter().map(|k| &k.sel).collect()).unwrap_or_default()).collect();
                    if !sets[0].iter().any(|k| sets.iter().all(|s| s.contains(k))) {
                        return true;
                    }
                }
            }
        }
        false
    }

    pub fn sdl(&self, s: usize) -> String {
        let mut o = String::new();
        o.push_str("extend schema @link(url: \"https://specs.apollo.dev/federation/v2.9\", import: [\"@key\", \"@shareable\", \"@external\", \"@requires\", \"@provides\", \"@override\", \"@inaccessible\", \"@interfaceObject\", \"@authenticated\", \"@requiresScopes\", \"@policy\", \"@cost\", \"@listSize\", \"@tag\"])\n\n");
        for t in self.types.values() {
            if !t.subs.contains(&s) {
                continue;
            }
            o.push_str(&self.sdl_type(t, s, true));
        }
        o
    }

    fn sdl_args(args: &[ArgDef], fed: bool) -> String {
        if args.is_empty() {
            return String::new();
        }
        let v: Vec<String> = args
            .iter()
            .map(|a| {
                format!(
                    "{}: {}{}{}",
                    a.name,
                    a.ty,
                    a.default.as_ref().map(|d| format!(" = {d}")).unwrap_or_default(),
                    if fed && !a.dirs.is_empty() { format!(" {}", a.dirs) } else { String::new() }
                )
            })
            .collect();
        format!("({})", v.join(", "))
    }

    pub fn sdl_type(&self, t: &TypeDef, s: usize, fed: bool) -> String {
        let mut o = String::new();
        let d = if fed && !t.dirs.is_empty() { format!(" {}", t.dirs) } else { String::new() };
        match &t.kind {
            Kind::Scalar => o.push_str(&format!("scalar {}{d}\n", t.name)),
            Kind::Enum(vs) => {
                o.push_str(&format!("enum {}{d} {{\n", t.name));
                for (v, vd) in vs {
                    o.push_str(&format!("  {v}{}\n", if fed && !vd.is_empty() { format!(" {vd}") } else { String::new() }));
                }
                o.push_str("}\n");
            }
            Kind::Input => {
                o.push_str(&format!("input {}{d} {{\n", t.name));
                for a in &t.inputs {
                    let x = Self::sdl_args(std::slice::from_ref(a), fed);
                    o.push_str(&format!("  {}\n", &x[1..x.len() - 1]));
                }
                o.push_str("}\n");
            }
            Kind::Union => {
                let m = t.members.get(&s).cloned().unwrap_or_default();
                if !m.is_empty() {
                    o.push_str(&format!("union {}{d} = {}\n", t.name, m.join(" | ")));
                }
            }
            Kind::Object | Kind::Interface => {
                let io = t.iface_object.contains(&s);
                let kw = if t.kind == Kind::Interface && !io { "interface" } else { "type" };
                let imp: Vec<&str> = t.implements.iter().filter(|(_, ss)| ss.contains(&s)).map(|(n, _)| n.as_str()).collect();
                o.push_str(&format!("{kw} {}", t.name));
                if !imp.is_empty() {
                    o.push_str(&format!(" implements {}", imp.join(" & ")));
                }
                if fed {
                    for k in t.keys.get(&s).into_iter().flatten() {
                        o.push_str(&format!(" @key(fields: \"{}\"{})", k.sel, if k.resolvable { "" } else { ", resolvable: false" }));
                    }
                    if io {
                        o.push_str(" @interfaceObject");
                    }
                }
                o.push_str(&d);
                o.push_str(" {\n");
                for f in &t.fields {
                    let Some(at) = f.at.get(&s) else { continue };
                    o.push_str(&format!("  {}{}: {}", f.name, Self::sdl_args(&f.args, fed), f.ty));
                    if fed {
                        if at.external {
                            o.push_str(" @external");
                        }
                        if let Some(r) = &at.requires {
                            o.push_str(&format!(" @requires(fields: \"{r}\")"));
                        }
                        if let Some(r) = &at.provides {
                            o.push_str(&format!(" @provides(fields: \"{r}\")"));
                        }
                        if let Some((from, label)) = &at.over {
                            o.push_str(&format!(
                                " @override(from: \"{}\"{})",
                                sub_name(*from),
                                label.as_ref().map(|l| format!(", label: \"{l}\"")).unwrap_or_default()
                            ));
                        }
                        let shared = f.at.len() > 1;
                        if shared && !at.external && (t.kind == Kind::Object || io) && t.name != "Mutation" {
                            let others = f.at.iter().filter(|(x, a)| **x != s && (!a.external || self.provided_somewhere(&t.name, &f.name, **x))).count();
                            if others > 0 && !f.at.values().any(|a| a.over.is_some()) {
                                o.push_str(" @shareable");
                            }
                        }
                        if !f.dirs.is_empty() {
                            o.push_str(&format!(" {}", f.dirs));
                        }
                        if !at.dirs.is_empty() {
                            o.push_str(&format!(" {}", at.dirs));
                        }
                    }
                    o.push('\n');
                }
                o.push_str("}\n");
            }
        }
        o.push('\n');
        o
    }

    fn provided_somewhere(&self, _t: &str, f: &str, s: usize) -> bool {
        self.types.values().any(|t| t.fields.iter().any(|g| g.at.get(&s).and_then(|a| a.provides.as_ref()).is_some_and(|p| p.split_whitespace().any(|w| w == f))))
    }

    /// the schema subgraph `s` executes: plain types plus the federation machinery fields
    pub fn exec_sdl(&self, s: usize) -> String {
        let mut o = String::new();
        let mut entities = vec![];
        for t in self.types.values() {
            if !t.subs.contains(&s) || t.name == "Query" {
                continue;
            }
            o.push_str(&self.sdl_type(t, s, false));
            let obj = t.kind == Kind::Object || t.iface_object.contains(&s);
            if obj && t.keys.get(&s).is_some_and(|k| k.iter().any(|k| k.resolvable)) {
                entities.push(t.name.clone());
            }
        }
        let mut q = self.types.get("Query").filter(|q| q.subs.contains(&s)).map(|q| self.sdl_type(q, s, false)).unwrap_or_else(|| "type Query {\n}\n".into());
        let at = q.rfind('}').unwrap();
        let mut extra = String::from("  _service: _Service!\n");
        if !entities.is_empty() {
            extra.push_str("  _entities(representations: [_Any!]!): [_Entity]!\n");
            o.push_str(&format!("scalar _Any\nunion _Entity = {}\n", entities.join(" | ")));
        }
        o.push_str("type _Service { sdl: String }\n");
        q.insert_str(at, &extra);
        o.push_str(&q);
        o
    }
}
