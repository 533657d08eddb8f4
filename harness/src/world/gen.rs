//! Generates worlds.
use super::model::*;
use super::on;
use crate::tape::Src;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct Profile {
    pub requires: bool,
    pub provides: bool,
    pub overrides: bool,
    pub labels: bool,
    /// progressive overrides which are decided by chance
    pub coin: bool,
    pub iface_object: bool,
    pub abstracts: bool,
    pub mutations: bool,
    pub inaccessible: bool,
    pub auth: bool,
    pub cost: bool,
    pub nonnull_pct: u64,
    pub null_pct: u64,
    pub max_sub: usize,
}
impl Default for Profile {
    fn default() -> Self {
        Profile {
            requires: true,
            coin: true,
            provides: true,
            overrides: true,
            labels: false,
            iface_object: true,
            abstracts: true,
            mutations: false,
            inaccessible: false,
            auth: false,
            cost: false,
            nonnull_pct: 30,
            null_pct: 12,
            max_sub: 4,
        }
    }
}

const KEYS: &[(&str, &[(&str, &str, KeyEnc)])] = &[
    ("id", &[("id", "ID!", KeyEnc::Id)]),
    ("sku", &[("sku", "Int!", KeyEnc::Sku)]),
    ("part ver", &[("part", "String!", KeyEnc::Part), ("ver", "Int!", KeyEnc::Ver)]),
    ("ref { code }", &[("ref", "KRef!", KeyEnc::Ref)]),
    ("id ref { code }", &[("id", "ID!", KeyEnc::Id), ("ref", "KRef!", KeyEnc::Ref)]),
    ("ver part ref { code }", &[("part", "String!", KeyEnc::Part), ("ver", "Int!", KeyEnc::Ver), ("ref", "KRef!", KeyEnc::Ref)]),
];

fn nn(src: &mut Src, p: &Profile, t: String) -> String {
    if src.chance(p.nonnull_pct) {
        format!("{t}!")
    } else {
        t
    }
}
fn wrap(src: &mut Src, p: &Profile, t: &str) -> String {
    match src.weighted(&[62, 28, 6]) {
        0 => nn(src, p, t.to_string()),
        1 => {
            let i = nn(src, p, t.to_string());
            nn(src, p, format!("[{i}]"))
        }
        _ => {
            let i = nn(src, p, t.to_string());
            let j = nn(src, p, format!("[{i}]"));
            nn(src, p, format!("[{j}]"))
        }
    }
}

const SCALARS: &[&str] = &["String", "Int", "Float", "Boolean", "ID", "E0", "Blob"];

pub fn gen_args(src: &mut Src) -> Vec<ArgDef> {
    if !src.chance(22) {
        return vec![];
    }
    let all = [
        arg("n", "Int", None),
        arg("s", "String", Some("\"d\\\"x\"")),
        arg("f", "Float", None),
        arg("e", "E0", Some("V1")),
        arg("i", "In0", None),
        arg("l", "[Int!]", Some("[1, 2]")),
        arg("b", "Boolean!", Some("true")),
        arg("id", "ID", None),
        arg("blob", "Blob", None),
        arg("li", "[In0!]", None),
        arg("r", "Int!", None),
    ];
    let k = src.range(1, 3);
    let mut out: Vec<ArgDef> = vec![];
    for _ in 0..k {
        let a = src.pick(&all).clone();
        if !out.iter().any(|x| x.name == a.name) {
            out.push(a);
        }
    }
    out
}

/// types which may be the output of a field in subgraph `s`
fn outputs(w: &World, s: usize, abstracts: bool) -> Vec<String> {
    w.types
        .values()
        .filter(|t| t.subs.contains(&s))
        .filter(|t| match t.kind {
            Kind::Object => !matches!(t.name.as_str(), "Query" | "Mutation" | "KRef" | "Subscription"),
            // known finding interface-object-root: a subgraph holding the interface object does not return it
            Kind::Interface => abstracts && (on("interface-object") || !t.iface_object.contains(&s)) && !w.sub_possible(&t.name, s).is_empty(),
            Kind::Union => abstracts && !w.sub_possible(&t.name, s).is_empty(),
            _ => false,
        })
        .map(|t| t.name.clone())
        .collect()
}

fn any_type(src: &mut Src, w: &World, s: usize, p: &Profile, obj_pct: u64) -> String {
    let outs = outputs(w, s, p.abstracts);
    if !outs.is_empty() && src.chance(obj_pct) {
        src.pick(&outs).clone()
    } else {
        src.pick(SCALARS).to_string()
    }
}

pub fn gen_world(src: &mut Src, p: &Profile) -> Option<World> {
    let nsub = src.range(2, p.max_sub);
    let mut w = World {
        seed: src.below(1 << 32),
        nsub,
        types: BTreeMap::new(),
        pop: 6,
        classes: BTreeMap::new(),
        null_pct: p.null_pct,
        max_list: 3,
    };
    let all: BTreeSet<usize> = (0..nsub).collect();
    // common leaf types
    let mut e = TypeDef::new("E0", Kind::Enum((0..src.range(2, 4)).map(|i| (format!("V{i}"), String::new())).collect()));
    e.subs = all.clone();
    w.types.insert("E0".into(), e);
    let mut b = TypeDef::new("Blob", Kind::Scalar);
    b.subs = all.clone();
    w.types.insert("Blob".into(), b);
    let mut i0 = TypeDef::new("In0", Kind::Input);
    i0.subs = all.clone();
    i0.inputs = vec![
        arg("a", "Int", None),
        arg("b", "String", Some("\"dflt\"")),
        arg("c", "E0", None),
        arg("f", "Float!", Some("1.5")),
        arg("l", "[Int!]", None),
        arg("n", "In0", None),
    ];
    w.types.insert("In0".into(), i0);

    // value types, everywhere
    let nv = src.range(1, 2);
    for i in 0..nv {
        let mut t = TypeDef::new(&format!("W{i}"), Kind::Object);
        t.subs = all.clone();
        for k in 0..src.range(1, 3) {
            let base = if i > 0 && src.chance(35) { "W0".to_string() } else { src.pick(SCALARS).to_string() };
            let mut f = field(&format!("w{k}"), &wrap(src, p, &base));
            f.args = if src.chance(15) { gen_args(src) } else { vec![] };
            for s in &all {
                f.at.insert(*s, FieldAt::default());
            }
            if on("partial-value-type") && k > 0 && src.chance(20) {
                let drop = src.n(nsub);
                f.at.remove(&drop);
            }
            t.fields.push(f);
        }
        w.types.insert(t.name.clone(), t);
    }

    // entities
    let ne = src.range(1, 4);
    let mut uses_ref = false;
    for i in 0..ne {
        let name = format!("T{i}");
        let mut t = TypeDef::new(&name, Kind::Object);
        let mut pool = vec![if src.chance(75) { 0 } else { src.n(KEYS.len()) }];
        let extra_keys = if src.chance(45) { 0 } else { src.n(3) };
        for _ in 0..extra_keys {
            let k = src.n(KEYS.len());
            if !pool.contains(&k) {
                pool.push(k);
            }
        }
        let mut subs: BTreeSet<usize> = all.iter().filter(|_| src.chance(70)).copied().collect();
        if subs.is_empty() {
            subs.insert(src.n(nsub));
        }
        t.subs = subs.clone();
        for (n, s) in subs.iter().enumerate() {
            let mut ks: Vec<usize> = if n == 0 && src.chance(60) {
                pool.clone()
            } else {
                pool.iter().copied().filter(|_| src.chance(55)).collect()
            };
            if ks.is_empty() {
                ks.push(pool[0]);
            }
            src.shuffle(&mut ks);
            let defs = ks.iter().map(|k| KeyDef { sel: KEYS[*k].0.to_string(), resolvable: true }).collect();
            t.keys.insert(*s, defs);
            let mut add = |t: &mut TypeDef, k: usize| {
                for (fname, fty, enc) in KEYS[k].1 {
                    if *enc == KeyEnc::Ref {
                        uses_ref = true;
                    }
                    if t.field(fname).is_none() {
                        let mut f = field(fname, fty);
                        f.key = Some(*enc);
                        t.fields.push(f);
                    }
                    t.field_mut(fname).unwrap().at.insert(*s, FieldAt::default());
                }
            };
            for k in &ks {
                add(&mut t, *k);
            }
            // a key field of the pool which is a plain field here
            if src.chance(15) {
                let k = *src.pick(&pool);
                add(&mut t, k);
            }
        }
        w.types.insert(name, t);
    }
    if uses_ref {
        let mut t = TypeDef::new("KRef", Kind::Object);
        t.subs = all.clone();
        let mut f = field("code", "String!");
        f.key = Some(KeyEnc::Code);
        for s in &all {
            f.at.insert(*s, FieldAt::default());
        }
        t.fields.push(f);
        w.types.insert("KRef".into(), t);
    }

    // entity interface with an interface object
    if p.iface_object && p.abstracts && src.chance(25) && nsub >= 2 {
        let a = src.n(nsub);
        let b = (a + 1 + src.n(nsub - 1)) % nsub;
        let mut it = TypeDef::new("Node0", Kind::Interface);
        it.subs = [a, b].into_iter().collect();
        it.iface_object = [b].into_iter().collect();
        for s in [a, b] {
            it.keys.insert(s, vec![KeyDef { sel: "id".into(), resolvable: true }]);
        }
        let mut idf = field("id", "ID!");
        idf.key = Some(KeyEnc::Id);
        idf.at.insert(a, FieldAt::default());
        idf.at.insert(b, FieldAt::default());
        it.fields.push(idf.clone());
        let mut nm = field("nm", &nn(src, p, "String".into()));
        nm.at.insert(a, FieldAt::default());
        it.fields.push(nm.clone());
        for k in 0..src.range(1, 2) {
            let base = src.pick(SCALARS).to_string();
            let mut f = field(&format!("io{k}"), &wrap(src, p, &base));
            f.at.insert(b, FieldAt::default());
            it.fields.push(f);
        }
        let n = src.range(2, 3);
        let mut cl = vec![];
        for i in 0..n {
            let mut t = TypeDef::new(&format!("N{i}"), Kind::Object);
            t.ns = "Node0".into();
            t.subs.insert(a);
            t.keys.insert(a, vec![KeyDef { sel: "id".into(), resolvable: true }]);
            t.implements.insert("Node0".into(), [a].into_iter().collect());
            let mut idf = field("id", "ID!");
            idf.key = Some(KeyEnc::Id);
            idf.at.insert(a, FieldAt::default());
            let mut nm2 = nm.clone();
            nm2.at = BTreeMap::new();
            nm2.at.insert(a, FieldAt::default());
            // a further subgraph may know the concrete entity
            for s in 0..nsub {
                if s != a && s != b && src.chance(40) {
                    t.subs.insert(s);
                    t.keys.insert(s, vec![KeyDef { sel: "id".into(), resolvable: true }]);
                    idf.at.insert(s, FieldAt::default());
                    let mut f = field(&format!("own{s}"), "String");
                    f.at.insert(s, FieldAt::default());
                    t.fields.push(f);
                }
            }
            t.fields.push(idf);
            t.fields.push(nm2);
            cl.push(t.name.clone());
            w.types.insert(t.name.clone(), t);
        }
        w.classes.insert("Node0".into(), cl);
        w.types.insert("Node0".into(), it);
    }

    // plain interfaces
    if p.abstracts {
        for i in 0..src.n(3) {
            let name = format!("I{i}");
            let mut it = TypeDef::new(&name, Kind::Interface);
            let base = src.pick(&["String", "Int", "E0", "W0"]).to_string();
            let proto = {
                let mut f = field(&format!("if{i}"), &wrap(src, p, &base));
                f.args = if src.chance(20) { gen_args(src) } else { vec![] };
                f
            };
            let objs: Vec<String> = w
                .types
                .values()
                .filter(|t| t.kind == Kind::Object && t.name.starts_with(['T', 'W']))
                .map(|t| t.name.clone())
                .collect();
            let mut chosen: Vec<String> = src.subset(&objs, 60);
            if chosen.is_empty() {
                chosen.push(objs[0].clone());
            }
            let isubs: BTreeSet<usize> = {
                let x: BTreeSet<usize> = all.iter().filter(|_| src.chance(65)).copied().collect();
                if x.is_empty() {
                    [src.n(nsub)].into_iter().collect()
                } else {
                    x
                }
            };
            it.subs = isubs.clone();
            let mut f = proto.clone();
            for s in &isubs {
                f.at.insert(*s, FieldAt::default());
            }
            it.fields.push(f);
            for c in &chosen {
                let t = w.types.get_mut(c).unwrap();
                let mut impl_at: BTreeSet<usize> = t.subs.intersection(&isubs).copied().filter(|_| src.chance(85)).collect();
                if t.name.starts_with('W') {
                    // value types stay identical everywhere
                    impl_at = t.subs.intersection(&isubs).copied().collect();
                }
                let mut f = proto.clone();
                let ats: BTreeSet<usize> = if t.name.starts_with('W') { t.subs.clone() } else { impl_at.clone() };
                for s in &ats {
                    f.at.insert(*s, FieldAt::default());
                }
                if t.name.starts_with('T') && impl_at.is_empty() {
                    continue;
                }
                // a value of W0's own type would recurse for ever in the data but not in queries
                t.fields.push(f);
                t.implements.insert(name.clone(), impl_at);
            }
            w.types.insert(name, it);
        }
        // unions
        if src.chance(45) {
            let mut u = TypeDef::new("U0", Kind::Union);
            for s in 0..nsub {
                if !src.chance(70) {
                    continue;
                }
                let objs: Vec<String> = w
                    .types
                    .values()
                    .filter(|t| t.kind == Kind::Object && t.subs.contains(&s) && t.name.starts_with(['T', 'W']))
                    .map(|t| t.name.clone())
                    .collect();
                let m = src.subset(&objs, 55);
                if !m.is_empty() {
                    u.subs.insert(s);
                    u.members.insert(s, m);
                }
            }
            if !u.subs.is_empty() {
                w.types.insert("U0".into(), u);
            }
        }
    }

    // fields of entities
    let ents: Vec<String> = w.types.values().filter(|t| t.kind == Kind::Object && t.is_entity()).map(|t| t.name.clone()).collect();
    for en in &ents {
        let subs: Vec<usize> = w.types[en].subs.iter().copied().collect();
        for s in &subs {
            let k = src.weighted(&[20, 45, 35]);
            for j in 0..k {
                let base = any_type(src, &w, *s, p, 42);
                let ty = wrap(src, p, &base);
                let mut f = field(&format!("f{s}{j}"), &ty);
                f.args = gen_args(src);
                f.at.insert(*s, FieldAt::default());
                for o in &subs {
                    if o != s && src.chance(18) && out_ok(&w, &base, *o) {
                        f.at.insert(*o, FieldAt::default());
                    }
                }
                w.types.get_mut(en).unwrap().fields.push(f);
            }
        }
    }

    // decorations
    for en in &ents {
        let subs: Vec<usize> = w.types[en].subs.iter().copied().collect();
        if subs.len() < 2 {
            continue;
        }
        let n = w.types[en].fields.len();
        for fi in 0..n {
            let (fname, base, owners, key, in_iface, has_args) = {
                let f = &w.types[en].fields[fi];
                (
                    f.name.clone(),
                    f.ty.name().to_string(),
                    f.at.keys().copied().collect::<Vec<_>>(),
                    f.key.is_some(),
                    f.name.starts_with("if") || f.name == "nm",
                    !f.args.is_empty(),
                )
            };
            if key || in_iface || owners.len() != 1 || w.types[en].fields[fi].at.values().any(|a| a.external || a.requires.is_some()) {
                continue;
            }
            let a = owners[0];
            let others: Vec<usize> = subs.iter().copied().filter(|s| *s != a).collect();
            match src.weighted(&[60, 12, 28]) {
                1 if p.overrides => {
                    let b = *src.pick(&others);
                    if out_ok(&w, &base, b) {
                        let label = if p.labels || src.chance(20) {
                            Some(match src.n(3) {
                                0 if p.coin => "percent(50)".to_string(),
                                0 => "percent(100)".to_string(),
                                1 => format!("lab{}", src.n(3)),
                                _ => format!("percent({})", [0, 100, if p.coin { 12 } else { 0 }][src.n(3)]),
                            })
                        } else {
                            None
                        };
                        let f = &mut w.types.get_mut(en).unwrap().fields[fi];
                        f.at.insert(b, FieldAt { over: Some((a, label)), ..Default::default() });
                    }
                }
                2 if p.requires => {
                    // known finding requires-multi-key: excluded here, pinned as a case of its own
                    let keys: BTreeSet<Vec<String>> = w.types[en].keys.values().map(|k| k.iter().map(|d| d.sel.clone()).collect()).collect();
                    if !on("requires-multi-key") && (keys.len() != 1 || keys.first().is_none_or(|k| k.len() != 1)) {
                        continue;
                    }
                    // this field (in a) requires something owned elsewhere
                    let cands: Vec<(String, Ty)> = w.types[en]
                        .fields
                        .iter()
                        .filter(|g| {
                            g.name != fname
                                && g.key.is_none()
                                && g.args.is_empty()
                                && !g.name.starts_with("if")
                                && !g.name.starts_with("own")
                                && g.name != "nm"
                                && (!g.at.contains_key(&a) || g.at[&a].external)
                                && g.at.values().all(|x| x.over.is_none())
                                && (SCALARS.contains(&g.ty.name()) || (g.ty.name() == "W0"))
                        })
                        .map(|g| (g.name.clone(), g.ty.clone()))
                        .collect();
                    if cands.is_empty() || (has_args && src.chance(60)) {
                        continue;
                    }
                    let mut sel = vec![];
                    let mut names = vec![];
                    for _ in 0..src.range(1, 2) {
                        let (g, ty) = src.pick(&cands).clone();
                        if names.contains(&g) {
                            continue;
                        }
                        if ty.name() == "W0" {
                            let w0 = &w.types["W0"];
                            let ok: Vec<String> = w0
                                .fields
                                .iter()
                                .filter(|x| x.at.len() == nsub && x.args.is_empty() && SCALARS.contains(&x.ty.name()))
                                .map(|x| x.name.clone())
                                .collect();
                            if ok.is_empty() {
                                continue;
                            }
                            sel.push(format!("{g} {{ {} }}", src.pick(&ok)));
                        } else {
                            sel.push(g.clone());
                        }
                        names.push(g);
                    }
                    if sel.is_empty() {
                        continue;
                    }
                    let t = w.types.get_mut(en).unwrap();
                    for g in &names {
                        t.field_mut(g).unwrap().at.entry(a).or_insert(FieldAt { external: true, ..Default::default() });
                    }
                    t.fields[fi].at.get_mut(&a).unwrap().requires = Some(sel.join(" "));
                }
                _ => {}
            }
        }
    }

    // roots
    let mut q = TypeDef::new("Query", Kind::Object);
    let mut any = false;
    for s in 0..nsub {
        let k = if s + 1 == nsub && !any { src.range(1, 3) } else { src.n(4) };
        for j in 0..k {
            any = true;
            let base = any_type(src, &w, s, p, 88);
            let ty = wrap(src, p, &base);
            let mut f = field(&format!("q{s}{j}"), &ty);
            f.args = gen_args(src);
            f.at.insert(s, FieldAt::default());
            for o in 0..nsub {
                if o != s && src.chance(12) && out_ok(&w, &base, o) {
                    f.at.insert(o, FieldAt::default());
                }
            }
            q.fields.push(f);
        }
    }
    q.subs = q.fields.iter().flat_map(|f| f.at.keys().copied()).collect();
    w.types.insert("Query".into(), q);
    if p.mutations {
        let mut m = TypeDef::new("Mutation", Kind::Object);
        for j in 0..src.range(2, 5) {
            let s = src.n(nsub);
            let base = any_type(src, &w, s, p, 70);
            let ty = wrap(src, p, &base);
            let mut f = field(&format!("m{s}{j}"), &ty);
            f.args = gen_args(src);
            f.at.insert(s, FieldAt::default());
            m.fields.push(f);
        }
        m.subs = m.fields.iter().flat_map(|f| f.at.keys().copied()).collect();
        w.types.insert("Mutation".into(), m);
    }

    // provides: on fields returning an entity directly, name a field of it owned elsewhere
    if p.provides {
        let names: Vec<String> = w.types.keys().cloned().collect();
        for tn in names {
            if !matches!(w.types[&tn].kind, Kind::Object) {
                continue;
            }
            for fi in 0..w.types[&tn].fields.len() {
                let f = &w.types[&tn].fields[fi];
                let target = f.ty.name().to_string();
                if f.at.len() != 1 || f.key.is_some() || f.name.starts_with("if") || !ents.contains(&target) || !src.chance(20) {
                    continue;
                }
                let s = *f.at.keys().next().unwrap();
                if f.at[&s].over.is_some() || f.at[&s].external {
                    continue;
                }
                let c: Vec<String> = w.types[&target]
                    .fields
                    .iter()
                    .filter(|g| {
                        g.key.is_none()
                            && !g.name.starts_with("if")
                            && g.name != "nm"
                            && g.at.get(&s).map_or(true, |a| a.external)
                            && g.at.values().all(|a| a.over.is_none() && a.requires.is_none())
                            && (SCALARS.contains(&g.ty.name()) || g.ty.name() == "W0")
                            && g.args.is_empty()
                    })
                    .map(|g| g.name.clone())
                    .collect();
                if c.is_empty() {
                    continue;
                }
                let g = src.pick(&c).clone();
                let gty = w.types[&target].field(&g).unwrap().ty.name().to_string();
                let sel = if gty == "W0" {
                    let w0 = &w.types["W0"];
                    let ok: Vec<String> =
                        w0.fields.iter().filter(|x| x.at.contains_key(&s) && x.args.is_empty() && SCALARS.contains(&x.ty.name())).map(|x| x.name.clone()).collect();
                    if ok.is_empty() {
                        continue;
                    }
                    format!("{g} {{ {} }}", src.pick(&ok))
                } else {
                    g.clone()
                };
                let t = w.types.get_mut(&target).unwrap();
                t.field_mut(&g).unwrap().at.entry(s).or_insert(FieldAt { external: true, ..Default::default() });
                w.types.get_mut(&tn).unwrap().fields[fi].at.get_mut(&s).unwrap().provides = Some(sel);
            }
        }
    }
    if (!on("split-shared-field") && w.split_shared_field()) || (!on("runtime-type-intersection") && w.odd_runtime_types()) || (!on("requires-type-conflict") && w.requires_type_conflict()) || !w.compute_cands() {
        return None;
    }
    Some(w)
}

fn out_ok(w: &World, base: &str, s: usize) -> bool {
    if SCALARS.contains(&base) {
        return true;
    }
    match w.types.get(base) {
        Some(t) => {
            t.subs.contains(&s)
                && match t.kind {
                    Kind::Interface | Kind::Union => !w.sub_possible(base, s).is_empty(),
                    _ => true,
                }
        }
        None => false,
    }
}
