//! C08: who may see what: @authenticated and @requiresScopes.
use crate::jwt;
use crate::runner::{truncate, BoxFut, Property};
use crate::simple::*;
use crate::tape::{hash_str, Outcome, Src};
use crate::world::interp::{effective_vars, RV};
use crate::world::opgen::{gen_op, OpCfg};
use apollo_compiler::executable as ex;
use apollo_compiler::schema::ExtendedType;
use apollo_compiler::{ast, ExecutableDocument, Schema};
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashMap, HashSet};
use std::sync::Arc;

pub fn property() -> Property {
    Property::new("C08", "a case is two subgraphs with @authenticated/@requiresScopes drawn on types, interfaces, fields, a scalar and an enum (conditions on the rules of interfaces as composed), filter or reject mode, several generated operations and several users (anonymous, broken token, authenticated with drawn scopes). Fields which the rules of the supergraph forbid are null with non-null bubbling over the operation, reported, and never asked of a subgraph; all else equals the answer without rules; reject mode refuses the request and asks nothing. Non-trivial: a forbidden and an allowed field in the same request")
        .part("rules", 1300, 30000, case)
}
fn case<'a>(src: &'a mut Src) -> BoxFut<'a> {
    Box::pin(run(src))
}

const A: &str = r#"
scalar Blob§
enum Color§ { RED GREEN }
interface Node { id: ID! label: String level: Int! peer: Node color: Color }
interface Named { title: String }
type User implements Node & Named @key(fields: "id")§ { id: ID! label: String§ level: Int!§ peer: Node§ color: Color title: String name: String!§ pet: Pet§ pets: [Pet!]!§ blob: Blob friends: [User!] }
type Pet implements Node & Named @key(fields: "id")§ { id: ID! label: String level: Int!§ peer: Node color: Color§ title: String§ nick: String§ owner: User! kind: Kind! }
type Kind§ { code: String! text: String§ }
union Any = User | Pet | Kind
type Query { user: User§ users: [User!]! node: Node nodes: [Node]§ any: Any anys: [Any!] named: Named secret: String§ open: String need: Int!§ color: Color blob: Blob }
type Mutation { first: Int§ second: User§ third: String! fourth: Pet§ }
"#;
const B: &str = r#"
scalar Blob
type User @key(fields: "id") { id: ID! score: Float§ name: String! @external badge: String @requires(fields: "name")§ bag: Bag! }
type Bag { size: Int!§ owner: User items: [Blob!]! }
type Pet @key(fields: "id") { id: ID! chip: String!§ fans: [User]§ }
type Query { bag: Bag§ other: String§ top: [Pet!] }
"#;

fn draw(src: &mut Src, text: &str, pct: u64) -> String {
    let mut parts = text.split('§');
    let mut out = parts.next().unwrap().to_string();
    for p in parts {
        if src.chance(pct) {
            out.push_str(match src.n(9) {
                0..=2 => " @authenticated",
                3 => " @requiresScopes(scopes: [[\"a\"]])",
                4 => " @requiresScopes(scopes: [[\"b\"]])",
                5 => " @requiresScopes(scopes: [[\"a\", \"b\"]])",
                6 => " @requiresScopes(scopes: [[\"a\"], [\"b\", \"c\"]])",
                7 => " @requiresScopes(scopes: [[\"c\", \"a\"], [\"b\"]])",
                _ => " @authenticated @requiresScopes(scopes: [[\"a\"], [\"c\"]])",
            });
        }
        out.push_str(p);
    }
    out
}

enum Rule {
    Auth,
    Scopes(Vec<Vec<String>>),
}
struct User {
    auth: bool,
    scopes: HashSet<String>,
}
impl Rule {
    fn of(ds: &ast::DirectiveList) -> Option<Rule> {
        if let Some(d) = ds.get("requiresScopes") {
            let v = d.specified_argument_by_name("scopes")?;
            return Some(Rule::Scopes(v.as_list()?.iter().map(|g| g.as_list().unwrap_or(&[]).iter().filter_map(|s| s.as_str().map(String::from)).collect()).collect()));
        }
        ds.get("authenticated").map(|_| Rule::Auth)
    }
    fn ok(&self, u: &User) -> bool {
        u.auth
            && match self {
                Rule::Auth => true,
                Rule::Scopes(gs) => gs.iter().any(|g| g.iter().all(|s| u.scopes.contains(s))),
            }
    }
}
#[derive(Default)]
struct Rules {
    types: HashMap<String, Rule>,
    fields: HashMap<(String, String), Rule>,
}
fn rules(supergraph: &str) -> Rules {
    let mut r = Rules::default();
    let s = Schema::parse(supergraph, "s").unwrap_or_else(|e| crate::runner::harness_error(e));
    for (n, t) in &s.types {
        let ds: ast::DirectiveList = t.directives().iter().map(|d| d.node.clone()).collect();
        if let Some(x) = Rule::of(&ds) {
            r.types.insert(n.to_string(), x);
        }
        let fs = match t {
            ExtendedType::Object(o) => &o.fields,
            ExtendedType::Interface(o) => &o.fields,
            _ => continue,
        };
        for (f, d) in fs {
            if let Some(x) = Rule::of(&d.directives) {
                r.fields.insert((n.to_string(), f.to_string()), x);
            }
        }
    }
    r
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum St {
    No,
    May,
    Must,
}
struct F {
    key: String,
    name: String,
    /// the type of the enclosing field and the type conditions on the way
    chain: Vec<String>,
    own: St,
    frag: St,
    state: St,
    nonnull: St,
    children: Vec<F>,
    leaf: bool,
    dead: bool,
}

struct Ctx<'a> {
    api: &'a Schema,
    doc: &'a ExecutableDocument,
    rules: &'a Rules,
    user: &'a User,
    vars: &'a serde_json::Map<String, Value>,
    may: BTreeSet<String>,
    /// asked for in places which the variables exclude
    excluded: BTreeSet<String>,
    must: BTreeSet<String>,
}
impl Ctx<'_> {
    fn possible(&self, t: &str) -> BTreeSet<String> {
        match self.api.types.get(t) {
            Some(ExtendedType::Union(u)) => u.members.iter().map(|m| m.to_string()).collect(),
            Some(ExtendedType::Interface(_)) => self.api.types.values().filter_map(|x| match x { ExtendedType::Object(o) if o.implements_interfaces.iter().any(|i| **i == *t) => Some(o.name.to_string()), _ => None }).collect(),
            _ => [t.to_string()].into(),
        }
    }
    fn type_ok(&self, t: &str) -> bool {
        self.rules.types.get(t).is_none_or(|r| r.ok(self.user))
    }
    fn bad(&self, q: &str, f: &str) -> bool {
        let Ok(d) = self.api.type_field(q, f) else { return false };
        !(self.type_ok(q) && self.type_ok(d.ty.inner_named_type()) && self.rules.fields.get(&(q.to_string(), f.to_string())).is_none_or(|r| r.ok(self.user)))
    }
    fn included(&self, ds: &ast::DirectiveList) -> bool {
        let val = |d: &str| {
            ds.get(d).and_then(|d| d.specified_argument_by_name("if")).map(|v| match &**v {
                ast::Value::Boolean(b) => *b,
                ast::Value::Variable(n) => self.vars.get(n.as_str()).and_then(|v| v.as_bool()).unwrap_or(false),
                _ => false,
            })
        };
        val("skip") != Some(true) && val("include") != Some(false)
    }
    fn build(&mut self, set: &ex::SelectionSet, chain: &[String], path: &[String], live: bool, out: &mut Vec<F>) {
        for s in &set.selections {
            match s {
                ex::Selection::Field(f) => {
                    if !self.included(&f.directives) {
                        self.excluded.insert(f.name.to_string());
                        self.exclude(&f.selection_set);
                        continue;
                    }
                    let f = self.field(f, chain, path, live);
                    out.push(f);
                }
                ex::Selection::InlineFragment(f) => {
                    if !self.included(&f.directives) {
                        self.exclude(&f.selection_set);
                    } else {
                        let mut c = chain.to_vec();
                        if let Some(t) = &f.type_condition {
                            c.push(t.to_string());
                        }
                        self.cond(&c, path);
                        self.build(&f.selection_set, &c, path, live, out);
                    }
                }
                ex::Selection::FragmentSpread(f) => {
                    if !self.included(&f.directives) {
                        self.exclude(&self.doc.fragments[&f.fragment_name].selection_set);
                    } else {
                        let mut c = chain.to_vec();
                        let d = &self.doc.fragments[&f.fragment_name];
                        c.push(d.type_condition().to_string());
                        self.cond(&c, path);
                        self.build(&d.selection_set, &c, path, live, out);
                    }
                }
            }
        }
    }
    fn exclude(&mut self, set: &ex::SelectionSet) {
        for s in &set.selections {
            match s {
                ex::Selection::Field(f) => {
                    self.excluded.insert(f.name.to_string());
                    self.exclude(&f.selection_set);
                }
                ex::Selection::InlineFragment(f) => self.exclude(&f.selection_set),
                ex::Selection::FragmentSpread(f) => self.exclude(&self.doc.fragments[&f.fragment_name].selection_set),
            }
        }
    }
    fn cond(&mut self, chain: &[String], path: &[String]) {
        let c = chain.last().unwrap();
        if chain.len() > 1 && (!self.type_ok(c) || self.possible(c).iter().any(|t| !self.type_ok(t))) {
            self.may.insert(path.join("."));
        }
    }
    fn field(&mut self, f: &ex::Field, chain: &[String], path: &[String], live: bool) -> F {
        let key = f.response_key().to_string();
        let name = f.name.to_string();
        let p = chain.last().unwrap().clone();
        let mut alive = self.possible(&chain[0]);
        for c in &chain[1..] {
            let q = self.possible(c);
            alive.retain(|x| q.contains(x));
        }
        let cap = |s: St| if alive.is_empty() { s.min(St::May) } else { s };
        let has = |t: &str| self.api.type_field(t, &name).ok();
        let pp = self.possible(&p);
        let cands: Vec<&String> = chain.iter().filter(|q| **q == p || (has(q).is_some() && self.possible(q).is_subset(&pp))).collect();
        let (mut own, mut nonnull) = (St::No, St::No);
        if name != "__typename" {
            let bad: Vec<bool> = cands.iter().map(|q| q.as_str()).chain(alive.iter().map(|t| t.as_str())).map(|q| self.bad(q, &name)).collect();
            let nn: Vec<bool> = cands.iter().map(|q| has(q).unwrap().ty.is_non_null()).collect();
            let tri = |v: &[bool]| if v.iter().all(|b| *b) { St::Must } else if v.iter().any(|b| *b) { St::May } else { St::No };
            own = cap(tri(&bad));
            nonnull = tri(&nn);
        }
        // conditions nobody may rely on
        let mut frag = St::No;
        for (i, c) in chain.iter().enumerate().skip(1) {
            if !self.type_ok(c) {
                let pc = self.possible(c);
                let narrower = chain.iter().enumerate().any(|(j, q)| j != i && q != c && self.possible(q).is_subset(&pc));
                frag = frag.max(if narrower || alive.iter().any(|t| self.type_ok(t)) { St::May } else { St::Must });
                self.may.insert(path.join("."));
            }
        }
        frag = cap(frag);
        let mut here = path.to_vec();
        here.push(key.clone());
        if own > St::No {
            self.may.insert(here.join("."));
        }
        if own == St::Must && frag == St::No && live {
            self.must.insert(here.join("."));
        }
        let mut children = vec![];
        let live2 = live && own == St::No && frag == St::No;
        self.build(&f.selection_set, &[f.definition.ty.inner_named_type().to_string()], &here, live2, &mut children);
        let mut state = own.max(frag);
        for c in &children {
            let prop = c.nonnull.min(if c.frag == St::No { c.state } else { c.state.min(St::May) });
            state = state.max(cap(prop));
        }
        // nothing left to ask for
        if !children.is_empty() && children.iter().all(|c| c.dead || children.iter().any(|d| d.key == c.key && d.state > St::No)) {
            state = state.max(St::May);
        }
        F { key, name, chain: chain.to_vec(), own, frag, state, nonnull, children, leaf: f.selection_set.selections.is_empty(), dead: alive.is_empty() }
    }
    fn has_forbidden(&self, want: &Value) -> bool {
        match want {
            Value::Array(a) => a.iter().any(|w| self.has_forbidden(w)),
            w => w["__t"].as_str().is_some_and(|t| !self.type_ok(t)),
        }
    }
    fn compare(&self, fs: &[&F], want: &Value, got: &Value, path: &str) -> Result<(), (&'static str, String)> {
        match want {
            Value::Null => (got.is_null()).then_some(()).ok_or(("differs", format!("{path}: null expected, got {got}"))),
            Value::Array(w) => {
                let Some(g) = got.as_array().filter(|g| g.len() == w.len()) else { return Err(("differs", format!("{path}: list of {} expected, got {}", w.len(), truncate(&got.to_string(), 300)))) };
                w.iter().zip(g).enumerate().try_for_each(|(i, (w, g))| self.compare(fs, w, g, &format!("{path}.{i}")))
            }
            Value::Object(w) if w.contains_key("__t") => {
                let ty = w["__t"].as_str().unwrap().to_string();
                // an object of a forbidden type may be withheld altogether
                if got.is_null() && !self.type_ok(&ty) {
                    return Ok(());
                }
                let Some(g) = got.as_object() else { return Err(("lost", format!("{path}: object expected, got {}", truncate(&got.to_string(), 300)))) };
                let mut groups: Vec<(&str, Vec<&F>)> = vec![];
                for f in fs {
                    if f.chain.iter().all(|c| self.possible(c).contains(&ty)) {
                        match groups.iter_mut().find(|(k, _)| *k == f.key) {
                            Some(x) => x.1.push(f),
                            None => groups.push((&f.key, vec![f])),
                        }
                    }
                }
                for k in g.keys() {
                    if !groups.iter().any(|(x, _)| x == k) {
                        return Err(("disclosed", format!("{path}.{k} was not asked for")));
                    }
                }
                for (k, fs) in groups {
                    let p = format!("{path}.{k}");
                    let g = g.get(k);
                    let null = g.is_none_or(|g| g.is_null());
                    if fs.iter().all(|f| f.state == St::Must || (f.name != "__typename" && self.bad(&ty, &f.name))) {
                        if !null {
                            return Err(("disclosed", format!("{p}: {}", truncate(&g.unwrap().to_string(), 200))));
                        }
                        if g.is_none() && !fs.iter().any(|f| f.frag > St::No) {
                            return Err(("missing-key", p));
                        }
                        continue;
                    }
                    if null && fs.iter().any(|f| f.state > St::No) {
                        continue;
                    }
                    let Some(g) = g else { return Err(("missing-key", p)) };
                    let want = &w[k];
                    if g.is_null() && self.has_forbidden(want) {
                        continue;
                    }
                    if want.is_null() != g.is_null() {
                        return Err((if g.is_null() { "lost" } else { "differs" }, format!("{p}: want {} got {}", truncate(&want.to_string(), 200), truncate(&g.to_string(), 200))));
                    }
                    if fs[0].leaf {
                        if want != g {
                            return Err(("differs", format!("{p}: want {want} got {g}")));
                        }
                        continue;
                    }
                    let kids: Vec<&F> = fs.iter().flat_map(|f| f.children.iter()).collect();
                    self.compare(&kids, want, g, &p)?;
                }
                Ok(())
            }
            w => (w == got).then_some(()).ok_or(("differs", format!("{path}: want {w} got {got}"))),
        }
    }
}
/// names of fields every selection of which is forbidden
fn names(fs: &[F], dead: bool, forbidden: &mut BTreeSet<String>, fine: &mut BTreeSet<String>) {
    for f in fs {
        let d = dead || f.own == St::Must || f.frag == St::Must;
        if d { forbidden.insert(f.name.clone()) } else { fine.insert(f.name.clone()) };
        names(&f.children, d, forbidden, fine);
    }
}
fn counts(fs: &[F], allowed: &mut usize) {
    for f in fs {
        if f.state == St::No {
            *allowed += 1;
        }
        counts(&f.children, allowed);
    }
}
fn asked_names(d: &ast::Document, sel: &[ast::Selection], vars: &Value, out: &mut BTreeSet<String>) {
    let off = |ds: &ast::DirectiveList| {
        ds.iter().any(|d| {
            let v = d.specified_argument_by_name("if").map(|v| match &**v {
                ast::Value::Variable(n) => vars[n.as_str()].clone(),
                ast::Value::Boolean(b) => json!(b),
                _ => Value::Null,
            });
            (d.name == "skip" && v == Some(json!(true))) || (d.name == "include" && v == Some(json!(false)))
        })
    };
    for s in sel {
        match s {
            ast::Selection::Field(f) if !off(&f.directives) => {
                out.insert(f.name.to_string());
                asked_names(d, &f.selection_set, vars, out);
            }
            ast::Selection::InlineFragment(f) if !off(&f.directives) => asked_names(d, &f.selection_set, vars, out),
            ast::Selection::FragmentSpread(f) if !off(&f.directives) => {
                for x in &d.definitions {
                    match x {
                        ast::Definition::FragmentDefinition(x) if x.name == f.fragment_name => asked_names(d, &x.selection_set, vars, out),
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
}
fn add_t(sel: &mut Vec<ast::Selection>) {
    for s in sel.iter_mut() {
        match s {
            ast::Selection::Field(f) if !f.selection_set.is_empty() => add_t(&mut f.make_mut().selection_set),
            ast::Selection::InlineFragment(f) => add_t(&mut f.make_mut().selection_set),
            _ => {}
        }
    }
    sel.push(ast::Selection::Field(apollo_compiler::Node::new(ast::Field { alias: Some(apollo_compiler::Name::new_unchecked("__t")), name: apollo_compiler::Name::new_unchecked("__typename"), arguments: vec![], directives: Default::default(), selection_set: vec![] })));
}
fn with_t(text: &str) -> Option<String> {
    let mut d = ast::Document::parse(text, "q").ok()?;
    for x in d.definitions.iter_mut() {
        match x {
            ast::Definition::OperationDefinition(o) => add_t(&mut o.make_mut().selection_set),
            ast::Definition::FragmentDefinition(o) => add_t(&mut o.make_mut().selection_set),
            _ => {}
        }
    }
    Some(d.to_string())
}
fn strip(v: &Value) -> Value {
    match v {
        Value::Object(o) => o.iter().filter(|(k, _)| *k != "__t").map(|(k, v)| (k.clone(), strip(v))).collect(),
        Value::Array(a) => a.iter().map(strip).collect(),
        v => v.clone(),
    }
}

async fn run(src: &mut Src) -> Outcome {
    let pct = *src.pick(&[10, 25, 45]);
    let (a, b) = (draw(src, A, pct), draw(src, B, pct));
    let subs = [("a", a.as_str()), ("b", b.as_str())];
    if try_schemas(&subs).is_err() {
        return Outcome::Discard;
    }
    let reject = src.chance(25);
    let claim = *src.pick(&[None, None, Some("roles")]);
    let yaml = format!(
        "{}authorization:\n  directives:\n    unauthorized:\n      mode: {}\n",
        jwt::yaml(&claim.map(|c| format!("  scopes_claim: {c}\n")).unwrap_or_default()),
        if reject { "reject" } else { "filter" }
    );
    let res: Resolver = Arc::new(|t, f, _, id| match (t, f) {
        ("Query", "nodes") => Some(RV::List(vec![obj("User", 1), RV::Null, obj("Pet", 2)])),
        (_, "peer") if id % 3 == 0 => Some(RV::Null),
        _ => None,
    });
    let s = match Simple::start(&subs, &yaml, res.clone(), plain()).await {
        Ok(s) => s,
        Err(e) => return Outcome::fail("router-rejects-supergraph", e),
    };
    let rules = rules(&s.schemas.supergraph);
    let full = jwt::user_token(match claim {
        Some(c) => json!({ c: "a b c" }),
        None => json!({"scope": "a b c"}),
    });
    let (mut evals, mut sig, mut hit, mut blocked) = (0, 1u64, false, false);
    let mut sample = None;
    for _ in 0..src.range(2, 5) {
        let kind = if src.chance(20) { "mutation" } else { "query" };
        let op = gen_op(src, &s.schemas.api, &OpCfg { max_depth: 4, kind, max_roots: 4, ..OpCfg::default() });
        // known finding alias-shadows-field of C01
        if op.text.contains("name:") && op.text.contains("badge") {
            continue;
        }
        let Ok(doc) = ExecutableDocument::parse_and_validate(&s.schemas.api, &op.text, "q") else { continue };
        let Ok(o) = doc.operations.get(op.name.as_deref()) else { continue };
        let Some(Ok(want)) = with_t(&op.text).map(|t| s.reference(&res, &t, op.name.as_deref(), &op.variables)) else { continue };
        let vars = effective_vars(&s.schemas.api, o, &op.variables);
        // the planner's own defects are judged elsewhere
        let r = match s.router.gql(&op.body(), &[("authorization", &format!("Bearer {full}"))]).await {
            Ok(r) => r.json().unwrap_or(Value::Null),
            Err(e) => return Outcome::fail("no-response", format!("{e}\n{}", op.text)),
        };
        if r["data"] != strip(&want) || r.get("errors").is_some() {
            let codes = r["errors"].to_string();
            if codes.contains("UNAUTHORIZED") {
                return Outcome::fail("privileged-user-refused", format!("{a}\n{b}\n{}\n{}", op.text, truncate(&r.to_string(), 1000)));
            }
            continue;
        }
        for _ in 0..src.range(1, 4) {
            let scopes: Vec<String> = ["a", "b", "c", "d"].iter().filter(|_| src.chance(40)).map(|s| s.to_string()).collect();
            let as_list = src.chance(40);
            let list = if as_list { json!(scopes) } else { json!(scopes.join(" ")) };
            let (auth, header, granted) = match src.n(8) {
                0 | 1 => (false, None, vec![]),
                2 => (false, Some(format!("Bearer {}x", jwt::user_token(json!({"scope": "a b c", "roles": "a b c"})))), vec![]),
                3 => (true, Some(format!("Bearer {}", jwt::user_token(json!({"sub": "x"})))), vec![]),
                // the claim which does not count
                4 if claim.is_some() => (true, Some(format!("Bearer {}", jwt::user_token(json!({"scope": list})))), vec![]),
                _ => (true, Some(format!("Bearer {}", jwt::user_token(match claim { Some(c) => json!({ c: list }), None => json!({(if src.chance(50) { "scope" } else { "scopes" }): list}) }))), scopes.clone()),
            };
            let user = User { auth, scopes: granted.into_iter().collect() };
            let mut ctx = Ctx { api: &s.schemas.api, doc: &doc, rules: &rules, user: &user, vars: &vars, may: Default::default(), excluded: Default::default(), must: Default::default() };
            let mut tree = vec![];
            ctx.build(&o.selection_set, &[o.object_type().to_string()], &[], true, &mut tree);
            s.take();
            let hs: Vec<(&str, &str)> = header.iter().map(|h| ("authorization", h.as_str())).collect();
            let r = match s.router.gql(&op.body(), &hs).await {
                Ok(r) => r,
                Err(e) => return Outcome::fail("no-response", format!("{e}\n{}", op.text)),
            };
            evals += 1;
            sig = crate::tape::mix(sig, hash_str(&format!("{}{:?}", op.text, ctx.must)));
            let got = r.json().unwrap_or(Value::Null);
            let log = s.take();
            let explain = |class: &str, m: String| {
                Outcome::fail(
                    class,
                    format!("{m}\nuser: authenticated {} scopes {:?}; mode {}\noperation: {} {}\nanswer: {}\nforbidden: must {:?} may {:?}\nasked: {}\nsubgraph a:{a}\nsubgraph b:{b}", user.auth, user.scopes, if reject { "reject" } else { "filter" }, op.text, op.variables, truncate(&r.text(), 1500), ctx.must, ctx.may, log.iter().map(|l| format!("{} {}", l.sub, l.query())).collect::<Vec<_>>().join("\n       ")),
                )
            };
            let paths: BTreeSet<String> = got["errors"].as_array().into_iter().flatten().filter(|e| e["extensions"]["code"] == "UNAUTHORIZED_FIELD_OR_TYPE").map(|e| e["extensions"]["affectedPath"].as_str().unwrap_or("").to_string()).collect();
            let others = got["errors"].as_array().into_iter().flatten().any(|e| e["extensions"]["code"] != "UNAUTHORIZED_FIELD_OR_TYPE");
            if others && !reject {
                return explain("unexpected-error", String::new());
            }
            if let Some(p) = ctx.must.difference(&paths).next() {
                return explain("unreported", format!("{p} is forbidden but no error says so"));
            }
            if let Some(p) = paths.difference(&ctx.may).next() {
                return explain("reported-without-reason", format!("{p} is allowed"));
            }
            let mut allowed = 0;
            counts(&tree, &mut allowed);
            hit |= !ctx.must.is_empty() && allowed > 0;
            if reject && !paths.is_empty() {
                blocked = true;
                if !got["data"].is_null() {
                    return explain("rejected-with-data", String::new());
                }
                if !log.is_empty() {
                    return explain("rejected-but-asked", String::new());
                }
                continue;
            }
            let root: Vec<St> = tree.iter().map(|f| f.nonnull.min(if f.frag == St::No { f.state } else { f.state.min(St::May) })).collect();
            let worst = root.iter().max().copied().unwrap_or(St::No);
            if got["data"].is_null() && worst > St::No {
                // the whole answer went
            } else if worst == St::Must {
                return explain("root-not-null", "a non-null root field is forbidden".into());
            } else {
                let fs: Vec<&F> = tree.iter().collect();
                if let Err((c, m)) = ctx.compare(&fs, &want, &got["data"], "data") {
                    return explain(c, m);
                }
            }
            let (mut forbidden, mut fine) = Default::default();
            names(&tree, false, &mut forbidden, &mut fine);
            for l in &log {
                let Ok(d) = ast::Document::parse(l.query(), "q") else { continue };
                let mut asked = BTreeSet::new();
                let mut l_vars = Value::Object(vars.clone());
                for (k, v) in l.body["variables"].as_object().into_iter().flatten() {
                    l_vars[k] = v.clone();
                }
                for x in &d.definitions {
                    match x {
                        ast::Definition::OperationDefinition(o) => asked_names(&d, &o.selection_set, &l_vars, &mut asked),
                        _ => {}
                    }
                }
                for n in asked.iter().filter(|n| forbidden.contains(*n) && !fine.contains(*n) && !ctx.excluded.contains(*n)) {
                    // inputs of other fields may be fetched
                    if !["id", "__typename"].contains(&n.as_str()) && !(n == "name" && fine.contains("badge")) {
                        return explain("forbidden-field-asked", format!("{n} in {}", l.query()));
                    }
                }
            }
            sample.get_or_insert_with(|| truncate(&format!("{} {:?}", op.text, ctx.must), 1200));
        }
    }
    if evals == 0 {
        return Outcome::Discard;
    }
    Outcome::Pass { nontrivial: hit, sig, labels: vec![if reject { "reject mode".into() } else { "filter mode".into() }, if blocked { "a request was rejected".into() } else { "no request rejected".into() }], evals, sample }
}
