//! C18: an answer does not depend on what was asked before or at the same time.
use crate::runner::{truncate, BoxFut, Property};
use crate::simple::*;
use crate::tape::{hash_str, mix, Outcome, Src};
use crate::world::interp::RV;
use crate::world::opgen::{gen_op, OpCfg};
use apollo_compiler::{ast, Name, Node};
use bytes::Bytes;
use serde_json::{json, Value};
use std::sync::Arc;

pub fn property() -> Property {
    Property::new("C18", "a case is a router (request and subgraph deduplication on or off, all or selected headers in the key, a propagated user header which a field answers with) and up to 30 operations: a few generated ones and neighbours of them one AST edit away (a field moved into or out of a fragment, conditions added, removed or exchanged, literals of another kind or nesting, aliases, type conditions, variable defaults, several operations per document), sent in concurrent bursts by different users with repetitions, over slow subgraphs. The second part sends one operation at the same moment with variable values that are nearly the same (adjacent large integers, 1 and 1.0 and \"1\" and [1] and true, members moved between nested objects and lists, strings which look like separators) and with headers and operation names that are nearly the same. Every answer must be the reference executor's for that operation, variables and user; a difference counts only if a fresh router answers otherwise. Non-trivial: some request was answered without a subgraph request of its own, or at least 5 different neighbours were answered")
        .part("histories", 160, 4000, case)
        .part("variables", 160, 6000, |s| Box::pin(twins(s)))
        .workers(16)
}

fn case<'a>(src: &'a mut Src) -> BoxFut<'a> {
    Box::pin(run(src))
}

const SDL_A: &str = r#"
scalar Blob
enum Color { RED GREEN }
interface Node { id: ID! label(a: Blob): String }
type User implements Node @key(fields: "id") { id: ID! label(a: Blob): String name: String me: String friend: Node age(a: Blob): Int }
type Pet implements Node @key(fields: "id") { id: ID! label(a: Blob): String name: String owner: User age(a: Blob): Int }
union Any = User | Pet
type Query { user(a: Blob): User node(a: Blob): Node any: [Any] me: String n(a: Blob b: In c: Color d: [Int]): Int }
input In { x: Int y: [In] z: Blob s: String }
"#;
const SDL_B: &str = r#"
scalar Blob
type User @key(fields: "id") { id: ID! score(a: Blob): Float secret: String }
type Query { other: String }
"#;

fn resolver() -> Resolver {
    Arc::new(|_, f, _, _| match f {
        "me" | "secret" => Some(RV::Leaf(json!("@USER@"))),
        _ => None,
    })
}
fn user_of(h: &http::HeaderMap) -> String {
    h.get_all("x-user").iter().map(|v| v.as_bytes().iter().map(|b| format!("{b:02x}")).collect::<String>()).collect::<Vec<_>>().join(",")
}
fn hook(delay: u64) -> Hook {
    Arc::new(move |seen, v| {
        let text = v.to_string().replace("@USER@", &user_of(&seen.headers));
        Box::pin(async move {
            if delay > 0 {
                tokio::time::sleep(std::time::Duration::from_millis(delay)).await;
            }
            crate::mock::raw_resp(200, &[("content-type", "application/json")], text)
        })
    })
}

fn value(src: &mut Src, d: usize) -> ast::Value {
    let n = Name::new_unchecked;
    match src.n(if d > 1 { 10 } else { 14 }) {
        0 => ast::Value::Int(1.into()),
        1 => ast::Value::Int(0.into()),
        2 => ast::Value::Float(1.0f64.into()),
        3 => ast::Value::Boolean(src.chance(50)),
        4 => ast::Value::Null,
        5 => ast::Value::String(src.pick(&["null", "RED", "1", "true", "", "b", "b0"]).to_string()),
        6 => ast::Value::Enum(n(*src.pick(&["RED", "b", "b0"]))),
        7 | 8 => ast::Value::Variable(n(*src.pick(&["b0", "b1", "s"]))),
        9 | 10 => ast::Value::List((0..src.n(3)).map(|_| Node::new(value(src, d + 1))).collect()),
        _ => {
            let mut keys = vec!["x", "y", "z", "s"];
            (0..src.n(3)).for_each(|_| {
                let i = src.n(keys.len());
                keys.remove(i);
            });
            ast::Value::Object(keys.into_iter().map(|k| (n(k), Node::new(value(src, d + 1)))).collect())
        }
    }
}

/// all selection sets of the operation, in order; `f` gets the one with number `at`
fn nth<R>(sel: &mut Vec<ast::Selection>, at: &mut usize, f: &mut dyn FnMut(&mut Vec<ast::Selection>) -> R) -> Option<R> {
    if *at == 0 {
        return Some(f(sel));
    }
    *at -= 1;
    for s in sel.iter_mut() {
        let sub = match s {
            ast::Selection::Field(x) if !x.selection_set.is_empty() => &mut x.make_mut().selection_set,
            ast::Selection::InlineFragment(x) => &mut x.make_mut().selection_set,
            _ => continue,
        };
        if let Some(r) = nth(sub, at, f) {
            return Some(r);
        }
    }
    None
}
fn count(sel: &[ast::Selection]) -> usize {
    1 + sel
        .iter()
        .map(|s| match s {
            ast::Selection::Field(x) if !x.selection_set.is_empty() => count(&x.selection_set),
            ast::Selection::InlineFragment(x) => count(&x.selection_set),
            _ => 0,
        })
        .sum::<usize>()
}
fn cond(src: &mut Src) -> Node<ast::Directive> {
    Node::new(ast::Directive {
        name: Name::new_unchecked(*src.pick(&["skip", "include"])),
        arguments: vec![Node::new(ast::Argument { name: Name::new_unchecked("if"), value: Node::new(ast::Value::Variable(Name::new_unchecked(*src.pick(&["b0", "b1"])))) })],
    })
}

fn edit(src: &mut Src, text: &str) -> Option<String> {
    let mut d = ast::Document::parse(text, "q").ok()?;
    let di = src.n(d.definitions.len());
    let (set, vars): (&mut Vec<ast::Selection>, Option<&mut Vec<Node<ast::VariableDefinition>>>) = match &mut d.definitions[di] {
        ast::Definition::OperationDefinition(o) => {
            let o = o.make_mut();
            (&mut o.selection_set, Some(&mut o.variables))
        }
        ast::Definition::FragmentDefinition(f) => (&mut f.make_mut().selection_set, None),
        _ => return None,
    };
    if let Some(vars) = vars {
        if !vars.is_empty() && src.chance(8) {
            let i = src.n(vars.len());
            let v = vars[i].make_mut();
            v.default_value = if v.ty.is_non_null() { Some(Node::new(ast::Value::Boolean(src.chance(50)))) } else if src.chance(30) { None } else { Some(Node::new(value(src, 1))) };
            return Some(d.to_string());
        }
    }
    let mut at = src.n(count(set));
    let mut f = |set: &mut Vec<ast::Selection>| -> bool {
        let i = src.n(set.len());
        match src.n(9) {
            // out of a fragment
            0 | 1 => {
                let Some(k) = set.iter().position(|s| matches!(s, ast::Selection::InlineFragment(f) if f.selection_set.len() > 1)) else { return false };
                let ast::Selection::InlineFragment(f) = &mut set[k] else { return false };
                let x = f.make_mut().selection_set.pop().unwrap();
                set.insert(k + 1, x);
            }
            // into the fragment before it
            2 | 3 => {
                let Some(k) = (1..set.len()).find(|k| matches!(set[k - 1], ast::Selection::InlineFragment(_))) else { return false };
                let x = set.remove(k);
                let ast::Selection::InlineFragment(f) = &mut set[k - 1] else { return false };
                f.make_mut().selection_set.push(x);
            }
            4 => {
                let ds = match &mut set[i] {
                    ast::Selection::Field(f) => &mut f.make_mut().directives,
                    ast::Selection::InlineFragment(f) => &mut f.make_mut().directives,
                    ast::Selection::FragmentSpread(f) => &mut f.make_mut().directives,
                };
                if !ds.is_empty() && src.chance(40) {
                    ds.clear();
                } else {
                    let c = cond(src);
                    if ds.iter().any(|d| d.name == c.name) {
                        ds.clear();
                    }
                    ds.push(c);
                }
            }
            5 | 6 => {
                let Some(k) = set.iter().position(|s| matches!(s, ast::Selection::Field(f) if !f.arguments.is_empty())) else { return false };
                let ast::Selection::Field(f) = &mut set[k] else { return false };
                let f = f.make_mut();
                let j = src.n(f.arguments.len());
                let v = value(src, 0);
                let a = f.arguments[j].make_mut();
                let old = a.value.clone();
                a.value = match src.n(4) {
                    0 => Node::new(ast::Value::List(vec![old])),
                    1 => match &*old {
                        ast::Value::String(s) => Node::new(ast::Value::Enum(Name::new(s).unwrap_or(Name::new_unchecked("b0")))),
                        ast::Value::Enum(s) => Node::new(ast::Value::Variable(s.clone())),
                        ast::Value::Variable(s) => Node::new(ast::Value::String(s.to_string())),
                        ast::Value::List(l) if l.len() == 1 => l[0].clone(),
                        _ => Node::new(v),
                    },
                    _ => Node::new(v),
                };
            }
            7 => {
                let ast::Selection::Field(f) = &mut set[i] else { return false };
                let f = f.make_mut();
                f.alias = if f.alias.is_some() { None } else { Some(Name::new_unchecked(*src.pick(&["k1", "k2"]))) };
            }
            _ => {
                if set.len() > 1 {
                    set.remove(i);
                } else {
                    let ast::Selection::InlineFragment(f) = &mut set[i] else { return false };
                    f.make_mut().type_condition = src.pick(&[None, Some("User"), Some("Pet"), Some("Node")]).map(Name::new_unchecked);
                }
            }
        }
        true
    };
    match nth(set, &mut at, &mut f) {
        Some(true) => Some(d.to_string()),
        _ => None,
    }
}

/// declares exactly the variables an operation uses
fn with_vars(text: &str) -> Option<String> {
    let mut d = ast::Document::parse(text, "q").ok()?;
    let defs = ast::Document::parse("query($b0: Boolean! = true, $b1: Boolean! = false, $s: Blob = \"b0\") { x }", "v").ok()?;
    let ast::Definition::OperationDefinition(defs) = &defs.definitions[0] else { return None };
    let frags: String = d.definitions.iter().filter(|x| matches!(x, ast::Definition::FragmentDefinition(_))).map(|x| x.to_string()).collect();
    for def in d.definitions.iter_mut() {
        if let ast::Definition::OperationDefinition(o) = def {
            let o = o.make_mut();
            let old = std::mem::take(&mut o.variables);
            let body = format!("{o} {frags}");
            for v in &defs.variables {
                if body.contains(&format!("${}", v.name)) {
                    o.variables.push(old.iter().find(|x| x.name == v.name).unwrap_or(v).clone());
                }
            }
        }
    }
    Some(d.to_string())
}

async fn run(src: &mut Src) -> Outcome {
    let selected = src.chance(40);
    let dedupe = src.chance(75);
    let yaml = format!(
        "headers:\n  all:\n    request:\n      - propagate:\n          named: x-user\ntraffic_shaping:\n  router:\n    dedupe:\n      enabled: {dedupe}\n      headers: {}\n  all:\n    dedupe_enabled: {}\n",
        if selected { "{ include: [x-user] }" } else { "all" },
        src.chance(75)
    );
    let delay = src.n(8) as u64;
    let subs = [("a", SDL_A), ("b", SDL_B)];
    let s = match Simple::start(&subs, &yaml, resolver(), hook(delay)).await {
        Ok(s) => s,
        Err(e) => return Outcome::fail("router-rejects-supergraph", e),
    };
    let api = &s.schemas.api;
    let res = resolver();
    // a family of neighbours
    let mut pool: Vec<(String, Option<String>)> = vec![];
    for _ in 0..src.range(1, 3) {
        let text = match src.n(5) {
            0 => "{ node { id ... on User { me name } label } n(a: 1) }".to_string(),
            1 => "{ n(a: [1], b: {x: 1, y: {x: 2}}, c: RED, d: [1, 2]) user(a: {x: \"b\"}) { score(a: null) me secret } }".to_string(),
            2 => "{ any { ... on User { me friend { ... on Pet { name } id } } ... on Pet { name owner { me } } } me }".to_string(),
            _ => gen_op(src, api, &OpCfg { variables: false, max_depth: 4, ..OpCfg::default() }).text,
        };
        pool.extend(with_vars(&text).map(|t| (t, None)));
    }
    if pool.is_empty() {
        return Outcome::Discard;
    }
    for _ in 0..src.range(4, 26) {
        let i = src.n(pool.len());
        let (t, name) = pool[i].clone();
        if src.chance(7) && name.is_none() {
            // two operations in one document
            let j = src.n(pool.len());
            let (t2, n2) = pool[j].clone();
            if n2.is_none() && (t.starts_with("query") || t.starts_with('{')) && (t2.starts_with("query") || t2.starts_with('{')) && !t.contains("fragment ") && !t2.contains("fragment ") {
                let named = |t: &str, n: &str| if t.starts_with('{') { format!("query {n} {t}") } else { t.replacen("query", &format!("query {n}"), 1) };
                let both = format!("{} {}", named(&t, "A"), named(&t2, "B"));
                pool.push((both.clone(), Some("A".into())));
                pool.push((both, Some("B".into())));
            }
            continue;
        }
        if let Some(t2) = edit(src, &t).and_then(|t| with_vars(&t)) {
            if apollo_compiler::ExecutableDocument::parse_and_validate(api, &t2, "q").is_ok() {
                pool.push((t2, name));
            }
        }
    }
    let users: Vec<Vec<u8>> = vec![b"anna".to_vec(), b"ben".to_vec(), "zoë".as_bytes().to_vec(), "zoé".as_bytes().to_vec(), b"".to_vec()];
    let (mut evals, mut sig, mut shared) = (0, 1, 0);
    let mut sample = None;
    for _ in 0..src.range(2, 6) {
        let mut burst = vec![];
        let focus = src.n(pool.len());
        let all = [json!({}), json!({"b0": false}), json!({"b1": true}), json!({"s": "x"}), json!({"s": 1}), json!({"s": true}), json!({"s": null}), json!({"s": [1]}), json!({"s": {"x": 1}}), json!({"b0": false, "b1": true}), json!({"b0": true, "b1": true}), json!({"s": 9007199254740992u64}), json!({"s": 9007199254740993u64}), json!({"s": 1.0}), json!({"s": [[1]]}), json!({"s": {"x": 9007199254740993u64}}), json!({"s": {"x": 9007199254740992u64}}), json!({"s": ["x", "y"]}), json!({"s": ["x,y"]}), json!({"s": {"x": 1, "y": 2}}), json!({"s": {"x": {"y": 2}}}), json!({"s": false}), json!({"s": 0}), json!({"s": "1"})];
        let at = src.n(all.len());
        let near: Vec<Value> = if src.chance(60) { (0..3).map(|k| all[(at + k) % all.len()].clone()).collect() } else { (0..3).map(|_| src.pick(&all).clone()).collect() };
        for _ in 0..src.range(1, 10) {
            let k = if src.chance(45) { focus } else { src.n(pool.len()) };
            let many = if src.chance(70) { 2 } else { users.len() };
            let user: Vec<Vec<u8>> = (0..*src.pick(&[0, 1, 1, 1, 1, 1, 1, 1, 2, 3])).map(|_| users[src.n(many)].clone()).collect();
            let vars = src.pick(&near).clone();
            burst.push((pool[k].clone(), user, vars, src.chance(50)));
        }
        s.take();
        let sends = burst.iter().map(|((t, name), user, vars, noise)| {
            let mut body = json!({"query": t, "variables": vars});
            if let Some(n) = name {
                body["operationName"] = json!(n);
            }
            let mut h: Vec<(String, Vec<u8>)> = vec![("content-type".into(), b"application/json".to_vec())];
            for u in user.iter() {
                h.push(("x-user".into(), u.clone()));
            }
            if *noise {
                h.push(("x-noise".into(), b"1".to_vec()));
            }
            let router = &s.router;
            async move { router.try_send("POST", "/graphql", &h, Bytes::from(body.to_string())).await }
        });
        let answers = futures::future::join_all(sends).await;
        let asked = s.take().len();
        let mut needed = 0;
        for (((t, name), user, vars, _), a) in burst.iter().zip(answers) {
            evals += 1;
            sig = mix(sig, hash_str(&format!("{t}{vars}{user:?}")));
            let a = match a {
                Ok(a) => a,
                Err(e) => return Outcome::fail("no-response", format!("{e}\n{t}")),
            };
            let who: String = user.iter().map(|u| u.iter().map(|b| format!("{b:02x}")).collect::<String>()).collect::<Vec<_>>().join(",");
            let Ok(expected) = s.reference(&res, t, name.as_deref(), vars) else { continue };
            needed += 1;
            let expected: Value = serde_json::from_str(&expected.to_string().replace("@USER@", &who)).unwrap();
            let got: Value = a.json().unwrap_or(Value::Null);
            if got["data"] != expected {
                // is this the operation's own problem?
                let fresh = match Simple::start(&subs, &yaml, resolver(), hook(0)).await {
                    Ok(s) => s,
                    Err(e) => return Outcome::fail("router-rejects-supergraph", e),
                };
                let mut body = json!({"query": t, "variables": vars});
                if let Some(n) = name {
                    body["operationName"] = json!(n);
                }
                let mut h: Vec<(String, Vec<u8>)> = vec![("content-type".into(), b"application/json".to_vec())];
                for u in user.iter() {
                    h.push(("x-user".into(), u.clone()));
                }
                let f = match fresh.router.try_send("POST", "/graphql", &h, Bytes::from(body.to_string())).await {
                    Ok(f) => f.json().unwrap_or(Value::Null),
                    Err(e) => return Outcome::fail("no-response", format!("{e}\n{t}")),
                };
                if f == got {
                    continue;
                }
                return Outcome::fail(
                    "answer-depends-on-history",
                    format!("config: {yaml}\noperation: {t}\nname: {name:?} variables: {vars} user: {:?} ({who})\nanswer: {}\nfresh router: {f}\nexpected: {expected}\nthe same burst:\n{}\nall operations:\n{}", user.iter().map(|u| String::from_utf8_lossy(u).to_string()).collect::<Vec<_>>(), truncate(&a.text(), 1500), burst.iter().map(|b| format!("{:?} {:?} {} | {}", b.1.iter().map(|u| String::from_utf8_lossy(u).to_string()).collect::<Vec<_>>(), b.2, b.0 .1.clone().unwrap_or_default(), b.0 .0)).collect::<Vec<_>>().join("\n"), pool.iter().map(|p| p.0.clone()).collect::<Vec<_>>().join("\n")),
                );
            }
        }
        if asked < needed {
            shared += needed - asked;
        }
        sample.get_or_insert_with(|| truncate(&format!("{:?}", pool.iter().take(3).collect::<Vec<_>>()), 1200));
    }
    Outcome::Pass { nontrivial: shared > 0 || pool.len() >= 5, sig, labels: vec![if shared > 0 { "requests were shared".into() } else { "no request shared".into() }], evals, sample }
}

fn blob(src: &mut Src, d: usize) -> Value {
    match src.n(if d > 2 { 7 } else { 10 }) {
        0 => json!(*src.pick(&[0i64, 1, -1, 2, 255, 4294967296, 9007199254740992, 9007199254740993, -9007199254740993, i64::MAX, i64::MAX - 1, i64::MIN])),
        1 => json!(*src.pick(&[9223372036854775808u64, 9223372036854775809, u64::MAX, u64::MAX - 1])),
        2 => json!(*src.pick(&[0.5, 1.5, 0.1, 0.30000000000000004, 1e300, -2.25])),
        3 => json!(*src.pick(&["", "1", "null", "true", "a", "b", "ab", "a,b", "a\",\"b", "[]", "{}", "x", "\u{0}"])),
        4 => json!(src.chance(50)),
        5 => Value::Null,
        6 => json!(src.n(4)),
        7 | 8 => Value::Array((0..src.n(4)).map(|_| blob(src, d + 1)).collect()),
        _ => {
            let mut m = serde_json::Map::new();
            for _ in 0..src.n(4) {
                m.insert(src.pick(&["x", "y", "z", "a", "b", "ab"]).to_string(), blob(src, d + 1));
            }
            Value::Object(m)
        }
    }
}

/// a value that is nearly `v`
fn near(src: &mut Src, v: &Value) -> Value {
    match v {
        Value::Number(n) => {
            if let Some(i) = n.as_i64() {
                match src.n(6) {
                    0 => json!(i.wrapping_add(1)),
                    1 => json!(i.wrapping_sub(1)),
                    2 => json!(i.to_string()),
                    3 => json!(i.wrapping_neg()),
                    4 => json!([i]),
                    _ => json!(i as u64),
                }
            } else if let Some(u) = n.as_u64() {
                match src.n(3) {
                    0 => json!(u ^ 1),
                    1 => json!(u as i64),
                    _ => json!(u.to_string()),
                }
            } else {
                let f = n.as_f64().unwrap();
                match src.n(3) {
                    0 => json!(f64::from_bits(f.to_bits() ^ 1)),
                    1 => json!(-f),
                    _ => json!(n.to_string()),
                }
            }
        }
        Value::String(s) => match src.n(5) {
            0 => json!([s]),
            1 => serde_json::from_str(s).unwrap_or(Value::Null),
            2 => json!(format!("{s} ")),
            3 => json!(s.to_uppercase()),
            _ => json!({ s: null }),
        },
        Value::Bool(b) => src.pick(&[json!(!b), json!(*b as u8), json!(b.to_string()), Value::Null]).clone(),
        Value::Null => src.pick(&[json!("null"), json!([]), json!({}), json!(0), json!(""), json!(false)]).clone(),
        Value::Array(l) => {
            let mut l = l.clone();
            if l.is_empty() {
                return src.pick(&[json!([[]]), json!({}), json!([null]), Value::Null]).clone();
            }
            let i = src.n(l.len());
            match src.n(6) {
                0 => l.reverse(),
                1 => {
                    let x = l.pop().unwrap();
                    l.push(json!([x]));
                }
                2 => {
                    // [[a], b] <-> [[a, b]] and [a, b] <-> [a, [b]]
                    let x = l.remove(i);
                    match l.get_mut(i.saturating_sub(1)) {
                        Some(Value::Array(p)) => p.push(x),
                        Some(p) => {
                            let q = p.take();
                            *p = json!([q, x]);
                        }
                        None => return x,
                    }
                }
                3 => {
                    let x = l[i].clone();
                    l.insert(i, x);
                }
                _ => l[i] = near(src, &l[i].clone()),
            }
            Value::Array(l)
        }
        Value::Object(m) => {
            let mut m = m.clone();
            let keys: Vec<String> = m.keys().cloned().collect();
            if keys.is_empty() {
                return src.pick(&[json!([]), json!({"x": null}), Value::Null]).clone();
            }
            let k = src.pick(&keys).clone();
            let x = m.remove(&k).unwrap();
            match src.n(5) {
                0 => {
                    m.insert(format!("{k}b"), x);
                }
                1 => {
                    // into or out of the neighbour
                    match m.values_mut().find_map(|v| v.as_object_mut()) {
                        Some(o) => {
                            o.insert(k, x);
                        }
                        None => {
                            m.insert(k.clone(), json!({ k: x }));
                        }
                    }
                }
                2 => {
                    if let Some(y) = m.values_mut().next() {
                        let y = std::mem::replace(y, x);
                        m.insert(k, y);
                    }
                }
                _ => {
                    let y = near(src, &x);
                    m.insert(k, y);
                }
            }
            Value::Object(m)
        }
    }
}

async fn twins(src: &mut Src) -> Outcome {
    let selected = src.chance(40);
    let yaml = format!(
        "headers:\n  all:\n    request:\n      - propagate:\n          named: x-user\n      - propagate:\n          named: x-tenant\ntraffic_shaping:\n  router:\n    dedupe:\n      enabled: {}\n      headers: {}\n  all:\n    dedupe_enabled: {}\n",
        src.chance(85),
        if selected { "{ include: [x-user, x-tenant] }" } else { "all" },
        src.chance(75)
    );
    let subs = [("a", SDL_A), ("b", SDL_B)];
    let tenant: Hook = Arc::new(|seen, v| {
        let who = |n: &str| seen.headers.get_all(n).iter().map(|v| String::from_utf8_lossy(v.as_bytes()).to_string()).collect::<Vec<_>>().join(";");
        let text = v.to_string().replace("@USER@", &format!("{}|{}", who("x-user"), who("x-tenant")));
        Box::pin(async move {
            tokio::time::sleep(std::time::Duration::from_millis(12)).await;
            crate::mock::raw_resp(200, &[("content-type", "application/json")], text)
        })
    });
    let s = match Simple::start(&subs, &yaml, resolver(), tenant.clone()).await {
        Ok(s) => s,
        Err(e) => return Outcome::fail("router-rejects-supergraph", e),
    };
    let res = resolver();
    let texts = [
        "query($s: Blob, $t: Blob) { n(a: $s) m: n(a: $t) }",
        "query($s: Blob, $t: Blob) { n(a: {x: $s, y: $t}) me }",
        "query($s: Blob, $t: Blob) { user(a: $s) { score(a: $t) me } }",
        "query A($s: Blob, $t: Blob) { n(a: [$s, $t]) } query B($s: Blob, $t: Blob) { n(a: [$t, $s]) other }",
        "query($s: Blob, $t: Blob) { node(a: $s) { label(a: $t) ... on User { me score(a: [$s]) } } }",
    ];
    let (mut evals, mut sig, mut differ) = (0, 1, 0);
    let mut sample = None;
    for _ in 0..src.range(2, 5) {
        let text = *src.pick(&texts);
        let (a, b) = (blob(src, 0), blob(src, 0));
        let mut all: Vec<Value> = vec![json!({"s": a, "t": b})];
        for _ in 0..src.range(1, 4) {
            let from = src.pick(&all).clone();
            let mut v = from.clone();
            match src.n(6) {
                0 => {
                    v["s"] = from["t"].clone();
                    v["t"] = from["s"].clone();
                }
                1 => {
                    v.as_object_mut().unwrap().remove(*src.pick(&["s", "t"]));
                }
                _ => {
                    let k = *src.pick(&["s", "t"]);
                    v[k] = near(src, &from[k]);
                }
            }
            all.push(v);
        }
        let heads: [Vec<(&str, &str)>; 6] = [vec![], vec![("x-user", "ab"), ("x-tenant", "c")], vec![("x-user", "a"), ("x-tenant", "bc")], vec![("x-user", "c"), ("x-tenant", "ab")], vec![("x-user", "ab")], vec![("x-tenant", "ab")]];
        let first = src.n(heads.len());
        let varied = src.chance(40);
        let mut burst = vec![];
        for _ in 0..src.range(2, 6) {
            let h = heads[if varied { src.n(heads.len()) } else { first }].clone();
            let name = text.starts_with("query A").then(|| *src.pick(&["A", "B"]));
            burst.push((src.pick(&all).clone(), h, name));
        }
        let make = |(vars, h, name): &(Value, Vec<(&str, &str)>, Option<&str>)| {
            let mut body = json!({"query": text, "variables": vars});
            if let Some(n) = name {
                body["operationName"] = json!(n);
            }
            let mut hs: Vec<(String, Vec<u8>)> = vec![("content-type".into(), b"application/json".to_vec())];
            hs.extend(h.iter().map(|(k, v)| (k.to_string(), v.as_bytes().to_vec())));
            (hs, Bytes::from(body.to_string()))
        };
        let answers = futures::future::join_all(burst.iter().map(|b| {
            let (hs, body) = make(b);
            let r = &s.router;
            async move { r.try_send("POST", "/graphql", &hs, body).await }
        })).await;
        for (one, a) in burst.iter().zip(answers) {
            evals += 1;
            sig = mix(sig, hash_str(&format!("{one:?}")));
            differ += (one != &burst[0]) as usize;
            let got = match a {
                Ok(a) => a.json().unwrap_or(Value::Null),
                Err(e) => return Outcome::fail("no-response", format!("{e}\n{text}")),
            };
            let Ok(expected) = s.reference(&res, text, one.2, &one.0) else { continue };
            let who = |n: &str| one.1.iter().find(|x| x.0 == n).map(|x| x.1).unwrap_or("");
            let expected: Value = serde_json::from_str(&expected.to_string().replace("@USER@", &format!("{}|{}", who("x-user"), who("x-tenant")))).unwrap();
            if got["data"] != expected {
                let fresh = match Simple::start(&subs, &yaml, resolver(), tenant.clone()).await {
                    Ok(s) => s,
                    Err(e) => return Outcome::fail("router-rejects-supergraph", e),
                };
                let (hs, body) = make(one);
                let f = match fresh.router.try_send("POST", "/graphql", &hs, body).await {
                    Ok(f) => f.json().unwrap_or(Value::Null),
                    Err(e) => return Outcome::fail("no-response", format!("{e}\n{text}")),
                };
                if f != got {
                    return Outcome::fail("answer-depends-on-history", format!("config: {yaml}\noperation: {text}\nrequest: {one:?}\nanswer: {got}\nfresh router: {f}\nexpected: {expected}\nthe same burst: {burst:?}"));
                }
            }
        }
        sample.get_or_insert_with(|| truncate(&format!("{text} {burst:?}"), 1200));
    }
    Outcome::Pass { nontrivial: differ > 0, sig, labels: vec!["near variables".into()], evals, sample }
}
