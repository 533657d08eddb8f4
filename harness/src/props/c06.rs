//! C06: variable values are coerced by the specification before anything is executed.
use crate::runner::{truncate, BoxFut, Property};
use crate::simple::*;
use crate::tape::{hash_str, mix, Outcome, Src};
use crate::world::interp::RV;
use serde_json::{json, Map, Value};
use std::sync::Arc;

pub fn property() -> Property {
    Property::new("C06", "a case is a router over a schema with one echoing field per input type (on the query root and on an entity of another subgraph) and up to 30 requests: variables of random types with random defaults, given, null or left out, with valid values or values with one random change, used directly, inside list and object literals, in conditions, in skipped parts and in introspection. When any value is invalid by the specification the router must answer with errors, without data and without asking a subgraph; otherwise the answer must be the reference executor's, where each field echoes the arguments it received. Non-trivial: the case had accepted and rejected requests")
        .part("variables", 700, 12000, case)
}

const TYPES: &[&str] = &[
    "Int", "Int!", "Float", "Float!", "String", "String!", "Boolean", "Boolean!", "ID", "ID!", "Color", "Color!", "[Int]", "[Int!]", "[Int!]!", "[[Int]]", "[[Int!]!]!", "[String!]", "[ID!]!", "[Color!]", "[Color]!", "[Boolean]", "[Float!]", "Inp", "Inp!", "[Inp!]", "[Inp]!", "Deep", "Blob", "Blob!", "[Blob]",
];
const ENUM: &[&str] = &["RED", "GREEN", "BLUE"];
/// input types: name, type, default
const INP: &[(&str, &str, Option<&str>)] = &[("i", "Int", None), ("r", "Int!", None), ("d", "Int!", Some("5")), ("s", "String", Some("\"x\"")), ("c", "Color", None), ("l", "[Int!]", None), ("b", "Blob", None), ("n", "Inp", None)];
const DEEP: &[(&str, &str, Option<&str>)] = &[("inp", "Inp", None), ("many", "[Inp!]", None), ("f", "Float", None), ("t", "Boolean!", Some("true"))];

fn schema() -> &'static (String, String) {
    static S: std::sync::OnceLock<(String, String)> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let inputs = |v: &[(&str, &str, Option<&str>)]| v.iter().map(|(n, t, d)| format!("{n}: {t}{}", d.map(|d| format!(" = {d}")).unwrap_or_default())).collect::<Vec<_>>().join(" ");
        let shared = format!("scalar Blob\nenum Color {{ RED GREEN BLUE }}\ninput Inp {{ {} }}\ninput Deep {{ {} }}\n", inputs(INP), inputs(DEEP));
        let fields: String = TYPES.iter().enumerate().map(|(i, t)| format!("  e{i}(a: {t}): Blob\n  d{i}(a: {t}{}): Blob\n", default_of(t).map(|d| format!(" = {d}")).unwrap_or_default())).collect();
        (format!("{shared}type Query {{\n{fields}  thing: Thing }}\ntype Thing @key(fields: \"id\") {{ id: ID! }}\n"), format!("{shared}type Thing @key(fields: \"id\") {{ id: ID!\n{fields} }}\n"))
    })
}

fn default_of(t: &str) -> Option<&'static str> {
    Some(match t {
        "Int" | "Int!" | "Float" | "[Int]" => "3",
        "String" | "ID!" => "\"dflt\"",
        "Color!" => "GREEN",
        "[Int!]!" => "[1, 2]",
        "[[Int]]" => "[[1], null]",
        "Inp" => "{r: 1}",
        "Blob" => "{k: [1]}",
        _ => return None,
    })
}

fn case<'a>(src: &'a mut Src) -> BoxFut<'a> {
    Box::pin(run(src))
}

/// type texts are small enough to work on directly
fn non_null(t: &str) -> Option<&str> {
    t.strip_suffix('!')
}
fn item(t: &str) -> Option<&str> {
    t.strip_prefix('[').and_then(|t| t.strip_suffix(']'))
}
fn input_fields(t: &str) -> Option<&'static [(&'static str, &'static str, Option<&'static str>)]> {
    match t {
        "Inp" => Some(INP),
        "Deep" => Some(DEEP),
        _ => None,
    }
}

#[derive(PartialEq, Clone, Copy, Debug)]
enum V {
    Ok,
    Bad,
    Unsure,
}
fn and(a: V, b: V) -> V {
    match (a, b) {
        (V::Bad, _) | (_, V::Bad) => V::Bad,
        (V::Unsure, _) | (_, V::Unsure) => V::Unsure,
        _ => V::Ok,
    }
}

/// the specification's input coercion rules
fn judge(t: &str, v: &Value) -> V {
    let b = |c: bool| if c { V::Ok } else { V::Bad };
    if let Some(i) = non_null(t) {
        return if v.is_null() { V::Bad } else { judge(i, v) };
    }
    if v.is_null() {
        return V::Ok;
    }
    if let Some(i) = item(t) {
        return match v {
            Value::Array(a) => a.iter().map(|x| judge(i, x)).fold(V::Ok, and),
            // a list of lists takes a plain value as well
            x => judge(i, x),
        };
    }
    if let Some(fs) = input_fields(t) {
        let Value::Object(o) = v else { return V::Bad };
        let mut r = b(o.keys().all(|k| fs.iter().any(|f| f.0 == k)));
        for (n, t, d) in fs {
            r = and(r, match o.get(*n) {
                Some(x) => judge(t, x),
                None => b(non_null(t).is_none() || d.is_some()),
            });
        }
        return r;
    }
    match t {
        "Int" => match v.as_i64() {
            Some(n) => b(i32::try_from(n).is_ok()),
            // "an integer value in any form" is a choice of the implementation
            None if v.as_f64().is_some_and(|f| f.fract() == 0.0 && f.abs() < 2e9) => V::Unsure,
            None => V::Bad,
        },
        "Float" => b(v.is_number()),
        "String" => b(v.is_string()),
        "Boolean" => b(v.is_boolean()),
        "ID" if v.is_f64() && v.as_f64().unwrap().fract() == 0.0 => V::Unsure,
        "ID" => b(v.is_string() || v.is_i64() || v.is_u64()),
        "Color" => b(v.as_str().is_some_and(|s| ENUM.contains(&s))),
        _ => V::Ok,
    }
}

fn good(src: &mut Src, t: &str, depth: usize) -> Value {
    if let Some(i) = non_null(t) {
        loop {
            let v = good(src, i, depth);
            if !v.is_null() {
                return v;
            }
            if src.n(100) == 0 {
                return good_named(src, i, depth);
            }
        }
    }
    if src.chance(12) {
        return Value::Null;
    }
    if let Some(i) = item(t) {
        if src.chance(15) && item(i).is_none() {
            return good(src, i, depth);
        }
        let n = src.n(4);
        return Value::Array((0..n).map(|_| good(src, i, depth)).collect());
    }
    good_named(src, t, depth)
}

fn good_named(src: &mut Src, t: &str, depth: usize) -> Value {
    if let Some(i) = item(t) {
        return json!([good(src, i, depth)]);
    }
    if let Some(fs) = input_fields(t) {
        let mut m = Map::new();
        for (n, ft, d) in fs {
            let need = non_null(ft).is_some() && d.is_none();
            if need || (depth < 3 && src.chance(40)) {
                m.insert(n.to_string(), good(src, ft, depth + 1));
            }
        }
        return Value::Object(m);
    }
    match t {
        "Int" => src.pick(&[json!(0), json!(1), json!(-1), json!(42), json!(2147483647), json!(-2147483648i64)]).clone(),
        "Float" => src.pick(&[json!(0), json!(1.5), json!(-2), json!(1e10), json!(1099511627776i64), json!(-0.25)]).clone(),
        "String" => src.pick(&[json!(""), json!("x"), json!("a\"b\\c\n"), json!("RED"), json!("1"), json!("$v0"), json!("😀é"), json!("\u{0}\u{1f}")]).clone(),
        "Boolean" => json!(src.chance(50)),
        "ID" => src.pick(&[json!("a"), json!(""), json!(7), json!(0), json!(9007199254740993i64), json!("1.5")]).clone(),
        "Color" => json!(*src.pick(ENUM)),
        _ => src.pick(&[json!(1), json!("s"), json!(true), json!([1, "x", null]), json!({"b": 1, "a": {"z": [], "y": null}}), json!(1.25), json!({})]).clone(),
    }
}

const ODD: &[fn() -> Value] = &[
    || json!(null), || json!("x"), || json!(""), || json!("RED"), || json!("red"), || json!(1), || json!(-1), || json!(2147483648i64), || json!(-2147483649i64), || json!(1.5), || json!(1.0), || json!(1e300), || json!(9223372036854775808u64), || json!(true), || json!("true"), || json!("1"), || json!([]), || json!([1]), || json!(["x"]), || json!([null]), || json!([[1]]), || json!([[null]]), || json!({}), || json!({"r": 1}), || json!({"r": null}), || json!({"r": "1"}), || json!({"r": 1, "zz": 1}), || json!({"r": 1, "d": null}), || json!({"inp": {}}), || json!({"inp": {"r": 1, "n": {"i": 1}}}), || json!({"many": {"r": 1}}), || json!({"many": [null]}), || json!({"t": null}),
];

/// changes one place inside the value
fn bend(src: &mut Src, v: &mut Value) {
    if src.chance(55) {
        match v {
            Value::Array(a) if !a.is_empty() => {
                let i = src.n(a.len());
                return bend(src, &mut a[i]);
            }
            Value::Object(o) if !o.is_empty() => {
                let i = src.n(o.len());
                let k = o.keys().nth(i).unwrap().clone();
                if src.chance(20) {
                    o.remove(&k);
                    return;
                }
                return bend(src, o.get_mut(&k).unwrap());
            }
            _ => {}
        }
    }
    if let Value::Object(o) = v {
        if src.chance(40) {
            o.insert("zz".into(), json!(1));
            return;
        }
    }
    *v = src.pick(ODD)();
}

fn literal(t: &str, v: &Value) -> String {
    match v {
        Value::Array(a) => format!("[{}]", a.iter().map(|x| literal(t, x)).collect::<Vec<_>>().join(", ")),
        Value::Object(o) => format!("{{{}}}", o.iter().map(|(k, x)| {
            let ft = input_fields(base(t)).and_then(|f| f.iter().find(|f| f.0 == k)).map(|f| f.1).unwrap_or("Blob");
            format!("{k}: {}", literal(ft, x))
        }).collect::<Vec<_>>().join(", ")),
        Value::String(s) if base(t) == "Color" => s.clone(),
        Value::String(s) => crate::world::opgen::gql_string(s),
        x => x.to_string(),
    }
}
fn base(t: &str) -> &str {
    t.trim_matches(|c| matches!(c, '[' | ']' | '!'))
}

fn resolver() -> Resolver {
    Arc::new(|_, f, args, _| if f.starts_with(['e', 'd']) { Some(RV::Leaf(json!({"args": args}))) } else { None })
}

async fn run(src: &mut Src) -> Outcome {
    let (a, b) = schema();
    let s = match Simple::start(&[("a", a), ("b", b)], "", resolver(), plain()).await {
        Ok(s) => s,
        Err(e) => return Outcome::fail("router-rejects-supergraph", e),
    };
    let res = resolver();
    let (mut evals, mut sig, mut labels, mut sample) = (0, 1, vec![], None);
    let (mut accepted, mut rejected) = (0, 0);
    for _ in 0..src.range(8, 30) {
        let n = src.range(1, 4);
        let (mut defs, mut root, mut ent, mut vars) = (String::new(), String::new(), String::new(), Map::new());
        let mut verdict = V::Ok;
        let mut why = String::new();
        let odd = if src.chance(45) { Some(src.n(n)) } else { None };
        for i in 0..n {
            let ti = src.n(TYPES.len());
            let at = TYPES[ti];
            let with_default_arg = src.chance(40);
            // the position: the argument itself, an item of a list literal, or a field of an object literal
            let mut pos_ty = at.to_string();
            let mut text = format!("$v{i}");
            let nn = at.trim_end_matches('!').to_string();
            if src.chance(25) {
                if let Some(it) = item(&nn) {
                    pos_ty = it.to_string();
                    text = format!("[$v{i}]");
                } else if let Some(fs) = input_fields(&nn) {
                    let f = src.pick(fs);
                    pos_ty = f.1.to_string();
                    let extra = if base(&nn) == "Inp" && f.0 != "r" { ", r: 1" } else { "" };
                    text = format!("{{{}: $v{i}{extra}}}", f.0);
                }
            }
            let mut vt = pos_ty.clone();
            let mut default = None;
            let mut lax = false;
            match src.weighted(&[5, 3, 2]) {
                0 => {}
                1 => {
                    let d = good(src, &vt, 1);
                    // spec: nullable variable with a default may stand in a non-null position
                    if let Some(inner) = non_null(&pos_ty) {
                        if src.chance(50) && !d.is_null() {
                            vt = inner.to_string();
                            lax = true;
                        }
                    }
                    default = Some(d);
                }
                _ => {
                    if non_null(&vt).is_none() {
                        vt.push('!');
                    }
                }
            }
            defs.push_str(&format!("$v{i}: {vt}{} ", default.as_ref().map(|d| format!(" = {}", literal(&vt, d))).unwrap_or_default()));
            let mut v = good(src, &vt, 0);
            if odd == Some(i) {
                bend(src, &mut v);
            }
            let given = !src.chance(18);
            let j = if given {
                judge(&vt, &v)
            } else if default.is_none() && non_null(&vt).is_some() {
                V::Bad
            } else {
                V::Ok
            };
            if given && v.is_null() && lax {
                // an execution error of that field only
                verdict = and(verdict, V::Unsure);
            }
            if !given && default.is_none() && non_null(&pos_ty).is_none() && text.starts_with('[') {
                // a missing variable inside a list literal becomes null; left to the subgraph
                labels.push("missing variable in a list literal".into());
            }
            if j == V::Bad {
                why = format!("{why}$v{i}: {vt} = {} ", if given { v.to_string() } else { "(missing)".into() });
            }
            verdict = and(verdict, j);
            if given {
                vars.insert(format!("v{i}"), v);
            }
            let field = if with_default_arg { format!("d{ti}") } else { format!("e{ti}") };
            let dirs = match src.n(20) {
                0 => " @skip(if: false)",
                1 => " @include(if: true)",
                2 => " @skip(if: true)",
                3 => " @include(if: false)",
                _ => "",
            };
            let sel = format!("k{i}: {field}(a: {text}){dirs} ");
            if src.chance(35) {
                ent.push_str(&sel);
            } else {
                root.push_str(&sel);
            }
        }
        if src.chance(25) {
            // a condition
            let (vt, default) = if src.chance(50) { ("Boolean!", None) } else { ("Boolean! = true", Some(true)) };
            defs.push_str(&format!("$cond: {vt} "));
            root.push_str(&format!("c: e{}(a: true) @{}(if: $cond) ", TYPES.iter().position(|t| *t == "Boolean").unwrap(), if src.chance(50) { "skip" } else { "include" }));
            match src.n(6) {
                0 => verdict = and(verdict, if default.is_some() { V::Ok } else { V::Bad }),
                1 => {
                    vars.insert("cond".into(), src.pick(ODD)());
                    verdict = and(verdict, judge("Boolean!", &vars["cond"]));
                }
                _ => {
                    vars.insert("cond".into(), json!(src.chance(50)));
                }
            }
        }
        if src.chance(15) {
            vars.insert("unknown".into(), json!({"x": 1}));
        }
        let mut text = format!("query({defs}) {{ __typename {root}");
        if !ent.is_empty() {
            text.push_str(&format!("thing {{ __typename {ent}}} "));
        }
        text.push('}');
        let vars = Value::Object(vars);
        if verdict == V::Unsure {
            labels.push("not judged".into());
            continue;
        }
        let expected = match s.reference(&res, &text, None, &vars) {
            Ok(v) => v,
            // apollo-compiler wants no null in literals of a non-null custom scalar
            Err(e) if e.contains("Blob!") => {
                labels.push("not judged".into());
                continue;
            }
            Err(e) => crate::runner::harness_error(format!("C06 generated an invalid operation: {e}\n{text}")),
        };
        s.take();
        let mut body = json!({"query": text});
        if vars != json!({}) || src.chance(50) {
            body["variables"] = vars.clone();
        }
        let resp = match s.router.gql(&body, &[]).await {
            Ok(r) => r,
            Err(e) => return Outcome::fail("no-response", format!("{e}\noperation: {text}\nvariables: {vars}")),
        };
        let asked = s.take();
        evals += 1;
        sig = mix(sig, hash_str(&body.to_string()));
        let v: Value = resp.json().unwrap_or(Value::Null);
        let what = |k: &str| format!("{k}\noperation: {text}\nvariables: {vars}\nrouter: {} {}\nexpected data: {expected}\ninvalid: {why}\nsubgraph requests: {}", resp.status, truncate(&resp.text(), 2000), asked.iter().map(|a| a.body.to_string()).collect::<Vec<_>>().join("\n  "));
        if verdict == V::Bad {
            rejected += 1;
            if !asked.is_empty() || v.get("data").is_some_and(|d| !d.is_null()) {
                return Outcome::fail("invalid-variables-executed", what("invalid variable values were accepted"));
            }
            if !v["errors"].as_array().is_some_and(|e| !e.is_empty()) {
                return Outcome::fail("no-errors", what("invalid variable values are answered without errors"));
            }
            sample.get_or_insert_with(|| format!("{text} with {vars} => {}", truncate(&resp.text(), 200)));
            labels.push("rejected".to_string());
        } else {
            accepted += 1;
            if v.get("errors").is_some_and(|e| !e.is_null()) {
                return Outcome::fail("valid-variables-rejected", what("valid variable values lead to errors"));
            }
            if v["data"] != expected {
                return Outcome::fail("arguments-differ", what("the fields did not receive the coerced arguments"));
            }
            labels.push("accepted".to_string());
        }
    }
    Outcome::Pass { nontrivial: accepted > 0 && rejected > 0, sig, labels, evals, sample }
}
