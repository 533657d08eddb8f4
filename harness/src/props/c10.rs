//! C10: clients see exactly the public API schema.
use crate::runner::{truncate, BoxFut, Property};
use crate::simple::*;
use crate::tape::{hash_str, mix, Outcome, Src};
use crate::world::interp::{effective_vars, RV};
use crate::world::opgen::{gen_meta, gen_op, OpCfg};
use apollo_compiler::introspection::partial_execute;
use apollo_compiler::request::coerce_variable_values;
use apollo_compiler::schema::ExtendedType;
use apollo_compiler::validation::Valid;
use apollo_compiler::{ast, executable as ex, ExecutableDocument};
use serde_json::{json, Value};
use std::sync::Arc;

pub fn property() -> Property {
    Property::new("C10", "introspection: a case is a generated supergraph (two subgraphs; descriptions, deprecations, default values of all kinds, interfaces implementing interfaces, unions, @inaccessible and @tag on any element, @specifiedBy, @oneOf) and introspection operations: the standard one and generated ones with aliases, fragments, conditions and variables, some next to ordinary fields. The answer must equal apollo-compiler's introspection of the API schema (lists as sets). policy: introspection switched off, on, or decided by an expression over the request; operations with and without introspection fields in any nesting and disguise. hidden: subgraphs answer with inaccessible enum values and types; they must not reach the client. Non-trivial: the schema has at least one @inaccessible element or the policy both refused and allowed something")
        .part("introspection", 220, 6000, |s: &mut Src| -> BoxFut<'_> { Box::pin(introspection(s)) })
        .part("policy", 80, 1500, |s: &mut Src| -> BoxFut<'_> { Box::pin(policy(s)) })
        .part("hidden", 120, 3000, |s: &mut Src| -> BoxFut<'_> { Box::pin(hidden(s)) })
        .workers(10)
}

const DESC: &[&str] = &["", "", "\"short\" ", "\"\"\"\n  several\n    lines \\\"\\\"\\\"\n  of text\n\"\"\" ", "\"with \\\"quotes\\\" and \\u00e9 \\n\" ", "\"\"\" one line block \"\"\" "];

struct G<'a> {
    src: &'a mut Src,
    hide: u64,
}
impl G<'_> {
    fn desc(&mut self) -> &'static str {
        if self.src.chance(70) {
            ""
        } else {
            self.src.pick(DESC)
        }
    }
    fn marks(&mut self, dep: bool) -> String {
        let mut o = String::new();
        if self.src.chance(self.hide) {
            o += " @inaccessible";
        }
        if self.src.chance(7) {
            o += " @tag(name: \"t\")";
        }
        if dep && self.src.chance(15) {
            o += self.src.pick(&[" @deprecated", " @deprecated(reason: \"because \\\"x\\\"\")", " @deprecated(reason: \"\")", " @deprecated(reason: \"No longer supported\")"]);
        }
        o
    }
    fn args(&mut self) -> String {
        if self.src.chance(60) {
            return String::new();
        }
        let n = self.src.range(1, 3);
        let l: Vec<String> = (0..n)
            .map(|i| {
                let t = self.src.pick(INS).to_string();
                let d = self.default(&t);
                // composition refuses hiding or deprecating required arguments
                let free = !t.ends_with('!') || !d.is_empty();
                format!("{}p{i}: {t}{d}{}", self.desc(), if free { self.marks(true) } else { String::new() })
            })
            .collect();
        format!("({})", l.join(" "))
    }
    fn default(&mut self, t: &str) -> String {
        if self.src.chance(50) {
            return String::new();
        }
        let v = match t {
            "Int" | "Int!" => *self.src.pick(&["1", "-5", "0"]),
            "Float" => *self.src.pick(&["1.5", "2", "-1e10", "0.0"]),
            "String" => *self.src.pick(&["\"x\"", "\"a\\\"b\\\\ \\n\"", "null", "\"\"\"block \"q\" \"\"\""]),
            "Boolean!" => "true",
            "ID" => *self.src.pick(&["7", "\"x\""]),
            "E" | "[E!]" => *self.src.pick(&["A", "B"]),
            "[Int!]" => *self.src.pick(&["[1, 2]", "[]", "3", "null"]),
            "[[String]]" => *self.src.pick(&["[[\"a\", null], []]", "[]"]),
            "I" => *self.src.pick(&["{x: 1}", "{}", "{x: 1, y: {s: \"z\", l: [1]}}", "null"]),
            "S" => *self.src.pick(&["{k: [1, \"s\", E]}", "5", "\"x\"", "[true]"]),
            _ => return String::new(),
        };
        format!(" = {v}")
    }
    fn fields(&mut self, prefix: &str, keep: usize) -> String {
        let n = self.src.range(keep.max(1), 4);
        (0..n)
            .map(|i| {
                let t = *self.src.pick(OUTS);
                let m = if i < keep { String::new() } else { self.marks(true) };
                format!("  {}{prefix}{i}{}: {t}{m}\n", self.desc(), self.args())
            })
            .collect()
    }
}
const INS: &[&str] = &["Int", "Int!", "Float", "String", "Boolean!", "ID", "E", "[E!]", "[Int!]", "[[String]]", "I", "J", "S", "I!"];
const OUTS: &[&str] = &["Int", "Int!", "Float", "String!", "[String]", "E", "[E!]!", "S", "T0", "T1", "[T1!]", "F", "H", "U", "[[U]]"];

fn sdl(src: &mut Src) -> String {
    let hide = *src.pick(&[0, 5, 12]);
    let one_of = src.chance(25);
    let mut g = G { src, hide };
    let mut o = String::new();
    let spec = g.src.chance(50);
    let (d, m) = (g.desc(), g.marks(false));
    o += &format!("{d}scalar S{}{m}\n", if spec { " @specifiedBy(url: \"https://x/y\")" } else { "" });
    o += &format!("{}enum E{} {{ A{} B C{} {}D{} }}\n", g.desc(), g.marks(false), g.marks(true), g.marks(true), g.desc(), g.marks(true));
    let ti = *g.src.pick(&["J", "I", "[I!]"]);
    o += &format!("{}input I{} {{ x: Int{} {} y: J{} n: {ti} e: E = B{} }}\n", g.desc(), g.marks(false), g.default("Int"), g.desc(), g.marks(true), g.marks(true));
    o += &format!("input J{} {{ s: String{}{} l: [Int!]{}{} b: Boolean! = false }}\n", g.marks(false), g.default("String"), g.marks(true), g.default("[Int!]"), g.marks(true));
    if one_of {
        o += "input O @oneOf { a: Int b: String }\n";
    }
    o += &format!("{}interface F{} {{ id: ID! {} }}\n", g.desc(), g.marks(false), "f: String");
    o += &format!("{}interface H implements F{} {{ id: ID! f: String h(a: Int = 1): [Int] }}\n", g.desc(), g.marks(false));
    let fs = g.fields("x", 0);
    o += &format!("{}type T0 implements F & H{} {{ id: ID! f: String h(a: Int = 1{}): [Int]{}\n{fs}}}\n", g.desc(), g.marks(false), "", g.marks(true));
    let fs = g.fields("y", 1);
    o += &format!("type T1 implements F{} {{ id: ID!{} f: String\n{fs}}}\n", g.marks(false), "");
    o += &format!("{}union U{} = T0 | T1 | T2\n", g.desc(), g.marks(false));
    let fs = g.fields("z", 1);
    o += &format!("type T2{} {{ {fs} }}\n", g.marks(false));
    let fs = g.fields("q", 2);
    o += &format!("{}type Query {{ k: Int {}\n{fs}}}\n", g.desc(), if one_of { "o(o: O): Int" } else { "" });
    if g.src.chance(50) {
        let fs = g.fields("w", 1);
        o += &format!("type Mutation {{ {fs} }}\n");
    }
    o
}

const FULL: &str = "query I($d: Boolean! = true) { __schema { queryType { name kind } mutationType { name } subscriptionType { name } types { kname: name ...T } } } fragment T on __Type { kind name description specifiedByURL fields(includeDeprecated: $d) { name description args(includeDeprecated: $d) { ...V } type { ...R } isDeprecated deprecationReason } inputFields(includeDeprecated: $d) { ...V } interfaces { ...R } enumValues(includeDeprecated: $d) { name description isDeprecated deprecationReason } possibleTypes { ...R } } fragment V on __InputValue { name description type { ...R } defaultValue isDeprecated deprecationReason } fragment R on __Type { kind name ofType { kind name ofType { kind name ofType { kind name ofType { kind name } } } } }";

const OWN: &[&str] = &["__Schema", "__Type", "__Field", "__InputValue", "__EnumValue", "__TypeKind", "__Directive", "__DirectiveLocation", "Int", "Float", "String", "Boolean", "ID"];

/// numbers in one notation
fn numbers(s: &str) -> String {
    let mut o = String::new();
    let mut word = String::new();
    for c in s.chars().chain([' ']) {
        if c.is_ascii_alphanumeric() || "-+._".contains(c) {
            word.push(c);
            continue;
        }
        match word.parse::<f64>() {
            Ok(x) if word.contains(|c: char| c.is_ascii_digit()) => o += &x.to_string(),
            _ => o += &word,
        }
        word.clear();
        o.push(c);
    }
    o
}

/// lists as sets, default values without insignificant blanks
fn canon(v: &Value) -> Value {
    match v {
        Value::Array(l) => {
            // the definitions of introspection itself and the built-in scalars are the server's own
            let own = |x: &&Value| x["kname"].as_str().is_none_or(|n| !OWN.contains(&n));
            let mut l: Vec<Value> = l.iter().filter(own).map(|x| canon(x)).collect();
            l.sort_by_key(|x| x.to_string());
            Value::Array(l)
        }
        Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), canon(v))).collect()),
        Value::String(s) => match apollo_compiler::ast::Document::parse(format!("{{ f(a: {s}) }}"), "d") {
            Ok(d) => json!(numbers(&d.to_string())),
            Err(_) => v.clone(),
        },
        _ => v.clone(),
    }
}

/// paths at which two answers differ
fn diff(a: &Value, b: &Value, at: String, out: &mut Vec<String>) {
    if out.len() > 5 || a == b {
        return;
    }
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for k in x.keys().chain(y.keys().filter(|k| !x.contains_key(*k))) {
                diff(x.get(k).unwrap_or(&json!("<missing>")), y.get(k).unwrap_or(&json!("<missing>")), format!("{at}.{k}"), out);
            }
        }
        (Value::Array(x), Value::Array(y)) => {
            let key = |v: &Value| v["kname"].as_str().or(v["name"].as_str()).map(|s| s.to_string());
            let keys = |l: &[Value]| l.iter().filter_map(key).collect::<Vec<_>>();
            if x.len() == y.len() && keys(x).len() == x.len() && keys(x).iter().collect::<std::collections::BTreeSet<_>>() == keys(y).iter().collect() {
                for a in x {
                    if let Some(b) = y.iter().find(|b| key(b) == key(a)) {
                        diff(a, b, format!("{at}[{}]", key(a).unwrap()), out);
                    }
                }
                return;
            }
            let only: Vec<&Value> = x.iter().filter(|v| !y.contains(v)).collect();
            let other: Vec<&Value> = y.iter().filter(|v| !x.contains(v)).collect();
            if only.len() == 1 && other.len() == 1 {
                return diff(only[0], other[0], format!("{at}[{}]", only[0]["name"]), out);
            }
            out.push(format!("{at}: expected only: {} got only: {}", truncate(&json!(only).to_string(), 600), truncate(&json!(other).to_string(), 600)));
        }
        _ => out.push(format!("{at}: expected {a} got {b}")),
    }
}

/// `args` and `inputFields` list deprecated input values unless asked otherwise (tests of the repository demand it)
fn list_all(sels: &mut [ast::Selection], vars: &std::collections::HashMap<String, Value>) {
    for s in sels {
        match s {
            ast::Selection::Field(f) => {
                let f = f.make_mut();
                if f.name == "args" || f.name == "inputFields" {
                    let given = f.arguments.iter().find(|a| a.name == "includeDeprecated").map(|a| (*a.value).clone());
                    let unset = match &given {
                        None | Some(ast::Value::Null) => true,
                        Some(ast::Value::Variable(v)) => vars.get(v.as_str()).is_none_or(|v| v.is_null()),
                        _ => false,
                    };
                    if unset {
                        f.arguments.retain(|a| a.name != "includeDeprecated");
                        f.arguments.push(ast::Argument { name: apollo_compiler::name!("includeDeprecated"), value: ast::Value::Boolean(true).into() }.into());
                    }
                }
                list_all(&mut f.selection_set, vars)
            }
            ast::Selection::InlineFragment(f) => list_all(&mut f.make_mut().selection_set, vars),
            ast::Selection::FragmentSpread(_) => {}
        }
    }
}

async fn introspection(src: &mut Src) -> Outcome {
    let mut found = None;
    for _ in 0..12 {
        let a = sdl(src);
        let b = if src.chance(50) { "type Query { other: String @deprecated }\nenum E { A B C D }\n".to_string() } else { "\"\"\"second\"\"\" type Query { other(a: Int = 2): String }\n".to_string() };
        match try_schemas(&[("a", &a), ("b", &b)]) {
            Ok(_) => {
                found = Some((a, b));
                break;
            }
            Err(e) => {
                if std::env::var("VERIF_DEBUG").is_ok() {
                    eprintln!("composition: {}", truncate(&e, 300));
                }
            }
        }
    }
    let Some((a, b)) = found else { return Outcome::Discard };
    let s = match Simple::start(&[("a", &a), ("b", &b)], "", auto(), plain()).await {
        Ok(s) => s,
        Err(e) => return Outcome::fail("router-rejects-supergraph", format!("{e}\n{a}")),
    };
    // the descriptions of the built-in scalars are the server's own
    let q = "{ Int: __type(name: \"Int\") { description } Float: __type(name: \"Float\") { description } String: __type(name: \"String\") { description } Boolean: __type(name: \"Boolean\") { description } ID: __type(name: \"ID\") { description } }";
    let d = match s.router.gql(&json!({"query": q}), &[]).await {
        Ok(r) => r.json().unwrap_or(Value::Null),
        Err(e) => return Outcome::fail("no-response", e),
    };
    let mut api = s.schemas.api.clone().into_inner();
    for (name, def) in api.types.iter_mut() {
        if let (ExtendedType::Scalar(x), Some(d)) = (def, d["data"][name.as_str()]["description"].as_str()) {
            x.make_mut().description = Some(d.into());
        }
    }
    let api = &Valid::assume_valid(api);
    let impls = api.implementers_map();
    let (mut evals, mut sig) = (0, hash_str(&a));
    let mut sample = None;
    for k in 0..src.range(2, 7) {
        let (text, vars) = if k == 0 {
            (FULL.to_string(), json!({"d": src.chance(60)}))
        } else {
            let op = gen_meta(src, api, &OpCfg { max_depth: 6, ..OpCfg::default() });
            (op.text.clone(), op.variables.clone())
        };
        let Ok(doc) = ExecutableDocument::parse_and_validate(api, &text, "q") else { continue };
        let Ok(op) = doc.operations.get(None) else { continue };
        let ev = effective_vars(api, op, &vars);
        let mut given = apollo_compiler::response::JsonMap::new();
        for (k, v) in &ev {
            given.insert(k.as_str(), serde_json::from_value(v.clone()).unwrap());
        }
        let Ok(mut adapted) = ast::Document::parse(text.as_str(), "q") else { continue };
        let known: std::collections::HashMap<String, Value> = ev.clone().into_iter().collect();
        for d in &mut adapted.definitions {
            match d {
                ast::Definition::OperationDefinition(o) => list_all(&mut o.make_mut().selection_set, &known),
                ast::Definition::FragmentDefinition(f) => list_all(&mut f.make_mut().selection_set, &known),
                _ => {}
            }
        }
        // (no validation: a variable may now be unused)
        let adapted = adapted.to_executable(api);
        let Ok(adapted) = adapted else { continue };
        let doc = Valid::assume_valid(adapted);
        let Ok(op) = doc.operations.get(None) else { continue };
        let Ok(cv) = coerce_variable_values(api, op, &given) else { continue };
        let Ok(meta) = partial_execute(api, &impls, &doc, op, &cv) else { continue };
        let Ok(meta) = serde_json::to_value(&meta) else { continue };
        if !meta["errors"].is_null() {
            continue;
        }
        let mut expected = meta["data"].clone();
        let ordinary = op.root_fields(&doc).any(|f| !f.name.starts_with("__"));
        s.take();
        let r = match s.router.gql(&json!({"query": text, "variables": vars}), &[]).await {
            Ok(r) => r,
            Err(e) => return Outcome::fail("no-response", format!("{e}\n{text}\n{a}")),
        };
        evals += 1;
        sig = mix(sig, hash_str(&text));
        let got: Value = r.json().unwrap_or(Value::Null);
        if ordinary {
            // of the ordinary fields next to them, only that they are there: other checks judge their values
            let (Some(e), Some(g)) = (expected.as_object_mut(), got["data"].as_object()) else { continue };
            for f in op.root_fields(&doc).filter(|f| !f.name.starts_with("__")) {
                let k = f.response_key().to_string();
                if let Some(v) = g.get(&k) {
                    e.insert(k, v.clone());
                }
            }
        }
        let (e, g) = (canon(&expected), canon(&got["data"]));
        if e != g || (!ordinary && !got["errors"].is_null()) {
            let mut d = vec![];
            diff(&e, &g, String::new(), &mut d);
            return Outcome::fail("wrong-introspection", format!("{}\noperation: {text}\nvariables: {vars}\nexpected: {}\nanswer: {}\nsubgraph a:\n{a}\nsubgraph b: {b}\n{}", d.join("\n"), truncate(&expected.to_string(), 1500), truncate(&r.text(), 1500), s.schemas.api_sdl));
        }
        let asked = s.take();
        let named = op.root_fields(&doc).any(|f| f.name == "__typename");
        if !ordinary && !named && !asked.is_empty() {
            return Outcome::fail("introspection-asks-subgraph", format!("{text}\n{}", asked[0].body));
        }
        sample.get_or_insert_with(|| truncate(&text, 600));
    }
    let nt = a.contains("@inaccessible");
    Outcome::Pass { nontrivial: nt, sig, labels: vec![if nt { "with inaccessible elements".into() } else { "all accessible".into() }], evals, sample }
}

async fn policy(src: &mut Src) -> Outcome {
    let subs = [("a", "type Query { name: String t: T }\ntype T { name: String }\ntype Mutation { m: Int }\n")];
    let mode = src.n(5);
    let yaml = match mode {
        0 => "introspection: false\n",
        1 => "introspection: true\n",
        2 => "introspection:\n  expression: '.request.headers.\"x-key\" == \"open\"'\n",
        3 => "introspection:\n  expression: '.request.operation.name == \"Allowed\"'\n",
        _ => "introspection: false\ntraffic_shaping:\n  router:\n    dedupe:\n      enabled: true\n      headers: all\n",
    };
    let s = match Simple::start(&subs, yaml, auto(), plain()).await {
        Ok(s) => s,
        Err(e) => return Outcome::fail("router-does-not-start", e),
    };
    let (mut evals, mut sig, mut refused, mut served) = (0, hash_str(yaml), 0, 0);
    for _ in 0..src.range(4, 16) {
        let name = *src.pick(&["Allowed", "Other", "IntrospectionQuery"]);
        // (text, uses introspection, has a data field)
        let (body, intro) = match src.n(14) {
            0 => ("{ __schema { queryType { name } } }".to_string(), true),
            1 => ("{ x: __type(name: \"T\") { kind } name }".to_string(), true),
            2 => ("{ name ...F } fragment F on Query { t { name } ...G } fragment G on Query { s: __schema { types { name } } }".to_string(), true),
            3 => ("{ ... { ... on Query { __type(name: \"T\") { name } } } }".to_string(), true),
            4 => ("{ name __schema @include(if: true) { __typename } }".to_string(), true),
            5 => ("{ ... @include(if: true) { __schema { __typename } } }".to_string(), true),
            6 => ("{ __typename name t { __typename name } }".to_string(), false),
            7 => ("{ name: __typename }".to_string(), false),
            8 => ("{ __schema: name  __type: name }".replace("__schema: ", "schema: ").replace("__type: ", "type: "), false),
            9 => ("{ t { name } }".to_string(), false),
            10 => ("{ n: name } fragment Unused on Query { name }".replace(" fragment Unused on Query { name }", ""), false),
            11 => ("{ t { __typename } ... on Query { k: __schema { queryType { fields { name } } } } }".to_string(), true),
            12 => ("{ name t { name } __schema { mutationType { name } } }".to_string(), true),
            _ => ("MUT".to_string(), true),
        };
        let text = if body == "MUT" { format!("mutation {name} {{ m __schema {{ queryType {{ name }} }} }}") } else { format!("query {name} {body}") };
        let mut h: Vec<(&str, &str)> = vec![];
        let key = *src.pick(&["open", "closed", ""]);
        if !key.is_empty() {
            h.push(("x-key", key));
        }
        s.take();
        let r = match s.router.gql(&json!({"query": text}), &h).await {
            Ok(r) => r,
            Err(e) => return Outcome::fail("no-response", e),
        };
        let asked = s.take();
        evals += 1;
        sig = mix(sig, hash_str(&text));
        let open = match mode {
            0 | 4 => false,
            1 => true,
            2 => key == "open",
            _ => name == "Allowed",
        };
        let j: Value = r.json().unwrap_or(Value::Null);
        let explain = |c: &str| Outcome::fail(c, format!("{yaml}{text}\n{h:?}\n{} {}\nsubgraph requests {}", r.status, r.text(), asked.len()));
        if body == "MUT" {
            // the meta fields belong to queries only
            if r.status == 200 && !j["data"].is_null() || !asked.is_empty() {
                return explain("introspection-in-mutation");
            }
            continue;
        }
        if intro && !open {
            refused += 1;
            if j["data"].is_object() || j["errors"].as_array().is_none_or(|e| e.is_empty()) {
                return explain("introspection-not-refused");
            }
            if !asked.is_empty() {
                return explain("refused-but-executed");
            }
        } else {
            served += 1;
            if !j["data"].is_object() || !j["errors"].is_null() {
                return explain("refused-without-reason");
            }
        }
    }
    Outcome::Pass { nontrivial: refused > 0 && served > 0, sig, labels: vec!["policy".into()], evals, sample: None }
}

const HA: &str = r#"
enum Color { RED GREEN HIDDEN @inaccessible }
interface Node { id: ID! name: String }
type Pub implements Node @key(fields: "id") { id: ID! name: String c: Color cs: [Color] cn: Color! secret: String @inaccessible }
type Hid implements Node @inaccessible { id: ID! name: String }
union Any = Pub | Oth | Hid
type Oth { c: Color x(c: Color): [[Color!]] }
type Query { c: Color cs: [Color!] cl: [Color]! node: Node nodes: [Node] any: Any anys: [Any!] pub: Pub pubs: [Pub!]! hid: Hid @inaccessible }
"#;
const HB: &str = r#"
enum Color { RED GREEN HIDDEN @inaccessible }
type Pub @key(fields: "id") { id: ID! d: Color ds: [[Color]] dn: [Color!] peer: Pub }
type Query { bc: Color }
"#;

async fn hidden(src: &mut Src) -> Outcome {
    let seed = src.n(1 << 20) as u64;
    let pick = move |t: &str, f: &str, a: &Value, id: u64| hash_str(&format!("{seed}{t}{f}{a}{id}"));
    // `show`: what a subgraph says; otherwise what a client may see of it
    let make = move |show: bool| -> Resolver {
        Arc::new(move |t, f, a, id| {
            let h = pick(t, f, a, id);
            let color = |h: u64| match h % 5 {
                0 if show => RV::Leaf(json!("HIDDEN")),
                0 => RV::Null,
                1 | 2 => RV::Leaf(json!("RED")),
                _ => RV::Leaf(json!("GREEN")),
            };
            let thing = |h: u64, node: bool| match h % 4 {
                0 if show => obj("Hid", h % 50),
                0 => RV::Null,
                1 if !node => obj("Oth", h % 50),
                _ => obj("Pub", h % 50),
            };
            let list = |n: u64, f: &dyn Fn(u64) -> RV| RV::List((0..n).map(|i| f(hash_str(&format!("{h}{i}")))).collect());
            Some(match f {
                "c" | "d" | "bc" | "cn" => color(h),
                "cs" | "cl" | "dn" => list(h % 3 + 1, &color),
                "ds" | "x" => list(2, &|k| RV::List(vec![color(k), color(k / 7)])),
                "node" => thing(h, true),
                "nodes" => list(h % 3 + 1, &|k| thing(k, true)),
                "any" => thing(h, false),
                "anys" => list(h % 3 + 1, &|k| thing(k, false)),
                _ => return None,
            })
        })
    };
    let s = match Simple::start(&[("a", HA), ("b", HB)], "", make(true), plain()).await {
        Ok(s) => s,
        Err(e) => return Outcome::fail("router-rejects-supergraph", e),
    };
    let api = &s.schemas.api;
    let (mut evals, mut sig, mut met) = (0, seed, 0);
    let mut sample = None;
    for _ in 0..src.range(2, 7) {
        let conditions = src.chance(30);
        let op = gen_op(src, api, &OpCfg { max_depth: 4, conditions, ..OpCfg::default() });
        let Ok(doc) = ExecutableDocument::parse_and_validate(api, &op.text, "q") else { continue };
        let Ok(expected) = s.reference(&make(false), &op.text, op.name.as_deref(), &op.variables) else { continue };
        s.take();
        let r = match s.router.gql(&op.body(), &[]).await {
            Ok(r) => r,
            Err(e) => return Outcome::fail("no-response", format!("{e}\n{}", op.text)),
        };
        evals += 1;
        sig = mix(sig, hash_str(&op.text));
        let got: Value = r.json().unwrap_or(Value::Null);
        let explain = |c: &str| Outcome::fail(c, format!("operation: {}\nvariables: {}\nexpected: {expected}\nanswer: {}\nsubgraph requests:\n{}", op.text, op.variables, truncate(&r.text(), 1500), s.take().iter().map(|x| x.body.to_string()).collect::<Vec<_>>().join("\n")));
        let data = got["data"].to_string();
        if data.contains("HIDDEN") || data.contains("\"Hid\"") {
            return explain("inaccessible-value-shown");
        }
        // the runtime type of a value is only known if it was asked for
        let knows = !doc_has_untyped(&doc);
        if knows && got["data"] != expected {
            return explain("wrong-data");
        }
        met += (expected.to_string().contains("null")) as usize;
        sample.get_or_insert_with(|| truncate(&op.text, 500));
    }
    Outcome::Pass { nontrivial: met > 0, sig, labels: vec!["hidden".into()], evals, sample }
}

/// some selection on an abstract type does not plainly select __typename
fn doc_has_untyped(doc: &ExecutableDocument) -> bool {
    fn set(s: &ex::SelectionSet) -> bool {
        let abstr = ["Node", "Any"].contains(&s.ty.as_str());
        let typed = s.selections.iter().any(|x| matches!(x, ex::Selection::Field(f) if f.name == "__typename" && f.directives.is_empty() && f.alias.is_none()));
        abstr && !typed
            || s.selections.iter().any(|x| match x {
                ex::Selection::Field(f) => set(&f.selection_set),
                ex::Selection::InlineFragment(f) => set(&f.selection_set),
                _ => true,
            })
    }
    doc.operations.iter().any(|o| set(&o.selection_set))
}
