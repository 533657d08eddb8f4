//! C05: an operation is executed if and only if the GraphQL specification says it is valid.
use crate::runner::{truncate, BoxFut, Property};
use crate::simple::*;
use crate::tape::{hash_str, mix, Outcome, Src};
use crate::world::opgen::{gen_op, OpCfg};
use apollo_compiler::ast::Document;
use apollo_compiler::ExecutableDocument;
use serde_json::{json, Value};

pub fn property() -> Property {
    Property::new("C05", "a case is a router over a fixed rich schema with up to 40 operations: generated valid ones, and the same with one to three token-level mutations (names exchanged or invented, tokens dropped, duplicated or moved, literals exchanged, definitions repeated). Only texts which parse are judged: the router must execute exactly the ones apollo-compiler's validator accepts, and for a rejected one answer with errors, without data and without asking a subgraph. Non-trivial: the case had accepted and rejected operations")
        .part("operations", 900, 15000, case)
}

pub const SDL_A: &str = r#"
scalar Blob
enum Color { RED GREEN BLUE }
interface Node { id: ID! label(upper: Boolean = false): String }
interface Named implements Node { id: ID! label(upper: Boolean = false): String name: String }
type User implements Node & Named @key(fields: "id") { id: ID! label(upper: Boolean = false): String name: String age(unit: Int!): Int friends(first: Int = 2, filter: Filter): [User!] best: User color: Color data: Blob }
type Pet implements Node & Named @key(fields: "id") { id: ID! label(upper: Boolean = false): String name: String age: String owner: User! kind(c: Color = RED): Color }
type Rock implements Node @key(fields: "id") { id: ID! label(upper: Boolean = false): String weight: Float! parts: [[Rock]] }
union Thing = User | Pet | Rock
input Filter { min: Int max: Int! = 10 color: Color names: [String!] sub: Filter blob: Blob }
type Query { user(id: ID!): User users(f: Filter, ids: [ID!]): [User!]! node(id: ID!): Node named: Named thing: Thing things(c: [Color!] = [RED], x: Float, req: Filter!): [Thing] pet: Pet blob(b: Blob): Blob flag(b: Boolean!): Boolean }
type Mutation { setUser(id: ID!, f: Filter): User bump(by: Int = 1): Int! }
type Subscription { tick(n: Int): Int! userEvents(id: ID!): User }
"#;
pub const SDL_B: &str = r#"
type User @key(fields: "id") { id: ID! score(scale: Float = 1.5): Float tags(f: [TagIn!]): [String!]! }
input TagIn { t: String! w: Int = 3 }
type Query { scores(t: TagIn): [Float] }
"#;

fn case<'a>(src: &'a mut Src) -> BoxFut<'a> {
    Box::pin(run(src))
}

fn tokens(s: &str) -> Vec<String> {
    let b: Vec<char> = s.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c.is_whitespace() || c == ',' {
            i += 1;
            continue;
        }
        let st = i;
        if c == '"' {
            let block = b.get(i + 1) == Some(&'"') && b.get(i + 2) == Some(&'"');
            i += if block { 3 } else { 1 };
            loop {
                if i >= b.len() {
                    break;
                }
                if block {
                    if b[i] == '"' && b.get(i + 1) == Some(&'"') && b.get(i + 2) == Some(&'"') {
                        i += 3;
                        break;
                    }
                } else if b[i] == '\\' {
                    i += 1;
                } else if b[i] == '"' {
                    i += 1;
                    break;
                }
                i += 1;
            }
        } else if c == '.' {
            while i < b.len() && b[i] == '.' {
                i += 1;
            }
        } else if c.is_alphanumeric() || c == '_' || c == '-' {
            i += 1;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_' || ((b[i] == '.' || b[i] == '+' || b[i] == '-') && (c.is_ascii_digit() || c == '-'))) {
                i += 1;
            }
        } else {
            i += 1;
        }
        out.push(b[st..i.min(b.len())].iter().collect());
    }
    out
}

/// the codes with which the validation phase answers
const RULES: &[&str] = &[
    "GRAPHQL_VALIDATION_FAILED", "GRAPHQL_PARSE_FAILED", "UniqueOperationNames", "LoneAnonymousOperation", "SingleFieldSubscriptions", "KnownTypeNames", "FragmentsOnCompositeTypes", "VariablesAreInputTypes", "LeafFieldSelections", "UniqueFragmentNames", "FieldsOnCorrectType", "UniqueVariableNames",
    "OverlappingFieldsCanBeMerged", "NoFragmentsCycle", "PossibleFragmentSpreads", "NoUnusedFragments", "KnownArgumentNames", "NoUndefinedVariables", "KnownFragmentNames", "UniqueArgumentNames", "UniqueInputFieldNames", "NoUnusedVariables", "ValuesOfCorrectType", "ProvidedRequiredArguments", "KnownDirectives", "VariablesInAllowedPosition",
    "UniqueDirectivesPerLocation", "KnownInputFieldNames", "VariableDefaultValue", "DefaultValuesOfCorrectType", "ExecutableDefinitions", "NoDeprecatedCustom",
];
const NAMES: &[&str] = &[
    "id", "label", "name", "age", "friends", "best", "color", "data", "owner", "kind", "weight", "parts", "score", "tags", "user", "users", "node", "named", "thing", "things", "pet", "blob", "flag", "scores", "__typename", "User", "Pet", "Rock", "Node", "Named", "Thing", "Query", "Mutation",
    "Filter", "Color", "Int", "String", "Boolean", "ID", "Float", "RED", "GREEN", "BLUE", "min", "max", "names", "sub", "f", "t", "w", "if", "skip", "include", "unit", "first", "filter", "upper", "c", "x", "b", "req", "nope", "F0", "F1", "v0", "v1", "true", "false", "null", "on", "query", "mutation", "subscription", "deprecated", "__schema", "ids", "scale",
];
const LITS: &[&str] = &["1", "0", "-1", "1.5", "\"x\"", "\"RED\"", "RED", "PURPLE", "true", "null", "[1]", "[]", "{}", "{max: 1}", "{min: 1, min: 2}", "{t: \"a\"}", "[RED]", "[\"a\"]", "$v0", "$nope", "{max: null}", "2147483648", "[[1]]", "{sub: {min: \"x\"}}", "[null]", "1e3", "\"\"\"b\"\"\""];

fn mutate(src: &mut Src, text: &str) -> String {
    let mut t = tokens(text);
    for _ in 0..src.weighted(&[0, 6, 3, 1]) {
        if t.is_empty() {
            break;
        }
        let is_name = |s: &str| s.starts_with(|c: char| c.is_alphabetic() || c == '_');
        let is_lit = |s: &str| s.starts_with(|c: char| c.is_ascii_digit() || c == '-' || c == '"') || matches!(s, "true" | "false" | "null" | "RED" | "GREEN" | "BLUE");
        match src.n(12) {
            0..=2 => {
                let names: Vec<usize> = (0..t.len()).filter(|i| is_name(&t[*i])).collect();
                if !names.is_empty() {
                    let i = *src.pick(&names);
                    t[i] = src.pick(NAMES).to_string();
                }
            }
            3 => {
                // exchange two names of the operation
                let names: Vec<usize> = (0..t.len()).filter(|i| is_name(&t[*i])).collect();
                if names.len() > 1 {
                    let (a, b) = (*src.pick(&names), *src.pick(&names));
                    t.swap(a, b);
                }
            }
            4 | 5 => {
                let lits: Vec<usize> = (0..t.len()).filter(|i| is_lit(&t[*i])).collect();
                if !lits.is_empty() {
                    let i = *src.pick(&lits);
                    t[i] = src.pick(LITS).to_string();
                }
            }
            6 => {
                // drop a bracketed group
                let opens: Vec<usize> = (0..t.len()).filter(|i| matches!(t[*i].as_str(), "(" | "{" | "[")).collect();
                if !opens.is_empty() {
                    let i = *src.pick(&opens);
                    if let Some(j) = close(&t, i) {
                        t.drain(i..=j);
                    }
                }
            }
            7 => {
                // duplicate a bracketed group's first item (name [: value])
                let i = src.n(t.len());
                let n = src.range(1, 3).min(t.len() - i);
                let dup: Vec<String> = t[i..i + n].to_vec();
                for (k, x) in dup.into_iter().enumerate() {
                    t.insert(i + n + k, x);
                }
            }
            8 => {
                let i = src.n(t.len());
                let n = src.range(1, 3).min(t.len() - i);
                t.drain(i..i + n);
            }
            9 => {
                // insert something small
                let i = src.n(t.len() + 1);
                let ins = *src.pick(&["id", "__typename", "@skip(if: true)", "@include(if: $v0)", "@nope", "x: id", "id: label", "... on Pet { age }", "... on User { age(unit: 1) }", "...F0", "(id: 1)", "(id: 1, id: 2)", "{ id }", "a: name", "a: id", "!", "= 1", "... { id }", "@skip(if: true) @skip(if: false)", "@deprecated", "age", "age(unit: 1)", "age(unit: 2)", "$v0: Int"]);
                t.insert(i, ins.to_string());
            }
            10 => {
                // repeat or extend definitions
                let extra = *src.pick(&["fragment F0 on User { id }", "fragment F9 on User { ...F9 }", "fragment A on User { ...B } fragment B on User { ...A }", "query Other { pet { id } }", "{ pet { id } }", "fragment X on Filter { min }", "fragment X on Color { a }", "subscription S { tick }", "subscription S { tick a: tick }", "fragment F0 on Nope { id }", "mutation M { bump }", "type T { a: Int }", "extend type User { z: Int }"]);
                t.push(extra.to_string());
            }
            _ => {
                let names: Vec<usize> = (0..t.len()).filter(|i| t[*i] == "$").collect();
                if !names.is_empty() {
                    let i = *src.pick(&names);
                    if i + 1 < t.len() {
                        t[i + 1] = src.pick(&["v0", "v1", "v2", "zz"]).to_string();
                    }
                }
            }
        }
    }
    t.join(" ")
}

fn close(t: &[String], i: usize) -> Option<usize> {
    let mut d = 0;
    for (j, x) in t.iter().enumerate().skip(i) {
        match x.as_str() {
            "(" | "{" | "[" => d += 1,
            ")" | "}" | "]" => {
                d -= 1;
                if d == 0 {
                    return Some(j);
                }
            }
            _ => {}
        }
    }
    None
}

async fn run(src: &mut Src) -> Outcome {
    let s = match Simple::start(&[("a", SDL_A), ("b", SDL_B)], "", auto(), plain()).await {
        Ok(s) => s,
        Err(e) => return Outcome::fail("router-rejects-supergraph", e),
    };
    let api = &s.schemas.api;
    let (mut evals, mut sig, mut labels, mut sample) = (0, 1, vec![], None);
    let (mut good, mut bad) = (0, 0);
    for _ in 0..src.range(10, 40) {
        let cfg = OpCfg { kind: if src.chance(15) { "mutation" } else { "query" }, max_depth: 4, introspection: src.chance(20), ..OpCfg::default() };
        let op = gen_op(src, api, &cfg);
        let mutated = src.chance(75);
        let text = if mutated { mutate(src, &op.text) } else { op.text.clone() };
        if Document::parse(&text, "q").is_err() {
            labels.push("syntax error (not judged)".to_string());
            continue;
        }
        let verdict = ExecutableDocument::parse_and_validate(api, &text, "q");
        // which operation runs is not the question here: with several, name the first
        let name = Document::parse(&text, "q").ok().and_then(|d| {
            let ops: Vec<Option<String>> = d.definitions.iter().filter_map(|d| d.as_operation_definition()).map(|o| o.name.as_ref().map(|n| n.to_string())).collect();
            if ops.len() > 1 { ops.into_iter().flatten().next() } else { None }
        });
        if let Ok(d) = &verdict {
            // subscriptions need another transport, and an operation must exist
            if d.operations.get(name.as_deref()).map(|o| o.is_subscription()).unwrap_or(true) {
                continue;
            }
        }
        if verdict.as_ref().err().is_some_and(|e| { let t = e.to_string(); t.contains("expected value of type Blob, found") }) {
            // apollo-compiler wants no variables in the literals of custom scalars
            labels.push("validator is too strict (not judged)".to_string());
            continue;
        }
        s.take();
        let mut body = json!({"query": text, "variables": op.variables});
        if let Some(n) = &name {
            body["operationName"] = json!(n);
        }
        let resp = match s.router.gql(&body, &[]).await {
            Ok(r) => r,
            Err(e) => return Outcome::fail("no-response", format!("{e}\noperation: {text}")),
        };
        let asked = s.take();
        evals += 1;
        sig = mix(sig, hash_str(&text));
        let v: Value = resp.json().unwrap_or(Value::Null);
        let errs = v["errors"].as_array().cloned().unwrap_or_default();
        let rejected = errs.iter().any(|e| matches!(e["extensions"]["code"].as_str(), Some(c) if RULES.contains(&c)));
        // mutated variable definitions may make the given variables unfit; that is another property
        let coercion = errs.iter().any(|e| e["extensions"]["code"].as_str().is_some_and(|c| c.contains("VARIABLE") || c.contains("BAD_USER_INPUT") || c.contains("COERCION")));
        let what = |k: &str| format!("{k}\noperation: {text}\nrouter: {} {}\nvalidator: {}\n", resp.status, truncate(&resp.text(), 2500), verdict.as_ref().err().map(|e| e.to_string()).unwrap_or("valid".into()));
        match &verdict {
            Ok(_) => {
                good += 1;
                let lenient = |set: &[&str]| errs.iter().any(|e| e["extensions"]["code"].as_str().is_some_and(|c| set.contains(&c)));
                if rejected && mutated && lenient(&["GRAPHQL_PARSE_FAILED", "UniqueInputFieldNames", "VariablesInAllowedPosition", "NoUndefinedVariables"]) {
                    // apollo-compiler is the lenient one: it parses `f(a)`, and neither looks into the objects given to
                    // custom scalars nor at variables inside object literals
                    labels.push("validator is lenient (not judged)".to_string());
                    continue;
                }
                if rejected {
                    return Outcome::fail("valid-operation-rejected", what("a valid operation is rejected"));
                }
                // a failing planner is C01's matter
                let planner = errs.iter().any(|e| e["extensions"]["code"] == json!("QUERY_PLAN_BUILD_FAILED"));
                if !errs.is_empty() && !coercion && !planner && !text.contains("__typename :") {
                    return Outcome::fail("valid-operation-failed", what("a valid operation fails"));
                }
            }
            Err(_) => {
                bad += 1;
                if !asked.is_empty() || v.get("data").is_some_and(|d| !d.is_null()) {
                    return Outcome::fail("invalid-operation-executed", what("an invalid operation is executed"));
                }
                if errs.is_empty() {
                    return Outcome::fail("no-errors", what("an invalid operation is answered without errors"));
                }
                if !rejected {
                    return Outcome::fail("invalid-operation-passed-validation", what("an invalid operation was not rejected by validation"));
                }
                sample.get_or_insert_with(|| format!("rejected: {text} => {}", truncate(&resp.text(), 300)));
            }
        }
        labels.push(if verdict.is_ok() { "accepted".into() } else { "rejected".to_string() });
    }
    Outcome::Pass { nontrivial: good > 0 && bad > 0, sig, labels, evals, sample }
}
