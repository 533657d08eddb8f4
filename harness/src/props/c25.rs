//! C25: values pass the router unchanged: strings, numbers and custom scalars of any JSON.
use crate::mock::raw_resp;
use crate::runner::{truncate, BoxFut, Property};
use crate::simple::*;
use crate::tape::{hash_str, mix, Outcome, Src};
use crate::world::interp::RV;
use futures::FutureExt;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::sync::Arc;

pub fn property() -> Property {
    Property::new("C25", "a case is 4-10 operations over two subgraphs in which every leaf is written by the mock as a generated JSON text: custom scalars of any JSON (nested, escaped keys, numbers beyond 64 bits, keys like __typename), strings with any escapes, floats at the limits; reached through aliases, fragments on interfaces and unions, lists of lists, entity fetches and @requires, with arguments of the same kind given as raw variables, literals and defaults, which the mocked values depend on. The client's answer, parsed by an exact reader (numbers as decimals), must equal the reference's; representations must carry the required value exactly. Non-trivial: a custom scalar with an escaped key or a number beyond 64 bits arrived, and an argument was given")
        .part("values", 260, 9000, |s: &mut Src| -> BoxFut<'_> { Box::pin(run(s)) })
        .workers(8)
}

const SDL_A: &str = "scalar J interface N { id: ID! j: J } input In { j: J l: [J] s: String f: Float n: In }
type P implements N @key(fields: \"id\") { id: ID! j: J jl: [J] jll: [[J]] k: J s: String f: Float i: Int o: O }
type R implements N @key(fields: \"id\") { id: ID! j: J rs: String rf(x: Float): Float }
type O { j: J s: String n: N } union U = P | R
type Query { j(x: J, s: String, f: Float, in: In): J jl(l: [J!]): [J] s(x: String): String f(x: Float): Float p: P ps: [P] n: N ns: [N] us: [U] o: O }";
const SDL_B: &str = "scalar J type P @key(fields: \"id\") { id: ID! bj(x: J): J k: J @external kk: J @requires(fields: \"k\") bl(l: [J]): [J] bo: BO }
type R @key(fields: \"id\") { id: ID! bj(x: J): J s2(s: String): String } type BO { j: J s: String f: Float } type Query { b(x: J, s: String): J }";

/// Selections; `$` starts an argument to fill: `$J`, `$S`, `$F`, `$L`, `$I`.
const SELS: &[&str] = &[
    "j",
    "j(x: $J)",
    "x: j(x: $J) y: j(x: $J) j",
    "j(s: $S, f: $F)",
    "j(in: $I)",
    "jl",
    "jl(l: $L)",
    "s(x: $S) f(x: $F) z: s",
    "p { j jl jll k s f i }",
    "p { kk }",
    "p { kk k bj(x: $J) }",
    "ps { j: jl jl: j kk }",
    "ps { id bj(x: $J) bl(l: $L) bo { j s f } }",
    "n { j ... on P { s bj(x: $J) } ... on R { rs rf(x: $F) bj(x: $J) s2(s: $S) } }",
    "ns { __typename j ... on P { l: jll o { j n { j } } } ... on R { k: rs } }",
    "us { ... on P { v: j w: bj } ... on R { v: j w: bj(x: $J) s2 } }",
    "us { ... on N { j } ... on R { x: rf } ... on P { x: f kk } }",
    "o { j s n { id j ... on P { bo { j } } } }",
    "b(x: $J, s: $S)",
    "b j s",
];

fn next(r: &mut u64) -> u64 {
    *r = mix(*r, 0x9E37);
    *r >> 7
}
fn string(r: &mut u64) -> String {
    let mut s = String::from("\"");
    for _ in 0..next(r) % 5 {
        s.push_str(match next(r) % 16 {
            0 => "a",
            1 => "\\\"",
            2 => "\\\\",
            3 => "\\/",
            4 => "\\n\\t\\r\\b\\f",
            5 => "\\u0000",
            6 => "\\u00e9",
            7 => "é😀",
            8 => "\\ud83d\\ude00",
            9 => "\\u2028\u{2028}",
            10 => "$ref {x} #c",
            11 => "__typename",
            12 => "\u{7f}\u{feff}",
            13 => "\\u001f",
            14 => "</script>",
            _ => "long enough to leave the short string path of a vectorised writer, twice over; ",
        });
    }
    s.push('"');
    s
}
fn number(r: &mut u64) -> String {
    let l = ["0", "-0", "1", "-1", "1.0", "0.1", "1e3", "1E-7", "-2.50", "2147483648", "9007199254740993", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "18446744073709551616", "123456789012345678901234567890", "1.7976931348623157e308", "5e-324", "0.30000000000000004", "3.141592653589793238462643383279", "100000000000000000000000.5"];
    l[next(r) as usize % l.len()].to_string()
}
fn ws(r: &mut u64) -> &'static str {
    ["", "", "", " ", "\n\t", "\r\n"][next(r) as usize % 6]
}
fn any(r: &mut u64, depth: u32) -> String {
    match next(r) % if depth == 0 { 4 } else { 7 } {
        0 => string(r),
        1 => number(r),
        2 => ["true", "false", "null"][next(r) as usize % 3].to_string(),
        3 => ["{}", "[]", "{ }", "[ ]", "\"\""][next(r) as usize % 5].to_string(),
        4 => {
            let n = 1 + next(r) % 3;
            let l: Vec<String> = (0..n).map(|_| format!("{}{}{}", ws(r), any(r, depth - 1), ws(r))).collect();
            format!("[{}]", l.join(","))
        }
        _ => {
            let n = 1 + next(r) % 4;
            let mut seen = BTreeSet::new();
            let mut l: Vec<String> = vec![];
            for _ in 0..n {
                let k = match next(r) % 9 {
                    0 => "\"id\"".to_string(),
                    1 => "\"__typename\"".to_string(),
                    2 => "\"data\"".to_string(),
                    3 => "\"j\"".to_string(),
                    4 => "\"zeta\"".to_string(),
                    5 => "\"\"".to_string(),
                    _ => string(r),
                };
                if seen.insert(parse(&k).ok()) {
                    l.push(format!("{}{k}{}:{}{}{}", ws(r), ws(r), ws(r), any(r, depth - 1), ws(r)));
                }
            }
            format!("{{{}}}", l.join(","))
        }
    }
}
/// the text a placeholder stands for
fn raw(kind: &str, h: u64) -> String {
    let mut r = h;
    match kind {
        "S" => string(&mut r),
        "F" => {
            let l = ["0.0", "-0.0", "1.5", "3", "1e3", "1E-7", "0.1", "1.7976931348623157e308", "5e-324", "-2.2250738585072014e-308", "123456789.123456789", "9007199254740993", "0.30000000000000004"];
            l[next(&mut r) as usize % l.len()].into()
        }
        "I" => ["0", "-1", "2147483647", "-2147483648", "7"][next(&mut r) as usize % 5].into(),
        _ => any(&mut r, 3),
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum T {
    Null,
    Bool(bool),
    /// decimal, exact; or compared as a 64 bit float
    Num(String, bool),
    Str(String),
    Arr(Vec<T>),
    Obj(Vec<(String, T)>),
}

fn decimal(s: &str) -> (bool, String, i64) {
    let (neg, s) = match s.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, s),
    };
    let (m, e) = match s.find(['e', 'E']) {
        Some(i) => (&s[..i], s[i + 1..].trim_start_matches('+').parse::<i64>().unwrap_or(0)),
        None => (s, 0),
    };
    let (i, f) = m.split_once('.').unwrap_or((m, ""));
    let digits = format!("{i}{f}");
    let mut e = e - f.len() as i64;
    let d = digits.trim_start_matches('0');
    let t = d.trim_end_matches('0');
    e += (d.len() - t.len()) as i64;
    match t.is_empty() {
        true => (false, String::new(), 0),
        false => (neg, t.to_string(), e),
    }
}

fn same(want: &T, got: &T) -> bool {
    match (want, got) {
        (T::Num(a, true), T::Num(b, _)) => a.parse::<f64>().ok() == b.parse::<f64>().ok(),
        (T::Num(a, false), T::Num(b, _)) => decimal(a) == decimal(b),
        (T::Arr(a), T::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)),
        (T::Obj(a), T::Obj(b)) => a.len() == b.len() && a.iter().all(|(k, x)| b.iter().any(|(l, y)| k == l && same(x, y))),
        (a, b) => a == b,
    }
}
fn differ(want: &T, got: &T, path: &str) -> Option<String> {
    if same(want, got) {
        return None;
    }
    match (want, got) {
        (T::Arr(a), T::Arr(b)) if a.len() == b.len() => a.iter().zip(b).enumerate().find_map(|(i, (x, y))| differ(x, y, &format!("{path}[{i}]"))),
        (T::Obj(a), T::Obj(b)) if a.len() == b.len() => a.iter().find_map(|(k, x)| match b.iter().find(|l| l.0 == *k) {
            Some((_, y)) => differ(x, y, &format!("{path}.{k:?}")),
            None => Some(format!("at {path}: no key {k:?}, but {:?}", b.iter().map(|x| &x.0).collect::<Vec<_>>())),
        }),
        _ => Some(format!("at {path}: expected {want:?}, got {got:?}")),
    }
}

fn parse(s: &str) -> Result<T, String> {
    let mut p = P { c: s.chars().collect(), i: 0 };
    let v = p.value()?;
    p.skip();
    if p.i != p.c.len() {
        return Err(format!("rest at {}", p.i));
    }
    Ok(v)
}
struct P {
    c: Vec<char>,
    i: usize,
}
impl P {
    fn skip(&mut self) {
        while self.c.get(self.i).is_some_and(|c| matches!(c, ' ' | '\n' | '\r' | '\t')) {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: char) -> bool {
        self.skip();
        let y = self.c.get(self.i) == Some(&c);
        if y {
            self.i += 1;
        }
        y
    }
    fn value(&mut self) -> Result<T, String> {
        self.skip();
        let err = |i: usize| Err(format!("no value at {i}"));
        let Some(c) = self.c.get(self.i).copied() else { return err(self.i) };
        match c {
            '{' => {
                self.i += 1;
                let mut l = vec![];
                if self.eat('}') {
                    return Ok(T::Obj(l));
                }
                loop {
                    self.skip();
                    let k = self.string()?;
                    if !self.eat(':') {
                        return Err(format!("no colon at {}", self.i));
                    }
                    l.push((k, self.value()?));
                    if self.eat('}') {
                        return Ok(T::Obj(l));
                    }
                    if !self.eat(',') {
                        return Err(format!("no comma at {}", self.i));
                    }
                }
            }
            '[' => {
                self.i += 1;
                let mut l = vec![];
                if self.eat(']') {
                    return Ok(T::Arr(l));
                }
                loop {
                    l.push(self.value()?);
                    if self.eat(']') {
                        return Ok(T::Arr(l));
                    }
                    if !self.eat(',') {
                        return Err(format!("no comma at {}", self.i));
                    }
                }
            }
            '"' => Ok(T::Str(self.string()?)),
            't' | 'f' | 'n' => {
                for (w, v) in [("true", T::Bool(true)), ("false", T::Bool(false)), ("null", T::Null)] {
                    if self.c[self.i..].starts_with(&w.chars().collect::<Vec<_>>()) {
                        self.i += w.len();
                        return Ok(v);
                    }
                }
                err(self.i)
            }
            _ => {
                let b = self.i;
                while self.c.get(self.i).is_some_and(|c| c.is_ascii_digit() || matches!(c, '-' | '+' | '.' | 'e' | 'E')) {
                    self.i += 1;
                }
                let t: String = self.c[b..self.i].iter().collect();
                match t.parse::<f64>() {
                    Ok(_) if !t.starts_with('+') && !t.starts_with('.') => Ok(T::Num(t, false)),
                    _ => err(b),
                }
            }
        }
    }
    fn string(&mut self) -> Result<String, String> {
        if self.c.get(self.i) != Some(&'"') {
            return Err(format!("no string at {}", self.i));
        }
        self.i += 1;
        let mut s = String::new();
        let mut high: Option<u32> = None;
        loop {
            let Some(c) = self.c.get(self.i).copied() else { return Err("string without end".into()) };
            self.i += 1;
            match c {
                '"' => return Ok(s),
                '\\' => {
                    let e = self.c.get(self.i).copied().unwrap_or(' ');
                    self.i += 1;
                    s.push(match e {
                        'n' => '\n',
                        't' => '\t',
                        'r' => '\r',
                        'b' => '\u{8}',
                        'f' => '\u{c}',
                        '"' | '\\' | '/' => e,
                        'u' => {
                            let h: String = self.c[self.i..(self.i + 4).min(self.c.len())].iter().collect();
                            self.i += 4;
                            let u = u32::from_str_radix(&h, 16).map_err(|e| e.to_string())?;
                            if (0xD800..0xDC00).contains(&u) {
                                high = Some(u);
                                continue;
                            }
                            let u = match high.take() {
                                Some(x) => 0x10000 + ((x - 0xD800) << 10) + u.wrapping_sub(0xDC00),
                                None => u,
                            };
                            char::from_u32(u).ok_or("surrogate")?
                        }
                        _ => return Err(format!("escape at {}", self.i)),
                    });
                }
                c if (c as u32) < 0x20 => return Err(format!("control character {:?} in a string", c)),
                c => s.push(c),
            }
        }
    }
}

/// reference data with its placeholders replaced
fn expand(v: &Value) -> T {
    match v {
        Value::Null => T::Null,
        Value::Bool(b) => T::Bool(*b),
        Value::Number(n) => T::Num(n.to_string(), false),
        Value::String(s) => match s.strip_prefix("@@").and_then(|s| s.strip_suffix("@@")) {
            Some(p) => {
                let t = parse(&raw(&p[..1], u64::from_str_radix(&p[1..], 16).unwrap_or(0))).unwrap_or_else(|e| crate::runner::harness_error(e));
                match t {
                    T::Num(n, _) if &p[..1] == "F" => T::Num(n, true),
                    t => t,
                }
            }
            None => T::Str(s.clone()),
        },
        Value::Array(l) => T::Arr(l.iter().map(expand).collect()),
        Value::Object(m) => T::Obj(m.iter().map(|(k, v)| (k.clone(), expand(v))).collect()),
    }
}
/// a subgraph's answer with its placeholders replaced
fn fill(text: &str) -> String {
    let mut out = String::new();
    let mut rest = text;
    while let Some(i) = rest.find("\"@@") {
        out.push_str(&rest[..i]);
        let end = rest[i + 3..].find("@@\"").unwrap_or(0) + i + 3;
        let p = &rest[i + 3..end];
        out.push_str(&raw(&p[..1], u64::from_str_radix(&p[1..], 16).unwrap_or(0)));
        rest = &rest[end + 3..];
    }
    out.push_str(rest);
    out
}
fn canon(v: &Value, out: &mut String) {
    match v {
        Value::Number(n) => match n.as_f64() {
            Some(f) if n.is_f64() && f.fract() == 0.0 && f.abs() < 9e15 => out.push_str(&(f as i64).to_string()),
            Some(f) if n.is_f64() => out.push_str(&format!("{f:.12e}")),
            _ => out.push_str(&n.to_string()),
        },
        Value::Array(l) => {
            out.push('[');
            for x in l {
                canon(x, out);
                out.push(',');
            }
            out.push(']');
        }
        Value::Object(m) => {
            let mut ks: Vec<_> = m.keys().collect();
            ks.sort();
            out.push('{');
            for k in ks {
                out.push_str(&json!(k).to_string());
                canon(&m[k], out);
                out.push(',');
            }
            out.push('}');
        }
        v => out.push_str(&v.to_string()),
    }
}
fn resolver(seed: u64) -> Resolver {
    Arc::new(move |ty, f, args, id| {
        let mut a = String::new();
        canon(args, &mut a);
        let h = mix(mix(seed, hash_str(&format!("{ty}.{f}"))), mix(id, hash_str(&a)));
        let leaf = |k: &str, n: u64| RV::Leaf(json!(format!("@@{k}{:016x}@@", mix(h, n))));
        Some(match (ty, f) {
            (_, "jl" | "bl") => RV::List((0..h % 3).map(|i| leaf("J", i)).collect()),
            (_, "jll") => RV::List((0..h % 3).map(|i| if mix(h, i) % 5 == 0 { RV::Null } else { RV::List((0..mix(h, i) % 3).map(|j| leaf("J", 10 * i + j)).collect()) }).collect()),
            (_, "j" | "k" | "kk" | "bj" | "b") => leaf("J", 0),
            (_, "s" | "rs" | "s2") => leaf("S", 0),
            (_, "f" | "rf") => leaf("F", 0),
            (_, "i") => leaf("I", 0),
            _ => return None,
        })
    })
}

fn literal(v: &Value) -> String {
    match v {
        Value::Null | Value::Bool(_) => v.to_string(),
        Value::Number(n) => match n.as_i64() {
            Some(_) => n.to_string(),
            None => {
                let t = format!("{:?}", n.as_f64().unwrap_or(0.5));
                // written without an exponent, a large one is an integer literal other servers may not read
                match n.as_f64().is_none_or(|f| f.abs() > 9e15) {
                    true => "0.5".into(),
                    false => t,
                }
            }
        },
        Value::String(s) => {
            let mut o = String::from("\"");
            for c in s.chars() {
                match c {
                    '"' => o.push_str("\\\""),
                    '\\' => o.push_str("\\\\"),
                    '\n' => o.push_str("\\n"),
                    c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04X}", c as u32)),
                    'é' => o.push_str("\\u00e9"),
                    c => o.push(c),
                }
            }
            o.push('"');
            o
        }
        Value::Array(l) => format!("[{}]", l.iter().map(literal).collect::<Vec<_>>().join(" ")),
        Value::Object(m) => format!("{{{}}}", m.iter().filter(|(k, _)| !k.is_empty() && k.chars().all(|c| c.is_ascii_alphabetic() || c == '_')).map(|(k, v)| format!("{k}: {}", literal(v))).collect::<Vec<_>>().join(", ")),
    }
}

async fn run(src: &mut Src) -> Outcome {
    let seed = mix(src.n(1 << 20) as u64, 77);
    let res = resolver(seed);
    let hook: Hook = Arc::new(|_, v| async move { raw_resp(200, &[("content-type", "application/json")], fill(&v.to_string())) }.boxed());
    let s = match Simple::start(&[("a", SDL_A), ("b", SDL_B)], "", res.clone(), hook).await {
        Ok(s) => s,
        Err(e) => return Outcome::fail("router-does-not-start", e),
    };
    let mut sig = seed;
    let mut kinds = BTreeSet::new();
    let count = src.range(4, 10);
    let mut rng = mix(src.n(1 << 20) as u64, 5);
    for _ in 0..count {
        // the operation
        let mut vars: Vec<(String, String)> = vec![];
        let mut defs: Vec<String> = vec![];
        let mut sel = String::new();
        let mut taken = BTreeSet::new();
        for n in 0..src.range(1, 2) {
            let t = src.pick(SELS).to_string();
            if !taken.insert(t.clone()) {
                continue;
            }
            let mut out = String::new();
            let mut rest = t.as_str();
            while let Some(i) = rest.find('$') {
                out.push_str(&rest[..i]);
                let kind = &rest[i + 1..i + 2];
                rest = &rest[i + 2..];
                let text = match kind {
                    "J" => any(&mut rng, 3),
                    "S" => string(&mut rng),
                    "F" => raw("F", next(&mut rng)),
                    "L" => format!("[{}]", (0..next(&mut rng) % 3).map(|_| any(&mut rng, 2)).collect::<Vec<_>>().join(", ")),
                    _ => format!("{{\"j\": {}, \"s\": {}, \"n\": {{\"l\": [{}], \"f\": {}}}}}", any(&mut rng, 2), string(&mut rng), any(&mut rng, 2), raw("F", next(&mut rng))),
                };
                let text = match kind == "L" {
                    // [J!]: no nulls
                    true if text.contains("null") => "[1]".to_string(),
                    _ => text,
                };
                let ty = match kind {
                    "J" => "J",
                    "S" => "String",
                    "F" => "Float",
                    "L" => "[J!]",
                    _ => "In",
                };
                kinds.insert("argument");
                let value: Value = serde_json::from_str(&text).unwrap_or_else(|e| crate::runner::harness_error(format!("{text}: {e}")));
                match src.n(4) {
                    0 => out.push_str(&literal(&value)),
                    1 => {
                        let v = format!("v{}", defs.len());
                        defs.push(format!("${v}: {ty} = {}", literal(&value)));
                        out.push_str(&format!("${v}"));
                    }
                    2 if kind == "J" => {
                        let v = format!("v{}", defs.len());
                        defs.push(format!("${v}: J"));
                        out.push_str(&format!("{{a: ${v}, b: [${v}, \"x\"]}}"));
                        vars.push((v, text));
                    }
                    _ => {
                        let v = format!("v{}", defs.len());
                        defs.push(format!("${v}: {ty}"));
                        out.push_str(&format!("${v}"));
                        vars.push((v, text));
                    }
                }
            }
            out.push_str(rest);
            sel += &match src.n(3) {
                0 => format!(" q{n}: {}", out).replace(&format!("q{n}: x: "), "x: ").replace(&format!("q{n}: z: "), "z: "),
                _ => format!(" {out}"),
            };
        }
        let q = match defs.is_empty() {
            true => format!("{{{sel} }}"),
            false => format!("query({}) {{{sel} }}", defs.join(", ")),
        };
        let vtext = format!("{{{}}}", vars.iter().map(|(k, v)| format!("\"{k}\": {v}")).collect::<Vec<_>>().join(","));
        let vjson: Value = serde_json::from_str(&vtext).unwrap_or_else(|e| crate::runner::harness_error(format!("{vtext}: {e}")));
        let want = match s.reference(&res, &q, None, &vjson) {
            Ok(w) => w,
            Err(e) if e.contains("conflict") || e.contains("merge") => continue,
            Err(e) => return Outcome::fail("reference-failed", format!("{q}\n{vtext}\n{e}")),
        };
        let body = format!("{{\"query\":{},\"variables\":{vtext}}}", json!(q));
        s.take();
        let r = match s.router.send("POST", &s.router.path, &[("content-type", "application/json"), ("accept", "application/json")], body.clone()).await {
            Ok(r) => r,
            Err(e) => return Outcome::fail("no-response", format!("{body}: {e}")),
        };
        let log = s.take();
        sig = mix(sig, hash_str(&body));
        let text = r.text();
        let explain = |c: &str, m: String| Outcome::fail(c, format!("{}\n{q}\nvariables {vtext}\ncalls: {:#?}\nanswer: {} {}", truncate(&m, 1200), log.iter().map(|x| format!("{}: {}", x.sub, String::from_utf8_lossy(&x.raw))).collect::<Vec<_>>(), r.status, truncate(&text, 2500)));
        let got = match parse(&text) {
            Ok(g) => g,
            Err(e) => return explain("answer-is-no-json", e),
        };
        let T::Obj(got) = got else { return explain("answer-is-no-object", String::new()) };
        if got.iter().any(|x| x.0 == "errors") {
            return explain("answer-with-errors", String::new());
        }
        let Some((_, data)) = got.iter().find(|x| x.0 == "data") else { return explain("answer-without-data", String::new()) };
        let want = expand(&want);
        if let Some(d) = differ(&want, data, "data") {
            return explain("values-differ", d);
        }
        let all = format!("{want:?}");
        if all.contains("12345678901234567890") || all.contains("18446744073709551616") || all.contains("(\"\\") {
            kinds.insert("peculiar");
        }
        for c in log.iter().filter(|c| c.sub == "b" && c.query().contains("kk")) {
            kinds.insert("required");
            let Ok(T::Obj(b)) = parse(&String::from_utf8_lossy(&c.raw)) else { return explain("subgraph-request-is-no-json", String::new()) };
            let Some((_, T::Obj(v))) = b.iter().find(|x| x.0 == "variables") else { continue };
            for (_, reps) in v {
                let T::Arr(reps) = reps else { continue };
                for rep in reps {
                    let T::Obj(rep) = rep else { continue };
                    let get = |k: &str| rep.iter().find(|x| x.0 == k).map(|x| &x.1);
                    let (Some(T::Str(id)), Some(k)) = (get("id"), get("k")) else { continue };
                    let Some(RV::Leaf(p)) = res("P", "k", &json!({}), id.parse().unwrap_or(0)) else { continue };
                    if let Some(d) = differ(&expand(&p), k, &format!("the representation of {id}")) {
                        return explain("required-value-differs", d);
                    }
                }
            }
        }
    }
    Outcome::Pass { nontrivial: kinds.contains("peculiar") && kinds.contains("argument"), sig, labels: kinds.iter().map(|k| k.to_string()).collect(), evals: count as u64, sample: None }
}
