//! C20: progressive override: which subgraph resolves a field is decided by the labels of each request.
use crate::runner::{truncate, BoxFut, Property};
use crate::simple::*;
use crate::tape::{hash_str, mix, Outcome, Src};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub fn property() -> Property {
    Property::new("C20", "a case is a supergraph of three subgraphs in which generated fields (leaves, objects, root fields, fields others require) move from one subgraph to another under labels - switched on, off, by expression, not configured, or by percentage - and 12-40 requests, one by one or at once, that repeat a few operations under different labels. Every moved field must be asked of exactly the subgraph its label names for that request, requests at the same percentage must move together, and the answer must equal the reference's; in a second part the fraction of requests moved by a percentage must be near it (bound for a false alarm: 1e-10). Non-trivial: one operation was sent with a label on and with it off")
        .part("labels", 160, 6000, |s: &mut Src| -> BoxFut<'_> { Box::pin(labels(s)) })
        .part("percent", 8, 200, |s: &mut Src| -> BoxFut<'_> { Box::pin(percent(s)) })
        .workers(8)
}

const NAMES: [&str; 3] = ["a", "b", "c"];

#[derive(Clone, Debug)]
enum Label {
    On(&'static str),
    Off(&'static str),
    Header(&'static str, &'static str),
    Operation(&'static str),
    Missing(&'static str),
    Percent(&'static str),
}
const LABELS: &[fn() -> Label] = &[
    || Label::On("on"),
    || Label::Off("off"),
    || Label::Header("l1", "x-l1"),
    || Label::Header("l1", "x-l1"),
    || Label::Header("my-label", "x-l2"),
    || Label::Header("a.b/c:d", "x-l3"),
    || Label::Operation("op"),
    || Label::Missing("gone"),
    || Label::Percent("0"),
    || Label::Percent("100"),
    || Label::Percent("30"),
    || Label::Percent("60"),
    || Label::Percent("50.5"),
];
impl Label {
    fn text(&self) -> String {
        match self {
            Label::On(n) | Label::Off(n) | Label::Header(n, _) | Label::Operation(n) | Label::Missing(n) => n.to_string(),
            Label::Percent(p) => format!("percent({p})"),
        }
    }
}

#[derive(Clone, Debug)]
struct Moved {
    name: String,
    root: bool,
    kind: usize,
    from: usize,
    to: usize,
    label: Label,
    /// a field of the third subgraph that requires this one
    required: Option<(usize, String)>,
}

fn world(src: &mut Src, n: usize, labels: &[fn() -> Label]) -> (Vec<Moved>, Vec<(String, String)>) {
    let mut ms = vec![];
    for i in 0..n {
        let root = src.chance(20);
        let kind = src.weighted(&[60, 20, 20]);
        let from = src.n(3);
        let to = (from + 1 + src.n(2)) % 3;
        let third = 3 - from - to;
        let required = (!root && kind == 0 && src.chance(40)).then(|| (third, format!("y{i}")));
        ms.push(Moved { name: format!("{}{i}", if root { "r" } else { "x" }), root, kind, from, to, label: src.pick(labels)(), required });
    }
    let mut sdl = vec![];
    for (s, name) in NAMES.iter().enumerate() {
        let (mut q, mut p) = (format!("  p{name}: P\n"), String::new());
        for m in &ms {
            let ty = ["Int", "O", "[O]"][m.kind];
            let dir = if s == m.to { format!(" @override(from: \"{}\", label: \"{}\")", NAMES[m.from], m.label.text()) } else { String::new() };
            if s == m.from || s == m.to {
                let l = format!("  {}: {ty}{dir}\n", m.name);
                if m.root {
                    q += &l
                } else {
                    p += &l
                }
            }
            if let Some((t, y)) = &m.required {
                if s == *t {
                    p += &format!("  {}: {ty} @external\n  {y}: Int @requires(fields: \"{}\")\n", m.name, m.name);
                }
            }
        }
        sdl.push((name.to_string(), format!("type Query {{\n{q}}}\ntype P @key(fields: \"id\") {{\n  id: ID!\n{p}}}\ntype O @key(fields: \"id\") {{\n  id: ID!\n  o{name}: Int\n}}\n")));
    }
    (ms, sdl)
}

fn config(ms: &[Moved]) -> String {
    let mut lines = BTreeMap::new();
    for m in ms {
        match &m.label {
            Label::On(n) => lines.insert(n.to_string(), format!("  '{n}': true\n")),
            Label::Off(n) => lines.insert(n.to_string(), format!("  '{n}': false\n")),
            Label::Header(n, h) => lines.insert(n.to_string(), format!("  '{n}':\n    expression: '.request.headers.\"{h}\" == \"1\"'\n")),
            Label::Operation(n) => lines.insert(n.to_string(), format!("  '{n}':\n    expression: '.request.operation.name == \"Moving\"'\n")),
            _ => None,
        };
    }
    match lines.is_empty() {
        true => String::new(),
        false => format!("override_labels:\n{}", lines.into_values().collect::<String>()),
    }
}

/// the names of the fields an operation text asks for
fn asked(q: &str) -> BTreeSet<String> {
    q.split(|c: char| !c.is_ascii_alphanumeric() && c != '_').map(|s| s.to_string()).collect()
}

struct Reqq {
    body: Value,
    headers: Vec<(&'static str, &'static str)>,
    fields: Vec<(String, bool)>,
    named: bool,
    tag: String,
}

async fn labels(src: &mut Src) -> Outcome {
    let n = src.range(1, 6);
    let (ms, sdl) = world(src, n, LABELS);
    let refs: Vec<(&str, &str)> = sdl.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
    let sc = match try_schemas(&refs) {
        Ok(s) => Arc::new(s),
        // the composer rejects requirements on fields that move: compose them as shared fields, then mark them
        Err(_) => {
            let shared: Vec<(String, String)> = sdl
                .iter()
                .map(|(n, t)| {
                    let t: Vec<String> = t
                        .lines()
                        .map(|l| match ms.iter().any(|m| l.trim().starts_with(&format!("{}:", m.name)) && !l.contains("@external")) {
                            true => format!("{} @shareable", l.split(" @override").next().unwrap()),
                            false => l.to_string(),
                        })
                        .collect();
                    (n.clone(), t.join("\n"))
                })
                .collect();
            let refs: Vec<(&str, &str)> = shared.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
            let mut sc = match try_schemas(&refs) {
                Ok(s) => s,
                Err(e) => return Outcome::fail("composition", e),
            };
            let mut text = vec![];
            for l in sc.supergraph.lines() {
                match ms.iter().find(|m| l.trim().starts_with(&format!("{}:", m.name))) {
                    None => text.push(l.to_string()),
                    Some(m) => {
                        let label = format!("overrideLabel: {:?}", m.label.text());
                        let g = |s: usize| format!("@join__field(graph: {}", NAMES[s].to_uppercase());
                        let mut l = l.to_string();
                        if !l.contains("@join__field") {
                            l = format!("{} {}) {}) {})", l.trim_end(), g(0), g(1), g(2));
                        }
                        if !l.contains(&g(m.from)) || !l.contains(&g(m.to)) {
                            return Outcome::fail("composition", format!("unexpected supergraph line {l}"));
                        }
                        text.push(l.replace(&g(m.from), &format!("{}, {label}", g(m.from))).replace(&g(m.to), &format!("{}, override: {:?}, {label}", g(m.to), NAMES[m.from])));
                    }
                }
            }
            sc.supergraph = text.join("\n");
            Arc::new(sc)
        }
    };
    let yaml = format!("{}headers:\n  all:\n    request:\n      - propagate:\n          named: x-tag\n", config(&ms));
    let s = match Simple::start_with(sc, &yaml, auto(), plain()).await {
        Ok(s) => s,
        Err(e) => return Outcome::fail("router-does-not-start", format!("{yaml}{e}")),
    };
    // a few operations
    let mut ops = vec![];
    for _ in 0..src.range(1, 3) {
        let mut sel = String::new();
        let mut fields = vec![];
        let sub = |k: usize, src: &mut Src| match k {
            0 => String::new(),
            _ => format!(" {{ id {} }}", src.subset(&["oa", "ob", "oc"], 60).join(" ")),
        };
        for start in NAMES {
            if !src.chance(50) && !(start == "c" && sel.is_empty()) {
                continue;
            }
            let mut inner = String::from("id");
            for m in ms.iter().filter(|m| !m.root) {
                if src.chance(55) {
                    inner += &format!(" {}{}", m.name, sub(m.kind, src));
                    fields.push((m.name.clone(), true));
                }
                if let Some((_, y)) = &m.required {
                    if src.chance(50) {
                        inner += &format!(" {y}");
                        fields.push((m.name.clone(), true));
                    }
                }
            }
            sel += &format!("p{start} {{ {inner} }} ");
        }
        for m in ms.iter().filter(|m| m.root) {
            if src.chance(70) {
                sel += &format!("{}{} ", m.name, sub(m.kind, src));
                fields.push((m.name.clone(), true));
            }
        }
        ops.push((sel, fields));
    }
    let mut reqs = vec![];
    for i in 0..src.range(12, 40) {
        let (sel, fields) = src.pick(&ops).clone();
        let name = *src.pick(&["Moving", "Staying", ""]);
        let body = json!({"query": format!("query {name} {{ {sel} }}")});
        let headers: Vec<(&'static str, &'static str)> = ["x-l1", "x-l2", "x-l3"].into_iter().filter_map(|h| src.pick(&[Some("1"), Some("0"), None]).map(|v| (h, v))).collect();
        reqs.push(Reqq { body, headers, fields, named: name == "Moving", tag: format!("t{i}") });
    }
    let together = src.chance(50);
    s.take();
    let send = |r: &Reqq| {
        let mut h = r.headers.clone();
        let tag = r.tag.clone();
        let body = r.body.clone();
        let router = &s.router;
        async move {
            let tag = tag;
            let mut all: Vec<(&str, &str)> = h.drain(..).collect();
            all.push(("x-tag", tag.as_str()));
            router.gql(&body, &all).await
        }
    };
    let mut resps = vec![];
    if together {
        resps = futures::future::join_all(reqs.iter().map(&send)).await;
    } else {
        for r in &reqs {
            resps.push(send(r).await);
        }
    }
    let log = s.take();
    let mut sig = hash_str(&yaml);
    let mut states: BTreeMap<(String, String), BTreeSet<bool>> = BTreeMap::new();
    for (r, resp) in reqs.iter().zip(resps) {
        let resp = match resp {
            Ok(x) => x,
            Err(e) => return Outcome::fail("no-response", format!("{yaml}{}: {e}", r.body)),
        };
        sig = mix(sig, hash_str(&format!("{}{:?}", r.body, r.headers)));
        let mine: Vec<_> = log.iter().filter(|x| x.header("x-tag") == vec![r.tag.clone()]).collect();
        let explain = |c: &str, m: String| {
            Outcome::fail(
                c,
                format!(
                    "{m}\n{yaml}{}\nrequest: {} {:?}\nsubgraph requests: {:#?}\nanswer: {}",
                    sdl.iter().map(|(a, b)| format!("# {a}\n{b}")).collect::<String>(),
                    r.body,
                    r.headers,
                    mine.iter().map(|x| format!("{}: {}", x.sub, x.query())).collect::<Vec<_>>(),
                    truncate(&resp.text(), 600)
                ),
            )
        };
        let Some(body) = resp.json() else { return explain("answer-is-no-json", String::new()) };
        let want = match s.reference(&auto(), r.body["query"].as_str().unwrap(), None, &json!({})) {
            Ok(w) => w,
            Err(e) => return explain("reference-failed", e),
        };
        if body["data"] != want || body.get("errors").is_some() {
            return explain("wrong-answer", format!("expected {}", truncate(&want.to_string(), 600)));
        }
        let mut low = 0f64; // the percentage value of this request is within
        let mut high = 100f64;
        for m in &ms {
            if !r.fields.iter().any(|f| f.0 == m.name) {
                continue;
            }
            let active = match &m.label {
                Label::On(_) => Some(true),
                Label::Off(_) | Label::Missing(_) => Some(false),
                Label::Header(_, h) => Some(r.headers.iter().any(|x| x.0 == *h && x.1 == "1")),
                Label::Operation(_) => Some(r.named),
                Label::Percent("0") => Some(false),
                Label::Percent("100") => Some(true),
                Label::Percent(_) => None,
            };
            let at: BTreeSet<&str> = mine.iter().filter(|x| asked(x.query()).contains(&m.name)).map(|x| x.sub.as_str()).collect();
            let both = [NAMES[m.from], NAMES[m.to]];
            match active {
                Some(on) => {
                    let owner = both[on as usize];
                    if at != BTreeSet::from([owner]) {
                        return explain("field-asked-of-the-wrong-subgraph", format!("{} must be asked of {owner} ({:?} is {}), was asked of {at:?}", m.name, m.label, if on { "active" } else { "not active" }));
                    }
                    states.entry((r.body["query"].to_string(), m.name.clone())).or_default().insert(on);
                }
                None => {
                    let Label::Percent(p) = m.label else { unreachable!() };
                    let p: f64 = p.parse().unwrap();
                    if at == BTreeSet::from([both[1]]) {
                        high = high.min(p);
                    } else if at == BTreeSet::from([both[0]]) {
                        low = low.max(p);
                    } else {
                        return explain("field-asked-of-two-subgraphs", format!("{} was asked of {at:?}", m.name));
                    }
                    if low >= high {
                        return explain("percentages-disagree-within-a-request", format!("{}: below {high} and not below {low}", m.name));
                    }
                }
            }
        }
    }
    let nontrivial = states.values().any(|s| s.len() == 2);
    Outcome::Pass { nontrivial, sig, labels: ms.iter().map(|m| m.label.text().split('(').next().unwrap().to_string()).collect(), evals: reqs.len() as u64, sample: Some(format!("{yaml}{}", truncate(&reqs[0].body.to_string(), 400))) }
}

async fn percent(src: &mut Src) -> Outcome {
    let p = *src.pick(&["1", "10", "25", "50", "75.5", "90", "99", "99.99999999", "0.00000001"]);
    let a = "type Query { r: Int pa: Int }".to_string();
    let b = format!("type Query {{ r: Int @override(from: \"a\", label: \"percent({p})\") pb: Int }}");
    let sc = match try_schemas(&[("a", &a), ("b", &b)]) {
        Ok(s) => Arc::new(s),
        Err(e) => return Outcome::fail("composition", e),
    };
    let s = match Simple::start_with(sc, "traffic_shaping:\n  all:\n    dedupe_enabled: false\n", auto(), plain()).await {
        Ok(s) => s,
        Err(e) => return Outcome::fail("router-does-not-start", e),
    };
    let n = 1000;
    for chunk in 0..n / 50 {
        let body = json!({"query": format!("{{ r k{}: pa }}", chunk % 3)});
        for r in futures::future::join_all((0..50).map(|_| s.router.gql(&body, &[]))).await {
            match r {
                Ok(r) if r.status == 200 => {}
                Ok(r) => return Outcome::fail("wrong-answer", format!("{} {}", r.status, truncate(&r.text(), 300))),
                Err(e) => return Outcome::fail("no-response", e),
            }
        }
    }
    let log = s.take();
    let moved = log.iter().filter(|x| x.sub == "b").count();
    let stayed = log.iter().filter(|x| x.sub == "a" && asked(x.query()).contains("r")).count();
    if moved + stayed != n {
        return Outcome::fail("field-asked-of-two-subgraphs", format!("percent({p}): {moved} moved, {stayed} stayed of {n}"));
    }
    let want: f64 = p.parse::<f64>().unwrap() / 100.0;
    let got = moved as f64 / n as f64;
    // Hoeffding, one false alarm in 1e10
    let eps = ((2e10f64).ln() / (2.0 * n as f64)).sqrt();
    if (got - want).abs() > eps {
        return Outcome::fail("fraction-far-from-the-percentage", format!("percent({p}): {moved} of {n} moved"));
    }
    Outcome::Pass { nontrivial: moved > 0 && stayed > 0, sig: hash_str(p), labels: vec![p.to_string()], evals: n as u64, sample: Some(format!("percent({p}): {moved} of {n} moved")) }
}
