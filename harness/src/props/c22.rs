//! C22: traffic shaping: timeouts bound every wait, circuit breakers open and close as configured.
use crate::mock::*;
use crate::runner::{truncate, BoxFut, Property};
use crate::simple::*;
use crate::tape::{hash_str, mix, Outcome, Src};
use futures::FutureExt;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub fn property() -> Property {
    Property::new("C22", "part timeouts: a case is a timeout configuration (for all, by subgraph, as duration or expression over the request, and for the router) and 5-9 concurrent requests whose subgraphs answer at once, a little late, or stall before their head, after it, or in the middle of the body; each answer must come in time, with the data of the subgraphs that answered and a timeout error for those that did not, or be the router's own timeout. Part breaker: a case is a circuit breaker configuration (merged from all and subgraph) and 15-45 sequential requests with generated statuses, dropped connections and pauses; a model of the documented breaker (a full rolling sample, then the rate against the threshold; after the reset time a half-open sample) says for each request whether the subgraph is asked. Non-trivial: something timed out and something else did not; a breaker opened")
        .part("timeouts", 110, 2500, |s: &mut Src| -> BoxFut<'_> { Box::pin(timeouts(s)) })
        .part("breaker", 110, 2500, |s: &mut Src| -> BoxFut<'_> { Box::pin(breaker(s)) })
        .workers(24)
}

const SDL_A: &str = "type Query { a: Int p: P ps: [P] } type Mutation { ma: Int } type P @key(fields: \"id\") { id: ID! pa: Int }";
const SDL_B: &str = "type Query { b: Int } type Mutation { mb: Int } type P @key(fields: \"id\") { id: ID! pb: Int }";

const SHORT: u64 = 1500;
const ROUTER: u64 = 2250;
const LONG: u64 = 25_000;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Lag {
    None,
    Little,
    BeforeHead,
    AfterHead,
    MidBody,
}

#[derive(Clone, Debug)]
enum T {
    Fixed(u64),
    Header(u64, u64),
    Kind(u64, u64),
    Default,
}
impl T {
    fn yaml(&self) -> String {
        match self {
            T::Fixed(n) => format!("{n}ms"),
            T::Header(y, n) => format!("{{ expression: 'if .request.headers.\"x-quick\" == \"1\" {{ {y} }} else {{ \"{n}ms\" }}' }}"),
            T::Kind(m, q) => format!("{{ expression: 'if .request.operation.type == \"mutation\" {{ \"{m}ms\" }} else {{ {q} }}' }}"),
            T::Default => "{ expression: '.default' }".into(),
        }
    }
    fn ms(&self, quick: bool, mutation: bool, default: u64) -> u64 {
        match self {
            T::Fixed(n) => *n,
            T::Header(y, n) => if quick { *y } else { *n },
            T::Kind(m, q) => if mutation { *m } else { *q },
            T::Default => default,
        }
    }
}
fn timeout(src: &mut Src, sub: bool) -> T {
    match src.weighted(&[50, 20, 20, if sub { 10 } else { 0 }]) {
        0 => T::Fixed(*src.pick(&[SHORT, LONG])),
        1 => {
            let (y, n) = *src.pick(&[(SHORT, LONG), (LONG, SHORT)]);
            T::Header(y, n)
        }
        2 => {
            let (y, n) = *src.pick(&[(SHORT, LONG), (LONG, SHORT)]);
            T::Kind(y, n)
        }
        _ => T::Default,
    }
}

async fn timeouts(src: &mut Src) -> Outcome {
    let all = src.chance(70).then(|| timeout(src, false));
    let mut subs: BTreeMap<&str, T> = BTreeMap::new();
    for n in ["a", "b"] {
        if src.chance(40) {
            let t = timeout(src, true);
            subs.insert(n, t);
        }
    }
    let router = src.chance(40);
    let mut yaml = String::from("headers:\n  all:\n    request:\n      - propagate:\n          named: x-lag\ntraffic_shaping:\n");
    if let Some(t) = &all {
        yaml += &format!("  all:\n    request_timeout: {}\n", t.yaml());
    }
    if router {
        yaml += &format!("  router:\n    request_timeout: {ROUTER}ms\n");
    }
    if !subs.is_empty() {
        yaml += "  subgraphs:\n";
        for (n, t) in &subs {
            yaml += &format!("    {n}:\n      request_timeout: {}\n", t.yaml());
        }
    }
    if all.is_none() && !router && subs.is_empty() {
        return Outcome::Discard;
    }
    let limit = |sub: &str, quick: bool, mutation: bool| {
        let d = all.as_ref().map_or(30_000, |t| t.ms(quick, mutation, 30_000));
        subs.get(sub).map_or(d, |t| t.ms(quick, mutation, d))
    };
    let hook: Hook = Arc::new(move |seen, v| {
        // "n a b": the lag of each subgraph
        let h = seen.header("x-lag").first().cloned().unwrap_or_default();
        let mut w = h.split(' ').skip(1);
        let (a, b) = (w.next().unwrap_or("N").to_string(), w.next().unwrap_or("N").to_string());
        let lag = if seen.sub == "a" { a } else { b };
        async move {
            let text = v.to_string();
            let ct = [("content-type", "application/json")];
            let never = Duration::from_secs(12);
            match lag.as_str() {
                "Little" => tokio::time::sleep(Duration::from_millis(250)).await,
                "BeforeHead" => tokio::time::sleep(never).await,
                "AfterHead" => return slow_resp(200, &ct, "", never, text),
                "MidBody" => return slow_resp(200, &ct, text[..text.len() / 2].to_string(), never, text[text.len() / 2..].to_string()),
                _ => {}
            }
            raw_resp(200, &ct, text)
        }
        .boxed()
    });
    let s = match Simple::start(&[("a", SDL_A), ("b", SDL_B)], &yaml, auto(), hook).await {
        Ok(s) => Arc::new(s),
        Err(e) => return Outcome::fail("router-does-not-start", format!("{yaml}{e}")),
    };
    let mut sig = hash_str(&yaml);
    let mut kinds = BTreeSet::new();
    let mut jobs = vec![];
    let count = src.range(5, 9);
    for n in 0..count {
        let q = *src.pick(&["{ a }", "{ b }", "{ a b }", "{ a b }", "{ p { pb } }", "{ ps { pa pb } b }", "mutation { ma mb }", "mutation { mb }"]);
        let mutation = q.starts_with("mutation");
        let quick = src.chance(50);
        let mut lags = vec![];
        for sub in ["a", "b"] {
            let mut l = *src.pick(&[Lag::None, Lag::None, Lag::Little, Lag::BeforeHead, Lag::AfterHead, Lag::MidBody]);
            if limit(sub, quick, mutation) > SHORT && !router && l != Lag::None {
                l = Lag::Little;
            }
            lags.push(l);
        }
        let id = if src.chance(80) { n } else { 0 };
        let lag = format!("{id} {:?} {:?}", lags[0], lags[1]);
        sig = mix(sig, hash_str(&format!("{q}{lag}{quick}")));
        let s2 = s.clone();
        jobs.push((q, quick, lags, tokio::task::spawn_local(async move {
            let t = Instant::now();
            let hs = [("x-lag", lag.as_str()), ("x-quick", if quick { "1" } else { "0" })];
            let r = s2.router.gql(&json!({"query": q}), &hs).await;
            (r, t.elapsed().as_millis() as u64)
        })));
    }
    for (q, quick, lags, h) in jobs {
        let (r, took) = match h.await {
            Ok(x) => x,
            Err(e) => crate::runner::harness_error(e),
        };
        let mutation = q.starts_with("mutation");
        let cost = |i: usize| {
            let t = limit(["a", "b"][i], quick, mutation);
            match lags[i] {
                Lag::None => (0, true),
                Lag::Little => (250, true),
                _ => (t, false),
            }
        };
        let (a, b) = (cost(0), cost(1));
        let (asks_a, asks_b) = (q != "mutation { mb }" && q != "{ b }", q.contains('b'));
        // what it takes, and whether that is certain
        let needs = match q {
            "{ a }" => a.0,
            "{ b }" | "mutation { mb }" => b.0,
            "{ a b }" => a.0.max(b.0),
            "{ p { pb } }" => a.0 + if a.1 { b.0 } else { 0 },
            "mutation { ma mb }" => a.0 + b.0,
            _ => (a.0 + if a.1 { b.0 } else { 0 }).max(b.0),
        };
        // a plan may fetch the root fields of both first and the entities of b after that
        let at_most = if q == "{ ps { pa pb } b }" { a.0.max(b.0) + if a.1 { b.0 } else { 0 } } else { needs };
        if router && needs <= ROUTER && at_most > ROUTER {
            continue;
        }
        let explain = |c: &str, m: String| Outcome::fail(c, format!("{m}\n{yaml}{q} quick={quick} lags {lags:?} (a, b): answered after {took} ms, {}", r.as_ref().map(|r| format!("{} {}", r.status, truncate(&r.text(), 700))).unwrap_or_else(|e| e.clone())));
        let Ok(resp) = &r else { return explain("no-response", String::new()) };
        let over = router && needs > ROUTER;
        let due = if over { ROUTER } else { needs };
        if took > if over { ROUTER } else { at_most } + 3500 {
            return explain("answered-too-late", format!("due after {due} ms"));
        }
        if took + 100 < due {
            return explain("gave-up-too-early", format!("due after {due} ms"));
        }
        if over {
            kinds.insert("router");
            if resp.status != 504 {
                return explain("router-timeout-has-another-status", String::new());
            }
            if resp.json().is_none_or(|b| !b["data"].is_null() || !b["errors"].is_array()) {
                return explain("router-timeout-without-error", String::new());
            }
            continue;
        }
        let Some(body) = resp.json() else { return explain("answer-is-no-json", String::new()) };
        let failed = asks_a && !a.1 || asks_b && !b.1 && !(q == "{ p { pb } }" && !a.1);
        let errs = body["errors"].as_array().cloned().unwrap_or_default();
        if failed == errs.is_empty() {
            return explain(if failed { "timeout-without-error" } else { "error-without-timeout" }, String::new());
        }
        if errs.iter().any(|e| e["extensions"]["code"] != "SUBGRAPH_REQUEST_TIMEOUT") {
            return explain("timeout-has-another-code", String::new());
        }
        let Ok(Value::Object(want)) = s.reference(&auto(), q, None, &json!({})) else { return explain("reference-failed", String::new()) };
        for (k, w) in want {
            let got = &body["data"][&k];
            let ok = match k.as_str() {
                "a" | "ma" => a.1,
                "b" | "mb" => b.1,
                _ if !a.1 => false,
                _ if b.1 => true,
                _ => {
                    // the part of a is there, that of b is not
                    let mut w = w.clone();
                    for x in w.as_array_mut().map(|l| l.iter_mut().collect::<Vec<_>>()).unwrap_or_else(Vec::new) {
                        x["pb"] = Value::Null;
                    }
                    if w.is_object() {
                        w["pb"] = Value::Null;
                    }
                    if *got != w {
                        return explain("data-of-the-others-lost", format!("{k}: expected {w}"));
                    }
                    continue;
                }
            };
            kinds.insert(if ok { "in-time" } else { "timed-out" });
            if ok && *got != w {
                return explain("data-of-the-others-lost", format!("{k}: expected {w}"));
            }
            if !ok && !got.is_null() {
                return explain("data-after-timeout", k);
            }
        }
    }
    // nothing stays blocked
    match s.router.gql(&json!({"query": "{ a b p { pb } }"}), &[]).await {
        Ok(r) if r.json().is_some_and(|b| b.get("errors").is_none() && b["data"]["a"].is_i64()) => {}
        Ok(r) => return Outcome::fail("subgraph-stays-blocked", format!("{yaml}{}", truncate(&r.text(), 500))),
        Err(e) => return Outcome::fail("no-response", e),
    }
    Outcome::Pass { nontrivial: kinds.contains("in-time") && kinds.len() > 1, sig, labels: kinds.iter().map(|k| k.to_string()).collect(), evals: count as u64, sample: Some(yaml) }
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Default)]
struct Conf {
    enabled: Option<bool>,
    threshold: Option<u32>,
    volume: Option<usize>,
    reset: Option<u64>,
    half: Option<usize>,
    codes: Option<Vec<&'static str>>,
}
impl Conf {
    fn gen(src: &mut Src, all: bool) -> Conf {
        let p = if all { 80 } else { 40 };
        Conf {
            enabled: src.chance(p).then(|| src.chance(85)),
            threshold: src.chance(p).then(|| *src.pick(&[50, 100, 34, 1, 67])),
            volume: src.chance(p).then(|| src.range(1, 4)),
            reset: src.chance(p).then(|| *src.pick(&[700, 60_000])),
            half: src.chance(p).then(|| src.range(1, 3)),
            codes: src.chance(40).then(|| src.subset(&["500", "'503'", "5xx", "'42x'", "404", "'50X'", "4xx"], 40)),
        }
    }
    fn or(&self, o: &Conf) -> Conf {
        Conf { enabled: self.enabled.or(o.enabled), threshold: self.threshold.or(o.threshold), volume: self.volume.or(o.volume), reset: self.reset.or(o.reset), half: self.half.or(o.half), codes: self.codes.clone().or(o.codes.clone()) }
    }
    fn yaml(&self, pad: &str) -> String {
        let mut y = format!("{pad}circuit_breaker:\n");
        let mut add = |k: &str, v: String| y += &format!("{pad}  {k}: {v}\n");
        if let Some(v) = self.enabled {
            add("enabled", v.to_string());
        }
        if let Some(v) = self.threshold {
            add("error_threshold", format!("{v}%"));
        }
        if let Some(v) = self.volume {
            add("volume_threshold", v.to_string());
        }
        if let Some(v) = self.reset {
            add("reset_timeout", format!("{v}ms"));
        }
        if let Some(v) = self.half {
            add("half_open_attempts", v.to_string());
        }
        if let Some(v) = &self.codes {
            add("error_status_codes", format!("[{}]", v.join(", ")));
        }
        match y.lines().count() {
            1 => String::new(),
            _ => y,
        }
    }
    fn fails(&self, status: u16) -> bool {
        match &self.codes {
            None => [500, 502, 503, 504].contains(&status),
            Some(l) => l.iter().any(|c| {
                let c = c.trim_matches('\'').to_ascii_lowercase();
                let s = status.to_string();
                c.chars().zip(s.chars()).all(|(x, y)| x == 'x' || x == y)
            }),
        }
    }
}

#[derive(Debug)]
enum State {
    Closed(Vec<bool>, bool),
    Half(Vec<bool>, bool),
    /// earliest and latest end
    Open(Instant, Instant),
}
/// A rolling sample: once it is full, the next one replaces the oldest and is judged.
fn roll(l: &mut Vec<bool>, full: &mut bool, len: usize, v: bool) -> Option<f32> {
    l.push(v);
    if *full {
        l.remove(0);
        return Some(l.iter().filter(|x| **x).count() as f32 / len as f32);
    }
    if l.len() == len {
        *full = true;
    }
    None
}

async fn breaker(src: &mut Src) -> Outcome {
    let all = src.chance(85).then(|| Conf::gen(src, true)).unwrap_or_default();
    let mut own: BTreeMap<&str, Conf> = BTreeMap::new();
    for n in ["a", "b"] {
        if src.chance(40) {
            let c = Conf::gen(src, false);
            own.insert(n, c);
        }
    }
    let conf: BTreeMap<&str, Conf> = ["a", "b"].iter().map(|n| (*n, own.get(n).cloned().unwrap_or_default().or(&all))).collect();
    if conf.values().all(|c| c.enabled != Some(true)) {
        return Outcome::Discard;
    }
    let mut yaml = String::from("traffic_shaping:\n  all:\n    dedupe_enabled: false\n");
    yaml += &all.yaml("    ");
    let o: String = own.iter().map(|(n, c)| (n, c.yaml("      "))).filter(|x| !x.1.is_empty()).map(|(n, y)| format!("    {n}:\n{y}")).collect();
    if !o.is_empty() {
        yaml += &format!("  subgraphs:\n{o}");
    }
    let script: Arc<Mutex<BTreeMap<String, u16>>> = Default::default();
    let sc = script.clone();
    let hook: Hook = Arc::new(move |seen, v| {
        let status = sc.lock().unwrap().get(&seen.sub).copied().unwrap_or(200);
        async move {
            match status {
                0 => MockResp::Drop,
                // GraphQL errors are no failures
                1 => json_resp(200, &json!({"data": null, "errors": [{"message": "no"}]})),
                s => json_resp(s, &v),
            }
        }
        .boxed()
    });
    let s = match Simple::start(&[("a", SDL_A), ("b", SDL_B)], &yaml, auto(), hook).await {
        Ok(s) => s,
        Err(e) => return Outcome::fail("router-does-not-start", format!("{yaml}{e}")),
    };
    let mut state: BTreeMap<&str, State> = ["a", "b"].iter().map(|n| (*n, State::Closed(vec![], false))).collect();
    let mut sig = hash_str(&yaml);
    let mut kinds = BTreeSet::new();
    let mut history: Vec<String> = vec![];
    let bad = src.range(20, 90) as u64;
    let mut waits = 0;
    let count = src.range(15, 45);
    for _ in 0..count {
        if waits < 3 && src.chance(35) && state.values().any(|s| matches!(s, State::Open(..))) && conf.values().any(|c| c.reset == Some(700)) {
            waits += 1;
            history.push("900 ms".into());
            tokio::time::sleep(Duration::from_millis(900)).await;
        }
        let q = *src.pick(&["{ a }", "{ b }", "{ a b }", "mutation { ma mb }"]);
        let asked: Vec<&str> = ["a", "b"].into_iter().filter(|n| q.contains(&format!("{n} ")) || q.contains("ma")).collect();
        let mut now = BTreeMap::new();
        for n in ["a", "b"] {
            let st = match src.chance(bad) {
                true => *src.pick(&[500u16, 503, 502, 0, 404, 422, 501, 504]),
                false => *src.pick(&[200u16, 200, 1, 400]),
            };
            now.insert(n.to_string(), st);
        }
        *script.lock().unwrap() = now.clone();
        s.take();
        let before = Instant::now();
        let r = match s.router.gql(&json!({"query": q}), &[]).await {
            Ok(r) => r,
            Err(e) => return Outcome::fail("no-response", format!("{yaml}{q}: {e}\n{history:?}")),
        };
        let after = Instant::now();
        let calls = s.take();
        let text = r.text();
        history.push(format!("{q} {now:?} -> {}", calls.iter().map(|c| c.sub.clone()).collect::<Vec<_>>().join(",")));
        sig = mix(sig, hash_str(history.last().unwrap()));
        let explain = |c: &str, m: String, st: &dyn std::fmt::Debug| Outcome::fail(c, format!("{m}\n{yaml}state before: {st:?}\nhistory: {history:#?}\nanswer: {} {}", r.status, truncate(&text, 600)));
        let rejections = r.json().and_then(|b| b["errors"].as_array().cloned()).unwrap_or_default().iter().filter(|e| e["extensions"]["code"] == "SUBGRAPH_CIRCUIT_BREAKER_REJECTED").map(|e| e["extensions"]["service"].as_str().unwrap_or("?").to_string()).collect::<Vec<_>>();
        for n in ["a", "b"] {
            let c = &conf[n];
            let on = c.enabled == Some(true);
            let reached = calls.iter().filter(|x| x.sub == n).count();
            let st = state.get_mut(n).unwrap();
            if !asked.contains(&n) {
                if reached > 0 || rejections.iter().any(|x| x == n) {
                    return explain("unrelated-subgraph", n.into(), st);
                }
                continue;
            }
            // a mutation stops when its first field cannot be fetched? both continue
            if reached > 1 {
                return explain("asked-twice", n.into(), st);
            }
            let rejected = rejections.iter().any(|x| x == n);
            if rejected == (reached == 1) {
                return explain("neither-asked-nor-rejected", n.into(), st);
            }
            if !on {
                if rejected {
                    return explain("rejected-without-a-breaker", n.into(), st);
                }
                continue;
            }
            if let State::Open(lo, hi) = st {
                kinds.insert("open");
                if after < *lo && !rejected {
                    return explain("open-breaker-lets-through", n.into(), st);
                }
                if before > *hi && rejected {
                    return explain("breaker-stays-open", n.into(), st);
                }
                if rejected {
                    continue;
                }
                *st = State::Half(vec![], false);
            } else if rejected {
                return explain("closed-breaker-rejects", n.into(), st);
            }
            let status = now[n];
            let fail = status == 0 || status > 1 && c.fails(status);
            let limit = c.threshold.map_or(0.5f32, |t| (f64::from(t) / 100.0) as f32);
            let reset = Duration::from_millis(c.reset.unwrap_or(30_000));
            let next = match st {
                State::Closed(l, full) => match roll(l, full, c.volume.unwrap_or(5), fail) {
                    Some(rate) if rate >= limit => Some(State::Open(before + reset, after + reset)),
                    _ => None,
                },
                State::Half(l, full) => match roll(l, full, c.half.unwrap_or(10), fail) {
                    Some(rate) if fail && rate >= limit => Some(State::Open(before + reset, after + reset)),
                    Some(rate) if !fail && rate <= limit => {
                        kinds.insert("recovered");
                        Some(State::Closed(vec![], false))
                    }
                    _ => None,
                },
                State::Open(..) => None,
            };
            if let Some(x) = next {
                *st = x;
            }
        }
    }
    Outcome::Pass { nontrivial: kinds.contains("open"), sig, labels: kinds.iter().map(|k| k.to_string()).collect(), evals: count as u64, sample: Some(yaml) }
}
