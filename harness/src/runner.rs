use crate::tape::{hash_str, mix, shrink, Outcome, Src};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::future::Future;
use std::path::PathBuf;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type BoxFut<'a> = Pin<Box<dyn Future<Output = Outcome> + 'a>>;
pub type CaseFn = for<'a> fn(&'a mut Src) -> BoxFut<'a>;

pub struct Part {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub case: CaseFn,
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub parts: Vec<Part>,
    /// pinned regressions: (known-finding key, case)
    pub findings: Vec<Finding>,
    pub workers: usize,
}

/// A recorded defect: a fixed input which is run first and is expected to fail in exactly this way.
pub struct Finding {
    pub key: &'static str,
    pub what: &'static str,
    pub case: fn(&'static str) -> BoxFut<'static>,
}

impl Property {
    pub fn new(id: &'static str, rule: &'static str) -> Self {
        Property { id, rule, assumptions: &[], parts: vec![], findings: vec![], workers: 24 }
    }
    pub fn part(mut self, name: &'static str, quick: u64, thorough: u64, case: CaseFn) -> Self {
        self.parts.push(Part { name, quick, thorough, case });
        self
    }
    pub fn workers(mut self, n: usize) -> Self {
        self.workers = n;
        self
    }
    pub fn assume(mut self, a: &'static [&'static str]) -> Self {
        self.assumptions = a;
        self
    }
    pub fn finding(mut self, key: &'static str, what: &'static str, case: fn(&'static str) -> BoxFut<'static>) -> Self {
        self.findings.push(Finding { key, what, case });
        self
    }
}

pub fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

#[derive(Default)]
struct Stats {
    evals: u64,
    cases: u64,
    discards: u64,
    sigs: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
}

pub fn block_on_local<F: Future + 'static>(f: F) -> F::Output
where
    F::Output: 'static,
{
    ntex::rt::System::new("v", ntex::rt::DefaultRuntime).block_on(f)
}

struct Found {
    part: usize,
    class: String,
    msg: String,
    tape: Vec<u64>,
}

pub static CURRENT: Mutex<Vec<(usize, String)>> = Mutex::new(Vec::new());

pub fn known_keys(id: &str) -> HashSet<String> {
    let text = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    let prefix = format!("open: property={id} key=");
    text.lines().filter_map(|l| l.strip_prefix(&prefix)).filter_map(|l| l.split(' ').next()).map(|k| k.to_string()).collect()
}

pub fn run(prop: Property) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let only: Option<String> = std::env::var("VERIF_PART").ok();
    let stats = Arc::new(Mutex::new(Stats::default()));
    let found: Arc<Mutex<Option<Found>>> = Arc::new(Mutex::new(None));
    let stop = Arc::new(AtomicBool::new(false));

    // pinned findings first
    let known = known_keys(prop.id);
    for f in prop.findings.iter().filter(|f| f.key != "any") {
        let (case, key) = (f.case, f.key);
        let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || block_on_local(async move { case(key).await }));
        let o = match h.unwrap().join() {
            Ok(o) => o,
            Err(_) => Outcome::fail("panic", "panicked"),
        };
        match o {
            Outcome::Fail { msg, .. } => {
                if known.contains(f.key) {
                    println!("KNOWN-FINDING: property={} {} [{}]", prop.id, f.what, f.key);
                } else {
                    return report(&prop, seed, &tier, f.key, &msg, json!({"pinned": f.key}), &stats.lock().unwrap(), t0);
                }
            }
            _ => {
                stats.lock().unwrap().evals += 1;
            }
        }
    }

    for (pi, part) in prop.parts.iter().enumerate() {
        if let Some(o) = &only {
            if o != part.name {
                continue;
            }
        }
        let total = ((if thorough { part.thorough } else { part.quick }) as f64 * scale).ceil() as u64;
        let next = Arc::new(AtomicU64::new(0));
        let workers = prop.workers.min(total.max(1) as usize);
        let base = mix(seed, hash_str(&format!("{}/{}", prop.id, part.name)));
        let mut hs = vec![];
        for w in 0..workers {
            let (stats, found, stop, next) = (stats.clone(), found.clone(), stop.clone(), next.clone());
            let case = part.case;
            let pname = part.name;
            hs.push(
                std::thread::Builder::new()
                    .name(format!("w{w}"))
                    .stack_size(256 << 20)
                    .spawn(move || {
                        block_on_local(async move {
                            loop {
                                if stop.load(Ordering::Relaxed) {
                                    return;
                                }
                                let i = next.fetch_add(1, Ordering::Relaxed);
                                if i >= total {
                                    return;
                                }
                                let mut src = Src::random(mix(base, i));
                                let o = guarded(case, &mut src).await;
                                match o {
                                    Outcome::Discard => stats.lock().unwrap().discards += 1,
                                    Outcome::Pass { nontrivial, sig, labels, evals, sample } => {
                                        let mut s = stats.lock().unwrap();
                                        s.cases += 1;
                                        s.evals += evals;
                                        if nontrivial && s.sigs.insert(sig) && s.samples.len() < 12 && (i % 7 == 3 || s.samples.len() < 3) {
                                            if let Some(x) = sample {
                                                s.samples.push(truncate(&x, 3000));
                                            }
                                        }
                                        for l in labels {
                                            *s.labels.entry(format!("{pname}:{l}")).or_default() += 1;
                                        }
                                    }
                                    Outcome::Fail { class, msg } if std::env::var("VERIF_COLLECT").is_ok() => {
                                        // development aid: keep going and write every failure down
                                        let dir = std::env::var("VERIF_COLLECT").unwrap();
                                        let _ = std::fs::create_dir_all(&dir);
                                        let rp = json!({"part": pname, "class": class, "tape": src.tape, "message": msg});
                                        let _ = std::fs::write(format!("{dir}/{pname}-{class}-{i}.json"), rp.to_string());
                                        stats.lock().unwrap().discards += 1;
                                    }
                                    Outcome::Fail { class, msg } => {
                                        let first = !stop.swap(true, Ordering::SeqCst);
                                        if !first {
                                            return;
                                        }
                                        eprintln!("failure [{class}] in case {i} of {pname}; shrinking ...\n{}", truncate(&msg, 4000));
                                        let tape = src.tape.clone();
                                        let budget = Duration::from_secs(if std::env::var("VERIF_NOSHRINK").is_ok() { 0 } else { 45 });
                                        let (tape, msg) = shrink(tape, class.clone(), msg, budget, 3000, |t| async move {
                                            let mut s = Src::replay(t);
                                            let o = guarded(case, &mut s).await;
                                            (o, s.tape)
                                        })
                                        .await;
                                        *found.lock().unwrap() = Some(Found { part: pi, class, msg, tape });
                                        return;
                                    }
                                }
                            }
                        })
                    })
                    .unwrap(),
            );
        }
        let mut crashed = false;
        for h in hs {
            if h.join().is_err() {
                crashed = true;
            }
        }
        if let Some(f) = found.lock().unwrap().take() {
            let rp = json!({"part": prop.parts[f.part].name, "class": f.class, "tape": f.tape});
            return report(&prop, seed, &tier, &f.class, &f.msg, rp, &stats.lock().unwrap(), t0);
        }
        if crashed {
            eprintln!("a worker of the check itself crashed");
            return 3;
        }
        eprintln!("part {} done at {:.1}s", part.name, t0.elapsed().as_secs_f64());
    }
    let s = stats.lock().unwrap();
    write_evidence(&prop, seed, &tier, &s, t0, 0);
    println!(
        "property={} held: evaluations={} distinct_nontrivial={} discards={} wall={:.1}s",
        prop.id,
        s.evals,
        s.sigs.len(),
        s.discards,
        t0.elapsed().as_secs_f64()
    );
    for (k, v) in &s.labels {
        println!("  {k}: {v}");
    }
    if only.is_none() && (s.sigs.len() as u64) < 2 {
        eprintln!("vacuous run: no non-trivial cases");
        return 4;
    }
    0
}

/// Panics of the code under test inside a case become failures of class "panic".
async fn guarded(case: CaseFn, src: &mut Src) -> Outcome {
    use futures::FutureExt;
    match std::panic::AssertUnwindSafe(case(src)).catch_unwind().await {
        Ok(o) => o,
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".into());
            if m.contains("HARNESS") {
                eprintln!("harness error: {m}");
                std::process::exit(5);
            }
            Outcome::fail("panic", format!("panicked: {m}"))
        }
    }
}

pub fn harness_error(m: impl std::fmt::Display) -> ! {
    eprintln!("HARNESS ERROR: {m}");
    std::process::exit(5)
}

pub fn truncate(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}…", &s[..e])
    }
}

fn report(prop: &Property, seed: u64, tier: &str, class: &str, msg: &str, mut rp: Value, s: &Stats, t0: Instant) -> i32 {
    let dir = verif_dir().join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}.json", prop.id, class.replace(|c: char| !c.is_ascii_alphanumeric(), "_")));
    rp["property"] = json!(prop.id);
    rp["seed"] = json!(seed);
    rp["message"] = json!(msg);
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&rp).unwrap());
    write_evidence(prop, seed, tier, s, t0, 1);
    println!("--- minimal failing case ({class}) ---\n{}\n---", truncate(msg, 20000));
    println!("VIOLATION property={} replay={}", prop.id, path.display());
    1
}

fn write_evidence(prop: &Property, seed: u64, tier: &str, s: &Stats, t0: Instant, violations: u64) {
    let mut samples = s.samples.clone();
    samples.truncate(6);
    if samples.is_empty() {
        samples.push("(no sample recorded before the run ended)".into());
    }
    let ev = json!({
        "property": prop.id,
        "tier": if tier == "thorough" { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": s.evals,
            "cases": s.cases,
            "discarded": s.discards,
            "distinct_nontrivial": s.sigs.len(),
            "rule": prop.rule,
            "samples": samples,
            "distribution": s.labels,
        },
        "assumptions": prop.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let p = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&p);
    if let Err(e) = std::fs::write(p.join(format!("{}.json", prop.id)), serde_json::to_string_pretty(&ev).unwrap()) {
        harness_error(format!("cannot write evidence: {e}"));
    }
}

pub fn replay(prop: Property, file: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("read replay")).expect("json");
    let o = if let Some(k) = v["pinned"].as_str() {
        let f = prop.findings.iter().find(|f| f.key == k).expect("pinned");
        let (c, key) = (f.case, f.key);
        std::thread::Builder::new().stack_size(256 << 20).spawn(move || block_on_local(async move { c(key).await })).unwrap().join().unwrap()
    } else {
        let part = prop.parts.iter().find(|p| v["part"] == p.name).expect("part");
        let tape: Vec<u64> = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
        let case = part.case;
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn(move || {
                block_on_local(async move {
                    let mut s = Src::replay(tape);
                    guarded(case, &mut s).await
                })
            })
            .unwrap()
            .join()
            .unwrap()
    };
    match o {
        Outcome::Fail { class, msg } => {
            println!("--- replayed failure ({class}) ---\n{msg}");
            println!("VIOLATION property={} replay={}", prop.id, file);
            1
        }
        o => {
            println!("replay does not fail: {o:?}");
            0
        }
    }
}

/// development aid: shrink every failure of a VERIF_COLLECT directory
pub fn shrink_all(prop: Property, dir: &str) {
    let files: Vec<PathBuf> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().is_some_and(|e| e == "json")).collect();
    let files = Arc::new(Mutex::new(files));
    let parts: Vec<(&'static str, CaseFn)> = prop.parts.iter().map(|p| (p.name, p.case)).collect();
    let secs: u64 = std::env::var("VERIF_SHRINK").ok().and_then(|s| s.parse().ok()).unwrap_or(25);
    let hs: Vec<_> = (0..8)
        .map(|_| {
            let files = files.clone();
            let parts = parts.clone();
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    block_on_local(async move {
                        loop {
                            let Some(f) = files.lock().unwrap().pop() else { return };
                            let v: Value = serde_json::from_str(&std::fs::read_to_string(&f).unwrap()).unwrap();
                            let case = parts.iter().find(|p| v["part"] == p.0).unwrap().1;
                            let tape: Vec<u64> = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
                            let class = v["class"].as_str().unwrap().to_string();
                            let (tape, msg) = shrink(tape, class.clone(), v["message"].as_str().unwrap().into(), Duration::from_secs(secs), 5000, |t| async move {
                                let mut s = Src::replay(t);
                                let o = guarded(case, &mut s).await;
                                (o, s.tape)
                            })
                            .await;
                            let _ = std::fs::write(f.with_extension("txt"), &msg);
                            let _ = std::fs::write(&f, json!({"part": v["part"], "class": class, "tape": tape, "message": msg}).to_string());
                        }
                    })
                })
                .unwrap()
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
}
