pub mod data;
pub mod gen;
pub mod interp;
pub mod mock_sub;
pub mod model;
pub mod opgen;

use crate::mock::{json_resp, Handler, MockReq, MockResp, Mount};
use crate::router::{yaml_str, Router};
use crate::runner::{harness_error, verif_dir};
use crate::tape::Src;
use apollo_compiler::validation::Valid;
use apollo_compiler::Schema;
use futures::FutureExt;
use gen::Profile;
use mock_sub::{answer, SubAnswer, SubLog, SubSchema};
use model::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::{Arc, Mutex};

struct Composer {
    _child: Child,
    stdin: ChildStdin,
    out: BufReader<ChildStdout>,
}
thread_local! { static COMPOSER: RefCell<Option<Composer>> = const { RefCell::new(None) }; }

pub struct Composed {
    pub supergraph: String,
    pub api: String,
}

pub fn compose(subs: &[(String, String, String)]) -> Result<Composed, Vec<String>> {
    COMPOSER.with(|c| {
        let mut c = c.borrow_mut();
        let comp = c.get_or_insert_with(|| {
            let bin = verif_dir().join("composer/target/debug/vcomposer");
            let mut child = Command::new(&bin)
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .unwrap_or_else(|e| harness_error(format!("cannot start composer {}: {e}", bin.display())));
            let stdin = child.stdin.take().unwrap();
            let out = BufReader::new(child.stdout.take().unwrap());
            Composer { _child: child, stdin, out }
        });
        let req = json!({"subgraphs": subs.iter().map(|(n, u, s)| json!({"name": n, "url": u, "sdl": s})).collect::<Vec<_>>()});
        let mut line = serde_json::to_string(&req).unwrap();
        line.push('\n');
        if comp.stdin.write_all(line.as_bytes()).and_then(|_| comp.stdin.flush()).is_err() {
            harness_error("composer died");
        }
        let mut reply = String::new();
        match comp.out.read_line(&mut reply) {
            Ok(n) if n > 0 => {}
            _ => harness_error("composer gave no answer"),
        }
        let v: Value = serde_json::from_str(&reply).unwrap_or_else(|e| harness_error(format!("composer reply: {e}")));
        if v["ok"] == true {
            Ok(Composed { supergraph: v["supergraph"].as_str().unwrap().into(), api: v["api"].as_str().unwrap().into() })
        } else {
            Err(v["errors"].as_array().map(|a| a.iter().map(|e| e.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default())
        }
    })
}

/// a composed world with everything needed to execute it
pub struct Live {
    pub w: World,
    pub supergraph: String,
    pub api_sdl: String,
    pub api: Valid<Schema>,
    pub subs: Vec<SubSchema>,
}

pub fn url_placeholder(s: usize) -> String {
    format!("http://127.0.0.1:1/placeholder/{}", sub_name(s))
}

pub fn build(w: World) -> Result<Live, String> {
    let subs: Vec<(String, String, String)> = (0..w.nsub).map(|s| (sub_name(s), url_placeholder(s), w.sdl(s))).collect();
    let c = compose(&subs).map_err(|e| e.join("; "))?;
    let api = Schema::parse_and_validate(&c.api, "api.graphql").map_err(|e| format!("HARNESS api schema: {e}"))?;
    let mut ss = vec![];
    for s in 0..w.nsub {
        ss.push(SubSchema::new(&w.exec_sdl(s), &sub_name(s)).unwrap_or_else(|e| harness_error(format!("exec schema of s{s}: {e}\n{}", w.exec_sdl(s)))));
    }
    Ok(Live { w, supergraph: c.supergraph, api_sdl: c.api, api, subs: ss })
}

pub static REJECTS: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());

/// generates until composition accepts (bounded); the rejected attempts stay on the tape
pub fn gen_live(src: &mut Src, p: &Profile) -> Option<Live> {
    for _ in 0..8 {
        let Some(w) = gen::gen_world(src, p) else {
            *REJECTS.lock().unwrap().entry("no candidates".into()).or_default() += 1;
            continue;
        };
        match build(w) {
            Ok(l) => return Some(l),
            Err(e) => {
                if std::env::var("VERIF_DEBUG").is_ok() {
                    *REJECTS.lock().unwrap().entry(e.chars().take(160).collect()).or_default() += 1;
                }
            }
        }
    }
    None
}

#[derive(Default)]
pub struct Shared {
    pub log: Vec<SubLog>,
    pub broken: BTreeMap<(String, String), String>,
    pub labels: Option<BTreeSet<String>>,
    pub hits: u64,
    /// replaces what a subgraph sends back
    pub hook: Option<Hook>,
    pub lenient: bool,
}
pub type Hook = Arc<dyn Fn(&MockReq, usize, SubAnswer) -> futures::future::BoxFuture<'static, MockResp> + Send + Sync>;

/// mounts the world's subgraphs on the mock server
pub fn mount(live: &Arc<Live>, shared: &Arc<Mutex<Shared>>) -> Mount {
    let (live, shared) = (live.clone(), shared.clone());
    let h: Handler = Arc::new(move |r: MockReq| {
        let (live, shared) = (live.clone(), shared.clone());
        async move {
            let a = serve(&live, &shared, &r);
            let hook = shared.lock().unwrap().hook.clone();
            match hook {
                Some(h) => h(&r, a.log.sub, a).await,
                None => MockResp::from_answer(a),
            }
        }
        .boxed()
    });
    Mount::new(h)
}

pub fn sub_index(n: &str) -> usize {
    n.strip_prefix('s').and_then(|x| x.parse().ok()).unwrap_or_else(|| harness_error(format!("unknown subgraph path {n}")))
}

pub fn serve(live: &Live, shared: &Mutex<Shared>, r: &MockReq) -> SubAnswer {
    let (broken, labels, lenient) = {
        let g = shared.lock().unwrap();
        (g.broken.clone(), g.labels.clone(), g.lenient)
    };
    let s = sub_index(&r.subgraph);
    let a = answer(&live.w, s, &live.subs[s], &r.body, &broken, labels.as_ref(), lenient);
    let mut g = shared.lock().unwrap();
    g.log.push(a.log.clone());
    g.hits += a.hits;
    a
}

impl MockResp {
    pub fn from_answer(a: SubAnswer) -> MockResp {
        json_resp(200, &a.body)
    }
}

/// router configuration for a supergraph string
pub fn config_yaml(supergraph: &str, live: &Live, mount: &Mount, extra: &str) -> (tempfile::NamedTempFile, String) {
    let mut sg = supergraph.to_string();
    for s in (0..live.w.nsub).rev() {
        sg = sg.replace(&url_placeholder(s), &mount.url(&sub_name(s)));
    }
    let mut f = tempfile::Builder::new().prefix("vsg").suffix(".graphql").tempfile().unwrap_or_else(|e| harness_error(e));
    f.write_all(sg.as_bytes()).unwrap();
    f.flush().unwrap();
    let y = format!("supergraph:\n  source: file\n  path: {}\nlog:\n  level: error\n{extra}", yaml_str(f.path().to_str().unwrap()));
    (f, y)
}

pub struct Deployed {
    pub live: Arc<Live>,
    pub shared: Arc<Mutex<Shared>>,
    pub router: Router,
    _mount: Mount,
    _file: tempfile::NamedTempFile,
}

pub async fn deploy(live: Arc<Live>, extra: &str) -> Result<Deployed, String> {
    let shared = Arc::new(Mutex::new(Shared::default()));
    let m = mount(&live, &shared);
    let (file, yaml) = config_yaml(&live.supergraph, &live, &m, extra);
    let router = Router::start(&yaml).await?.ready().await?;
    Ok(Deployed { live, shared, router, _mount: m, _file: file })
}

impl Deployed {
    pub fn reset(&self) {
        let mut g = self.shared.lock().unwrap();
        g.log.clear();
        g.hits = 0;
    }
    pub fn take_log(&self) -> Vec<SubLog> {
        std::mem::take(&mut self.shared.lock().unwrap().log)
    }
}

pub fn dump_world(live: &Live) -> String {
    if let Ok(p) = std::env::var("VERIF_DUMP") {
        let _ = std::fs::write(p, json!({"world": live.w, "query": "{__typename}", "variables": {}}).to_string());
    }
    (0..live.w.nsub).map(|s| format!("--- subgraph s{s}\n{}", live.w.sdl(s))).collect::<Vec<_>>().join("\n")
}

/// the router's plan (developer aid, only with VERIF_PLAN set)
pub async fn explain(live: &Arc<Live>, op: &opgen::Op) -> String {
    if std::env::var("VERIF_PLAN").is_err() {
        return String::new();
    }
    let Ok(d) = deploy(live.clone(), "query_planner:\n  allow_expose: true\n").await else { return String::new() };
    match d.router.gql(&op.body(), &[("hive-expose-query-plan", "dry-run")]).await {
        Ok(r) => {
            let v: Value = r.json().unwrap_or(Value::Null);
            let mut out = String::new();
            render_plan(&v["extensions"]["queryPlan"]["node"], 1, &mut out);
            format!("PLAN\n{out}\n{}", projection(live, op))
        }
        Err(e) => format!("PLAN {e}\n"),
    }
}
fn render_plan(n: &Value, ind: usize, out: &mut String) {
    let pad = "  ".repeat(ind);
    match n["kind"].as_str() {
        Some("Fetch") => out.push_str(&format!("{pad}Fetch {} {} REQ {} REW {} {}\n", n["serviceName"], n["operation"], n["requires"], n["inputRewrites"], n["outputRewrites"])),
        Some(k) => {
            let mut rest = n.clone();
            if let Value::Object(o) = &mut rest {
                for k in ["node", "nodes", "kind", "ifClause", "elseClause"] {
                    o.remove(k);
                }
            }
            out.push_str(&format!("{pad}{k} {rest}\n"));
            for c in n["nodes"].as_array().into_iter().flatten() {
                render_plan(c, ind + 1, out);
            }
            for k in ["node", "ifClause", "elseClause"] {
                if !n[k].is_null() {
                    out.push_str(&format!("{pad} {k}:\n"));
                    render_plan(&n[k], ind + 1, out);
                }
            }
        }
        None => out.push_str(&format!("{pad}{n}\n")),
    }
}

fn projection(live: &Live, op: &opgen::Op) -> String {
    use hive_router::executor::introspection::schema::SchemaWithMetadata;
    use hive_router::executor::projection::plan::FieldProjectionPlan;
    use hive_router::query_planner as qp;
    let sg = qp::utils::parsing::parse_schema(&live.supergraph);
    let md = qp::consumer_schema::ConsumerSchema::new_from_supergraph(&sg).schema_metadata();
    let st = qp::state::supergraph_state::SupergraphState::new(&sg);
    let doc = qp::utils::parsing::parse_operation(&op.text);
    match qp::ast::normalization::normalize_operation(&st, &doc, op.name.as_deref()) {
        Ok(n) => format!(
            "NORMALIZED {}\nPROJECTION\n{}\n",
            n.operation,
            FieldProjectionPlan::from_operation(&n.operation, &md).1.iter().map(|p| p.to_string()).collect::<Vec<_>>().join("\n")
        ),
        Err(e) => format!("NORMALIZATION {e}\n"),
    }
}

/// development aid: lets the generators produce the named known finding again (VERIF_KNOWN)
pub fn on(key: &str) -> bool {
    static ON: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    ON.get_or_init(|| std::env::var("VERIF_KNOWN").map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default()).iter().any(|k| k == key)
}

pub fn show_log(log: &[SubLog]) -> String {
    let mut m = String::new();
    for l in log {
        m.push_str(&format!("  -> s{}: {} {}\n     <- {}\n", l.sub, l.query, l.variables, crate::runner::truncate(&l.answer.to_string(), 1500)));
        for v in &l.violations {
            m.push_str(&format!("     !! {v}\n"));
        }
    }
    m
}
