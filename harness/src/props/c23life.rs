//! C23, part `lifecycle`: clients that leave, shared upstreams, schema reloads, over endless streams.
use super::c23::{ws_connect, Client};
use crate::mock::{raw_resp, Handler, MockReq, MockResp, Mount};
use crate::router::Router;
use crate::simple::*;
use crate::tape::{hash_str, Outcome, Src};
use bytes::Bytes;
use futures::{FutureExt, SinkExt, StreamExt};
use http_body_util::BodyExt;
use hyper_util::rt::TokioIo;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tokio_tungstenite::tungstenite::{self, protocol::Role, Message};
use tokio_tungstenite::WebSocketStream;

const SDL: &str = "type Query { q: Int } type Subscription { tick(k: String): Int tock(k: String): Int }";
const SDL2: &str = "type Query { q: Int q2: Int } type Subscription { tick(k: String): Int tock(k: String): Int }";
const TICK: u64 = 8;
const LIMIT: Duration = Duration::from_secs(12);

#[derive(Default)]
struct Counts {
    open: BTreeMap<String, i64>,
    total: BTreeMap<String, i64>,
}
struct Open(Arc<Mutex<Counts>>, String);
impl Open {
    fn new(c: &Arc<Mutex<Counts>>, k: &str) -> Open {
        let mut g = c.lock().unwrap();
        *g.open.entry(k.into()).or_default() += 1;
        *g.total.entry(k.into()).or_default() += 1;
        Open(c.clone(), k.into())
    }
}
impl Drop for Open {
    fn drop(&mut self) {
        *self.0.lock().unwrap().open.entry(self.1.clone()).or_default() -= 1;
    }
}

/// (topic, whether it falls silent after the first event, the frame)
fn topic_of(body: &Value) -> (String, bool) {
    let v = body["variables"].as_object().and_then(|o| o.values().find_map(|x| x.as_str().map(|s| s.to_string())));
    let k = v.unwrap_or_else(|| body["query"].as_str().unwrap_or("").split('"').nth(1).unwrap_or("?").to_string());
    let silent = k.starts_with("silent");
    (k, silent)
}

fn payload(body: &Value, n: u64) -> Value {
    let f = if body["query"].as_str().unwrap_or("").contains("tock") { "tock" } else { "tick" };
    json!({"data": {f: n}})
}

async fn serve_ws(mut ws: WebSocketStream<TokioIo<hyper::upgrade::Upgraded>>, c: Arc<Mutex<Counts>>) {
    let mut subs: HashMap<String, (Open, u64, Value)> = HashMap::new();
    let mut t = tokio::time::interval(Duration::from_millis(TICK));
    loop {
        tokio::select! {
            m = ws.next() => {
                let t = match m {
                    Some(Ok(Message::Text(t))) => t,
                    Some(Ok(Message::Close(_)) | Err(_)) | None => return,
                    _ => continue,
                };
                let Ok(v) = serde_json::from_str::<Value>(t.as_str()) else { return };
                let id = v["id"].as_str().unwrap_or("").to_string();
                match v["type"].as_str().unwrap_or("") {
                    "connection_init" => {
                        let _ = ws.send(Message::text("{\"type\":\"connection_ack\"}")).await;
                    }
                    "ping" => {
                        let _ = ws.send(Message::text("{\"type\":\"pong\"}")).await;
                    }
                    "subscribe" => {
                        let (k, _) = topic_of(&v["payload"]);
                        subs.insert(id, (Open::new(&c, &k), 0, v["payload"].clone()));
                    }
                    "complete" => {
                        subs.remove(&id);
                    }
                    _ => {}
                }
            }
            _ = t.tick() => {
                for (id, (o, n, p)) in subs.iter_mut() {
                    if *n > 0 && o.1.starts_with("silent") {
                        continue;
                    }
                    let m = json!({"id": id, "type": "next", "payload": payload(p, *n)});
                    *n += 1;
                    if ws.send(Message::text(m.to_string())).await.is_err() {
                        return;
                    }
                }
            }
        }
    }
}

fn handler(c: Arc<Mutex<Counts>>, multipart: bool) -> Handler {
    Arc::new(move |r: MockReq| {
        let c = c.clone();
        async move {
            if let Some(up) = r.upgrade {
                let key = r.headers.get("sec-websocket-key").map(|v| v.as_bytes().to_vec()).unwrap_or_default();
                tokio::spawn(async move {
                    if let Ok(io) = up.await {
                        serve_ws(WebSocketStream::from_raw_socket(TokioIo::new(io), Role::Server, None).await, c).await;
                    }
                });
                return raw_resp(101, &[("upgrade", "websocket"), ("connection", "Upgrade"), ("sec-websocket-accept", &tungstenite::handshake::derive_accept_key(&key)), ("sec-websocket-protocol", "graphql-transport-ws")], "");
            }
            let body: Value = serde_json::from_slice(&r.body).unwrap_or(Value::Null);
            if !body["query"].as_str().unwrap_or("").starts_with("subscription") {
                return crate::mock::json_resp(200, &json!({"data": {"q": 1}}));
            }
            let (k, silent) = topic_of(&body);
            let open = Open::new(&c, &k);
            let frames = futures::stream::unfold((0u64, open, body), move |(n, open, body)| async move {
                if n > 0 {
                    if silent {
                        std::future::pending::<()>().await;
                    }
                    tokio::time::sleep(Duration::from_millis(TICK)).await;
                }
                let p = payload(&body, n);
                let text = match (multipart, n) {
                    (true, 0) => format!("--graphql\r\ncontent-type: application/json\r\n\r\n{{\"payload\":{p}}}\r\n--graphql"),
                    (true, _) => format!("\r\ncontent-type: application/json\r\n\r\n{{\"payload\":{p}}}\r\n--graphql"),
                    (false, _) => format!("event: next\ndata: {p}\n\n"),
                };
                Some((Ok::<_, std::io::Error>(hyper::body::Frame::data(Bytes::from(text))), (n + 1, open, body)))
            });
            let ct = if multipart { "multipart/mixed;boundary=graphql;subscriptionSpec=1.0" } else { "text/event-stream" };
            let b = http::Response::builder().status(200).header("content-type", ct);
            MockResp::Http(b.body(BodyExt::boxed(http_body_util::StreamBody::new(Box::pin(frames)))).unwrap())
        }
        .boxed()
    })
}

/// what a client saw: the numbers, whether an error of a reload came, whether it was ended by the protocol
#[derive(Default, Debug, Clone)]
struct Seen {
    nums: Vec<u64>,
    reload: bool,
    ended: bool,
    odd: Option<String>,
}
impl Seen {
    fn payload(&mut self, p: &Value) {
        if self.ended || self.reload {
            self.odd = Some(format!("{p} after the end"));
        }
        if let Some(n) = p["data"]["tick"].as_u64().or(p["data"]["tock"].as_u64()) {
            self.nums.push(n);
        } else if p["errors"][0]["extensions"]["code"] == "SUBSCRIPTION_SCHEMA_RELOAD" {
            self.reload = true;
        } else {
            self.odd = Some(p.to_string());
        }
    }
}

#[derive(Clone, Debug)]
struct Plan {
    body: Value,
    topic: String,
    kind: usize, // 0 sse, 1 apollo multipart, 2 ws
    /// how many events until it leaves; None: stays until it is ended or told to go
    leave: Option<usize>,
    how: usize,
    late: bool,
}

type Shared = Arc<Mutex<Seen>>;

async fn http_client(port: u16, path: String, p: Plan, seen: Shared, mut go: tokio::sync::watch::Receiver<bool>) -> Result<(), String> {
    let c = hyper_util::client::legacy::Client::builder(hyper_util::rt::TokioExecutor::new()).pool_max_idle_per_host(0).build_http();
    let accept = ["text/event-stream", "multipart/mixed;subscriptionSpec=\"1.0\""][p.kind];
    let req = http::Request::builder().method("POST").uri(format!("http://127.0.0.1:{port}{path}")).header("content-type", "application/json").header("accept", accept);
    let fut = c.request(req.body(http_body_util::Full::new(Bytes::from(p.body.to_string()))).unwrap());
    let r = if p.leave == Some(0) && p.how == 0 {
        // gone before there is an answer
        match tokio::time::timeout(Duration::from_millis(2), fut).await {
            Ok(r) => r,
            Err(_) => return Ok(()),
        }
    } else {
        fut.await
    };
    let r = r.map_err(|e| format!("{e:?}"))?;
    if r.status() != 200 {
        return Err(format!("status {}", r.status()));
    }
    let mut body = r.into_body();
    let mut text = String::new();
    loop {
        if p.leave.is_some_and(|n| seen.lock().unwrap().nums.len() >= n) {
            return Ok(());
        }
        let f = tokio::select! {
            f = body.frame() => f,
            _ = go.changed() => return Ok(()),
        };
        match f {
            Some(Ok(f)) => {
                if let Some(d) = f.data_ref() {
                    text += &String::from_utf8_lossy(d);
                }
            }
            Some(Err(e)) => return Err(format!("broken response {e:?}")),
            None => {
                if !text.trim().is_empty() {
                    return Err(format!("ended within an event: {text:?}"));
                }
                seen.lock().unwrap().ended = true;
                return Ok(());
            }
        }
        let mut g = seen.lock().unwrap();
        if p.kind == 0 {
            while let Some((ev, rest)) = text.split_once("\n\n") {
                for l in ev.lines() {
                    if let Some(d) = l.strip_prefix("data:") {
                        if !d.trim().is_empty() {
                            g.payload(&serde_json::from_str(d).map_err(|e| format!("{e} {d}"))?);
                        }
                    }
                }
                text = rest.to_string();
            }
        } else {
            while let Some((part, rest)) = text.split_once("--graphql") {
                if let Some(i) = part.find('{') {
                    let v: Value = serde_json::from_str(part[i..].trim()).map_err(|e| format!("{e} {part}"))?;
                    if v != json!({}) {
                        g.payload(&v["payload"]);
                    }
                }
                text = rest.to_string();
            }
            if text.trim() == "--" {
                text.clear();
            }
        }
    }
}

/// the operations of one connection
async fn ws_client(port: u16, path: String, list: Vec<(Plan, Shared)>, mut go: tokio::sync::watch::Receiver<bool>) -> Result<(), String> {
    let mut ws: Client = ws_connect(port, &path, json!({})).await?;
    let mut left = vec![None; list.len()];
    for (i, (p, _)) in list.iter().enumerate() {
        let m = json!({"id": format!("{i}"), "type": "subscribe", "payload": p.body});
        ws.send(Message::text(m.to_string())).await.map_err(|e| e.to_string())?;
    }
    loop {
        for (i, (p, s)) in list.iter().enumerate() {
            let n = s.lock().unwrap().nums.len();
            if left[i].is_none() && p.leave.is_some_and(|k| n >= k) {
                if list.len() == 1 && p.how == 1 {
                    // the connection just goes away
                    return Ok(());
                }
                if list.len() == 1 && p.how == 2 {
                    let _ = ws.close(None).await;
                    return Ok(());
                }
                left[i] = Some(Instant::now());
                ws.send(Message::text(json!({"id": format!("{i}"), "type": "complete"}).to_string())).await.map_err(|e| e.to_string())?;
            }
        }
        let all_gone = list.iter().enumerate().all(|(i, (_, s))| s.lock().unwrap().ended || left[i].is_some_and(|t: Instant| t.elapsed() > Duration::from_millis(1500)));
        if all_gone {
            // unsubscribed everywhere, yet connected: nothing may keep the upstreams open
            let _ = tokio::time::timeout(LIMIT * 2, go.changed()).await;
            return Ok(());
        }
        let m = tokio::select! {
            m = ws.next() => m,
            _ = tokio::time::sleep(Duration::from_millis(100)) => continue,
            _ = go.changed() => return Ok(()),
        };
        match m {
            Some(Ok(Message::Text(t))) => {
                let v: Value = serde_json::from_str(t.as_str()).map_err(|e| format!("{e}: {t}"))?;
                if v["type"] == "ping" {
                    ws.send(Message::text("{\"type\":\"pong\"}")).await.map_err(|e| e.to_string())?;
                    continue;
                }
                let k: usize = v["id"].as_str().and_then(|s| s.parse().ok()).filter(|k| *k < list.len()).ok_or(format!("id of {t}"))?;
                if left[k].is_some_and(|l| l.elapsed() > Duration::from_millis(1000)) {
                    return Err(format!("LATE a message {:?} after complete was sent: {t}", left[k].map(|l| l.elapsed())));
                }
                let mut s = list[k].1.lock().unwrap();
                match v["type"].as_str().unwrap_or("") {
                    "next" => s.payload(&v["payload"]),
                    "complete" if !s.ended => s.ended = true,
                    "error" if !s.ended => {
                        s.payload(&json!({"errors": v["payload"]}));
                        s.ended = true;
                    }
                    _ => s.odd = Some(format!("{t} after the end")),
                }
            }
            Some(Ok(Message::Ping(_) | Message::Pong(_))) => {}
            x => return Err(format!("connection ended: {x:?}")),
        }
    }
}

pub async fn run(src: &mut Src) -> Outcome {
    let sc = schemas(&[("a", SDL)]);
    let sub_t = src.n(3); // SSE, multipart, WebSocket
    let dedupe = src.chance(50);
    let reload = src.chance(30);
    let mut yaml = String::from("websocket:\n  enabled: true\nsubscriptions:\n  enabled: true\n  broadcast_capacity: 2048\n");
    if sub_t == 2 {
        yaml += "  websocket:\n    subgraphs:\n      a: {}\n";
    }
    yaml += "traffic_shaping:\n";
    if sub_t == 2 && src.chance(50) {
        yaml += "  all:\n    websocket:\n      reuse_connections: true\n";
    }
    if dedupe {
        yaml += "  router:\n    dedupe:\n      enabled: true\n      headers: none\n";
    } else {
        yaml += "  router:\n    request_timeout: 50s\n";
    }
    let counts: Arc<Mutex<Counts>> = Default::default();
    let mount = Mount::new(handler(counts.clone(), sub_t == 1));
    let file = supergraph_file(&sc, &mount);
    let base = base_yaml(&file).replace("log:", "  poll_interval: 30ms\nlog:");
    let router = match Router::start(&format!("{base}{yaml}")).await {
        Ok(r) => match r.ready().await {
            Ok(r) => Arc::new(r),
            Err(e) => return Outcome::fail("router-does-not-start", e),
        },
        Err(e) => return Outcome::fail("router-does-not-start", format!("{e}\n{yaml}")),
    };
    let topics = src.range(1, 3);
    let mut plans: Vec<Plan> = vec![];
    for t in 0..topics {
        let silent = src.chance(35);
        let topic = format!("{}{t}", if silent { "silent" } else { "t" });
        let n = src.range(1, 4);
        let stays = src.chance(50);
        let q = if src.chance(50) { json!({"query": format!("subscription {{ tick(k: \"{topic}\") }}")}) } else { json!({"query": "subscription($k: String) { tock(k: $k) }", "variables": {"k": topic}}) };
        for i in 0..n {
            // the first stays, the others come when it has seen an event
            let most = if silent && (!dedupe || n == 1) { 2 } else if silent { 1 } else { 7 };
            let leave = if stays && i == 0 { None } else { Some(src.n(most)) };
            plans.push(Plan { body: q.clone(), topic: topic.clone(), kind: src.weighted(&[35, 20, 45]), leave, how: src.n(3), late: stays && i > 0 });
        }
    }
    let sig = hash_str(&format!("{yaml}{plans:?}{reload}"));
    let (tx, rx) = tokio::sync::watch::channel(false);
    let seen: Vec<Shared> = plans.iter().map(|_| Shared::default()).collect();
    let share_ws = src.chance(50);
    let mut jobs: Vec<(Vec<usize>, tokio::task::JoinHandle<Result<(), String>>)> = vec![];
    let ws_path = router.ws_path.clone().unwrap_or("/graphql".into());
    let fail = |c: &str, m: String| {
        let seen: Vec<_> = seen.iter().map(|s| s.lock().unwrap().clone()).collect();
        let g = counts.lock().unwrap();
        Outcome::fail(c, format!("{m}\n{yaml}\nsubgraph transport {}\nplans\n{}\nseen {seen:?}\nopen {:?} total {:?}", ["sse", "multipart", "ws"][sub_t], plans.iter().map(|p| format!("  {} {} leave {:?} how {} late {} {}", p.topic, ["sse", "apollo", "ws"][p.kind], p.leave, p.how, p.late, p.body)).collect::<Vec<_>>().join("\n"), g.open, g.total))
    };
    for round in 0..2 {
        if round == 1 {
            // those who stay have their first event
            let t = Instant::now();
            while plans.iter().zip(&seen).any(|(p, s)| p.leave.is_none() && s.lock().unwrap().nums.is_empty()) {
                if t.elapsed() > LIMIT {
                    return fail("no-first-event", String::new());
                }
                tokio::time::sleep(Duration::from_millis(2)).await;
            }
        }
        let mut ws_list = vec![];
        for (i, p) in plans.iter().enumerate().filter(|(_, p)| p.late == (round == 1)) {
            if p.kind == 2 {
                ws_list.push(i);
                continue;
            }
            jobs.push((vec![i], tokio::task::spawn_local(http_client(router.port, router.path.clone(), p.clone(), seen[i].clone(), rx.clone()))));
        }
        let groups: Vec<Vec<usize>> = if share_ws { vec![ws_list] } else { ws_list.into_iter().map(|i| vec![i]).collect() };
        for g in groups.into_iter().filter(|g| !g.is_empty()) {
            let list = g.iter().map(|i| (plans[*i].clone(), seen[*i].clone())).collect();
            jobs.push((g, tokio::task::spawn_local(ws_client(router.port, ws_path.clone(), list, rx.clone()))));
        }
    }
    // whoever leaves has left when nothing but the stayers' topics is open
    let staying = |k: &str| plans.iter().any(|p| p.topic == k && p.leave.is_none());
    let closed = |keep: bool| {
        let g = counts.lock().unwrap();
        let bad = g.open.iter().any(|(k, n)| {
            let want = if keep && staying(k) { 1 } else { 0 };
            *n > want
        });
        !bad
    };
    let start = Instant::now();
    loop {
        if let Some((_, j)) = jobs.iter_mut().find(|(idx, j)| j.is_finished() && idx.iter().any(|i| plans[*i].leave.is_none())) {
            return match j.await {
                Ok(Err(e)) if e.starts_with("LATE") => fail("events-after-complete", e),
                r => fail("stream-ended-early", format!("{r:?}")),
            };
        }
        let reached = plans.iter().zip(&seen).all(|(p, s)| s.lock().unwrap().nums.len() >= p.leave.unwrap_or(1));
        if reached && start.elapsed() > Duration::from_millis(60) && closed(true) {
            break;
        }
        if start.elapsed() > LIMIT {
            return fail(if reached { "upstream-stays-open" } else { "events-missing" }, "after every leaving client had left".into());
        }
        tokio::time::sleep(Duration::from_millis(3)).await;
    }
    // the stayers still receive
    let before: Vec<usize> = seen.iter().map(|s| s.lock().unwrap().nums.len()).collect();
    tokio::time::sleep(Duration::from_millis(TICK * 5)).await;
    let t = Instant::now();
    while plans.iter().enumerate().any(|(i, p)| p.leave.is_none() && !p.topic.starts_with("silent") && seen[i].lock().unwrap().nums.len() <= before[i]) {
        if t.elapsed() > LIMIT {
            return fail("a-remaining-client-receives-nothing", String::new());
        }
        tokio::time::sleep(Duration::from_millis(5)).await;
    }
    let any_stays = plans.iter().any(|p| p.leave.is_none());
    if dedupe {
        let g = counts.lock().unwrap();
        if let Some((k, n)) = g.total.iter().find(|(k, n)| staying(k) && **n != 1) {
            let m = format!("{n} upstreams for {k}");
            drop(g);
            return fail("upstream-not-shared", m);
        }
    } else {
        // a client that left at once may never have got to the subgraph
        let g = counts.lock().unwrap();
        for (k, n) in &g.total {
            let all = plans.iter().filter(|p| p.topic == *k).count() as i64;
            let sure = plans.iter().filter(|p| p.topic == *k && p.leave != Some(0)).count() as i64;
            if *n > all || *n < sure {
                let m = format!("{n} upstreams for {k}, {sure} to {all} expected");
                drop(g);
                return fail("upstreams-differ", m);
            }
        }
    }
    if reload && any_stays {
        let text = schemas(&[("a", SDL2)]).supergraph.replace("http://127.0.0.1:1/placeholder/a/", &mount.url("a"));
        std::fs::write(file.path(), text).unwrap();
        let t = Instant::now();
        while plans.iter().zip(&seen).any(|(p, s)| p.leave.is_none() && !(s.lock().unwrap().reload && s.lock().unwrap().ended)) {
            if t.elapsed() > LIMIT {
                return fail("reload-does-not-end-the-stream", String::new());
            }
            tokio::time::sleep(Duration::from_millis(3)).await;
        }
        // whatever would follow the end
        tokio::time::sleep(Duration::from_millis(40)).await;
    }
    let _ = tx.send(true);
    for (_, j) in jobs {
        match j.await {
            Ok(Ok(())) => {}
            Ok(Err(e)) if e.starts_with("LATE") => return fail("events-after-complete", e),
            Ok(Err(e)) => return fail("bad-stream", e),
            Err(e) => crate::runner::harness_error(e),
        }
    }
    let t = Instant::now();
    while !closed(false) {
        if t.elapsed() > LIMIT {
            return fail("upstream-stays-open", "after all clients had left".into());
        }
        tokio::time::sleep(Duration::from_millis(3)).await;
    }
    let mut evals = 0;
    for (p, s) in plans.iter().zip(&seen) {
        let s = s.lock().unwrap().clone();
        if let Some(m) = s.odd {
            return fail("odd-message", m);
        }
        if s.nums.windows(2).any(|w| w[1] != w[0] + 1) {
            return fail("events-lost-or-doubled", format!("{:?}", s.nums));
        }
        if !dedupe && s.nums.first().is_some_and(|n| *n != 0) {
            return fail("first-event-lost", format!("{:?}", s.nums));
        }
        if s.reload != (reload && p.leave.is_none()) && s.reload {
            return fail("odd-message", "a reload without one".into());
        }
        evals += s.nums.len() as u64;
    }
    let mut labels = vec![format!("subgraph:{}", ["sse", "multipart", "ws"][sub_t])];
    if dedupe {
        labels.push("shared".into());
    }
    if reload && any_stays {
        labels.push("reload".into());
    }
    if plans.iter().any(|p| p.leave == Some(0)) {
        labels.push("leaves-at-once".into());
    }
    if plans.iter().any(|p| p.topic.starts_with("silent")) {
        labels.push("silent-upstream".into());
    }
    Outcome::Pass { nontrivial: plans.iter().any(|p| p.leave.is_some()), sig, labels, evals, sample: Some(format!("{plans:?}")) }
}
