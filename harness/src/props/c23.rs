//! C23: subscriptions: every event, in order, as one server would answer it, over every pair of transports.
use crate::mock::{json_resp, raw_resp, Handler, MockReq, MockResp, Mount};
use crate::router::Router;
use crate::runner::{truncate, BoxFut, Property};
use crate::simple::*;
use crate::tape::{hash_str, mix, Outcome, Src};
use crate::world::interp::RV;
use crate::world::opgen::{gen_op, OpCfg};
use bytes::Bytes;
use futures::{FutureExt, SinkExt, StreamExt};
use http_body_util::BodyExt;
use hyper_util::rt::TokioIo;
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashMap};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio_tungstenite::tungstenite::{self, protocol::Role, Message};
use tokio_tungstenite::WebSocketStream;

pub fn property() -> Property {
    Property::new("C23", "a case is a router over three subgraphs and 2-6 generated subscription operations (fragments, aliases, abstract types, variables, conditions; fields of other subgraphs), each over one of the client transports (SSE, incremental multipart, Apollo multipart, WebSocket with several operations on a connection) and one of the subgraph transports (SSE, multipart with generated boundaries and framing, WebSocket, HTTP callback with messages of strangers between), with 0-12 generated events - hostile strings, nulls, event errors, heartbeats and comments between - cut into arbitrary chunks, and an end: complete, end of stream, a malformed event, a broken transfer. Every client must receive, strictly parsed, exactly the reference's answer for each event in order, then the protocol's end. Part lifecycle: 1-9 clients on endless streams (some falling silent), with or without shared upstreams, leaving at once, after some events, by complete, by closing or by vanishing; whoever remains misses and repeats nothing, identical subscriptions share one upstream when asked to, no upstream stays open after its clients, nothing follows a complete, and a schema reload ends every stream with its error. Non-trivial: an operation received two events, or a client left")
        .part("streams", 900, 12000, |s: &mut Src| -> BoxFut<'_> { Box::pin(run(s)) })
        .part("lifecycle", 60, 2000, |s: &mut Src| -> BoxFut<'_> { Box::pin(super::c23life::run(s)) })
        .workers(12)
}

const SDL_A: &str = "type Query { q: Int ev: Ev } scalar JSON interface Node { id: ID! label: String } type Ev implements Node @key(fields: \"id\") { id: ID! label: String mix: String! @shareable a: Int name(n: Int = 3): String other: Item list: [Item] } type Item implements Node @key(fields: \"id\") { id: ID! label: String mix: String size: Float } type Lone { x: Int s: String js: JSON ev: Ev } union Pick = Ev | Item | Lone type Subscription { ev(n: Int, tag: String = \"t\"): Ev evs: [Ev] node: Node pick: Pick picks: [Pick!] num: Int text: String! js: JSON item(k: Kind): Item! lone: Lone } enum Kind { ONE TWO }";
const SDL_B: &str = "type Query { qb: Int } type Ev @key(fields: \"id\") { id: ID! mix: String @shareable b: Int bs(k: Int): [String] peer: Item } type Item @key(fields: \"id\") { id: ID! bb: String owner: Ev }";
const SDL_C: &str = "type Query { qc: Int } type Ev @key(fields: \"id\") { id: ID! c: Boolean next: Ev } type Item @key(fields: \"id\") { id: ID! w: Int }";

const NASTY: &[&str] = &["plain", "---", "--graphql", "--graphql--", "-----", "a\n\ndata: x\n\n", "event: complete\n\n", "é\u{1F600}\u{2028}", "\"}", "{\"payload\":null}", ": c", "\r\n--graphql\r\n", "--b0undary--\r\n", "data:", "", "\\u0041"];

fn resolver(n: u64) -> Resolver {
    Arc::new(move |ty, f, args, id| {
        let h = mix(mix(hash_str(&format!("{ty}.{f}")), id), hash_str(&args.to_string()));
        if ty == "Subscription" {
            let h = mix(h, n);
            let node = |h: u64| obj(["Ev", "Item"][(h % 2) as usize], h % 97);
            let any = |h: u64| obj(["Ev", "Item", "Lone"][(h % 3) as usize], h % 97);
            let null = h % 11 == 5;
            return Some(match f {
                "item" if h % 13 == 4 => RV::Null,
                "item" => obj("Item", h % 97),
                "text" => RV::Leaf(json!(format!("{}{n}", NASTY[(h % NASTY.len() as u64) as usize]))),
                _ if null => RV::Null,
                "ev" => obj("Ev", h % 97),
                "evs" => RV::List((0..h % 4).map(|i| obj("Ev", mix(h, i) % 97)).collect()),
                "node" => node(h),
                "pick" => any(h),
                "picks" => RV::List((0..h % 4).map(|i| any(mix(h, i))).collect()),
                "num" => RV::Leaf(json!(n)),
                "js" => RV::Leaf(json!({"event": n, "payload": [null, NASTY[(h % NASTY.len() as u64) as usize]], "errors": 1})),
                "lone" => obj("Lone", h % 97),
                _ => return None,
            });
        }
        if matches!(f, "label" | "name" | "s" | "bb") {
            return Some(RV::Leaf(json!(NASTY[(h % NASTY.len() as u64) as usize])));
        }
        (h % 9 == 4 && f != "id" && f != "mix").then_some(RV::Null)
    })
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Complete,
    /// the stream just ends
    Eof,
    Malformed,
    Broken,
}
#[derive(Clone, Debug)]
enum Item {
    Event { n: u64, error: Option<String> },
    Noise(u64),
    Pause(u64),
}
#[derive(Clone, Debug)]
struct Script {
    items: Vec<Item>,
    end: End,
    mode: usize, // 0 SSE, 1 multipart
    frame: u64,
    cuts: Vec<usize>,
    pretty: bool,
}

fn event(sc: &Schemas, body: &Value, n: u64, error: &Option<String>) -> Value {
    let mut v = auto_answer(&sc.subs[0].schema, &resolver(n), body);
    if let Some(m) = error {
        let mut es = v["errors"].as_array().cloned().unwrap_or_default();
        es.push(json!({"message": m, "extensions": {"code": "ODD"}}));
        v["errors"] = Value::Array(es);
    }
    v
}

fn boundary(frame: u64) -> &'static str {
    ["graphql", "-", "b0undary", "x", "--graphql", "a'()+_,./:=?z"][(frame % 6) as usize]
}

/// the bytes of a subgraph's HTTP stream
fn stream_text(s: &Script, sc: &Schemas, body: &Value) -> (String, Vec<u8>) {
    let f = s.frame;
    let text = |v: &Value| if s.pretty { serde_json::to_string_pretty(v).unwrap() } else { v.to_string() };
    let mut out = String::new();
    if s.mode == 0 {
        let nl = if f % 3 == 1 { "\r\n" } else { "\n" };
        let sp = if f % 5 == 2 { "" } else { " " };
        for i in &s.items {
            match i {
                Item::Event { n, error } => {
                    let t = text(&event(sc, body, *n, error));
                    let data: String = t.lines().map(|l| format!("data:{sp}{l}{nl}")).collect();
                    let id = if f % 7 == 3 { format!("id: {n}{nl}retry: 100{nl}") } else { String::new() };
                    out += &if f % 11 == 4 { format!("{data}{id}event:{sp}next{nl}{nl}") } else { format!("{id}event:{sp}next{nl}{data}{nl}") };
                }
                Item::Noise(k) => out += &match k % 3 {
                    0 => format!(":{nl}{nl}"),
                    1 => format!(": event: complete{nl}{nl}"),
                    _ => format!("event: ping{nl}data: {{}}{nl}{nl}"),
                },
                Item::Pause(_) => out.push('\u{1}'),
            }
        }
        match s.end {
            End::Complete => out += &if f % 2 == 0 { format!("event: complete{nl}{nl}") } else { format!("event: complete{nl}data:{nl}{nl}") },
            End::Malformed => out += &format!("event: next{nl}data: {{\"data\": {{\"x\"{nl}{nl}"),
            _ => {}
        }
        return ("text/event-stream".to_string() + if f % 13 == 5 { ";charset=utf-8" } else { "" }, out.into_bytes());
    }
    let b = boundary(f);
    let nl = "\r\n";
    let quoted = f % 2 == 0 || b.contains(|c: char| !c.is_ascii_alphanumeric() && c != '-');
    let ct = format!("multipart/mixed;{}boundary={}{}", if f % 3 == 0 { " " } else { "" }, if quoted { format!("\"{b}\"") } else { b.to_string() }, if f % 5 == 0 { "; subscriptionSpec=\"1.0\"" } else { "" });
    let wrap = f % 7 < 4;
    if f % 17 == 3 {
        out += "preamble";
        out += nl;
    }
    if f % 3 == 1 {
        out += nl;
    }
    out += &format!("--{b}");
    let part = |t: &str| {
        let head = match f % 4 {
            0 => "Content-Type: application/json\r\n",
            1 => "content-type: application/json; charset=utf-8\r\n",
            2 => "",
            _ => "Content-Type: application/json\r\nX-Other: 1\r\n",
        };
        format!("{nl}{head}{nl}{t}{nl}--{b}")
    };
    for i in &s.items {
        match i {
            Item::Event { n, error } => {
                let v = event(sc, body, *n, error);
                out += &part(&text(&if wrap { json!({"payload": v}) } else { v }));
            }
            Item::Noise(_) => out += &part("{}"),
            Item::Pause(_) => out.push('\u{1}'),
        }
    }
    match s.end {
        End::Complete => out += &format!("--{}", if f % 2 == 0 { nl } else { "" }),
        End::Malformed => out += &part("{\"payload\": {\"data\": {"),
        _ => {}
    }
    (ct, out.into_bytes())
}

fn streamed(ct: &str, bytes: Vec<u8>, s: &Script) -> MockResp {
    // \u{1} marks a pause
    let mut chunks: Vec<(Bytes, u64)> = vec![];
    let mut cuts = s.cuts.iter().copied().cycle();
    let pauses: Vec<u64> = s.items.iter().filter_map(|i| if let Item::Pause(p) = i { Some(*p) } else { None }).collect();
    for (k, seg) in bytes.split(|b| *b == 1).enumerate() {
        let mut rest = seg;
        let mut pause = if k == 0 { 0 } else { pauses[k - 1] };
        if rest.is_empty() {
            chunks.push((Bytes::new(), pause));
        }
        while !rest.is_empty() {
            let n = if s.cuts.is_empty() { rest.len() } else { cuts.next().unwrap().clamp(1, rest.len()) };
            chunks.push((Bytes::copy_from_slice(&rest[..n]), pause));
            pause = 0;
            rest = &rest[n..];
        }
    }
    let broken = s.end == End::Broken;
    let frames = futures::stream::unfold((0, chunks), move |(i, chunks)| async move {
        if i < chunks.len() {
            let (c, p) = chunks[i].clone();
            if p > 0 {
                tokio::time::sleep(Duration::from_millis(p)).await;
            } else {
                tokio::task::yield_now().await;
            }
            return Some((Ok(hyper::body::Frame::data(c)), (i + 1, chunks)));
        }
        if broken && i == chunks.len() {
            tokio::time::sleep(Duration::from_millis(5)).await;
            return Some((Err(std::io::Error::other("broken off")), (i + 1, chunks)));
        }
        None
    });
    let b = http::Response::builder().status(200).header("content-type", ct);
    MockResp::Http(b.body(BodyExt::boxed(http_body_util::StreamBody::new(Box::pin(frames)))).unwrap())
}

struct World {
    sc: Arc<Schemas>,
    scripts: Mutex<HashMap<String, Script>>,
    log: Mutex<Vec<String>>,
    open: AtomicU64,
    port: AtomicU64,
    wrong: Mutex<Vec<String>>,
}

type Ws = WebSocketStream<TokioIo<hyper::upgrade::Upgraded>>;

/// a graphql-transport-ws server
async fn serve_ws(mut ws: Ws, w: Arc<World>) {
    let script_of = |v: &Value| v["x-script"].as_str().map(|s| s.to_string());
    let mut script = None;
    while let Some(Ok(m)) = ws.next().await {
        let Message::Text(t) = m else { continue };
        let Ok(v) = serde_json::from_str::<Value>(t.as_str()) else { return };
        match v["type"].as_str().unwrap_or("") {
            "connection_init" => {
                script = script_of(&v["payload"]);
                let _ = ws.send(Message::text("{\"type\":\"connection_ack\"}")).await;
            }
            "ping" => {
                let _ = ws.send(Message::text("{\"type\":\"pong\"}")).await;
            }
            "subscribe" => {
                let id = v["id"].clone();
                w.log.lock().unwrap().push(format!("ws [{}] {}", script.as_deref().unwrap_or("?"), v["payload"]["query"]));
                let Some(s) = script.as_ref().and_then(|n| w.scripts.lock().unwrap().get(n).cloned()) else {
                    w.log.lock().unwrap().push(format!("no script for {v}"));
                    return;
                };
                for i in &s.items {
                    match i {
                        Item::Event { n, error } => {
                            let p = event(&w.sc, &v["payload"], *n, error);
                            if ws.send(Message::text(json!({"id": id, "type": "next", "payload": p}).to_string())).await.is_err() {
                                return;
                            }
                        }
                        Item::Noise(k) => {
                            let _ = ws.send(if k % 2 == 0 { Message::text("{\"type\":\"ping\"}") } else { Message::Ping(Bytes::from_static(b"x")) }).await;
                        }
                        Item::Pause(p) => tokio::time::sleep(Duration::from_millis(*p)).await,
                    }
                }
                match s.end {
                    End::Complete => {
                        let _ = ws.send(Message::text(json!({"id": id, "type": "complete"}).to_string())).await;
                    }
                    End::Malformed => {
                        let _ = ws.send(Message::text(json!({"id": id, "type": "error", "payload": [{"message": "no more"}]}).to_string())).await;
                    }
                    End::Eof => {
                        let _ = ws.close(None).await;
                        tokio::time::sleep(Duration::from_millis(150)).await;
                        return;
                    }
                    End::Broken => {
                        // a reset would discard what the router has not read yet
                        tokio::time::sleep(Duration::from_millis(150)).await;
                        return;
                    }
                }
            }
            _ => {}
        }
    }
}

/// one message of the callback protocol, 0 when the router did not answer
async fn post(port: u64, path: &str, protocol: &str, v: &Value) -> u16 {
    static CLIENT: std::sync::OnceLock<hyper_util::client::legacy::Client<hyper_util::client::legacy::connect::HttpConnector, http_body_util::Full<Bytes>>> = std::sync::OnceLock::new();
    let c = CLIENT.get_or_init(|| hyper_util::client::legacy::Client::builder(hyper_util::rt::TokioExecutor::new()).build_http());
    let req = http::Request::builder().method("POST").uri(format!("http://127.0.0.1:{port}{path}")).header("content-type", "application/json").header("subscription-protocol", protocol);
    match c.request(req.body(http_body_util::Full::new(Bytes::from(v.to_string()))).unwrap()).await {
        Ok(r) => {
            let s = r.status().as_u16();
            let _ = r.into_body().collect().await;
            s
        }
        Err(_) => 0,
    }
}

/// a subgraph that answers by calling back
async fn call_back(w: Arc<World>, body: Value, s: Script) {
    let ext = &body["extensions"]["subscription"];
    let (id, ver) = (ext["subscriptionId"].clone(), ext["verifier"].clone());
    let path = ext["callbackUrl"].as_str().and_then(|u| u.parse::<http::Uri>().ok()).map(|u| u.path().to_string()).unwrap_or_default();
    let port = w.port.load(Ordering::SeqCst);
    let msg = |a: &str| json!({"kind": "subscription", "action": a, "id": id, "verifier": ver});
    let wrong = |m: String| w.wrong.lock().unwrap().push(m);
    let good = "callback/1.0";
    for i in &s.items {
        match i {
            Item::Event { n, error } => {
                let mut m = msg("next");
                m["payload"] = event(&w.sc, &body, *n, error);
                let st = post(port, &path, good, &m).await;
                if st != 204 {
                    wrong(format!("an event was answered with {st}"));
                    return;
                }
            }
            Item::Noise(k) => {
                // heartbeats, and messages that must have no effect
                let mut m = msg(["check", "next", "complete"][(k % 3) as usize]);
                m["payload"] = json!({"data": {"intruder": true}});
                let (mut p, mut proto, mut want) = (path.clone(), good, 204);
                match k % 6 {
                    0 => {}
                    1 | 2 => {
                        m["verifier"] = json!(if *k % 4 == 1 { String::new() } else { ver.as_str().unwrap_or("").to_lowercase() });
                        want = 400;
                    }
                    3 => {
                        proto = "callback/2.0";
                        want = 400;
                    }
                    4 => {
                        let other = format!("{}X", id.as_str().unwrap_or(""));
                        p = path.replace(id.as_str().unwrap_or("?"), &other);
                        want = 404;
                        if *k < 12 {
                            m["id"] = json!(other);
                        }
                    }
                    _ => {
                        m = msg("next");
                        want = 400;
                    }
                }
                let st = post(port, &p, proto, &m).await;
                if st != want {
                    wrong(format!("{m} at {p} ({proto}) was answered with {st} instead of {want}"));
                }
            }
            Item::Pause(p) => tokio::time::sleep(Duration::from_millis(*p)).await,
        }
    }
    let mut m = msg("complete");
    if s.end == End::Malformed {
        m["errors"] = json!([{"message": "no more"}]);
    }
    let st = post(port, &path, good, &m).await;
    if st != 204 {
        wrong(format!("complete was answered with {st}"));
    }
    let st = post(port, &path, good, &msg("check")).await;
    if st != 404 {
        wrong(format!("a message after complete was answered with {st}"));
    }
}

fn handler(w: Arc<World>) -> Handler {
    Arc::new(move |r: MockReq| {
        let w = w.clone();
        async move {
            if let Some(up) = r.upgrade {
                let key = r.headers.get("sec-websocket-key").map(|v| v.as_bytes().to_vec()).unwrap_or_default();
                tokio::spawn(async move {
                    if let Ok(io) = up.await {
                        w.open.fetch_add(1, Ordering::SeqCst);
                        serve_ws(WebSocketStream::from_raw_socket(TokioIo::new(io), Role::Server, None).await, w.clone()).await;
                        w.open.fetch_sub(1, Ordering::SeqCst);
                    }
                });
                return raw_resp(101, &[("upgrade", "websocket"), ("connection", "Upgrade"), ("sec-websocket-accept", &tungstenite::handshake::derive_accept_key(&key)), ("sec-websocket-protocol", "graphql-transport-ws")], "");
            }
            let body: Value = serde_json::from_slice(&r.body).unwrap_or(Value::Null);
            let script = r.headers.get("x-script").and_then(|v| v.to_str().ok()).unwrap_or("").to_string();
            w.log.lock().unwrap().push(format!("{} [{script}] {}", r.subgraph, body["query"].as_str().unwrap_or("?")));
            if body["query"].as_str().unwrap_or("").starts_with("subscription") {
                let s = w.scripts.lock().unwrap().get(&script).cloned();
                return match s {
                    Some(s) if body["extensions"]["subscription"].is_object() => {
                        let p = s.frame % 2 == 0;
                        let job = call_back(w.clone(), body, s);
                        if p {
                            tokio::spawn(job);
                        } else {
                            // the first events come before the answer
                            let h = tokio::spawn(job);
                            let _ = tokio::time::timeout(Duration::from_millis(3), h).await;
                        }
                        json_resp(200, &json!({"data": null}))
                    }
                    Some(s) => {
                        let (ct, bytes) = stream_text(&s, &w.sc, &body);
                        streamed(&ct, bytes, &s)
                    }
                    None => raw_resp(500, &[], "no script"),
                };
            }
            let Some(sub) = w.sc.subs.iter().find(|s| s.name == r.subgraph) else { return raw_resp(500, &[], "unknown subgraph") };
            json_resp(200, &auto_answer(&sub.schema, &resolver(0), &body))
        }
        .boxed()
    })
}

// ---- clients

#[derive(Debug)]
struct Received {
    payloads: Vec<Value>,
    completed: bool,
    note: String,
}

pub fn parse_sse(text: &str) -> Result<(Vec<Value>, bool), String> {
    let (mut out, mut done) = (vec![], false);
    let (mut ev, mut data): (String, Option<String>) = (String::new(), None);
    if !text.is_empty() && !text.ends_with("\n\n") {
        return Err("the last event is not closed".into());
    }
    for line in text.split('\n') {
        let line = line.strip_suffix('\r').unwrap_or(line);
        if line.is_empty() {
            if !ev.is_empty() || data.is_some() {
                if done {
                    return Err("an event after complete".into());
                }
                match ev.as_str() {
                    "next" => out.push(serde_json::from_str(data.as_deref().unwrap_or("")).map_err(|e| format!("data is no JSON: {e}"))?),
                    "complete" => done = true,
                    e => return Err(format!("event {e:?}")),
                }
            }
            ev.clear();
            data = None;
            continue;
        }
        if line.starts_with(':') {
            continue;
        }
        let (f, v) = line.split_once(':').unwrap_or((line, ""));
        let v = v.strip_prefix(' ').unwrap_or(v);
        match f {
            "event" => ev = v.into(),
            "data" => data = Some(data.map_or(v.to_string(), |d| format!("{d}\n{v}"))),
            _ => return Err(format!("field {f:?}")),
        }
    }
    Ok((out, done))
}

pub fn parse_multipart(text: &str, b: &str, wrapped: bool) -> Result<(Vec<Value>, bool), String> {
    let mut out = vec![];
    let text = format!("\r\n{text}");
    let delim = format!("\r\n--{b}");
    let mut parts = text.split(&delim as &str);
    if !parts.next().unwrap_or("").trim().is_empty() {
        return Err("text before the first part".into());
    }
    let mut done = false;
    for p in parts {
        if done {
            return Err("a part after the end".into());
        }
        if let Some(rest) = p.strip_prefix("--") {
            if !rest.trim().is_empty() {
                return Err("text after the end".into());
            }
            done = true;
            continue;
        }
        let p = p.strip_prefix("\r\n").ok_or("no line break after a boundary")?;
        let (head, body) = p.split_once("\r\n\r\n").ok_or("no blank line after the part's headers")?;
        if !head.to_ascii_lowercase().contains("content-type: application/json") {
            return Err(format!("part headers {head:?}"));
        }
        let v: Value = serde_json::from_str(body).map_err(|e| format!("part is no JSON: {e}: {body:?}"))?;
        match wrapped {
            true if v == json!({}) => {}
            true => out.push(v.get("payload").cloned().ok_or("no payload")?),
            false => out.push(v),
        }
    }
    Ok((out, done))
}

async fn http_client(router: &Router, body: &Value, script: &str, kind: usize) -> Result<Received, String> {
    let accept = ["text/event-stream", "multipart/mixed", "multipart/mixed;subscriptionSpec=\"1.0\""][kind];
    let r = router.gql_accept(body, &[("x-script", script)], accept).await?;
    let ct = r.header("content-type").unwrap_or_default();
    let text = String::from_utf8(r.body.to_vec()).map_err(|e| e.to_string())?;
    let note = format!("{} {ct}: {}", r.status, truncate(&text, 1500));
    if r.status != 200 {
        return Ok(Received { payloads: vec![], completed: false, note });
    }
    let want = ["text/event-stream", "multipart/mixed;boundary=\"-\"", "multipart/mixed;boundary=\"graphql\";subscriptionSpec=1.0"][kind];
    if ct != want {
        return Err(format!("content-type: {note}"));
    }
    let (payloads, completed) = match kind {
        0 => parse_sse(&text),
        1 => parse_multipart(&text, "-", false),
        _ => parse_multipart(&text, "graphql", true),
    }
    .map_err(|e| format!("{e}: {note}"))?;
    Ok(Received { payloads, completed, note })
}

pub type Client = WebSocketStream<tokio::net::TcpStream>;
pub async fn ws_connect(port: u16, path: &str, init: Value) -> Result<Client, String> {
    use tungstenite::client::IntoClientRequest;
    let io = tokio::net::TcpStream::connect(("127.0.0.1", port)).await.map_err(|e| e.to_string())?;
    let mut req = format!("ws://127.0.0.1:{port}{path}").into_client_request().map_err(|e| e.to_string())?;
    req.headers_mut().insert("sec-websocket-protocol", http::HeaderValue::from_static("graphql-transport-ws"));
    let (mut ws, _) = tokio_tungstenite::client_async(req, io).await.map_err(|e| e.to_string())?;
    ws.send(Message::text(json!({"type": "connection_init", "payload": init}).to_string())).await.map_err(|e| e.to_string())?;
    loop {
        match ws.next().await {
            Some(Ok(Message::Text(t))) if t.contains("connection_ack") => return Ok(ws),
            Some(Ok(Message::Ping(_) | Message::Pong(_))) => {}
            x => return Err(format!("no ack: {x:?}")),
        }
    }
}

/// several operations on one connection
async fn ws_client(router: &Router, path: &str, ops: &[(Value, String)], together: bool) -> Vec<Result<Received, String>> {
    let fail = |e: String| ops.iter().map(|_| Err(e.clone())).collect::<Vec<_>>();
    let mut ws = match ws_connect(router.port, path, json!({})).await {
        Ok(w) => w,
        Err(e) => return fail(format!("connect: {e}")),
    };
    let mut got: Vec<Received> = ops.iter().map(|_| Received { payloads: vec![], completed: false, note: String::new() }).collect();
    let mut next = 0;
    let run = async {
        while got.iter().any(|g| !g.completed) {
            while next < ops.len() && (together || next == 0 || got[next - 1].completed) {
                let mut p = ops[next].0.clone();
                p["extensions"] = json!({"headers": {"x-script": ops[next].1}});
                let m = json!({"id": format!("op {next}"), "type": "subscribe", "payload": p});
                ws.send(Message::text(m.to_string())).await.map_err(|e| e.to_string())?;
                next += 1;
            }
            match ws.next().await {
                Some(Ok(Message::Text(t))) => {
                    let v: Value = serde_json::from_str(t.as_str()).map_err(|e| format!("{e}: {t}"))?;
                    if v["type"] == "ping" || v["type"] == "pong" {
                        continue;
                    }
                    let k: usize = v["id"].as_str().and_then(|s| s.strip_prefix("op ")).and_then(|s| s.parse().ok()).ok_or(format!("id of {t}"))?;
                    let g = &mut got[k];
                    g.note += &truncate(t.as_str(), 400);
                    g.note.push('\n');
                    if g.completed {
                        return Err(format!("a message after the end of {k}: {t}"));
                    }
                    match v["type"].as_str().unwrap_or("") {
                        "next" => g.payloads.push(v["payload"].clone()),
                        "complete" => g.completed = true,
                        "error" => {
                            g.payloads.push(json!({"errors": v["payload"]}));
                            g.completed = true;
                        }
                        x => return Err(format!("message {x}")),
                    }
                }
                Some(Ok(Message::Ping(_) | Message::Pong(_))) => {}
                x => return Err(format!("connection ended: {x:?}")),
            }
        }
        Ok(())
    };
    let r = tokio::time::timeout(Duration::from_secs(60), run).await;
    match r {
        Err(_) => fail(format!("no end within 60 s; so far {}", truncate(&format!("{got:?}"), 1500))),
        Ok(Err(e)) => fail(e),
        Ok(Ok(())) => got.into_iter().map(Ok).collect(),
    }
}

async fn run(src: &mut Src) -> Outcome {
    let sc = schemas(&[("a", SDL_A), ("b", SDL_B), ("c", SDL_C)]);
    let sub_t = src.weighted(&[45, 30, 25]); // HTTP, WebSocket, callback
    let sub_ws = sub_t == 1;
    let own_path = src.chance(30);
    let masking = *src.pick(&[0, 1, 2]);
    let mut yaml = String::from("headers:\n  all:\n    request:\n      - propagate:\n          named: x-script\nwebsocket:\n  enabled: true\n  headers:\n    source: both\n");
    if own_path {
        yaml += "  path: /socket\n";
    }
    yaml += "subscriptions:\n  enabled: true\n";
    if sub_ws {
        yaml += src.pick(&["  websocket:\n    all:\n      path: /x\n", "  websocket:\n    subgraphs:\n      a: {}\n"]);
    }
    if sub_t == 2 {
        let path = *src.pick(&["/callback", "/deep/hook"]);
        yaml += &format!("  callback:\n    public_url: http://router.invalid{path}\n    path: {path}\n    heartbeat_interval: 60s\n    subgraphs: [a]\n");
    }
    yaml += ["", "error_masking:\n  enabled: false\n", "error_masking:\n  all:\n    enabled: true\n  subgraphs:\n    a:\n      enabled: false\n"][masking];
    let world = Arc::new(World { sc: sc.clone(), scripts: Default::default(), log: Default::default(), open: AtomicU64::new(0), port: AtomicU64::new(0), wrong: Default::default() });
    let mount = Mount::new(handler(world.clone()));
    if yaml.contains("path: /x") {
        // the path replaces the one of the subgraph's URL
        yaml = yaml.replace("path: /x\n", &format!("path: /w/{}/a/ws\n", mount.id));
    }
    let file = supergraph_file(&sc, &mount);
    let router = match Router::start(&format!("{}{yaml}", base_yaml(&file))).await {
        Ok(r) => match r.ready().await {
            Ok(r) => Arc::new(r),
            Err(e) => return Outcome::fail("router-does-not-start", e),
        },
        Err(e) => return Outcome::fail("router-does-not-start", format!("{e}\n{yaml}")),
    };
    world.port.store(router.port as u64, Ordering::SeqCst);
    let ws_path = router.ws_path.clone().unwrap_or("/graphql".into());
    let count = src.range(2, 7);
    let mut ops = vec![];
    let mut sig = hash_str(&yaml);
    for k in 0..count {
        let cfg = OpCfg { kind: "subscription", max_roots: 1, max_depth: 4, ..Default::default() };
        let mut op = gen_op(src, &sc.api, &cfg);
        if src.chance(12) {
            // fields whose types differ in the subgraph but not in the supergraph
            let sel = src.pick(&["... on Ev { mix label } ... on Item { mix }", "... on Item { id mix bb } ... on Ev { mix b }", "... on Ev { x: mix peer { bb } } ... on Item { x: mix owner { c } }"]);
            op.text = format!("subscription {{ {} {{ __typename {sel} }} }}", src.pick(&["pick", "picks", "node", "p: pick"]));
            op.roots.truncate(0);
            op.name = None;
            op.vars.clear();
        }
        if op.text.is_empty() {
            continue;
        }
        let single = match apollo_compiler::ExecutableDocument::parse_and_validate(&sc.api, &op.text, "q") {
            Ok(d) => d.operations.iter().all(|o| o.root_fields(&d).count() == 1 && o.root_fields(&d).all(|f| !f.name.starts_with("__") && f.directives.is_empty())) && op.roots.iter().all(|r| matches!(r, crate::world::opgen::Sel::Field { .. })),
            Err(_) => false,
        };
        if !single {
            continue;
        }
        let events = if src.chance(10) { 0 } else { src.range(1, 13) };
        let mut items = vec![];
        let noisy = src.chance(50);
        let pausing = src.chance(30);
        for _ in 0..events {
            if noisy && src.chance(30) {
                items.push(Item::Noise(src.below(24)));
            }
            if pausing && src.chance(25) {
                items.push(Item::Pause(*src.pick(&[1, 5, 30])));
            }
            let error = src.chance(12).then(|| format!("boom {}", src.n(1000)));
            items.push(Item::Event { n: src.below(100_000), error });
        }
        let mut end = [End::Complete, End::Eof, End::Malformed, End::Broken][src.weighted(&[70, 10, 10, 10])];
        if sub_t == 2 && end != End::Complete {
            end = End::Malformed;
        }
        let cuts: Vec<usize> = match src.n(4) {
            0 => vec![],
            1 => vec![1],
            2 => (0..src.range(1, 5)).map(|_| src.range(1, 12)).collect(),
            _ => (0..src.range(1, 5)).map(|_| src.range(1, 400)).collect(),
        };
        let s = Script { items, end, mode: src.n(2), frame: src.below(1000), cuts, pretty: src.chance(30) };
        let id = format!("s{k}");
        sig = mix(sig, hash_str(&format!("{}{s:?}", op.text)));
        world.scripts.lock().unwrap().insert(id.clone(), s.clone());
        let client = src.weighted(&[30, 20, 20, 30]);
        ops.push((op.body(), id, s, client));
    }
    if ops.is_empty() {
        return Outcome::Discard;
    }
    let together = src.chance(60);
    let (mut jobs, mut ws_ops) = (vec![], vec![]);
    for (i, (body, id, _, client)) in ops.iter().enumerate() {
        if *client == 3 {
            ws_ops.push((i, (body.clone(), id.clone())));
            continue;
        }
        let (r, body, id, client) = (router.clone(), body.clone(), id.clone(), *client);
        jobs.push((vec![i], tokio::task::spawn_local(async move { vec![http_client(&r, &body, &id, client).await] })));
    }
    if !ws_ops.is_empty() {
        let (r, path) = (router.clone(), ws_path.clone());
        let idx = ws_ops.iter().map(|x| x.0).collect();
        let list: Vec<_> = ws_ops.into_iter().map(|x| x.1).collect();
        jobs.push((idx, tokio::task::spawn_local(async move { ws_client(&r, &path, &list, together).await })));
    }
    let mut results: Vec<Option<Result<Received, String>>> = ops.iter().map(|_| None).collect();
    for (idx, j) in jobs {
        let rs = match j.await {
            Ok(x) => x,
            Err(e) => crate::runner::harness_error(e),
        };
        for (i, r) in idx.into_iter().zip(rs) {
            results[i] = Some(r);
        }
    }
    if let Some(m) = world.wrong.lock().unwrap().first() {
        return Outcome::fail("callback-answered-wrongly", format!("{m}\n{yaml}{:?}", ops.iter().map(|o| (&o.0, &o.2)).collect::<Vec<_>>()));
    }
    let (mut nontrivial, mut evals) = (false, 0);
    let mut labels = BTreeSet::new();
    for (i, (body, id, s, client)) in ops.iter().enumerate() {
        let r = results[i].take().unwrap();
        let log: Vec<String> = world.log.lock().unwrap().iter().filter(|l| l.contains(&format!("[{id}]")) || l.starts_with("no script")).cloned().collect();
        let explain = |c: &str, m: String| Outcome::fail(c, format!("{m}\n{body}\nclient {} subgraph {}\n{s:?}\nsubgraph requests: {log:#?}\n{yaml}", ["sse", "multipart", "apollo", "ws"][*client], ["sse", "multipart", "ws", "callback"][if sub_t == 0 { s.mode } else { sub_t + 1 }]));
        let got = match r {
            Ok(g) => g,
            Err(e) => return explain(if e.contains("HANG") || e.contains("no end within") { "never-ends" } else { "bad-stream" }, e),
        };
        let q = body["query"].as_str().unwrap();
        let mut want = vec![];
        for it in &s.items {
            if let Item::Event { n, error } = it {
                let doc = match sc.reference(&resolver(*n), q, body["operationName"].as_str(), &body["variables"]) {
                    Ok(d) => d,
                    Err(e) => crate::runner::harness_error(format!("{e} {q}")),
                };
                want.push((doc, error));
            }
        }
        evals += want.len() as u64;
        let mut rest = got.payloads.as_slice();
        for (k, (d, e)) in want.iter().enumerate() {
            let Some((p, r)) = rest.split_first() else {
                return explain("events-lost", format!("event {k} of {} is missing: {}", want.len(), got.note));
            };
            rest = r;
            if p.get("data") != Some(d) {
                return explain("event-differs", format!("event {k}: got {p}\nwant {d}"));
            }
            let errs = p["errors"].as_array().cloned().unwrap_or_default();
            match e {
                Some(m) => {
                    let m: &str = if masking == 0 { "Unexpected error" } else { m };
                    if !errs.iter().any(|x| x["message"] == m && x["extensions"]["code"] == "ODD") {
                        return explain("event-error-differs", format!("event {k}: want error {m:?}, got {p}"));
                    }
                }
                None => {
                    // a null in a non-null position is an error of the subgraph
                    if !errs.is_empty() && !d.is_null() {
                        return explain("event-with-a-strange-error", format!("event {k}: got {p}"));
                    }
                }
            }
        }
        match s.end {
            End::Complete if !rest.is_empty() => return explain("additional-event", format!("{rest:?}")),
            End::Malformed | End::Broken | End::Eof => {
                if rest.len() > 1 || rest.iter().any(|p| !p["data"].is_null() || p["errors"].as_array().is_none_or(|e| e.is_empty())) {
                    return explain("additional-event", format!("{rest:?}"));
                }
                if rest.is_empty() && (s.end == End::Malformed || s.end == End::Broken && !sub_ws) {
                    return explain("failure-not-reported", got.note);
                }
            }
            _ => {}
        }
        if !got.completed {
            return explain("not-ended-by-the-protocol", got.note);
        }
        nontrivial |= want.len() >= 2;
        labels.insert(format!("client:{}", ["sse", "multipart", "apollo", "ws"][*client]));
        labels.insert(format!("subgraph:{}", ["sse", "multipart", "ws", "callback"][if sub_t == 0 { s.mode } else { sub_t + 1 }]));
        labels.insert(format!("end:{:?}", s.end));
        if log.len() > 1 {
            labels.insert("resolves-entities".into());
        }
        if want.iter().any(|w| w.1.is_some()) {
            labels.insert("event-errors".into());
        }
    }
    let sample = ops.first().map(|o| format!("{} {:?}", o.0, o.2));
    Outcome::Pass { nontrivial, sig, labels: labels.into_iter().collect(), evals, sample }
}
