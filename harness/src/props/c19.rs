//! C19: persisted documents: which document an id stands for, and when a document is accepted.
use crate::mock::{raw_resp, Mount};
use crate::router::yaml_str;
use crate::runner::{harness_error, truncate, BoxFut, Property};
use crate::simple::*;
use crate::tape::{hash_str, mix, Outcome, Src};
use bytes::Bytes;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex};

pub fn property() -> Property {
    Property::new("C19", "a case is a persisted-documents configuration (selectors in a generated order over body fields, extensions, URL path templates and URL parameters, or the defaults; id required, optional or by an expression; a manifest in either format, or a CDN stand-in) and 10-30 requests, one by one or at once, which carry ids - known, unknown, empty, numeric, of wrong types, encoded - in several places and possibly a query text; some cases then replace the manifest. A reference picks the id and the document; the router must execute exactly that document (every document answers under its own key) or refuse without a subgraph request. Non-trivial: documents were executed by id and requests were refused")
        .part("manifest", 220, 8000, |s: &mut Src| -> BoxFut<'_> { Box::pin(manifest(s)) })
        .part("cdn", 100, 4000, |s: &mut Src| -> BoxFut<'_> { Box::pin(cdn(s)) })
        .workers(8)
}

const SDL: &str = "type Query { f(n: Int): Int } type Mutation { m(n: Int): Int }";

#[derive(Clone, Copy, Debug, PartialEq)]
enum Doc {
    Query(u64),
    Vars(u64),
    Two(u64),
    Mutation(u64),
    Mixed(u64),
}
impl Doc {
    fn text(&self) -> String {
        match self {
            Doc::Query(k) => format!("{{ d{k}: f(n: {k}) }}"),
            Doc::Vars(k) => format!("query V($v: Int! = 3) {{ d{k}: f(n: $v) }}"),
            Doc::Two(k) => format!("query A {{ d{k}a: f(n: {k}) }}\nquery B {{ d{k}b: f(n: {k}) }}"),
            Doc::Mixed(k) => format!("{}\n{}", ["query A", "mutation B"][(k % 2) as usize].to_string() + &format!(" {{ d{k}: {}(n: {k}) }}", ["f", "m"][(k % 2) as usize]), ["mutation B", "query A"][(k % 2) as usize].to_string() + &format!(" {{ d{k}: {}(n: {k}) }}", ["m", "f"][(k % 2) as usize])),
            Doc::Mutation(k) => format!("mutation {{ d{k}: m(n: {k}) }}"),
        }
    }
    /// the response key, or nothing when the request cannot be executed
    fn key(&self, op: Option<&str>, get: bool) -> Option<String> {
        match self {
            Doc::Query(k) => op.is_none().then(|| format!("d{k}")),
            Doc::Vars(k) => (op.is_none() || op == Some("V")).then(|| format!("d{k}")),
            Doc::Two(k) => match op {
                Some("A") => Some(format!("d{k}a")),
                Some("B") => Some(format!("d{k}b")),
                _ => None,
            },
            Doc::Mixed(k) => (op == Some("A") || (op == Some("B") && !get)).then(|| format!("d{k}")),
            Doc::Mutation(k) => (op.is_none() && !get).then(|| format!("d{k}")),
        }
    }
}

fn gen_doc(src: &mut Src, k: u64) -> Doc {
    match src.n(7) {
        0 => Doc::Vars(k),
        1 => Doc::Two(k),
        2 => Doc::Mutation(k),
        3 => Doc::Mixed(k),
        _ => Doc::Query(k),
    }
}

const IDS: &[&str] = &["sha256:abc", "sha256:abcd", "abc", "ABC", "7", "07", "a b", "a+b", "a%20b", "ü", "a/b", "x&y=z", "app~1~h", "id", "null", "18446744073709551615", "\"q\"", "a.b", "d1"];

#[derive(Clone, Debug)]
enum Sel {
    Body,
    Apollo,
    Ext(Vec<&'static str>),
    Field(Vec<&'static str>),
    Param(&'static str),
    Path(&'static str),
}
const SELS: &[fn() -> Sel] = &[|| Sel::Body, || Sel::Apollo, || Sel::Ext(vec!["doc"]), || Sel::Ext(vec!["p", "id"]), || Sel::Field(vec!["doc_id"]), || Sel::Field(vec!["meta", "doc"]), || Sel::Param("id"), || Sel::Param("documentId"), || Sel::Param("doc"), || Sel::Path("/:id"), || Sel::Path("/p/:id"), || Sel::Path("/*/:id/x"), || Sel::Path("/:id/v1")];

impl Sel {
    fn yaml(&self) -> String {
        let (t, k, v) = match self {
            Sel::Body => ("json_path", "path", "documentId".to_string()),
            Sel::Apollo => ("json_path", "path", "extensions.persistedQuery.sha256Hash".to_string()),
            Sel::Ext(p) => ("json_path", "path", format!("extensions.{}", p.join("."))),
            Sel::Field(p) => ("json_path", "path", p.join(".")),
            Sel::Param(n) => ("url_query_param", "name", n.to_string()),
            Sel::Path(t) => ("url_path_param", "template", t.to_string()),
        };
        format!("    - type: {t}\n      {k}: {}\n", yaml_str(&v))
    }
}

fn id_value(v: &Value) -> Option<String> {
    match v {
        Value::String(s) => Some(s.clone()),
        Value::Number(n) => n.as_u64().map(|x| x.to_string()),
        _ => None,
    }
}
fn at<'a>(v: &'a Value, path: &[&str]) -> Option<&'a Value> {
    path.iter().try_fold(v, |v, k| v.as_object()?.get(*k))
}
fn unescape(s: &str) -> Option<String> {
    let b: Vec<u8> = s.bytes().map(|c| if c == b'+' { b' ' } else { c }).collect();
    let mut o = vec![];
    let mut i = 0;
    let hex = |c: u8| (c as char).to_digit(16).map(|x| x as u8);
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            if let (Some(x), Some(y)) = (hex(b[i + 1]), hex(b[i + 2])) {
                o.push(x * 16 + y);
                i += 3;
                continue;
            }
        }
        o.push(b[i]);
        i += 1;
    }
    String::from_utf8(o).ok()
}

#[derive(Clone, Debug, Default)]
struct Req {
    get: bool,
    path: String,
    pairs: Vec<(String, Option<String>)>,
    body: Map<String, Value>,
    flag: bool,
}
impl Req {
    fn uri(&self) -> String {
        let q: Vec<String> = self.pairs.iter().map(|(k, v)| v.as_ref().map(|v| format!("{k}={v}")).unwrap_or(k.clone())).collect();
        match q.is_empty() {
            true => self.path.clone(),
            false => format!("{}?{}", self.path, q.join("&")),
        }
    }
    fn pair(&self, n: &str) -> Option<Option<String>> {
        self.pairs.iter().find(|(k, _)| k == n).map(|(_, v)| v.clone())
    }
    fn text(&self, n: &str) -> Option<String> {
        match self.get {
            true => self.pair(n).map(|v| v.and_then(|v| unescape(&v)).unwrap_or_default()),
            false => self.body.get(n).and_then(|v| v.as_str()).map(|s| s.to_string()),
        }
    }
    fn ext(&self) -> Value {
        match self.get {
            true => self.pair("extensions").flatten().and_then(|v| unescape(&v)).and_then(|v| serde_json::from_str(&v).ok()).unwrap_or(Value::Null),
            false => self.body.get("extensions").cloned().unwrap_or(Value::Null),
        }
    }
    fn find(&self, s: &Sel) -> Option<String> {
        match s {
            Sel::Body if self.get => self.text("documentId"),
            Sel::Body => self.body.get("documentId").and_then(id_value),
            Sel::Apollo => at(&self.ext(), &["persistedQuery", "sha256Hash"]).and_then(id_value),
            Sel::Ext(p) => at(&self.ext(), p).and_then(id_value),
            Sel::Field(_) if self.get => None,
            Sel::Field(p) => at(&Value::Object(self.body.clone()), p).and_then(id_value),
            Sel::Param(n) => self.pair(n)?.and_then(|v| unescape(&v)),
            Sel::Path(t) => {
                let rel = self.path.strip_prefix("@")?;
                let (a, b): (Vec<&str>, Vec<&str>) = (t.split('/').collect(), rel.split('/').collect());
                if a.len() != b.len() {
                    return None;
                }
                let mut id = None;
                for (x, y) in a.iter().zip(&b).skip(1) {
                    match *x {
                        ":id" if !y.is_empty() => id = Some(y.to_string()),
                        "*" if !y.is_empty() => {}
                        _ if x == y => {}
                        _ => return None,
                    }
                }
                id
            }
        }
    }
}

fn escape(src: &mut Src, s: &str) -> String {
    let all = src.chance(20);
    s.bytes().map(|c| if (c.is_ascii_alphanumeric() && !all) || c == b':' && !all { (c as char).to_string() } else if c == b' ' && src.chance(50) { "+".into() } else if src.chance(50) { format!("%{c:02X}") } else { format!("%{c:02x}") }).collect()
}

fn gen_req(src: &mut Src, sels: &[Sel], ids: &[&'static str]) -> Req {
    let mut r = Req { get: src.chance(40), path: "@".into(), flag: src.chance(50), ..Default::default() };
    let some_id = |src: &mut Src| -> &'static str { if src.chance(80) && !ids.is_empty() { *src.pick(ids) } else { *src.pick(IDS) } };
    let value = |src: &mut Src, id: &str, strict: bool| match src.weighted(&[70, 8, 8, 4, 4, if strict { 1 } else { 4 }]) {
        0 => json!(id),
        1 => id.parse::<u64>().map(|x| json!(x)).unwrap_or(json!(7)),
        2 => json!(""),
        3 => Value::Null,
        4 => json!(7),
        _ => src.pick(&[json!(-1), json!(1.5), json!(true), json!(["abc"]), json!({"x": "abc"})]).clone(),
    };
    let mut ext = json!({});
    let mut places: Vec<Sel> = sels.to_vec();
    if src.chance(25) {
        places.push(src.pick(SELS)());
    }
    for p in places {
        if !src.chance(if sels.len() == 1 { 85 } else { 55 }) {
            continue;
        }
        let id = some_id(src);
        match p {
            Sel::Body if r.get => {
                if r.pair("documentId").is_none() {
                    let v = escape(src, id);
                    r.pairs.push(("documentId".into(), Some(v)));
                }
            }
            Sel::Body => {
                r.body.insert("documentId".into(), value(src, id, true));
            }
            Sel::Apollo => {
                ext["persistedQuery"] = json!({"version": 1, "sha256Hash": value(src, id, false)});
            }
            Sel::Ext(p) => match p.len() {
                1 => ext[p[0]] = value(src, id, false),
                _ => ext[p[0]] = json!({p[1]: value(src, id, false)}),
            },
            Sel::Field(p) if !r.get => {
                let v = value(src, id, false);
                r.body.insert(p[0].into(), if p.len() == 1 { v } else { json!({p[1]: v}) });
            }
            Sel::Field(_) => {}
            Sel::Param(n) => {
                if src.chance(15) {
                    let o = some_id(src);
                    let other = escape(src, o);
                    r.pairs.push((format!("{n}x"), Some(other.clone())));
                    r.pairs.push((format!("x{n}"), Some(other)));
                }
                if src.chance(8) {
                    let v = src.pick(&[None, Some(String::new()), Some("%FF".to_string()), Some("%zz".to_string())]).clone();
                    if !(r.get && n == "documentId") {
                        r.pairs.push((n.into(), v));
                    }
                } else if !(r.get && n == "documentId" && r.pair(n).is_some()) {
                    let v = escape(src, id);
                    r.pairs.push((n.into(), Some(v)));
                }
                if src.chance(15) && !(r.get && n == "documentId") {
                    let o = some_id(src);
                    let v = escape(src, o);
                    r.pairs.push((n.into(), Some(v)));
                }
            }
            Sel::Path(t) => {
                let t = if src.chance(85) { t } else { *src.pick(&["/:id/y", "/q/:id", "/:id/", "/:id/v1/z", "//:id"]) };
                let plain: Vec<&str> = ids.iter().copied().filter(|i| i.bytes().all(|c| c.is_ascii_alphanumeric() || b":~.".contains(&c))).collect();
                let id = if plain.is_empty() || src.chance(15) { "nope" } else { *src.pick(&plain) };
                r.path = format!("@{}", t.replace(":id", id).replace('*', if src.chance(80) { "any" } else { "" }));
            }
        }
    }
    let query = src.chance(35);
    let op = if src.chance(35) { Some(*src.pick(&["A", "B", "V", "Z"])) } else { None };
    let mut put = |src: &mut Src, k: &str, v: Value| match r.get {
        true => {
            let text = match &v {
                Value::String(s) => s.clone(),
                v => v.to_string(),
            };
            r.pairs.push((k.into(), Some(escape(src, &text))));
        }
        false => {
            r.body.insert(k.into(), v);
        }
    };
    if query {
        put(src, "query", json!("{ raw: f(n: 1) }"));
    }
    if let Some(o) = op {
        put(src, "operationName", json!(o));
    }
    if src.chance(25) {
        put(src, "variables", json!({"v": 5}));
    }
    if ext != json!({}) || src.chance(5) {
        put(src, "extensions", ext);
    }
    src.shuffle(&mut r.pairs);
    r
}

#[derive(Clone, Debug, PartialEq)]
enum Want {
    Key(String),
    Code(&'static str),
    Refused,
}

fn expect(r: &Req, enabled: bool, require: bool, sels: &[Sel], lookup: &dyn Fn(&str) -> Result<Doc, Want>) -> Want {
    if !r.get && r.body.get("documentId").is_some_and(|v| !v.is_null() && id_value(v).is_none()) {
        return Want::Refused;
    }
    let op = r.text("operationName");
    let exec = |d: Doc| d.key(op.as_deref(), r.get).map(Want::Key).unwrap_or(Want::Refused);
    let raw = r.text("query").is_some();
    let id = if enabled { sels.iter().find_map(|s| r.find(s).filter(|x| !x.is_empty())) } else { None };
    let raw_want = match &op {
        None => Want::Key("raw".into()),
        _ => Want::Refused,
    };
    match (enabled && require, raw, id) {
        (true, _, None) => Want::Code("PERSISTED_DOCUMENT_ID_REQUIRED"),
        (false, true, _) => raw_want,
        (_, _, Some(id)) => match lookup(&id) {
            Ok(d) => exec(d),
            Err(w) => w,
        },
        (false, false, None) => Want::Refused,
    }
}

fn judge(r: &Req, want: &Want, resp: &crate::router::Resp, mentioned: usize) -> Option<(&'static str, String)> {
    let body = resp.json().unwrap_or(Value::Null);
    let keys: Vec<String> = body["data"].as_object().map(|o| o.keys().cloned().collect()).unwrap_or_default();
    match want {
        Want::Key(k) => {
            if keys != vec![k.clone()] {
                let class = if keys.is_empty() { "document-not-executed" } else { "another-document-executed" };
                return Some((class, format!("expected the document with key {k}")));
            }
            None
        }
        Want::Code(c) => {
            if !keys.is_empty() || mentioned > 0 {
                return Some(("executed-instead-of-refused", format!("expected {c}")));
            }
            (body["errors"][0]["extensions"]["code"] != json!(c)).then(|| ("another-error", format!("expected {c}")))
        }
        Want::Refused => {
            let _ = r;
            (!keys.is_empty() || mentioned > 0 || body["errors"][0].is_null()).then(|| ("executed-instead-of-refused", "expected an error".to_string()))
        }
    }
}

fn write(path: &std::path::Path, docs: &BTreeMap<&str, Doc>, apollo: bool, rename: bool) {
    let text = match apollo {
        true => json!({"format": "apollo-persisted-query-manifest", "version": 1, "operations": docs.iter().map(|(k, d)| json!({"id": k, "name": "N", "type": "query", "body": d.text()})).collect::<Vec<_>>()}),
        false => Value::Object(docs.iter().map(|(k, d)| (k.to_string(), json!(d.text()))).collect()),
    }
    .to_string();
    write_text(path, &text, rename)
}
fn write_text(path: &std::path::Path, text: &str, rename: bool) {
    let tmp = path.with_extension("new");
    let r = match rename {
        true => std::fs::write(&tmp, text).and_then(|_| std::fs::rename(&tmp, path)),
        false => std::fs::write(path, text),
    };
    r.unwrap_or_else(|e| harness_error(e));
}

fn gen_docs(src: &mut Src, from: u64) -> BTreeMap<&'static str, Doc> {
    let mut ids: Vec<&'static str> = IDS.to_vec();
    src.shuffle(&mut ids);
    ids.truncate(src.range(2, 10));
    ids.iter().enumerate().map(|(i, id)| (*id, gen_doc(src, from + i as u64))).collect()
}

async fn send(s: &Simple, r: &Req) -> Result<crate::router::Resp, String> {
    let mut h: Vec<(String, Vec<u8>)> = vec![("x-flag".into(), if r.flag { "1" } else { "0" }.into())];
    if !r.get {
        h.push(("content-type".into(), "application/json".into()));
    }
    for (k, v) in [("graphql-client-name", "x-client"), ("graphql-client-version", "x-version")] {
        if let Some(x) = r.body.get(v).and_then(|v| v.as_str()) {
            h.push((k.into(), x.as_bytes().to_vec()));
        }
    }
    let uri = r.uri().replacen('@', &s.router.path, 1);
    let body = if r.get { Bytes::new() } else { Bytes::from(Value::Object(r.body.iter().filter(|(k, _)| !k.starts_with("x-")).map(|(k, v)| (k.clone(), v.clone())).collect()).to_string()) };
    s.router.try_send(if r.get { "GET" } else { "POST" }, &uri, &h, body).await
}

async fn manifest(src: &mut Src) -> Outcome {
    let enabled = src.chance(92);
    let default = src.chance(20);
    let mut order: Vec<usize> = (0..SELS.len()).collect();
    src.shuffle(&mut order);
    let sels: Vec<Sel> = if default { vec![Sel::Body, Sel::Apollo] } else { order[..src.range(1, 4)].iter().map(|i| SELS[*i]()).collect() };
    let dir = tempfile::tempdir().unwrap_or_else(|e| harness_error(e));
    let path = dir.path().join("manifest.json");
    let mut docs = gen_docs(src, 0);
    let apollo = src.chance(40);
    write(&path, &docs, apollo, false);
    let require = src.n(3);
    let reload = src.chance(15);
    let yaml = format!(
        "persisted_documents:\n  enabled: {enabled}\n  require_id: {}\n  storage:\n    type: file\n    path: {}\n    watch: {reload}\n{}",
        ["false", "true", "\n    expression: '.request.headers.\"x-flag\" == \"1\"'"][require],
        yaml_str(&path.to_string_lossy()),
        if default { String::new() } else { format!("  selectors:\n{}", sels.iter().map(|s| s.yaml()).collect::<String>()) }
    );
    let s = match Simple::start(&[("a", SDL)], &yaml, auto(), plain()).await {
        Ok(s) => s,
        Err(e) => return Outcome::fail("router-does-not-start", format!("{yaml}{e}")),
    };
    let (mut evals, mut sig, mut by_id, mut refused) = (0, hash_str(&yaml), 0, 0);
    let mut labels = BTreeSet::new();
    for round in 0..if reload { 3 } else { 1 } {
        if round > 0 {
            let broken = src.chance(30);
            let rename = src.chance(50);
            if broken {
                let text = *src.pick(&["", "{", "[]", "{\"a\": 1}", "{\"format\":\"other\",\"version\":1,\"operations\":[]}"]);
                write_text(&path, text, rename);
                tokio::time::sleep(std::time::Duration::from_millis(500)).await;
                labels.insert("manifest-broken".to_string());
            } else {
                let mut new = gen_docs(src, 100 * round as u64);
                let mark: &'static str = ["", "mark1", "mark2"][round];
                new.insert(mark, Doc::Query(9000 + round as u64));
                write(&path, &new, src.chance(50), rename);
                docs = new;
                labels.insert("manifest-replaced".to_string());
                // wait until the new manifest is in use
                if enabled {
                    let mut r = Req { path: "@".into(), flag: true, ..Default::default() };
                    for x in &sels {
                        match x {
                            Sel::Body => {
                                r.body.insert("documentId".into(), json!(mark));
                            }
                            Sel::Apollo => {
                                r.body.insert("extensions".into(), json!({"persistedQuery": {"sha256Hash": mark}}));
                            }
                            Sel::Ext(p) if p.len() == 1 => {
                                r.body.insert("extensions".into(), json!({p[0]: mark}));
                            }
                            Sel::Ext(p) => {
                                r.body.insert("extensions".into(), json!({p[0]: {p[1]: mark}}));
                            }
                            Sel::Field(p) if p.len() == 1 => {
                                r.body.insert(p[0].into(), json!(mark));
                            }
                            Sel::Field(p) => {
                                r.body.insert(p[0].into(), json!({p[1]: mark}));
                            }
                            Sel::Param(n) => r.pairs.push((n.to_string(), Some(mark.into()))),
                            Sel::Path(t) => r.path = format!("@{}", t.replace(":id", mark).replace('*', "any")),
                        }
                    }
                    let key = format!("d{}", 9000 + round);
                    let mut ok = false;
                    for _ in 0..100 {
                        if send(&s, &r).await.ok().and_then(|x| x.json()).is_some_and(|b| !b["data"][&key].is_null()) {
                            ok = true;
                            break;
                        }
                        tokio::time::sleep(std::time::Duration::from_millis(100)).await;
                    }
                    if !ok {
                        return Outcome::fail("manifest-not-reloaded", format!("10 s after the manifest was replaced (by rename: {rename}) a new document is not known\n{yaml}"));
                    }
                }
            }
        }
        let ids: Vec<&'static str> = docs.keys().copied().collect();
        let reqs: Vec<Req> = (0..src.range(10, 30)).map(|_| gen_req(src, &sels, &ids)).collect();
        let lookup = |id: &str| docs.get(id).copied().ok_or(Want::Code("PERSISTED_DOCUMENT_NOT_FOUND"));
        let wants: Vec<Want> = reqs.iter().map(|r| expect(r, enabled, [false, true, r.flag][require], &sels, &lookup)).collect();
        let together = src.chance(50);
        let mut results = vec![];
        s.take();
        if together {
            let futs: Vec<_> = reqs.iter().map(|r| send(&s, r)).collect();
            for x in futures::future::join_all(futs).await {
                results.push((x, 0));
            }
            let asked: Vec<String> = s.take().iter().map(|q| q.query().to_string()).collect();
            let keys = wants.iter().filter(|w| matches!(w, Want::Key(_))).count();
            if asked.len() > keys {
                return Outcome::fail("executed-instead-of-refused", format!("{} subgraph requests for {keys} executable requests\n{yaml}{asked:?}", asked.len()));
            }
        } else {
            for r in &reqs {
                s.take();
                let x = send(&s, r).await;
                results.push((x, s.take().len()));
            }
        }
        for ((r, w), (resp, asked)) in reqs.iter().zip(&wants).zip(results) {
            let resp = match resp {
                Ok(r) => r,
                Err(e) => return Outcome::fail("no-response", format!("{yaml}{r:?}: {e}")),
            };
            evals += 1;
            sig = mix(sig, hash_str(&format!("{r:?}")));
            match w {
                Want::Key(k) if k != "raw" => by_id += 1,
                Want::Key(_) => {}
                _ => refused += 1,
            }
            if let Some((class, m)) = judge(r, w, &resp, asked) {
                return Outcome::fail(class, format!("{m}\n{yaml}{:#?}\nrequest: {} {} {}\nflag {}\nanswer: {} {}", docs, if r.get { "GET" } else { "POST" }, r.uri(), Value::Object(r.body.clone()), r.flag, resp.status, truncate(&resp.text(), 400)));
            }
        }
    }
    Outcome::Pass { nontrivial: by_id > 0 && refused > 0, sig, labels: labels.into_iter().collect(), evals, sample: Some(format!("{yaml}{by_id} executed by id, {refused} refused")) }
}

async fn cdn(src: &mut Src) -> Outcome {
    // documents by (app, version, hash)
    let apps = ["web", "ios", "web-1"];
    let vers = ["1", "1.0", "2"];
    let hashes = ["h1", "h2", "sha256:h1"];
    let mut docs: HashMap<String, Doc> = HashMap::new();
    for a in apps {
        for v in vers {
            for h in hashes {
                if src.chance(60) {
                    let k = docs.len() as u64;
                    docs.insert(format!("{a}/{v}/{h}"), gen_doc(src, k));
                }
            }
        }
    }
    let calls: Arc<Mutex<Vec<(String, bool)>>> = Default::default();
    let down = src.chance(25);
    let second = down || src.chance(30);
    let mk = |down: bool| {
        let (calls, docs) = (calls.clone(), docs.clone());
        Mount::new(Arc::new(move |req: crate::mock::MockReq| {
            let (calls, docs) = (calls.clone(), docs.clone());
            Box::pin(async move {
                let uri = req.uri.to_string();
                let id = uri.split_once("/apps/").map(|x| x.1.to_string()).unwrap_or_default().replace("%3A", ":");
                calls.lock().unwrap().push((id.clone(), req.headers.get("x-hive-cdn-key").is_some_and(|k| k == "the-key")));
                tokio::time::sleep(std::time::Duration::from_millis(3)).await;
                match docs.get(&id) {
                    _ if down => raw_resp(404, &[], "nothing here"),
                    Some(d) => raw_resp(200, &[], d.text()),
                    None => raw_resp(404, &[], "{ intruder: f(n: 1) }"),
                }
            })
        }))
    };
    let (m1, m2) = (mk(down), mk(false));
    let negative = src.chance(60);
    let cache = *src.pick(&[10000, 10000, 2, 0]);
    let require = src.chance(60);
    let yaml = format!(
        "persisted_documents:\n  enabled: true\n  require_id: {require}\n  storage:\n    type: hive\n    endpoint: [{}{}]\n    key: the-key\n    cache_size: {cache}\n    retry_policy:\n      max_retries: 0\n    negative_cache: {}\n",
        yaml_str(m1.url("cdn").trim_end_matches('/')),
        if second { format!(", {}", yaml_str(m2.url("cdn").trim_end_matches('/'))) } else { String::new() },
        if negative { "\n      ttl: 60s" } else { "false" }
    );
    let s = match Simple::start(&[("a", SDL)], &yaml, auto(), plain()).await {
        Ok(s) => s,
        Err(e) => return Outcome::fail("router-does-not-start", format!("{yaml}{e}")),
    };
    let mut reqs = vec![];
    for _ in 0..src.range(10, 30) {
        let mut r = Req { path: "@".into(), ..Default::default() };
        let h = *src.pick(&["h1", "h2", "sha256:h1", "h3"]);
        let id = match src.n(10) {
            0 => src.pick(&["~", "web~h1", "web~~h1", "~1~h1", "web~1~", "web~1~h1~x"]).to_string(),
            1..=5 => format!("{}~{}~{h}", src.pick(&apps), src.pick(&vers)),
            _ => h.to_string(),
        };
        if src.chance(95) {
            r.body.insert("documentId".into(), json!(id));
        }
        if src.chance(70) {
            r.body.insert("x-client".into(), json!(src.pick(&apps)));
        }
        if src.chance(70) {
            r.body.insert("x-version".into(), json!(src.pick(&vers)));
        }
        if src.chance(20) {
            r.body.insert("query".into(), json!("{ raw: f(n: 1) }"));
        }
        if src.chance(30) {
            r.body.insert("operationName".into(), json!(src.pick(&["A", "B"])));
        }
        reqs.push(r);
    }
    let (mut sig, mut by_id, mut refused) = (hash_str(&yaml), 0, 0);
    let mut wanted: BTreeMap<String, usize> = BTreeMap::new();
    let batch = src.chance(50);
    let resps: Vec<_> = if batch {
        futures::future::join_all(reqs.iter().map(|r| send(&s, r))).await
    } else {
        let mut v = vec![];
        for r in &reqs {
            v.push(send(&s, r).await);
        }
        v
    };
    for (r, resp) in reqs.iter().zip(resps) {
        let resp = match resp {
            Ok(r) => r,
            Err(e) => return Outcome::fail("no-response", format!("{yaml}{r:?}: {e}")),
        };
        let need = Mutex::new(None);
        let lookup = |id: &str| {
            let full = match id.split('~').collect::<Vec<_>>()[..] {
                [h] => match (r.body.get("x-client").and_then(|v| v.as_str()), r.body.get("x-version").and_then(|v| v.as_str())) {
                    (Some(a), Some(v)) => format!("{a}/{v}/{h}"),
                    _ => return Err(Want::Refused),
                },
                [a, b, c] if !a.is_empty() && !b.is_empty() && !c.is_empty() => format!("{a}/{b}/{c}"),
                _ => return Err(Want::Refused),
            };
            *need.lock().unwrap() = Some(full.clone());
            docs.get(&full).copied().ok_or(Want::Code("PERSISTED_DOCUMENT_NOT_FOUND"))
        };
        let w = expect(r, true, require, &[Sel::Body, Sel::Apollo], &lookup);
        if let Some(f) = need.into_inner().unwrap() {
            *wanted.entry(f).or_default() += 1;
        }
        sig = mix(sig, hash_str(&format!("{r:?}")));
        match &w {
            Want::Key(k) if k != "raw" => by_id += 1,
            Want::Key(_) => {}
            _ => refused += 1,
        }
        if let Some((class, m)) = judge(r, &w, &resp, 0) {
            return Outcome::fail(class, format!("{m}\n{yaml}{docs:#?}\nrequest: {}\nanswer: {} {}", Value::Object(r.body.clone()), resp.status, truncate(&resp.text(), 400)));
        }
    }
    let calls = calls.lock().unwrap().clone();
    if let Some(c) = calls.iter().find(|c| !c.1) {
        return Outcome::fail("cdn-key-missing", format!("{yaml}{c:?}"));
    }
    let mut got: BTreeMap<String, usize> = BTreeMap::new();
    for (c, _) in &calls {
        *got.entry(c.clone()).or_default() += 1;
    }
    if let Some(x) = got.keys().find(|k| !wanted.contains_key(*k)) {
        return Outcome::fail("cdn-asked-for-a-document-nobody-wanted", format!("{x}\n{yaml}{wanted:?}"));
    }
    let eps = if second { 2 } else { 1 };
    for (k, n) in &got {
        let known = docs.contains_key(k);
        let per = if known && !down { 1 } else { eps };
        if known && cache == 10000 && *n > per {
            return Outcome::fail("cdn-asked-again", format!("{k} fetched {n} times, {} requests\n{yaml}", wanted[k]));
        }
        if !known && negative && cache == 10000 && !batch && *n > per {
            return Outcome::fail("cdn-asked-again-for-a-missing-document", format!("{k} fetched {n} times\n{yaml}"));
        }
        if *n > wanted[k] * per {
            return Outcome::fail("cdn-asked-too-often", format!("{k} fetched {n} times, {} requests\n{yaml}", wanted[k]));
        }
    }
    Outcome::Pass { nontrivial: by_id > 0 && refused > 0, sig, labels: vec![format!("cache-{cache}")], evals: reqs.len() as u64, sample: Some(format!("{yaml}{by_id} executed by id, {refused} refused, CDN {got:?}")) }
}
