//! One loopback HTTP server for all mock subgraphs, on its own multi-thread runtime.
//! Path `/w/{world}/{subgraph}` selects the handler.
use bytes::Bytes;
use dashmap::DashMap;
use futures::future::BoxFuture;
use http::{HeaderMap, Method, Response, StatusCode};
use http_body_util::{combinators::BoxBody, BodyExt, Full};
use hyper::body::Incoming;
use hyper::service::service_fn;
use hyper_util::rt::{TokioExecutor, TokioIo};
use std::convert::Infallible;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, OnceLock};

pub struct MockReq {
    pub subgraph: String,
    pub method: Method,
    pub headers: HeaderMap,
    pub body: Bytes,
    pub uri: http::Uri,
    /// of a request that asks for a protocol upgrade
    pub upgrade: Option<hyper::upgrade::OnUpgrade>,
}

pub type Body = BoxBody<Bytes, std::io::Error>;
pub enum MockResp {
    Http(Response<Body>),
    /// close the connection without answering
    Drop,
}
pub type Handler = Arc<dyn Fn(MockReq) -> BoxFuture<'static, MockResp> + Send + Sync>;

pub struct Server {
    pub port: u16,
    handlers: DashMap<u64, Handler>,
    next: AtomicU64,
    pub rt: tokio::runtime::Handle,
}

static SERVER: OnceLock<Arc<Server>> = OnceLock::new();

pub fn full(b: impl Into<Bytes>) -> Body {
    Full::new(b.into()).map_err(|e: Infallible| match e {}).boxed()
}

pub fn json_resp(status: u16, v: &serde_json::Value) -> MockResp {
    raw_resp(status, &[("content-type", "application/json")], serde_json::to_vec(v).unwrap())
}

pub fn raw_resp(status: u16, headers: &[(&str, &str)], body: impl Into<Bytes>) -> MockResp {
    let mut b = Response::builder().status(StatusCode::from_u16(status).unwrap());
    for (k, v) in headers {
        b = b.header(*k, *v);
    }
    MockResp::Http(b.body(full(body)).unwrap())
}

pub fn server() -> Arc<Server> {
    SERVER
        .get_or_init(|| {
            let rt = tokio::runtime::Builder::new_multi_thread()
                .worker_threads(6)
                .thread_stack_size(64 << 20)
                .enable_all()
                .build()
                .unwrap();
            let listener = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
            listener.set_nonblocking(true).unwrap();
            let port = listener.local_addr().unwrap().port();
            let s = Arc::new(Server { port, handlers: DashMap::new(), next: AtomicU64::new(1), rt: rt.handle().clone() });
            let s2 = s.clone();
            std::thread::spawn(move || {
                rt.block_on(async move {
                    let l = tokio::net::TcpListener::from_std(listener).unwrap();
                    loop {
                        let Ok((io, _)) = l.accept().await else { continue };
                        let _ = io.set_nodelay(true);
                        let s = s2.clone();
                        tokio::spawn(async move {
                            let svc = service_fn(move |req: http::Request<Incoming>| {
                                let s = s.clone();
                                async move { s.dispatch(req).await }
                            });
                            let _ = hyper_util::server::conn::auto::Builder::new(TokioExecutor::new())
                                .serve_connection_with_upgrades(TokioIo::new(io), svc)
                                .await;
                        });
                    }
                })
            });
            s
        })
        .clone()
}

impl Server {
    async fn dispatch(&self, mut req: http::Request<Incoming>) -> Result<Response<Body>, std::io::Error> {
        let path = req.uri().path().to_string();
        let mut it = path.split('/').skip(1);
        let (w, id, sub) = (it.next(), it.next(), it.next());
        let handler = match (w, id.and_then(|i| i.parse::<u64>().ok())) {
            (Some("w"), Some(id)) => self.handlers.get(&id).map(|h| h.clone()),
            _ => None,
        };
        let Some(h) = handler else {
            return Ok(Response::builder().status(404).body(full("no such world")).unwrap());
        };
        let upgrade = req.extensions_mut().remove::<hyper::upgrade::OnUpgrade>();
        let (p, b) = req.into_parts();
        let body = b.collect().await.map_err(std::io::Error::other)?.to_bytes();
        let r = h(MockReq { subgraph: sub.unwrap_or("").to_string(), method: p.method, headers: p.headers, body, uri: p.uri, upgrade }).await;
        match r {
            MockResp::Http(r) => Ok(r),
            MockResp::Drop => Err(std::io::Error::other("dropped on purpose")),
        }
    }
}

/// registers a handler for the lifetime of the guard
pub struct Mount {
    pub id: u64,
}
impl Mount {
    pub fn new(h: Handler) -> Mount {
        let s = server();
        let id = s.next.fetch_add(1, Ordering::SeqCst);
        s.handlers.insert(id, h);
        Mount { id }
    }
    pub fn url(&self, sub: &str) -> String {
        format!("http://127.0.0.1:{}/w/{}/{}", server().port, self.id, sub)
    }
}
impl Drop for Mount {
    fn drop(&mut self) {
        server().handlers.remove(&self.id);
    }
}

/// an answer whose transfer breaks off
pub fn broken_resp(status: u16, headers: &[(&str, &str)], part: impl Into<Bytes>) -> MockResp {
    let mut b = Response::builder().status(StatusCode::from_u16(status).unwrap());
    for (k, v) in headers {
        b = b.header(*k, *v);
    }
    let part: Bytes = part.into();
    let frames = futures::stream::unfold(0, move |n| {
        let part = part.clone();
        async move {
            match n {
                0 => Some((Ok(hyper::body::Frame::data(part)), 1)),
                1 => {
                    // so that the head and the part leave first
                    tokio::time::sleep(std::time::Duration::from_millis(3)).await;
                    Some((Err(std::io::Error::other("broken off")), 2))
                }
                _ => None,
            }
        }
    });
    let body = http_body_util::StreamBody::new(Box::pin(frames));
    MockResp::Http(b.body(BodyExt::boxed(body)).unwrap())
}

/// an answer that pauses after its head and `part`
pub fn slow_resp(status: u16, headers: &[(&str, &str)], part: impl Into<Bytes>, pause: std::time::Duration, rest: impl Into<Bytes>) -> MockResp {
    let mut b = Response::builder().status(StatusCode::from_u16(status).unwrap());
    for (k, v) in headers {
        b = b.header(*k, *v);
    }
    let (part, rest): (Bytes, Bytes) = (part.into(), rest.into());
    let frames = futures::stream::unfold(0, move |n| {
        let (part, rest) = (part.clone(), rest.clone());
        async move {
            match n {
                0 => Some((Ok::<_, std::io::Error>(hyper::body::Frame::data(part)), 1)),
                1 => {
                    tokio::time::sleep(pause).await;
                    Some((Ok(hyper::body::Frame::data(rest)), 2))
                }
                _ => None,
            }
        }
    });
    let body = http_body_util::StreamBody::new(Box::pin(frames));
    MockResp::Http(b.body(BodyExt::boxed(body)).unwrap())
}
