//! Starts the real router in-process (same wiring as its `main`) and talks HTTP to it over loopback.
use bytes::Bytes;
use http::{HeaderMap, HeaderName, HeaderValue};
use http_body_util::{BodyExt, Full};
use hive_router::config::{parse_yaml_config, HiveRouterConfig};
use hive_router::{
    add_callback_handler, background_tasks::BackgroundTasksManager, configure_app_from_config, configure_ntex_app,
    init_rustls_crypto_provider, pipeline::long_lived_client_limit::LongLivedClientLimitService,
    pipeline::request_identifiers::RequestIdentifiersService, pipeline::request_summary::RequestSummaryService,
    plugins::plugins_service::PluginService, telemetry::Telemetry, PluginRegistry, RouterPaths,
};
use hyper_util::client::legacy::{connect::HttpConnector, Client};
use ntex::time::Seconds;
use ntex::web::{self, test};
use std::time::Duration;

pub struct Router {
    pub port: u16,
    pub path: String,
    pub ws_path: Option<String>,
    _serv: test::TestServer,
    bg: BackgroundTasksManager,
    client: Client<HttpConnector, Full<Bytes>>,
}

pub struct Resp {
    pub status: u16,
    pub headers: HeaderMap,
    pub body: Bytes,
}
impl Resp {
    pub fn text(&self) -> String {
        String::from_utf8_lossy(&self.body).into_owned()
    }
    pub fn json(&self) -> Option<serde_json::Value> {
        serde_json::from_slice(&self.body).ok()
    }
    pub fn header(&self, n: &str) -> Option<String> {
        self.headers.get(n).map(|v| String::from_utf8_lossy(v.as_bytes()).into_owned())
    }
    pub fn all(&self, n: &str) -> Vec<String> {
        self.headers.get_all(n).iter().map(|v| String::from_utf8_lossy(v.as_bytes()).into_owned()).collect()
    }
}

/// generous: only trips when a request is never answered
pub const HANG: Duration = Duration::from_secs(60);

pub fn yaml_str(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

pub fn parse_config(yaml: &str) -> Result<HiveRouterConfig, String> {
    parse_yaml_config(yaml.to_string()).map_err(|e| e.to_string())
}

impl Router {
    pub async fn start(yaml: &str) -> Result<Router, String> {
        Self::start_with(yaml, PluginRegistry::new()).await
    }
    pub async fn start_with(yaml: &str, plugins: PluginRegistry) -> Result<Router, String> {
        init_rustls_crypto_provider();
        let config: &'static HiveRouterConfig = Box::leak(Box::new(parse_config(yaml)?));
        let (telemetry, _sub) = Telemetry::init_testing_subscriber(config).map_err(|e| e.to_string())?;
        let prometheus = telemetry.prometheus.as_ref().and_then(|p| p.to_attached());
        let mut bg = BackgroundTasksManager::new();
        let (shared, schema) = configure_app_from_config(config, telemetry.context.clone(), &mut bg, plugins)
            .await
            .map_err(|e| e.to_string())?;
        let cb = config.callback_conf().map(|c| c.path.to_string());
        let paths = RouterPaths::new(config.graphql_path().to_string(), config.websocket_path().map(|s| s.to_string()), cb.clone());
        paths.detect_conflicts(&prometheus).map_err(|e| e.to_string())?;
        let listener = std::net::TcpListener::bind("127.0.0.1:0").map_err(|e| e.to_string())?;
        let port = listener.local_addr().unwrap().port();
        let limit = LongLivedClientLimitService::new(shared.router_config);
        let cfg = test::config().client_timeout(Seconds(90)).listener(listener);
        let ws_path = config.websocket_path().map(|s| s.to_string());
        let serv = test::server_with(cfg, move || {
            let shared = shared.clone();
            let schema = schema.clone();
            let paths = paths.clone();
            let prometheus = prometheus.clone();
            let cb = cb.clone();
            let limit = limit.clone();
            async move {
                let callback_subs = schema.callback_subscriptions.clone();
                web::App::new()
                    .middleware(limit)
                    .middleware(PluginService::new(paths.clone(), prometheus.as_ref().map(|p| p.endpoint.clone())))
                    .middleware(RequestIdentifiersService)
                    .middleware(RequestSummaryService)
                    .state(shared.clone())
                    .state(schema)
                    .state(callback_subs)
                    .state(shared.telemetry_context.clone())
                    .configure(|m| configure_ntex_app(m, &paths, prometheus))
                    .configure(|m| {
                        if let Some(ref c) = cb {
                            add_callback_handler(m, c);
                        }
                    })
            }
        })
        .await;
        let client = Client::builder(hyper_util::rt::TokioExecutor::new()).build_http();
        let r = Router { port, path: config.graphql_path().to_string(), ws_path, _serv: serv, bg, client };
        Ok(r)
    }

    /// waits until a supergraph is loaded
    pub async fn ready(self) -> Result<Router, String> {
        for _ in 0..3000 {
            let r = self.try_send("GET", "/readiness", &[], Bytes::new()).await;
            if let Ok(r) = r {
                if r.status == 200 {
                    return Ok(self);
                }
            }
            tokio::time::sleep(Duration::from_millis(2)).await;
        }
        Err("router never became ready".into())
    }

    pub fn url(&self, path: &str) -> String {
        format!("http://127.0.0.1:{}{}", self.port, path)
    }

    pub async fn try_send(&self, method: &str, path: &str, headers: &[(String, Vec<u8>)], body: Bytes) -> Result<Resp, String> {
        let uri: http::Uri = self.url(path).parse().map_err(|e| format!("HARNESS uri {path}: {e}"))?;
        let mut req = http::Request::builder().method(method).uri(uri);
        let hm = req.headers_mut().unwrap();
        for (k, v) in headers {
            hm.append(
                HeaderName::from_bytes(k.as_bytes()).map_err(|e| format!("HARNESS header {k}: {e}"))?,
                HeaderValue::from_bytes(v).map_err(|e| format!("HARNESS header value {k}: {e}"))?,
            );
        }
        let req = req.body(Full::new(body)).map_err(|e| e.to_string())?;
        let fut = async {
            let resp = self.client.request(req).await.map_err(|e| format!("{e:?}"))?;
            let (parts, body) = resp.into_parts();
            let body = body.collect().await.map_err(|e| format!("{e:?}"))?.to_bytes();
            Ok(Resp { status: parts.status.as_u16(), headers: parts.headers, body })
        };
        match tokio::time::timeout(HANG, fut).await {
            Ok(r) => r,
            Err(_) => Err(format!("HANG: the router did not answer {method} {path} within {HANG:?}")),
        }
    }

    pub async fn send(&self, method: &str, path: &str, headers: &[(&str, &str)], body: impl Into<Bytes>) -> Result<Resp, String> {
        let hs: Vec<(String, Vec<u8>)> = headers.iter().map(|(k, v)| (k.to_string(), v.as_bytes().to_vec())).collect();
        self.try_send(method, path, &hs, body.into()).await
    }

    pub async fn gql_accept(&self, body: &serde_json::Value, headers: &[(&str, &str)], accept: &str) -> Result<Resp, String> {
        let mut h = vec![("content-type", "application/json"), ("accept", accept)];
        h.extend_from_slice(headers);
        self.send("POST", &self.path.clone(), &h, serde_json::to_vec(body).unwrap()).await
    }

    pub async fn gql(&self, body: &serde_json::Value, headers: &[(&str, &str)]) -> Result<Resp, String> {
        let mut h = vec![("content-type", "application/json"), ("accept", "application/json")];
        h.extend_from_slice(headers);
        self.send("POST", &self.path.clone(), &h, serde_json::to_vec(body).unwrap()).await
    }
}

impl Drop for Router {
    fn drop(&mut self) {
        self.bg.shutdown();
    }
}
