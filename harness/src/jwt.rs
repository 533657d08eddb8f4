//! Keys and tokens for checks which need authenticated requests.
use crate::runner::harness_error;
use jsonwebtoken::{encode, Algorithm, EncodingKey, Header};
use serde_json::{json, Value};
use std::io::Write;
use std::sync::OnceLock;

pub fn b64(b: &[u8]) -> String {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    let mut o = String::new();
    for c in b.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..=c.len() {
            o.push(T[(v >> (18 - 6 * i)) as usize & 63] as char);
        }
    }
    o
}
pub const SECRET: &[u8] = b"a rather long shared secret used by the checks 0123456789abcdef!";

pub fn write_jwks(keys: Value) -> tempfile::NamedTempFile {
    let mut f = tempfile::Builder::new().prefix("vjwks").suffix(".json").tempfile().unwrap_or_else(|e| harness_error(e));
    f.write_all(json!({ "keys": keys }).to_string().as_bytes()).unwrap();
    f.flush().unwrap();
    f
}
/// one HS256 key
pub fn jwks_path() -> String {
    static F: OnceLock<tempfile::NamedTempFile> = OnceLock::new();
    F.get_or_init(|| write_jwks(json!([{"kty": "oct", "kid": "k1", "alg": "HS256", "use": "sig", "k": b64(SECRET)}]))).path().to_str().unwrap().to_string()
}
pub fn now() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs()
}
pub fn token(claims: &Value) -> String {
    let mut h = Header::new(Algorithm::HS256);
    h.kid = Some("k1".into());
    encode(&h, claims, &EncodingKey::from_secret(SECRET)).unwrap_or_else(|e| harness_error(e))
}
/// never expires during a run, and the same text for the same claims
pub fn user_token(mut claims: Value) -> String {
    claims["exp"] = json!(4102444800u64);
    token(&claims)
}
pub fn yaml(more: &str) -> String {
    format!("jwt:\n  enabled: true\n  jwks_providers:\n    - source: file\n      path: {}\n{more}", crate::router::yaml_str(&jwks_path()))
}
