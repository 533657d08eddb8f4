//! C09: a bearer token counts exactly if it was signed by a configured key and satisfies the configured claims.
use crate::jwt::{b64, now, write_jwks};
use crate::mock::{json_resp, Mount};
use crate::router::yaml_str;
use crate::runner::{harness_error, truncate, BoxFut, Property};
use crate::simple::*;
use crate::tape::{hash_str, mix, Outcome, Src};
use bytes::Bytes;
use jsonwebtoken::{encode, Algorithm, EncodingKey, Header};
use serde_json::{json, Value};
use std::sync::{Arc, Mutex, OnceLock};

pub fn property() -> Property {
    Property::new("C09", "tokens: a case is a JWT configuration (one to three JWKS files with one to four of eight RSA, EC, Ed25519 and secret keys with or without kid and alg, issuers, audiences, allowed algorithms, required or optional authentication, header and cookie lookup, claims forwarding) and 6-18 requests, some at the same time, with tokens signed by configured and foreign keys, with wrong kids, expired, not yet valid, of other issuers and audiences, tampered payloads and signatures, alg none, HMAC with a public key; tokens repeat. lifetime: tokens on the verge of expiry and rotated remote key sets, asked again and again for some seconds. A request is authenticated (its claims, exactly, reach the subgraph) if and only if the token is valid by construction; otherwise it is refused without a subgraph request, or anonymous when authentication is optional. Non-trivial: a valid and an invalid token")
        .part("tokens", 220, 6000, |s: &mut Src| -> BoxFut<'_> { Box::pin(tokens(s)) })
        .part("lifetime", 24, 240, |s: &mut Src| -> BoxFut<'_> { Box::pin(lifetime(s)) })
        .workers(24)
}

struct Key {
    kind: &'static str,
    pem: String,
    jwk: Value,
}
fn keys() -> &'static Vec<Key> {
    static K: OnceLock<Vec<Key>> = OnceLock::new();
    K.get_or_init(|| {
        let v: Vec<Value> = serde_json::from_str(include_str!("../keys.json")).unwrap();
        v.into_iter()
            .map(|k| Key {
                kind: match k["kind"].as_str().unwrap() {
                    "RSA" => "RSA",
                    "EC" => "EC",
                    "OKP" => "OKP",
                    _ => "oct",
                },
                pem: k["pem"].as_str().unwrap().into(),
                jwk: k["jwk"].clone(),
            })
            .collect()
    })
}
fn algs(kind: &str) -> &'static [(&'static str, Algorithm)] {
    match kind {
        "RSA" => &[("RS256", Algorithm::RS256), ("RS384", Algorithm::RS384), ("RS512", Algorithm::RS512), ("PS256", Algorithm::PS256)],
        "EC" => &[("ES256", Algorithm::ES256)],
        "OKP" => &[("EdDSA", Algorithm::EdDSA)],
        _ => &[("HS256", Algorithm::HS256), ("HS384", Algorithm::HS384), ("HS512", Algorithm::HS512)],
    }
}
fn sign(key: usize, alg: Algorithm, kid: Option<&str>, claims: &Value) -> String {
    let k = &keys()[key];
    let e = match k.kind {
        "RSA" => EncodingKey::from_rsa_pem(k.pem.as_bytes()),
        "EC" => EncodingKey::from_ec_pem(k.pem.as_bytes()),
        "OKP" => EncodingKey::from_ed_pem(k.pem.as_bytes()),
        _ => Ok(EncodingKey::from_secret(k.pem.as_bytes())),
    }
    .unwrap_or_else(|e| harness_error(e));
    let mut h = Header::new(alg);
    h.kid = kid.map(String::from);
    encode(&h, claims, &e).unwrap_or_else(|e| harness_error(e))
}

const SDL: &str = "type Query { me: String }\n";

/// one published key
struct Pub {
    key: usize,
    kid: Option<String>,
    alg: Option<&'static str>,
}
impl Pub {
    fn jwk(&self) -> Value {
        let mut j = keys()[self.key].jwk.clone();
        if let Some(k) = &self.kid {
            j["kid"] = json!(k);
        }
        if let Some(a) = self.alg {
            j["alg"] = json!(a);
        }
        j
    }
}

#[derive(Clone, Debug)]
struct Tok {
    text: String,
    claims: Value,
    /// why it is not valid
    bad: Option<String>,
    /// valid or not is a matter of taste
    open: bool,
}

async fn tokens(src: &mut Src) -> Outcome {
    let mut sets: Vec<Vec<Pub>> = vec![];
    let same_kid = src.chance(15);
    for _ in 0..*src.pick(&[1, 1, 2, 2, 3]) {
        let mut set: Vec<Pub> = vec![];
        for _ in 0..src.range(1, 4) {
            let key = src.n(keys().len());
            if sets.iter().flatten().chain(&set).any(|p| p.key == key) {
                continue;
            }
            let alg = if src.chance(70) { Some(src.pick(algs(keys()[key].kind)).0) } else { None };
            set.push(Pub { key, kid: if src.chance(75) { Some(if same_kid { "same".into() } else { format!("k{key}") }) } else { None }, alg });
        }
        if !set.is_empty() {
            sets.push(set);
        }
    }
    let all_algs = ["RS256", "RS384", "RS512", "PS256", "ES256", "EdDSA", "HS256", "HS384", "HS512"];
    let allowed: Option<Vec<&str>> = src.chance(35).then(|| all_algs.iter().copied().filter(|_| src.chance(60)).collect());
    let issuers: Option<Vec<&str>> = src.chance(40).then(|| if src.chance(50) { vec!["https://iss1"] } else { vec!["https://iss1", "https://iss2"] });
    let audiences: Option<Vec<&str>> = src.chance(40).then(|| if src.chance(50) { vec!["aud1"] } else { vec!["aud1", "aud2"] });
    let require = *src.pick(&[None, Some(true), Some(true), Some(true), Some(false)]);
    let lookup = src.n(5);
    let field = *src.pick(&["jwt", "claims"]);
    let forward = src.chance(90);
    let encryption = src.chance(20);
    let files: Vec<_> = sets
        .iter()
        .map(|s| {
            let mut l: Vec<Value> = s.iter().map(|p| p.jwk()).collect();
            if encryption {
                // identity providers publish encryption keys as well
                let mut k = keys()[1].jwk.clone();
                k["alg"] = json!("RSA-OAEP");
                k["use"] = json!("enc");
                k["kid"] = json!("enc1");
                l.insert(0, k);
            }
            write_jwks(Value::Array(l))
        })
        .collect();
    let mut yaml = String::from("jwt:\n  enabled: true\n  jwks_providers:\n");
    for f in &files {
        yaml += &format!("    - source: file\n      path: {}\n", yaml_str(f.path().to_str().unwrap()));
    }
    for (n, l) in [("issuers", &issuers), ("audiences", &audiences), ("allowed_algorithms", &allowed)] {
        if let Some(l) = l {
            yaml += &format!("  {n}: {}\n", json!(l));
        }
    }
    if let Some(r) = require {
        yaml += &format!("  require_authentication: {r}\n");
    }
    yaml += match lookup {
        0 | 1 => "",
        2 => "  lookup_locations:\n    - source: header\n      name: x-token\n",
        3 => "  lookup_locations:\n    - source: cookies\n      name: auth\n",
        _ => "  lookup_locations:\n    - source: header\n      name: x-token\n      prefix: Tok\n    - source: cookies\n      name: auth\n",
    };
    if forward {
        yaml += &format!("  forward_claims_to_upstream_extensions:\n    enabled: true\n    field_name: {field}\n");
    }
    let s = match Simple::start(&[("a", SDL)], &yaml, auto(), plain()).await {
        Ok(s) => s,
        Err(e) => return Outcome::fail("router-does-not-start", format!("{e}\n{yaml}")),
    };
    let mut toks: Vec<Tok> = vec![];
    let count = src.range(4, 10);
    for i in 0..count {
        toks.push(token(src, i, &sets, &allowed, &issuers, &audiences, &toks));
    }
    let (mut evals, mut sig, mut good, mut bad) = (0, hash_str(&yaml), 0, 0);
    let mut sample = None;
    let mut nr = 0;
    for _ in 0..src.range(1, 4) {
        let mut burst: Vec<(usize, Option<Tok>, Vec<(String, Vec<u8>)>)> = vec![];
        for _ in 0..src.range(1, 6) {
            nr += 1;
            let t = if src.chance(8) { None } else { Some(src.pick(&toks).clone()) };
            let mut h: Vec<(String, Vec<u8>)> = vec![("content-type".into(), b"application/json".to_vec())];
            let cookie = |src: &mut Src, t: &str| {
                let mut c = vec![format!("auth={t}")];
                if src.chance(50) {
                    c.insert(0, "other=1".into());
                }
                if src.chance(50) {
                    c.push("xauth=zzz".into());
                }
                c.join("; ")
            };
            if let Some(t) = &t {
                match lookup {
                    0 | 1 => h.push(("authorization".into(), format!("Bearer {}", t.text).into_bytes())),
                    2 => h.push(("x-token".into(), t.text.clone().into_bytes())),
                    3 => h.push(("cookie".into(), cookie(src, &t.text).into_bytes())),
                    _ if src.chance(50) => h.push(("x-token".into(), format!("Tok {}", t.text).into_bytes())),
                    _ => h.push(("cookie".into(), cookie(src, &t.text).into_bytes())),
                }
            } else if src.chance(40) {
                // tokens where nobody looks for them
                let t = src.pick(&toks).text.clone();
                match lookup {
                    0 | 1 => h.push(("x-token".into(), t.into_bytes())),
                    _ => h.push(("authorization".into(), format!("Bearer {t}").into_bytes())),
                }
            }
            burst.push((nr, t, h));
        }
        s.take();
        let answers = futures::future::join_all(burst.iter().map(|(n, _, h)| {
            let body = Bytes::from(json!({"query": format!("{{ q{n}: me }}")}).to_string());
            let router = &s.router;
            async move { router.try_send("POST", "/graphql", h, body).await }
        }))
        .await;
        let seen = s.take();
        for ((n, t, h), a) in burst.iter().zip(answers) {
            evals += 1;
            let a = match a {
                Ok(a) => a,
                Err(e) => return Outcome::fail("no-response", format!("{e}\n{t:?}")),
            };
            let mine: Vec<&Seen> = seen.iter().filter(|x| x.query().contains(&format!("q{n}:"))).collect();
            let explain = |class: &str, m: String| {
                Outcome::fail(class, format!("{m}\nconfig:\n{yaml}key sets: {}\ntoken: {t:?}\nheader: {}\nrequest headers: {:?}\nanswer: {} {}\nsubgraph requests: {}", json!(sets.iter().map(|s| s.iter().map(|p| json!([p.key, keys()[p.key].kind, p.kid, p.alg])).collect::<Vec<_>>()).collect::<Vec<_>>()), t.as_ref().map(|t| decode(&t.text)).unwrap_or_default(), h.iter().map(|h| format!("{}: {}", h.0, String::from_utf8_lossy(&h.1))).collect::<Vec<_>>(), a.status, truncate(&a.text(), 500), mine.iter().map(|x| x.body.to_string()).collect::<Vec<_>>().join("\n")))
            };
            if t.as_ref().is_some_and(|t| t.open) {
                continue;
            }
            sig = mix(sig, hash_str(&format!("{:?}", t.as_ref().map(|t| (&t.bad, &t.claims)))));
            let valid = t.as_ref().is_some_and(|t| t.bad.is_none());
            if valid {
                good += 1;
            } else {
                bad += 1;
            }
            if !valid && require == Some(true) {
                if ![400, 401, 403].contains(&a.status) || !mine.is_empty() {
                    return explain("invalid-token-accepted", format!("status {}", a.status));
                }
                let j: Value = a.json().unwrap_or(Value::Null);
                if j["errors"].as_array().is_none_or(|e| e.is_empty()) || !j["data"].is_null() {
                    return explain("refused-without-error", String::new());
                }
                continue;
            }
            if valid && [400, 401, 403].contains(&a.status) {
                return explain("valid-token-refused", String::new());
            }
            if a.status != 200 || mine.len() != 1 || !a.json().unwrap_or(Value::Null)["data"][format!("q{n}")].is_string() {
                return explain("not-answered", String::new());
            }
            let got = &mine[0].body["extensions"];
            if valid && forward {
                if got[field] != t.as_ref().unwrap().claims {
                    return explain(if got[field].is_null() { "valid-token-ignored" } else { "wrong-claims" }, format!("extensions: {got}"));
                }
            } else if !got["jwt"].is_null() || !got["claims"].is_null() {
                return explain("claims-without-valid-token", format!("extensions: {got}"));
            }
            sample.get_or_insert_with(|| truncate(&format!("{t:?} {yaml}"), 1000));
        }
    }
    Outcome::Pass { nontrivial: good > 0 && bad > 0, sig, labels: vec![format!("{}", if good > 0 && bad > 0 { "valid and invalid" } else if good > 0 { "only valid" } else { "only invalid" })], evals, sample }
}

fn unb64(s: &str) -> Vec<u8> {
    let mut o = vec![];
    let (mut v, mut n) = (0u32, 0);
    for c in s.bytes() {
        let d = match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'-' => 62,
            b'_' => 63,
            _ => continue,
        };
        v = v << 6 | d as u32;
        n += 6;
        if n >= 8 {
            n -= 8;
            o.push((v >> n) as u8);
        }
    }
    o
}
fn decode(t: &str) -> String {
    t.split('.').take(2).map(|p| String::from_utf8_lossy(&unb64(p)).into_owned()).collect::<Vec<_>>().join(" . ")
}

fn token(src: &mut Src, i: usize, sets: &[Vec<Pub>], allowed: &Option<Vec<&str>>, issuers: &Option<Vec<&str>>, audiences: &Option<Vec<&str>>, earlier: &[Tok]) -> Tok {
    let mut bad: Option<String> = None;
    let mut open = false;
    let mut no = |m: &str| bad = Some(m.to_string());
    let published: Vec<&Pub> = sets.iter().flatten().collect();
    let p = if published.is_empty() || src.chance(12) { None } else { Some(*src.pick(&published)) };
    let key = p.map(|p| p.key).unwrap_or_else(|| src.n(keys().len()));
    let p = published.iter().find(|p| p.key == key).copied();
    let (alg_name, alg) = match p.and_then(|p| p.alg) {
        Some(a) if src.chance(85) => *algs(keys()[key].kind).iter().find(|x| x.0 == a).unwrap(),
        _ => *src.pick(algs(keys()[key].kind)),
    };
    let kid: Option<String> = match src.n(12) {
        0 => None,
        1 => Some("unknown".into()),
        2 => published.get(src.n(published.len().max(1))).and_then(|p| p.kid.clone()),
        _ => p.and_then(|p| p.kid.clone()),
    };
    match p {
        None => no("foreign key"),
        Some(p) => {
            if p.alg.is_some_and(|a| a != alg_name) {
                no("algorithm of the key differs");
            }
            // a token which names another key may be refused; one which names none of them is found by its algorithm
            if kid.is_some() && kid != p.kid && sets.iter().any(|s| s.iter().any(|p| p.kid == kid)) {
                open = true;
            }
            let named = kid.is_some() && p.kid == kid;
            if !named && p.alg.is_none() {
                open = true;
            }
        }
    }
    if allowed.as_ref().is_some_and(|a| !a.contains(&alg_name)) {
        no("algorithm not allowed");
    }
    let mut c = json!({"sub": format!("user{i}"), "exp": now() + 3600});
    for _ in 0..src.n(4) {
        let v = match src.n(7) {
            0 => json!("zoë \"quoted\" \u{1}"),
            1 => json!(9007199254740993u64),
            2 => json!([1, "x", null, {"y": false}]),
            3 => json!({"a": {"b": [1.5, -3]}}),
            4 => json!("read write"),
            5 => Value::Null,
            _ => json!(true),
        };
        c[*src.pick(&["scope", "scopes", "roles", "jti2", "exp2", "é", "email"])] = v;
    }
    if src.chance(30) {
        c["iat"] = json!(now() - 5);
    }
    match src.n(12) {
        0 => {
            c["exp"] = json!(now() - 100);
            no("expired");
        }
        1 => {
            c["exp"] = json!(1);
            no("expired");
        }
        2 => {
            c.as_object_mut().unwrap().remove("exp");
            no("no exp");
        }
        3 => c["exp"] = json!(4102444800u64),
        _ => {}
    }
    match src.n(12) {
        0 => {
            c["nbf"] = json!(now() + 3600);
            no("not yet valid");
        }
        1 | 2 => c["nbf"] = json!(now() - 100),
        _ => {}
    }
    let pick_iss = src.n(8);
    match pick_iss {
        0 => {}
        1 => c["iss"] = json!("https://evil"),
        2 => c["iss"] = json!("https://iss2"),
        3 => c["iss"] = json!("https://iss1/"),
        _ => c["iss"] = json!("https://iss1"),
    }
    if let Some(l) = issuers {
        if !c["iss"].as_str().is_some_and(|i| l.contains(&i)) {
            no("issuer");
        }
    }
    match src.n(9) {
        0 => {}
        1 => c["aud"] = json!("other"),
        2 => c["aud"] = json!("aud2"),
        3 => c["aud"] = json!(["aud1"]),
        4 => c["aud"] = json!(["other", "another"]),
        5 => c["aud"] = json!(["aud1", "aud2"]),
        _ => c["aud"] = json!("aud1"),
    }
    if let Some(l) = audiences {
        let a: Vec<String> = match &c["aud"] {
            Value::String(s) => vec![s.clone()],
            Value::Array(v) => v.iter().map(|v| v.as_str().unwrap().to_string()).collect(),
            _ => vec![],
        };
        let n = a.iter().filter(|a| l.contains(&a.as_str())).count();
        if n == 0 {
            no("audience");
        } else if n < a.len() {
            // all of them or one of them: both readings exist
            open = true;
        }
    }
    let mut text = sign(key, alg, kid.as_deref(), &c);
    let parts: Vec<String> = text.split('.').map(String::from).collect();
    match src.n(26) {
        0 => {
            // another payload under the same signature
            let mut c2 = c.clone();
            c2["sub"] = json!("admin");
            text = format!("{}.{}.{}", parts[0], b64(c2.to_string().as_bytes()), parts[2]);
            no("payload replaced");
        }
        1 => {
            let mut s = unb64(&parts[2]);
            let k = src.n(s.len());
            s[k] ^= 1 << src.n(8);
            text = format!("{}.{}.{}", parts[0], parts[1], b64(&s));
            no("signature changed");
        }
        2 => {
            text = format!("{}.{}.", parts[0], parts[1]);
            no("no signature");
        }
        3 => {
            let alg = *src.pick(&["none", "None", "HS256"]);
            let mut h = json!({"typ": "JWT", "alg": alg});
            if let Some(k) = &kid {
                h["kid"] = json!(k);
            }
            text = format!("{}.{}.{}", b64(h.to_string().as_bytes()), parts[1], if src.chance(50) { "" } else { &parts[2] });
            if alg != "HS256" || alg_name != "HS256" {
                no("alg replaced");
            } else {
                open = true;
            }
        }
        4 => {
            // signed with what everybody knows
            let pk = &keys()[src.n(6)];
            let public = pk.jwk.get("n").or(pk.jwk.get("x")).and_then(|v| v.as_str()).unwrap_or("").to_string();
            let secret = if src.chance(50) { unb64(&public) } else { public.into_bytes() };
            let mut h = Header::new(Algorithm::HS256);
            h.kid = p.and_then(|p| p.kid.clone());
            text = encode(&h, &c, &EncodingKey::from_secret(&secret)).unwrap_or_default();
            no("signed with a public key");
        }
        5 => {
            text = src.pick(&["", "x", "a.b.c", "..", "null"]).to_string();
            no("not a token");
        }
        6 => {
            text = format!("{}.{}", parts[0], parts[1]);
            no("no signature part");
        }
        7 => {
            text.push_str(&format!(".{}", parts[2]));
            no("too many parts");
        }
        8 if !earlier.is_empty() => {
            // the signature of another token
            let o = src.pick(earlier).text.clone();
            let sg = o.rsplit('.').next().unwrap_or("").to_string();
            if sg != parts[2] {
                text = format!("{}.{}.{sg}", parts[0], parts[1]);
                no("signature of another token");
            }
        }
        9 => {
            let h = json!({"typ": "JWT", "alg": alg_name, "kid": kid, "jwk": keys()[key].jwk});
            if p.is_none() {
                text = format!("{}.{}.{}", b64(h.to_string().as_bytes()), parts[1], parts[2]);
                no("brings its own key");
            }
        }
        _ => {}
    }
    if bad.is_some() {
        open = false;
    }
    Tok { text, claims: c, bad, open }
}

async fn lifetime(src: &mut Src) -> Outcome {
    let current: Arc<Mutex<Vec<(usize, &'static str)>>> = Arc::new(Mutex::new(vec![(6, "HS256")]));
    let failing = Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let (c2, f2) = (current.clone(), failing.clone());
    let jwks = Mount::new(Arc::new(move |_| {
        let (c, f) = (c2.clone(), f2.clone());
        Box::pin(async move {
            match f.load(std::sync::atomic::Ordering::SeqCst) {
                1 => return json_resp(500, &json!({"error": "x"})),
                2 => return crate::mock::MockResp::Drop,
                _ => {}
            }
            let ks: Vec<Value> = c.lock().unwrap().iter().map(|(k, a)| Pub { key: *k, kid: Some(format!("k{k}")), alg: Some(a) }.jwk()).collect();
            json_resp(200, &json!({ "keys": ks }))
        })
    }));
    let interval = *src.pick(&[100, 300]);
    let yaml = format!(
        "jwt:\n  enabled: true\n  require_authentication: true\n  forward_claims_to_upstream_extensions:\n    enabled: true\n    field_name: jwt\n  jwks_providers:\n    - source: remote\n      url: {}\n      polling_interval: {interval}ms\n      prefetch: true\n",
        jwks.url("keys")
    );
    let s = match Simple::start(&[("a", SDL)], &yaml, auto(), plain()).await {
        Ok(s) => s,
        Err(e) => return Outcome::fail("router-does-not-start", format!("{e}\n{yaml}")),
    };
    let start = std::time::Instant::now();
    // (text, exp, key)
    let mut toks: Vec<(String, u64, usize)> = vec![];
    for k in 0..src.range(2, 5) {
        let key = *src.pick(&[6, 6, 7]);
        let exp = if src.chance(55) { now() - 60 + src.range(2, 6) as u64 } else { now() + *src.pick(&[1, 4, 100, 1000]) };
        toks.push((sign(key, Algorithm::HS256, Some(&format!("k{key}")), &json!({"sub": format!("u{k}"), "exp": exp})), exp, key));
    }
    let rotate_at = src.range(300, 2500) as u128;
    let add = src.chance(50);
    let fault = src.n(3);
    let mut rotated: Option<u128> = None;
    let (mut evals, mut sig, mut refused, mut accepted) = (0, 1, 0, 0);
    while start.elapsed().as_millis() < 8200 {
        let t = start.elapsed().as_millis();
        if rotated.is_none() && t >= rotate_at {
            *current.lock().unwrap() = if add { vec![(6, "HS256"), (7, "HS256")] } else { vec![(7, "HS256")] };
            rotated = Some(t);
        }
        if fault > 0 {
            // the key server is down for a while, later
            let down = (3600..4800).contains(&t);
            failing.store(if down { fault } else { 0 }, std::sync::atomic::Ordering::SeqCst);
        }
        let (text, exp, key) = src.pick(&toks).clone();
        let before = now();
        let r = s.router.gql(&json!({"query": "{ me }"}), &[("authorization", &format!("Bearer {text}"))]).await;
        let after = now();
        evals += 1;
        sig = mix(sig, hash_str(&format!("{exp}{key}")));
        let r = match r {
            Ok(r) => r,
            Err(e) => return Outcome::fail("no-response", e),
        };
        let t2 = start.elapsed().as_millis();
        let ok = r.status == 200;
        let alive = after < exp + 60;
        let dead = before > exp + 61;
        // margins: one poll and scheduling; a removed key may be trusted for the documented cache time of 5 s
        let key_known = match (rotated, key) {
            (None, 6) => Some(true),
            (None, _) => Some(false),
            (Some(_), 6) if add => Some(true),
            (Some(at), 6) => (t > at + 5000 + interval as u128 + 1500).then_some(false),
            (Some(at), _) => (t > at + interval as u128 + 1200).then_some(true),
        };
        let expect = match key_known {
            _ if dead => Some(false),
            Some(k) if alive => Some(k),
            Some(false) => Some(false),
            _ => None,
        };
        if ok {
            accepted += 1
        } else {
            refused += 1
        }
        if expect.is_some_and(|e| e != ok) {
            return Outcome::fail(if ok { "token-outlives-its-validity" } else { "valid-token-refused" }, format!("at {t}-{t2} ms (keys changed at {rotated:?}, new set {:?}, polling every {interval} ms): key {key} exp {exp} now {before}-{after}\nanswer: {} {}", current.lock().unwrap(), r.status, truncate(&r.text(), 400)));
        }
        tokio::time::sleep(std::time::Duration::from_millis(90)).await;
    }
    Outcome::Pass { nontrivial: refused > 0 && accepted > 0, sig, labels: vec!["lifetime".into()], evals, sample: None }
}
