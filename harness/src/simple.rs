//! Routers over hand-written subgraph schemas with an automatic, deterministic resolver behind every field.
use crate::mock::{json_resp, Handler, MockReq, MockResp, Mount};
use crate::router::{yaml_str, Router};
use crate::runner::harness_error;
use crate::tape::{hash_str, mix};
use crate::world::compose;
use crate::world::data::{Ident, Inst};
use crate::world::interp::*;
use crate::world::Composed;
use apollo_compiler::ast::Type;
use apollo_compiler::executable as ex;
use apollo_compiler::schema::ExtendedType;
use apollo_compiler::validation::Valid;
use apollo_compiler::{ExecutableDocument, Schema};
use futures::future::BoxFuture;
use futures::FutureExt;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::io::Write;
use std::sync::{Arc, Mutex, OnceLock};

pub const FED: &str = "extend schema @link(url: \"https://specs.apollo.dev/federation/v2.9\", import: [\"@key\", \"@shareable\", \"@external\", \"@requires\", \"@provides\", \"@override\", \"@inaccessible\", \"@interfaceObject\", \"@authenticated\", \"@requiresScopes\", \"@policy\", \"@cost\", \"@listSize\", \"@tag\"])\n";
const DIRS: &str = "directive @key(fields: String!, resolvable: Boolean = true) repeatable on OBJECT | INTERFACE\ndirective @shareable repeatable on OBJECT | FIELD_DEFINITION\ndirective @external on OBJECT | FIELD_DEFINITION\ndirective @requires(fields: String!) on FIELD_DEFINITION\ndirective @provides(fields: String!) on FIELD_DEFINITION\ndirective @override(from: String!, label: String) on FIELD_DEFINITION\ndirective @inaccessible on FIELD_DEFINITION | OBJECT | INTERFACE | UNION | ARGUMENT_DEFINITION | SCALAR | ENUM | ENUM_VALUE | INPUT_OBJECT | INPUT_FIELD_DEFINITION\ndirective @interfaceObject on OBJECT\ndirective @authenticated on FIELD_DEFINITION | OBJECT | INTERFACE | SCALAR | ENUM\ndirective @requiresScopes(scopes: [[String!]!]!) on FIELD_DEFINITION | OBJECT | INTERFACE | SCALAR | ENUM\ndirective @policy(policies: [[String!]!]!) on FIELD_DEFINITION | OBJECT | INTERFACE | SCALAR | ENUM\ndirective @cost(weight: Int!) on ARGUMENT_DEFINITION | ENUM | FIELD_DEFINITION | INPUT_FIELD_DEFINITION | OBJECT | SCALAR\ndirective @listSize(assumedSize: Int, slicingArguments: [String!], sizedFields: [String!], requireOneSlicingArgument: Boolean = true) on FIELD_DEFINITION\ndirective @tag(name: String!) repeatable on FIELD_DEFINITION | OBJECT | INTERFACE | UNION | ARGUMENT_DEFINITION | SCALAR | ENUM | ENUM_VALUE | INPUT_OBJECT | INPUT_FIELD_DEFINITION\n";

pub struct Sub {
    pub name: String,
    pub schema: Valid<Schema>,
}

/// composed schemas are cached by their text
pub struct Schemas {
    pub supergraph: String,
    pub api_sdl: String,
    pub api: Valid<Schema>,
    pub subs: Vec<Sub>,
}

pub fn schemas(subs: &[(&str, &str)]) -> Arc<Schemas> {
    static CACHE: OnceLock<Mutex<HashMap<String, Arc<Schemas>>>> = OnceLock::new();
    let key = format!("{subs:?}");
    let cache = CACHE.get_or_init(Default::default);
    if let Some(s) = cache.lock().unwrap().get(&key) {
        return s.clone();
    }
    let s = Arc::new(try_schemas(subs).unwrap_or_else(|e| harness_error(format!("composition: {e}"))));
    cache.lock().unwrap().insert(key, s.clone());
    s
}

pub fn try_schemas(subs: &[(&str, &str)]) -> Result<Schemas, String> {
    let list: Vec<(String, String, String)> = subs.iter().map(|(n, s)| (n.to_string(), format!("http://127.0.0.1:1/placeholder/{n}/"), format!("{FED}{s}"))).collect();
    let Composed { supergraph, api } = compose(&list).map_err(|e| e.join("; "))?;
    let apis = Schema::parse_and_validate(&api, "api.graphql").unwrap_or_else(|e| harness_error(e));
    let subs = subs
        .iter()
        .map(|(n, s)| {
            let mut sdl = format!("{DIRS}{s}");
            let plain = Schema::parse(&sdl, "x").unwrap_or_else(|e| harness_error(e));
            let ents: Vec<String> = plain.types.iter().filter(|(_, t)| matches!(t, ExtendedType::Object(_)) && t.directives().has("key")).map(|(n, _)| n.to_string()).collect();
            if !plain.types.contains_key("Query") {
                sdl.push_str("\ntype Query { _none: Int }\n");
            }
            if !ents.is_empty() {
                sdl.push_str(&format!("\nscalar _Any\nunion _Entity = {}\nextend type Query {{ _entities(representations: [_Any!]!): [_Entity]! }}\n", ents.join(" | ")));
            }
            Sub { name: n.to_string(), schema: Schema::parse_and_validate(&sdl, "sub").unwrap_or_else(|e| harness_error(format!("{n}: {e}"))) }
        })
        .collect();
    Ok(Schemas { supergraph, api_sdl: api, api: apis, subs })
}

#[derive(Clone, Debug)]
pub struct Seen {
    pub sub: String,
    pub body: Value,
    pub raw: Vec<u8>,
    pub headers: http::HeaderMap,
    pub method: String,
    pub uri: String,
}
impl Seen {
    pub fn query(&self) -> &str {
        self.body["query"].as_str().unwrap_or("")
    }
    pub fn header(&self, n: &str) -> Vec<String> {
        self.headers.get_all(n).iter().map(|v| String::from_utf8_lossy(v.as_bytes()).into_owned()).collect()
    }
}

/// (type, field, arguments, identity) => value, or None for the automatic one
pub type Resolver = Arc<dyn Fn(&str, &str, &Value, u64) -> Option<RV> + Send + Sync>;
/// may replace the answer of a subgraph; gets the automatic one
pub type Hook = Arc<dyn Fn(&Seen, Value) -> BoxFuture<'static, MockResp> + Send + Sync>;

pub fn plain() -> Hook {
    Arc::new(|_, v| async move { json_resp(200, &v) }.boxed())
}
pub fn auto() -> Resolver {
    Arc::new(|_, _, _, _| None)
}

pub struct Auto<'a> {
    pub schema: &'a Valid<Schema>,
    pub res: &'a Resolver,
}

impl Auto<'_> {
    fn value(&self, ty: &Type, h: u64) -> RV {
        match ty {
            Type::NonNullList(t) | Type::List(t) => RV::List((0..2).map(|i| self.value(t, mix(h, i))).collect()),
            Type::NonNullNamed(n) | Type::Named(n) => match n.as_str() {
                "Int" => RV::Leaf(json!((h % 1000) as i64)),
                "Float" => RV::Leaf(json!((h % 1000) as f64 + 0.5)),
                "Boolean" => RV::Leaf(json!(h % 2 == 0)),
                "String" => RV::Leaf(json!(format!("s{}", h % 10000))),
                "ID" => RV::Leaf(json!(format!("{}", h % 10000))),
                _ => match self.schema.types.get(n) {
                    Some(ExtendedType::Enum(e)) => {
                        let vs: Vec<_> = e.values.keys().collect();
                        RV::Leaf(json!(vs[(h % vs.len() as u64) as usize].as_str()))
                    }
                    Some(ExtendedType::Scalar(_)) => RV::Leaf(json!({"scalar": h % 100})),
                    Some(ExtendedType::Object(_)) => self.obj(n, h),
                    Some(_) => {
                        let mut ps: Vec<String> = match self.schema.types.get(n) {
                            Some(ExtendedType::Union(u)) => u.members.iter().map(|m| m.to_string()).collect(),
                            _ => self.schema.types.values().filter_map(|t| match t { ExtendedType::Object(o) if o.implements_interfaces.contains(n) => Some(o.name.to_string()), _ => None }).collect(),
                        };
                        ps.sort();
                        match ps.is_empty() {
                            true => RV::Null,
                            false => self.obj(&ps[(h % ps.len() as u64) as usize].clone(), h),
                        }
                    }
                    None => RV::Null,
                },
            },
        }
    }
    fn obj(&self, ty: &str, h: u64) -> RV {
        RV::Obj(Obj { inst: Inst { ty: ty.into(), id: Ident::Hash(h % 10000) }, rep: None, provided: vec![] })
    }
}

pub fn obj(ty: &str, id: u64) -> RV {
    RV::Obj(Obj { inst: Inst { ty: ty.into(), id: Ident::Hash(id) }, rep: None, provided: vec![] })
}

impl Backend for Auto<'_> {
    fn typename(&self, o: &Obj) -> String {
        o.inst.ty.clone()
    }
    fn resolve(&mut self, o: &Obj, field: &ex::Field, args: &Value, _path: &[Value]) -> RV {
        let id = match &o.inst.id {
            Ident::Hash(h) => *h,
            _ => 0,
        };
        let f = field.name.as_str();
        if f == "_entities" {
            let reps = args["representations"].as_array().cloned().unwrap_or_default();
            return RV::List(
                reps.iter()
                    .map(|r| {
                        let ty = r["__typename"].as_str().unwrap_or("?");
                        let id: u64 = r["id"].as_str().and_then(|s| s.parse().ok()).unwrap_or(0);
                        obj(ty, id)
                    })
                    .collect(),
            );
        }
        if let Some(v) = (self.res)(&o.inst.ty, f, args, id) {
            return v;
        }
        if f == "id" {
            return RV::Leaf(json!(format!("{id}")));
        }
        let h = mix(mix(hash_str(&format!("{}.{f}", o.inst.ty)), id), hash_str(&args.to_string()));
        self.value(&field.definition.ty, h)
    }
}

pub fn auto_answer(schema: &Valid<Schema>, res: &Resolver, body: &Value) -> Value {
    let q = body["query"].as_str().unwrap_or("");
    let vars = if body["variables"].is_object() { body["variables"].clone() } else { json!({}) };
    let doc = match ExecutableDocument::parse_and_validate(schema, q, "q") {
        Ok(d) => d,
        Err(e) => return json!({"errors": [{"message": format!("HARNESS invalid subgraph operation: {e}")}]}),
    };
    let Ok(op) = doc.operations.get(body["operationName"].as_str()) else {
        return json!({"errors": [{"message": "HARNESS no such operation"}]});
    };
    let r = execute(schema, &doc, op, &vars, &mut Auto { schema, res });
    let mut out = json!({"data": r.data});
    if !r.errors.is_empty() {
        out["errors"] = r.errors.iter().map(|e| json!({"message": e.message, "path": e.path})).collect();
    }
    out
}

pub struct Simple {
    pub schemas: Arc<Schemas>,
    pub router: Router,
    pub log: Arc<Mutex<Vec<Seen>>>,
    pub mount: Mount,
    _file: tempfile::NamedTempFile,
}

pub fn mount(sc: &Arc<Schemas>, log: &Arc<Mutex<Vec<Seen>>>, res: Resolver, hook: Hook) -> Mount {
    let (sc, log) = (sc.clone(), log.clone());
    let h: Handler = Arc::new(move |r: MockReq| {
        let (sc, log, res, hook) = (sc.clone(), log.clone(), res.clone(), hook.clone());
        async move {
            let body: Value = serde_json::from_slice(&r.body).unwrap_or(Value::Null);
            let seen = Seen { sub: r.subgraph.clone(), body, raw: r.body.to_vec(), headers: r.headers.clone(), method: r.method.to_string(), uri: r.uri.to_string() };
            log.lock().unwrap().push(seen.clone());
            let ans = match sc.subs.iter().find(|s| s.name == r.subgraph) {
                Some(s) => auto_answer(&s.schema, &res, &seen.body),
                None => json!({"errors": [{"message": format!("HARNESS unknown subgraph {}", r.subgraph)}]}),
            };
            hook(&seen, ans).await
        }
        .boxed()
    });
    Mount::new(h)
}

pub fn supergraph_file(sc: &Schemas, mount: &Mount) -> tempfile::NamedTempFile {
    let mut sg = sc.supergraph.clone();
    for s in &sc.subs {
        sg = sg.replace(&format!("http://127.0.0.1:1/placeholder/{}/", s.name), &mount.url(&s.name));
    }
    let mut f = tempfile::Builder::new().prefix("vsg").suffix(".graphql").tempfile().unwrap_or_else(|e| harness_error(e));
    f.write_all(sg.as_bytes()).unwrap();
    f.flush().unwrap();
    f
}

pub fn base_yaml(file: &tempfile::NamedTempFile) -> String {
    format!("supergraph:\n  source: file\n  path: {}\nlog:\n  level: error\n", yaml_str(file.path().to_str().unwrap()))
}

impl Simple {
    pub async fn start(subs: &[(&str, &str)], extra: &str, res: Resolver, hook: Hook) -> Result<Simple, String> {
        Simple::start_with(schemas(subs), extra, res, hook).await
    }
    pub async fn start_with(schemas: Arc<Schemas>, extra: &str, res: Resolver, hook: Hook) -> Result<Simple, String> {
        let log = Arc::new(Mutex::new(vec![]));
        let mount = mount(&schemas, &log, res, hook);
        let file = supergraph_file(&schemas, &mount);
        let router = Router::start(&format!("{}{extra}", base_yaml(&file))).await?.ready().await?;
        Ok(Simple { schemas, router, log, mount, _file: file })
    }
    pub fn take(&self) -> Vec<Seen> {
        std::mem::take(&mut self.log.lock().unwrap())
    }
    /// what one server with the same automatic resolvers would answer
    pub fn reference(&self, res: &Resolver, query: &str, op_name: Option<&str>, vars: &Value) -> Result<Value, String> {
        self.schemas.reference(res, query, op_name, vars)
    }
}

impl Schemas {
    pub fn reference_of(&self, res: &Resolver, query: &str, vars: &Value) -> Result<Value, String> {
        self.reference(res, query, None, vars)
    }
    pub fn reference(&self, res: &Resolver, query: &str, op_name: Option<&str>, vars: &Value) -> Result<Value, String> {
        let doc = ExecutableDocument::parse_and_validate(&self.api, query, "q").map_err(|e| e.errors.iter().map(|d| d.error.to_string()).collect::<Vec<_>>().join("; "))?;
        let op = doc.operations.get(op_name).map_err(|_| "no such operation".to_string())?;
        Ok(execute(&self.api, &doc, op, vars, &mut Auto { schema: &self.api, res }).data)
    }
}

pub type Headers = BTreeMap<String, String>;
