//! C13: demand control: the estimated cost of an operation, and what it decides.
use crate::runner::{truncate, BoxFut, Property};
use crate::simple::*;
use crate::tape::{hash_str, mix, Outcome, Src};
use apollo_compiler::ast;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashMap};

pub fn property() -> Property {
    Property::new("C13", "a case is a supergraph of two subgraphs with generated @cost weights (types, fields, arguments, input fields, scalars, enums) and @listSize directives (assumed size, slicing arguments with paths, sized fields, exactly-one or not), default list sizes and limits per operation and per subgraph in either mode, and 3-9 operations (aliases, fragments, conditions, literals and variables in the arguments, with and without an override label), each sent several times with other variables. A reference computes the cost from the documents of the plan's fetches. The exposed estimate must be the reference's; an operation must be refused without any subgraph request exactly if enforcing and the estimate is over the limit; a subgraph must be left out exactly if its budget is enforced and exceeded. Non-trivial: the operations had at least two different costs and something was refused or left out")
        .part("estimates", 130, 4000, |s: &mut Src| -> BoxFut<'_> { Box::pin(run(s)) })
        .workers(8)
}

#[derive(Clone, Debug, Default)]
struct ListSize {
    assumed: Option<u64>,
    slicing: Option<Vec<String>>,
    sized: Option<Vec<String>>,
    one: bool,
}
#[derive(Clone, Debug)]
struct Field {
    ty: ast::Type,
    cost: Option<u64>,
    args: BTreeMap<String, (ast::Type, u64)>,
    list: Option<ListSize>,
}
#[derive(Default)]
struct Model {
    fields: HashMap<(String, String), Field>,
    /// output types: kind, cost
    types: HashMap<String, (&'static str, Option<u64>)>,
    inputs: HashMap<String, BTreeMap<String, (ast::Type, u64)>>,
}

fn weight(d: &ast::DirectiveList) -> Option<u64> {
    d.get("cost").and_then(|d| d.arguments.iter().find(|a| a.name == "weight").and_then(|a| a.value.to_i32())).map(|x| x as u64)
}
fn strs(v: &ast::Value) -> Vec<String> {
    v.as_list().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
}
fn list_size(d: &ast::DirectiveList) -> Option<ListSize> {
    let d = d.get("listSize")?;
    let arg = |n: &str| d.arguments.iter().find(|a| a.name == n).map(|a| &a.value);
    Some(ListSize {
        assumed: arg("assumedSize").and_then(|v| v.to_i32()).map(|x| x as u64),
        slicing: arg("slicingArguments").map(|v| strs(v)),
        sized: arg("sizedFields").map(|v| strs(v)),
        one: arg("requireOneSlicingArgument").is_none_or(|v| matches!(**v, ast::Value::Boolean(true))),
    })
}
fn model(sdls: &[&str]) -> Model {
    let mut m = Model::default();
    for s in sdls {
        let doc = ast::Document::parse(s.to_string(), "s").unwrap();
        for d in &doc.definitions {
            let mut fields = |name: &str, fs: &[apollo_compiler::Node<ast::FieldDefinition>]| {
                for f in fs {
                    let args = f.arguments.iter().map(|a| (a.name.to_string(), ((*a.ty).clone(), weight(&a.directives).unwrap_or(0)))).collect();
                    let e = m.fields.entry((name.to_string(), f.name.to_string())).or_insert(Field { ty: f.ty.clone(), cost: None, args, list: list_size(&f.directives) });
                    e.cost = e.cost.max(weight(&f.directives));
                }
            };
            match d {
                ast::Definition::ObjectTypeDefinition(t) => {
                    fields(&t.name, &t.fields);
                    let e = m.types.entry(t.name.to_string()).or_insert(("object", None));
                    e.1 = e.1.max(weight(&t.directives));
                }
                ast::Definition::InterfaceTypeDefinition(t) => {
                    fields(&t.name, &t.fields);
                    m.types.insert(t.name.to_string(), ("abstract", None));
                }
                ast::Definition::UnionTypeDefinition(t) => {
                    m.types.insert(t.name.to_string(), ("abstract", None));
                }
                ast::Definition::ScalarTypeDefinition(t) => {
                    m.types.insert(t.name.to_string(), ("leaf", weight(&t.directives)));
                }
                ast::Definition::EnumTypeDefinition(t) => {
                    m.types.insert(t.name.to_string(), ("leaf", weight(&t.directives)));
                }
                ast::Definition::InputObjectTypeDefinition(t) => {
                    m.inputs.insert(t.name.to_string(), t.fields.iter().map(|f| (f.name.to_string(), ((*f.ty).clone(), weight(&f.directives).unwrap_or(0)))).collect());
                }
                _ => {}
            }
        }
    }
    m
}

struct Ctx<'a> {
    m: &'a Model,
    vars: &'a Map<String, Value>,
    frags: HashMap<String, &'a ast::FragmentDefinition>,
    default: u64,
    free: &'a std::cell::Cell<bool>,
}
/// `Err`: the slicing arguments are refused
type Cost = Result<u64, ()>;

fn resolve(v: &ast::Value, vars: &Map<String, Value>) -> Option<Value> {
    Some(match v {
        ast::Value::Null => Value::Null,
        ast::Value::Enum(e) => json!(e.as_str()),
        ast::Value::Variable(n) => return vars.get(n.as_str()).cloned(),
        ast::Value::String(s) => json!(s),
        ast::Value::Float(f) => json!(f.try_to_f64().unwrap_or(0.0)),
        ast::Value::Int(i) => json!(i.as_str().parse::<i64>().unwrap_or(0)),
        ast::Value::Boolean(b) => json!(b),
        ast::Value::List(l) => Value::Array(l.iter().map(|x| resolve(x, vars).unwrap_or(Value::Null)).collect()),
        // (a field that is written counts, even if its variable has no value)
        ast::Value::Object(o) => Value::Object(o.iter().map(|(k, x)| (k.to_string(), resolve(x, vars).unwrap_or(Value::Null))).collect()),
    })
}

impl Ctx<'_> {
    fn on(&self, d: &ast::DirectiveList) -> bool {
        let val = |n: &str| d.get(n).map(|d| matches!(d.arguments.iter().find(|a| a.name == "if").and_then(|a| resolve(&a.value, self.vars)), Some(Value::Bool(true))));
        val("skip") != Some(true) && val("include") != Some(false)
    }
    fn type_cost(&self, n: &str) -> u64 {
        match self.m.types.get(n) {
            Some(("object", c)) => c.unwrap_or(1),
            Some(("abstract", _)) => 1,
            Some((_, c)) => c.unwrap_or(0),
            None => 0,
        }
    }
    fn input(&self, v: &Value, ty: &ast::Type) -> u64 {
        match v {
            Value::Array(l) if ty.is_list() => l.iter().map(|x| self.input(x, ty.item_type())).sum(),
            Value::Object(o) => match self.m.inputs.get(ty.inner_named_type().as_str()) {
                // one object stands for a list of one
                Some(fs) => 1 + o.iter().filter_map(|(k, v)| fs.get(k).map(|(t, c)| c + self.input(v, t))).sum::<u64>(),
                None => 0,
            },
            _ => 0,
        }
    }
    fn size(&self, l: &ListSize, f: &ast::Field, def: &Field) -> Cost {
        if let Some(n) = l.assumed {
            return Ok(n);
        }
        let Some(args) = &l.slicing else { return Ok(self.default) };
        let mut found = vec![];
        for path in args {
            let mut p = path.split('.');
            let head = p.next().unwrap();
            let Some(mut v) = f.arguments.iter().find(|a| a.name == head).and_then(|a| resolve(&a.value, self.vars)) else { continue };
            let mut ty = Some(&def.args[head].0);
            for k in p {
                ty = ty.and_then(|t| self.m.inputs.get(t.inner_named_type().as_str())).and_then(|i| i.get(k)).map(|x| &x.0);
                v = v.get(k).cloned().unwrap_or(Value::Null);
            }
            match v {
                Value::Null => {}
                Value::Array(l) => found.push(l.len() as u64),
                // one value stands for a list of one
                _ if ty.is_some_and(|t| t.is_list()) => found.push(1),
                Value::Number(n) => found.push(n.as_i64().unwrap_or(0).max(0) as u64),
                _ => {}
            }
        }
        if l.one {
            return if found.len() == 1 { Ok(found[0]) } else { Err(()) };
        }
        Ok(found.iter().copied().max().unwrap_or(self.default))
    }
    fn sels(&self, sels: &[ast::Selection], ty: &str, over: &[(Vec<String>, Cost)]) -> Cost {
        let mut n = 0;
        for s in sels {
            n += match s {
                ast::Selection::Field(f) if !self.on(&f.directives) => 0,
                ast::Selection::Field(f) => self.field(f, ty, over)?,
                ast::Selection::InlineFragment(f) if !self.on(&f.directives) => 0,
                ast::Selection::InlineFragment(f) => self.sels(&f.selection_set, f.type_condition.as_ref().map_or(ty, |t| t.as_str()), over)?,
                ast::Selection::FragmentSpread(f) if !self.on(&f.directives) => 0,
                ast::Selection::FragmentSpread(f) => {
                    let d = self.frags[f.fragment_name.as_str()];
                    self.sels(&d.selection_set, &d.type_condition, over)?
                }
            };
        }
        Ok(n)
    }
    fn field(&self, f: &ast::Field, ty: &str, over: &[(Vec<String>, Cost)]) -> Cost {
        if f.name == "__typename" {
            return Ok(0);
        }
        if f.name == "_entities" {
            let own = f.selection_set.iter().filter_map(|s| s.as_inline_fragment()).filter_map(|f| f.type_condition.as_ref()).map(|t| self.type_cost(t)).max().unwrap_or(0);
            return Ok(self.default.max(1) * (own + self.sels(&f.selection_set, ty, &[])?));
        }
        let d = &self.m.fields[&(ty.to_string(), f.name.to_string())];
        let mut base = d.cost.unwrap_or(0);
        for a in &f.arguments {
            let (t, c) = &d.args[a.name.as_str()];
            base += c + resolve(&a.value, self.vars).map_or(0, |v| self.input(&v, t));
        }
        let mut own = over.iter().find(|(p, _)| p.len() == 1 && p[0] == f.name.as_str()).map(|x| x.1);
        let mut down: Vec<(Vec<String>, Cost)> = over.iter().filter(|(p, _)| p.len() > 1 && p[0] == f.name.as_str()).map(|(p, n)| (p[1..].to_vec(), *n)).collect();
        if let Some(l) = &d.list {
            match &l.sized {
                Some(s) => {
                    let n = self.size(l, f, d);
                    down.extend(s.iter().map(|p| (p.split([' ', '{', '}']).filter(|x| !x.is_empty()).map(|x| x.to_string()).collect(), n)));
                }
                None if d.ty.is_list() => {
                    if own.is_none() {
                        own = Some(self.size(l, f, d));
                    }
                }
                None => {}
            }
        }
        if own.is_none() && d.ty.is_list() {
            own = Some(Ok(self.default));
        }
        let r = d.ty.inner_named_type().as_str();
        let each = match self.sels(&f.selection_set, r, &down) {
            Err(()) if own == Some(Ok(0)) => {
                self.free.set(true);
                0
            }
            n => self.type_cost(r) + n?,
        };
        let n = match own {
            // the size of a list whose items are free is not needed
            Some(Err(())) if each == 0 => {
                self.free.set(true);
                0
            }
            n => n.unwrap_or(Ok(1))?,
        };
        Ok(base + n * each)
    }
}

/// cost of each fetch of a plan under variables, by subgraph
fn plan_cost(m: &Model, node: &Value, vars: &Map<String, Value>, defaults: &dyn Fn(&str) -> u64, out: &mut BTreeMap<String, u64>, free: &std::cell::Cell<bool>) -> Result<(), ()> {
    match node["kind"].as_str().unwrap_or("") {
        "Fetch" | "BatchFetch" => {
            let svc = node["serviceName"].as_str().unwrap_or("");
            let doc = ast::Document::parse(node["operation"].as_str().unwrap_or(""), "f").map_err(|_| ())?;
            let frags = doc.definitions.iter().filter_map(|d| d.as_fragment_definition()).map(|f| (f.name.to_string(), &**f)).collect();
            let c = Ctx { m, vars, frags, default: defaults(svc), free };
            for d in &doc.definitions {
                let ast::Definition::OperationDefinition(o) = d else { continue };
                let (root, base) = match o.operation_type {
                    ast::OperationType::Mutation => ("Mutation", 10),
                    _ => ("Query", 0),
                };
                *out.entry(svc.to_string()).or_default() += base + c.sels(&o.selection_set, root, &[])?;
            }
        }
        "Condition" => {
            let name = node["condition"].as_str().unwrap_or("").trim_start_matches('$');
            let branch = if vars.get(name) == Some(&Value::Bool(true)) { &node["ifClause"] } else { &node["elseClause"] };
            if !branch.is_null() {
                plan_cost(m, branch, vars, defaults, out, free)?;
            }
        }
        _ => {
            for k in ["node", "nodes"] {
                match &node[k] {
                    Value::Array(l) => {
                        for n in l {
                            plan_cost(m, n, vars, defaults, out, free)?;
                        }
                    }
                    Value::Object(_) => plan_cost(m, &node[k], vars, defaults, out, free)?,
                    _ => {}
                }
            }
        }
    }
    Ok(())
}

fn cost(src: &mut Src, pct: u64) -> String {
    if src.chance(pct) {
        format!(" @cost(weight: {})", src.pick(&[0, 1, 2, 3, 5, 10, 40]))
    } else {
        String::new()
    }
}
/// a @listSize of a list field (or of an object field with sized fields)
fn lsize(src: &mut Src, slicing: &[&str], sized: &[&str]) -> String {
    if src.chance(35) && sized.is_empty() {
        return String::new();
    }
    let mut a = vec![];
    if src.chance(30) || slicing.is_empty() {
        a.push(format!("assumedSize: {}", src.pick(&[0, 1, 3, 7])));
    } else {
        let mut s = src.subset(slicing, 60);
        if s.is_empty() {
            s.push(slicing[0]);
        }
        a.push(format!("slicingArguments: [{}]", s.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>().join(", ")));
    }
    if !sized.is_empty() {
        let mut s = src.subset(sized, 60);
        if s.is_empty() {
            s.push(sized[0]);
        }
        a.push(format!("sizedFields: [{}]", s.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>().join(", ")));
    }
    match src.n(3) {
        0 | 1 => a.push("requireOneSlicingArgument: false".into()),
        _ => {}
    }
    format!(" @listSize({})", a.join(", "))
}

fn sdls(src: &mut Src) -> (String, String) {
    let s = src;
    let mut a = String::from("type Query {\n");
    a += &format!("one(x: Int{}): Node{}\n", cost(s, 30), cost(s, 30));
    a += &format!("list(first: Int, last: Int{}): [Node!]{}{}\n", cost(s, 20), cost(s, 20), lsize(s, &["first", "last"], &[]));
    a += &format!("paged(page: Page): [Node]{}\n", lsize(s, &["page.size", "page.deep.size"], &[]));
    a += &format!("pick(ids: [ID!]): [Node]{}{}\n", cost(s, 20), lsize(s, &["ids"], &[]));
    a += &format!("conn(first: Int, last: Int): Conn{}{}\n", cost(s, 20), lsize(s, &["first", "last"], &["edges", "info { marks }"]));
    a += &format!("search(in: Filter{}, ins: [Filter!], nest: [[Filter]]): [Node]{}\n", cost(s, 20), lsize(s, &[], &[]));
    a += &format!("face: Face{}\nfaces: [Face]{}\nuni: [Uni]\nnum: Int{}\nnums: [Int]\nkind: Kind\nkinds: [Kind]{}\nbig: Big\n", cost(s, 20), lsize(s, &[], &[]), cost(s, 30), lsize(s, &[], &[]));
    a += &format!("moved: [Node]{}\n}}\n", cost(s, 20));
    a += &format!("type Mutation {{ set(in: Filter): Node{} many(n: Int{}): [Node] }}\n", cost(s, 20), cost(s, 30));
    a += &format!("type Node @key(fields: \"id\"){} {{ id: ID! name: String{} next: Node{} peers(first: Int): [Node!]{} face: Face }}\n", cost(s, 40), cost(s, 20), cost(s, 20), lsize(s, &["first"], &[]));
    a += &format!("type Conn{} {{ edges: [Edge!] info: Info other: [Edge]{} }}\n", cost(s, 20), lsize(s, &[], &[]));
    a += &format!("type Edge{} {{ node: Node cursor: String{} }}\ntype Info {{ marks: [Big] total: Int{} sub: Info }}\n", cost(s, 30), cost(s, 20), cost(s, 20));
    a += &format!("interface Face {{ w: Int rows: [Big] }}\ntype Round implements Face{} {{ w: Int rows: [Big] r: Int{} }}\ntype Flat implements Face {{ w: Int{} rows: [Big] n: Node }}\nunion Uni = Round | Flat | Node\n", cost(s, 30), cost(s, 30), cost(s, 30));
    a += &format!("scalar Big{}\nenum Kind{} {{ A B }}\n", cost(s, 50), cost(s, 50));
    a += &format!("input Filter {{ a: Int{} b: Filter{} c: [Filter!]{} d: [Int] k: Kind{} }}\ninput Page {{ size: Int{} deep: Page }}\n", cost(s, 40), cost(s, 30), cost(s, 30), cost(s, 30), cost(s, 20));
    let mut b = String::from("type Query {\n");
    b += &format!("moved: [Node]{} @override(from: \"a\", label: \"moving\")\nplain: Int{}\n}}\n", "", cost(s, 30));
    b += &format!("type Node @key(fields: \"id\") {{ id: ID! extra: Int{} more(n: Int{}): [Leaf]{} }}\ntype Leaf{} {{ v: Int{} back: Node }}\n", cost(s, 40), cost(s, 30), lsize(s, &["n"], &[]), cost(s, 30), cost(s, 30));
    (a, b)
}

struct Gen<'a> {
    src: &'a mut Src,
    m: &'a Model,
    vars: Vec<(String, String)>,
    alias: usize,
}
impl Gen<'_> {
    fn var(&mut self, ty: &str) -> String {
        let same: Vec<String> = self.vars.iter().filter(|v| v.1 == ty).map(|v| v.0.clone()).collect();
        if !same.is_empty() && self.src.chance(40) {
            return format!("${}", self.src.pick(&same));
        }
        let n = format!("v{}", self.vars.len());
        self.vars.push((n.clone(), ty.to_string()));
        format!("${n}")
    }
    fn lit(&mut self, ty: &ast::Type, depth: usize) -> String {
        if self.src.chance(35) {
            return self.var(&ty.to_string());
        }
        if ty.is_list() {
            if self.src.chance(20) {
                return self.lit(ty.item_type(), depth);
            }
            let n = self.src.n(4);
            let v: Vec<String> = (0..n).map(|_| self.lit(ty.item_type(), depth + 1)).collect();
            return format!("[{}]", v.join(", "));
        }
        let n = ty.inner_named_type().to_string();
        match self.m.inputs.get(&n) {
            Some(fs) => {
                let mut o = vec![];
                for (k, (t, _)) in fs {
                    if depth < 3 && self.src.chance(35) {
                        o.push(format!("{k}: {}", self.lit(t, depth + 1)));
                    }
                }
                format!("{{{}}}", o.join(", "))
            }
            None => match n.as_str() {
                "Kind" => "A".into(),
                "ID" => format!("{:?}", self.src.n(9).to_string()),
                _ => self.src.pick(&["0", "1", "2", "3", "8", "-2", "25"]).to_string(),
            },
        }
    }
    fn cond(&mut self) -> String {
        match self.src.n(10) {
            0 => format!(" @include(if: {})", self.var("Boolean!")),
            1 => format!(" @skip(if: {})", self.var("Boolean!")),
            _ => String::new(),
        }
    }
    fn sels(&mut self, ty: &str, depth: usize) -> String {
        let m = self.m;
        let mut fs: Vec<(&String, &Field)> = m.fields.iter().filter(|((t, _), _)| t == ty).map(|((_, f), d)| (f, d)).collect();
        fs.sort_by_key(|x| x.0);
        let mut o = vec![];
        for _ in 0..self.src.range(1, 3) {
            let abst = m.types.get(ty).is_some_and(|t| t.0 == "abstract");
            if self.src.chance(if abst { 50 } else { 10 }) {
                let c = match ty {
                    "Face" => self.src.pick(&["Round", "Flat", "Face"]).to_string(),
                    "Uni" => self.src.pick(&["Round", "Flat", "Node", "Face"]).to_string(),
                    _ => ty.to_string(),
                };
                let cond = self.cond();
                o.push(format!("... on {c}{cond} {{ {} }}", self.sels(&c, depth)));
                continue;
            }
            if fs.is_empty() {
                o.push("__typename".into());
                continue;
            }
            let (name, d) = fs[self.src.n(fs.len())];
            let leaf = m.types.get(d.ty.inner_named_type().as_str()).is_none_or(|t| t.0 == "leaf");
            if !leaf && depth >= 4 {
                o.push("__typename".into());
                continue;
            }
            let mut args = vec![];
            for (k, (t, _)) in &d.args {
                if self.src.chance(55) {
                    args.push(format!("{k}: {}", self.lit(t, 0)));
                }
            }
            self.alias += 1;
            let args = if args.is_empty() { String::new() } else { format!("({})", args.join(", ")) };
            let cond = self.cond();
            let sub = if leaf { String::new() } else { format!(" {{ {} }}", self.sels(d.ty.inner_named_type(), depth + 1)) };
            o.push(format!("a{}: {name}{args}{cond}{sub}", self.alias));
        }
        o.join(" ")
    }
}

fn value(src: &mut Src, m: &Model, ty: &ast::Type, depth: usize) -> Value {
    if !ty.is_non_null() && src.chance(12) {
        return Value::Null;
    }
    if ty.is_list() {
        if src.chance(15) {
            return value(src, m, ty.item_type(), depth);
        }
        let n = src.n(4);
        return Value::Array((0..n).map(|_| value(src, m, ty.item_type(), depth + 1)).collect());
    }
    let n = ty.inner_named_type().to_string();
    match m.inputs.get(&n) {
        Some(fs) => {
            let mut o = Map::new();
            for (k, (t, _)) in fs {
                if depth < 3 && src.chance(35) {
                    o.insert(k.clone(), value(src, m, t, depth + 1));
                }
            }
            Value::Object(o)
        }
        None => match n.as_str() {
            "Kind" => json!("B"),
            "ID" => json!(src.n(9).to_string()),
            "Boolean" => json!(src.chance(50)),
            _ => json!(*src.pick(&[0, 1, 2, 3, 8, -2, 25])),
        },
    }
}

/// composition knows only simple slicing arguments and sized fields: they are put into the supergraph afterwards
fn composed(a: &str, b: &str) -> std::sync::Arc<Schemas> {
    let mut found: Vec<String> = vec![];
    let mut hide = |s: &str| {
        let mut o = String::new();
        let mut rest = s;
        while let Some(i) = rest.find("@listSize(") {
            let e = i + rest[i..].find(')').unwrap();
            let sized = if rest[i..e].contains("sizedFields") { ", sizedFields: [\"edges\"]" } else { "" };
            o += &format!("{}@listSize(assumedSize: {}{sized})", &rest[..i], 70000 + found.len());
            found.push(rest[i..=e].to_string());
            rest = &rest[e + 1..];
        }
        o + rest
    };
    let (a, b) = (hide(a), hide(b));
    let sc = try_schemas(&[("a", &a), ("b", &b)]).unwrap_or_else(|e| crate::runner::harness_error(format!("composition: {e}")));
    let mut g = sc.supergraph;
    for (i, f) in found.iter().enumerate() {
        let Some(at) = g.find(&format!("assumedSize: {}", 70000 + i)) else { crate::runner::harness_error(format!("{f} in {g}")) };
        let from = g[..at].rfind("@listSize(").unwrap();
        let to = at + g[at..].find(')').unwrap();
        g.replace_range(from..=to, f);
    }
    std::sync::Arc::new(Schemas { supergraph: g, ..sc })
}

async fn run(src: &mut Src) -> Outcome {
    let (sa, sb) = sdls(src);
    let sc = composed(&sa, &sb);
    let m = model(&[&sa, &sb]);
    let enforce = src.chance(65);
    let sub_enforce = src.chance(60);
    let max = *src.pick(&[0u64, 3, 10, 30, 100, 100000, 100000]);
    let all = if src.chance(60) { Some(*src.pick(&[0u64, 1, 2, 5])) } else { None };
    let of_b = if src.chance(40) { Some(*src.pick(&[0u64, 1, 4, 9])) } else { None };
    let budget = if src.chance(45) { Some(*src.pick(&[0u64, 2, 10, 40])) } else { None };
    let budget_b = if src.chance(35) { Some(*src.pick(&[0u64, 1, 5, 20])) } else { None };
    let mode = |b: bool| if b { "enforce" } else { "measure" };
    let mut y = format!("query_planner:\n  allow_expose: true\noverride_labels:\n  moving:\n    expression: '.request.headers.\"x-moving\" == \"1\"'\ndemand_control:\n  enabled: true\n  operation_cost:\n    max: {max}\n    mode: {}\n    expose_headers:\n      estimated: true\n      max: X-Limit\n", mode(enforce));
    y += "  default_list_size:\n";
    match all {
        Some(n) => y += &format!("    all: {n}\n"),
        None => y += "    all: null\n",
    }
    if let Some(n) = of_b {
        y += &format!("    subgraphs:\n      b: {n}\n");
    }
    y += &format!("  subgraphs_budget:\n    mode: {}\n", mode(sub_enforce));
    if let Some(n) = budget {
        y += &format!("    all: {n}\n");
    }
    if let Some(n) = budget_b {
        y += &format!("    subgraphs:\n      b: {n}\n");
    }
    let twin = &y[..y.find("demand_control").unwrap()];
    let plain_router = match Simple::start_with(sc.clone(), twin, auto(), plain()).await {
        Ok(s) => s,
        Err(e) => return Outcome::fail("router-rejects-config", format!("{e}\n{y}\n{sa}\n{sb}")),
    };
    let s = match Simple::start_with(sc.clone(), &y, auto(), plain()).await {
        Ok(s) => s,
        Err(e) => return Outcome::fail("router-rejects-config", format!("{e}\n{y}\n{sa}\n{sb}")),
    };
    let defaults = |sub: &str| if sub == "b" { of_b.or(all).unwrap_or(0) } else { all.unwrap_or(0) };
    let limit = |sub: &str| if sub == "b" { budget_b.or(budget) } else { budget };
    let (mut evals, mut sig) = (0, 0);
    let mut costs = std::collections::BTreeSet::new();
    let (mut refused, mut left_out) = (0, 0);
    let mut sample = None;
    for _ in 0..src.range(3, 9) {
        let mut g = Gen { src: &mut *src, m: &m, vars: vec![], alias: 0 };
        let mutation = g.src.chance(15);
        let body = g.sels(if mutation { "Mutation" } else { "Query" }, 0);
        let vars = g.vars.clone();
        let decl = if vars.is_empty() { String::new() } else { format!("({})", vars.iter().map(|(n, t)| format!("${n}: {t}")).collect::<Vec<_>>().join(", ")) };
        let text = format!("{} O{decl} {{ {body} }}", if mutation { "mutation" } else { "query" });
        let checked = apollo_compiler::ExecutableDocument::parse_and_validate(&s.schemas.api, &text, "q");
        let Ok(doc) = checked else {
            if std::env::var("VERIF_DEBUG").is_ok() {
                eprintln!("invalid: {text}: {}", checked.err().unwrap().errors);
            }
            continue;
        };
        let op = doc.operations.get(None).unwrap();
        for _ in 0..src.range(1, 3) {
            let mut given = Map::new();
            for v in &op.variables {
                if v.ty.is_non_null() || src.chance(80) {
                    given.insert(v.name.to_string(), value(src, &m, &v.ty, 0));
                }
            }
            let moving = src.chance(40);
            let hs: Vec<(&str, &str)> = if moving { vec![("x-moving", "1")] } else { vec![("x-moving", "0")] };
            let req = json!({"query": text, "variables": given});
            let mut dry = hs.clone();
            dry.push(("hive-expose-query-plan", "dry-run"));
            s.take();
            let plan = match plain_router.router.gql(&req, &dry).await {
                Ok(r) => r,
                Err(e) => return Outcome::fail("no-response", format!("{e}\n{req}")),
            };
            let pj = plan.json().unwrap_or(Value::Null);
            let r = match s.router.gql(&req, &hs).await {
                Ok(r) => r,
                Err(e) => return Outcome::fail("no-response", format!("{e}\n{req}")),
            };
            let seen = s.take();
            let rj = r.json().unwrap_or(Value::Null);
            let what = || format!("{req}\nmoving: {moving}\nplan: {}\nanswer: {} {}\nestimate header: {:?}\nsent: {}\n{y}\n{sa}\n{sb}", truncate(&plan.text(), 2500), r.status, truncate(&r.text(), 600), r.header("x-cost-estimated"), truncate(&json!(seen.iter().map(|s| json!([s.sub, s.body])).collect::<Vec<_>>()).to_string(), 800));
            let code = rj["errors"][0]["extensions"]["code"].as_str().unwrap_or("").to_string();
            let node = &pj["extensions"]["queryPlan"]["node"];
            evals += 1;
            sig = mix(sig, hash_str(&text));
            if !pj["errors"].is_null() {
                // (not a matter of costs)
                continue;
            }
            let mut by = BTreeMap::new();
            let vars = crate::world::interp::effective_vars(&s.schemas.api, op, &Value::Object(given.clone()));
            let free = std::cell::Cell::new(false);
            let want = plan_cost(&m, node, &vars, &defaults, &mut by, &free);
            let refusal = |c: &str| code == c && seen.is_empty() && rj["data"].is_null() && rj["errors"].as_array().map(|l| l.len()) == Some(1);
            let Ok(()) = want else {
                refused += 1;
                if !refusal("COST_INVALID_SLICING_ARGUMENTS") {
                    return Outcome::fail("slicing-not-refused", what());
                }
                continue;
            };
            if free.get() && refusal("COST_INVALID_SLICING_ARGUMENTS") {
                continue;
            }
            let total: u64 = by.values().sum();
            costs.insert(total);
            let shown = r.header("x-cost-estimated").and_then(|x| x.parse::<u64>().ok());
            if shown != Some(total) || r.header("x-limit").as_deref() != Some(max.to_string().as_str()) {
                return Outcome::fail("wrong-estimate", format!("expected {total} {by:?}\n{}", what()));
            }
            if enforce && total > max {
                refused += 1;
                if !refusal("COST_ESTIMATED_TOO_EXPENSIVE") {
                    return Outcome::fail("over-limit-executed", format!("expected {total} {by:?}\n{}", what()));
                }
                continue;
            }
            for (sub, c) in &by {
                let over = limit(sub).is_some_and(|l| *c > l);
                let sent = seen.iter().any(|x| x.sub == *sub);
                if over {
                    left_out += 1;
                }
                if over && sub_enforce && sent {
                    return Outcome::fail("over-budget-sent", format!("{by:?}\n{}", what()));
                }
            }
            let blocked = sub_enforce && by.iter().any(|(sub, c)| limit(sub).is_some_and(|l| *c > l));
            if !blocked && !rj["errors"].is_null() {
                return Outcome::fail("error-within-budget", format!("{by:?}\n{}", what()));
            }
            sample = Some(json!({"request": req, "estimate": total, "by_subgraph": by}).to_string());
        }
    }
    Outcome::Pass { nontrivial: costs.len() > 1 && refused + left_out > 0, sig, labels: vec![format!("refused: {}", refused > 0), format!("over budget: {}", left_out > 0)], evals, sample }
}
