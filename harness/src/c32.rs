//! The model files are read as written. The schema below is written from the documentation of the
//! training side, independently from the derives of the repository.
use crate::core::*;
use crate::models::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    model: String,
    text: String,
    /// the value that must be read, or the reason why the text must be refused
    expected: std::result::Result<Value, String>,
}

#[derive(Clone)]
enum Ty {
    Str,
    Bool,
    U8,
    Usize,
    I32,
    F32,
    Opt(Box<Ty>),
    /// a field that has a default value
    Def(Box<Ty>, Value),
    List(Box<Ty>),
    MapStr(Box<Ty>),
    MapUsize(Box<Ty>),
    MapI32(Box<Ty>),
    Tuple(Vec<Ty>),
    Obj(Vec<(&'static str, Ty)>),
    Any,
}
use self::Ty::*;

fn opt(t: Ty) -> Ty {
    Opt(Box::new(t))
}
fn list(t: Ty) -> Ty {
    List(Box::new(t))
}
fn map(t: Ty) -> Ty {
    MapStr(Box::new(t))
}
fn def(t: Ty, v: Value) -> Ty {
    Def(Box::new(t), v)
}

const MODELS: &[&str] = &[
    "engine",
    "version",
    "deterministic",
    "lookup",
    "probabilistic",
    "classifier",
    "featurizer",
    "tfidf",
    "cooccurrence",
    "slot_filler",
];

fn schema(model: &str) -> Ty {
    match model {
        "engine" => Obj(vec![
            (
                "dataset_metadata",
                Obj(vec![
                    ("language_code", Str),
                    ("entities", map(Obj(vec![("automatically_extensible", Bool)]))),
                    ("slot_name_mappings", map(map(Str))),
                ]),
            ),
            ("intent_parsers", list(Str)),
            ("model_version", Str),
            ("training_package_version", Str),
            ("builtin_entity_parser", Str),
            ("custom_entity_parser", Str),
        ]),
        "version" => Obj(vec![("model_version", Str)]),
        "deterministic" => Obj(vec![
            ("language_code", Str),
            ("patterns", map(list(Str))),
            ("group_names_to_slot_names", map(Str)),
            ("slot_names_to_entities", map(map(Str))),
            ("stop_words_whitelist", def(map(list(Str)), json!({}))),
            ("config", Obj(vec![("ignore_stop_words", def(Bool, json!(false)))])),
        ]),
        "lookup" => Obj(vec![
            ("language_code", Str),
            ("slots_names", list(Str)),
            ("intents_names", list(Str)),
            ("map", MapI32(Box::new(Tuple(vec![I32, list(I32)])))),
            (
                "entity_scopes",
                list(Obj(vec![
                    ("intent_group", list(Str)),
                    ("entity_scope", Obj(vec![("builtin", list(Str)), ("custom", list(Str))])),
                ])),
            ),
            ("stop_words_whitelist", map(list(Str))),
            ("config", Obj(vec![("ignore_stop_words", def(Bool, json!(false)))])),
        ]),
        "probabilistic" => Obj(vec![(
            "slot_fillers",
            list(Obj(vec![("intent", Str), ("slot_filler_name", Str)])),
        )]),
        "classifier" => Obj(vec![
            ("featurizer", opt(Str)),
            ("intercept", opt(list(F32))),
            ("coeffs", opt(list(list(F32)))),
            ("intent_list", list(opt(Str))),
        ]),
        "featurizer" => Obj(vec![
            ("language_code", Str),
            ("tfidf_vectorizer", Str),
            ("cooccurrence_vectorizer", opt(Str)),
        ]),
        "tfidf" => Obj(vec![
            ("language_code", Str),
            ("builtin_entity_scope", list(Str)),
            (
                "vectorizer",
                Obj(vec![("idf_diag", list(F32)), ("vocab", map(Usize))]),
            ),
            ("config", Obj(vec![("use_stemming", Bool), ("word_clusters_name", opt(Str))])),
        ]),
        "cooccurrence" => Obj(vec![
            ("language_code", Str),
            ("builtin_entity_scope", list(Str)),
            ("word_pairs", MapUsize(Box::new(Tuple(vec![Str, Str])))),
            (
                "config",
                Obj(vec![
                    ("window_size", opt(Usize)),
                    ("filter_stop_words", Bool),
                    ("keep_order", Bool),
                    ("unknown_words_replacement_string", opt(Str)),
                ]),
            ),
        ]),
        "slot_filler" => Obj(vec![
            ("language_code", Str),
            ("intent", Str),
            ("slot_name_mapping", map(Str)),
            ("crf_model_file", opt(Str)),
            (
                "config",
                Obj(vec![
                    ("tagging_scheme", U8),
                    (
                        "feature_factory_configs",
                        list(Obj(vec![
                            ("factory_name", Str),
                            ("offsets", list(I32)),
                            ("args", map(Any)),
                        ])),
                    ),
                ]),
            ),
        ]),
        _ => unreachable!(),
    }
}

/// a document with the type of each of its nodes
enum Node {
    Leaf(Ty, String),
    Arr(Ty, Vec<Node>),
    /// key, value, whether it may be missing
    Obj(Ty, Vec<(String, Node, bool)>),
}

fn quoted(g: &mut Gen, s: &str) -> String {
    if g.chance(85) {
        serde_json::to_string(s).unwrap()
    } else {
        let mut out = String::from("\"");
        for unit in s.encode_utf16() {
            out += &format!("\\u{:04x}", unit);
        }
        out + "\""
    }
}

fn text(g: &mut Gen) -> String {
    if g.chance(2) {
        return "long é".repeat(g.range(1, 700));
    }
    if g.chance(70) {
        let words = ["", "en", "MakeTea", "number_of_cups", "snips/number", "é", "a b", "%X%", "0", "null", "true"];
        g.word(&words)
    } else {
        g.string(10)
    }
}

fn float(g: &mut Gen) -> (f32, String) {
    let n = g.int(-1 << 20, 1 << 20);
    match g.below(5) {
        4 => {
            let v = n as f64 * 2f64.powi(g.int(-149, 100) as i32);
            // an exact number
            let v = if (v as f32) as f64 == v { v } else { 2f64.powi(-149) };
            (v as f32, if g.chance(50) { format!("{:e}", v) } else { format!("{}", v) })
        }
        0 => (n as f32, format!("{}", n)),
        1 => (n as f32 / 1024., format!("{}", n as f64 / 1024.)),
        2 => (n as f32 / 1024., format!("{:e}", n as f64 / 1024.)),
        _ => (n as f32 / 8., format!("{:.5}", n as f64 / 8.)),
    }
}

fn any(g: &mut Gen, depth: usize) -> Value {
    match g.below(if depth == 0 { 6 } else { 8 }) {
        0 => Value::Null,
        1 => json!(g.chance(50)),
        2 => json!(g.int(-1 << 31, 1 << 31)),
        3 => json!(u64::MAX - g.draw() as u64),
        4 => json!(g.int(-4096, 4096) as f64 / 64.),
        5 => json!(text(g)),
        6 => Value::Array(g.vec(0, 3, |g| any(g, depth - 1))),
        _ => {
            let mut m = Map::new();
            for _ in 0..g.range(0, 3) {
                m.insert(text(g), any(g, depth - 1));
            }
            Value::Object(m)
        }
    }
}

fn length(g: &mut Gen) -> usize {
    if g.chance(6) {
        g.range(5, 60)
    } else {
        g.range(0, 4)
    }
}

fn build(ty: &Ty, g: &mut Gen) -> (Node, Value) {
    match ty {
        Str => {
            let s = text(g);
            (Node::Leaf(ty.clone(), quoted(g, &s)), json!(s))
        }
        Bool => {
            let b = g.chance(50);
            (Node::Leaf(ty.clone(), b.to_string()), json!(b))
        }
        U8 => {
            let v = *g.pick(&[0u64, 1, 2, 3, 7, 127, 128, 255]);
            (Node::Leaf(ty.clone(), v.to_string()), json!(v))
        }
        Usize => {
            let v = usize_value(g);
            (Node::Leaf(ty.clone(), v.to_string()), json!(v))
        }
        I32 => {
            let v = i32_value(g);
            (Node::Leaf(ty.clone(), v.to_string()), json!(v))
        }
        F32 => {
            let (v, s) = float(g);
            (Node::Leaf(ty.clone(), s), json!(v))
        }
        Opt(inner) => {
            if g.chance(30) {
                (Node::Leaf(ty.clone(), "null".to_string()), Value::Null)
            } else {
                let (mut n, v) = build(inner, g);
                match &mut n {
                    Node::Leaf(t, _) | Node::Arr(t, _) | Node::Obj(t, _) => *t = ty.clone(),
                }
                (n, v)
            }
        }
        Def(inner, _) => build(inner, g),
        List(inner) => {
            let mut nodes = vec![];
            let mut values = vec![];
            for _ in 0..length(g) {
                let (n, v) = build(inner, g);
                nodes.push(n);
                values.push(v);
            }
            (Node::Arr(ty.clone(), nodes), Value::Array(values))
        }
        Tuple(items) => {
            let (nodes, values) = items.iter().map(|t| build(t, g)).unzip();
            (Node::Arr(ty.clone(), nodes), Value::Array(values))
        }
        MapStr(inner) | MapUsize(inner) | MapI32(inner) => {
            let mut nodes = vec![];
            let mut values = Map::new();
            for _ in 0..length(g) {
                let key = match ty {
                    MapStr(_) => text(g),
                    MapUsize(_) => usize_value(g).to_string(),
                    _ => i32_value(g).to_string(),
                };
                let (n, v) = build(inner, g);
                if !values.contains_key(&key) {
                    values.insert(key.clone(), v);
                    nodes.push((key, n, true));
                }
            }
            (Node::Obj(ty.clone(), nodes), Value::Object(values))
        }
        Obj(fields) => {
            let mut nodes = vec![];
            let mut values = Map::new();
            for (name, t) in fields {
                let missing = match t {
                    Opt(_) => Some(Value::Null),
                    Def(_, v) => Some(v.clone()),
                    _ => None,
                };
                if missing.is_some() && g.chance(30) {
                    values.insert(name.to_string(), missing.unwrap());
                    continue;
                }
                let (n, v) = build(t, g);
                nodes.push((name.to_string(), n, missing.is_some()));
                values.insert(name.to_string(), v);
            }
            // unknown fields
            if g.chance(20) {
                let name = if !fields.is_empty() && g.chance(50) {
                    let known = fields[g.below(fields.len())].0;
                    other_name(known, g)
                } else {
                    g.word(&["comment", "extra", "version", "unit", ""])
                };
                if fields.iter().all(|f| f.0 != name) {
                    nodes.push((name, Node::Leaf(Any, any(g, 2).to_string()), true));
                }
            }
            g.shuffle(&mut nodes);
            (Node::Obj(ty.clone(), nodes), Value::Object(values))
        }
        Any => {
            let v = any(g, 2);
            (Node::Leaf(Any, v.to_string()), v)
        }
    }
}

/// a name that somebody could write instead of the name of a field
fn other_name(name: &str, g: &mut Gen) -> String {
    let words: Vec<&str> = name.split('_').collect();
    let capital = |w: &str| w[..1].to_uppercase() + &w[1..];
    let other = match g.below(10) {
        0 => name.to_uppercase(),
        1 => name[..name.len() - 1].to_string(),
        2 => format!("{}s", name),
        3 => words.join("-") + if words.len() > 1 { "" } else { " " },
        4 => format!("_{}", name),
        5 => words[0].to_string() + &words[1..].iter().map(|w| capital(w)).collect::<String>(),
        6 => words.iter().map(|w| capital(w)).collect(),
        7 => words.concat(),
        8 => words[words.len() - 1].to_string(),
        _ => words[0].to_string(),
    };
    if other == name {
        return capital(name);
    }
    other
}

fn usize_value(g: &mut Gen) -> u64 {
    match g.below(4) {
        0 => g.draw() as u64,
        1 => u64::MAX - g.below(3) as u64,
        _ => g.below(12) as u64,
    }
}

fn i32_value(g: &mut Gen) -> i64 {
    match g.below(4) {
        0 => g.draw() as i32 as i64,
        1 => *g.pick(&[i32::MAX as i64, i32::MIN as i64, -1]),
        _ => g.int(-6, 6),
    }
}

/// texts that are not of the type
fn wrong(ty: &Ty) -> Vec<&'static str> {
    match ty {
        Str => vec!["null", "1", "1.5", "true", "[]", "{}", "[\"a\"]"],
        Bool => vec!["null", "0", "1", "\"true\"", "[]", "{}", "\"\""],
        U8 => vec!["null", "-1", "256", "1.5", "\"1\"", "true", "[1]", "{}", "65536"],
        Usize => vec!["null", "-1", "1.5", "\"1\"", "true", "[1]", "{}", "18446744073709551616"],
        I32 => vec!["null", "2147483648", "-2147483649", "1.5", "\"1\"", "true", "[1]", "{}", "4294967296"],
        F32 => vec!["null", "\"1.0\"", "true", "[1.0]", "{}"],
        List(_) => vec!["null", "{}", "\"\"", "1", "true", "\"abc\""],
        Tuple(_) => vec!["null", "{}", "\"\"", "1", "[]", "[1]", "[\"a\"]"],
        MapStr(_) | MapUsize(_) | MapI32(_) => vec!["null", "[]", "\"\"", "1", "false", "[[\"a\", \"b\"]]"],
        Obj(_) => vec!["null", "\"\"", "1", "true", "-1.5"],
        Opt(inner) => wrong(inner).into_iter().filter(|w| *w != "null").collect(),
        Def(inner, _) => wrong(inner),
        Any => vec![],
    }
}

fn sites(node: &Node) -> usize {
    1 + match node {
        Node::Leaf(_, _) => 0,
        Node::Arr(_, items) => items.iter().map(sites).sum(),
        Node::Obj(_, fields) => fields.iter().map(|f| sites(&f.1)).sum(),
    }
}

/// Breaks the node number `at`. None when it cannot be broken that way.
fn break_node(node: &mut Node, at: &mut usize, g: &mut Gen) -> Option<String> {
    if *at > 0 {
        *at -= 1;
        match node {
            Node::Leaf(_, _) => {}
            Node::Arr(_, items) => {
                for n in items {
                    let size = sites(n);
                    if *at < size {
                        return break_node(n, at, g);
                    }
                    *at -= size;
                }
            }
            Node::Obj(_, fields) => {
                for f in fields {
                    let size = sites(&f.1);
                    if *at < size {
                        return break_node(&mut f.1, at, g);
                    }
                    *at -= size;
                }
            }
        }
        return None;
    }
    let ty = match node {
        Node::Leaf(t, _) | Node::Arr(t, _) | Node::Obj(t, _) => t.clone(),
    };
    // from the inside
    if let Node::Obj(t, fields) = node {
        match t {
            Obj(_) => {
                let mandatory: Vec<usize> = (0..fields.len()).filter(|i| !fields[*i].2).collect();
                if !mandatory.is_empty() && g.chance(70) {
                    let i = *g.pick(&mandatory);
                    if g.chance(50) {
                        let f = fields.remove(i);
                        return Some(format!("no field {}", f.0));
                    }
                    let name = fields[i].0.clone();
                    let renamed = other_name(&name, g);
                    if fields.iter().any(|f| f.0 == renamed) {
                        return None;
                    }
                    fields[i].0 = renamed.clone();
                    return Some(format!("{} instead of {}", renamed, name));
                }
            }
            MapUsize(_) | MapI32(_) if !fields.is_empty() && g.chance(60) => {
                let i = g.below(fields.len());
                let bad = if let MapUsize(_) = t {
                    *g.pick(&["-1", "x", "1.5", "", "18446744073709551616", " "])
                } else {
                    *g.pick(&["2147483648", "x", "1.5", "", "-2147483649", "--1"])
                };
                fields[i].0 = bad.to_string();
                return Some(format!("key {:?}", bad));
            }
            _ => {}
        }
    }
    if let Node::Arr(Tuple(_), items) = node {
        if g.chance(50) {
            if g.chance(50) {
                items.pop();
                return Some("a pair too short".to_string());
            }
            items.push(Node::Leaf(Any, "0".to_string()));
            return Some("a pair too long".to_string());
        }
    }
    let bad = wrong(&ty);
    if bad.is_empty() {
        return None;
    }
    let bad = *g.pick(&bad);
    *node = Node::Leaf(Any, bad.to_string());
    Some(format!("{} instead of a {}", bad, name(&ty)))
}

fn name(ty: &Ty) -> &'static str {
    match ty {
        Str => "string",
        Bool => "boolean",
        U8 | Usize | I32 => "integer",
        F32 => "number",
        Opt(t) => name(t),
        Def(t, _) => name(t),
        List(_) => "list",
        Tuple(_) => "pair",
        MapStr(_) | MapUsize(_) | MapI32(_) => "map",
        Obj(_) => "description",
        Any => "value",
    }
}

fn space(g: &mut Gen, out: &mut String) {
    if g.chance(10) {
        out.push_str(*g.pick(&[" ", "\n", "\t", "\r\n  "]));
    }
}

fn render(node: &Node, g: &mut Gen, out: &mut String) {
    space(g, out);
    match node {
        Node::Leaf(_, t) => out.push_str(t),
        Node::Arr(_, items) => {
            out.push('[');
            for (i, n) in items.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                render(n, g, out);
            }
            out.push(']');
        }
        Node::Obj(ty, fields) => {
            out.push('{');
            for (i, (k, n, _)) in fields.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                space(g, out);
                let key = match ty {
                    // escapes are not accepted there
                    MapUsize(_) | MapI32(_) => serde_json::to_string(k).unwrap(),
                    _ => quoted(g, k),
                };
                out.push_str(&key);
                space(g, out);
                out.push(':');
                render(n, g, out);
            }
            out.push('}');
        }
    }
    space(g, out);
}

fn gen_valid(g: &mut Gen) -> Case {
    let model = g.word(MODELS);
    let (node, value) = build(&schema(&model), g);
    let mut text = String::new();
    render(&node, g, &mut text);
    Case { model, text, expected: Ok(value) }
}

fn gen_broken(g: &mut Gen) -> Case {
    let model = g.word(MODELS);
    let (mut node, value) = build(&schema(&model), g);
    let mut at = g.below(sites(&node));
    let expected = match break_node(&mut node, &mut at, g) {
        Some(why) => Err(why),
        None => Ok(value),
    };
    let mut text = String::new();
    render(&node, g, &mut text);
    Case { model, text, expected }
}

fn lists(m: &std::collections::HashMap<String, Vec<String>>) -> Value {
    Value::Object(m.iter().map(|(k, v)| (k.clone(), json!(v))).collect())
}
fn strings(m: &std::collections::HashMap<String, String>) -> Value {
    Value::Object(m.iter().map(|(k, v)| (k.clone(), json!(v))).collect())
}
fn mappings(m: &std::collections::HashMap<String, std::collections::HashMap<String, String>>) -> Value {
    Value::Object(m.iter().map(|(k, v)| (k.clone(), strings(v))).collect())
}

fn both<T: DeserializeOwned>(text: &str, to: impl Fn(T) -> Value) -> std::result::Result<Value, String> {
    let a = serde_json::from_str::<T>(text).map(&to).map_err(|e| e.to_string());
    let b = serde_json::from_reader::<_, T>(text.as_bytes()).map(&to).map_err(|e| e.to_string());
    match (a, b) {
        (Ok(a), Ok(b)) => {
            if a == b {
                Ok(a)
            } else {
                Ok(json!({ "from_str": a, "from_reader": b }))
            }
        }
        (Err(a), Err(_)) => Err(a),
        (Ok(a), Err(e)) | (Err(e), Ok(a)) => Ok(json!({ "one": a, "other": e })),
    }
}

fn read(model: &str, text: &str) -> std::result::Result<Value, String> {
    match model {
        "engine" => both(text, |m: NluEngineModel| {
            json!({
                "dataset_metadata": {
                    "language_code": m.dataset_metadata.language_code,
                    "entities": Value::Object(m.dataset_metadata.entities.iter().map(|(k, e)| {
                        (k.clone(), json!({"automatically_extensible": e.automatically_extensible}))
                    }).collect()),
                    "slot_name_mappings": mappings(&m.dataset_metadata.slot_name_mappings),
                },
                "intent_parsers": m.intent_parsers,
                "model_version": m.model_version,
                "training_package_version": m.training_package_version,
                "builtin_entity_parser": m.builtin_entity_parser,
                "custom_entity_parser": m.custom_entity_parser,
            })
        }),
        "version" => both(text, |m: ModelVersion| json!({ "model_version": m.model_version })),
        "deterministic" => both(text, |m: DeterministicParserModel| {
            json!({
                "language_code": m.language_code,
                "patterns": lists(&m.patterns),
                "group_names_to_slot_names": strings(&m.group_names_to_slot_names),
                "slot_names_to_entities": mappings(&m.slot_names_to_entities),
                "stop_words_whitelist": lists(&m.stop_words_whitelist),
                "config": {"ignore_stop_words": m.config.ignore_stop_words},
            })
        }),
        "lookup" => both(text, |m: LookupParserModel| {
            let scopes: Vec<Value> = m
                .entity_scopes
                .iter()
                .map(|s| {
                    json!({
                        "intent_group": s.intent_group,
                        "entity_scope": {"builtin": s.entity_scope.builtin, "custom": s.entity_scope.custom},
                    })
                })
                .collect();
            json!({
                "language_code": m.language_code,
                "slots_names": m.slots_names,
                "intents_names": m.intents_names,
                "map": Value::Object(m.map.iter().map(|(k, (i, s))| (k.to_string(), json!([i, s]))).collect()),
                "entity_scopes": scopes,
                "stop_words_whitelist": lists(&m.stop_words_whitelist),
                "config": {"ignore_stop_words": m.config.ignore_stop_words},
            })
        }),
        "probabilistic" => both(text, |m: ProbabilisticParserModel| {
            let fillers: Vec<Value> = m
                .slot_fillers
                .iter()
                .map(|s| json!({"intent": s.intent, "slot_filler_name": s.slot_filler_name}))
                .collect();
            json!({ "slot_fillers": fillers })
        }),
        "classifier" => both(text, |m: IntentClassifierModel| {
            json!({
                "featurizer": m.featurizer,
                "intercept": m.intercept,
                "coeffs": m.coeffs,
                "intent_list": m.intent_list,
            })
        }),
        "featurizer" => both(text, |m: FeaturizerModel| {
            json!({
                "language_code": m.language_code,
                "tfidf_vectorizer": m.tfidf_vectorizer,
                "cooccurrence_vectorizer": m.cooccurrence_vectorizer,
            })
        }),
        "tfidf" => both(text, |m: TfidfVectorizerModel| {
            json!({
                "language_code": m.language_code,
                "builtin_entity_scope": m.builtin_entity_scope,
                "vectorizer": {
                    "idf_diag": m.vectorizer.idf_diag,
                    "vocab": Value::Object(m.vectorizer.vocab.iter().map(|(k, v)| (k.clone(), json!(v))).collect()),
                },
                "config": {
                    "use_stemming": m.config.use_stemming,
                    "word_clusters_name": m.config.word_clusters_name,
                },
            })
        }),
        "cooccurrence" => both(text, |m: CooccurrenceVectorizerModel| {
            json!({
                "language_code": m.language_code,
                "builtin_entity_scope": m.builtin_entity_scope,
                "word_pairs": Value::Object(
                    m.word_pairs.iter().map(|(k, (a, b))| (k.to_string(), json!([a, b]))).collect()
                ),
                "config": {
                    "window_size": m.config.window_size,
                    "filter_stop_words": m.config.filter_stop_words,
                    "keep_order": m.config.keep_order,
                    "unknown_words_replacement_string": m.config.unknown_words_replacement_string,
                },
            })
        }),
        "slot_filler" => both(text, |m: SlotFillerModel| {
            let factories: Vec<Value> = m
                .config
                .feature_factory_configs
                .iter()
                .map(|f| {
                    let args: Map<String, Value> = f.args.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                    json!({"factory_name": f.factory_name, "offsets": f.offsets, "args": args})
                })
                .collect();
            json!({
                "language_code": m.language_code,
                "intent": m.intent,
                "slot_name_mapping": strings(&m.slot_name_mapping),
                "crf_model_file": m.crf_model_file,
                "config": {
                    "tagging_scheme": m.config.tagging_scheme,
                    "feature_factory_configs": factories,
                },
            })
        }),
        _ => unreachable!(),
    }
}

fn check(c: &Case, obs: &mut Obs) -> Check {
    let got = read(&c.model, &c.text);
    match (&c.expected, got) {
        (Ok(want), Ok(got)) => {
            ensure!(got == *want, "{}: read {} instead of {}", c.model, got, want);
            obs.hit(&c.model);
            Ok(())
        }
        (Err(_), Err(_)) => {
            obs.hit(&format!("{} refused", c.model));
            Ok(())
        }
        (Ok(want), Err(e)) => Err(format!("{}: {} is refused: {}", c.model, want, e)),
        (Err(why), Ok(got)) => Err(format!("{}: accepted with {}: {}", c.model, why, got)),
    }
}

const UNITS: &[(&str, &str)] = &[
    ("deterministic_intent_parser", "DeterministicIntentParser"),
    ("lookup_intent_parser", "LookupIntentParser"),
    ("probabilistic_intent_parser", "ProbabilisticIntentParser"),
    ("crf_slot_filler", "CrfSlotFiller"),
    ("log_reg_intent_classifier", "LogRegIntentClassifier"),
];

fn gen_unit(g: &mut Gen) -> Case {
    let (unit, variant) = *g.pick(UNITS);
    let mut fields = vec![];
    let expected = if g.chance(40) {
        match g.below(8) {
            0 => Err("no unit name".to_string()),
            1 => {
                let t = *g.pick(&["null", "1", "true", "[]", "{}"]);
                fields.push(("unit_name".to_string(), t.to_string()));
                Err(format!("{} as unit name", t))
            }
            2 => {
                let k = *g.pick(&["Unit_name", "unit", "unit_names", "type", "unitName", "unit-name", "name", "unit_type", "UnitName", "tag"]);
                fields.push((k.to_string(), json!(unit).to_string()));
                Err(format!("{} instead of unit_name", k))
            }
            n => {
                let name = match n {
                    3 => unit.to_uppercase(),
                    4 => variant.to_string(),
                    5 => format!("{} ", unit),
                    6 => unit.replace('_', "-"),
                    _ => g.string(8),
                };
                fields.push(("unit_name".to_string(), json!(name).to_string()));
                Err(format!("unit {:?}", name))
            }
        }
    } else {
        fields.push(("unit_name".to_string(), json!(unit).to_string()));
        Ok(json!(variant))
    };
    for i in 0..g.range(0, 3) {
        fields.push((format!("{}{}", g.word(&["extra", "name", "unit"]), i), any(g, 2).to_string()));
    }
    g.shuffle(&mut fields);
    let node = Node::Obj(Any, fields.into_iter().map(|(k, v)| (k, Node::Leaf(Any, v), true)).collect());
    let mut text = String::new();
    render(&node, g, &mut text);
    Case { model: "unit".to_string(), text, expected }
}

fn check_unit(c: &Case, obs: &mut Obs) -> Check {
    let got = both(&c.text, |m: ProcessingUnitMetadata| {
        json!(match m {
            ProcessingUnitMetadata::DeterministicIntentParser => "DeterministicIntentParser",
            ProcessingUnitMetadata::LookupIntentParser => "LookupIntentParser",
            ProcessingUnitMetadata::ProbabilisticIntentParser => "ProbabilisticIntentParser",
            ProcessingUnitMetadata::CrfSlotFiller => "CrfSlotFiller",
            ProcessingUnitMetadata::LogRegIntentClassifier => "LogRegIntentClassifier",
        })
    });
    match (&c.expected, got) {
        (Ok(want), Ok(got)) => {
            ensure!(got == *want, "read {} instead of {}", got, want);
            obs.hit("unit");
        }
        (Err(_), Err(_)) => obs.hit("refused"),
        (Ok(want), Err(e)) => return Err(format!("{} is refused: {}", want, e)),
        (Err(why), Ok(got)) => return Err(format!("accepted with {}: {}", why, got)),
    }
    Ok(())
}

pub fn run(run: &mut Run) {
    run.section(
        "valid",
        "a case is a model kind and a well-formed document of it; non-trivial: always",
        (120_000, 3_000_000),
        900,
        gen_valid,
        check,
    );
    run.section(
        "broken",
        "a case is a document with one field removed, renamed or of the wrong type; non-trivial: always",
        (120_000, 3_000_000),
        900,
        gen_broken,
        check,
    );
    run.section(
        "unit",
        "a case is the metadata of a processing unit, right or wrong; non-trivial: always",
        (60_000, 1_000_000),
        40,
        gen_unit,
        check_unit,
    );
}
