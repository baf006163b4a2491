//! C22: engines with damaged files
use crate::common::*;
use crate::core::*;
use crate::engine::*;
use crate::files::*;
use crate::serve::*;
use crate::spec::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fs;
use std::path::{Path, PathBuf};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Damage {
    Missing(usize),
    /// kept part, in thousandths
    Truncated(usize, usize),
    Flipped(usize, Vec<(usize, u8)>),
    /// the content of another file
    Copied(usize, usize),
    Content(usize, String),
    /// a folder instead of the file
    Folder(usize),
    /// a change of a JSON file: file, node, change
    Json(usize, usize, Change),
    /// a change of a field, whatever its place: field name and file name, one of its nodes, change
    Field(usize, usize, Change),
    /// a change of a text file: file, line, new line
    Line(usize, usize, String),
    /// a change of a number, a key which is a number or the length of a list: its field, which one (all without),
    /// the change
    Number(usize, Option<usize>, i64, bool),
    /// a change of a name, or of the key that names something, in the model: its field, which one, the change,
    /// a new name
    Name(usize, usize, u8, String),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Change {
    Removed,
    Renamed(String),
    Set(Value),
    /// the value of another node of the same file
    Node(usize),
    /// the value of a node of another file
    Other(usize, usize),
    Twice,
    Emptied,
    Negated,
    Shuffled(u32),
    /// a value of another type
    Type(usize),
    /// another value of the same type
    Like(Value, String),
}

/// The fields of the files of a model
const FIELDS: &[&str] = &[
    "args", "automatically_extensible", "builtin", "builtin_entity_parser", "builtin_entity_scope", "coeffs",
    "config", "cooccurrence_vectorizer", "crf_model_file", "custom", "custom_entity_parser", "dataset_metadata",
    "entities", "entity_scope", "entity_scopes", "factory_name", "feature_factory_configs", "featurizer",
    "filter_stop_words", "group_names_to_slot_names", "idf_diag", "ignore_stop_words", "intent", "intent_group",
    "intent_list", "intent_parsers", "intents_names", "intercept", "keep_order", "language_code", "map",
    "model_version", "offsets", "patterns", "slot_filler_name", "slot_fillers", "slot_name_mapping",
    "slot_name_mappings", "slot_names_to_entities", "slots_names", "stop_words_whitelist", "tagging_scheme",
    "tfidf_vectorizer", "training_package_version", "unknown_words_replacement_string", "use_stemming", "vectorizer",
    "vocab", "window_size", "word_clusters_name", "word_pairs", "n", "common_words_gazetteer_name", "prefix_size",
    "suffix_size", "tagging_scheme_code", "entity_labels", "cluster_name", "unit_name", "version", "parser_filename",
    "threshold", "parsers_metadata", "entity_identifier", "entity_parser", "language", "parser_directory",
    "parser_usage", "gazetteer_parser", "gazetteers", "stems", "stop_words", "word_clusters",
];

fn gen_value(g: &mut Gen, spec: &Spec) -> Value {
    match g.below(10) {
        0 => json!(null),
        1 => g.pick(&[json!(true), json!(false), json!({}), json!([]), json!([null]), json!([[]]), json!({"a": {}})]).clone(),
        2 | 3 => g
            .pick(&[
                json!(0), json!(-1), json!(1), json!(2), json!(3), json!(i32::max_value()), json!(i32::min_value()),
                json!(u32::max_value()), json!(i64::max_value()), json!(i64::min_value()), json!(u64::max_value()),
                json!(1u64 << 32), json!(1u64 << 40), json!(1u64 << 62), json!(65535), json!(100), json!(1 << 20),
            ])
            .clone(),
        4 => g.pick(&[json!(0.5), json!(-0.0), json!(1e300), json!(-1e38), json!(3.5e38), json!(1e-320), json!(0.1)]).clone(),
        5 | 6 => json!(g.word(&[
            "", " ", "a", "\u{0}", "../x", ".", "/", "(?P<group0>", "(?P<group0>a)(?P<group0>b)", "((((", "a{100000}", "(a*)*", "(?P<x>.*)", ".*",
            "^", "\\b", "(?i)%", "%", "%%", "fr", "en", "xx", "B-", "I-", "O", "U-", "9999999999", "-1", "%SNIPSNUMBER%", "model.crfsuite", "features",
        ])),
        7 => json!(g.string(6)),
        _ => {
            // names of the model
            let mut names: Vec<String> = spec.intents.iter().map(|i| i.name.clone()).collect();
            for i in &spec.intents {
                names.extend(i.slots.keys().cloned());
                names.extend(i.slots.values().cloned());
            }
            names.extend(spec.res.gazetteers.keys().cloned());
            names.extend(spec.res.clusters.keys().cloned());
            names.push("snips/number".to_string());
            json!(g.pick(&names).clone())
        }
    }
}

fn gen_damage(g: &mut Gen, spec: &Spec) -> Damage {
    let file = g.draw() as usize;
    match g.below(24) {
        0 => Damage::Missing(file),
        1 => Damage::Truncated(file, g.below(1000)),
        2 => Damage::Flipped(file, g.vec(1, 4, |g| (g.draw() as usize, g.draw() as u8))),
        3 => Damage::Copied(file, g.draw() as usize),
        4 => Damage::Content(file, g.word(&["", "{", "{}", "[]", "null", "0", "\"\"", "\u{feff}{}", "[[[[[[[["])),
        5 => Damage::Folder(file),
        6 | 7 | 8 => Damage::Line(file, g.draw() as usize, {
            let words: &[&str] = if spec.lang == "ja" { JA_WORDS } else { WORDS };
            match g.below(5) {
                0 => String::new(),
                1 => g.word(words),
                2 => format!("{}{}{}", g.word(&["\t", ",", "\"", "\r", " "]), words[g.below(words.len())], ""),
                3 => format!("{}\t", words[g.below(words.len())]),
                _ => g.string(10),
            }
        }),
        _ => {
            let node = g.draw() as usize;
            let change = gen_change(g, spec);
            if g.chance(40) {
                Damage::Field(file, node, change)
            } else {
                Damage::Json(file, node, change)
            }
        }
    }
}

fn gen_change(g: &mut Gen, spec: &Spec) -> Change {
    match g.below(27) {
        0 | 1 => Change::Removed,
        2 => Change::Renamed(gen_value(g, spec).as_str().unwrap_or("x").to_string()),
        3 => Change::Node(g.draw() as usize),
        4 => Change::Other(g.draw() as usize, g.draw() as usize),
        5 => Change::Twice,
        6 => Change::Emptied,
        7 => Change::Negated,
        8 => Change::Shuffled(g.draw()),
        9..=18 => {
            let number = g
                .pick(&[
                    json!(0), json!(-1), json!(1), json!(2), json!(5), json!(-3), json!(i32::max_value()), json!(i32::min_value()),
                    json!(u32::max_value()), json!(i64::max_value()), json!(u64::max_value()), json!(1u64 << 62), json!(100),
                    json!(0.5), json!(1e30), json!(-1e30), json!(1e-300),
                ])
                .clone();
            let text = match gen_value(g, spec) {
                Value::String(s) => s,
                v => v.to_string(),
            };
            Change::Like(number, text)
        }
        19..=23 => Change::Set(gen_value(g, spec)),
        _ => Change::Type(g.below(7)),
    }
}

/// The nodes of a value, as the keys leading to them
fn nodes(v: &Value) -> Vec<Vec<Value>> {
    fn visit(v: &Value, at: &mut Vec<Value>, out: &mut Vec<Vec<Value>>) {
        out.push(at.clone());
        match v {
            Value::Array(list) => {
                for (i, x) in list.iter().enumerate() {
                    at.push(json!(i));
                    visit(x, at, out);
                    at.pop();
                }
            }
            Value::Object(map) => {
                for (k, x) in map {
                    at.push(json!(k));
                    visit(x, at, out);
                    at.pop();
                }
            }
            _ => {}
        }
    }
    let mut out = vec![];
    visit(v, &mut vec![], &mut out);
    out
}

fn find<'a>(v: &'a mut Value, at: &[Value]) -> Option<&'a mut Value> {
    match at.split_first() {
        None => Some(v),
        Some((k, rest)) => match k {
            Value::String(k) => find(v.get_mut(&**k)?, rest),
            k => find(v.get_mut(k.as_u64()? as usize)?, rest),
        },
    }
}

/// Half of the choices are among the nodes near the root, the big lists hide them otherwise
fn choose(all: &[Vec<Value>], k: usize) -> &Vec<Value> {
    if k % 2 == 0 {
        let near: Vec<&Vec<Value>> = all.iter().filter(|n| n.len() <= 2).collect();
        near[(k / 2) % near.len()]
    } else {
        &all[(k / 2) % all.len()]
    }
}

fn change(v: &mut Value, node: usize, c: &Change, other: Option<Value>) {
    let all = nodes(v);
    let at = choose(&all, node).clone();
    change_at(v, &all, at, c, other)
}

fn change_at(v: &mut Value, all: &[Vec<Value>], at: Vec<Value>, c: &Change, other: Option<Value>) {
    match c {
        Change::Removed => {
            if let Some((last, parent)) = at.split_last() {
                match (find(v, parent), last) {
                    (Some(Value::Array(list)), k) => {
                        list.remove(k.as_u64().unwrap() as usize);
                    }
                    (Some(Value::Object(map)), k) => {
                        map.remove(k.as_str().unwrap());
                    }
                    _ => {}
                }
            }
        }
        Change::Renamed(name) => {
            if let Some((last, parent)) = at.split_last() {
                if let Some(Value::Object(map)) = find(v, parent) {
                    if let Some(x) = map.remove(last.as_str().unwrap()) {
                        map.insert(name.clone(), x);
                    }
                }
            }
        }
        Change::Type(k) => {
            if let Some(x) = find(v, &at) {
                let text = x.as_str().map(|s| s.to_string()).unwrap_or(x.to_string());
                *x = match k {
                    0 => json!(null),
                    1 => json!(text),
                    2 => json!(3),
                    3 => json!(true),
                    4 => json!([x.clone()]),
                    5 => json!({"a": x.clone()}),
                    _ => json!(1.5),
                };
            }
        }
        Change::Set(x) => *find(v, &at).unwrap() = x.clone(),
        Change::Node(k) => {
            let x = find(v, choose(all, *k)).unwrap().clone();
            *find(v, &at).unwrap() = x;
        }
        Change::Other(..) => {
            if let Some(x) = other {
                *find(v, &at).unwrap() = x;
            }
        }
        Change::Like(number, text) => match find(v, &at) {
            Some(Value::Array(list)) => {
                if list.len() > 1 {
                    let k = text.len() % list.len();
                    list.remove(k);
                }
            }
            Some(Value::Object(map)) => {
                let keys: Vec<String> = map.keys().cloned().collect();
                if let Some(k) = keys.get(text.len() % keys.len().max(1)) {
                    let x = map.remove(k).unwrap();
                    if text.len() % 2 == 0 {
                        map.insert(text.clone(), x);
                    }
                }
            }
            Some(Value::String(s)) => *s = text.clone(),
            Some(Value::Bool(b)) => *b = !*b,
            Some(x) if x.is_number() => *x = number.clone(),
            _ => {}
        },
        Change::Twice => match find(v, &at) {
            Some(Value::Array(list)) => {
                if let Some(x) = list.last().cloned() {
                    list.push(x);
                }
            }
            Some(Value::String(s)) => *s = format!("{}{}", s, s),
            Some(x) => *x = json!([x.clone(), x.clone()]),
            None => {}
        },
        Change::Emptied => match find(v, &at) {
            Some(Value::Array(list)) => list.clear(),
            Some(Value::Object(map)) => map.clear(),
            Some(Value::String(s)) => s.clear(),
            Some(x) => *x = json!(0),
            None => {}
        },
        Change::Negated => {
            if let Some(x) = find(v, &at) {
                if let Some(i) = x.as_i64() {
                    *x = json!(-1 - i);
                } else if let Some(f) = x.as_f64() {
                    *x = json!(-f);
                }
            }
        }
        Change::Shuffled(k) => {
            if let Some(Value::Array(list)) = find(v, &at) {
                if !list.is_empty() {
                    let n = list.len();
                    list.rotate_left(*k as usize % n);
                }
            }
        }
    }
}

fn text_files(all: &[PathBuf], ext: &str) -> Vec<PathBuf> {
    all.iter().filter(|p| p.extension().map(|e| e == ext).unwrap_or(ext == "json")).cloned().collect()
}

pub fn damage(dir: &Path, list: &[Damage]) -> Vec<PathBuf> {
    let files: Vec<PathBuf> = snapshot(dir).into_iter().filter(|f| f.1.is_some()).map(|f| f.0).collect();
    let mut out = vec![];
    for d in list {
        let pick = |k: &usize| files[*k % files.len()].clone();
        let read = |p: &Path| fs::read(dir.join(p)).unwrap_or_default();
        let write = |p: &Path, c: Vec<u8>| {
            let _ = fs::write(dir.join(p), c);
        };
        let p = match d {
            Damage::Missing(f) => {
                let _ = fs::remove_file(dir.join(pick(f)));
                pick(f)
            }
            Damage::Truncated(f, k) => {
                let mut c = read(&pick(f));
                c.truncate(c.len() * k / 1000);
                write(&pick(f), c);
                pick(f)
            }
            Damage::Flipped(f, list) => {
                let mut c = read(&pick(f));
                for (at, v) in list {
                    if !c.is_empty() {
                        let n = c.len();
                        c[at % n] = *v;
                    }
                }
                write(&pick(f), c);
                pick(f)
            }
            Damage::Copied(f, other) => {
                let c = read(&pick(other));
                write(&pick(f), c);
                pick(f)
            }
            Damage::Content(f, c) => {
                write(&pick(f), c.clone().into_bytes());
                pick(f)
            }
            Damage::Folder(f) => {
                let p = dir.join(pick(f));
                if fs::remove_file(&p).is_ok() {
                    fs::create_dir(&p).unwrap();
                }
                pick(f)
            }
            Damage::Json(f, node, c) => {
                let list = text_files(&files, "json");
                let p = list[f % list.len()].clone();
                if let Ok(mut v) = serde_json::from_slice::<Value>(&read(&p)) {
                    let other = match c {
                        Change::Other(f, n) => serde_json::from_slice::<Value>(&read(&list[f % list.len()]))
                            .ok()
                            .and_then(|mut o| {
                                let all = nodes(&o);
                                find(&mut o, choose(&all, *n)).cloned()
                            }),
                        _ => None,
                    };
                    change(&mut v, *node, c, other);
                    write(&p, serde_json::to_vec(&v).unwrap());
                }
                p
            }
            Damage::Field(field, k, c) => {
                // all the fields of all the files: the name of the file without its number and of the field
                let mut fields: BTreeMap<String, Vec<(PathBuf, Vec<Value>)>> = BTreeMap::new();
                for p in text_files(&files, "json") {
                    if let Ok(v) = serde_json::from_slice::<Value>(&read(&p)) {
                        for at in nodes(&v) {
                            let key = at.iter().rev().find_map(|k| k.as_str()).unwrap_or("").to_string();
                            let folder: String = p.to_string_lossy().chars().filter(|c| !c.is_ascii_digit()).collect();
                            let depth = at.last().map(|k| k.is_number()).unwrap_or(false);
                            // values of users are not fields
                            let key = if FIELDS.contains(&&*key) { key } else { "-".to_string() };
                            fields.entry(format!("{} {} {}", folder, key, depth)).or_default().push((p.clone(), at));
                        }
                    }
                }
                if fields.is_empty() {
                    continue;
                }
                let list = fields.values().nth(field % fields.len()).unwrap();
                let (p, at) = list[k % list.len()].clone();
                let mut v: Value = serde_json::from_slice(&read(&p)).unwrap();
                let all = nodes(&v);
                let other = Some(json!({}));
                change_at(&mut v, &all, at, c, other);
                write(&p, serde_json::to_vec(&v).unwrap());
                p
            }
            Damage::Number(field, which, by, absolute) => {
                let mut fields: BTreeMap<String, Vec<(PathBuf, Vec<Value>)>> = BTreeMap::new();
                for p in text_files(&files, "json") {
                    if let Ok(mut v) = serde_json::from_slice::<Value>(&read(&p)) {
                        for at in nodes(&v) {
                            let numbers = |m: &serde_json::Map<String, Value>| {
                                !m.is_empty() && m.keys().all(|k| k.parse::<i64>().is_ok())
                            };
                            match find(&mut v, &at) {
                                Some(Value::Number(_)) | Some(Value::Array(_)) => {}
                                Some(Value::Object(m)) if numbers(m) => {}
                                _ => continue,
                            }
                            let folder: String = p.to_string_lossy().chars().filter(|c| !c.is_ascii_digit()).collect();
                            let place: Vec<&str> = at
                                .iter()
                                .map(|k| match k.as_str() {
                                    Some(k) if FIELDS.contains(&k) => k,
                                    Some(_) => "*",
                                    None => "#",
                                })
                                .collect();
                            fields.entry(format!("{} {}", folder, place.join("/"))).or_default().push((p.clone(), at));
                        }
                    }
                }
                if fields.is_empty() {
                    continue;
                }
                let list = fields.values().nth(field % fields.len()).unwrap();
                let list = match which {
                    Some(k) => vec![list[k % list.len()].clone()],
                    None => list.clone(),
                };
                for (p, at) in &list {
                    let mut v: Value = serde_json::from_slice(&read(p)).unwrap();
                    match find(&mut v, at) {
                        Some(Value::Array(l)) => {
                            if *by > 0 {
                                if let Some(x) = l.last().cloned() {
                                    l.push(x);
                                }
                            } else {
                                l.pop();
                            }
                        }
                        Some(Value::Object(m)) => {
                            if let Some(k) = m.keys().last().cloned() {
                                let x = m.remove(&k).unwrap();
                                let n = if *absolute { *by } else { k.parse::<i64>().unwrap().saturating_add(*by) };
                                m.insert(n.to_string(), x);
                            }
                        }
                        Some(x) => {
                            if let Some(n) = x.as_i64() {
                                *x = json!(if *absolute { *by } else { n.saturating_add(*by) });
                            } else if let Some(n) = x.as_f64() {
                                let by = if *by == i64::max_value() { 1e300 } else { *by as f64 };
                                *x = json!(if *absolute { by } else { n + by });
                            }
                        }
                        None => {}
                    }
                    write(p, serde_json::to_vec(&v).unwrap());
                }
                list[0].0.clone()
            }
            Damage::Name(field, which, how, name) => {
                // the keys of each field, and the strings of each
                let mut fields: BTreeMap<String, Vec<(PathBuf, Vec<Value>)>> = BTreeMap::new();
                for p in text_files(&files, "json") {
                    let folder: String = p.to_string_lossy().chars().filter(|c| !c.is_ascii_digit()).collect();
                    if !folder.starts_with("parser_") && folder != "nlu_engine.json" {
                        continue;
                    }
                    if let Ok(mut v) = serde_json::from_slice::<Value>(&read(&p)) {
                        for at in nodes(&v) {
                            let place: Vec<&str> = at
                                .iter()
                                .map(|k| match k.as_str() {
                                    Some(k) if FIELDS.contains(&k) => k,
                                    Some(_) => "*",
                                    None => "#",
                                })
                                .collect();
                            let text = matches!(find(&mut v, &at), Some(Value::String(_)));
                            if text || place.last() == Some(&"*") {
                                fields.entry(format!("{} {} {}", folder, place.join("/"), text)).or_default().push((p.clone(), at));
                            }
                        }
                    }
                }
                if fields.is_empty() {
                    continue;
                }
                let (field, list) = fields.iter().nth(field % fields.len()).unwrap();
                let (p, at) = list[which % list.len()].clone();
                let mut v: Value = serde_json::from_slice(&read(&p)).unwrap();
                let (last, parent) = at.split_last().unwrap();
                let another = list[(which / 7) % list.len()].clone();
                if field.ends_with("true") {
                    let mut w: Value = serde_json::from_slice(&read(&another.0)).unwrap();
                    let new = match how {
                        0 => json!(name),
                        1 => json!(format!("{}{}", find(&mut v, &at).unwrap().as_str().unwrap(), name)),
                        _ => find(&mut w, &another.1).unwrap().clone(),
                    };
                    *find(&mut v, &at).unwrap() = new;
                } else if let Some(Value::Object(m)) = find(&mut v, parent) {
                    let x = m.remove(last.as_str().unwrap()).unwrap();
                    match how {
                        0 => {}
                        1 => {
                            m.insert(name.clone(), x);
                        }
                        _ => {
                            m.insert(another.1.last().unwrap().as_str().unwrap().to_string(), x);
                        }
                    }
                }
                write(&p, serde_json::to_vec(&v).unwrap());
                p
            }
            Damage::Line(f, at, line) => {
                let list = text_files(&files, "txt");
                if list.is_empty() {
                    continue;
                }
                let p = list[f % list.len()].clone();
                let c = String::from_utf8_lossy(&read(&p)).to_string();
                let mut lines: Vec<&str> = c.lines().collect();
                let k = at % (lines.len() + 1);
                if at % 3 == 0 && k < lines.len() {
                    lines[k] = line;
                } else {
                    lines.insert(k, line);
                }
                write(&p, lines.join("\n").into_bytes());
                p
            }
        };
        out.push(p);
    }
    out
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Damaged {
    pub case: Case,
    pub calls: Vec<Call>,
    pub damage: Vec<Damage>,
}

fn check(case: &Damaged, obs: &mut Obs) -> Check {
    let files = Files::new(&case.case.spec);
    let damaged = damage(&files.dir, &case.damage);
    let what = || format!("{:?} in {:?}", case.damage, damaged);
    let reply = match ask(&request(&files.dir, &case.case, &case.calls)) {
        Ok(r) => r,
        Err(e) => return survey(format!("an engine with {}: {}", what(), e)),
    };
    obs.evals += 1 + reply.answers as u64 + reply.failures as u64;
    if let Some(p) = reply.panic {
        return survey(format!("an engine with {}: {}", what(), p));
    }
    if reply.loaded {
        if reply.failures > 0 {
            obs.hit("calls fail");
        } else {
            obs.label("all the calls succeed");
        }
        if reply.rich > 0 {
            obs.label("slots");
        }
    } else {
        ensure!(!reply.error.trim().is_empty(), "an engine with {}: an error without message", what());
        obs.hit("refused");
        obs.label(&format!("refused: {}", damaged.last().map(|p| p.file_name().unwrap().to_string_lossy().to_string()).unwrap_or_default()));
    }
    Ok(())
}

/// With VP_SURVEY, notes all the failures instead of stopping at the first one
fn survey(message: String) -> Check {
    if let Ok(path) = std::env::var("VP_SURVEY") {
        use std::io::Write;
        let mut f = fs::OpenOptions::new().append(true).create(true).open(path).unwrap();
        writeln!(f, "{}", message.replace('\n', " ")).unwrap();
        return Ok(());
    }
    Err(message)
}

pub fn c22(run: &mut Run) {
    run.section(
        "damaged",
        "the damage makes the loading or a call fail",
        (8000, 500_000),
        1500,
        |g| {
            let case = gen_case(g, ANY, (1, 3));
            let calls = g.vec(1, 4, |g| gen_call(g, &case));
            let damage = g.vec(1, 3, |g| gen_damage(g, &case.spec));
            Damaged { case, calls, damage }
        },
        |case, obs| check(case, obs),
    );
    run.section(
        "fields",
        "the change of the field makes the loading or a call fail",
        (8000, 300_000),
        1500,
        |g| {
            let want = match g.below(8) {
                0..=4 => PROB,
                5 | 6 => DET,
                _ => LOOKUP,
            };
            let mut case = gen_case(g, want, (1, 4));
            // features of all kinds
            let spec = case.spec.clone();
            for parser in case.spec.parsers.iter_mut() {
                if let Parser::Prob(p) = parser {
                    for f in p.fillers.values_mut().filter(|f| f.crf.is_some()) {
                        f.factories.extend((0..8).map(|_| gen_factory(g, &spec)));
                    }
                }
            }
            let calls = g.vec(1, if want.prob > 0 { 2 } else { 5 }, |g| gen_call(g, &case));
            let damage = vec![Damage::Field(g.draw() as usize, g.draw() as usize, gen_change(g, &spec))];
            Damaged { case, calls, damage }
        },
        |case, obs| check(case, obs),
    );
    run.section(
        "indices and lengths",
        "the change of the indices makes the loading or a call fail",
        (3000, 300_000),
        1500,
        |g| {
            let case = gen_case(g, ANY, (2, 3));
            let calls = g.vec(2, 4, |g| gen_call(g, &case));
            let damage = vec![Damage::Number(
                g.draw() as usize,
                if g.chance(50) { None } else { Some(g.draw() as usize) },
                *g.pick(&[-1i64, 1, -2, 2, 3, 5, 0, 1 << 31, 1 << 32, -(1 << 31), i64::max_value()]),
                g.chance(50),
            )];
            Damaged { case, calls, damage }
        },
        |case, obs| check(case, obs),
    );
    run.section(
        "names",
        "the change of the name makes the loading or a call fail",
        (4000, 300_000),
        1500,
        |g| {
            let want = match g.below(4) {
                0 => PROB,
                1 => LOOKUP,
                _ => DET,
            };
            let many = g.chance(50);
            let case = gen_case(g, Want { many, ..want }, (3, 6));
            let calls = (0..case.texts.len())
                .map(|text| Call::Parse { text, white: None, black: None, n: case.n, m: 0 })
                .chain(g.vec(0, 2, |g| gen_call(g, &case)))
                .collect();
            let name = gen_value(g, &case.spec).as_str().unwrap_or("nothing").to_string();
            let damage = vec![Damage::Name(g.draw() as usize, g.draw() as usize, g.below(3) as u8, name)];
            Damaged { case, calls, damage }
        },
        |case, obs| check(case, obs),
    );
}
