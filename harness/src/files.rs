//! C19 to C24: the files of engines
use crate::common::*;
use crate::core::*;
use crate::engine::*;
use crate::faults::{plain, with_fault, with_jail, Fault};
use crate::refs::*;
use crate::spec::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use snips_nlu_lib::injection::NluInjector;
use snips_nlu_lib::SharedResources;
use snips_nlu_ontology::{BuiltinEntityKind, SlotValue};
use snips_nlu_utils::token::{tokenize, tokenize_light};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::ops::Range;
use std::path::{Path, PathBuf};
use std::sync::Arc;

/// All the files and folders (without content) of a folder
pub fn snapshot(dir: &Path) -> BTreeMap<PathBuf, Option<Vec<u8>>> {
    fn visit(at: &Path, rel: &Path, out: &mut BTreeMap<PathBuf, Option<Vec<u8>>>) {
        let mut list: Vec<_> = fs::read_dir(at).unwrap().map(|e| e.unwrap()).collect();
        list.sort_by_key(|e| e.file_name());
        for e in list {
            let rel = rel.join(e.file_name());
            let kind = e.file_type().unwrap();
            if kind.is_dir() {
                out.insert(rel.clone(), None);
                visit(&e.path(), &rel, out);
            } else if kind.is_symlink() {
                out.insert(rel, Some(format!("{:?}", fs::read_link(e.path())).into_bytes()));
            } else {
                out.insert(rel, Some(fs::read(e.path()).unwrap_or_default()));
            }
        }
    }
    let mut out = BTreeMap::new();
    visit(dir, Path::new(""), &mut out);
    out
}

pub fn restore(dir: &Path, files: &BTreeMap<PathBuf, Option<Vec<u8>>>) {
    fs::create_dir_all(dir).unwrap();
    for (p, content) in files {
        match content {
            None => fs::create_dir_all(dir.join(p)).unwrap(),
            Some(c) => fs::write(dir.join(p), c).unwrap(),
        }
    }
}

pub fn differences(a: &BTreeMap<PathBuf, Option<Vec<u8>>>, b: &BTreeMap<PathBuf, Option<Vec<u8>>>) -> Vec<PathBuf> {
    a.keys().chain(b.keys()).filter(|p| a.get(*p) != b.get(*p)).cloned().collect::<BTreeSet<_>>().into_iter().collect()
}

// ---- C19

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Injection {
    pub vanilla: bool,
    /// gives the resources of the engine to the injector
    pub shared: bool,
    pub values: BTreeMap<String, Vec<String>>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Injections {
    pub spec: Spec,
    pub list: Vec<Injection>,
}

/// The entities of the engine that can be injected
fn injectable(spec: &Spec) -> Vec<String> {
    spec.entities.keys().chain(spec.gaz.iter().flat_map(|g| g.keys())).cloned().collect()
}

fn gen_value(g: &mut Gen, spec: &Spec, entity: &str, before: &[String]) -> String {
    let l = lang(&spec.lang);
    let words: &[&str] = if spec.lang == "ja" { JA_WORDS } else { VALUE_WORDS };
    let mut v = match g.below(8) {
        0 => {
            // a value that is already there
            let e = spec.entities.get(entity).or_else(|| spec.gaz.as_ref().and_then(|m| m.get(entity))).unwrap();
            let (raw, resolved) = g.pick(&e.values).clone();
            if g.chance(50) { raw } else { resolved }
        }
        1 if !before.is_empty() => g.pick(before).clone(),
        2 => g.string(12),
        3 => format!("{}{}{}", g.word(words), g.word(&["-", "'", ", ", "?", "  ", "!", "_", ".", "$"]), g.word(words)),
        4 => {
            // other forms of the words that have stems
            let lines: Vec<Vec<String>> = spec.res.stems.clone().unwrap_or_default();
            if lines.is_empty() { g.word(words) } else { let l = g.pick(&lines).clone(); let w = g.pick(&l).clone(); format!("{} {}", w, g.word(words)) }
        }
        _ => {
            let n = g.range(1, 3);
            (0..n).map(|_| g.word(words)).collect::<Vec<_>>().join(" ")
        }
    };
    match g.below(6) {
        0 => v = v.to_uppercase(),
        1 => v = v.to_lowercase(),
        2 => v = format!("{}{}", g.word(&[" ", "(", "-", "?"]), v),
        _ => {}
    }
    if tokenize_light(&v.to_lowercase(), l).is_empty() {
        v += &g.word(words);
    }
    v
}

fn gen_injection(g: &mut Gen, spec: &Spec, before: &mut Vec<String>) -> Injection {
    let all = injectable(spec);
    let mut values = BTreeMap::new();
    let mut chosen = g.subset(&all, 50);
    if chosen.is_empty() {
        chosen.push(g.pick(&all).clone());
    }
    for e in chosen {
        let least = if g.chance(5) { 0 } else { 1 };
        let mut list = g.vec(least, 4, |g| gen_value(g, spec, &e, before));
        if list.len() > 1 && g.chance(10) {
            list.push(list[0].clone());
        }
        before.extend(list.iter().cloned());
        values.insert(e, list);
    }
    Injection { vanilla: g.chance(30), shared: g.chance(40), values }
}

fn gen_injectable_spec(g: &mut Gen) -> Spec {
    let mut spec = gen_spec(g, Want { det: 50, lookup: 40, prob: 20, many: true, max_slots: 3 });
    for e in spec.entities.values_mut().chain(spec.gaz.iter_mut().flat_map(|m| m.values_mut())) {
        e.threshold = 1.0;
    }
    if g.chance(20) {
        // names that are nearly the same
        let names: Vec<String> = spec.entities.keys().cloned().collect();
        let name = g.pick(&names).clone();
        let other = match g.below(5) {
            0 => name.to_uppercase(),
            1 => name.to_lowercase(),
            2 => format!("{} ", name),
            3 => format!("{}s", name),
            _ => format!("x{}", name),
        };
        if !spec.entities.contains_key(&other) && !is_builtin(&other) {
            let from = spec.entities[g.pick(&names)].clone();
            spec.entities.insert(other, from);
        }
    }
    spec
}

fn injector(dir: &Path, i: &Injection, shared: Option<Arc<SharedResources>>) -> NluInjector<PathBuf> {
    let mut injector = NluInjector::new(dir.to_path_buf());
    // the values of the entities in turn
    let longest = i.values.values().map(|v| v.len()).max().unwrap_or(0);
    for k in 0..longest {
        for (e, list) in &i.values {
            if let Some(v) = list.get(k) {
                injector = injector.add_value(e.clone(), v.clone());
            }
        }
    }
    injector = injector.from_vanilla(i.vanilla);
    if let Some(s) = shared {
        injector = injector.shared_resources(s);
    }
    injector
}

/// What the injector says, with the causes
fn inject(dir: &Path, i: &Injection, shared: Option<Arc<SharedResources>>) -> std::result::Result<(), Vec<String>> {
    use failure::Fail;
    let injector = injector(dir, i, shared);
    match no_panic(move || injector.inject()) {
        Err(p) => Err(vec![format!("PANIC {}", p)]),
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => Err(<dyn Fail>::iter_chain(&e).map(|c| c.to_string()).collect()),
    }
}

/// A value that an entity recognises
#[derive(Clone, Debug)]
struct Known {
    /// tokens of the value in lower case
    key: String,
    resolved: String,
    /// the value as it has been written, if the key is not a stemmed form
    written: Option<String>,
}

/// The values of the entities, as blocks: the latest injections first, then the initial values
#[derive(Clone, Debug)]
struct Model {
    blocks: BTreeMap<String, Vec<Vec<Known>>>,
    initial: BTreeMap<String, Vec<Known>>,
}

fn key_of(spec: &Spec, entity: &str, value: &str) -> String {
    let low = value.to_lowercase();
    if spec.entities.contains_key(entity) {
        tokenize_light(&low, lang(&spec.lang)).join(" ")
    } else {
        low.split_whitespace().collect::<Vec<_>>().join(" ")
    }
}

impl Model {
    fn new(spec: &Spec) -> Model {
        let mut initial = BTreeMap::new();
        for (name, e) in spec.entities.iter().chain(spec.gaz.iter().flatten()) {
            let list: Vec<Known> = e
                .values
                .iter()
                .map(|(raw, resolved)| Known {
                    key: raw.split_whitespace().collect::<Vec<_>>().join(" "),
                    resolved: resolved.clone(),
                    written: None,
                })
                .collect();
            initial.insert(name.clone(), list);
        }
        let blocks = initial.iter().map(|(n, l): (&String, &Vec<Known>)| (n.clone(), vec![l.clone()])).collect();
        Model { blocks, initial }
    }

    fn inject_one(&mut self, spec: &Spec, vanilla: bool, entity: &str, values: &[String]) {
        let custom = spec.entities.contains_key(entity);
        let mut block = vec![];
        for v in values {
            let key = key_of(spec, entity, v);
            if !custom || spec.usage != 0 {
                block.push(Known { key: key.clone(), resolved: v.clone(), written: Some(v.clone()) });
            }
            if custom && spec.usage != 1 {
                let key = key.split(' ').map(|t| stem_of(&spec.res, t)).collect::<Vec<_>>().join(" ");
                block.push(Known { key, resolved: v.clone(), written: None });
            }
        }
        let blocks = self.blocks.get_mut(entity).unwrap();
        if vanilla {
            *blocks = vec![self.initial[entity].clone()];
        }
        blocks.insert(0, block);
    }

    fn inject(&mut self, spec: &Spec, i: &Injection) {
        for (e, list) in &i.values {
            if !list.is_empty() {
                self.inject_one(spec, i.vanilla, e, list);
            }
        }
    }
}

/// A text with a value, and the characters of the value
fn embed(g: &mut u64, spec: &Spec, entity: &str, value: &str, neighbour: &Option<&str>) -> Option<(String, Range<usize>)> {
    let custom = spec.entities.contains_key(entity);
    let mut next = |n: u64| {
        *g = g.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (*g >> 33) % n
    };
    let inside = if custom {
        let tokens = tokenize(value, lang(&spec.lang));
        if tokens.is_empty() {
            return None;
        }
        tokens[0].char_range.start..tokens[tokens.len() - 1].char_range.end
    } else {
        let c: Vec<char> = value.chars().collect();
        let start = c.iter().position(|c| !c.is_whitespace())?;
        let end = c.iter().rposition(|c| !c.is_whitespace())? + 1;
        start..end
    };
    let (mut before, mut after) = match neighbour {
        Some(w) => (
            match next(4) { 0 => String::new(), 1 => format!("{}  ", w), 2 => " ".to_string(), _ => format!("{} {} ", w, w) },
            match next(4) { 0 => String::new(), 1 => format!(" \t{}", w), 2 => " ".to_string(), _ => format!(" {}", w) },
        ),
        None => (String::new(), String::new()),
    };
    if custom && spec.lang != "ja" {
        // neither tokens nor parts of tokens
        if next(4) == 0 {
            before += "(";
        }
        if next(4) == 0 {
            after = format!("),{}", after);
        }
    }
    let at = chars(&before);
    Some((format!("{}{}{}", before, value, after), at + inside.start..at + inside.end))
}

/// range, resolved value, other resolved values
type Seen = Vec<(Range<usize>, String, Vec<String>)>;

fn value_text(v: &SlotValue) -> String {
    match v {
        SlotValue::Custom(s)
        | SlotValue::MusicAlbum(s)
        | SlotValue::MusicArtist(s)
        | SlotValue::MusicTrack(s)
        | SlotValue::City(s)
        | SlotValue::Country(s)
        | SlotValue::Region(s) => s.value.clone(),
        other => format!("{:?}", other),
    }
}

fn look(shared: &SharedResources, spec: &Spec, entity: &str, text: &str) -> std::result::Result<Seen, String> {
    if spec.entities.contains_key(entity) {
        Ok(shared
            .custom_entity_parser
            .extract_entities(text, Some(&[entity.to_string()]), 100)
            .map_err(text_of)?
            .into_iter()
            .map(|e| (e.range, e.resolved_value, e.alternative_resolved_values))
            .collect())
    } else {
        let kind = BuiltinEntityKind::from_identifier(entity).unwrap();
        Ok(shared
            .builtin_entity_parser
            .extract_entities(text, Some(&[kind]), true, 100)
            .map_err(text_of)?
            .into_iter()
            .map(|e| (e.range, value_text(&e.entity), e.alternatives.iter().map(value_text).collect()))
            .collect())
    }
}

/// A word which is in no value
fn neighbour(model: &Model) -> Option<&'static str> {
    let mut used = BTreeSet::new();
    for k in model.blocks.values().flatten().flatten() {
        used.extend(k.key.chars());
    }
    ["zzz", "qqq", "jjj", "ωωω", "ққ"].iter().find(|w| !w.chars().any(|c| used.contains(&c))).cloned()
}

/// The forms of a value in other cases
fn forms(k: &Known) -> Vec<String> {
    let v = k.written.clone().unwrap_or_else(|| k.key.clone());
    let mut out = vec![v.clone()];
    let low = v.to_lowercase();
    for f in vec![v.to_uppercase(), low.clone(), {
        // every other letter
        v.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_uppercase().to_string() } else { c.to_lowercase().to_string() }).collect()
    }] {
        // letters that are the same whatever the case
        if f.to_lowercase() == low && !v.contains('Σ') && !low.contains('ς') && !low.contains('σ') && !out.contains(&f) {
            out.push(f);
        }
    }
    out
}

/// All the values of an entity are recognised
fn check_known(obs: &mut Obs, model: &Model, spec: &Spec, shared: &SharedResources, entity: &str, what: &dyn Fn() -> String) -> Check {
    let w = neighbour(model);
    let blocks = &model.blocks[entity];
    let mut seed = 7;
    for (age, block) in blocks.iter().enumerate() {
        for k in block {
            if key_of(spec, entity, &k.key) != k.key || k.key.is_empty() {
                obs.label("left out: not the form of a text");
                continue;
            }
            // the latest ones with the same text
            let winners: Vec<&str> = blocks
                .iter()
                .map(|b| b.iter().filter(|o| o.key == k.key).map(|o| &*o.resolved).collect::<Vec<_>>())
                .find(|l| !l.is_empty())
                .unwrap();
            let others: Vec<&str> = blocks.iter().flatten().filter(|o| o.key == k.key).map(|o| &*o.resolved).collect();
            for f in forms(k) {
                if let Some((text, range)) = embed(&mut seed, spec, entity, &f, &w) {
                    if key_of(spec, entity, &f) != k.key {
                        continue;
                    }
                    obs.evals += 1;
                    let seen = look(shared, spec, entity, &text)?;
                    let found: Vec<_> = seen.iter().filter(|s| s.0 == range).collect();
                    ensure!(
                        found.len() == 1,
                        "{}: {:?} of {:?} ({:?}) is not found at {:?} in {:?} but {:?}", what(), k, entity, f, range, text, seen
                    );
                    ensure!(
                        winners.contains(&&*found[0].1),
                        "{}: {:?} of {:?} in {:?} is resolved to {:?} and not to one of {:?}", what(), k, entity, text, found[0].1, winners
                    );
                    for o in &others {
                        ensure!(
                            found[0].1 == **o || found[0].2.iter().any(|a| a == o),
                            "{}: {:?} of {:?} in {:?} is resolved to {:?}, without {:?}", what(), k, entity, text, found[0], o
                        );
                    }
                    if age + 1 < blocks.len() {
                        obs.hit("injected value");
                        if winners[0] != k.resolved {
                            obs.label("replaced value");
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

/// The folder of the values of an entity
fn folder(spec: &Spec, entity: &str) -> PathBuf {
    let (base, i) = match spec.entities.keys().position(|e| e == entity) {
        Some(i) => ("custom_entity_parser/parser", i),
        None => ("builtin_entity_parser/gazetteer_entity_parser", spec.gaz.as_ref().unwrap().keys().position(|e| e == entity).unwrap()),
    };
    Path::new(base).join(parser_name(i))
}

fn read_json(path: &Path) -> std::result::Result<Value, String> {
    serde_json::from_slice(&fs::read(path).map_err(|e| format!("{:?}: {}", path, e))?).map_err(|e| format!("{:?}: {}", path, e))
}

pub fn c19(run: &mut Run) {
    run.section(
        "histories",
        "an injected value is recognised",
        (2500, 150_000),
        1500,
        |g| {
            let spec = gen_injectable_spec(g);
            let mut before = vec![];
            let list = g.vec(1, 4, |g| gen_injection(g, &spec, &mut before));
            Injections { spec, list }
        },
        |case, obs| {
            let spec = &case.spec;
            let files = Files::new(spec);
            let mut model = Model::new(spec);
            let mut ever: BTreeMap<String, Vec<Known>> = BTreeMap::new();
            for (n, i) in case.list.iter().enumerate() {
                let what = || format!("after the injection {} {:?}", n, i);
                let before = snapshot(&files.dir);
                let given = if i.shared { Some(files.shared(spec)) } else { None };
                if let Err(e) = inject(&files.dir, i, given) {
                    return Err(format!("the injection {} {:?} fails: {:?}", n, i, e));
                }
                for (e, l) in &model.blocks {
                    ever.entry(e.clone()).or_insert_with(Vec::new).extend(l.iter().flatten().cloned());
                }
                model.inject(spec, i);
                if i.vanilla {
                    obs.label("from vanilla");
                }
                // the other files
                let after = snapshot(&files.dir);
                let concerned: Vec<PathBuf> = i.values.iter().filter(|(_, l)| !l.is_empty()).map(|(e, _)| folder(spec, e)).collect();
                for p in differences(&before, &after) {
                    ensure!(concerned.iter().any(|d| p.starts_with(d)), "{}: {:?} has changed", what(), p);
                }
                for d in &concerned {
                    let mut new = read_json(&files.dir.join(d).join("metadata.json"))?;
                    let old: Value = serde_json::from_slice(before[&d.join("metadata.json")].as_ref().unwrap()).unwrap();
                    // same number, written from a f32
                    if close(new["threshold"].as_f64().unwrap_or(-1.0) as f32, old["threshold"].as_f64().unwrap() as f32, 1e-6) {
                        new["threshold"] = old["threshold"].clone();
                    }
                    ensure!(new == old, "{}: the settings of {:?} have become {:?}", what(), d, new);
                }
                let shared = no_panic(|| files.shared(spec)).map_err(|p| format!("{}: the engine does not load: {}", what(), p))?;
                for e in model.blocks.keys() {
                    check_known(obs, &model, spec, &shared, e, &what)?;
                }
                // the ones that are forgotten
                for (e, list) in &ever {
                    for k in list {
                        if model.blocks[e].iter().flatten().any(|o| o.key == k.key) || key_of(spec, e, &k.key) != k.key || k.key.is_empty() {
                            continue;
                        }
                        obs.evals += 1;
                        let n = chars(&k.key);
                        let seen = look(&shared, spec, e, &k.key)?;
                        ensure!(
                            !seen.iter().any(|s| s.0 == (0..n)),
                            "{}: {:?} of {:?} is still recognised: {:?}", what(), k, e, seen
                        );
                        obs.label("forgotten value");
                    }
                }
                // through the engine
                let engine = load(&files.dir).map_err(|e| format!("{}: {}", what(), e))?;
                for intent in &spec.intents {
                    for (slot, entity) in intent.slots.iter().filter(|(_, e)| model.blocks.contains_key(*e)) {
                        for k in model.blocks[entity].iter().flatten() {
                            if key_of(spec, entity, &k.key) != k.key || k.key.is_empty() {
                                continue;
                            }
                            let text = k.written.clone().unwrap_or_else(|| k.key.clone());
                            let winners: Vec<&str> = model.blocks[entity]
                                .iter()
                                .map(|b| b.iter().filter(|o| o.key == k.key).map(|o| &*o.resolved).collect::<Vec<_>>())
                                .find(|l| !l.is_empty())
                                .unwrap();
                            let s = engine.extract_slot(text.clone(), &intent.name, slot).map_err(text_of)?;
                            obs.evals += 1;
                            ensure!(
                                s.as_ref().map(|s| winners.contains(&&*value_text(&s.value))).unwrap_or(false),
                                "{}: {:?} is extracted from {:?} for {:?} and not one of {:?}", what(), s, text, slot, winners
                            );
                            obs.label("extracted by the engine");
                        }
                    }
                }
            }
            Ok(())
        },
    );
}

// ---- C20

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Obstacle {
    /// an entity that nothing knows
    Unknown(String),
    /// a builtin entity that has no values
    Grammar(String),
    /// a builtin entity with values which is not in the engine
    Absent(String),
    /// a custom entity of the engine without values
    NoValues(usize),
    /// the stems are needed but the resources have none
    NoStems,
    /// a file that is not there, or with this content
    Damaged(String, Option<String>),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Refused {
    pub spec: Spec,
    pub before: Vec<Injection>,
    pub last: Injection,
    pub obstacles: Vec<Obstacle>,
}

fn gen_obstacle(g: &mut Gen, spec: &Spec) -> Obstacle {
    match g.below(8) {
        0 => Obstacle::Unknown(g.word(&["", "nothing", "snips/thing2", "snips/Number", "snips/city ", "Snips/city", "beverages"])),
        1 => Obstacle::Unknown(if g.chance(40) {
            g.string(10)
        } else {
            // nearly a name of the engine
            let e = g.pick(&injectable(spec)).clone();
            match g.below(7) {
                0 => format!("x{}", e),
                1 => format!("{}x", e),
                2 => format!(" {}", e),
                3 => e.rsplit('/').next().unwrap().to_string(),
                4 => format!("other/{}", e.rsplit('/').next().unwrap()),
                5 => e.to_uppercase(),
                _ => e.chars().take(chars(&e) - 1).collect(),
            }
        }),
        2 | 3 => Obstacle::Grammar(g.word(GRAMMAR)),
        4 => Obstacle::Absent(g.word(GAZ)),
        5 => Obstacle::NoValues(g.below(spec.entities.len())),
        6 => Obstacle::NoStems,
        _ => {
            let path = match g.below(7) {
                0 => "nlu_engine.json".to_string(),
                1 => "custom_entity_parser/metadata.json".to_string(),
                2 => "custom_entity_parser/parser/metadata.json".to_string(),
                3 => "builtin_entity_parser/metadata.json".to_string(),
                4 => format!("resources/{}/metadata.json", spec.lang),
                5 => format!("resources/{}/stemming/stems.txt", spec.lang),
                _ => format!("resources/{}/stop_words.txt", spec.lang),
            };
            let content = if g.chance(50) { None } else { Some(g.word(&["", "{", "[]", "{}", "null", "\u{0}"])) };
            Obstacle::Damaged(path, content)
        }
    }
}

/// Puts the obstacle in the way: the name that the error must say, if the injection is refused
fn put_obstacle(dir: &Path, spec: &Spec, o: &Obstacle, i: &mut Injection) -> Option<Option<String>> {
    let known = |e: &str| injectable(spec).iter().any(|x| x == e);
    match o {
        Obstacle::Unknown(e) => {
            if known(e) || is_builtin(e) {
                return None;
            }
            i.values.insert(e.clone(), vec!["value".to_string()]);
            Some(Some(e.clone()))
        }
        Obstacle::Grammar(e) => {
            i.values.insert(e.clone(), vec!["value".to_string()]);
            Some(Some(e.clone()))
        }
        Obstacle::Absent(e) => {
            if known(e) {
                return None;
            }
            i.values.insert(e.clone(), vec!["value".to_string()]);
            Some(Some(e.clone()))
        }
        Obstacle::NoValues(k) => {
            let name = spec.entities.keys().nth(*k).unwrap().clone();
            let path = dir.join("custom_entity_parser/parser/metadata.json");
            let mut m = read_json(&path).ok()?;
            m.get_mut("parsers_metadata")?.as_array_mut()?.retain(|p| p["entity_identifier"] != name);
            put(&path, &m);
            i.values.entry(name.clone()).or_insert_with(Vec::new).push("value".to_string());
            Some(Some(name))
        }
        Obstacle::NoStems => {
            if spec.usage == 1 || i.shared {
                return None;
            }
            let path = dir.join("resources").join(&spec.lang).join("metadata.json");
            let mut m = read_json(&path).ok()?;
            m.as_object_mut()?.insert("stems".to_string(), json!(null));
            put(&path, &m);
            if i.values.iter().any(|(e, v)| spec.entities.contains_key(e) && !v.is_empty()) { Some(None) } else { None }
        }
        Obstacle::Damaged(path, content) => {
            let full = dir.join(path);
            if !full.exists() {
                return None;
            }
            let _ = fs::remove_file(&full);
            if let Some(c) = content {
                fs::write(&full, c).unwrap();
            }
            let resources = path.starts_with("resources");
            if resources && (i.shared || (content.is_some() && path.ends_with(".txt"))) {
                // not read, or readable all the same
                return None;
            }
            if content.as_ref().map(|c| c == "[]" || c == "{}").unwrap_or(false) {
                // may be enough
                return None;
            }
            Some(None)
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Broken {
    pub spec: Spec,
    pub before: Vec<Injection>,
    pub last: Injection,
    pub errno: i32,
}

pub fn c20(run: &mut Run) {
    run.section(
        "refused",
        "an injection with valid values is refused",
        (3000, 150_000),
        1500,
        |g| {
            let spec = gen_injectable_spec(g);
            let mut seen = vec![];
            let before = g.vec(0, 1, |g| gen_injection(g, &spec, &mut seen));
            let mut last = gen_injection(g, &spec, &mut seen);
            if g.chance(10) {
                last.values.clear();
            }
            let obstacles = g.vec(1, 2, |g| gen_obstacle(g, &spec));
            Refused { spec, before, last, obstacles }
        },
        |case, obs| {
            let spec = &case.spec;
            let files = Files::new(spec);
            for i in &case.before {
                inject(&files.dir, i, None).map_err(|e| format!("the injection {:?} fails: {:?}", i, e))?;
            }
            let mut last = case.last.clone();
            let given = if last.shared { Some(files.shared(spec)) } else { None };
            let mut refused = vec![];
            for o in &case.obstacles {
                if let Some(name) = put_obstacle(&files.dir, spec, o, &mut last) {
                    refused.push((o, name));
                }
            }
            if refused.is_empty() {
                obs.label("left out: nothing is in the way");
                return Ok(());
            }
            let before = snapshot(&files.dir);
            let r = inject(&files.dir, &last, given);
            obs.evals += 1;
            let after = snapshot(&files.dir);
            let errors = match r {
                Ok(()) => return Err(format!("the injection {:?} is accepted in spite of {:?}", last, refused)),
                Err(e) => e,
            };
            ensure!(!errors[0].starts_with("PANIC"), "the injection {:?} with {:?}: {:?}", last, refused, errors);
            ensure!(errors.iter().any(|e| !e.is_empty()), "the error of the injection {:?} says nothing", last);
            let damaged = case.obstacles.iter().any(|o| match o {
                Obstacle::Damaged(..) => true,
                _ => false,
            });
            if !damaged && refused.iter().all(|r| r.1.is_some()) {
                // which of the entities is in the way
                ensure!(
                    refused.iter().any(|r| errors.iter().any(|e| e.contains(&*r.1.clone().unwrap()))),
                    "the injection {:?} with {:?} is refused without naming the entity: {:?}", last, refused, errors
                );
            }
            let d = differences(&before, &after);
            ensure!(d.is_empty(), "the injection {:?} with {:?} is refused ({:?}) but changes {:?}", last, refused, errors, d);
            if case.last.values.values().any(|v| !v.is_empty()) {
                obs.hit("refused");
            }
            Ok(())
        },
    );
    run.section(
        "faults",
        "an injection fails after having changed files",
        (200, 12_000),
        1500,
        |g| {
            let spec = gen_injectable_spec(g);
            let mut seen = vec![];
            let before = g.vec(0, 2, |g| gen_injection(g, &spec, &mut seen));
            let last = gen_injection(g, &spec, &mut seen);
            Broken { spec, before, last, errno: *g.pick(&[libc::ENOSPC, libc::EIO, libc::EACCES, libc::EMFILE, libc::EROFS]) }
        },
        |case, obs| {
            let spec = &case.spec;
            let files = Files::new(spec);
            let mut old = Model::new(spec);
            for i in &case.before {
                inject(&files.dir, i, None).map_err(|e| format!("the injection {:?} fails: {:?}", i, e))?;
                old.inject(spec, i);
            }
            let initial = snapshot(&files.dir);
            let mut new = old.clone();
            new.inject(spec, &case.last);
            // the number of calls
            let (r, report) = with_fault(&Fault::None, || inject(&files.dir, &case.last, None));
            if let Err(e) = r {
                return Err(format!("the injection {:?} fails: {:?}", case.last, e));
            }
            let mut faults = vec![];
            for k in 1..=report.count.min(60) {
                faults.push(Fault::At(k, case.errno));
                if k % 3 == 1 {
                    faults.push(Fault::Full(k));
                }
            }
            for fault in faults {
                let scratch = Scratch::new();
                let dir = scratch.join("engine");
                restore(&dir, &initial);
                let (r, report) = with_fault(&fault, || inject(&dir, &case.last, None));
                obs.evals += 1;
                let what = || format!("{:?} during the injection {:?} which gives {:?}", fault, case.last, r);
                if let Err(e) = &r {
                    ensure!(!e[0].starts_with("PANIC"), "{}", what());
                }
                load(&dir).map_err(|e| format!("{}: {}", what(), e))?;
                let shared = no_panic(|| shared(&dir, spec)).map_err(|p| format!("{}: the engine does not load: {}", what(), p))?;
                let mut half = false;
                for e in old.blocks.keys() {
                    let is_old = check_known(obs, &old, spec, &shared, e, &what);
                    if let (Err(why), Ok(())) = (&is_old, &r) {
                        // injected, the failure did not matter
                        check_known(obs, &new, spec, &shared, e, &what).map_err(|_| why.clone())?;
                        continue;
                    }
                    if r.is_ok() && case.last.values.contains_key(e) {
                        check_known(obs, &new, spec, &shared, e, &what)?;
                        continue;
                    }
                    if is_old.is_err() {
                        half = true;
                        ensure!(
                            case.last.values.contains_key(e) && check_known(obs, &new, spec, &shared, e, &what).is_ok(),
                            "{}", is_old.unwrap_err()
                        );
                    }
                }
                if r.is_err() && report.failed > 0 {
                    obs.hit("failed");
                    if half {
                        obs.label("other entities had been injected");
                    }
                } else if report.failed > 0 {
                    obs.label("injected in spite of the fault");
                }
            }
            Ok(())
        },
    );
}

// ---- C21

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Version {
    pub spec: Spec,
    pub version: Value,
    /// what is done to the other keys
    pub rest: u8,
    pub zipped: bool,
}

pub fn c21(run: &mut Run) {
    run.section(
        "versions",
        "another version than the supported one is refused",
        (4000, 200_000),
        1500,
        |g| {
            let spec = gen_spec(g, Want { det: 40, lookup: 40, prob: 20, many: true, max_slots: 2 });
            let supported = snips_nlu_lib::MODEL_VERSION;
            let version = match g.below(12) {
                0 | 1 => json!(supported),
                2 => json!(format!("{}{}", supported, g.word(&[" ", "0", ".0", "-rc1", "+1", "\u{0}", ".", "\n"]))),
                3 => json!(format!("{}{}", g.word(&[" ", "0", "v", "1", "\u{feff}"]), supported)),
                4 => json!(supported[..g.below(supported.len())].to_string()),
                5 => json!(g.word(&["0.19.0", "0.21.0", "0.20.1", "0.20", "1.20.0", "0.20.00", "00.20.0", "0,20,0", "0.2.0", "0.200", "٠.20.0"])),
                6 => json!(g.string(8)),
                7 => {
                    let mut v: Vec<char> = supported.chars().collect();
                    let k = g.below(v.len());
                    v[k] = *g.pick(&['0', '1', '2', '3', '.', ' ', '-']);
                    json!(v.into_iter().collect::<String>())
                }
                8 => g.pick(&[json!(null), json!(0.20), json!(20), json!(true), json!([supported]), json!({"v": supported})]).clone(),
                9 => json!(format!("{}.{}.{}", g.below(3), g.below(40), g.below(3))),
                10 => json!(supported.to_uppercase() + "\u{200b}"),
                _ => json!("absent"),
            };
            Version { spec, version, rest: g.below(8) as u8, zipped: g.chance(30) }
        },
        |case, obs| {
            let supported = snips_nlu_lib::MODEL_VERSION;
            let files = Files::new(&case.spec);
            let path = files.dir.join("nlu_engine.json");
            let mut model = read_json(&path)?;
            let map = model.as_object_mut().unwrap();
            let absent = case.version == json!("absent");
            if absent {
                map.remove("model_version");
            } else {
                map.insert("model_version".to_string(), case.version.clone());
            }
            let keys: Vec<String> = map.keys().filter(|k| *k != "model_version").cloned().collect();
            let mut whole = true;
            match case.rest {
                0 => {
                    for k in &keys {
                        map.remove(k);
                    }
                    whole = false;
                }
                1 => {
                    for k in &keys {
                        map.insert(k.clone(), json!([1, {"a": null}]));
                    }
                    whole = false;
                }
                2 => {
                    map.insert("training_package_version".to_string(), json!("0.1.0"));
                }
                3 => {
                    map.insert("more".to_string(), json!({"model_version": "0.1.0"}));
                }
                4 => {
                    fs::remove_dir_all(files.dir.join("resources")).unwrap();
                    whole = false;
                }
                _ => {}
            }
            put(&path, &model);
            let r = if case.zipped {
                let zip = archive("engine", &files.dir, &Shape::default());
                no_panic(|| snips_nlu_lib::SnipsNluEngine::from_zip(std::io::Cursor::new(zip)))
            } else {
                no_panic(|| snips_nlu_lib::SnipsNluEngine::from_path(&files.dir))
            }?;
            obs.evals += 1;
            let what = format!("model version {:?} (rest: {})", case.version, case.rest);
            let same = case.version == json!(supported);
            match r {
                Ok(_) => ensure!(same && whole, "an engine with {} is loaded", what),
                Err(e) => {
                    ensure!(!(same && whole), "an engine with {} is refused: {}", what, e);
                    let said: Vec<String> = e.iter_chain().map(|c| c.to_string()).collect();
                    if let Some(v) = case.version.as_str().filter(|_| !absent && !same) {
                        ensure!(
                            said.iter().any(|s| s.contains(supported) && s.contains(v)),
                            "an engine with {} is refused without naming both versions: {:?}", what, said
                        );
                        // both, and not twice the same
                        if !v.contains(supported) && !supported.contains(v) {
                            obs.label("quite another version");
                        }
                    }
                    if !same {
                        obs.hit("refused");
                    }
                }
            }
            Ok(())
        },
    );
}

// ---- C23

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Shape {
    /// keys to sort the entries by, in turn
    pub order: Vec<u32>,
    pub dirs: bool,
    /// which entries are not compressed, in turn
    pub stored: Vec<bool>,
    /// other entries, after the others
    pub more: Vec<(String, String)>,
    /// write `root\file` for `root/file`
    pub backslash: bool,
}

fn entry<W: std::io::Write + std::io::Seek>(zip: &mut zip::ZipWriter<W>, name: &str, content: Option<&[u8]>, stored: bool) {
    use std::io::Write;
    let method = if stored { zip::CompressionMethod::Stored } else { zip::CompressionMethod::Deflated };
    let options = zip::write::FileOptions::default().compression_method(method);
    match content {
        None => zip.add_directory(name.to_string(), options).unwrap(),
        Some(c) => {
            zip.start_file(name.to_string(), options).unwrap();
            zip.write_all(c).unwrap();
        }
    }
}

/// The archive of a folder
pub fn zip_of(dir: &Path) -> Vec<u8> {
    archive("engine", dir, &Shape::default())
}

pub fn archive(root: &str, dir: &Path, shape: &Shape) -> Vec<u8> {
    let mut list: Vec<(PathBuf, Option<Vec<u8>>)> = snapshot(dir).into_iter().collect();
    if shape.dirs {
        list.insert(0, (PathBuf::new(), None));
    } else {
        list.retain(|e| e.1.is_some());
    }
    if !shape.order.is_empty() {
        let mut keyed: Vec<_> = list.into_iter().enumerate().map(|(i, e)| (shape.order[i % shape.order.len()], e)).collect();
        keyed.sort_by_key(|k| k.0);
        list = keyed.into_iter().map(|k| k.1).collect();
    }
    let mut zip = zip::ZipWriter::new(std::io::Cursor::new(vec![]));
    let sep = if shape.backslash { "\\" } else { "/" };
    for (i, (path, content)) in list.iter().enumerate() {
        let mut name = root.to_string();
        for c in path.components() {
            name += sep;
            name += c.as_os_str().to_str().unwrap();
        }
        let stored = !shape.stored.is_empty() && shape.stored[i % shape.stored.len()];
        entry(&mut zip, &name, content.as_ref().map(|c| &**c), stored);
    }
    for (name, content) in &shape.more {
        entry(&mut zip, name, Some(content.as_bytes()), false);
    }
    zip.finish().unwrap().into_inner()
}

fn gen_shape(g: &mut Gen) -> Shape {
    Shape {
        order: g.vec(0, 25, |g| g.draw()),
        dirs: g.chance(50),
        stored: g.vec(0, 6, |g| g.chance(50)),
        more: if g.chance(20) {
            vec![(g.word(&["__MACOSX/._engine", "README", "other/nlu_engine.json", "z/resources/en/metadata.json"]), g.string(10))]
        } else {
            vec![]
        },
        backslash: g.chance(8),
    }
}

fn gen_root(g: &mut Gen) -> String {
    let name = match g.below(6) {
        0 => "engine".to_string(),
        1 => g.word(&["my engine", "nlu_engine", "été", "エンジン", "a.b", "...", "..x", "x..", "~", "-", "C:", "*", "%2e%2e", " ", "nlu_engine.json", "resources", "\u{1f600}"]),
        2 => "n".repeat(g.range(1, 200)),
        _ => g.string(20),
    };
    let name: String = name.chars().filter(|c| !"/\\\0".contains(*c)).collect();
    if name.is_empty() || name == "." || name == ".." || name.len() > 255 { "engine".to_string() } else { name }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Zipped {
    pub case: Case,
    pub calls: Vec<Call>,
    pub root: String,
    pub shape: Shape,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum NotEngine {
    Bytes(Vec<u8>),
    /// an archive of these entries
    Entries(Vec<(String, Option<String>)>),
    /// an engine without this file, among the ones always needed
    Without(usize),
    /// the first bytes of the archive of an engine, in thousandths
    Truncated(usize),
    /// other bytes at some places, in thousandths
    Flipped(Vec<(usize, u8)>),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct NoEngine {
    pub spec: Spec,
    pub root: String,
    pub shape: Shape,
    pub kind: NotEngine,
}

const ALWAYS: &[&str] = &[
    "nlu_engine.json", "custom_entity_parser/metadata.json", "builtin_entity_parser/metadata.json",
    "custom_entity_parser/parser/metadata.json", "resources/%/metadata.json",
];

fn from_zip(zip: Vec<u8>) -> std::result::Result<std::result::Result<snips_nlu_lib::SnipsNluEngine, Vec<String>>, String> {
    no_panic(|| snips_nlu_lib::SnipsNluEngine::from_zip(std::io::Cursor::new(zip)))
        .map(|r| r.map_err(|e| e.iter_chain().map(|c| c.to_string()).collect()))
}

pub fn c23(run: &mut Run) {
    run.section(
        "archives",
        "the engines of the archive and of the folder return slots or alternatives",
        (2500, 120_000),
        1500,
        |g| {
            let case = gen_case(g, ANY, (2, 4));
            let calls = g.vec(3, 8, |g| gen_call(g, &case));
            Zipped { case, calls, root: gen_root(g), shape: gen_shape(g) }
        },
        |z, obs| {
            let e = open(&z.case.spec)?;
            let zip = archive(&z.root, &e.files.dir, &z.shape);
            let other = match from_zip(zip)? {
                Ok(e) => e,
                Err(e) => return Err(format!("the archive {:?} {:?} does not load: {:?}", z.root, z.shape, e)),
            };
            for c in &z.calls {
                let a = call(&e.engine, &z.case.texts, c);
                let b = call(&other, &z.case.texts, c);
                obs.evals += 1;
                match agree(&a, &b) {
                    Same::No(why) => return Err(format!("{:?} from the folder and from the archive: different {}: {:?} and {:?}", c, why, a, b)),
                    Same::Near => obs.label("left out: rounding decides"),
                    Same::Yes => {}
                }
                match &a {
                    Answer::Parse(r) if !r.slots.is_empty() || !r.alternatives.is_empty() => obs.hit("rich"),
                    Answer::Slots(s) if !s.is_empty() => obs.hit("rich"),
                    _ => {}
                }
            }
            Ok(())
        },
    );
    run.section(
        "no engine",
        "the data is refused",
        (3000, 150_000),
        1500,
        |g| {
            let spec = gen_spec(g, Want { det: 50, lookup: 50, prob: 40, many: true, max_slots: 2 });
            let kind = match g.below(5) {
                0 => NotEngine::Bytes({
                    let mut b: Vec<u8> = g.vec(0, 60, |g| g.draw() as u8);
                    if g.chance(40) {
                        b.splice(0..0, b"PK\x03\x04".iter().cloned());
                    }
                    if g.chance(40) {
                        b.extend(b"PK\x05\x06");
                        b.extend(g.vec(0, 24, |g| if g.chance(70) { 0 } else { g.draw() as u8 }));
                    }
                    b
                }),
                1 => NotEngine::Entries(g.vec(0, 3, |g| {
                    let name = g.word(&["", "/", "a", "a/", "a/b", "..", "../", "nlu_engine.json", "\\", "a\\", "./", "é/é", "."]);
                    (name, if g.chance(30) { None } else { Some(g.string(8)) })
                })),
                2 => NotEngine::Without(g.below(ALWAYS.len())),
                3 => NotEngine::Truncated(g.below(1000)),
                _ => NotEngine::Flipped(g.vec(1, 4, |g| (g.below(1000), g.draw() as u8))),
            };
            NoEngine { spec, root: gen_root(g), shape: gen_shape(g), kind }
        },
        |case, obs| {
            let files = Files::new(&case.spec);
            let mut may_load = false;
            let zip = match &case.kind {
                NotEngine::Bytes(b) => b.clone(),
                NotEngine::Entries(list) => {
                    let mut zip = zip::ZipWriter::new(std::io::Cursor::new(vec![]));
                    for (name, content) in list {
                        entry(&mut zip, name, content.as_ref().map(|c| c.as_bytes()), false);
                    }
                    zip.finish().unwrap().into_inner()
                }
                NotEngine::Without(k) => {
                    fs::remove_file(files.dir.join(ALWAYS[*k].replace('%', &case.spec.lang))).unwrap();
                    archive(&case.root, &files.dir, &case.shape)
                }
                NotEngine::Truncated(k) => {
                    let mut zip = archive(&case.root, &files.dir, &case.shape);
                    zip.truncate(zip.len() * k / 1000);
                    zip
                }
                NotEngine::Flipped(list) => {
                    may_load = true;
                    let mut zip = archive(&case.root, &files.dir, &case.shape);
                    let n = zip.len();
                    for (at, v) in list {
                        // the end, where the names and sizes are, as often as the rest
                        let at = if at % 2 == 0 { n * at / 1000 } else { n - 1 - (at * 3) % (n.min(3000)) };
                        zip[at] = *v;
                    }
                    zip
                }
            };
            obs.evals += 1;
            match from_zip(zip).map_err(|p| format!("loading {:?}: {}", case.kind, p))? {
                Ok(_) => ensure!(may_load, "{:?} is loaded as an engine", case.kind),
                Err(e) => {
                    ensure!(e.iter().any(|m| !m.is_empty()), "the error of {:?} says nothing", case.kind);
                    obs.hit("refused")
                }
            }
            Ok(())
        },
    );
}

// ---- C24

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Hostile {
    pub spec: Option<Spec>,
    pub root: String,
    pub shape: Shape,
    /// name, content or folder, position
    pub entries: Vec<(String, Option<String>, usize)>,
}

fn gen_name(g: &mut Gen) -> String {
    let mut up = 0;
    let mut name = String::new();
    match g.below(8) {
        0 => name += "/",
        1 => name += "\\",
        // replaced by a folder of the scratch folder
        2 => name += "<SCRATCH>/",
        3 => name += "//",
        _ => {}
    }
    for k in 0..g.range(0, 5) {
        if k > 0 {
            name += &g.word(&["/", "/", "/", "\\", "//", "/./"]);
        }
        let part = match g.below(9) {
            0 | 1 | 2 if up < 4 => {
                up += 1;
                "..".to_string()
            }
            3 => ".".to_string(),
            4 => "engine".to_string(),
            5 => g.word(&["nlu_engine.json", "...", "a\0b", "C:", "..\0", " ", "x".repeat(300).as_str(), "\0"]),
            6 => g.string(6),
            _ => g.word(&["a", "b", "victim", "é"]),
        };
        name += &part;
    }
    // no more parents than the folders of the scratch folder
    while name.matches("..").count() > 4 {
        name = name.replacen("..", "", 1);
    }
    if g.chance(20) {
        name += &g.word(&["/", "\\"]);
    }
    name
}

pub fn c24(run: &mut Run) {
    // escapes stay in the scratch folder, whatever the calls they use
    let base = PathBuf::from(std::env::var("VP_SCRATCH").unwrap_or_else(|_| std::env::temp_dir().to_str().unwrap().to_string()));
    let temp = base.join("t1/t2/t3/t4/t5");
    fs::create_dir_all(&temp).unwrap();
    std::env::set_var("TMPDIR", &temp);
    for up in ["victim", "../victim", "../../victim", "../../../victim"] {
        fs::write(temp.join(up), "victim").unwrap();
    }
    // the stand-ins do refuse
    let (r, report) = with_jail(&temp, || fs::write(base.join("refused"), "x"));
    assert!(r.is_err() && report.outside.len() == 1 && !base.join("refused").exists(), "no stand-in of the system calls");
    let before = snapshot(&base.join("t1"));
    run.section(
        "names",
        "an entry has a name that leads out of the folder",
        (6000, 300_000),
        1500,
        |g| {
            let spec = if g.chance(50) { Some(gen_spec(g, Want { det: 50, lookup: 30, prob: 20, many: true, max_slots: 2 })) } else { None };
            let entries = g.vec(1, 4, |g| {
                let name = gen_name(g);
                let content = if g.chance(25) { None } else { Some(g.string(8)) };
                (name, content, g.below(40))
            });
            Hostile { spec, root: gen_root(g), shape: gen_shape(g), entries }
        },
        |case, obs| {
            // the entries, at their places
            let mut list: Vec<(String, Option<Vec<u8>>)> = vec![];
            let files = case.spec.as_ref().map(|s| Files::new(s));
            if let Some(f) = &files {
                for (path, content) in snapshot(&f.dir) {
                    if content.is_some() || case.shape.dirs {
                        list.push((format!("{}/{}", case.root, path.display()), content));
                    }
                }
            }
            let scratch = std::env::var("VP_SCRATCH").unwrap_or_default() + "/t1/t2/abs";
            for (name, content, at) in &case.entries {
                let name = name.replace("<SCRATCH>", &scratch);
                let at = (*at).min(list.len());
                if plain(Path::new(&format!("/a/b/c/{}", name.replace('\\', "/")))).starts_with("/a/b/c") {
                    obs.label("inside");
                } else {
                    obs.hit("outside");
                }
                list.insert(at, (name, content.as_ref().map(|c| c.clone().into_bytes())));
            }
            let mut zip = zip::ZipWriter::new(std::io::Cursor::new(vec![]));
            for (i, (name, content)) in list.iter().enumerate() {
                let stored = !case.shape.stored.is_empty() && case.shape.stored[i % case.shape.stored.len()];
                entry(&mut zip, name, content.as_ref().map(|c| &**c), stored);
            }
            let data = zip.finish().unwrap().into_inner();
            let jail = PathBuf::from(std::env::var("TMPDIR").unwrap());
            let (r, report) = with_jail(&jail, || from_zip(data));
            obs.evals += 1;
            let names = || list.iter().map(|e| e.0.clone()).take(12).collect::<Vec<_>>();
            ensure!(report.outside.is_empty(), "loading an archive of {:?} tries to change {:?}", names(), report.outside);
            ensure!(!report.made.is_empty(), "nothing has been recorded");
            let left: Vec<_> = report.made.iter().filter(|d| fs::symlink_metadata(d).is_ok()).collect();
            ensure!(left.is_empty(), "after loading an archive of {:?}, {:?} is left", names(), left);
            match r.map_err(|p| format!("loading an archive of {:?}: {}", names(), p))? {
                Ok(_) => obs.label("loaded"),
                Err(_) => obs.label("refused"),
            }
            Ok(())
        },
    );
    run.section(
        "scratch folder",
        "the folder is as it was",
        (1, 1),
        1,
        |_| 0u8,
        |_, obs| {
            let d = differences(&before, &snapshot(&base.join("t1")));
            ensure!(d.is_empty(), "{:?} has been changed", d);
            obs.hit("unchanged");
            Ok(())
        },
    );
}
