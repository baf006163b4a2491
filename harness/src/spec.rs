//! Descriptions of generated engines, their generator, and their files.
use crate::core::Gen;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use snips_nlu_ontology::{BuiltinEntityKind, BuiltinGazetteerEntityKind};
use snips_nlu_utils::language::Language as L;
use snips_nlu_utils::string::{hash_str_to_i32, normalize};
use snips_nlu_utils::token::tokenize_light;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::{Path, PathBuf};
use std::str::FromStr;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Spec {
    pub lang: String,
    pub entities: BTreeMap<String, Ent>,
    /// values of the builtin gazetteer entities; no gazetteer parser at all if absent
    pub gaz: Option<BTreeMap<String, Ent>>,
    /// 0: with stems, 1: without, 2: both
    pub usage: u8,
    pub intents: Vec<Intent>,
    pub res: Res,
    pub parsers: Vec<Parser>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Ent {
    pub extensible: bool,
    pub threshold: f32,
    /// (raw, resolved)
    pub values: Vec<(String, String)>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Intent {
    pub name: String,
    pub slots: BTreeMap<String, String>,
    pub utterances: Vec<Vec<Chunk>>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Chunk {
    T(String),
    S(String, String),
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Res {
    pub stop_words: Option<Vec<String>>,
    pub stems: Option<Vec<Vec<String>>>,
    pub gazetteers: BTreeMap<String, Vec<String>>,
    pub clusters: BTreeMap<String, Vec<(String, String)>>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Parser {
    Det(Det),
    Lookup(Lookup),
    Prob(Prob),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Item {
    W(String),
    S { slot: String, literals: Vec<String>, placeholder: bool },
    /// beginning of a group around other items, up to its End
    Begin(String),
    End,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Det {
    pub ignore: bool,
    pub whitelist: BTreeMap<String, Vec<String>>,
    pub patterns: BTreeMap<String, Vec<Vec<Item>>>,
    /// group i names slot groups[i]
    pub groups: Vec<String>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Lookup {
    pub ignore: bool,
    pub whitelist: BTreeMap<String, Vec<String>>,
    /// canonical text, intent, slots
    pub entries: Vec<(String, usize, Vec<String>)>,
    /// intents, builtin scope, custom scope
    pub scopes: Vec<(Vec<String>, Vec<String>, Vec<String>)>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Prob {
    pub classifier: Classifier,
    pub fillers: BTreeMap<String, Filler>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Classifier {
    pub intents: Vec<Option<String>>,
    pub featurizer: Option<Featurizer>,
    pub intercept: Option<Vec<f32>>,
    pub coeffs: Option<Vec<Vec<f32>>>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Featurizer {
    pub tfidf: Tfidf,
    pub cooc: Option<Cooc>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Tfidf {
    pub scope: Vec<String>,
    /// the index of a word is its position
    pub vocab: Vec<String>,
    pub idf: Vec<f32>,
    pub stem: bool,
    pub clusters: Option<String>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Cooc {
    pub scope: Vec<String>,
    pub pairs: Vec<(String, String)>,
    pub window: Option<usize>,
    pub stop: bool,
    pub order: bool,
    pub unknown: Option<String>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Filler {
    pub slots: BTreeMap<String, String>,
    pub scheme: u8,
    pub factories: Vec<Factory>,
    pub crf: Option<Crf>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Factory {
    pub name: String,
    pub offsets: Vec<i32>,
    pub args: Map<String, Value>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Crf {
    pub labels: Vec<String>,
    pub state: Vec<(String, usize, f64)>,
    pub trans: Vec<(usize, usize, f64)>,
}

pub const WORDS: &[&str] = &[
    "make", "me", "a", "the", "coffee", "tea", "cup", "cups", "of", "please", "turn", "on", "light", "lights",
    "room", "play", "café", "naïve", "été", "two", "three", "tomorrow", "week", "in", "hot", "big", "it's", "3",
    "straße", "İzmir", "tokyo", "light_bulb", "$", "Paris", "MAKE",
];
pub const VALUE_WORDS: &[&str] = &[
    "espresso", "black", "coffee", "green", "tea", "living", "room", "kitchen", "red", "blue", "hot", "two",
    "café", "été", "İzmir", "x2", "la", "light", "3", "ñandú", "?",
];
pub const JA_WORDS: &[&str] = &["コーヒー", "お茶", "部屋", "点けて", "を", "2", "two", "明日", "cup", "赤"];
pub const ENTITY_NAMES: &[&str] = &["beverage", "room", "Color_name", "dummy_entity_1", "snips/thing", "été", "x-y", "straße"];
pub const SLOT_NAMES: &[&str] = &["drink", "where", "slot_a", "Number", "b", "when it is", "ß", "e-f", "g.h", "r2"];
pub const INTENT_NAMES: &[&str] = &["MakeCoffee", "turn light", "été", "Play", "a_b"];
pub const GRAMMAR: &[&str] = &[
    "snips/number", "snips/ordinal", "snips/percentage", "snips/temperature", "snips/amountOfMoney",
    "snips/duration", "snips/date", "snips/time", "snips/datePeriod", "snips/timePeriod", "snips/datetime",
];
pub const GAZ: &[&str] = &["snips/city", "snips/musicArtist", "snips/country", "snips/region", "snips/musicTrack", "snips/musicAlbum"];

pub fn lang(spec: &str) -> L {
    L::from_str(spec).unwrap()
}

pub fn is_builtin(entity: &str) -> bool {
    BuiltinEntityKind::from_identifier(entity).is_ok()
}

pub fn builtin_text(g: &mut Gen, kind: &str) -> String {
    let list: &[&str] = match kind {
        "snips/number" => &["two", "3", "twenty one", "4.5", "hundred"],
        "snips/ordinal" => &["third", "2nd", "first"],
        "snips/percentage" => &["20 %", "three percent", "5%"],
        "snips/temperature" => &["10 degrees", "two degrees celsius"],
        "snips/amountOfMoney" => &["5 dollars", "ten euros", "3$"],
        "snips/duration" => &["3 hours", "two weeks", "one minute", "4 years", "2 quarters", "five months", "6 days", "30 seconds"],
        "snips/date" => &["tomorrow", "monday", "wednesday", "thursday", "friday", "saturday"],
        "snips/time" => &["noon", "at 5 pm", "8am"],
        "snips/datePeriod" => &["this week", "next month"],
        "snips/timePeriod" => &["this morning", "tomorrow evening"],
        "snips/datetime" => &["tomorrow at noon", "now", "in two hours", "this week", "friday", "thursday"],
        _ => &["paris"],
    };
    g.word(list)
}

pub fn canonical(text: &str, l: L) -> String {
    tokenize_light(&text.to_lowercase(), l).join(" ")
}

pub fn placeholder(entity: &str) -> String {
    format!("%{}%", tokenize_light(entity, L::EN).join("").to_uppercase())
}

fn values(g: &mut Gen, words: &[&str], l: L) -> Vec<(String, String)> {
    let mut out: Vec<(String, String)> = vec![];
    for _ in 0..g.range(1, 5) {
        let n = g.range(1, 3);
        let resolved: Vec<String> = (0..n).map(|_| g.word(words)).collect();
        let resolved = match g.below(6) {
            0 => resolved.join(" ").to_uppercase(),
            1 => format!("{}!", resolved.join("-")),
            _ => resolved.join(" "),
        };
        let raw = canonical(&resolved, l);
        if raw.is_empty() {
            continue;
        }
        out.push((raw, resolved.clone()));
        if g.chance(30) {
            // a synonym
            let raw = canonical(&g.word(words), l);
            if !raw.is_empty() {
                out.push((raw, resolved));
            }
        }
    }
    if out.is_empty() {
        out.push(("espresso".to_string(), "Espresso".to_string()));
    }
    if g.chance(6) {
        // one text for many values
        let raw = g.pick(&out).0.clone();
        for i in 0..g.range(4, 9) {
            out.push((raw.clone(), format!("{} {}", raw, i)));
        }
    }
    out
}

fn ent(g: &mut Gen, words: &[&str], l: L) -> Ent {
    Ent {
        extensible: g.chance(50),
        threshold: *g.pick(&[1.0f32, 1.0, 0.6, 0.4]),
        values: values(g, words, l),
    }
}

pub fn stem_of(res: &Res, value: &str) -> String {
    let n = normalize(value);
    let mut found = None;
    for line in res.stems.iter().flatten() {
        if line[1..].contains(&n) {
            found = Some(line[0].clone());
        }
    }
    found.unwrap_or_else(|| value.to_string())
}

/// What a generated engine must contain
#[derive(Clone, Copy)]
pub struct Want {
    pub det: usize,
    pub lookup: usize,
    pub prob: usize,
    /// chance of each of the parsers above to be there, in percent
    pub many: bool,
    pub max_slots: usize,
}

pub const ANY: Want = Want { det: 60, lookup: 60, prob: 60, many: true, max_slots: 3 };
pub const DET: Want = Want { det: 100, lookup: 0, prob: 0, many: false, max_slots: 3 };
pub const LOOKUP: Want = Want { det: 0, lookup: 100, prob: 0, many: false, max_slots: 3 };
pub const PROB: Want = Want { det: 0, lookup: 0, prob: 100, many: false, max_slots: 3 };

pub fn gen_spec(g: &mut Gen, want: Want) -> Spec {
    let lang_code = if g.chance(25) { g.word(&["fr", "ja", "pt_br", "de", "es", "it", "ko", "pt_pt"]) } else { "en".to_string() };
    let l = lang(&lang_code);
    let words: &[&str] = if lang_code == "ja" { JA_WORDS } else { WORDS };
    let value_words: &[&str] = if lang_code == "ja" { JA_WORDS } else { VALUE_WORDS };
    let mut entities = BTreeMap::new();
    for _ in 0..g.range(1, 3) {
        entities.insert(g.word(ENTITY_NAMES), ent(g, value_words, l));
    }
    let gaz = if g.chance(60) {
        let mut map = BTreeMap::new();
        for _ in 0..g.range(0, 2) {
            map.insert(g.word(GAZ), ent(g, value_words, l));
        }
        Some(map)
    } else {
        None
    };
    let mut res = Res::default();
    if g.chance(75) {
        let mut list: Vec<String> = g.vec(0, 5, |g| normalize(&g.word(words)));
        if g.chance(20) {
            list.push(g.word(&["", " the", "The", "two", "rare_word"]));
        }
        res.stop_words = Some(list);
    }
    if g.chance(75) {
        res.stems = Some(g.vec(0, 5, |g| {
            let stem = normalize(&g.word(words));
            let mut line = vec![stem];
            for _ in 0..g.range(1, 3) {
                line.push(normalize(&g.word(words)));
            }
            line
        }));
    }
    for _ in 0..g.range(0, 2) {
        let name = g.word(&["top_words", "frequent", "été"]);
        res.gazetteers.insert(name, g.vec(0, 8, |g| normalize(&g.word(words))));
    }
    for _ in 0..g.range(0, 2) {
        let name = g.word(&["brown", "kmeans"]);
        res.clusters.insert(
            name,
            g.vec(0, 8, |g| {
                let w = if g.chance(30) {
                    let n = if g.chance(30) { 3 } else { 2 };
                    (0..n).map(|_| g.word(words)).collect::<Vec<_>>().join(" ").to_lowercase()
                } else {
                    g.word(words).to_lowercase()
                };
                (w, g.word(&["1", "2", "12", "0x", "cluster_a", "70000", "001"]))
            }),
        );
    }
    let usage = if res.stems.is_some() { g.below(3) as u8 } else { 1 };
    if usage != 1 {
        for e in entities.values_mut() {
            let stemmed: Vec<(String, String)> = e
                .values
                .iter()
                .map(|(raw, resolved)| {
                    let raw = tokenize_light(raw, l).iter().map(|t| stem_of(&res, t)).collect::<Vec<_>>().join(" ");
                    (raw, resolved.clone())
                })
                .collect();
            if usage == 0 {
                e.values = stemmed;
            } else {
                for v in stemmed {
                    if !e.values.contains(&v) {
                        e.values.push(v);
                    }
                }
            }
        }
    }
    // intents
    let mut pool: Vec<String> = entities.keys().cloned().collect();
    pool.extend(gaz.iter().flatten().map(|(k, _)| k.clone()));
    for _ in 0..g.range(0, 3) {
        pool.push(g.word(GRAMMAR));
    }
    let mut names: Vec<String> = vec![];
    for _ in 0..g.range(1, 4) {
        let n = g.word(INTENT_NAMES);
        if !names.contains(&n) {
            names.push(n);
        }
    }
    let mut intents: Vec<Intent> = vec![];
    for name in names {
        let mut slots = BTreeMap::new();
        for _ in 0..g.range(0, want.max_slots) {
            let slot = g.word(SLOT_NAMES);
            let entity = g.pick(&pool).clone();
            slots.insert(slot, entity);
        }
        let mut utterances = vec![];
        for _ in 0..g.range(1, 4) {
            utterances.push(utterance(g, words, &slots, &entities, &gaz));
        }
        if let (Some(other), true) = (intents.last(), g.chance(20)) {
            // the same words in two intents
            let u = g.pick(&other.utterances).clone();
            let u: Vec<Chunk> = u
                .into_iter()
                .map(|c| match c {
                    Chunk::S(s, t) => {
                        if slots.get(&s) == other.slots.get(&s) { Chunk::S(s, t) } else { Chunk::T(t) }
                    }
                    c => c,
                })
                .collect();
            utterances.push(u);
        }
        intents.push(Intent { name, slots, utterances });
    }
    let mut spec = Spec { lang: lang_code, entities, gaz, usage, intents, res, parsers: vec![] };
    let mut parsers = vec![];
    if g.chance(want.det) {
        parsers.push(Parser::Det(gen_det(g, &spec)));
    }
    if g.chance(want.lookup) {
        parsers.push(Parser::Lookup(gen_lookup(g, &spec)));
    }
    if g.chance(want.prob) {
        parsers.push(Parser::Prob(gen_prob(g, &spec)));
    }
    if want.many {
        if g.chance(10) && want.det > 0 {
            parsers.push(Parser::Det(gen_det(g, &spec)));
        }
        g.shuffle(&mut parsers);
    }
    spec.parsers = parsers;
    spec
}

fn utterance(
    g: &mut Gen,
    words: &[&str],
    slots: &BTreeMap<String, String>,
    entities: &BTreeMap<String, Ent>,
    gaz: &Option<BTreeMap<String, Ent>>,
) -> Vec<Chunk> {
    let mut out = vec![];
    let names: Vec<String> = slots.keys().cloned().collect();
    for _ in 0..g.range(1, 5) {
        if !names.is_empty() && g.chance(45) {
            let slot = g.pick(&names).clone();
            let text = slot_text(g, &slots[&slot], entities, gaz);
            out.push(Chunk::S(slot, text));
        } else {
            let n = g.range(1, 2);
            out.push(Chunk::T((0..n).map(|_| g.word(words)).collect::<Vec<_>>().join(" ")));
        }
    }
    out
}

pub fn slot_text(
    g: &mut Gen,
    entity: &str,
    entities: &BTreeMap<String, Ent>,
    gaz: &Option<BTreeMap<String, Ent>>,
) -> String {
    if let Some(e) = entities.get(entity).or_else(|| gaz.as_ref().and_then(|m| m.get(entity))) {
        g.pick(&e.values).0.clone()
    } else {
        builtin_text(g, entity)
    }
}

fn whitelist(g: &mut Gen, spec: &Spec) -> BTreeMap<String, Vec<String>> {
    let mut map = BTreeMap::new();
    for i in &spec.intents {
        if g.chance(35) {
            let list = spec.res.stop_words.clone().unwrap_or_default();
            map.insert(i.name.clone(), g.subset(&list, 50));
        }
    }
    map
}

/// the stop words that are ignored for an intent
pub fn ignored(spec: &Spec, ignore: bool, whitelist: &BTreeMap<String, Vec<String>>, intent: &str) -> BTreeSet<String> {
    if !ignore {
        return BTreeSet::new();
    }
    let except = whitelist.get(intent);
    spec.res
        .stop_words
        .iter()
        .flatten()
        .filter(|w| !w.is_empty() && !except.map(|e| e.contains(w)).unwrap_or(false))
        .cloned()
        .collect()
}

pub fn gen_det(g: &mut Gen, spec: &Spec) -> Det {
    let l = lang(&spec.lang);
    let ignore = g.chance(50);
    let wl = whitelist(g, spec);
    let mut groups: Vec<String> = vec![];
    for i in &spec.intents {
        for s in i.slots.keys() {
            if !groups.contains(s) {
                groups.push(s.clone());
            }
        }
    }
    let mut patterns = BTreeMap::new();
    for i in &spec.intents {
        let stop = ignored(spec, ignore, &wl, &i.name);
        let mut list = vec![];
        for u in &i.utterances {
            if g.chance(15) {
                continue;
            }
            let mut items = vec![];
            for c in u {
                match c {
                    Chunk::T(t) => {
                        for tok in tokenize_light(t, l) {
                            if !stop.contains(&normalize(&tok)) && !tok.contains('%') {
                                items.push(Item::W(tok));
                            }
                        }
                    }
                    Chunk::S(slot, text) => {
                        let mut literals = vec![];
                        let style = g.below(4);
                        if style == 1 || style == 2 {
                            literals.push(text.clone());
                            if let Some(e) = spec.entities.get(&i.slots[slot]) {
                                for (raw, _) in &e.values {
                                    if g.chance(60) && !literals.contains(raw) {
                                        literals.push(raw.clone());
                                    }
                                }
                            }
                            if g.chance(30) {
                                // a value the entity parsers do not know
                                literals.push(g.word(&["attic", "zz top", "tic", "été", "room 12"]));
                            }
                            literals.retain(|v| !v.is_empty() && !v.contains('%'));
                        }
                        let placeholder = style != 2 || literals.is_empty();
                        items.push(Item::S { slot: slot.clone(), literals, placeholder });
                    }
                }
            }
            if g.chance(25) {
                split_value(g, u, &mut items);
            }
            if !items.is_empty() && !i.slots.is_empty() && g.chance(12) {
                // groups in groups
                for _ in 0..g.range(1, 2) {
                    let slot = g.pick(&i.slots.keys().cloned().collect::<Vec<_>>()).clone();
                    let from = g.below(items.len());
                    let to = g.range(from + 1, items.len());
                    let depth = |n: usize| {
                        let opened = items[..n].iter().filter(|i| matches!(i, Item::Begin(_))).count();
                        opened - items[..n].iter().filter(|i| matches!(i, Item::End)).count()
                    };
                    if (from..=to).all(|n| depth(n) >= depth(from)) && depth(from) == depth(to) {
                        items.insert(to, Item::End);
                        items.insert(from, Item::Begin(slot));
                    }
                }
            }
            if !items.is_empty() {
                list.push(items);
            }
        }
        patterns.insert(i.name.clone(), list);
    }
    Det { ignore, whitelist: wl, patterns, groups }
}

/// Two neighbouring slots, where the first one is also the beginning of its value, and the second
/// one what follows: a text can then be read in two ways
fn split_value(g: &mut Gen, utterance: &[Chunk], items: &mut [Item]) {
    let texts: Vec<(&String, &String)> = utterance
        .iter()
        .filter_map(|c| match c {
            Chunk::S(slot, text) => Some((slot, text)),
            Chunk::T(_) => None,
        })
        .collect();
    for n in 1..items.len() {
        let before = items[..n - 1].iter().filter(|i| matches!(i, Item::S { .. })).count();
        let (left, right) = items.split_at_mut(n);
        if let (Item::S { literals: a, placeholder: pa, .. }, Item::S { literals: b, placeholder: pb, .. }) =
            (&mut left[n - 1], &mut right[0])
        {
            let first = texts[before].1;
            if let Some(space) = first.find(' ') {
                let (head, tail) = (first[..space].to_string(), first[space..].trim().to_string());
                if head.is_empty() || tail.is_empty() || first.contains('%') {
                    continue;
                }
                a.insert(0, head);
                b.insert(0, format!("{} {}", tail, texts[before + 1].1));
                *pa = true;
                *pb = *pb || g.chance(50);
                if !b.contains(texts[before + 1].1) && !texts[before + 1].1.contains('%') {
                    b.push(texts[before + 1].1.clone());
                }
                b.retain(|t| !t.trim().is_empty() && !t.contains('%') && t.trim() == t);
            }
        }
    }
}

pub fn det_regex(spec: &Spec, det: &Det, intent: &str, items: &[Item]) -> String {
    let slots = &spec.intents.iter().find(|i| i.name == intent).unwrap().slots;
    let mut counts: BTreeMap<usize, usize> = BTreeMap::new();
    let mut name = |slot: &String| {
        let group = det.groups.iter().position(|s| s == slot).unwrap();
        let n = counts.entry(group).or_insert(0);
        *n += 1;
        match (*n, group % 2) {
            (1, _) => format!("group{}", group),
            (n, 0) => format!("group{}_{}", group, n),
            (n, _) => format!("group{}_{}_{}", group, n, n - 1),
        }
    };
    let mut out = String::from("^");
    for item in items {
        if !matches!(item, Item::End) {
            out += r"\s*";
        }
        match item {
            Item::W(w) => out += &regex::escape(w),
            Item::S { slot, literals, placeholder: p } => {
                let mut alternatives: Vec<String> = literals.iter().map(|l| regex::escape(l)).collect();
                if *p {
                    alternatives.push(regex::escape(&placeholder(&slots[slot])));
                }
                out += &format!("(?P<{}>{})", name(slot), alternatives.join("|"));
            }
            Item::Begin(slot) => out += &format!("(?P<{}>", name(slot)),
            Item::End => out += ")",
        }
    }
    out + r"\s*$"
}

pub fn gen_lookup(g: &mut Gen, spec: &Spec) -> Lookup {
    let l = lang(&spec.lang);
    let ignore = g.chance(50);
    let wl = whitelist(g, spec);
    let mut entries: Vec<(String, usize, Vec<String>)> = vec![];
    for (n, i) in spec.intents.iter().enumerate() {
        let stop = ignored(spec, ignore, &wl, &i.name);
        for u in &i.utterances {
            if g.chance(15) {
                continue;
            }
            // some of the slots can be left as plain words, in addition or not
            let plain = if g.chance(20) { 100 } else { 0 };
            let mut kinds = vec![plain];
            if g.chance(25) {
                kinds.extend(vec![50; g.range(1, 2)]);
            }
            for plain in kinds {
                let mut text = String::new();
                let mut slots = vec![];
                for c in u {
                    match c {
                        Chunk::S(slot, _) if plain == 0 || !g.chance(plain) => {
                            text += &format!(" {} ", placeholder(&i.slots[slot]));
                            slots.push(slot.clone());
                        }
                        Chunk::T(t) | Chunk::S(_, t) => text += &format!(" {} ", t),
                    }
                }
                let key = lookup_key(&text, &stop, l);
                if key.is_empty() || entries.iter().any(|e| hash_str_to_i32(&e.0) == hash_str_to_i32(&key)) {
                    continue;
                }
                entries.push((key, n, slots));
            }
        }
    }
    // intents of the same scope can share a group
    let mut scopes: Vec<(Vec<String>, Vec<String>, Vec<String>)> = vec![];
    for i in &spec.intents {
        let mut builtin: Vec<String> = i.slots.values().filter(|e| is_builtin(e)).cloned().collect();
        let mut custom: Vec<String> = i.slots.values().filter(|e| !is_builtin(e)).cloned().collect();
        builtin.sort();
        builtin.dedup();
        custom.sort();
        custom.dedup();
        match scopes.iter_mut().find(|s| s.1 == builtin && s.2 == custom) {
            Some(s) if g.chance(70) => s.0.push(i.name.clone()),
            _ => scopes.push((vec![i.name.clone()], builtin, custom)),
        }
    }
    Lookup { ignore, whitelist: wl, entries, scopes }
}

pub fn lookup_key(text: &str, stop: &BTreeSet<String>, l: L) -> String {
    tokenize_light(text, l)
        .into_iter()
        .filter(|t| !stop.contains(&normalize(t)))
        .collect::<Vec<_>>()
        .join(" ")
        .to_lowercase()
}

fn weight(g: &mut Gen) -> f32 {
    g.int(-300, 300) as f32 / 100.0
}

pub fn gen_prob(g: &mut Gen, spec: &Spec) -> Prob {
    let classifier = gen_classifier(g, spec);
    let fillers = spec.intents.iter().map(|i| (i.name.clone(), gen_filler(g, spec, i))).collect();
    Prob { classifier, fillers }
}

fn scope(g: &mut Gen, spec: &Spec) -> Vec<String> {
    let mut out: BTreeSet<String> = BTreeSet::new();
    for i in &spec.intents {
        for e in i.slots.values() {
            if is_builtin(e) {
                out.insert(e.clone());
            }
        }
    }
    if g.chance(40) {
        out.insert(g.word(GRAMMAR));
    }
    out.into_iter().collect()
}

pub fn gen_featurizer(g: &mut Gen, spec: &Spec) -> Featurizer {
    let l = lang(&spec.lang);
    let stem = spec.res.stems.is_some() && g.chance(50);
    let clusters: Vec<String> = spec.res.clusters.keys().cloned().collect();
    let clusters = if !clusters.is_empty() && g.chance(60) { Some(g.pick(&clusters).clone()) } else { None };
    let mut vocab: BTreeSet<String> = BTreeSet::new();
    for i in &spec.intents {
        for u in &i.utterances {
            for c in u {
                let (Chunk::T(t) | Chunk::S(_, t)) = c;
                for tok in tokenize_light(t, l) {
                    if g.chance(75) {
                        let n = normalize(&tok);
                        vocab.insert(if stem { stem_of(&spec.res, &n) } else { n });
                    }
                }
            }
        }
    }
    let scope_a = scope(g, spec);
    for e in spec.entities.keys() {
        if g.chance(80) {
            vocab.insert(format!("entityfeature{}", tokenize_light(&e.to_lowercase(), l).join("")));
        }
    }
    for e in &scope_a {
        if g.chance(80) {
            vocab.insert(format!("builtinentityfeature{}", tokenize_light(&e.to_lowercase(), l).join("")));
        }
    }
    if let Some(c) = &clusters {
        for (_, v) in &spec.res.clusters[c] {
            if g.chance(80) {
                vocab.insert(v.clone());
            }
        }
    }
    if vocab.is_empty() {
        vocab.insert("make".to_string());
    }
    let mut vocab: Vec<String> = vocab.into_iter().collect();
    g.shuffle(&mut vocab);
    let idf = vocab.iter().map(|_| 1.0 + g.below(300) as f32 / 100.0).collect();
    let cooc = if g.chance(60) {
        let scope = if g.chance(70) { scope_a.clone() } else { scope(g, spec) };
        let mut tokens: Vec<String> = vec![];
        for i in &spec.intents {
            for u in &i.utterances {
                for c in u {
                    match c {
                        Chunk::T(t) => tokens.extend(tokenize_light(t, l)),
                        Chunk::S(s, t) => {
                            tokens.extend(tokenize_light(&tokenize_light(&i.slots[s], l).join("").to_uppercase(), l));
                            if g.chance(20) {
                                tokens.extend(tokenize_light(t, l));
                            }
                        }
                    }
                }
            }
        }
        if tokens.is_empty() {
            tokens.push("make".to_string());
        }
        let order = g.chance(50);
        let mut pairs: Vec<(String, String)> = vec![];
        for _ in 0..g.range(0, 10) {
            let i = g.below(tokens.len());
            let j = if g.chance(70) { (i + g.range(1, 3)) % tokens.len() } else { g.below(tokens.len()) };
            let mut p = (tokens[i].clone(), tokens[j].clone());
            if !order && p.0 > p.1 && g.chance(90) {
                p = (p.1, p.0);
            }
            if !pairs.contains(&p) {
                pairs.push(p);
            }
        }
        Some(Cooc {
            scope,
            pairs,
            window: if g.chance(60) { Some(g.below(4)) } else { None },
            stop: g.chance(50),
            order,
            unknown: if g.chance(40) { Some(g.pick(&tokens).clone()) } else { None },
        })
    } else {
        None
    };
    Featurizer { tfidf: Tfidf { scope: scope_a, vocab, idf, stem, clusters }, cooc }
}

pub fn gen_classifier(g: &mut Gen, spec: &Spec) -> Classifier {
    let mut intents: Vec<Option<String>> = spec.intents.iter().map(|i| Some(i.name.clone())).collect();
    let at = g.below(intents.len() + 1);
    intents.insert(at, None);
    if g.chance(10) {
        intents.remove(at);
    }
    let featurizer = if g.chance(94) { Some(gen_featurizer(g, spec)) } else { None };
    let (mut intercept, mut coeffs) = (None, None);
    if let (Some(f), true) = (&featurizer, g.chance(96)) {
        let n = f.tfidf.vocab.len() + f.cooc.as_ref().map(|c| c.pairs.len()).unwrap_or(0);
        // two classes can be described by a single row of weights
        let rows = if intents.len() == 2 { 1 } else { intents.len() };
        intercept = Some((0..rows).map(|_| weight(g)).collect());
        coeffs = Some((0..rows).map(|_| (0..n).map(|_| weight(g)).collect()).collect());
    }
    Classifier { intents, featurizer, intercept, coeffs }
}

pub const SCHEMES: &[&[&str]] = &[&["I-"], &["B-", "I-"], &["B-", "I-", "L-", "U-"]];

pub fn tag_of(scheme: u8, i: usize, n: usize) -> &'static str {
    match scheme {
        0 => "I-",
        1 => if i == 0 { "B-" } else { "I-" },
        _ => {
            if n == 1 {
                "U-"
            } else if i == 0 {
                "B-"
            } else if i + 1 == n {
                "L-"
            } else {
                "I-"
            }
        }
    }
}

pub fn factory(name: &str, offsets: Vec<i32>, args: Value) -> Factory {
    Factory { name: name.to_string(), offsets, args: args.as_object().unwrap().clone() }
}

pub fn gen_factory(g: &mut Gen, spec: &Spec) -> Factory {
    let offsets = match g.below(4) {
        0 => vec![0],
        1 => vec![-1, 0, 1],
        2 => vec![-2, 2],
        3 if g.chance(90) => g.vec(1, 3, |g| g.int(-3, 3) as i32),
        _ => g.vec(1, 3, |g| g.int(-12, 12) as i32),
    };
    let big = g.chance(10);
    let stem = spec.res.stems.is_some() && g.chance(50);
    match g.below(11) {
        0 => factory("is_digit", offsets, json!({})),
        1 => factory("length", offsets, json!({})),
        2 => factory("is_first", offsets, json!({})),
        3 => factory("is_last", offsets, json!({})),
        4 => {
            let names: Vec<String> = spec.res.gazetteers.keys().cloned().collect();
            let gaz = if !names.is_empty() && g.chance(60) { json!(g.pick(&names)) } else { Value::Null };
            factory(
                "ngram",
                offsets,
                json!({"n": g.range(1, 3), "use_stemming": stem, "common_words_gazetteer_name": gaz}),
            )
        }
        5 => factory("shape_ngram", offsets, json!({"n": if big { g.range(4, 11) } else { g.range(1, 3) }})),
        6 => factory("prefix", offsets, json!({"prefix_size": if big { g.range(6, 12) } else { g.range(1, 5) }})),
        7 => factory("suffix", offsets, json!({"suffix_size": if big { g.range(6, 12) } else { g.range(1, 5) }})),
        8 => {
            let names: Vec<String> = spec.entities.keys().cloned().collect();
            factory(
                "entity_match",
                offsets,
                json!({"entities": g.subset(&names, 70), "tagging_scheme_code": g.below(3), "use_stemming": stem}),
            )
        }
        9 => {
            let mut kinds = scope(g, spec);
            kinds.truncate(3);
            factory("builtin_entity_match", offsets, json!({"entity_labels": kinds, "tagging_scheme_code": g.below(3)}))
        }
        _ => {
            let names: Vec<String> = spec.res.clusters.keys().cloned().collect();
            if names.is_empty() {
                factory("length", offsets, json!({}))
            } else {
                factory("word_cluster", offsets, json!({"cluster_name": g.pick(&names)}))
            }
        }
    }
}

pub fn gen_filler(g: &mut Gen, spec: &Spec, intent: &Intent) -> Filler {
    let l = lang(&spec.lang);
    let scheme = g.below(3) as u8;
    if intent.slots.is_empty() && g.chance(70) {
        return Filler { slots: intent.slots.clone(), scheme, factories: vec![], crf: None };
    }
    // features the weights below rely on, then others
    let mut factories = vec![factory(
        "ngram",
        vec![0, -1],
        json!({"n": 1, "use_stemming": false, "common_words_gazetteer_name": null}),
    )];
    let custom: Vec<String> = intent.slots.values().filter(|e| !is_builtin(e)).cloned().collect();
    let builtin: Vec<String> = intent.slots.values().filter(|e| is_builtin(e)).cloned().collect();
    if !custom.is_empty() {
        factories.push(factory(
            "entity_match",
            vec![0],
            json!({"entities": custom, "tagging_scheme_code": scheme, "use_stemming": false}),
        ));
    }
    if !builtin.is_empty() {
        factories.push(factory(
            "builtin_entity_match",
            vec![0],
            json!({"entity_labels": builtin, "tagging_scheme_code": scheme}),
        ));
    }
    for _ in 0..g.range(0, 4) {
        factories.push(gen_factory(g, spec));
    }
    let mut labels = vec!["O".to_string()];
    for s in intent.slots.keys() {
        for p in SCHEMES[scheme as usize] {
            labels.push(format!("{}{}", p, s));
        }
    }
    if g.chance(10) && labels.len() > 1 {
        labels.remove(0);
    }
    let index = |label: &str| labels.iter().position(|x| x == label);
    let mut state: BTreeMap<(String, usize), f64> = BTreeMap::new();
    for u in &intent.utterances {
        let mut previous: Option<String> = None;
        for c in u {
            let (Chunk::T(t) | Chunk::S(_, t)) = c;
            let toks = tokenize_light(t, l);
            for (k, tok) in toks.iter().enumerate() {
                let label = match c {
                    Chunk::T(_) => "O".to_string(),
                    Chunk::S(s, _) => format!("{}{}", tag_of(scheme, k, toks.len()), s),
                };
                if let Some(y) = index(&label) {
                    *state.entry((format!("ngram_1:{}", normalize(tok)), y)).or_insert(0.) += 1.5;
                    if let Some(p) = &previous {
                        *state.entry((format!("ngram_1[-1]:{}", p), y)).or_insert(0.) += 0.7;
                    }
                }
                previous = Some(normalize(tok));
            }
        }
    }
    for (s, e) in &intent.slots {
        let name = if is_builtin(e) { "builtin_entity_match" } else { "entity_match" };
        for p in SCHEMES[scheme as usize] {
            if let Some(y) = index(&format!("{}{}", p, s)) {
                state.insert((format!("{}_{}:{}", name, e, p), y), 2.0 + g.below(10) as f64 / 10.0);
            }
        }
    }
    let messy = g.chance(25);
    if messy {
        for v in state.values_mut() {
            *v = g.int(-300, 300) as f64 / 100.0;
        }
    }
    let mut trans = vec![];
    for (a, la) in labels.iter().enumerate() {
        for (b, lb) in labels.iter().enumerate() {
            if messy {
                if g.chance(40) {
                    trans.push((a, b, g.int(-200, 200) as f64 / 100.0));
                }
            } else if scheme > 0 && (lb.starts_with("I-") || lb.starts_with("L-")) {
                let continues = (la.starts_with("B-") || la.starts_with("I-")) && la.get(2..) == lb.get(2..);
                trans.push((a, b, if continues { 1.0 } else { -3.0 }));
            }
        }
    }
    let state = state.into_iter().map(|((a, y), w)| (a, y, w)).collect();
    Filler { slots: intent.slots.clone(), scheme, factories, crf: Some(Crf { labels, state, trans }) }
}

// ---- files

pub fn put(path: &Path, value: &Value) {
    fs::write(path, serde_json::to_vec(value).unwrap()).unwrap();
}

fn write_gazetteers(dir: &Path, entities: &BTreeMap<String, Ent>) {
    fs::create_dir_all(dir).unwrap();
    let mut list = vec![];
    for (i, (name, e)) in entities.iter().enumerate() {
        let sub = format!("parser_{}", i);
        let p = dir.join(&sub);
        fs::create_dir_all(&p).unwrap();
        put(
            &p.join("metadata.json"),
            &json!({"version": "0.7.0", "parser_filename": "parser", "threshold": e.threshold, "stop_words": [], "edge_cases": []}),
        );
        let values: Vec<Value> = e
            .values
            .iter()
            .map(|(raw, resolved)| json!({"raw": raw, "resolved": resolved, "injected": false}))
            .collect();
        put(&p.join("parser"), &json!({ "values": values }));
        list.push(json!({"entity_identifier": name, "entity_parser": sub}));
    }
    put(&dir.join("metadata.json"), &json!({ "parsers_metadata": list }));
}

pub fn parser_name(i: usize) -> String {
    format!("parser_{}", i)
}

pub fn crf_bytes(crf: &Crf) -> Vec<u8> {
    let mut w = crfsuite::writer::ModelWriter::default();
    w.labels = crf.labels.iter().map(|l| base64(l.as_bytes())).collect();
    for (a, y, v) in &crf.state {
        let i = match w.attrs.iter().position(|x| x == a) {
            Some(i) => i,
            None => {
                w.attrs.push(a.clone());
                w.attrs.len() - 1
            }
        };
        w.state.push((i, *y, *v));
    }
    w.trans = crf.trans.clone();
    w.to_bytes()
}

pub fn base64(data: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut out = String::new();
    for c in data.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                out.push(A[(v >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                out.push('=');
            }
        }
    }
    out
}

pub fn write_filler(spec: &Spec, intent: &str, f: &Filler, dir: &Path) {
    fs::create_dir_all(dir).unwrap();
    put(&dir.join("metadata.json"), &json!({"unit_name": "crf_slot_filler"}));
    put(
        &dir.join("slot_filler.json"),
        &json!({
            "language_code": spec.lang, "intent": intent, "slot_name_mapping": f.slots,
            "crf_model_file": f.crf.as_ref().map(|_| "model.crfsuite"),
            "config": {
                "tagging_scheme": f.scheme,
                "feature_factory_configs": f.factories.iter()
                    .map(|x| json!({"factory_name": x.name, "offsets": x.offsets, "args": x.args})).collect::<Vec<_>>(),
            },
        }),
    );
    if let Some(crf) = &f.crf {
        fs::write(dir.join("model.crfsuite"), crf_bytes(crf)).unwrap();
    }
}

pub fn write_classifier(spec: &Spec, c: &Classifier, dir: &Path) {
    fs::create_dir_all(dir).unwrap();
    put(&dir.join("metadata.json"), &json!({"unit_name": "log_reg_intent_classifier"}));
    put(
        &dir.join("intent_classifier.json"),
        &json!({
            "featurizer": c.featurizer.as_ref().map(|_| "featurizer"),
            "intercept": c.intercept, "coeffs": c.coeffs, "intent_list": c.intents,
        }),
    );
    if let Some(f) = &c.featurizer {
        let fd = dir.join("featurizer");
        fs::create_dir_all(fd.join("tfidf_vectorizer")).unwrap();
        put(
            &fd.join("featurizer.json"),
            &json!({
                "language_code": spec.lang, "tfidf_vectorizer": "tfidf_vectorizer",
                "cooccurrence_vectorizer": f.cooc.as_ref().map(|_| "cooccurrence_vectorizer"),
            }),
        );
        let t = &f.tfidf;
        let vocab: BTreeMap<&String, usize> = t.vocab.iter().enumerate().map(|(i, w)| (w, i)).collect();
        put(
            &fd.join("tfidf_vectorizer").join("vectorizer.json"),
            &json!({
                "language_code": spec.lang, "builtin_entity_scope": t.scope,
                "vectorizer": {"idf_diag": t.idf, "vocab": vocab},
                "config": {"use_stemming": t.stem, "word_clusters_name": t.clusters},
            }),
        );
        if let Some(c) = &f.cooc {
            fs::create_dir_all(fd.join("cooccurrence_vectorizer")).unwrap();
            let pairs: BTreeMap<String, &(String, String)> =
                c.pairs.iter().enumerate().map(|(i, p)| (i.to_string(), p)).collect();
            put(
                &fd.join("cooccurrence_vectorizer").join("vectorizer.json"),
                &json!({
                    "language_code": spec.lang, "builtin_entity_scope": c.scope, "word_pairs": pairs,
                    "config": {
                        "window_size": c.window, "filter_stop_words": c.stop, "keep_order": c.order,
                        "unknown_words_replacement_string": c.unknown,
                    },
                }),
            );
        }
    }
}

fn slots_map(spec: &Spec) -> Value {
    Value::Object(spec.intents.iter().map(|i| (i.name.clone(), json!(i.slots))).collect())
}

pub fn write_parser(spec: &Spec, p: &Parser, dir: &Path) {
    fs::create_dir_all(dir).unwrap();
    let (unit, model) = match p {
        Parser::Det(d) => {
            let patterns: BTreeMap<&String, Vec<String>> = d
                .patterns
                .iter()
                .map(|(i, list)| (i, list.iter().map(|items| det_regex(spec, d, i, items)).collect()))
                .collect();
            let groups: BTreeMap<String, &String> =
                d.groups.iter().enumerate().map(|(i, s)| (format!("group{}", i), s)).collect();
            (
                "deterministic_intent_parser",
                json!({
                    "language_code": spec.lang, "patterns": patterns, "group_names_to_slot_names": groups,
                    "slot_names_to_entities": slots_map(spec), "stop_words_whitelist": d.whitelist,
                    "config": {"ignore_stop_words": d.ignore},
                }),
            )
        }
        Parser::Lookup(k) => {
            let mut slots: Vec<String> = vec![];
            for e in &k.entries {
                for s in &e.2 {
                    if !slots.contains(s) {
                        slots.push(s.clone());
                    }
                }
            }
            let map: BTreeMap<String, Value> = k
                .entries
                .iter()
                .map(|(text, intent, names)| {
                    let ids: Vec<usize> =
                        names.iter().map(|n| slots.iter().position(|s| s == n).unwrap()).collect();
                    (hash_str_to_i32(text).to_string(), json!([intent, ids]))
                })
                .collect();
            (
                "lookup_intent_parser",
                json!({
                    "language_code": spec.lang, "slots_names": slots,
                    "intents_names": spec.intents.iter().map(|i| &i.name).collect::<Vec<_>>(),
                    "map": map,
                    "entity_scopes": k.scopes.iter().map(|s| json!({
                        "intent_group": s.0, "entity_scope": {"builtin": s.1, "custom": s.2}})).collect::<Vec<_>>(),
                    "stop_words_whitelist": k.whitelist, "config": {"ignore_stop_words": k.ignore},
                }),
            )
        }
        Parser::Prob(p) => {
            write_classifier(spec, &p.classifier, &dir.join("intent_classifier"));
            let mut list = vec![];
            for (i, (intent, f)) in p.fillers.iter().enumerate() {
                let name = format!("slot_filler_{}", i);
                write_filler(spec, intent, f, &dir.join(&name));
                list.push(json!({"intent": intent, "slot_filler_name": name}));
            }
            ("probabilistic_intent_parser", json!({ "slot_fillers": list }))
        }
    };
    put(&dir.join("metadata.json"), &json!({ "unit_name": unit }));
    put(&dir.join("intent_parser.json"), &model);
}

pub fn write_resources(spec: &Spec, dir: &Path) {
    fs::create_dir_all(dir.join("gazetteers")).unwrap();
    fs::create_dir_all(dir.join("word_clusters")).unwrap();
    fs::create_dir_all(dir.join("stemming")).unwrap();
    let lines = |list: &mut dyn Iterator<Item = String>| -> String { list.map(|l| l + "\n").collect() };
    let r = &spec.res;
    put(
        &dir.join("metadata.json"),
        &json!({
            "language": spec.lang,
            "gazetteers": r.gazetteers.keys().collect::<Vec<_>>(),
            "word_clusters": r.clusters.keys().collect::<Vec<_>>(),
            "stems": r.stems.as_ref().map(|_| "stems"),
            "stop_words": r.stop_words.as_ref().map(|_| "stop_words"),
        }),
    );
    if let Some(s) = &r.stop_words {
        fs::write(dir.join("stop_words.txt"), lines(&mut s.iter().cloned())).unwrap();
    }
    if let Some(s) = &r.stems {
        fs::write(dir.join("stemming/stems.txt"), lines(&mut s.iter().map(|l| l.join(",")))).unwrap();
    }
    for (n, words) in &r.gazetteers {
        fs::write(dir.join("gazetteers").join(format!("{}.txt", n)), lines(&mut words.iter().cloned())).unwrap();
    }
    for (n, list) in &r.clusters {
        fs::write(
            dir.join("word_clusters").join(format!("{}.txt", n)),
            lines(&mut list.iter().map(|(w, c)| format!("{}\t{}", w, c))),
        )
        .unwrap();
    }
}

pub fn write_entity_parsers(spec: &Spec, dir: &Path) {
    let c = dir.join("custom_entity_parser");
    fs::create_dir_all(&c).unwrap();
    put(
        &c.join("metadata.json"),
        &json!({"language": spec.lang, "parser_directory": "parser", "parser_usage": spec.usage}),
    );
    write_gazetteers(&c.join("parser"), &spec.entities);
    let b = dir.join("builtin_entity_parser");
    fs::create_dir_all(&b).unwrap();
    put(
        &b.join("metadata.json"),
        &json!({"language": spec.lang, "gazetteer_parser": spec.gaz.as_ref().map(|_| "gazetteer_entity_parser")}),
    );
    if let Some(gaz) = &spec.gaz {
        write_gazetteers(&b.join("gazetteer_entity_parser"), gaz);
    }
}

pub fn engine_json(spec: &Spec) -> Value {
    json!({
        "dataset_metadata": {
            "language_code": spec.lang,
            "entities": spec.entities.iter()
                .map(|(n, e)| (n.clone(), json!({"automatically_extensible": e.extensible})))
                .collect::<Map<String, Value>>(),
            "slot_name_mappings": slots_map(spec),
        },
        "intent_parsers": (0..spec.parsers.len()).map(parser_name).collect::<Vec<_>>(),
        "model_version": "0.20.0",
        "training_package_version": "0.20.0",
        "builtin_entity_parser": "builtin_entity_parser",
        "custom_entity_parser": "custom_entity_parser",
    })
}

pub fn write(spec: &Spec, dir: &Path) {
    fs::create_dir_all(dir).unwrap();
    put(&dir.join("nlu_engine.json"), &engine_json(spec));
    write_resources(spec, &dir.join("resources").join(&spec.lang));
    write_entity_parsers(spec, dir);
    for (i, p) in spec.parsers.iter().enumerate() {
        write_parser(spec, p, &dir.join(parser_name(i)));
    }
}

/// A scratch directory, removed when dropped
pub struct Scratch(pub tempfile::TempDir);

impl Scratch {
    pub fn new() -> Scratch {
        let base = std::env::var("VP_SCRATCH").unwrap_or_else(|_| std::env::temp_dir().to_str().unwrap().to_string());
        Scratch(tempfile::Builder::new().prefix("case").tempdir_in(base).unwrap())
    }
    pub fn path(&self) -> &Path {
        self.0.path()
    }
    pub fn join(&self, p: &str) -> PathBuf {
        self.0.path().join(p)
    }
}

pub fn gazetteer_kind(e: &str) -> Option<BuiltinGazetteerEntityKind> {
    BuiltinGazetteerEntityKind::from_identifier(e).ok()
}
