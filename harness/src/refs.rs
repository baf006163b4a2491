//! What a generated engine must answer, computed from its description.
use crate::spec::*;
use snips_nlu_ontology::{BuiltinEntityKind, SlotValue};
use snips_nlu_parsers::{BuiltinEntityParser, GazetteerParser};
use snips_nlu_utils::language::Language as L;
use snips_nlu_utils::string::normalize;
use snips_nlu_utils::token::{tokenize, tokenize_light};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::ops::Range;
use std::path::Path;

#[derive(Clone, Debug, PartialEq)]
pub struct Found {
    pub range: Range<usize>,
    pub entity: String,
    pub value: SlotValue,
    pub alternatives: Vec<SlotValue>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct RefSlot {
    pub range: Range<usize>,
    pub entity: String,
    pub slot: String,
}

/// The entity parsers of an engine, used directly
pub struct World {
    pub l: L,
    pub custom: GazetteerParser<String>,
    pub builtin: BuiltinEntityParser,
}

pub fn chars(s: &str) -> usize {
    s.chars().count()
}

pub fn sub(s: &str, r: &Range<usize>) -> String {
    s.chars().skip(r.start).take(r.end.saturating_sub(r.start)).collect()
}

/// The text in lower case, and for each of its characters the character of `text` it comes from
pub fn lower(text: &str) -> (String, Vec<usize>) {
    let mut origin = vec![];
    for (i, c) in text.chars().enumerate() {
        for _ in c.to_lowercase() {
            origin.push(i);
        }
    }
    (text.to_lowercase(), origin)
}

fn back(origin: &[usize], r: &Range<usize>) -> Range<usize> {
    if r.start >= r.end {
        return r.clone();
    }
    origin[r.start]..origin[r.end - 1] + 1
}

impl World {
    pub fn open(dir: &Path, lang_code: &str) -> World {
        World {
            l: lang(lang_code),
            custom: GazetteerParser::from_path(dir.join("custom_entity_parser").join("parser")).unwrap(),
            builtin: BuiltinEntityParser::from_path(dir.join("builtin_entity_parser")).unwrap(),
        }
    }

    /// the custom entities of a text, at their place in the text
    pub fn custom(&self, text: &str, scope: Option<&[String]>, alternatives: usize) -> Vec<Found> {
        let (low, origin) = lower(text);
        let tokens = tokenize(&low, self.l);
        let mut joined = String::new();
        // token of each character of the joined text
        let mut owner = vec![];
        for (i, t) in tokens.iter().enumerate() {
            if i > 0 {
                joined.push(' ');
                owner.push(usize::max_value());
            }
            joined += &t.value;
            owner.extend(t.value.chars().map(|_| i));
        }
        self.custom
            .extract_entities(&joined, scope, alternatives)
            .unwrap()
            .into_iter()
            .map(|m| {
                let first = &tokens[owner[m.range.start]];
                let last = &tokens[owner[m.range.end - 1]];
                Found {
                    range: back(&origin, &(first.char_range.start..last.char_range.end)),
                    entity: m.entity_identifier,
                    value: SlotValue::Custom(m.resolved_value.into()),
                    alternatives: m
                        .alternative_resolved_values
                        .into_iter()
                        .map(|v| SlotValue::Custom(v.into()))
                        .collect(),
                }
            })
            .collect()
    }

    pub fn builtin(&self, text: &str, scope: Option<&[BuiltinEntityKind]>, alternatives: usize) -> Vec<Found> {
        let (low, origin) = lower(text);
        self.builtin
            .extract_entities(&low, scope, alternatives)
            .unwrap()
            .into_iter()
            .map(|m| Found {
                range: back(&origin, &m.range),
                entity: m.entity_kind.identifier().to_string(),
                value: m.entity,
                alternatives: m.alternatives,
            })
            .collect()
    }

    /// the builtin then the custom entities of the scope, without overlaps: longest first, then
    /// in this order
    pub fn disjoint(&self, text: &str, builtin: &[String], custom: &[String]) -> Vec<Found> {
        let mut all = self.builtin(text, Some(&kinds(builtin)), 0);
        all.extend(self.custom(text, Some(custom), 0));
        disjoint(all)
    }
}

pub fn disjoint(mut all: Vec<Found>) -> Vec<Found> {
    all.sort_by_key(|f| std::cmp::Reverse(f.range.end - f.range.start));
    let mut out: Vec<Found> = vec![];
    for f in all {
        if !out.iter().any(|o| o.range.start < f.range.end && f.range.start < o.range.end) {
            out.push(f);
        }
    }
    out.sort_by_key(|f| f.range.start);
    out
}

pub fn kinds(names: &[String]) -> Vec<BuiltinEntityKind> {
    names.iter().filter_map(|n| BuiltinEntityKind::from_identifier(n).ok()).collect()
}

pub fn scopes_of(slots: &BTreeMap<String, String>) -> (Vec<String>, Vec<String>) {
    let (b, c): (BTreeSet<String>, BTreeSet<String>) = slots.values().cloned().partition(|e| is_builtin(e));
    (b.into_iter().collect(), c.into_iter().collect())
}

/// Replaces entities by texts. Gives the new text and the replaced ranges with the original ones
pub fn replace(
    text: &str,
    entities: &[Found],
    name: impl Fn(&str) -> String,
) -> (String, Vec<(Range<usize>, Range<usize>)>) {
    let all: Vec<char> = text.chars().collect();
    let mut out: Vec<char> = vec![];
    let mut at = 0;
    let mut map = vec![];
    for e in entities {
        out.extend(&all[at..e.range.start]);
        let start = out.len();
        out.extend(name(&e.entity).chars());
        map.push((start..out.len(), e.range.clone()));
        at = e.range.end;
    }
    out.extend(&all[at..]);
    (out.into_iter().collect(), map)
}

// ---- weights

/// Confidence of each intent from its number of slots. None when it cannot be told whether the
/// best one exceeds one half.
pub fn confidences(counts: &BTreeMap<String, usize>) -> (BTreeMap<String, f32>, bool) {
    let total: f64 = counts.values().map(|n| 1. / (1. + *n as f64)).sum();
    let map: BTreeMap<String, f32> =
        counts.iter().map(|(k, n)| (k.clone(), (1. / (1. + *n as f64) / total) as f32)).collect();
    let exact = counts.values().all(|n| (n + 1).is_power_of_two());
    let near = !exact && map.values().any(|c| (c - 0.5).abs() < 1e-5);
    (map, near)
}

// ---- pattern matching

thread_local! {
    static FOLD: RefCell<HashMap<(char, char), bool>> = RefCell::new(HashMap::new());
}

/// Equality of characters ignoring case
pub fn same_char(a: char, b: char) -> bool {
    if a == b {
        return true;
    }
    if a.is_ascii() && b.is_ascii() {
        return a.eq_ignore_ascii_case(&b);
    }
    FOLD.with(|m| {
        *m.borrow_mut().entry((a, b)).or_insert_with(|| {
            regex::Regex::new(&format!("(?i)^{}$", regex::escape(&a.to_string())))
                .unwrap()
                .is_match(&b.to_string())
        })
    })
}

/// The text with every character that is in no token, or in a token that is ignored, blanked
pub fn cleaned(text: &str, stop: &BTreeSet<String>, l: L) -> Vec<char> {
    let mut out: Vec<char> = text.chars().map(|_| ' ').collect();
    let all: Vec<char> = text.chars().collect();
    for t in tokenize(text, l) {
        if !stop.contains(&normalize(&t.value)) {
            for i in t.char_range.clone() {
                out[i] = all[i];
            }
        }
    }
    out
}

type Groups = Vec<(String, Range<usize>)>;

fn starts(text: &[char], at: usize, what: &str) -> Option<usize> {
    let mut i = at;
    for c in what.chars() {
        if i >= text.len() || !same_char(c, text[i]) {
            return None;
        }
        i += 1;
    }
    Some(i)
}

/// First way to read the text as the items, in the order of their alternatives. The groups come in
/// the order of their beginnings.
pub fn match_items(
    text: &[char],
    end_of_last: usize,
    items: &[Item],
    entity: &dyn Fn(&str) -> String,
    open: &mut Vec<usize>,
    groups: &mut Groups,
) -> bool {
    // spaces between items; no item starts or ends with a space
    let mut at = end_of_last;
    while at < text.len() && text[at].is_whitespace() {
        at += 1;
    }
    let item = match items.first() {
        None => return at == text.len(),
        Some(i) => i,
    };
    match item {
        Item::W(w) => match starts(text, at, w) {
            Some(end) => match_items(text, end, &items[1..], entity, open, groups),
            None => false,
        },
        Item::Begin(slot) => {
            open.push(groups.len());
            groups.push((slot.clone(), at..at));
            if match_items(text, at, &items[1..], entity, open, groups) {
                return true;
            }
            groups.pop();
            open.pop();
            false
        }
        Item::End => {
            let g = open.pop().unwrap();
            groups[g].1.end = end_of_last;
            if match_items(text, end_of_last, &items[1..], entity, open, groups) {
                return true;
            }
            open.push(g);
            false
        }
        Item::S { slot, literals, placeholder: with } => {
            let mut alternatives = literals.clone();
            if *with {
                alternatives.push(placeholder(&entity(slot)));
            }
            for a in alternatives {
                if let Some(end) = starts(text, at, &a) {
                    groups.push((slot.clone(), at..end));
                    if match_items(text, end, &items[1..], entity, open, groups) {
                        return true;
                    }
                    groups.pop();
                }
            }
            false
        }
    }
}

/// Of the slots that overlap, those with the most tokens and characters
fn longest(text: &str, slots: Vec<RefSlot>, l: L) -> Vec<RefSlot> {
    let mut sorted: Vec<(usize, RefSlot)> = slots
        .into_iter()
        .map(|s| {
            let value = sub(text, &s.range);
            (tokenize(&value, l).len() + chars(&value), s)
        })
        .collect();
    sorted.sort_by(|a, b| b.0.cmp(&a.0));
    let mut out: Vec<RefSlot> = vec![];
    for (_, s) in sorted {
        if out.iter().all(|o| o.range.end <= s.range.start || s.range.end <= o.range.start) {
            out.push(s);
        }
    }
    out.sort_by_key(|s| s.range.start);
    out
}

#[derive(Clone, Debug)]
pub struct DetMatch {
    pub slots: Vec<RefSlot>,
    pub pattern: usize,
    pub formatted: bool,
}

/// The match of an intent, None if there is none. The error is for cases that are not decided.
pub fn det_intent(
    w: &World,
    spec: &Spec,
    det: &Det,
    intent: &str,
    text: &str,
) -> std::result::Result<Option<DetMatch>, &'static str> {
    let slots = &spec.intents.iter().find(|i| i.name == intent).unwrap().slots;
    let (b, c) = scopes_of(slots);
    let entities = w.disjoint(text, &b, &c);
    let (formatted, map) = replace(text, &entities, placeholder);
    let stop = ignored(spec, det.ignore, &det.whitelist, intent);
    let raw = cleaned(text, &stop, w.l);
    let subst = cleaned(&formatted, &stop, w.l);
    let entity = |slot: &str| slots[slot].clone();
    for (p, items) in det.patterns[intent].iter().enumerate() {
        for is_formatted in [false, true] {
            let mut groups = vec![];
            if !match_items(if is_formatted { &subst } else { &raw }, 0, items, &entity, &mut vec![], &mut groups) {
                continue;
            }
            let mut out = vec![];
            for (slot, range) in groups {
                let inside = |at: usize| map.iter().any(|(r, _)| r.start < at && at < r.end);
                let back = |at: usize| {
                    let before = map.iter().filter(|(r, _)| r.end <= at).last();
                    let shift = before.map(|(r, o)| o.end as i64 - r.end as i64).unwrap_or(0);
                    (at as i64 + shift) as usize
                };
                let range = if !is_formatted {
                    range
                } else if inside(range.start) || inside(range.end) {
                    return Err("a slot made of a part of a placeholder");
                } else {
                    back(range.start)..back(range.end)
                };
                out.push(RefSlot { range, entity: slots[&slot].clone(), slot });
            }
            return Ok(Some(DetMatch { slots: longest(text, out, w.l), pattern: p, formatted: is_formatted }));
        }
    }
    Ok(None)
}

// ---- lookup

/// For each intent, the possible slots of its matches with the fewest slots
pub fn lookup_all(
    w: &World,
    spec: &Spec,
    k: &Lookup,
    text: &str,
    allowed: &dyn Fn(&str) -> bool,
    max_entities: usize,
) -> std::result::Result<BTreeMap<String, Vec<Vec<RefSlot>>>, &'static str> {
    let keys: HashMap<&str, (usize, &Vec<String>)> =
        k.entries.iter().map(|(t, i, s)| (t.as_str(), (*i, s))).collect();
    let mut out: BTreeMap<String, Vec<Vec<RefSlot>>> = BTreeMap::new();
    for (group, builtin, custom) in &k.scopes {
        if !group.iter().any(|i| allowed(i)) {
            continue;
        }
        let entities = w.disjoint(text, builtin, custom);
        if entities.len() > max_entities {
            return Err("too many entities");
        }
        for mask in 0..1usize << entities.len() {
            let chosen: Vec<Found> = entities
                .iter()
                .enumerate()
                .filter(|(i, _)| mask >> i & 1 == 1)
                .map(|(_, e)| e.clone())
                .collect();
            let (replaced, _) = replace(text, &chosen, placeholder);
            for intent in group.iter().filter(|i| allowed(i)) {
                let stop = ignored(spec, k.ignore, &k.whitelist, intent);
                let key = lookup_key(&replaced, &stop, w.l);
                if let Some((target, slots)) = keys.get(key.as_str()) {
                    let target = &spec.intents[*target].name;
                    if slots.len() != chosen.len() || !allowed(target) {
                        continue;
                    }
                    let list: Vec<RefSlot> = slots
                        .iter()
                        .zip(&chosen)
                        .map(|(s, e)| RefSlot { range: e.range.clone(), entity: e.entity.clone(), slot: s.clone() })
                        .collect();
                    let all = out.entry(target.clone()).or_default();
                    if !all.contains(&list) {
                        all.push(list);
                    }
                }
            }
        }
    }
    for all in out.values_mut() {
        let min = all.iter().map(|l| l.len()).min().unwrap();
        all.retain(|l| l.len() == min);
    }
    Ok(out)
}

// ---- text features

pub fn stems(spec: &Spec, stem: bool, token: &str) -> String {
    let n = normalize(token);
    if stem {
        stem_of(&spec.res, &n)
    } else {
        n
    }
}

/// the cluster of a word, as it is written in the file if any is not a small number
pub fn cluster(spec: &Spec, name: &str, word: &str) -> Option<String> {
    let list = spec.res.clusters.get(name)?;
    let numbers = list.iter().all(|(_, c)| c.parse::<u16>().is_ok());
    let first_text = list.iter().position(|(_, c)| c.parse::<u16>().is_err());
    // words are told apart by their 32-bit hash only, and long texts have many runs of words
    let hash = snips_nlu_utils::string::hash_str_to_i32;
    let at = list.iter().rposition(|(w, _)| hash(w) == hash(word))?;
    let c = &list[at].1;
    // numbers read before the first text are kept as numbers
    let as_number = numbers || first_text.map(|f| at < f).unwrap_or(true);
    if as_number {
        Some(c.parse::<u16>().unwrap().to_string())
    } else {
        Some(c.clone())
    }
}

/// Components of the words of the vocabulary, before normalisation, and after
pub fn tfidf(w: &World, spec: &Spec, t: &Tfidf, text: &str) -> (Vec<f64>, Vec<f64>) {
    let tokens = tokenize_light(text, w.l);
    let words: Vec<String> = tokens.iter().map(|x| stems(spec, t.stem, x)).collect();
    let mut named: Vec<String> = words.clone();
    for e in w.builtin(text, Some(&kinds(&t.scope)), 0) {
        named.push(format!("builtinentityfeature{}", tokenize_light(&e.entity.to_lowercase(), w.l).join("")));
    }
    for e in w.custom(&words.join(" "), None, 0) {
        named.push(format!("entityfeature{}", tokenize_light(&e.entity.to_lowercase(), w.l).join("")));
    }
    if let Some(c) = &t.clusters {
        for i in 0..tokens.len() {
            for j in i + 1..=tokens.len() {
                if let Some(c) = cluster(spec, c, &tokens[i..j].join(" ").to_lowercase()) {
                    named.push(c);
                }
            }
        }
    }
    let raw: Vec<f64> = t
        .vocab
        .iter()
        .zip(&t.idf)
        .map(|(v, idf)| named.iter().filter(|n| *n == v).count() as f64 * *idf as f64)
        .collect();
    let norm = raw.iter().map(|x| x * x).sum::<f64>().sqrt();
    let out = raw.iter().map(|x| if norm > 0. { x / norm } else { 0. }).collect();
    (raw, out)
}

pub fn cooc(w: &World, spec: &Spec, c: &Cooc, text: &str) -> Vec<f64> {
    let mut all = w.builtin(text, Some(&kinds(&c.scope)), 0);
    all.extend(w.custom(text, None, 0));
    let entities = disjoint(all);
    let (enriched, _) = replace(text, &entities, |e| tokenize_light(e, w.l).join("").to_uppercase());
    let stop = spec.res.stop_words.clone().unwrap_or_default();
    let tokens: Vec<String> = tokenize_light(&enriched, w.l)
        .into_iter()
        .filter(|t| !(c.stop && stop.contains(t)) && Some(t) != c.unknown.as_ref())
        .collect();
    c.pairs
        .iter()
        .map(|(a, b)| {
            let mut found = false;
            for i in 0..tokens.len() {
                for j in i + 1..tokens.len() {
                    if c.window.map(|n| j - i > n).unwrap_or(false) {
                        continue;
                    }
                    let (x, y) = (&tokens[i], &tokens[j]);
                    let (x, y) = if c.order || x < y { (x, y) } else { (y, x) };
                    found |= x == a && y == b;
                }
            }
            f64::from(found as u8)
        })
        .collect()
}

pub fn features(w: &World, spec: &Spec, f: &Featurizer, text: &str) -> Vec<f64> {
    let mut out = tfidf(w, spec, &f.tfidf, text).1;
    if let Some(c) = &f.cooc {
        out.extend(cooc(w, spec, c, text));
    }
    out
}

/// Scores of the classifier, in the order of its intents
pub fn classifier_scores(w: &World, spec: &Spec, c: &Classifier, text: &str) -> Vec<(Option<String>, f64)> {
    if c.intents.len() <= 1 {
        return vec![(c.intents.first().cloned().unwrap_or(None), 1.0)];
    }
    let (f, intercept, coeffs) = match (&c.featurizer, &c.intercept, &c.coeffs) {
        (Some(f), Some(i), Some(k)) if !text.is_empty() => (f, i, k),
        _ => {
            return c
                .intents
                .iter()
                .map(|i| (i.clone(), if i.is_none() { 1.0 } else { 0.0 }))
                .collect()
        }
    };
    let x = features(w, spec, f, text);
    let mut scores: Vec<f64> = intercept
        .iter()
        .zip(coeffs)
        .map(|(b, k)| {
            let s: f64 = *b as f64 + k.iter().zip(&x).map(|(a, b)| *a as f64 * b).sum::<f64>();
            1. / (1. + (-s).exp())
        })
        .collect();
    if scores.len() == 1 {
        scores = vec![1. - scores[0], scores[0]];
    }
    c.intents.iter().cloned().zip(scores).collect()
}

// ---- resolution of slots

pub enum Resolved {
    Value(SlotValue, Vec<SlotValue>),
    Raw,
    Dropped,
}

/// What the slot at `range` of `text` becomes when all the slots of the result are of `entities`
pub fn resolve(
    w: &World,
    spec: &Spec,
    text: &str,
    range: &Range<usize>,
    entity: &str,
    alternatives: usize,
) -> Resolved {
    let value = sub(text, range);
    if let Some(e) = spec.entities.get(entity) {
        let scope = [entity.to_string()];
        let found = w
            .custom(text, Some(&scope), alternatives)
            .into_iter()
            .find(|f| f.range == *range)
            .or_else(|| {
                w.custom(&value, Some(&scope), alternatives)
                    .pop()
                    .filter(|f| f.range == (0..chars(&value)))
            });
        match found {
            Some(f) => Resolved::Value(f.value, f.alternatives),
            None if e.extensible => Resolved::Raw,
            None => Resolved::Dropped,
        }
    } else {
        let kind = kinds(&[entity.to_string()]);
        let found = w
            .builtin(text, Some(&kind), alternatives)
            .into_iter()
            .find(|f| f.range == *range)
            .or_else(|| w.builtin(&value, Some(&kind), alternatives).pop());
        match found {
            Some(f) => Resolved::Value(f.value, f.alternatives),
            None => Resolved::Dropped,
        }
    }
}
