//! Checks of the slot filler: C13, C14, C15.
use crate::common::*;
use crate::core::*;
use crate::refs::*;
use crate::spec::*;
use crate::text::*;
use serde::{Deserialize, Serialize};
use snips_nlu_lib::{CRFSlotFiller, SlotFiller};
use snips_nlu_utils::string::normalize;
use snips_nlu_utils::token::{tokenize, Token};
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Range;

// ---- labels

fn label_name(label: &str) -> String {
    label.chars().skip(2).collect()
}

/// The slots (tokens, name) that the labels encode, None when they are not an encoding of slots
fn strict_decode(tags: &[String], scheme: u8) -> Option<Vec<(Range<usize>, String)>> {
    let mut out = vec![];
    let mut i = 0;
    while i < tags.len() {
        if tags[i] == "O" {
            i += 1;
            continue;
        }
        let name = label_name(&tags[i]);
        let mut j = i + 1;
        match scheme {
            0 => {
                while j < tags.len() && tags[j] == tags[i] {
                    j += 1;
                }
                if j < tags.len() && tags[j] != "O" {
                    return None;
                }
            }
            1 => {
                if !tags[i].starts_with("B-") {
                    return None;
                }
                while j < tags.len() && tags[j] == format!("I-{}", name) {
                    j += 1;
                }
            }
            _ => {
                if tags[i].starts_with("B-") {
                    while j < tags.len() && tags[j] == format!("I-{}", name) {
                        j += 1;
                    }
                    if j >= tags.len() || tags[j] != format!("L-{}", name) {
                        return None;
                    }
                    j += 1;
                } else if !tags[i].starts_with("U-") {
                    return None;
                }
            }
        }
        out.push((i..j, name));
        i = j;
    }
    Some(out)
}

/// Whether the slots are a way to read the labels of the tokens
fn reads(
    text: &str,
    tokens: &[Token],
    tags: &[String],
    scheme: u8,
    mapping: &BTreeMap<String, String>,
    slots: &[Raw],
) -> Check {
    if let Some(list) = strict_decode(tags, scheme) {
        let want: Vec<Raw> = list
            .into_iter()
            .map(|(r, slot)| {
                let range = tokens[r.start].char_range.start..tokens[r.end - 1].char_range.end;
                Raw { value: sub(text, &range), range, entity: mapping[&slot].clone(), slot }
            })
            .collect();
        ensure!(slots == &want[..], "{:?} labelled {:?}: slots {:?} instead of {:?}", text, tags, slots, want);
        return Ok(());
    }
    let mut covered = vec![false; tokens.len()];
    let mut at = 0;
    for s in slots {
        let first = tokens.iter().position(|t| t.char_range.start == s.range.start);
        let last = tokens.iter().position(|t| t.char_range.end == s.range.end);
        ensure!(
            s.range.start >= at && first.is_some() && last.is_some() && first <= last,
            "{:?} labelled {:?}: {:?} is out of order or not made of whole tokens, in {:?}", text, tags, s, slots
        );
        at = s.range.end;
        let (first, last) = (first.unwrap(), last.unwrap());
        for c in &mut covered[first..=last] {
            *c = true;
        }
        ensure!(
            tags[first..=last].iter().any(|t| label_name(t) == s.slot),
            "{:?} labelled {:?}: no label of {:?} is of this slot", text, tags, s
        );
        ensure!(
            mapping.get(&s.slot) == Some(&s.entity) && s.value == sub(text, &s.range),
            "{:?} labelled {:?}: wrong entity or text in {:?}", text, tags, s
        );
    }
    for (i, c) in covered.iter().enumerate() {
        ensure!(
            *c == (tags[i] != "O"),
            "{:?} labelled {:?}: the token {:?} is {} the slots {:?}",
            text, tags, tokens[i].value, if *c { "in" } else { "not in" }, slots
        );
    }
    Ok(())
}

// ---- C13

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Tagged {
    lang: String,
    scheme: u8,
    words: Vec<String>,
    /// before each word, and after the last
    seps: Vec<String>,
    mapping: BTreeMap<String, String>,
    /// a slot without entity
    missing: Option<String>,
    tags: Vec<String>,
}

pub fn bare_spec(lang: &str) -> Spec {
    Spec {
        lang: lang.to_string(),
        entities: BTreeMap::new(),
        gaz: None,
        usage: 1,
        intents: vec![],
        res: Res::default(),
        parsers: vec![],
    }
}

fn gen_tagged(g: &mut Gen) -> Tagged {
    let lang = if g.chance(20) { g.word(&["ja", "fr", "de"]) } else { "en".to_string() };
    let l = crate::spec::lang(&lang);
    let scheme = g.below(3) as u8;
    let mut words: Vec<String> = vec![];
    let wanted = g.range(0, 9);
    for _ in 0..wanted {
        let w = match g.below(6) {
            0 => g.word(&["?", "$", "%", "é", "ß", "İ", "Ω", "x_1", "日", "ñ", "№", "ﬁ", "2", "42"]),
            1 => format!("w{}", g.below(100)),
            2 if lang == "ja" => g.word(&["コ", "茶", "部", "屋", "赤"]),
            _ => g.word(WORDS),
        };
        // made of one token, unlike any other word
        let t = tokenize(&w, l);
        if t.len() == 1 && t[0].value == w && !words.iter().any(|x| normalize(x) == normalize(&w)) {
            words.push(w);
        }
    }
    let seps = (0..=words.len())
        .map(|i| match g.below(8) {
            0 => g.word(&["  ", ", ", "-", "... ", "\n", "\u{a0}", " ' ", "’", "🙂 ", " ’ "]),
            _ if i == 0 || i == words.len() => g.word(&["", "", "", " ", "."]),
            _ => " ".to_string(),
        })
        .collect();
    let mut mapping = BTreeMap::new();
    for _ in 0..g.range(1, 3) {
        let slot = match g.below(8) {
            0 => g.word(&["O", "I-", "B-x", "L-", "U-O", "é-é"]),
            _ => g.word(SLOT_NAMES),
        };
        mapping.insert(slot, g.word(&["snips/number", "beverage", "été"]));
    }
    let names: Vec<String> = mapping.keys().cloned().collect();
    let mut tags: Vec<String> = vec![];
    let n = words.len();
    if g.chance(60) {
        let mut run = 0;
        while tags.len() < n {
            if g.chance(45) || (scheme == 0 && run > 0) {
                tags.push("O".to_string());
                run = 0;
                continue;
            }
            let name = g.pick(&names).clone();
            let len = g.range(1, 4).min(n - tags.len());
            for i in 0..len {
                tags.push(format!("{}{}", tag_of(scheme, i, len), name));
            }
            run = 1;
        }
    } else {
        for _ in 0..n {
            tags.push(if g.chance(30) {
                "O".to_string()
            } else {
                format!("{}{}", g.word(SCHEMES[scheme as usize]), g.pick(&names))
            });
        }
    }
    let missing = if g.chance(10) { Some(g.pick(&names).clone()) } else { None };
    Tagged { lang, scheme, words, seps, mapping, missing, tags }
}

pub fn c13(run: &mut Run) {
    run.section(
        "labels to slots",
        "at least two slots, or labels that encode no slots",
        (20_000, 1_000_000),
        400,
        gen_tagged,
        |case, obs| {
            let spec = bare_spec(&case.lang);
            let l = lang(&case.lang);
            let mut text = String::new();
            for (s, w) in case.seps.iter().zip(&case.words) {
                text += s;
                text += w;
            }
            text += case.seps.last().unwrap();
            let tokens = tokenize(&text, l);
            if tokens.iter().map(|t| &t.value).ne(case.words.iter()) {
                obs.label("words that join");
                return Ok(());
            }
            // a tagger which gives each word its label
            let labels: Vec<String> = {
                let mut all: BTreeSet<String> = case.tags.iter().cloned().collect();
                all.insert("O".to_string());
                for s in case.mapping.keys() {
                    all.extend(SCHEMES[case.scheme as usize].iter().map(|p| format!("{}{}", p, s)));
                }
                all.into_iter().collect()
            };
            let at = |t: &String| labels.iter().position(|l| l == t).unwrap();
            let state = case
                .words
                .iter()
                .zip(&case.tags)
                .map(|(w, t)| (format!("ngram_1:{}", normalize(w)), at(t), 10.))
                .collect();
            let mut slots = case.mapping.clone();
            if let Some(m) = &case.missing {
                slots.remove(m);
            }
            let filler = Filler {
                slots,
                scheme: case.scheme,
                factories: vec![factory(
                    "ngram",
                    vec![0],
                    serde_json::json!({"n": 1, "use_stemming": false, "common_words_gazetteer_name": null}),
                )],
                crf: Some(Crf { labels, state, trans: vec![] }),
            };
            let files = Files::new(&spec);
            let dir = files.scratch.join("filler");
            write_filler(&spec, "intent", &filler, &dir);
            let real = CRFSlotFiller::from_path(&dir, files.shared(&spec)).map_err(text_of)?;
            let got = no_panic(|| real.get_slots(&text))?;
            obs.evals += 1;
            let strict = strict_decode(&case.tags, case.scheme);
            match (&strict, &case.missing) {
                (Some(list), Some(m)) => {
                    let uses = list.iter().any(|(_, n)| n == m);
                    ensure!(
                        got.is_err() == uses,
                        "{:?} labelled {:?} with no entity for {:?}: {:?}", text, case.tags, m, got
                    );
                    obs.label("a slot without entity");
                }
                (None, Some(m)) if got.is_err() => {
                    ensure!(
                        case.tags.iter().any(|t| t != "O" && label_name(t) == *m),
                        "{:?} labelled {:?}: {:?}", text, case.tags, got
                    );
                }
                _ => {}
            }
            if let Ok(slots) = &got {
                reads(&text, &tokens, &case.tags, case.scheme, &case.mapping, &raws!(slots))?;
                if let Some(m) = &case.missing {
                    ensure!(slots.iter().all(|s| s.slot_name != *m), "{:?}: the slot {:?} has no entity", text, m);
                }
                if slots.len() >= 2 || (strict.is_none() && !slots.is_empty()) {
                    obs.hit("at least two slots, or labels that encode no slots");
                }
                obs.label(match strict {
                    Some(_) => "labels of slots",
                    None => "labels that encode no slots",
                });
            } else if case.missing.is_none() {
                return Err(format!("{:?} labelled {:?}: {:?}", text, case.tags, got));
            }
            Ok(())
        },
    );
    run.assume("labels of the tagging scheme");
}

// ---- C14

fn shape(token: &str) -> &'static str {
    let low = |c: char| c.is_lowercase();
    let up = |c: char| c.is_uppercase();
    let mut chars = token.chars();
    if token.is_empty() {
        "xX"
    } else if token.chars().all(low) {
        "xxx"
    } else if token.chars().all(up) {
        "XXX"
    } else if up(chars.next().unwrap()) && chars.all(low) {
        "Xxx"
    } else {
        "xX"
    }
}

fn arg<'a>(f: &'a Factory, name: &str) -> &'a serde_json::Value {
    &f.args[name]
}

fn prefix_of(scheme: u64, index: usize, all: &[usize]) -> String {
    let at = all.iter().position(|i| *i == index).unwrap();
    tag_of(scheme as u8, at, all.len()).to_string()
}

/// (name, value) of the features of a factory at a token
fn feature_at(w: &World, spec: &Spec, f: &Factory, text: &str, tokens: &[Token], i: usize) -> Vec<(String, String)> {
    let value = &tokens[i].value;
    let norm = normalize(value);
    let one = |name: String, v: Option<String>| -> Vec<(String, String)> { v.map(|v| (name, v)).into_iter().collect() };
    let stem = f.args.get("use_stemming").and_then(|s| s.as_bool()).unwrap_or(false);
    match &*f.name {
        "is_digit" => one("is_digit".into(), if value.chars().all(|c| c.is_ascii_digit()) { Some("1".into()) } else { None }),
        "length" => one("length".into(), Some(chars(value).to_string())),
        "is_first" => one("is_first".into(), if i == 0 { Some("1".into()) } else { None }),
        "is_last" => one("is_last".into(), if i + 1 == tokens.len() { Some("1".into()) } else { None }),
        "ngram" => {
            let n = arg(f, "n").as_u64().unwrap() as usize;
            let words: Vec<String> = tokens
                .iter()
                .skip(i)
                .take(n)
                .map(|t| {
                    let v = stems(spec, stem, &t.value);
                    match arg(f, "common_words_gazetteer_name").as_str() {
                        Some(g) if !spec.res.gazetteers[g].contains(&v) => "rare_word".to_string(),
                        _ => v,
                    }
                })
                .collect();
            one(format!("ngram_{}", n), if words.len() == n { Some(words.join(" ")) } else { None })
        }
        "shape_ngram" => {
            let n = arg(f, "n").as_u64().unwrap() as usize;
            let words: Vec<&str> = tokens.iter().skip(i).take(n).map(|t| shape(&t.value)).collect();
            one(format!("shape_ngram_{}", n), if words.len() == n { Some(words.join(" ")) } else { None })
        }
        "prefix" | "suffix" => {
            let n = arg(f, &format!("{}_size", f.name)).as_u64().unwrap() as usize;
            let all: Vec<char> = norm.chars().collect();
            let chunk = if n > all.len() {
                None
            } else if f.name == "prefix" {
                Some(all[..n].iter().collect())
            } else {
                Some(all[all.len() - n..].iter().collect())
            };
            one(format!("{}_{}", f.name, n), chunk)
        }
        "entity_match" => {
            let words: Vec<String> = tokens.iter().map(|t| stems(spec, stem, &t.value)).collect();
            let mut ranges = vec![];
            let mut at = 0;
            for x in &words {
                ranges.push(at..at + chars(x));
                at += chars(x) + 1;
            }
            let mut out = vec![];
            for e in arg(f, "entities").as_array().unwrap() {
                let e = e.as_str().unwrap().to_string();
                let found = w.custom(&words.join(" "), Some(&[e.clone()]), 0);
                out.extend(matched(format!("entity_match_{}", e), f, &found, &ranges, i));
            }
            out
        }
        "builtin_entity_match" => {
            let end = tokens.last().unwrap().char_range.end;
            let blank: String = text
                .chars()
                .take(end)
                .enumerate()
                .map(|(k, c)| if tokens.iter().any(|t| t.char_range.contains(&k)) { c } else { ' ' })
                .collect();
            let ranges: Vec<Range<usize>> = tokens.iter().map(|t| t.char_range.clone()).collect();
            let mut out = vec![];
            for e in arg(f, "entity_labels").as_array().unwrap() {
                let e = e.as_str().unwrap().to_string();
                let found = w.builtin(&blank, Some(&kinds(&[e.clone()])), 0);
                out.extend(matched(format!("builtin_entity_match_{}", e), f, &found, &ranges, i));
            }
            out
        }
        "word_cluster" => {
            let name = arg(f, "cluster_name").as_str().unwrap();
            one(format!("word_cluster_{}", name), cluster(spec, name, &value.to_lowercase()))
        }
        other => panic!("{}", other),
    }
}

fn matched(name: String, f: &Factory, found: &[Found], ranges: &[Range<usize>], i: usize) -> Vec<(String, String)> {
    let overlap = |a: &Range<usize>, b: &Range<usize>| a.start < b.end && b.start < a.end;
    found
        .iter()
        .find(|e| overlap(&e.range, &ranges[i]))
        .map(|e| {
            let all: Vec<usize> = (0..ranges.len()).filter(|k| overlap(&e.range, &ranges[*k])).collect();
            (name, prefix_of(arg(f, "tagging_scheme_code").as_u64().unwrap(), i, &all))
        })
        .into_iter()
        .collect()
}

/// All the features of the tokens
fn features_of(w: &World, spec: &Spec, factories: &[Factory], text: &str) -> Vec<Vec<(String, String)>> {
    let tokens = tokenize(text, w.l);
    let n = tokens.len() as i64;
    let mut out = vec![vec![]; tokens.len()];
    for f in factories {
        let values: Vec<_> = (0..tokens.len()).map(|i| feature_at(w, spec, f, text, &tokens, i)).collect();
        for (k, features) in out.iter_mut().enumerate() {
            for o in &f.offsets {
                let at = k as i64 + i64::from(*o);
                if at >= 0 && at < n {
                    for (name, v) in &values[at as usize] {
                        let name = if *o == 0 { name.clone() } else { format!("{}[{:+}]", name, o) };
                        features.push((name, v.clone()));
                    }
                }
            }
        }
    }
    out
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Configured {
    spec: Spec,
    factories: Vec<Factory>,
    texts: Vec<String>,
    broken: usize,
}

pub fn c14(run: &mut Run) {
    run.section(
        "features of the tokens",
        "at least two tokens and a feature that depends on the resources or the neighbours",
        (6000, 300_000),
        1500,
        |g| {
            let mut spec = gen_spec(g, PROB);
            let factories = g.vec(1, 7, |g| {
                let mut f = gen_factory(g, &spec);
                if g.chance(3) {
                    f.offsets = vec![g.int(-40, 40) as i32, i32::max_value(), -2147483647];
                }
                f
            });
            spec.parsers = vec![];
            let mut texts = gen_texts(g, &spec, 1, 4);
            if g.chance(40) {
                // a text of a single word
                let mut words: Vec<String> = spec.res.stems.iter().flatten().flatten().cloned().collect();
                words.extend(spec.entities.values().flat_map(|e| e.values.iter().map(|v| v.0.clone())));
                words.extend(spec.res.clusters.values().flatten().map(|c| c.0.clone()));
                words.retain(|w| !w.is_empty() && !w.contains(' '));
                if !words.is_empty() {
                    let word = g.pick(&words).clone();
                    texts.push(if g.chance(30) { word.to_uppercase() } else { word });
                }
            }
            Configured { spec, factories, texts, broken: g.below(60) }
        },
        |case, obs| {
            let spec = &case.spec;
            let files = Files::new(spec);
            let w = files.world(spec);
            let dir = files.scratch.join("filler");
            let mut filler = Filler {
                slots: BTreeMap::new(),
                scheme: 0,
                factories: case.factories.clone(),
                crf: Some(Crf { labels: vec!["O".into()], state: vec![("a".into(), 0, 1.)], trans: vec![] }),
            };
            write_filler(spec, "intent", &filler, &dir);
            let real = CRFSlotFiller::from_path(&dir, files.shared(spec)).map_err(text_of)?;
            for text in &case.texts {
                if chars(text) > 2000 {
                    continue;
                }
                let got = no_panic(|| real.compute_features(text))?.map_err(text_of)?;
                obs.evals += 1;
                let want = features_of(&w, spec, &case.factories, text);
                ensure!(got.len() == want.len(), "{:?}: features of {} tokens instead of {}", text, got.len(), want.len());
                for (i, (mut a, mut b)) in got.into_iter().zip(want).enumerate() {
                    a.sort();
                    b.sort();
                    if a != b {
                        let extra: Vec<_> = a.iter().filter(|x| !b.contains(x)).collect();
                        let less: Vec<_> = b.iter().filter(|x| !a.contains(x)).collect();
                        return Err(format!(
                            "{:?}, token {}: unexpected features {:?}, missing features {:?} ({} instead of {})",
                            text, i, extra, less, a.len(), b.len()
                        ));
                    }
                    for (name, _) in &b {
                        let kind: String = name.chars().take_while(|c| *c != '[' && !c.is_ascii_digit()).collect();
                        let kind = kind.splitn(2, "match_").next().unwrap().to_string();
                        obs.label(&kind);
                        if i > 0 && (name.contains('[') || name.contains("match") || name.contains("cluster")) {
                            obs.hit("at least two tokens and a feature that depends on the resources or the neighbours");
                        }
                    }
                }
            }
            // without tagger
            if case.broken >= 56 {
                filler.crf = None;
                write_filler(spec, "intent", &filler, &dir);
                let real = CRFSlotFiller::from_path(&dir, files.shared(spec)).map_err(text_of)?;
                for text in &case.texts {
                    let got = no_panic(|| real.compute_features(text))?.map_err(text_of)?;
                    let n = tokenize(text, w.l).len();
                    ensure!(
                        got.len() == n && got.iter().all(|f| f.is_empty()),
                        "{:?} has {} tokens, features without tagger: {:?}", text, n, got
                    );
                }
            }
            // a configuration that cannot be satisfied
            if case.broken < 4 {
                use serde_json::json;
                let f = match case.broken {
                    0 => factory("no_such_feature", vec![0], json!({})),
                    1 => factory("word_cluster", vec![0], json!({"cluster_name": "no such cluster"})),
                    2 => factory(
                        "ngram",
                        vec![0],
                        json!({"n": 1, "use_stemming": false, "common_words_gazetteer_name": "no such gazetteer"}),
                    ),
                    _ => factory("prefix", vec![0], json!({"size": 1})),
                };
                filler.factories.push(f);
                write_filler(spec, "intent", &filler, &dir);
                let r = no_panic(|| CRFSlotFiller::from_path(&dir, files.shared(spec)))?;
                ensure!(r.is_err(), "the features {:?} are accepted", filler.factories.last());
                obs.label("unknown feature or resource");
            }
            Ok(())
        },
    );
}

// ---- C15

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Sequences {
    spec: Spec,
    filler: Filler,
    texts: Vec<String>,
    unseen: Vec<Vec<usize>>,
}

fn score(features: &[Vec<(String, String)>], crf: &Crf, path: &[usize]) -> f64 {
    let mut s = 0.;
    for (i, y) in path.iter().enumerate() {
        for (n, v) in &features[i] {
            let a = format!("{}:{}", n, v);
            for (attr, label, weight) in &crf.state {
                if *attr == a && label == y {
                    s += weight;
                }
            }
        }
        if i > 0 {
            for (a, b, weight) in &crf.trans {
                if *a == path[i - 1] && b == y {
                    s += weight;
                }
            }
        }
    }
    s
}

fn log_sum(terms: impl Iterator<Item = f64>) -> f64 {
    let all: Vec<f64> = terms.collect();
    let max = all.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    max + all.iter().map(|t| (t - max).exp()).sum::<f64>().ln()
}

fn judge_long(
    real: &CRFSlotFiller,
    text: &str,
    tokens: &[Token],
    tags: &[String],
    path: &[usize],
    own: &[Vec<f64>],
    next: &[Vec<f64>],
    log_z: f64,
) -> Check {
    let p = no_panic(|| real.get_sequence_probability(tokens, tags.to_vec()))?.map_err(text_of)?;
    let mut want = own[0][path[0]] - log_z;
    for i in 1..path.len() {
        want += next[path[i - 1]][path[i]] + own[i][path[i]];
    }
    let same = if want < -600. { p < 1e-250 } else { (p.ln() - want).abs() < 1e-6 * (1. + want.abs()) };
    ensure!(same, "{:?} labelled {:?}: probability {} instead of exp({})", text, tags, p, want);
    Ok(())
}

pub fn c15(run: &mut Run) {
    run.section(
        "probabilities of all the label sequences",
        "at least two tokens and three labels",
        (3000, 120_000),
        1500,
        |g| {
            let mut spec = gen_spec(g, Want { max_slots: 2, ..PROB });
            let intent = g.pick(&spec.intents).clone();
            let mut filler = gen_filler(g, &spec, &intent);
            let texts = gen_texts(g, &spec, 1, 3);
            // nothing is known of the order of several trained models here
            if let Some(c) = &mut filler.crf {
                if g.chance(40) {
                    let mut order: Vec<usize> = (0..c.labels.len()).collect();
                    g.shuffle(&mut order);
                    let labels = c.labels.clone();
                    for (i, o) in order.iter().enumerate() {
                        c.labels[*o] = labels[i].clone();
                    }
                    for s in &mut c.state {
                        s.1 = order[s.1];
                    }
                    for t in &mut c.trans {
                        *t = (order[t.0], order[t.1], t.2);
                    }
                }
            }
            spec.parsers = vec![];
            let unseen = g.vec(1, 4, |g| g.vec(1, 6, |g| g.below(20)));
            Sequences { spec, filler, texts, unseen }
        },
        |case, obs| {
            let spec = &case.spec;
            let files = Files::new(spec);
            let w = files.world(spec);
            let dir = files.scratch.join("filler");
            write_filler(spec, "intent", &case.filler, &dir);
            let real = CRFSlotFiller::from_path(&dir, files.shared(spec)).map_err(text_of)?;
            let names: Vec<String> = case.filler.slots.keys().cloned().collect();
            for text in &case.texts {
                let mut tokens = tokenize(text, w.l);
                let labels = case.filler.crf.as_ref().map(|c| c.labels.clone()).unwrap_or_default();
                // as many tokens as can be enumerated
                let mut most = 0;
                let mut total = 1;
                while most < tokens.len() && most < 6 && total * labels.len().max(1) <= 250 {
                    total *= labels.len().max(1);
                    most += 1;
                }
                tokens.truncate(most);
                if tokens.is_empty() {
                    continue;
                }
                let end = tokens.last().unwrap().range.end;
                let text = &text[..end];
                if chars(text) > 1000 {
                    continue;
                }
                obs.evals += 1;
                let crf = match &case.filler.crf {
                    None => {
                        // no tagger
                        for seq in &case.unseen {
                            let tags: Vec<String> = (0..tokens.len())
                                .map(|i| match seq[i % seq.len()] {
                                    k if k < 16 => "O".to_string(),
                                    k => format!("B-{}", k),
                                })
                                .collect();
                            let want = if tags.iter().all(|t| t == "O") { 1. } else { 0. };
                            let p = real.get_sequence_probability(&tokens, tags.clone()).map_err(text_of)?;
                            ensure!(p == want, "{:?} labelled {:?} without tagger: {}", text, tags, p);
                            obs.label("no tagger");
                        }
                        let slots = real.get_slots(text).map_err(text_of)?;
                        ensure!(slots.is_empty(), "{:?} without tagger: {:?}", text, slots);
                        continue;
                    }
                    Some(c) => c,
                };
                let features = features_of(&w, spec, &case.filler.factories, text);
                let mut scores: Vec<(Vec<usize>, f64)> = vec![];
                let mut path = vec![0; tokens.len()];
                'all: loop {
                    scores.push((path.clone(), score(&features, crf, &path)));
                    let mut i = 0;
                    loop {
                        if i == path.len() {
                            break 'all;
                        }
                        path[i] += 1;
                        if path[i] < labels.len() {
                            break;
                        }
                        path[i] = 0;
                        i += 1;
                    }
                }
                let max = scores.iter().map(|s| s.1).fold(f64::NEG_INFINITY, f64::max);
                let z: f64 = scores.iter().map(|s| (s.1 - max).exp()).sum();
                let mut sum = 0.;
                let tags_of = |path: &[usize]| -> Vec<String> { path.iter().map(|y| labels[*y].clone()).collect() };
                for (path, s) in &scores {
                    let p = no_panic(|| real.get_sequence_probability(&tokens, tags_of(path)))?.map_err(text_of)?;
                    let want = (s - max).exp() / z;
                    ensure!(
                        (0.0..=1.0 + 1e-9).contains(&p) && (p - want).abs() < 1e-7,
                        "{:?} labelled {:?}: probability {} instead of {}", text, tags_of(path), p, want
                    );
                    sum += p;
                }
                ensure!((sum - 1.).abs() < 1e-6, "{:?}: the probabilities add up to {}", text, sum);
                if tokens.len() > 1 && labels.len() > 2 {
                    obs.hit("at least two tokens and three labels");
                }
                // the sequence that is chosen
                let best: Vec<&Vec<usize>> = scores.iter().filter(|s| s.1 > max - 1e-7).map(|s| &s.0).collect();
                let slots = real.get_slots(text).map_err(text_of)?;
                let slots = raws!(slots);
                let mut why = String::new();
                let mut fits = false;
                for path in &best {
                    match reads(text, &tokens, &tags_of(path), case.filler.scheme, &case.filler.slots, &slots) {
                        Ok(()) => fits = true,
                        Err(e) => why = e,
                    }
                }
                ensure!(fits, "not a most probable sequence: {}", why);
                if best.len() == 1 && !slots.is_empty() {
                    obs.label("slots of the only most probable sequence");
                }
                // labels that the tagger does not know
                for seq in &case.unseen {
                    let tags: Vec<String> = (0..tokens.len())
                        .map(|i| match seq[i % seq.len()] {
                            k @ 0..=9 => labels[k % labels.len()].clone(),
                            k @ 10..=13 if !names.is_empty() => format!("X-{}", names[k % names.len()]),
                            k @ 14..=16 => format!("I-unseen{}", k),
                            17 => "".to_string(),
                            18 => "é".to_string(),
                            _ => "O".to_string(),
                        })
                        .collect();
                    let p = no_panic(|| real.get_sequence_probability(&tokens, tags.clone()))?.map_err(text_of)?;
                    ensure!((0.0..=1.0 + 1e-9).contains(&p), "{:?} labelled {:?}: probability {}", text, tags, p);
                    if labels.iter().any(|l| l == "O") {
                        let known: Vec<String> = tags
                            .iter()
                            .map(|t| if labels.contains(t) { t.clone() } else { "O".to_string() })
                            .collect();
                        if known != tags {
                            obs.label("labels never seen");
                        }
                        let path: Vec<usize> =
                            known.iter().map(|t| labels.iter().position(|l| l == t).unwrap()).collect();
                        let want = (score(&features, crf, &path) - max).exp() / z;
                        ensure!(
                            (p - want).abs() < 1e-7,
                            "{:?} labelled {:?}: probability {} instead of {}", text, tags, p, want
                        );
                    }
                }
            }
            Ok(())
        },
    );
    run.section(
        "probabilities in long texts",
        "at least nine tokens, three labels and a sequence that is not all outside",
        (1200, 60_000),
        1500,
        |g| {
            let mut spec = gen_spec(g, Want { max_slots: 2, ..PROB });
            let intent = g.pick(&spec.intents).clone();
            let filler = gen_filler(g, &spec, &intent);
            let texts = (0..g.range(1, 2))
                .map(|_| gen_texts(g, &spec, 2, 9).join(" "))
                .filter(|t| chars(t) < 1000)
                .collect();
            spec.parsers = vec![];
            let unseen = g.vec(1, 4, |g| g.vec(1, 9, |g| g.below(20)));
            Sequences { spec, filler, texts, unseen }
        },
        |case, obs| {
            let spec = &case.spec;
            let crf = match &case.filler.crf {
                None => return Ok(()),
                Some(c) => c,
            };
            let files = Files::new(spec);
            let w = files.world(spec);
            let dir = files.scratch.join("filler");
            write_filler(spec, "intent", &case.filler, &dir);
            let real = CRFSlotFiller::from_path(&dir, files.shared(spec)).map_err(text_of)?;
            let names: Vec<String> = case.filler.slots.keys().cloned().collect();
            let labels = &crf.labels;
            for text in &case.texts {
                let tokens = tokenize(text, w.l);
                if tokens.is_empty() || labels.is_empty() {
                    continue;
                }
                obs.evals += 1;
                let features = features_of(&w, spec, &case.filler.factories, text);
                let n = labels.len();
                let mut own = vec![vec![0f64; n]; tokens.len()];
                for (i, list) in features.iter().enumerate() {
                    for (name, value) in list {
                        let a = format!("{}:{}", name, value);
                        for (attr, label, weight) in &crf.state {
                            if *attr == a {
                                own[i][*label] += weight;
                            }
                        }
                    }
                }
                let mut next = vec![vec![0f64; n]; n];
                for (a, b, weight) in &crf.trans {
                    next[*a][*b] += weight;
                }
                // best scores of what comes before and after each label, and logarithm of the sum
                // of the exponentials of the scores
                let mut before = vec![own[0].clone()];
                let mut sums = own[0].clone();
                for i in 1..tokens.len() {
                    let last = before[i - 1].clone();
                    let mut best = vec![0.; n];
                    let mut sum = vec![0.; n];
                    for y in 0..n {
                        best[y] = own[i][y] + (0..n).map(|x| last[x] + next[x][y]).fold(f64::NEG_INFINITY, f64::max);
                        sum[y] = own[i][y] + log_sum((0..n).map(|x| sums[x] + next[x][y]));
                    }
                    before.push(best);
                    sums = sum;
                }
                let log_z = log_sum(sums.iter().cloned());
                let mut after = vec![vec![0f64; n]; tokens.len()];
                for i in (0..tokens.len() - 1).rev() {
                    for x in 0..n {
                        after[i][x] = (0..n)
                            .map(|y| next[x][y] + own[i + 1][y] + after[i + 1][y])
                            .fold(f64::NEG_INFINITY, f64::max);
                    }
                }
                let max = before.last().unwrap().iter().cloned().fold(f64::NEG_INFINITY, f64::max);
                let best: Vec<Vec<usize>> = (0..tokens.len())
                    .map(|i| (0..n).filter(|y| before[i][*y] + after[i][*y] > max - 1e-6).collect())
                    .collect();
                let tags_of = |path: &[usize]| -> Vec<String> { path.iter().map(|y| labels[*y].clone()).collect() };
                let slots = real.get_slots(text).map_err(text_of)?;
                let slots = raws!(slots);
                let mut paths: Vec<Vec<usize>> = vec![];
                if best.iter().all(|b| b.len() == 1) {
                    let path: Vec<usize> = best.iter().map(|b| b[0]).collect();
                    reads(text, &tokens, &tags_of(&path), case.filler.scheme, &case.filler.slots, &slots)
                        .map_err(|e| format!("not the most probable sequence: {}", e))?;
                    if !slots.is_empty() {
                        obs.label("slots of the only most probable sequence");
                    }
                    paths.push(path);
                }
                let outside = labels.iter().position(|l| l == "O");
                for seq in &case.unseen {
                    let tags: Vec<String> = (0..tokens.len())
                        .map(|i| match seq[i % seq.len()] {
                            k @ 0..=13 => labels[(k + i / seq.len()) % n].clone(),
                            k @ 14..=16 if !names.is_empty() => format!("X-{}", names[k % names.len()]),
                            _ => "O".to_string(),
                        })
                        .collect();
                    let p = no_panic(|| real.get_sequence_probability(&tokens, tags.clone()))?.map_err(text_of)?;
                    ensure!((0.0..=1.0 + 1e-9).contains(&p), "{:?} labelled {:?}: probability {}", text, tags, p);
                    if let Some(o) = outside {
                        paths.push(tags.iter().map(|t| labels.iter().position(|l| l == t).unwrap_or(o)).collect());
                        judge_long(&real, text, &tokens, &tags, paths.last().unwrap(), &own, &next, log_z)?;
                        if tokens.len() >= 9 && n >= 3 && paths.last().unwrap().iter().any(|y| *y != o) {
                            obs.hit("at least nine tokens, three labels and a sequence that is not all outside");
                        }
                    }
                }
                for path in &paths {
                    judge_long(&real, text, &tokens, &tags_of(path), path, &own, &next, log_z)?;
                }
            }
            Ok(())
        },
    );
    run.assume("finite weights; at most 250 sequences of labels by text where all of them are tried");
}

