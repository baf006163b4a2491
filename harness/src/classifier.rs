//! Checks of the intent classifier: C10 (whole classifier), C11, C12.
use crate::common::*;
use crate::core::*;
use crate::refs::*;
use crate::spec::*;
use crate::text::*;
use serde::{Deserialize, Serialize};
use snips_nlu_lib::{IntentClassifier, LogRegIntentClassifier};
use std::path::Path;

fn classifier_of(spec: &Spec) -> &Classifier {
    match &spec.parsers[0] {
        Parser::Prob(p) => &p.classifier,
        _ => unreachable!(),
    }
}

fn open_classifier(dir: &Path, files: &Files, spec: &Spec) -> std::result::Result<LogRegIntentClassifier, String> {
    LogRegIntentClassifier::from_path(dir, files.shared(spec)).map_err(text_of)
}

/// A text made of the vocabulary and pairs of the featurizer
fn gen_known(g: &mut Gen, spec: &Spec) -> String {
    let f = match &classifier_of(spec).featurizer {
        Some(f) => f,
        None => return gen_text(g, spec),
    };
    let plain: Vec<&String> = f.tfidf.vocab.iter().filter(|v| !v.contains("entityfeature")).collect();
    let mut out: Vec<String> = vec![];
    for _ in 0..g.range(1, 9) {
        match g.below(8) {
            0 | 1 if !plain.is_empty() => out.push((*g.pick(&plain)).clone()),
            2 | 3 => {
                if let Some(c) = f.cooc.as_ref().filter(|c| !c.pairs.is_empty()) {
                    let (a, b) = g.pick(&c.pairs).clone();
                    let (a, b) = if g.chance(30) { (b, a) } else { (a, b) };
                    out.push(a);
                    for _ in 0..g.below(4) {
                        out.push(filler_word(g, spec, c));
                    }
                    out.push(b);
                }
            }
            4 => {
                let e = g.pick(&spec.entities.values().collect::<Vec<_>>()).values.clone();
                out.push(g.pick(&e).0.clone());
            }
            5 if !f.tfidf.scope.is_empty() => {
                let kind = g.pick(&f.tfidf.scope).clone();
                out.push(builtin_text(g, &kind));
            }
            6 => {
                if let Some(list) = f.tfidf.clusters.as_ref().and_then(|c| spec.res.clusters.get(c)) {
                    if !list.is_empty() {
                        out.push(g.pick(list).0.clone());
                    }
                }
            }
            _ => {
                if let Some(s) = &spec.res.stems {
                    if !s.is_empty() {
                        let line = g.pick(s).clone();
                        out.push(g.pick(&line).clone());
                        continue;
                    }
                }
                out.push(g.word(WORDS));
            }
        }
    }
    let sep = if g.chance(15) { g.word(&[", ", "  ", " ? ", "-"]) } else { " ".to_string() };
    out.join(&sep)
}

fn filler_word(g: &mut Gen, spec: &Spec, c: &Cooc) -> String {
    if let (true, Some(u)) = (g.chance(30), &c.unknown) {
        return u.clone();
    }
    if let (true, Some(s)) = (g.chance(40), &spec.res.stop_words) {
        if !s.is_empty() {
            return g.pick(s).clone();
        }
    }
    g.word(WORDS)
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Texts {
    spec: Spec,
    texts: Vec<String>,
}

fn gen_texts_case(g: &mut Gen, need_cooc: bool) -> Texts {
    let mut spec = gen_spec(g, PROB);
    if let Parser::Prob(p) = &mut spec.parsers[0] {
        // slot fillers are of no use here
        let mut c = p.classifier.clone();
        if need_cooc {
            for _ in 0..4 {
                if c.featurizer.as_ref().map(|f| f.cooc.is_some()).unwrap_or(false) {
                    break;
                }
                let base = Spec { parsers: vec![], ..spec.clone() };
                c = gen_classifier(g, &base);
            }
        }
        spec.parsers = vec![Parser::Prob(Prob { classifier: c, fillers: Default::default() })];
    }
    let mut texts = gen_texts(g, &spec, 1, 2);
    for _ in 0..g.range(1, 3) {
        texts.push(gen_known(g, &spec));
    }
    Texts { spec, texts }
}

pub fn c11(run: &mut Run) {
    run.section(
        "text features",
        "at least two non-zero components",
        (6000, 300_000),
        1500,
        |g| gen_texts_case(g, false),
        |case, obs| {
            let spec = &case.spec;
            let c = classifier_of(spec);
            let files = Files::new(spec);
            let w = files.world(spec);
            let real = open_classifier(&files.dir.join(parser_name(0)).join("intent_classifier"), &files, spec)?;
            for text in &case.texts {
                let got = no_panic(|| real.compute_features(text))?.map_err(text_of)?;
                obs.evals += 1;
                let f = match &c.featurizer {
                    Some(f) => f,
                    None => {
                        ensure!(got.is_empty(), "{:?}: features {:?} without featurizer", text, got);
                        continue;
                    }
                };
                let (raw, want) = tfidf(&w, spec, &f.tfidf, text);
                let pairs = f.cooc.as_ref().map(|c| c.pairs.len()).unwrap_or(0);
                ensure!(
                    got.len() == want.len() + pairs,
                    "{:?}: {} features for {} words and {} pairs", text, got.len(), want.len(), pairs
                );
                for (i, x) in want.iter().enumerate() {
                    ensure!(
                        (f64::from(got[i]) - x).abs() < 1e-5,
                        "{:?}: the feature of {:?} (idf {}) is {} instead of {}; all the features: {:?} instead of {:?}",
                        text, f.tfidf.vocab[i], f.tfidf.idf[i], got[i], x, got, want
                    );
                }
                let n = raw.iter().filter(|x| **x > 0.).count();
                if n >= 2 {
                    obs.hit("at least two non-zero components");
                }
                if n == 0 {
                    obs.label("no component");
                }
                for (v, x) in f.tfidf.vocab.iter().zip(&raw) {
                    if *x > 0. {
                        if v.starts_with("builtinentityfeature") {
                            obs.label("builtin entity");
                        } else if v.starts_with("entityfeature") {
                            obs.label("custom entity");
                        } else if f.tfidf.clusters.as_ref().map(|c| spec.res.clusters[c].iter().any(|(_, k)| k == v)).unwrap_or(false) {
                            obs.label("word cluster");
                        } else {
                            obs.label("word");
                        }
                    }
                }
            }
            Ok(())
        },
    );
    run.assume("finite idf values; words of the vocabulary at the positions 0 to n-1");
}

pub fn c12(run: &mut Run) {
    run.section(
        "cooccurrences",
        "a known pair of words",
        (6000, 300_000),
        1500,
        |g| gen_texts_case(g, true),
        |case, obs| {
            let spec = &case.spec;
            let f = match &classifier_of(spec).featurizer {
                Some(f) => f,
                None => return Ok(()),
            };
            let c = match &f.cooc {
                Some(c) => c,
                None => return Ok(()),
            };
            let files = Files::new(spec);
            let w = files.world(spec);
            let real = open_classifier(&files.dir.join(parser_name(0)).join("intent_classifier"), &files, spec)?;
            for text in &case.texts {
                let got = no_panic(|| real.compute_features(text))?.map_err(text_of)?;
                obs.evals += 1;
                let want = cooc(&w, spec, c, text);
                let at = f.tfidf.vocab.len();
                ensure!(got.len() == at + want.len(), "{:?}: {} features", text, got.len());
                for (i, x) in want.iter().enumerate() {
                    ensure!(
                        f64::from(got[at + i]) == *x,
                        "{:?}: the feature of the pair {:?} is {} instead of {}", text, c.pairs[i], got[at + i], x
                    );
                    if *x == 1. {
                        obs.hit("a known pair of words");
                        if c.window.is_some() {
                            obs.label("in a window");
                        }
                        obs.label(if c.order { "in order" } else { "in any order" });
                    }
                }
            }
            Ok(())
        },
    );
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Scored {
    texts: Texts,
    /// columns added to (or removed from) the weights
    columns: i32,
    extra_rows: i32,
}

pub fn c10(run: &mut Run) {
    run.section(
        "scores of the intents of a text",
        "at least three intents and two features",
        (4000, 200_000),
        1500,
        |g| {
            let texts = gen_texts_case(g, false);
            Scored { texts, columns: *g.pick(&[-1, 1, 3]), extra_rows: *g.pick(&[-1, 1]) }
        },
        |case, obs| {
            let spec = &case.texts.spec;
            let c = classifier_of(spec);
            let files = Files::new(spec);
            let dir = files.dir.join(parser_name(0)).join("intent_classifier");
            let real = open_classifier(&dir, &files, spec)?;
            let weights = match (&c.featurizer, &c.intercept, &c.coeffs) {
                (Some(_), Some(i), Some(k)) if c.intents.len() > 1 => Some((i, k)),
                _ => None,
            };
            for text in &case.texts.texts {
                let got = no_panic(|| real.get_intents(text))?.map_err(text_of)?;
                obs.evals += 1;
                let want: Vec<f64> = match weights {
                    Some((intercept, coeffs)) if !text.is_empty() => {
                        let x = real.compute_features(text).map_err(text_of)?;
                        if c.intents.len() > 2 && x.iter().filter(|x| **x != 0.).count() > 1 {
                            obs.hit("at least three intents and two features");
                        }
                        let mut s: Vec<f64> = intercept
                            .iter()
                            .zip(coeffs)
                            .map(|(b, k)| {
                                let z = f64::from(*b) + k.iter().zip(x.iter()).map(|(a, b)| f64::from(*a) * f64::from(*b)).sum::<f64>();
                                1. / (1. + (-z).exp())
                            })
                            .collect();
                        if s.len() == 1 {
                            obs.label("two classes with one row of weights");
                            s = vec![1. - s[0], s[0]];
                        }
                        s
                    }
                    _ if c.intents.len() <= 1 => vec![1.],
                    _ => c.intents.iter().map(|i| if i.is_none() { 1. } else { 0. }).collect(),
                };
                ensure!(got.len() == c.intents.len().max(1), "{:?}: {:?} for the intents {:?}", text, got, c.intents);
                for (name, score) in c.intents.iter().zip(&want) {
                    let own: Vec<_> = got.iter().filter(|r| r.intent_name == *name).collect();
                    ensure!(
                        own.len() == 1 && (f64::from(own[0].confidence_score) - score).abs() < 2e-6,
                        "{:?}: {:?} should have the score {}, in {:?}", text, name, score, got
                    );
                }
                ensure!(
                    got.iter().all(|r| r.confidence_score >= 0. && r.confidence_score <= 1.),
                    "{:?}: a score is not in [0, 1]: {:?}", text, got
                );
            }
            // weights of another size
            if weights.is_some() {
                let mut other = c.clone();
                for row in other.coeffs.as_mut().unwrap() {
                    let n = row.len() as i32 + case.columns;
                    row.resize(n.max(0) as usize, 0.5);
                }
                let dir = files.scratch.join("columns");
                write_classifier(spec, &other, &dir);
                let real = open_classifier(&dir, &files, spec);
                for text in case.texts.texts.iter().filter(|t| !t.is_empty()) {
                    if let Ok(real) = &real {
                        let r = no_panic(|| real.get_intents(text))?;
                        ensure!(r.is_err(), "{:?}: {:?} with weights for {:+} features", text, r, case.columns);
                        obs.label("weights of another size");
                    }
                }
                let mut other = c.clone();
                let (i, k) = (other.intercept.as_mut().unwrap(), other.coeffs.as_mut().unwrap());
                if case.extra_rows > 0 || k.len() > 1 {
                    let row = k[0].clone();
                    if case.extra_rows > 0 {
                        i.push(1.);
                    } else {
                        k.push(row);
                    }
                    let dir = files.scratch.join("rows");
                    write_classifier(spec, &other, &dir);
                    let real = no_panic(|| open_classifier(&dir, &files, spec))?;
                    if let Ok(real) = &real {
                        for text in case.texts.texts.iter().filter(|t| !t.is_empty()) {
                            let r = no_panic(|| real.get_intents(text))?;
                            ensure!(r.is_err(), "{:?}: {:?} with {} intercepts and {} rows of weights", text, r,
                                other.intercept.as_ref().unwrap().len(), other.coeffs.as_ref().unwrap().len());
                        }
                    }
                    obs.label("intercept and weights of different numbers of classes");
                }
            }
            Ok(())
        },
    );
}
