//! C01 to C06, C16 to C18, C30, C31: the engine as a whole
use crate::common::*;
use crate::core::*;
use crate::refs::*;
use crate::spec::*;
use snips_nlu_lib::{
    DeterministicIntentParser, IntentParser, LookupIntentParser, ProbabilisticIntentParser, SharedResources,
    SnipsNluEngine,
};
use snips_nlu_ontology::{BuiltinEntityKind, IntentClassifierResult, IntentParserResult, Slot, SlotValue};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use crate::faults::with_jail;
use crate::ffi::live;
use crate::files::{differences, snapshot};
use std::path::{Path, PathBuf};
use std::sync::Arc;

pub type Filter = Option<Vec<String>>;

pub struct Engine<'a> {
    pub spec: &'a Spec,
    pub files: Files,
    pub engine: SnipsNluEngine,
}

pub fn open(spec: &Spec) -> std::result::Result<Engine, String> {
    let files = Files::new(spec);
    let engine = load(&files.dir)?;
    Ok(Engine { spec, files, engine })
}

pub fn load(dir: &Path) -> std::result::Result<SnipsNluEngine, String> {
    SnipsNluEngine::from_path(dir).map_err(|e| format!("the engine does not load: {} ({:?})", e, e.iter_causes().map(|c| c.to_string()).collect::<Vec<_>>()))
}

pub fn parse(e: &SnipsNluEngine, text: &str, white: &Filter, black: &Filter, n: usize, m: usize) -> std::result::Result<IntentParserResult, String> {
    let w = white.as_ref().map(|l| as_strs(l));
    let b = black.as_ref().map(|l| as_strs(l));
    if n == 0 && m == 0 && text.len() % 2 == 0 {
        return e.parse(text, w, b).map_err(text_of);
    }
    e.parse_with_alternatives(text, w, b, n, m).map_err(text_of)
}

pub fn names(spec: &Spec) -> Vec<String> {
    spec.intents.iter().map(|i| i.name.clone()).collect()
}

pub fn slots_of<'a>(spec: &'a Spec, intent: &str) -> &'a BTreeMap<String, String> {
    &spec.intents.iter().find(|i| i.name == intent).unwrap().slots
}

/// The intents allowed by the filters
pub fn allowed(spec: &Spec, white: &Filter, black: &Filter) -> BTreeSet<String> {
    names(spec)
        .into_iter()
        .filter(|n| white.as_ref().map(|w| w.contains(n)).unwrap_or(true))
        .filter(|n| black.as_ref().map(|b| !b.contains(n)).unwrap_or(true))
        .collect()
}

/// Filters to try: none, the ones of the case as whitelist, blacklist and both
pub fn filters(case: &Case) -> Vec<(Filter, Filter)> {
    let mut out = vec![(None, None)];
    for (i, f) in case.filters.iter().enumerate() {
        match i % 3 {
            0 => {
                out.push((Some(f.clone()), None));
                out.push((None, Some(f.clone())));
            }
            1 => out.push((Some(f.clone()), Some(case.filters[0].clone()))),
            _ => out.push((None, Some(f.clone()))),
        }
    }
    out
}

/// The single parsers of the engine
pub fn single_parsers(spec: &Spec, dir: &Path, shared: Arc<SharedResources>) -> std::result::Result<Vec<Box<dyn IntentParser>>, String> {
    spec.parsers
        .iter()
        .enumerate()
        .map(|(i, p)| {
            let path = dir.join(parser_name(i));
            Ok(match p {
                Parser::Det(_) => Box::new(DeterministicIntentParser::from_path(path, shared.clone()).map_err(text_of)?) as Box<dyn IntentParser>,
                Parser::Lookup(_) => Box::new(LookupIntentParser::from_path(path, shared.clone()).map_err(text_of)?) as _,
                Parser::Prob(_) => Box::new(ProbabilisticIntentParser::from_path(path, shared.clone()).map_err(text_of)?) as _,
            })
        })
        .collect()
}

const EPS: f32 = 1e-6;

/// Scores so close that rounding decides
pub fn near(a: &IntentClassifierResult, b: &IntentClassifierResult) -> bool {
    (close(a.confidence_score, b.confidence_score, 1e-5))
        || (a.intent_name.is_none() && close(b.confidence_score, 0.5, 1e-5))
        || (b.intent_name.is_none() && close(a.confidence_score, 0.5, 1e-5))
}

pub enum Same {
    Yes,
    /// rounding decides
    Near,
    No(String),
}

pub fn same(a: &IntentParserResult, b: &IntentParserResult) -> Same {
    if a.input != b.input {
        return Same::No("inputs".to_string());
    }
    if a.intent.intent_name != b.intent.intent_name {
        return if near(&a.intent, &b.intent) { Same::Near } else { Same::No("intents".to_string()) };
    }
    if !close(a.intent.confidence_score, b.intent.confidence_score, EPS) {
        return Same::No("confidences".to_string());
    }
    if a.slots != b.slots {
        return Same::No("slots".to_string());
    }
    if a.alternatives.len() != b.alternatives.len() {
        return Same::No("numbers of alternatives".to_string());
    }
    for (x, y) in a.alternatives.iter().zip(&b.alternatives) {
        if !close(x.intent.confidence_score, y.intent.confidence_score, EPS) {
            return Same::No("alternatives".to_string());
        }
        if x.intent.intent_name != y.intent.intent_name {
            if x.intent.confidence_score.to_bits() == y.intent.confidence_score.to_bits() {
                return Same::No("alternatives".to_string());
            }
            return Same::Near;
        }
        if x.slots != y.slots {
            return Same::No("slots of the alternatives".to_string());
        }
    }
    Same::Yes
}

pub fn check_same(obs: &mut Obs, what: &dyn Fn() -> String, a: &IntentParserResult, b: &IntentParserResult) -> Check {
    match same(a, b) {
        Same::Yes => Ok(()),
        Same::Near => {
            obs.label("left out: rounding decides");
            Ok(())
        }
        Same::No(why) => Err(format!("{}: different {}: {:?} and {:?}", what(), why, a, b)),
    }
}

pub fn same_scores(a: &[IntentClassifierResult], b: &[IntentClassifierResult]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| {
            close(x.confidence_score, y.confidence_score, EPS)
                && (x.intent_name == y.intent_name || x.confidence_score.to_bits() != y.confidence_score.to_bits())
        })
}

// ---- C01

fn check_slots(spec: &Spec, text: &str, intent: &str, slots: &[Slot], what: &dyn Fn() -> String) -> Check {
    let n = chars(text);
    let declared = slots_of(spec, intent);
    let mut end = 0;
    for s in slots {
        ensure!(
            s.range.start <= s.range.end && s.range.end <= n,
            "{}: range {:?} outside of the text of {} characters", what(), s.range, n
        );
        ensure!(s.range.start >= end, "{}: slots overlap or are out of order: {:?}", what(), slots);
        end = s.range.end;
        ensure!(
            s.raw_value == sub(text, &s.range),
            "{}: raw value {:?} but the text is {:?} at {:?}", what(), s.raw_value, sub(text, &s.range), s.range
        );
        ensure!(
            declared.get(&s.slot_name) == Some(&s.entity),
            "{}: slot {:?} of entity {:?}, the intent {:?} declares {:?}", what(), s.slot_name, s.entity, intent, declared
        );
    }
    Ok(())
}

pub fn c01(run: &mut Run) {
    run.section(
        "slots",
        "a slot is returned",
        (3500, 250_000),
        1500,
        |g| gen_case(g, ANY, (2, 4)),
        check_engine_slots,
    );
    // where the ranges of a result are the most likely to be seen: one parser, any value accepted
    run.section(
        "slots of any value",
        "a slot is returned",
        (3500, 150_000),
        1500,
        |g| {
            let want = [DET, DET, LOOKUP, PROB][g.below(4)];
            let mut case = gen_case(g, want, (3, 6));
            for e in case.spec.entities.values_mut() {
                e.extensible = true;
            }
            case
        },
        check_engine_slots,
    );
}

fn check_engine_slots(case: &Case, obs: &mut Obs) -> Check {
    let e = open(&case.spec)?;
    for text in &case.texts {
        for (w, b) in filters(case) {
            let r = parse(&e.engine, text, &w, &b, case.n, case.m)?;
            obs.evals += 1;
            ensure!(r.input == *text, "the input {:?} is given back as {:?}", text, r.input);
            match &r.intent.intent_name {
                Some(name) => check_slots(&case.spec, text, name, &r.slots, &|| format!("parsing {:?}", text))?,
                None => ensure!(r.slots.is_empty(), "slots without intent: {:?}", r),
            }
            if !r.slots.is_empty() {
                obs.hit("slots");
            }
            for a in &r.alternatives {
                match &a.intent.intent_name {
                    Some(name) => check_slots(&case.spec, text, name, &a.slots, &|| format!("alternative {:?} of {:?}", name, text))?,
                    None => ensure!(a.slots.is_empty(), "slots without intent: {:?}", r),
                }
                if !a.slots.is_empty() {
                    obs.hit("slots of an alternative");
                }
            }
        }
        for i in &case.spec.intents {
            let s = e.engine.get_slots_with_alternatives(text, &i.name, case.m).map_err(text_of)?;
            check_slots(&case.spec, text, &i.name, &s, &|| format!("slots of {:?} in {:?}", i.name, text))?;
            obs.evals += 1;
            for (slot, entity) in &i.slots {
                let s = e.engine.extract_slot_with_alternatives(text.clone(), &i.name, slot, case.m).map_err(text_of)?;
                obs.evals += 1;
                if let Some(s) = s {
                    check_slots(&case.spec, text, &i.name, &[s.clone()], &|| {
                        format!("extracting {:?} of {:?} from {:?}", slot, i.name, text)
                    })?;
                    ensure!(s.slot_name == *slot && s.entity == *entity, "extracting {:?} gives {:?}", slot, s);
                    obs.hit("extracted slot");
                }
            }
        }
    }
    Ok(())
}

// ---- C02

pub fn c02(run: &mut Run) {
    run.section(
        "filters",
        "a filter changes the intent",
        (4000, 250_000),
        1500,
        |g| gen_case(g, ANY, (2, 4)),
        |case, obs| {
            let e = open(&case.spec)?;
            let all = names(&case.spec);
            for text in &case.texts {
                let free = parse(&e.engine, text, &None, &None, case.n, case.m)?;
                for (w, b) in filters(case) {
                    let ok = allowed(&case.spec, &w, &b);
                    let r = parse(&e.engine, text, &w, &b, case.n, case.m)?;
                    obs.evals += 1;
                    for i in std::iter::once(&r.intent).chain(r.alternatives.iter().map(|a| &a.intent)) {
                        if let Some(name) = &i.intent_name {
                            ensure!(
                                ok.contains(name),
                                "{:?} is returned for {:?} with whitelist {:?} and blacklist {:?}", name, text, w, b
                            );
                        }
                    }
                    if r.intent.intent_name != free.intent.intent_name {
                        obs.hit("another intent");
                    }
                    if ok.is_empty() {
                        ensure!(
                            r.intent.intent_name.is_none() && r.slots.is_empty(),
                            "{:?} is returned for {:?} while whitelist {:?} and blacklist {:?} leave no intent", r, text, w, b
                        );
                        obs.label("no intent left");
                    }
                    // as the whitelist of what is left
                    let left: Vec<String> = ok.iter().cloned().collect();
                    let other = parse(&e.engine, text, &Some(left.clone()), &None, case.n, case.m)?;
                    check_same(obs, &|| format!("{:?} with whitelist {:?} and blacklist {:?}, then whitelist {:?}", text, w, b, left), &r, &other)?;
                    let out: Vec<String> = all.iter().filter(|n| !ok.contains(*n)).cloned().collect();
                    let other = parse(&e.engine, text, &None, &Some(out.clone()), case.n, case.m)?;
                    check_same(obs, &|| format!("{:?} with whitelist {:?} and blacklist {:?}, then blacklist {:?}", text, w, b, out), &r, &other)?;
                }
                let r = parse(&e.engine, text, &Some(all.clone()), &None, case.n, case.m)?;
                check_same(obs, &|| format!("{:?} with the whitelist of all the intents and without filter", text), &r, &free)?;
                let r = parse(&e.engine, text, &None, &Some(vec![]), case.n, case.m)?;
                check_same(obs, &|| format!("{:?} with an empty blacklist and without filter", text), &r, &free)?;
                // unknown names
                let mut unknown = vec!["".to_string(), "no such intent".to_string()];
                unknown.push(all[0].to_lowercase() + " ");
                unknown.push(if all[0] == all[0].to_uppercase() { all[0].to_lowercase() } else { all[0].to_uppercase() });
                unknown.extend(case.spec.intents[0].slots.keys().cloned());
                for u in unknown.into_iter().filter(|u| !all.contains(u)) {
                    let mut list = case.filters[0].clone();
                    list.insert(list.len() / 2, u.clone());
                    for (w, b) in vec![
                        (Some(list.clone()), None),
                        (None, Some(list.clone())),
                        (Some(case.filters[0].clone()), Some(list.clone())),
                        (Some(list.clone()), Some(case.filters[0].clone())),
                        (Some(list.clone()), Some(all.clone())),
                        (Some(vec![]), Some(list.clone())),
                    ] {
                        obs.evals += 1;
                        let r = parse(&e.engine, text, &w, &b, case.n, case.m);
                        ensure!(r.is_err(), "the unknown intent {:?} is accepted in {:?} {:?}: {:?}", u, w, b, r);
                    }
                }
            }
            Ok(())
        },
    );
}

// ---- C03

/// A slot list once resolved
pub fn resolved(w: &World, spec: &Spec, text: &str, slots: &[Raw], m: usize) -> Vec<Slot> {
    slots
        .iter()
        .filter_map(|s| {
            let (value, alternatives) = match resolve(w, spec, text, &s.range, &s.entity, m) {
                Resolved::Value(v, a) => (v, a),
                Resolved::Raw => (SlotValue::Custom(s.value.clone().into()), vec![]),
                Resolved::Dropped => return None,
            };
            Some(Slot {
                raw_value: s.value.clone(),
                value,
                alternatives,
                range: s.range.clone(),
                entity: s.entity.clone(),
                slot_name: s.slot.clone(),
                confidence_score: None,
            })
        })
        .collect()
}

pub fn c03(run: &mut Run) {
    run.section(
        "composition",
        "an intent is found by a parser that is not the first, or with slots",
        (3500, 250_000),
        1500,
        |g| {
            let mut c = gen_case(g, ANY, (2, 4));
            if g.chance(3) {
                c.spec.parsers = vec![];
            }
            c
        },
        |case, obs| {
            let e = open(&case.spec)?;
            let w = e.files.world(&case.spec);
            let parsers = single_parsers(&case.spec, &e.files.dir, e.files.shared(&case.spec))?;
            for text in &case.texts {
                for (white, black) in filters(case) {
                    obs.evals += 1;
                    let r = parse(&e.engine, text, &white, &black, 0, case.m)?;
                    let list: Option<Vec<String>> = if white.is_none() && black.is_none() {
                        None
                    } else {
                        Some(allowed(&case.spec, &white, &black).into_iter().collect())
                    };
                    let list = list.as_ref().map(|l| as_strs(l));
                    let mut want = IntentParserResult {
                        input: text.clone(),
                        intent: IntentClassifierResult { intent_name: None, confidence_score: 0.0 },
                        slots: vec![],
                        alternatives: vec![],
                    };
                    for (i, p) in parsers.iter().enumerate() {
                        let one = p.parse(text, list.as_ref().map(|l| &**l)).map_err(text_of)?;
                        want.intent = one.intent.clone();
                        if one.intent.intent_name.is_some() {
                            want.slots = resolved(&w, &case.spec, text, &raws!(one.slots), case.m);
                            if i > 0 {
                                obs.hit("found by a later parser");
                            }
                            if !want.slots.is_empty() {
                                obs.hit("slots");
                            }
                            break;
                        }
                    }
                    check_same(obs, &|| format!("{:?} with {:?} {:?}, then parser after parser", text, white, black), &r, &want)?;
                }
                for name in names(&case.spec) {
                    obs.evals += 1;
                    let got = e.engine.get_slots_with_alternatives(text, &name, case.m).map_err(text_of)?;
                    let mut want = vec![];
                    for (i, p) in parsers.iter().enumerate() {
                        let one = p.get_slots(text, &name).map_err(text_of)?;
                        if !one.is_empty() {
                            want = resolved(&w, &case.spec, text, &raws!(one), case.m);
                            if i > 0 {
                                obs.hit("slots found by a later parser");
                            }
                            break;
                        }
                    }
                    ensure!(got == want, "slots of {:?} for {:?}: {:?}, those of the first parser that finds slots are {:?}", text, name, got, want);
                    if case.m == 0 {
                        let got = e.engine.get_slots(text, &name).map_err(text_of)?;
                        ensure!(got == want, "slots of {:?} for {:?}: {:?} instead of {:?}", text, name, got, want);
                    }
                }
            }
            Ok(())
        },
    );
}

// ---- C04

pub fn c04(run: &mut Run) {
    run.section(
        "scores",
        "a score above 0",
        (4000, 250_000),
        1500,
        |g| {
            let mut c = gen_case(g, ANY, (2, 5));
            if g.chance(3) {
                c.spec.parsers = vec![];
            }
            c
        },
        |case, obs| {
            let e = open(&case.spec)?;
            let parsers = single_parsers(&case.spec, &e.files.dir, e.files.shared(&case.spec))?;
            for text in &case.texts {
                obs.evals += 1;
                let got = e.engine.get_intents(text).map_err(text_of)?;
                let mut want: BTreeMap<Option<String>, f32> = BTreeMap::new();
                for p in &parsers {
                    for r in p.get_intents(text).map_err(text_of)? {
                        let s = want.entry(r.intent_name).or_insert(0.);
                        *s = s.max(r.confidence_score);
                    }
                }
                for name in names(&case.spec) {
                    let n = got.iter().filter(|r| r.intent_name.as_ref() == Some(&name)).count();
                    ensure!(
                        n == 1 || parsers.is_empty() && n == 0,
                        "{:?} comes {} times in the intents of {:?}: {:?}", name, n, text, got
                    );
                }
                ensure!(
                    got.iter().filter(|r| r.intent_name.is_none()).count() <= 1,
                    "no intent comes several times for {:?}: {:?}", text, got
                );
                for r in &got {
                    ensure!(
                        r.confidence_score >= 0. && r.confidence_score <= 1. + EPS,
                        "a score of {:?} is out of [0, 1]: {:?}", text, got
                    );
                    ensure!(
                        want.get(&r.intent_name).map(|s| close(*s, r.confidence_score, EPS)).unwrap_or(false),
                        "scores of {:?}: {:?}, the highest scores of the parsers are {:?}", text, got, want
                    );
                    if r.confidence_score > 0. {
                        obs.hit("score above 0");
                    }
                }
                for (name, s) in &want {
                    ensure!(
                        *s == 0. || got.iter().any(|r| r.intent_name == *name),
                        "scores of {:?}: {:?}, the highest scores of the parsers are {:?}", text, got, want
                    );
                }
                ensure!(
                    got.windows(2).all(|p| p[0].confidence_score >= p[1].confidence_score),
                    "the scores of {:?} are not sorted: {:?}", text, got
                );
            }
            Ok(())
        },
    );
}

// ---- C05

fn without_alternatives(slots: &[Slot]) -> Vec<Slot> {
    slots
        .iter()
        .cloned()
        .map(|mut s| {
            s.alternatives = vec![];
            s
        })
        .collect()
}

fn bounded(slots: &[Slot], m: usize, obs: &mut Obs) -> Check {
    for s in slots {
        ensure!(s.alternatives.len() <= m, "more than {} alternatives: {:?}", m, s);
        for (i, a) in s.alternatives.iter().enumerate() {
            ensure!(*a != s.value && !s.alternatives[..i].contains(a), "alternative {:?} comes twice: {:?}", a, s);
            obs.hit("slot alternatives");
        }
    }
    Ok(())
}

pub fn c05(run: &mut Run) {
    run.section(
        "alternatives",
        "alternative intents or values are returned",
        (3500, 250_000),
        1500,
        |g| gen_case(g, ANY, (2, 4)),
        |case, obs| {
            let e = open(&case.spec)?;
            let (n, m) = (case.n, case.m);
            for text in &case.texts {
                let scores = e.engine.get_intents(text).map_err(text_of)?;
                for (w, b) in filters(case) {
                    obs.evals += 1;
                    let base = parse(&e.engine, text, &w, &b, 0, 0)?;
                    let r = parse(&e.engine, text, &w, &b, n, m)?;
                    ensure!(base.alternatives.is_empty(), "alternatives that were not asked for: {:?}", base);
                    bounded(&base.slots, 0, obs)?;
                    ensure!(
                        base.intent == r.intent && base.input == r.input && without_alternatives(&r.slots) == base.slots,
                        "asking for {} and {} alternatives changes {:?} into {:?}", n, m, base, r
                    );
                    bounded(&r.slots, m, obs)?;
                    let ok = allowed(&case.spec, &w, &b);
                    let left: Vec<&IntentClassifierResult> = scores
                        .iter()
                        .filter(|s| s.intent_name != r.intent.intent_name)
                        .filter(|s| s.intent_name.as_ref().map(|i| ok.contains(i)).unwrap_or(true))
                        .take(n)
                        .collect();
                    ensure!(
                        r.alternatives.len() == left.len(),
                        "{} alternatives for {:?} with {:?} {:?} instead of {}: {:?}, the scores are {:?}",
                        r.alternatives.len(), text, w, b, left.len(), r, scores
                    );
                    for (i, a) in r.alternatives.iter().enumerate() {
                        obs.hit("alternatives");
                        ensure!(
                            a.intent.intent_name != r.intent.intent_name
                                && r.alternatives[..i].iter().all(|o| o.intent.intent_name != a.intent.intent_name),
                            "an alternative repeats another result: {:?}", r
                        );
                        ensure!(
                            close(a.intent.confidence_score, left[i].confidence_score, EPS)
                                && scores.iter().any(|s| s.intent_name == a.intent.intent_name
                                    && close(s.confidence_score, a.intent.confidence_score, EPS)),
                            "alternatives {:?}, the scores are {:?}", r, scores
                        );
                        let slots = match &a.intent.intent_name {
                            Some(name) => e.engine.get_slots_with_alternatives(text, name, m).map_err(text_of)?,
                            None => vec![],
                        };
                        ensure!(
                            a.slots == slots,
                            "slots of the alternative {:?}: {:?}, but {:?} when asked for", a.intent, a.slots, slots
                        );
                        bounded(&a.slots, m, obs)?;
                    }
                }
                for i in &case.spec.intents {
                    let s0 = e.engine.get_slots(text, &i.name).map_err(text_of)?;
                    let s = e.engine.get_slots_with_alternatives(text, &i.name, m).map_err(text_of)?;
                    bounded(&s0, 0, obs)?;
                    bounded(&s, m, obs)?;
                    ensure!(s0 == without_alternatives(&s), "asking for {} alternatives changes {:?} into {:?}", m, s0, s);
                    for slot in i.slots.keys() {
                        let s0 = e.engine.extract_slot(text.clone(), &i.name, slot).map_err(text_of)?;
                        let s = e.engine.extract_slot_with_alternatives(text.clone(), &i.name, slot, m).map_err(text_of)?;
                        let (s0, s): (Vec<Slot>, Vec<Slot>) = (s0.into_iter().collect(), s.into_iter().collect());
                        bounded(&s0, 0, obs)?;
                        bounded(&s, m, obs)?;
                        ensure!(s0 == without_alternatives(&s), "asking for {} alternatives changes {:?} into {:?}", m, s0, s);
                    }
                }
            }
            Ok(())
        },
    );
}

// ---- C06

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Call {
    Parse { text: usize, white: Filter, black: Filter, n: usize, m: usize },
    Intents(usize),
    Slots(usize, String, usize),
    Extract(usize, String, String, usize),
    Unknown(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Answer {
    Parse(IntentParserResult),
    Intents(Vec<IntentClassifierResult>),
    Slots(Vec<Slot>),
    Slot(Option<Slot>),
    Failed(String),
}

pub fn gen_call(g: &mut Gen, case: &Case) -> Call {
    let i = g.pick(&case.spec.intents).clone();
    let text = g.below(case.texts.len());
    let filter = |g: &mut Gen| if g.chance(30) { Some(g.pick(&case.filters).clone()) } else { None };
    match g.below(10) {
        0..=3 => Call::Parse { text, white: filter(g), black: filter(g), n: g.below(4), m: g.below(3) },
        4 => Call::Parse { text, white: None, black: None, n: 0, m: 0 },
        5 | 6 => Call::Intents(text),
        7 => Call::Slots(text, i.name.clone(), g.below(3)),
        8 => match i.slots.keys().next() {
            Some(_) => {
                let names: Vec<String> = i.slots.keys().cloned().collect();
                Call::Extract(text, i.name.clone(), g.pick(&names).clone(), g.below(3))
            }
            None => Call::Intents(text),
        },
        _ => Call::Unknown(text),
    }
}

pub fn call(e: &SnipsNluEngine, texts: &[String], c: &Call) -> Answer {
    let fail = |e: failure::Error| Answer::Failed(e.to_string());
    match c {
        Call::Parse { text, white, black, n, m } => {
            let w = white.as_ref().map(|l| as_strs(l));
            let b = black.as_ref().map(|l| as_strs(l));
            e.parse_with_alternatives(&texts[*text], w, b, *n, *m).map(Answer::Parse).unwrap_or_else(fail)
        }
        Call::Intents(t) => e.get_intents(&texts[*t]).map(Answer::Intents).unwrap_or_else(fail),
        Call::Slots(t, i, m) => {
            e.get_slots_with_alternatives(&texts[*t], i, *m).map(Answer::Slots).unwrap_or_else(fail)
        }
        Call::Extract(t, i, s, m) => {
            e.extract_slot_with_alternatives(texts[*t].clone(), i, s, *m).map(Answer::Slot).unwrap_or_else(fail)
        }
        Call::Unknown(t) => match e.parse(&texts[*t], vec!["no such intent"], None) {
            Err(err) => match e.extract_slot(texts[*t].clone(), "no such intent", "slot") {
                Err(other) => Answer::Failed(format!("{} / {}", err, other)),
                Ok(s) => Answer::Slot(s),
            },
            Ok(r) => Answer::Parse(r),
        },
    }
}

pub fn agree(a: &Answer, b: &Answer) -> Same {
    match (a, b) {
        (Answer::Parse(x), Answer::Parse(y)) => same(x, y),
        (Answer::Intents(x), Answer::Intents(y)) => {
            if same_scores(x, y) { Same::Yes } else { Same::No("scores".to_string()) }
        }
        _ => {
            if a == b { Same::Yes } else { Same::No("answers".to_string()) }
        }
    }
}

fn check_agree(obs: &mut Obs, what: &dyn Fn() -> String, a: &Answer, b: &Answer) -> Check {
    match agree(a, b) {
        Same::Yes => Ok(()),
        Same::Near => {
            obs.label("left out: rounding decides");
            Ok(())
        }
        Same::No(why) => Err(format!("{}: different {}: {:?} and {:?}", what(), why, a, b)),
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct History {
    pub case: Case,
    pub calls: Vec<Call>,
    /// for the section about caches: number of distinct texts asked in between
    pub fill: usize,
}

fn gen_history(g: &mut Gen, calls: usize) -> History {
    let mut case = gen_case(g, ANY, (2, 4));
    // texts that caches could mistake for others
    for t in case.texts.clone() {
        if g.chance(40) {
            case.texts.push(t.to_uppercase());
        }
        if g.chance(20) {
            case.texts.push(format!(" {}", t));
        }
    }
    let calls = g.vec(4, calls, |g| gen_call(g, &case));
    History { case, calls, fill: 0 }
}

pub fn c06(run: &mut Run) {
    run.section(
        "history",
        "the answer to a call made after others has slots or alternatives",
        (1500, 80_000),
        1500,
        |g| gen_history(g, 14),
        |h, obs| {
            let e = open(&h.case.spec)?;
            for (i, c) in h.calls.iter().enumerate() {
                let a = call(&e.engine, &h.case.texts, c);
                let again = call(&e.engine, &h.case.texts, c);
                check_agree(obs, &|| format!("call {} {:?} made twice", i, c), &a, &again)?;
                let fresh = load(&e.files.dir)?;
                let b = call(&fresh, &h.case.texts, c);
                obs.evals += 1;
                check_agree(obs, &|| format!("call {} {:?} after {:?}, then on a new engine", i, c, &h.calls[..i]), &a, &b)?;
                match &a {
                    Answer::Parse(r) if !r.slots.is_empty() || !r.alternatives.is_empty() => obs.hit("rich"),
                    Answer::Slots(s) if !s.is_empty() => obs.hit("rich"),
                    _ => {}
                }
            }
            Ok(())
        },
    );
    run.section(
        "threads",
        "several threads have called the engine",
        (300, 10_000),
        1500,
        |g| gen_history(g, 24),
        |h, obs| {
            let e = open(&h.case.spec)?;
            let alone: Vec<Answer> =
                h.calls.iter().map(|c| Ok(call(&load(&e.files.dir)?, &h.case.texts, c))).collect::<std::result::Result<_, String>>()?;
            let engine = &e.engine;
            let all: Vec<Vec<Answer>> = std::thread::scope(|s| {
                let handles: Vec<_> = (0..4)
                    .map(|k| {
                        s.spawn(move || {
                            let mut out = vec![];
                            for j in 0..h.calls.len() {
                                let at = (j * (2 * k + 1) + k) % h.calls.len();
                                out.push((at, call(engine, &h.case.texts, &h.calls[at])));
                            }
                            out
                        })
                    })
                    .collect();
                handles.into_iter().map(|t| t.join()).collect::<Vec<_>>()
            })
            .into_iter()
            .map(|r| r.map(|v| v.into_iter().map(|(at, a)| (at, a)).collect::<Vec<_>>()))
            .map(|r| r.map_err(|_| "a thread panicked".to_string()))
            .collect::<std::result::Result<Vec<Vec<(usize, Answer)>>, String>>()?
            .into_iter()
            .map(|v| {
                // keep the place of each answer
                for (at, a) in &v {
                    match agree(a, &alone[*at]) {
                        Same::No(why) => {
                            return Err(format!(
                                "{:?} while other threads call the engine: different {}: {:?} and {:?}",
                                h.calls[*at], why, a, alone[*at]
                            ))
                        }
                        _ => obs.evals += 1,
                    }
                }
                Ok(vec![])
            })
            .collect::<std::result::Result<_, String>>()?;
            if all.len() == 4 {
                obs.hit("threads");
            }
            Ok(())
        },
    );
    run.section(
        "shared resources",
        "two parsers have used the same resources",
        (500, 20_000),
        1500,
        |g| gen_case(g, ANY, (3, 6)),
        |case, obs| {
            let files = Files::new(&case.spec);
            let shared = files.shared(&case.spec);
            let first = single_parsers(&case.spec, &files.dir, shared.clone())?;
            let second = single_parsers(&case.spec, &files.dir, shared)?;
            for (i, text) in case.texts.iter().enumerate() {
                for k in 0..first.len() {
                    let fresh = single_parsers(&case.spec, &files.dir, files.shared(&case.spec))?;
                    let user = if i % 2 == 0 { &first } else { &second };
                    let list = as_strs(&case.filters[0]);
                    for filter in vec![None, Some(&*list)] {
                        obs.evals += 1;
                        let a = user[k].parse(text, filter).map_err(text_of)?;
                        let b = fresh[k].parse(text, filter).map_err(text_of)?;
                        if a.intent.intent_name != b.intent.intent_name && near(&a.intent, &b.intent) {
                            continue;
                        }
                        ensure!(
                            a.intent.intent_name == b.intent.intent_name
                                && close(a.intent.confidence_score, b.intent.confidence_score, EPS)
                                && a.slots == b.slots,
                            "{:?} with shared resources: {:?}, with its own: {:?}", text, a, b
                        );
                        if !a.slots.is_empty() {
                            obs.hit("slots");
                        }
                    }
                }
            }
            Ok(())
        },
    );
    run.section(
        "caches",
        "more distinct texts than the caches hold",
        (16, 400),
        1500,
        |g| {
            let mut h = gen_history(g, 10);
            h.fill = g.range(900, 2300);
            h
        },
        |h, obs| {
            let e = open(&h.case.spec)?;
            let first: Vec<Answer> = h.calls.iter().map(|c| call(&e.engine, &h.case.texts, c)).collect();
            for i in 0..h.fill {
                let t = format!("{} {} {}", i, h.case.texts[i % h.case.texts.len()].chars().take(40).collect::<String>(), i * 7 % 13);
                let _ = e.engine.parse(&t, None, None);
                if i % 97 == 0 {
                    let _ = e.engine.get_intents(&t);
                }
            }
            for (i, c) in h.calls.iter().enumerate() {
                let a = call(&e.engine, &h.case.texts, c);
                obs.evals += 1;
                check_agree(obs, &|| format!("{:?} before and after {} other texts", c, h.fill), &first[i], &a)?;
            }
            if h.fill > 1000 {
                obs.hit("turned over");
            }
            Ok(())
        },
    );
}

// ---- C16, C17

fn values(run: &mut Run, custom: bool) {
    run.section(
        "values",
        if custom { "a slot of a custom entity" } else { "a slot of a builtin entity" },
        (4000, 250_000),
        1500,
        |g| {
            let want = if g.chance(70) { PROB } else { ANY };
            gen_case(g, want, (2, 5))
        },
        |case, obs| {
            let e = open(&case.spec)?;
            let w = e.files.world(&case.spec);
            let parsers = single_parsers(&case.spec, &e.files.dir, e.files.shared(&case.spec))?;
            for text in &case.texts {
                let mut todo: Vec<(String, Vec<Raw>, Vec<Slot>)> = vec![];
                for i in &case.spec.intents {
                    let got = e.engine.get_slots_with_alternatives(text, &i.name, case.m).map_err(text_of)?;
                    let mut raw = vec![];
                    for p in &parsers {
                        let s = p.get_slots(text, &i.name).map_err(text_of)?;
                        raw = raws!(s);
                        if !raw.is_empty() {
                            break;
                        }
                    }
                    todo.push((i.name.clone(), raw, got));
                }
                let r = parse(&e.engine, text, &None, &None, 0, case.m)?;
                if let Some(name) = &r.intent.intent_name {
                    for p in &parsers {
                        let one = p.parse(text, None).map_err(text_of)?;
                        if one.intent.intent_name.is_some() {
                            if one.intent.intent_name.as_ref() == Some(name) {
                                todo.push((name.clone(), raws!(one.slots), r.slots.clone()));
                            }
                            break;
                        }
                    }
                }
                for (intent, raw, got) in todo {
                    obs.evals += 1;
                    let mine = |entity: &str| case.spec.entities.contains_key(entity) == custom;
                    let raw: Vec<Raw> = raw.into_iter().filter(|s| mine(&s.entity)).collect();
                    let got: Vec<Slot> = got.into_iter().filter(|s| mine(&s.entity)).collect();
                    let want = resolved(&w, &case.spec, text, &raw, case.m);
                    ensure!(
                        got == want,
                        "slots of {:?} in {:?}: {:?} instead of {:?} (extracted: {:?})", intent, text, got, want, raw
                    );
                    for s in &got {
                        if custom {
                            ensure!(
                                matches!(s.value, SlotValue::Custom(_)),
                                "the value of a slot of a custom entity is {:?}", s
                            );
                        } else {
                            ensure!(
                                kind_fits(&s.entity, &s.value),
                                "the value of {:?} is not of its entity", s
                            );
                        }
                        obs.hit(if custom { "custom" } else { "builtin" });
                    }
                    if want.len() < raw.len() {
                        obs.hit("dropped");
                    }
                }
            }
            Ok(())
        },
    );
}

pub fn kind_fits(entity: &str, value: &SlotValue) -> bool {
    use BuiltinEntityKind as K;
    let kind = match BuiltinEntityKind::from_identifier(entity) {
        Ok(k) => k,
        Err(_) => return false,
    };
    match value {
        SlotValue::Number(_) => kind == K::Number,
        SlotValue::Ordinal(_) => kind == K::Ordinal,
        SlotValue::Percentage(_) => kind == K::Percentage,
        SlotValue::AmountOfMoney(_) => kind == K::AmountOfMoney,
        SlotValue::Temperature(_) => kind == K::Temperature,
        SlotValue::Duration(_) => kind == K::Duration,
        SlotValue::MusicAlbum(_) => kind == K::MusicAlbum,
        SlotValue::MusicArtist(_) => kind == K::MusicArtist,
        SlotValue::MusicTrack(_) => kind == K::MusicTrack,
        SlotValue::City(_) => kind == K::City,
        SlotValue::Country(_) => kind == K::Country,
        SlotValue::Region(_) => kind == K::Region,
        SlotValue::Custom(_) => false,
        _ => entity.to_lowercase().contains("date") || entity.to_lowercase().contains("time"),
    }
}

pub fn c16(run: &mut Run) {
    values(run, true)
}

pub fn c17(run: &mut Run) {
    values(run, false)
}

// ---- C18

pub fn c18(run: &mut Run) {
    run.section(
        "extraction",
        "a value is found",
        (4000, 250_000),
        1500,
        |g| gen_case(g, ANY, (3, 7)),
        |case, obs| {
            let e = open(&case.spec)?;
            let w = e.files.world(&case.spec);
            for text in &case.texts {
                for i in &case.spec.intents {
                    for (slot, entity) in &i.slots {
                        obs.evals += 1;
                        let got = if case.m == 0 {
                            e.engine.extract_slot(text.clone(), &i.name, slot)
                        } else {
                            e.engine.extract_slot_with_alternatives(text.clone(), &i.name, slot, case.m)
                        }
                        .map_err(text_of)?;
                        let custom = case.spec.entities.get(entity);
                        let found = if custom.is_some() {
                            w.custom(text, Some(&[entity.clone()]), case.m)
                        } else {
                            w.builtin(text, Some(&kinds(&[entity.clone()])), case.m)
                        };
                        match got {
                            None => ensure!(
                                found.is_empty() && !custom.map(|c| c.extensible).unwrap_or(false),
                                "nothing is extracted from {:?} for {:?} of {:?}, it has {:?}", text, slot, i.name, found
                            ),
                            Some(s) => {
                                ensure!(
                                    s.slot_name == *slot && s.entity == *entity && s.raw_value == sub(text, &s.range),
                                    "{:?} is extracted from {:?} for {:?} of {:?}", s, text, slot, i.name
                                );
                                if found.is_empty() {
                                    ensure!(
                                        custom.map(|c| c.extensible).unwrap_or(false)
                                            && s.range == (0..chars(text))
                                            && s.value == SlotValue::Custom(text.clone().into())
                                            && s.alternatives.is_empty(),
                                        "{:?} is extracted from {:?} for {:?} of {:?}", s, text, slot, i.name
                                    );
                                    obs.label("the whole text");
                                } else {
                                    ensure!(
                                        found.iter().any(|f| f.range == s.range
                                            && f.value == s.value
                                            && f.alternatives == s.alternatives),
                                        "{:?} is extracted from {:?} for {:?} of {:?}, it has {:?}", s, text, slot, i.name, found
                                    );
                                    obs.hit("found");
                                }
                            }
                        }
                    }
                    for (intent, slot) in vec![
                        (i.name.clone(), "no such slot".to_string()),
                        (i.name.clone(), i.name.clone() + "?"),
                        ("no such intent".to_string(), i.slots.keys().next().cloned().unwrap_or_default()),
                        (i.name.clone() + " ", i.slots.keys().next().cloned().unwrap_or_default()),
                    ] {
                        let known = case.spec.intents.iter().any(|o| o.name == intent && o.slots.contains_key(&slot));
                        if !known {
                            let r = e.engine.extract_slot_with_alternatives(text.clone(), &intent, &slot, case.m);
                            ensure!(r.is_err(), "extracting the unknown slot {:?} of {:?}: {:?}", slot, intent, r);
                        }
                    }
                    // slots of the other intents
                    for other in &case.spec.intents {
                        for slot in other.slots.keys().filter(|s| !i.slots.contains_key(*s)) {
                            let r = e.engine.extract_slot(text.clone(), &i.name, slot);
                            ensure!(r.is_err(), "extracting the unknown slot {:?} of {:?}: {:?}", slot, i.name, r);
                        }
                    }
                }
            }
            Ok(())
        },
    );
}

// ---- C30

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Odd {
    pub case: Case,
    /// (what is repeated, how many times)
    pub repeats: Vec<(String, usize)>,
}

const CHARS: &[&str] = &[
    "\0", "\u{1}", "\u{7f}", "\u{80}", "\u{ad}", "\u{200b}", "\u{200d}", "\u{202e}", "\u{feff}", "\u{fffd}", "\u{ffff}",
    "\u{10ffff}", "İ", "ı", "ß", "ẞ", "ﬁ", "ǅ", "Σ", "ς", "e\u{301}", "\u{301}", "👩‍👩‍👧", "🇫🇷", "한국", "ก็", "नि", "\u{1f1}",
    "٣", "½", "Ⅷ", "²", "\u{3000}", "\r\n", "\u{2028}", "\u{85}", "%", "%%", "\\", "\"", "'", "(", "[", "*", "$", "^", "{", "0", "-1",
    "1e999", "NaN", "∞", "999999999999999999999999999999", "K", "ſ", "ŉ", "ΐ", "\u{d7ff}", "\u{e000}",
];

/// The largest number of entities among which a lookup parser chooses
fn entities_for_lookup(w: &World, spec: &Spec, text: &str) -> usize {
    let mut n = 0;
    for p in &spec.parsers {
        if let Parser::Lookup(l) = p {
            for (_, builtin, custom) in &l.scopes {
                n = n.max(w.disjoint(text, builtin, custom).len());
            }
        }
    }
    n
}

/// The number of sets of entities a lookup parser tries
fn sets_for_lookup(w: &World, spec: &Spec, text: &str) -> f64 {
    let n = entities_for_lookup(w, spec, text);
    let most = spec.intents.iter().flat_map(|i| i.utterances.iter()).map(|u| u.iter().filter(|c| matches!(c, Chunk::S(..))).count()).max().unwrap_or(0);
    (0..=most.min(n)).map(|k| (0..k).map(|i| (n - i) as f64 / (i + 1) as f64).product::<f64>()).sum()
}

pub fn c30(run: &mut Run) {
    let ask = |case: &Case, e: &SnipsNluEngine, text: &str, obs: &mut Obs, brief: bool| -> Check {
        let show = |t: &str| if t.len() > 200 { format!("{:?}... ({} bytes)", t.chars().take(60).collect::<String>(), t.len()) } else { format!("{:?}", t) };
        obs.evals += 1;
        let slow = std::env::var("VP_SLOW").is_ok();
        if slow { eprintln!("start {} {}", show(text), case.spec.parsers.iter().map(|p| match p { Parser::Det(_) => "det ", Parser::Lookup(_) => "lookup ", _ => "prob " }).collect::<String>()); }
        let t0 = std::time::Instant::now();
        let tick = |what: &str| if slow && t0.elapsed().as_millis() > 300 { eprintln!("{} {} {:?}", what, show(text), t0.elapsed()) };
        for (w, b) in filters(case).into_iter().take(if brief { 1 } else { 3 }) {
            no_panic(|| parse(e, text, &w, &b, case.n, case.m))
                .and_then(|r| r)
                .map_err(|p| format!("parsing {}: {}", show(text), p))?;
            tick("parse");
        }
        no_panic(|| e.get_intents(text).map_err(text_of)).and_then(|r| r).map_err(|p| format!("intents of {}: {}", show(text), p))?;
        tick("intents");
        for i in &case.spec.intents {
            no_panic(|| e.get_slots_with_alternatives(text, &i.name, case.m).map_err(text_of))
                .and_then(|r| r)
                .map_err(|p| format!("slots of {} for {:?}: {}", show(text), i.name, p))?;
            for s in i.slots.keys() {
                let r = no_panic(|| e.extract_slot_with_alternatives(text.to_string(), &i.name, s, case.m).map_err(text_of))
                    .and_then(|r| r)
                    .map_err(|p| format!("extracting {:?} of {:?} from {}: {}", s, i.name, show(text), p))?;
                if r.is_some() {
                    obs.label("extracted");
                }
            }
        }
        Ok(())
    };
    run.section(
        "unicode",
        "a text with characters out of ASCII, control characters or no word",
        (4000, 400_000),
        1500,
        |g| {
            let mut case = gen_case(g, ANY, (0, 0));
            case.texts = g.vec(2, 6, |g| {
                let mut t = String::new();
                for _ in 0..g.range(0, 8) {
                    match g.below(6) {
                        0 => t += &crate::text::gen_text(g, &case.spec),
                        1 => t += &g.string(12),
                        2 => t.push(std::char::from_u32(g.draw() % 0x110000).unwrap_or('x')),
                        3 => t.push(' '),
                        _ => t += &g.word(CHARS),
                    }
                }
                t
            });
            case
        },
        |case, obs| {
            let e = open(&case.spec)?;
            for text in &case.texts {
                ask(case, &e.engine, text, obs, false)?;
                if text.chars().any(|c| !c.is_ascii() || c.is_control()) || text.trim().is_empty() {
                    obs.hit("odd");
                }
            }
            Ok(())
        },
    );
    run.section(
        "long",
        "a text of more than 400 characters",
        (60, 2500),
        1500,
        |g| {
            let case = gen_case(g, ANY, (1, 2));
            let repeats = g.vec(1, 1, |g| {
                let what = match g.below(6) {
                    0 => " ".to_string(),
                    1 => g.word(CHARS),
                    2 => crate::text::gen_text(g, &case.spec) + " ",
                    3 => g.word(WORDS) + " ",
                    4 => "a".to_string(),
                    _ => g.string(4),
                };
                let n = chars(&what).max(1);
                let size = match g.below(10) {
                    0 => g.range(32_700, 32_900),
                    1 => g.range(65_500, 66_000),
                    2 | 3 => g.range(8_000, 40_000),
                    _ => g.range(1_000, 6_000),
                };
                // spaces alone are cheap; words are what costs
                if what.trim().is_empty() || what == "a" {
                    (what, size / n)
                } else {
                    (what, ((size % 700 + 1_000) / n).min(400))
                }
            });
            Odd { case, repeats }
        },
        |odd, obs| {
            let e = open(&odd.case.spec)?;
            let w = e.files.world(&odd.case.spec);
            for (what, n) in &odd.repeats {
                for (k, t) in odd.case.texts.iter().enumerate() {
                    let long = what.repeat(*n);
                    let text = match k % 2 {
                        0 => format!("{}{}", long, t),
                        _ => format!("{}{}{}", t, long, t),
                    };
                    let brief = chars(&long) > 1200;
                    if sets_for_lookup(&w, &odd.case.spec, &text) > 11_000. {
                        obs.label("left out: more than 11000 sets of entities");
                        continue;
                    }
                    ask(&odd.case, &e.engine, &text, obs, brief)?;
                    if chars(&text) > 400 {
                        obs.hit("long");
                    }
                }
            }
            Ok(())
        },
    );
    run.assume("texts with more than 11000 sets of entities of the size of an utterance are left out for lookup parsers: the time and memory they take grow as the number of sets of entities of the size of their utterances");
    run.assume("texts are of at most 66000 characters, and at most 400 repetitions when they are made of words: the memory the classifier takes grows as the cube of the number of words");
}

// ---- C31

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Flipped {
    pub case: Case,
    /// for each text, the characters to flip are those of the multiples of these draws
    pub masks: Vec<Vec<bool>>,
}

fn flip(text: &str, mask: &[bool]) -> String {
    text.chars()
        .enumerate()
        .map(|(i, c)| {
            if !c.is_ascii_alphabetic() || !mask[i % mask.len()] {
                c
            } else if c.is_ascii_lowercase() {
                c.to_ascii_uppercase()
            } else {
                c.to_ascii_lowercase()
            }
        })
        .collect()
}

fn same_slots_but_case(a: &[Slot], b: &[Slot]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| {
            let text = |s: &Slot| s.value == SlotValue::Custom(s.raw_value.clone().into());
            x.range == y.range
                && x.slot_name == y.slot_name
                && x.entity == y.entity
                && x.alternatives == y.alternatives
                && (x.value == y.value || text(x) && text(y))
                && x.raw_value.to_ascii_lowercase() == y.raw_value.to_ascii_lowercase()
        })
}

pub fn c31(run: &mut Run) {
    run.section(
        "case",
        "an intent or a score above 0 in a text whose case has changed",
        (4000, 250_000),
        1500,
        |g| {
            let want = match g.below(3) {
                0 => Want { prob: 0, ..ANY },
                1 => Want { prob: 100, det: 0, lookup: 0, ..ANY },
                _ => ANY,
            };
            let mut case = gen_case(g, want, (2, 5));
            for p in case.spec.parsers.iter_mut() {
                if let Parser::Prob(p) = p {
                    if let Some(f) = p.classifier.featurizer.as_mut() {
                        let extra = f.cooc.as_ref().map(|c| c.pairs.len()).unwrap_or(0);
                        let keep = f.tfidf.vocab.len();
                        f.cooc = None;
                        if extra > 0 {
                            for row in p.classifier.coeffs.iter_mut().flatten() {
                                row.truncate(keep);
                            }
                        }
                    }
                    // taggers look at the case
                    for f in p.fillers.values_mut() {
                        f.crf = None;
                    }
                }
            }
            let masks = case
                .texts
                .iter()
                .map(|_| match g.below(4) {
                    0 => vec![true],
                    1 => g.vec(3, 12, |g| g.chance(50)),
                    _ => g.vec(3, 40, |g| g.chance(15)),
                })
                .collect();
            Flipped { case, masks }
        },
        |f, obs| {
            let case = &f.case;
            let e = open(&case.spec)?;
            for (text, mask) in case.texts.iter().zip(&f.masks) {
                let other = flip(text, mask);
                if other == *text {
                    continue;
                }
                obs.evals += 1;
                let a = e.engine.get_intents(text).map_err(text_of)?;
                let b = e.engine.get_intents(&other).map_err(text_of)?;
                ensure!(
                    same_scores(&a, &b),
                    "the scores of {:?} are {:?}, those of {:?} are {:?}", text, a, other, b
                );
                if a.iter().any(|r| r.confidence_score > 0.) {
                    obs.hit("score");
                }
                for (w, bl) in filters(case) {
                    let a = parse(&e.engine, text, &w, &bl, 0, case.m)?;
                    let b = parse(&e.engine, &other, &w, &bl, 0, case.m)?;
                    if a.intent.intent_name != b.intent.intent_name && near(&a.intent, &b.intent) {
                        obs.label("left out: rounding decides");
                        continue;
                    }
                    ensure!(
                        a.intent.intent_name == b.intent.intent_name
                            && close(a.intent.confidence_score, b.intent.confidence_score, EPS)
                            && same_slots_but_case(&a.slots, &b.slots),
                        "{:?} gives {:?}, {:?} gives {:?}", text, a, other, b
                    );
                    if !a.slots.is_empty() {
                        obs.hit("slots");
                    }
                }
                for i in &case.spec.intents {
                    let a = e.engine.get_slots_with_alternatives(text, &i.name, case.m).map_err(text_of)?;
                    let b = e.engine.get_slots_with_alternatives(&other, &i.name, case.m).map_err(text_of)?;
                    ensure!(
                        same_slots_but_case(&a, &b),
                        "slots of {:?}: {:?} gives {:?}, {:?} gives {:?}", i.name, text, a, other, b
                    );
                }
            }
            Ok(())
        },
    );
    run.assume("taggers and word cooccurrences, which depend on the case, are left out");
}

// ---- C35

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Blanks {
    pub case: Case,
    /// around each text
    pub around: Vec<(String, String)>,
}

fn same_slots_shifted(a: &[Slot], b: &[Slot], by: usize) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| {
            x.range.start + by == y.range.start
                && x.range.end + by == y.range.end
                && x.slot_name == y.slot_name
                && x.entity == y.entity
                && x.alternatives == y.alternatives
                && x.value == y.value
                && x.raw_value == y.raw_value
                && x.confidence_score == y.confidence_score
        })
}

pub fn c35(run: &mut Run) {
    run.section(
        "blanks around",
        "a slot, or a score above 0, in a text with blanks around",
        (12000, 500_000),
        1500,
        |g| {
            let want = match g.below(4) {
                0 => Want { prob: 100, det: 0, lookup: 0, ..ANY },
                _ => ANY,
            };
            let mut case = gen_case(g, want, (2, 5));
            for t in case.texts.iter_mut() {
                if t.chars().all(|c| c.is_whitespace()) {
                    // a text without anything is another matter
                    *t += "make";
                }
            }
            let around = case
                .texts
                .iter()
                .map(|_| {
                    let blank = |g: &mut Gen| match g.below(12) {
                        0..=3 => String::new(),
                        11 => " ".repeat(g.range(30, 300)),
                        _ => g.vec(1, 4, |g| g.word(&[" ", " ", " ", "\t", "\n", "\r\n"])).concat(),
                    };
                    (blank(g), blank(g))
                })
                .collect();
            Blanks { case, around }
        },
        |f, obs| {
            let case = &f.case;
            let e = open(&case.spec)?;
            for (text, (before, after)) in case.texts.iter().zip(&f.around) {
                if before.is_empty() && after.is_empty() {
                    continue;
                }
                let by = chars(before);
                let other = format!("{}{}{}", before, text, after);
                obs.evals += 1;
                let a = e.engine.get_intents(text).map_err(text_of)?;
                let b = e.engine.get_intents(&other).map_err(text_of)?;
                ensure!(
                    same_scores(&a, &b),
                    "the scores of {:?} are {:?}, those of {:?} are {:?}", text, a, other, b
                );
                if a.iter().any(|r| r.confidence_score > 0.) {
                    obs.hit("score");
                }
                for (w, bl) in filters(case) {
                    let a = parse(&e.engine, text, &w, &bl, case.n, case.m)?;
                    let b = parse(&e.engine, &other, &w, &bl, case.n, case.m)?;
                    ensure!(b.input == other, "the input of {:?} is {:?}", other, b.input);
                    if a.intent.intent_name != b.intent.intent_name && near(&a.intent, &b.intent) {
                        obs.label("left out: rounding decides");
                        continue;
                    }
                    ensure!(
                        a.intent.intent_name == b.intent.intent_name
                            && close(a.intent.confidence_score, b.intent.confidence_score, EPS)
                            && same_slots_shifted(&a.slots, &b.slots, by),
                        "{:?} gives {:?}, {:?} gives {:?}", text, a, other, b
                    );
                    for x in &a.alternatives {
                        if let Some(y) = b.alternatives.iter().find(|y| y.intent.intent_name == x.intent.intent_name) {
                            ensure!(
                                close(x.intent.confidence_score, y.intent.confidence_score, EPS)
                                    && same_slots_shifted(&x.slots, &y.slots, by),
                                "{:?} gives {:?}, {:?} gives {:?}", text, a, other, b
                            );
                            obs.label("an alternative");
                        }
                    }
                    if !a.slots.is_empty() {
                        obs.hit("slots");
                        obs.label(if by > 0 { "slots after blanks" } else { "slots before blanks" });
                    }
                }
                for i in &case.spec.intents {
                    let a = e.engine.get_slots_with_alternatives(text, &i.name, case.m).map_err(text_of)?;
                    let b = e.engine.get_slots_with_alternatives(&other, &i.name, case.m).map_err(text_of)?;
                    ensure!(
                        same_slots_shifted(&a, &b, by),
                        "slots of {:?}: {:?} gives {:?}, {:?} gives {:?}", i.name, text, a, other, b
                    );
                }
            }
            Ok(())
        },
    );
    run.assume("blanks are spaces, tabs and ends of lines; the text has at least one other character");
}

// ---- C36

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Reading {
    pub case: Case,
    pub calls: Vec<Call>,
    /// a file to remove first, so that loading fails
    pub without: Option<usize>,
}

pub fn c36(run: &mut Run) {
    let base = PathBuf::from(std::env::var("TMPDIR").unwrap_or_default());
    let (r, report) = with_jail(&base.join("nowhere"), || std::fs::write(base.join("refused"), "x"));
    assert!(r.is_err() && report.outside.len() == 1 && !base.join("refused").exists(), "no stand-in of the system calls");
    let cwd = std::env::current_dir().unwrap();
    let env = || std::env::vars_os().collect::<Vec<_>>();
    let before = env();
    run.section(
        "reading",
        "an intent has been found, or loading has failed",
        (8000, 400_000),
        1500,
        |g| {
            let case = gen_case(g, ANY, (2, 4));
            let calls = g.vec(2, 10, |g| gen_call(g, &case));
            let without = if g.chance(15) { Some(g.below(30)) } else { None };
            Reading { case, calls, without }
        },
        |r, obs| {
            let files = Files::new(&r.case.spec);
            if let Some(n) = r.without {
                let all: Vec<PathBuf> =
                    snapshot(&files.dir).into_iter().filter(|f| f.1.is_some()).map(|f| f.0).collect();
                std::fs::remove_file(files.dir.join(&all[n % all.len()])).unwrap();
            }
            let before = snapshot(files.scratch.path());
            let nowhere = files.scratch.join("nowhere");
            let (result, report) = with_jail(&nowhere, || {
                let e = SnipsNluEngine::from_path(&files.dir);
                match e {
                    Ok(e) => Ok(r.calls.iter().map(|c| call(&e, &r.case.texts, c)).collect::<Vec<_>>()),
                    Err(e) => Err(e.to_string()),
                }
            });
            obs.evals += r.calls.len() as u64;
            ensure!(
                report.outside.is_empty() && report.made.is_empty(),
                "loading and using an engine tries to change {:?} {:?}", report.outside, report.made
            );
            let d = differences(&before, &snapshot(files.scratch.path()));
            ensure!(d.is_empty(), "loading and using an engine changes {:?}", d);
            match result {
                Ok(answers) => {
                    for a in &answers {
                        match a {
                            Answer::Parse(p) if p.intent.intent_name.is_some() => obs.hit("an intent"),
                            Answer::Failed(_) => obs.label("a failed call"),
                            _ => obs.label("another answer"),
                        }
                    }
                }
                Err(_) => obs.hit("loading fails"),
            }
            Ok(())
        },
    );
    run.section(
        "process",
        "the process is as it was",
        (1, 1),
        1,
        |_| 0u8,
        |_, obs| {
            ensure!(std::env::current_dir().map(|d| d == cwd).unwrap_or(false), "the current folder has changed");
            ensure!(env() == before, "the environment has changed");
            obs.hit("unchanged");
            Ok(())
        },
    );
}

// ---- C37

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Load {
    pub case: Case,
    pub calls: Vec<Call>,
    /// texts of a round
    pub round: usize,
}

/// Asks `n` texts that have never been asked; their length is the same in each round
fn round(e: &SnipsNluEngine, load: &Load, round: usize, n: usize) {
    for k in 0..n {
        let texts: Vec<String> =
            load.case.texts.iter().map(|t| format!("{} {:03}{:06} {}", t, round, k, "wxyz ".repeat(8))).collect();
        for c in &load.calls {
            call(e, &texts, c);
        }
    }
}

pub fn c37(run: &mut Run) {
    run.section(
        "many texts",
        "the engine has entities of both kinds to look for",
        (32, 1500),
        1500,
        |g| {
            let mut case = gen_case(g, Want { det: 80, lookup: 30, prob: 50, many: true, max_slots: 2 }, (1, 1));
            case.texts[0] = format!("make {}", case.texts[0].chars().take(40).collect::<String>());
            let calls = g.vec(1, 3, |g| gen_call(g, &case));
            Load { case, calls, round: g.range(1000, 1400) }
        },
        |load, obs| {
            let e = open(&load.case.spec)?;
            let w = e.files.world(&load.case.spec);
            let long = format!("{} 000000000 {}", load.case.texts[0], "wxyz ".repeat(8));
            if entities_for_lookup(&w, &load.case.spec, &long) > 8 {
                obs.label("left out: more than 8 entities");
                return Ok(());
            }
            // the caches fill up
            round(&e.engine, load, 0, load.round);
            let mut held = vec![live()];
            for r in 1..4 {
                round(&e.engine, load, r, load.round);
                held.push(live());
                obs.evals += load.round as u64;
            }
            let growth: Vec<i64> = held.windows(2).map(|w| w[1] - w[0]).collect();
            ensure!(
                growth.iter().any(|g| *g < 20_000),
                "each {} new texts take {:?} more bytes, with {:?}", load.round, growth, load.calls
            );
            let least = growth.iter().min().unwrap();
            obs.label(match least {
                std::i64::MIN..=0 => "no byte more",
                1..=999 => "less than 1 kB more",
                _ => "more than 1 kB more",
            });
            let kinds: Vec<&String> = load.case.spec.intents.iter().flat_map(|i| i.slots.values()).collect();
            if kinds.iter().any(|k| is_builtin(k)) && kinds.iter().any(|k| !is_builtin(k)) {
                obs.hit("both kinds of entities");
            }
            Ok(())
        },
    );
    run.section(
        "given back",
        "an intent has been found",
        (3000, 150_000),
        1500,
        |g| {
            let case = gen_case(g, ANY, (2, 4));
            let calls = g.vec(1, 6, |g| gen_call(g, &case));
            Load { case, calls, round: 0 }
        },
        |load, obs| {
            let files = Files::new(&load.case.spec);
            let found = std::cell::Cell::new(false);
            let archive = if load.case.n % 2 == 0 { Some(crate::files::zip_of(&files.dir)) } else { None };
            let life = || -> std::result::Result<i64, String> {
                let before = live();
                let e = match &archive {
                    Some(bytes) => SnipsNluEngine::from_zip(std::io::Cursor::new(bytes)).map_err(text_of)?,
                    None => crate::engine::load(&files.dir)?,
                };
                for c in &load.calls {
                    if let Answer::Parse(p) = call(&e, &load.case.texts, c) {
                        found.set(found.get() || p.intent.intent_name.is_some());
                    }
                }
                drop(e);
                Ok(live() - before)
            };
            let kept: Vec<i64> = (0..4).map(|_| life()).collect::<std::result::Result<_, _>>()?;
            obs.evals += 4;
            ensure!(
                kept.iter().any(|k| *k <= 0),
                "each time an engine is loaded, used and dropped, {:?} bytes are kept", kept
            );
            if found.get() {
                obs.hit("an intent");
            }
            Ok(())
        },
    );
}

/// Names the kinds of the values of an answer
pub fn label_values(a: &Answer, obs: &mut Obs) {
    let slots: Vec<&Slot> = match a {
        Answer::Parse(p) => p.slots.iter().chain(p.alternatives.iter().flat_map(|a| a.slots.iter())).collect(),
        Answer::Slots(l) => l.iter().collect(),
        _ => vec![],
    };
    for s in slots {
        let kind = match &s.value {
            SlotValue::InstantTime(t) => format!("value: instant, {:?}, {:?}", t.grain, t.precision),
            SlotValue::Duration(d) => format!("value: duration, {:?}", d.precision),
            v => {
                let j = serde_json::to_value(v).unwrap();
                format!("value: {}", j["kind"].as_str().unwrap_or("?"))
            }
        };
        obs.label(&kind);
    }
}
