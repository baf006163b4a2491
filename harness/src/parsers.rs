//! C07 (patterns), C08 (lookup), C09 (probabilistic)
use crate::common::*;
use crate::core::*;
use crate::refs::*;
use crate::spec::*;
use snips_nlu_lib::{DeterministicIntentParser, IntentParser, LookupIntentParser, ProbabilisticIntentParser};
use std::collections::BTreeMap;

/// Compares an unambiguous parser with what it must find. `matches` gives the possible slots of
/// each allowed intent that matches.
fn judge(
    case: &Case,
    parser: &dyn IntentParser,
    text: &str,
    obs: &mut Obs,
    matches: &dyn Fn(&dyn Fn(&str) -> bool) -> std::result::Result<BTreeMap<String, Vec<Vec<RefSlot>>>, &'static str>,
) -> Check {
    let names: Vec<String> = case.spec.intents.iter().map(|i| i.name.clone()).collect();
    let mut filters: Vec<Option<Vec<String>>> = vec![None];
    filters.extend(case.filters.iter().cloned().map(Some));
    filters.extend(names.iter().map(|n| Some(vec![n.clone()])));
    for (k, filter) in filters.iter().enumerate() {
        let allowed = |i: &str| filter.as_ref().map(|f| f.iter().any(|x| x == i)).unwrap_or(true);
        let expected = match matches(&allowed) {
            Ok(m) => m,
            Err(why) => {
                obs.label(&format!("left out: {}", why));
                continue;
            }
        };
        let counts = expected.iter().map(|(i, l)| (i.clone(), l[0].len())).collect();
        let (scores, near) = confidences(&counts);
        if near {
            obs.label("left out: confidence too close to one half");
            continue;
        }
        obs.evals += 1;
        let list = filter.as_ref().map(|f| as_strs(f));
        let got = parser.parse(text, list.as_ref().map(|l| &**l)).map_err(text_of)?;
        let slots = raws!(got.slots);
        let best = scores.iter().find(|(_, c)| **c > 0.5);
        match (&got.intent.intent_name, best) {
            (None, None) => {
                ensure!(
                    got.intent.confidence_score == 1.0 && slots.is_empty(),
                    "no intent in {:?} with {:?}: {:?}", text, filter, got
                );
                if !expected.is_empty() {
                    obs.hit("ambiguous");
                }
            }
            (Some(name), Some((want, score))) if name == want => {
                ensure!(
                    close(got.intent.confidence_score, *score, 1e-5),
                    "{:?} in {:?} with {:?}: confidence {} instead of {}",
                    name, text, filter, got.intent.confidence_score, score
                );
                let possible: Vec<Vec<Raw>> = expected[want].iter().map(|s| expected_raws(text, s)).collect();
                ensure!(
                    possible.contains(&slots),
                    "{:?} in {:?} with {:?}: slots {:?} instead of {:?}", name, text, filter, slots, possible
                );
                obs.hit("recognised");
                if !slots.is_empty() {
                    obs.label("recognised with slots");
                }
                if expected.len() > 1 {
                    obs.label("several intents match");
                }
            }
            (name, want) => {
                return Err(format!(
                    "in {:?} with {:?}: intent {:?} instead of {:?} (matching intents: {:?})",
                    text, filter, name, want, expected
                ))
            }
        }
        if let Some(f) = filter {
            if k > case.filters.len() {
                let s = parser.get_slots(text, &f[0]).map_err(text_of)?;
                ensure!(raws!(s) == slots, "slots of {:?} in {:?}: {:?} instead of {:?}", f[0], text, s, slots);
            }
        } else {
            // scores of all the intents
            let all = parser.get_intents(text).map_err(text_of)?;
            let mut want: BTreeMap<Option<String>, f32> =
                names.iter().map(|n| (Some(n.clone()), scores.get(n).cloned().unwrap_or(0.))).collect();
            want.insert(None, 0.);
            ensure!(all.len() == want.len(), "intents of {:?}: {:?} instead of {:?}", text, all, want);
            for r in &all {
                ensure!(
                    want.get(&r.intent_name).map(|s| close(*s, r.confidence_score, 1e-5)).unwrap_or(false),
                    "intents of {:?}: {:?} instead of {:?}", text, all, want
                );
                want.remove(&r.intent_name);
            }
        }
    }
    let other = parser.get_slots(text, "no such intent");
    ensure!(other.is_err(), "slots of an unknown intent: {:?}", other);
    Ok(())
}

pub fn c07(run: &mut Run) {
    run.section(
        "patterns",
        "a text is recognised, or ambiguous",
        (6000, 400_000),
        1200,
        |g| gen_case(g, DET, (3, 6)),
        |case, obs| {
            let files = Files::new(&case.spec);
            let w = files.world(&case.spec);
            let det = match &case.spec.parsers[0] {
                Parser::Det(d) => d,
                _ => unreachable!(),
            };
            let parser =
                DeterministicIntentParser::from_path(files.dir.join(parser_name(0)), files.shared(&case.spec))
                    .map_err(text_of)?;
            for text in &case.texts {
                judge(case, &parser, text, obs, &|allowed| {
                    let mut out = BTreeMap::new();
                    for i in &case.spec.intents {
                        if allowed(&i.name) {
                            if let Some(m) = det_intent(&w, &case.spec, det, &i.name, text)? {
                                out.insert(i.name.clone(), vec![m.slots]);
                            }
                        }
                    }
                    Ok(out)
                })?;
            }
            Ok(())
        },
    );
    run.assume("texts where a pattern takes a part of a placeholder typed by the user, and confidences within 1e-5 of one half but not exactly one half, are left out");
}

pub fn c08(run: &mut Run) {
    run.section(
        "utterances",
        "a text is recognised, or ambiguous",
        (6000, 400_000),
        1200,
        |g| gen_case(g, LOOKUP, (3, 6)),
        |case, obs| {
            let files = Files::new(&case.spec);
            let w = files.world(&case.spec);
            let lookup = match &case.spec.parsers[0] {
                Parser::Lookup(d) => d,
                _ => unreachable!(),
            };
            let parser = LookupIntentParser::from_path(files.dir.join(parser_name(0)), files.shared(&case.spec))
                .map_err(text_of)?;
            for text in &case.texts {
                judge(case, &parser, text, obs, &|allowed| {
                    lookup_all(&w, &case.spec, lookup, text, allowed, 8)
                })?;
            }
            Ok(())
        },
    );
    run.assume("texts with more than 8 entities are left out");
}

pub fn c09(run: &mut Run) {
    run.section(
        "composition",
        "an intent with slots",
        (3000, 200_000),
        1500,
        |g| gen_case(g, PROB, (2, 4)),
        |case, obs| {
            let spec = &case.spec;
            let files = Files::new(spec);
            let w = files.world(spec);
            let p = match &spec.parsers[0] {
                Parser::Prob(p) => p,
                _ => unreachable!(),
            };
            let dir = files.dir.join(parser_name(0));
            let parser = ProbabilisticIntentParser::from_path(&dir, files.shared(spec)).map_err(text_of)?;
            let other = files.shared(spec);
            for text in &case.texts {
                let scores = classifier_scores(&w, spec, &p.classifier, text);
                let trivial = text.is_empty()
                    || p.classifier.intents.len() <= 1
                    || p.classifier.coeffs.is_none()
                    || p.classifier.featurizer.is_none();
                let got = parser.get_intents(text).map_err(text_of)?;
                ensure!(got.len() == scores.len(), "intents of {:?}: {:?} instead of {:?}", text, got, scores);
                for (name, score) in &scores {
                    let n = got.iter().filter(|r| r.intent_name == *name).count();
                    let r = got.iter().find(|r| r.intent_name == *name);
                    ensure!(
                        n == 1 && close(r.unwrap().confidence_score, *score as f32, 1e-3),
                        "intents of {:?}: {:?} instead of {:?}", text, got, scores
                    );
                }
                ensure!(
                    got.windows(2).all(|p| p[0].confidence_score >= p[1].confidence_score),
                    "intents of {:?} are not sorted: {:?}", text, got
                );
                let mut filters: Vec<Option<Vec<String>>> = vec![None];
                filters.extend(case.filters.iter().cloned().map(Some));
                for filter in &filters {
                    let allowed = |i: &Option<String>| match (i, filter) {
                        (Some(i), Some(f)) => f.contains(i),
                        _ => true,
                    };
                    let list = filter.as_ref().map(|f| as_strs(f));
                    let res = parser.parse(text, list.as_ref().map(|l| &**l)).map_err(text_of)?;
                    obs.evals += 1;
                    let best = got.iter().filter(|r| allowed(&r.intent_name)).next();
                    match best {
                        None => ensure!(
                            res.intent.intent_name.is_none() && res.intent.confidence_score == 1.0,
                            "{:?} with {:?}: {:?} while no intent is allowed", text, filter, res
                        ),
                        Some(b) => {
                            ensure!(
                                allowed(&res.intent.intent_name),
                                "{:?} with {:?}: {:?} is not allowed", text, filter, res
                            );
                            ensure!(
                                close(res.intent.confidence_score, b.confidence_score, 1e-6),
                                "{:?} with {:?}: {:?} instead of {:?}", text, filter, res, b
                            );
                            let own = got.iter().find(|r| r.intent_name == res.intent.intent_name);
                            ensure!(
                                own.map(|o| close(o.confidence_score, res.intent.confidence_score, 1e-6)).unwrap_or(false),
                                "{:?} with {:?}: {:?} instead of {:?}", text, filter, res, b
                            );
                        }
                    }
                    let slots = match &res.intent.intent_name {
                        None => vec![],
                        Some(name) => {
                            if !trivial {
                                obs.label("an intent");
                            }
                            let at = p.fillers.keys().position(|k| k == name).unwrap();
                            filler_slots(&dir.join(format!("slot_filler_{}", at)), other.clone(), text)?
                        }
                    };
                    ensure!(
                        raws!(res.slots) == slots,
                        "{:?} with {:?}: slots {:?} instead of {:?}", text, filter, res, slots
                    );
                    if !slots.is_empty() {
                        obs.hit("an intent with slots");
                    }
                }
                for (at, name) in p.fillers.keys().enumerate() {
                    let s = parser.get_slots(text, name).map_err(text_of)?;
                    let want = filler_slots(&dir.join(format!("slot_filler_{}", at)), other.clone(), text)?;
                    ensure!(raws!(s) == want, "slots of {:?} in {:?}: {:?} instead of {:?}", name, text, s, want);
                }
                ensure!(parser.get_slots(text, "no such intent").is_err(), "slots of an unknown intent");
            }
            // an intent without slot filler
            let name = spec.intents[0].name.clone();
            let mut less = p.clone();
            less.fillers.remove(&name);
            let alone = files.scratch.join("less");
            write_parser(spec, &Parser::Prob(less), &alone);
            let parser = ProbabilisticIntentParser::from_path(&alone, files.shared(spec)).map_err(text_of)?;
            for text in &case.texts {
                let r = parser.get_slots(text, &name);
                ensure!(r.is_err(), "slots of an intent without slot filler: {:?}", r);
                let best = parser.get_intents(text).map_err(text_of)?;
                let best = &best[0];
                let r = parser.parse(text, None);
                if best.intent_name.as_ref() == Some(&name) {
                    if let Ok(r) = &r {
                        ensure!(
                            r.intent.intent_name != Some(name.clone()),
                            "an intent without slot filler is not an error: {:?}", r
                        );
                    }
                    obs.label("intent without slot filler");
                }
            }
            Ok(())
        },
    );
}

fn filler_slots(
    dir: &std::path::Path,
    shared: std::sync::Arc<snips_nlu_lib::SharedResources>,
    text: &str,
) -> std::result::Result<Vec<Raw>, String> {
    use snips_nlu_lib::{CRFSlotFiller, SlotFiller};
    let f = CRFSlotFiller::from_path(dir, shared).map_err(text_of)?;
    let s = f.get_slots(text).map_err(text_of)?;
    Ok(raws!(s))
}
