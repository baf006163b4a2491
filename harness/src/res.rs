//! C25 (language resources), C26 (custom and builtin entities of a text)
use crate::common::*;
use crate::core::*;
use crate::refs::*;
use crate::spec::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use snips_nlu_ontology::{BuiltinEntityKind, SlotValue};
use snips_nlu_utils::string::{hash_str_to_i32, normalize};
use snips_nlu_utils::token::tokenize;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::Path;
use std::sync::Arc;

/// A text file: its lines and how each one ends
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
struct Lines {
    lines: Vec<Vec<String>>,
    crlf: bool,
    /// no end of line after the last one
    open: bool,
    /// place of a byte that is no UTF-8, in percent of the file
    broken: Option<u8>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Resource {
    name: String,
    file: Option<Lines>,
    named: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Folder {
    stop_words: Vec<Resource>,
    stems: Vec<Resource>,
    gazetteers: Vec<Resource>,
    clusters: Vec<Resource>,
    /// how an absent list is written: left out, null, empty
    absent: u8,
    queries: Vec<String>,
}

const PLAIN: &[&str] = &[
    "the", "of", "house", "houses", "housed", "maison", "run", "running", "runs", "ran", "cafe", "café", "École",
    "ecole", "don't", "\"quoted", "a\"b", "#hash", "it's", " a", "a ", "two words", "日本", "本", "ß", "ss", "İ", "i",
    "I", "x-y", "\\", "'", "-", ".", "1", "12", "0", "\u{a0}", "e\u{301}", "ﬁ", "fi",
];
const CLUSTERS: &[&str] = &[
    "0", "1", "42", "65535", "65536", "-1", "+7", "007", "1.0", "", "a", "0110", "c 1", "１", "11111111111111110",
    "cluster", " 1", "\"1\"",
];

fn word(g: &mut Gen, sep: &[char]) -> String {
    let w = match g.below(8) {
        0..=5 => g.word(PLAIN),
        6 => g.word(WORDS),
        _ => g.string(6),
    };
    w.chars().filter(|c| !sep.contains(c) && !['\r', '\n', '\u{feff}'].contains(c)).collect()
}

fn gen_lines(g: &mut Gen, kind: u8) -> Lines {
    let words = |g: &mut Gen| word(g, &['\t', ',']);
    let n = if g.chance(4) { 60 } else { 8 };
    let mut lines: Vec<Vec<String>> = g.vec(0, n, |g| {
        if g.chance(12) {
            return vec![];
        }
        match kind {
            // words
            0 => vec![word(g, &[])],
            // stems
            1 => g.vec(1, 4, words),
            // clusters; mostly numbers in one half of the files
            _ => vec![words(g), g.word(CLUSTERS)],
        }
    });
    if kind == 2 && g.chance(50) {
        for l in &mut lines {
            if l.len() == 2 && !g.chance(4) {
                l[1] = g.below(65536).to_string();
            }
        }
    }
    Lines {
        lines,
        crlf: g.chance(20),
        open: g.chance(30),
        broken: if g.chance(2) { Some(g.below(101) as u8) } else { None },
    }
}

fn gen_resources(g: &mut Gen, kind: u8, max: usize) -> Vec<Resource> {
    let mut names = vec!["top", "stems_en", "my words", "été", "b", "1"];
    g.shuffle(&mut names);
    let n = g.range(0, max);
    names[..n]
        .iter()
        .map(|name| Resource {
            name: name.to_string(),
            file: if g.chance(3) { None } else { Some(gen_lines(g, kind)) },
            named: g.chance(80),
        })
        .collect()
}

fn gen_folder(g: &mut Gen) -> Folder {
    let mut f = Folder {
        stop_words: gen_resources(g, 0, 2),
        stems: gen_resources(g, 1, 2),
        gazetteers: gen_resources(g, 0, 3),
        clusters: gen_resources(g, 2, 3),
        absent: g.below(3) as u8,
        queries: vec![],
    };
    // only one of these can be named
    for list in [&mut f.stop_words, &mut f.stems].iter_mut() {
        let mut seen = false;
        for r in list.iter_mut() {
            r.named &= !seen;
            seen |= r.named;
        }
    }
    let queries = g.vec(2, 6, |g| word(g, &[]));
    f.queries = queries;
    f
}

fn bytes(l: &Lines, sep: &str) -> Vec<u8> {
    let end = if l.crlf { "\r\n" } else { "\n" };
    let mut s: String = l.lines.iter().map(|w| w.join(sep) + end).collect();
    if l.open && s.len() > 0 {
        s.truncate(s.len() - end.len());
    }
    let mut b = s.into_bytes();
    if let Some(at) = l.broken {
        let at = b.len() * at as usize / 100;
        b.insert(at, 0xff);
    }
    b
}

fn write_folder(f: &Folder, dir: &Path) {
    let all = [
        (&f.stop_words, dir.to_path_buf(), ""),
        (&f.stems, dir.join("stemming"), ","),
        (&f.gazetteers, dir.join("gazetteers"), ""),
        (&f.clusters, dir.join("word_clusters"), "\t"),
    ];
    for (list, place, sep) in all.iter() {
        fs::create_dir_all(place).unwrap();
        for r in list.iter() {
            if let Some(l) = &r.file {
                fs::write(place.join(format!("{}.txt", r.name)), bytes(l, sep)).unwrap();
            }
        }
    }
    let mut m = json!({"language": "en"});
    let named = |l: &[Resource]| -> Vec<String> { l.iter().filter(|r| r.named).map(|r| r.name.clone()).collect() };
    for (key, list) in [("gazetteers", &f.gazetteers), ("word_clusters", &f.clusters)].iter() {
        let names = named(list);
        match (names.is_empty(), f.absent) {
            (true, 0) => {}
            (true, 1) => m[*key] = json!(null),
            _ => m[*key] = json!(names),
        }
    }
    for (key, list) in [("stems", &f.stems), ("stop_words", &f.stop_words)].iter() {
        match (named(list).pop(), f.absent) {
            (None, 0) => {}
            (None, _) => m[*key] = json!(null),
            (Some(n), _) => m[*key] = json!(n),
        }
    }
    put(&dir.join("metadata.json"), &m);
}

fn lines_of(l: &Lines) -> impl Iterator<Item = &Vec<String>> {
    l.lines.iter().filter(|w| !w.is_empty() && *w != &[String::new()])
}

/// The words of a file that `word` may be confused with
fn confused<'a>(word: &str, mut all: impl Iterator<Item = &'a String>) -> bool {
    let h = hash_str_to_i32(word);
    all.any(|w| w != word && hash_str_to_i32(w) == h)
}

pub fn c25(run: &mut Run) {
    run.assume("names of resources contain no dot; words are told apart by their 32 bits hash");
    run.section(
        "resources",
        "the folder loads and a queried word is listed, or it is refused because of a missing or unreadable file",
        (30_000, 1_000_000),
        900,
        gen_folder,
        |f: &Folder, obs: &mut Obs| {
            let scratch = Scratch::new();
            let dir = scratch.join("resources");
            write_folder(f, &dir);
            let spec = crate::filler::bare_spec("en");
            write_entity_parsers(&spec, scratch.path());
            let loaded = no_panic(|| {
                snips_nlu_lib::load_shared_resources(
                    &dir,
                    scratch.join("builtin_entity_parser"),
                    scratch.join("custom_entity_parser"),
                )
            })?;
            let all = [&f.stop_words, &f.stems, &f.gazetteers, &f.clusters];
            let bad = all.iter().flat_map(|l| l.iter()).find(|r| {
                r.named && r.file.as_ref().map(|l| l.broken.is_some()).unwrap_or(true)
            });
            let shared = match (loaded, bad) {
                (Err(_), Some(_)) => {
                    obs.hit("refused");
                    return Ok(());
                }
                (Err(e), None) => return Err(format!("refused: {}", e)),
                (Ok(_), Some(r)) => return Err(format!("accepted, but {:?} is missing or unreadable", r.name)),
                (Ok(s), None) => s,
            };
            let mut words: BTreeSet<String> = f.queries.iter().cloned().collect();
            words.insert(String::new());
            for r in all.iter().flat_map(|l| l.iter()) {
                for l in r.file.iter().flat_map(|l| &l.lines) {
                    words.extend(l.iter().cloned());
                    words.insert(l.join(","));
                    words.insert(l.join("\t"));
                }
            }
            let more: Vec<String> = words
                .iter()
                .flat_map(|w| vec![normalize(w), w.to_uppercase(), w.to_lowercase(), format!("{} ", w), w.trim().into()])
                .collect();
            words.extend(more);
            // stop words
            let want: BTreeSet<String> = f
                .stop_words
                .iter()
                .filter(|r| r.named)
                .flat_map(|r| lines_of(r.file.as_ref().unwrap()))
                .map(|l| l[0].clone())
                .collect();
            let got: BTreeSet<String> = shared.stop_words.iter().cloned().collect();
            ensure!(got == want, "stop words {:?} instead of {:?}", got, want);
            // gazetteers
            let names: BTreeSet<&String> = f.gazetteers.iter().filter(|r| r.named).map(|r| &r.name).collect();
            let got: BTreeSet<&String> = shared.gazetteers.keys().collect();
            ensure!(got == names, "gazetteers {:?} instead of {:?}", got, names);
            for r in f.gazetteers.iter().filter(|r| r.named) {
                let list: BTreeSet<&String> = lines_of(r.file.as_ref().unwrap()).map(|l| &l[0]).collect();
                let gazetteer = &shared.gazetteers[&r.name];
                for w in &words {
                    if confused(w, list.iter().cloned()) {
                        continue;
                    }
                    obs.evals += 1;
                    let want = list.contains(w);
                    ensure!(
                        gazetteer.contains(w) == want,
                        "{:?} in the gazetteer {:?}: {} instead of {}", w, r.name, !want, want
                    );
                    if want {
                        obs.hit("in a gazetteer");
                    }
                }
            }
            // stems
            let named = f.stems.iter().find(|r| r.named);
            ensure!(
                shared.stemmer.is_some() == named.is_some(),
                "stemmer: {} instead of {}", shared.stemmer.is_some(), named.is_some()
            );
            if let (Some(stemmer), Some(r)) = (&shared.stemmer, named) {
                let mut map: BTreeMap<&String, &String> = BTreeMap::new();
                for l in lines_of(r.file.as_ref().unwrap()) {
                    for w in &l[1..] {
                        map.insert(w, &l[0]);
                    }
                }
                for w in &words {
                    let key = normalize(w);
                    if confused(&key, map.keys().cloned()) {
                        continue;
                    }
                    obs.evals += 1;
                    let want = map.get(&key).map(|s| s.to_string()).unwrap_or_else(|| w.clone());
                    let got = stemmer.stem(w);
                    ensure!(got == want, "stem of {:?}: {:?} instead of {:?}", w, got, want);
                    if want != *w {
                        obs.hit("has a stem");
                    }
                }
            }
            // clusters
            let names: BTreeSet<&String> = f.clusters.iter().filter(|r| r.named).map(|r| &r.name).collect();
            let got: BTreeSet<&String> = shared.word_clusterers.keys().collect();
            ensure!(got == names, "word clusters {:?} instead of {:?}", got, names);
            for r in f.clusters.iter().filter(|r| r.named) {
                let map: BTreeMap<&String, &String> =
                    lines_of(r.file.as_ref().unwrap()).map(|l| (&l[0], &l[1])).collect();
                let clusterer = &shared.word_clusterers[&r.name];
                for w in &words {
                    if confused(w, map.keys().cloned()) {
                        continue;
                    }
                    obs.evals += 1;
                    let got = clusterer.get_cluster(w);
                    let want = map.get(w).map(|c| c.to_string());
                    // a number may be given in another form, as 7 for 007
                    let number = |c: &Option<String>| c.as_ref().and_then(|c| c.parse::<u16>().ok());
                    let plain = number(&want).map(|n| n.to_string());
                    ensure!(
                        got == want || (got == plain && got.is_some()),
                        "cluster of {:?} in {:?}: {:?} instead of {:?}", w, r.name, got, want
                    );
                    if want.is_some() {
                        obs.hit("has a cluster");
                    }
                }
            }
            Ok(())
        },
    );
}

// ---- entities

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Ask {
    text: usize,
    /// None: builtin entities with or without the cache
    custom: Option<Option<Vec<String>>>,
    kinds: Option<Vec<String>>,
    cache: bool,
    n: usize,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Asks {
    case: Case,
    asks: Vec<Ask>,
    /// other texts asked before the last requests, enough to turn the caches over
    flood: usize,
}

const KINDS: &[&str] = &[
    "snips/number", "snips/ordinal", "snips/duration", "snips/date", "snips/time", "snips/temperature",
    "snips/amountOfMoney", "snips/percentage", "snips/musicArtist", "snips/city",
];

fn gen_asks(g: &mut Gen, flood: bool) -> Asks {
    let mut case = gen_case(g, Want { det: 0, lookup: 0, prob: 0, many: false, max_slots: 3 }, (2, 5));
    // variants of the texts that are told apart by their case or separators only
    for i in 0..case.texts.len() {
        if g.chance(40) {
            let t = case.texts[i].clone();
            let v = match g.below(5) {
                0 => t.to_uppercase(),
                1 => t.to_lowercase(),
                2 => t.replace(' ', "  "),
                3 => t.replace(' ', " - "),
                _ => format!(" ,{}!", t),
            };
            case.texts.push(v);
        }
    }
    let names: Vec<String> = case.spec.entities.keys().cloned().collect();
    let kinds: Vec<String> = KINDS
        .iter()
        .filter(|k| BuiltinEntityKind::from_identifier(k).is_ok())
        .map(|k| k.to_string())
        .collect();
    let mut asks = g.vec(3, 12, |g| Ask {
        text: g.below(case.texts.len()),
        custom: if g.chance(65) {
            Some(if g.chance(40) {
                None
            } else {
                let mut s = g.subset(&names, 60);
                g.shuffle(&mut s);
                Some(s)
            })
        } else {
            None
        },
        kinds: if g.chance(40) {
            None
        } else {
            let mut s = g.subset(&kinds, 40);
            g.shuffle(&mut s);
            Some(s)
        },
        cache: g.chance(70),
        n: g.range(0, 3),
    });
    // requests that are nearly those made before
    for _ in 0..g.range(0, 4) {
        let mut a = g.pick(&asks).clone();
        a.cache = true;
        let near = |g: &mut Gen, scope: &mut Option<Vec<String>>, all: &[String]| match scope {
            None => *scope = Some(all.to_vec()),
            Some(l) => match g.below(4) {
                0 => {
                    l.pop();
                }
                1 => l.extend(all.iter().find(|k| !l.contains(k)).cloned().into_iter().collect::<Vec<_>>()),
                2 => l.reverse(),
                _ => *scope = None,
            },
        };
        match g.below(4) {
            0 => a.n = g.range(0, 6),
            1 => a.text = g.below(case.texts.len()),
            _ => match &mut a.custom {
                Some(scope) => near(g, scope, &names),
                None => near(g, &mut a.kinds, &kinds),
            },
        }
        asks.push(a);
    }
    Asks { case, asks, flood: if flood { g.range(900, 1200) } else { 0 } }
}

/// Runs the requests and compares them with the reference
fn check_asks(c: &Asks, obs: &mut Obs) -> Check {
    let files = Files::new(&c.case.spec);
    let shared = files.shared(&c.case.spec);
    let world = files.world(&c.case.spec);
    let l = world.l;
    let words = |t: &str| -> Vec<String> { tokenize(&t.to_lowercase(), l).into_iter().map(|t| t.value).collect() };
    let last = c.asks.len() / 2;
    for (i, a) in c.asks.iter().enumerate() {
        if i == last {
            for k in 0..c.flood {
                let t = format!("{} {}", k, c.case.texts[0]);
                shared.custom_entity_parser.extract_entities(&t, None, 0).map_err(text_of)?;
                shared.builtin_entity_parser.extract_entities(&t, None, true, 0).map_err(text_of)?;
            }
        }
        let text = &c.case.texts[a.text];
        obs.evals += 1;
        if let Some(scope) = &a.custom {
            let scope = scope.as_ref().map(|s| &s[..]);
            let got = shared.custom_entity_parser.extract_entities(text, scope, a.n).map_err(text_of)?;
            let want = world.custom(text, scope, a.n);
            let what = || format!("custom entities of {:?} in {:?}, {} alternatives", text, scope, a.n);
            let same = got.len() == want.len()
                && got.iter().zip(&want).all(|(g, w)| {
                    g.range == w.range
                        && g.entity_identifier == w.entity
                        && SlotValue::Custom(g.resolved_value.clone().into()) == w.value
                        && g.alternative_resolved_values
                            .iter()
                            .map(|v| SlotValue::Custom(v.clone().into()))
                            .eq(w.alternatives.iter().cloned())
                });
            ensure!(same, "{}: {:?} instead of {:?}", what(), got, want);
            for e in &got {
                // the entity covers whole tokens, which are those of its value
                let at = sub(text, &e.range);
                ensure!(
                    words(&at) == words(&e.value) && at.trim() == at && !at.is_empty(),
                    "{}: {:?} at {:?}, which is {:?}", what(), e.value, e.range, at
                );
            }
            if !got.is_empty() {
                obs.hit("custom entities");
                if got.iter().any(|e| sub(text, &e.range) != e.value) {
                    obs.label("written otherwise than its value");
                }
            }
        } else {
            let scope = a.kinds.as_ref().map(|k| kinds(k));
            let scope = scope.as_ref().map(|s| &s[..]);
            let got =
                shared.builtin_entity_parser.extract_entities(text, scope, a.cache, a.n).map_err(text_of)?;
            let want = world.builtin(text, scope, a.n);
            let same = got.len() == want.len()
                && got.iter().zip(&want).all(|(g, w)| {
                    g.range == w.range
                        && g.entity_kind.identifier() == w.entity
                        && g.entity == w.value
                        && g.alternatives == w.alternatives
                });
            ensure!(same, "builtin entities of {:?} in {:?}: {:?} instead of {:?}", text, a.kinds, got, want);
            if !got.is_empty() {
                obs.hit("builtin entities");
            }
        }
    }
    Ok(())
}

pub fn c26(run: &mut Run) {
    run.section(
        "entities",
        "an entity is found",
        (16_000, 500_000),
        1200,
        |g| gen_asks(g, false),
        check_asks,
    );
    run.section(
        "after many requests",
        "an entity is found",
        (120, 4000),
        1200,
        |g| gen_asks(g, true),
        check_asks,
    );
    run.section(
        "from several threads",
        "an entity is found",
        (600, 20_000),
        1200,
        |g| gen_asks(g, false),
        |c: &Asks, obs: &mut Obs| {
            let files = Files::new(&c.case.spec);
            let shared = files.shared(&c.case.spec);
            let world = Arc::new(files.world(&c.case.spec));
            let asks = Arc::new(c.clone());
            let threads: Vec<_> = (0..3)
                .map(|k| {
                    let (shared, asks, world) = (shared.clone(), asks.clone(), world.clone());
                    std::thread::spawn(move || -> std::result::Result<usize, String> {
                        let mut found = 0;
                        for i in 0..asks.asks.len() {
                            let a = &asks.asks[(i * (k + 1) + k) % asks.asks.len()];
                            let text = &asks.case.texts[a.text];
                            let scope = a.custom.clone().unwrap_or(None);
                            let scope = scope.as_ref().map(|s| &s[..]);
                            let got =
                                shared.custom_entity_parser.extract_entities(text, scope, a.n).map_err(text_of)?;
                            let want = world.custom(text, scope, a.n);
                            let pairs: Vec<_> =
                                got.iter().map(|e| (e.range.clone(), e.entity_identifier.clone())).collect();
                            let expected: Vec<_> = want.iter().map(|e| (e.range.clone(), e.entity.clone())).collect();
                            ensure!(pairs == expected, "entities of {:?}: {:?} instead of {:?}", text, pairs, expected);
                            found += got.len();
                        }
                        Ok(found)
                    })
                })
                .collect();
            for t in threads {
                let found = t.join().map_err(|_| "panic in a thread".to_string())??;
                obs.evals += 1;
                if found > 0 {
                    obs.hit("entities found by threads");
                }
            }
            Ok(())
        },
    );
}
