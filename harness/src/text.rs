//! Texts that exercise a generated engine.
use crate::core::Gen;
use crate::spec::*;

/// A text: mostly what the utterances of the engine look like, altered in ways that matter or do
/// not matter, sometimes anything.
pub fn gen_text(g: &mut Gen, spec: &Spec) -> String {
    let text = any_text(g, spec);
    if g.below(250) == 249 {
        // far from the beginning of the text
        let n = if g.chance(50) { g.range(32_740, 32_800) } else { g.range(65_500, 65_600) };
        return " ".repeat(n) + &text;
    }
    text
}

fn any_text(g: &mut Gen, spec: &Spec) -> String {
    let mut words: Vec<String> = vec![];
    match g.below(20) {
        0 | 1 if rendered(g, spec, &mut words) => {}
        0..=9 => utterance(g, spec, &mut words),
        10 | 11 => {
            utterance(g, spec, &mut words);
            utterance(g, spec, &mut words);
        }
        12..=15 => {
            for _ in 0..g.range(1, 6) {
                word(g, spec, &mut words);
            }
        }
        16 => {
            // placeholders typed by the user
            let i = g.pick(&spec.intents);
            for c in g.pick(&i.utterances).clone() {
                match c {
                    Chunk::T(t) => words.push(t),
                    Chunk::S(s, t) => {
                        words.push(if g.chance(60) { placeholder(&i.slots[&s]) } else { t })
                    }
                }
            }
        }
        17 => return g.string(30),
        18 => {
            utterance(g, spec, &mut words);
            words.push(g.string(6));
        }
        _ => return g.word(&["", " ", "\t\n", "?", "...", "\u{a0}", "%", "İ"]),
    }
    mutate(g, spec, words)
}

fn utterance(g: &mut Gen, spec: &Spec, words: &mut Vec<String>) {
    let i = g.pick(&spec.intents);
    let u = g.pick(&i.utterances).clone();
    for c in u {
        match c {
            Chunk::T(t) => words.extend(t.split(' ').map(|w| w.to_string())),
            Chunk::S(s, t) => {
                let t = match g.below(5) {
                    0 | 1 => slot_text(g, &i.slots[&s], &spec.entities, &spec.gaz),
                    2 => {
                        if g.chance(60) {
                            // as it is displayed
                            spec.entities
                                .get(&i.slots[&s])
                                .or_else(|| spec.gaz.as_ref().and_then(|m| m.get(&i.slots[&s])))
                                .map(|e| g.pick(&e.values).1.clone())
                                .unwrap_or(t)
                        } else {
                            g.word(if spec.lang == "ja" { JA_WORDS } else { WORDS })
                        }
                    }
                    _ => t,
                };
                words.push(t);
            }
        }
    }
}

/// what a pattern matches, literally or with values in place of the slots
fn rendered(g: &mut Gen, spec: &Spec, words: &mut Vec<String>) -> bool {
    let patterns: Vec<(&String, &Vec<Item>)> = spec
        .parsers
        .iter()
        .filter_map(|p| match p {
            Parser::Det(d) => Some(d),
            _ => None,
        })
        .flat_map(|d| d.patterns.iter().flat_map(|(i, l)| l.iter().map(move |p| (i, p))))
        .collect();
    if patterns.is_empty() {
        return false;
    }
    let (intent, items) = patterns[g.below(patterns.len())];
    let slots = &spec.intents.iter().find(|i| i.name == *intent).unwrap().slots;
    for item in items {
        match item {
            Item::Begin(_) | Item::End => {}
            Item::W(w) => words.push(w.clone()),
            Item::S { slot, literals, placeholder } => {
                if literals.is_empty() || (*placeholder && g.chance(50)) {
                    words.push(slot_text(g, &slots[slot], &spec.entities, &spec.gaz));
                } else {
                    // the last one is the rarest
                    let n = literals.len();
                    words.push(literals[if g.chance(50) { n - 1 } else { g.below(n) }].clone());
                }
            }
        }
    }
    true
}

fn word(g: &mut Gen, spec: &Spec, words: &mut Vec<String>) {
    match g.below(6) {
        0 => {
            let names: Vec<&Ent> = spec.entities.values().chain(spec.gaz.iter().flat_map(|m| m.values())).collect();
            let e = names[g.below(names.len())];
            let v = g.pick(&e.values);
            words.push(if g.chance(50) { v.0.clone() } else { v.1.clone() });
        }
        1 => {
            let kind = g.word(GRAMMAR);
            words.push(builtin_text(g, &kind));
        }
        2 => {
            let list = spec.res.stop_words.clone().unwrap_or_default();
            if !list.is_empty() {
                words.push(g.pick(&list).clone());
            }
        }
        _ => words.push(g.word(if spec.lang == "ja" { JA_WORDS } else { WORDS })),
    }
}

fn recase(g: &mut Gen, s: &str) -> String {
    match g.below(3) {
        0 => s.to_uppercase(),
        1 => {
            let mut c = s.chars();
            c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default()
        }
        _ => s
            .chars()
            .map(|c| if g.chance(50) { c.to_uppercase().collect::<String>() } else { c.to_string() })
            .collect(),
    }
}

fn mutate(g: &mut Gen, spec: &Spec, mut words: Vec<String>) -> String {
    if g.chance(12) && words.len() > 1 {
        let i = g.below(words.len());
        words.remove(i);
    }
    if g.chance(20) {
        let stop = spec.res.stop_words.clone().unwrap_or_default();
        if !stop.is_empty() {
            for _ in 0..g.range(1, 2) {
                let at = g.below(words.len() + 1);
                words.insert(at, g.pick(&stop).clone());
            }
        }
    }
    if g.chance(8) {
        let at = g.below(words.len() + 1);
        let mut extra = vec![];
        word(g, spec, &mut extra);
        for w in extra {
            words.insert(at, w);
        }
    }
    if g.chance(6) && words.len() > 1 {
        let (i, j) = (g.below(words.len()), g.below(words.len()));
        words.swap(i, j);
    }
    let recase_all = g.chance(15);
    let recase_some = g.chance(25);
    let odd_spaces = g.chance(25);
    let glue = g.chance(4);
    let mut out = String::new();
    if g.chance(10) {
        out += &g.word(&[" ", "  ", "\"", "...", "¿", "\u{3000}", "-"]);
    }
    let n = words.len();
    for (i, w) in words.into_iter().enumerate() {
        if i > 0 && !glue {
            if odd_spaces && g.chance(50) {
                out += &g.word(&["  ", ", ", " - ", "\t", " \"", "... ", "\u{a0}", "' ", "/", " İ "]);
            } else {
                out.push(' ');
            }
        }
        let w = if recase_all || (recase_some && g.chance(40)) { recase(g, &w) } else { w };
        // punctuation or spaces inside of a value
        let w = if odd_spaces && w.contains(' ') && g.chance(50) {
            w.replacen(' ', &g.word(&["  ", "-", ", ", "\n", ". "]), 1)
        } else {
            w
        };
        out += &w;
        let _ = n;
    }
    if g.chance(25) {
        out += &g.word(&["?", "!", " ", ".", " ?", "...", "  ", " please", "\n"]);
    }
    out
}

pub fn gen_texts(g: &mut Gen, spec: &Spec, lo: usize, hi: usize) -> Vec<String> {
    let n = g.range(lo, hi);
    (0..n).map(|_| gen_text(g, spec)).collect()
}
