//! C29 (Python wrapper)
use crate::common::*;
use crate::core::*;
use crate::engine::*;
use crate::ffi::{gen_c_call, gen_c_case};
use crate::files::zip_of;
use crate::serve::Server;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use snips_nlu_lib::SnipsNluEngine;
use snips_nlu_ontology::*;
use std::cell::RefCell;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::Once;

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Step {
    /// a call, and whether its numbers of alternatives are left to the wrapper
    Call(Call, bool),
    /// slots of an intent that does not exist, or a filter naming it
    Unknown(usize, String),
    UnknownFilter(usize, String, bool),
    NoDir(String),
    NoZip(Vec<u8>),
    Nothing,
    /// a filter that is no list of strings, as JSON
    Wrong(String, bool),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct History {
    case: Case,
    steps: Vec<Step>,
    zip: bool,
    /// whether the engine is created several times
    again: bool,
}

#[derive(Deserialize, Debug)]
struct PyAnswer {
    result: Option<Value>,
    error: Option<String>,
    #[serde(rename = "type", default)]
    types: Vec<String>,
}

#[derive(Deserialize, Debug)]
struct PyReply {
    created: Option<PyAnswer>,
    answers: Vec<PyAnswer>,
    kept: Vec<i64>,
    engine: i64,
}

static PACKAGE: Once = Once::new();

/// The Python files of the repository beside the library built from it
fn package() -> PathBuf {
    let base = PathBuf::from(std::env::var("VP_SCRATCH").unwrap_or_else(|_| "/tmp".to_string())).join("python");
    PACKAGE.call_once(|| {
        let root = PathBuf::from(std::env::var("VP_ROOT").unwrap_or_else(|_| "/verif".to_string()));
        let to = base.join("snips_nlu_rust");
        std::fs::create_dir_all(to.join("dylib")).unwrap();
        let from = Path::new("/repo/platforms/python/snips_nlu_rust");
        for entry in std::fs::read_dir(from).unwrap() {
            let path = entry.unwrap().path();
            if path.is_file() {
                std::fs::copy(&path, to.join(path.file_name().unwrap())).unwrap();
            }
        }
        let lib = root.join("target/release/libsnips_nlu_python_ffi.so");
        assert!(lib.exists(), "the library of the Python wrapper is not built");
        std::os::unix::fs::symlink(lib, to.join("dylib/libsnips_nlu.so")).unwrap();
        std::fs::copy(root.join("pyffi/driver.py"), base.join("driver.py")).unwrap();
    });
    base
}

thread_local! {
    static PYTHON: RefCell<Option<Server>> = const { RefCell::new(None) };
}

fn ask(request: &Value) -> std::result::Result<PyReply, String> {
    let base = package();
    PYTHON.with(|s| {
        let mut s = s.borrow_mut();
        if s.is_none() {
            *s = Some(Server::of(
                Command::new("python3").arg("-B").arg(base.join("driver.py")).env("PYTHONPATH", &base).env("PYTHONIOENCODING", "utf8"),
            ));
        }
        let reply = s.as_mut().unwrap().ask("", request, 60);
        if reply.is_err() {
            *s = None;
        }
        reply
    })
}

/// The request of a step, and what the library gives for it: a value or the messages of an error
fn expected(engine: &SnipsNluEngine, h: &History, files: &Files, step: &Step, i: usize) -> (Value, std::result::Result<Answer, Vec<String>>) {
    let chain = |e: failure::Error| e.iter_chain().map(|c| c.to_string()).collect::<Vec<_>>();
    match step {
        Step::Call(Call::Parse { text, white, black, n, m }, defaults) => {
            let (n, m) = if *defaults { (0, 5) } else { (*n, *m) };
            let mut r = json!({"kind": "parse", "text": text, "intents_whitelist": white, "intents_blacklist": black});
            if !defaults {
                r["intents_alternatives"] = json!(n);
                r["slots_alternatives"] = json!(m);
            }
            let w = white.as_ref().map(|l| as_strs(l));
            let b = black.as_ref().map(|l| as_strs(l));
            (r, engine.parse_with_alternatives(&h.case.texts[*text], w, b, n, m).map(Answer::Parse).map_err(chain))
        }
        Step::Call(Call::Slots(t, intent, m), defaults) => {
            let m = if *defaults { 5 } else { *m };
            let mut r = json!({"kind": "slots", "text": t, "intent": intent});
            if !defaults {
                r["slots_alternatives"] = json!(m);
            }
            (r, engine.get_slots_with_alternatives(&h.case.texts[*t], intent, m).map(Answer::Slots).map_err(chain))
        }
        Step::Call(Call::Intents(t), _) => {
            (json!({"kind": "intents", "text": t}), engine.get_intents(&h.case.texts[*t]).map(Answer::Intents).map_err(chain))
        }
        Step::Call(..) => unreachable!(),
        Step::Unknown(t, intent) => (
            json!({"kind": "slots", "text": t, "intent": intent}),
            engine.get_slots_with_alternatives(&h.case.texts[*t], intent, 5).map(Answer::Slots).map_err(chain),
        ),
        Step::UnknownFilter(t, intent, white) => {
            let l = vec![intent.as_str()];
            let (w, b) = if *white { (Some(l), None) } else { (None, Some(l)) };
            let k = if *white { "intents_whitelist" } else { "intents_blacklist" };
            (
                json!({"kind": "parse", "text": t, k: [intent]}),
                engine.parse_with_alternatives(&h.case.texts[*t], w, b, 0, 5).map(Answer::Parse).map_err(chain),
            )
        }
        Step::NoDir(name) => {
            let dir = files.scratch.join("none").join(name);
            (json!({"kind": "create", "dir": &dir}), Err(SnipsNluEngine::from_path(&dir).err().map(chain).unwrap_or_default()))
        }
        Step::NoZip(bytes) => {
            let path = files.scratch.join(&format!("data{}", i));
            std::fs::write(&path, bytes).unwrap();
            let e = SnipsNluEngine::from_zip(std::io::Cursor::new(bytes.clone())).err();
            (json!({"kind": "create", "data": &path}), Err(e.map(chain).unwrap_or_default()))
        }
        Step::Nothing => (json!({"kind": "create"}), Err(vec![])),
        Step::Wrong(value, white) => (
            json!({"kind": "wrong", "value": value, "filter": if *white { "intents_whitelist" } else { "intents_blacklist" }}),
            Err(vec![]),
        ),
    }
}

pub fn as_answer(like: &Answer, v: &Value) -> std::result::Result<Answer, String> {
    let err = |e: serde_json::Error| format!("{}: {}", e, v);
    let (a, again) = match like {
        Answer::Parse(_) => {
            let r: IntentParserResult = serde_json::from_value(v.clone()).map_err(err)?;
            (Answer::Parse(r.clone()), serde_json::to_value(&r))
        }
        Answer::Slots(_) => {
            let r: Vec<Slot> = serde_json::from_value(v.clone()).map_err(err)?;
            (Answer::Slots(r.clone()), serde_json::to_value(&r))
        }
        _ => {
            let r: Vec<IntentClassifierResult> = serde_json::from_value(v.clone()).map_err(err)?;
            (Answer::Intents(r.clone()), serde_json::to_value(&r))
        }
    };
    let keys = |v: &Value| -> Vec<String> { v.as_object().map(|o| o.keys().cloned().collect()).unwrap_or_default() };
    let again = again.unwrap();
    ensure!(keys(&again) == keys(v), "fields {:?} instead of {:?}", keys(v), keys(&again));
    Ok(a)
}

fn gen_step(g: &mut Gen, case: &Case) -> Step {
    let text = g.below(case.texts.len());
    let name = |g: &mut Gen| g.word(&["no such intent", "None", "", "intent '%s' \"{}\"", "%d%s", "élan 😀"]);
    match g.below(14) {
        0 => Step::Unknown(text, name(g)),
        1 => Step::UnknownFilter(text, name(g), g.chance(50)),
        2 => match g.below(4) {
            0 => Step::NoDir(g.word(&["x", "a b", "é", "%s", "x/y"])),
            1 => {
                let n = g.below(40);
                Step::NoZip((0..n).map(|_| g.below(256) as u8).collect())
            }
            2 => Step::Nothing,
            _ => Step::Wrong(g.word(&["[1]", "[null]", "[\"a\", 2]", "[[\"a\"]]", "[1.5, \"b\"]"]), g.chance(50)),
        },
        _ => Step::Call(gen_c_call(g, case), g.chance(30)),
    }
}

pub fn c29(run: &mut Run) {
    run.assume("texts without NUL characters");
    run.section(
        "python",
        "the wrapper gives slots, alternatives or the messages of an error",
        (2600, 120_000),
        1500,
        |g| {
            let case = gen_c_case(g);
            let steps = g.vec(1, 10, |g| gen_step(g, &case));
            History { case, steps, zip: g.chance(30), again: g.chance(10) }
        },
        |h: &History, obs: &mut Obs| {
            let files = Files::new(&h.case.spec);
            let engine = SnipsNluEngine::from_path(&files.dir).map_err(|e| e.to_string())?;
            let mut steps = vec![];
            let mut wanted = vec![];
            for (i, s) in h.steps.iter().enumerate() {
                let (r, w) = expected(&engine, h, &files, s, i);
                steps.push(r);
                wanted.push(w);
            }
            let created = if h.zip {
                let path = files.scratch.join("engine.zip");
                std::fs::write(&path, zip_of(&files.dir)).unwrap();
                json!({ "data": path })
            } else {
                json!({ "dir": &files.dir })
            };
            let request = json!({
                "engine": created,
                "texts": &h.case.texts,
                "steps": steps,
                "again": h.again,
            });
            let reply = ask(&request)?;
            if let Some(e) = reply.created {
                return Err(format!("the engine is not created: {:?}", e));
            }
            ensure!(reply.answers.len() == wanted.len(), "{} answers instead of {}", reply.answers.len(), wanted.len());
            for ((step, w), a) in h.steps.iter().zip(&wanted).zip(&reply.answers) {
                obs.evals += 1;
                match (w, &a.result, &a.error) {
                    (Ok(w), Some(v), None) => {
                        let got = as_answer(w, v).map_err(|e| format!("{:?}: {}", step, e))?;
                        match agree(w, &got) {
                            Same::Yes => {}
                            Same::Near => obs.label("left out: rounding decides"),
                            Same::No(why) => {
                                return Err(format!("{:?} of {:?}: different {}: {:?} and {}", step, h.case.texts, why, w, v))
                            }
                        }
                        match &got {
                            Answer::Parse(p) if !p.slots.is_empty() || !p.alternatives.is_empty() => obs.hit("parse"),
                            Answer::Slots(s) if !s.is_empty() => obs.hit("slots"),
                            Answer::Intents(l) if l.len() > 1 => obs.hit("intents"),
                            _ => {}
                        }
                    }
                    (Err(messages), None, Some(e)) => {
                        let kind = match step {
                            Step::Wrong(..) => "TypeError",
                            _ => "ValueError",
                        };
                        ensure!(
                            a.types.iter().any(|t| t == kind),
                            "{:?} raises {:?} instead of {}: {}", step, a.types, kind, e
                        );
                        for m in messages {
                            // the name of the temporary folder of an archive changes
                            if !matches!(step, Step::NoZip(_)) || !m.contains("snips") {
                                ensure!(e.contains(m.as_str()), "{:?} raises {:?} without {:?}", step, e, m);
                            }
                        }
                        ensure!(!e.is_empty(), "{:?} raises an error without a message", step);
                        obs.hit("error");
                    }
                    _ => return Err(format!("{:?} of {:?}: {:?} and {:?}", step, h.case.texts, w, a)),
                }
            }
            for (i, kept) in reply.kept.iter().enumerate() {
                ensure!(*kept <= 0, "call {} of {:?}: {} bytes are kept by every call", i, h.steps, kept);
            }
            ensure!(reply.engine <= 0, "{} bytes are kept by every engine created", reply.engine);
            Ok(())
        },
    );
}
