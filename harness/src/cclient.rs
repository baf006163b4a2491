//! C34 (programs in C)
use crate::common::*;
use crate::core::*;
use crate::engine::*;
use crate::ffi::{gen_c_call, gen_c_case};
use crate::files::zip_of;
use crate::py::as_answer;
use crate::serve::Server;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use snips_nlu_lib::SnipsNluEngine;
use std::cell::RefCell;
use std::path::PathBuf;
use std::process::Command;
use std::sync::OnceLock;

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Step {
    /// a call, and whether its result is asked as JSON
    Call(Call, bool),
    /// slots of an intent that does not exist, or a filter naming it
    Unknown(usize, String, bool),
    UnknownFilter(usize, String, bool, bool),
    NoDir(String),
    NoZip(Vec<u8>),
    Version,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct History {
    case: Case,
    steps: Vec<Step>,
    zip: bool,
}

#[derive(Deserialize, Debug)]
struct Reply {
    #[serde(default)]
    result: Value,
    error: Option<String>,
}

static PROGRAM: OnceLock<std::result::Result<PathBuf, String>> = OnceLock::new();

/// The program, compiled with the header of the repository
fn program() -> std::result::Result<PathBuf, String> {
    PROGRAM
        .get_or_init(|| {
            let root = PathBuf::from(std::env::var("VP_ROOT").unwrap_or_else(|_| "/verif".to_string()));
            let scratch = PathBuf::from(std::env::var("VP_SCRATCH").unwrap_or_else(|_| "/tmp".to_string()));
            let lib = root.join("target/release");
            let out = scratch.join("client");
            let built = Command::new("gcc")
                .args(["-std=gnu11", "-O1", "-Werror=implicit-function-declaration", "-Werror=incompatible-pointer-types"])
                .args(["-Werror=int-conversion", "-I/repo/platforms/c"])
                .arg(root.join("cclient/client.c"))
                .arg("-L")
                .arg(&lib)
                .arg("-lsnips_nlu_python_ffi")
                .arg(format!("-Wl,-rpath,{}", lib.display()))
                .arg("-o")
                .arg(&out)
                .output()
                .map_err(|e| e.to_string())?;
            ensure!(
                built.status.success(),
                "a program that uses every function of the header does not build: {}",
                String::from_utf8_lossy(&built.stderr)
            );
            Ok(out)
        })
        .clone()
}

thread_local! {
    static CLIENT: RefCell<Option<Server>> = const { RefCell::new(None) };
}

fn ask(request: &[u8]) -> std::result::Result<Reply, String> {
    let program = program()?;
    CLIENT.with(|s| {
        let mut s = s.borrow_mut();
        if s.is_none() {
            *s = Some(Server::of(&mut Command::new(program)));
        }
        let reply = s.as_mut().unwrap().ask_bytes(request, 60);
        if reply.is_err() {
            *s = None;
        }
        reply
    })
}

fn field(out: &mut Vec<u8>, s: &[u8]) {
    out.extend(format!("{}\n", s.len()).as_bytes());
    out.extend(s);
}

fn number(out: &mut Vec<u8>, n: i64) {
    field(out, n.to_string().as_bytes());
}

fn names(out: &mut Vec<u8>, l: &Option<Vec<String>>) {
    match l {
        None => number(out, -1),
        Some(l) => {
            number(out, l.len() as i64);
            for s in l {
                field(out, s.as_bytes());
            }
        }
    }
}

fn head(out: &mut Vec<u8>, what: &str, json: bool) {
    field(out, format!("{}{}", what, if json { "j" } else { "s" }).as_bytes());
}

/// The request of a step, and what the library gives for it: a value or the messages of an error
fn expected(engine: &SnipsNluEngine, h: &History, files: &Files, step: &Step) -> (Vec<u8>, std::result::Result<Answer, Vec<String>>) {
    let chain = |e: failure::Error| e.iter_chain().map(|c| c.to_string()).collect::<Vec<_>>();
    let mut r = vec![];
    let t = |i: &usize| h.case.texts[*i].as_str();
    // without alternatives, there are two functions
    let n_m = |out: &mut Vec<u8>, n: usize, m: usize, i: usize| {
        number(out, if n == 0 && m == 0 && i % 2 == 0 { -1 } else { n as i64 });
        number(out, m as i64);
    };
    match step {
        Step::Call(Call::Parse { text, white, black, n, m }, json) => {
            head(&mut r, "P", *json);
            field(&mut r, t(text).as_bytes());
            names(&mut r, white);
            names(&mut r, black);
            n_m(&mut r, *n, *m, *text);
            let w = white.as_ref().map(|l| as_strs(l));
            let b = black.as_ref().map(|l| as_strs(l));
            (r, engine.parse_with_alternatives(t(text), w, b, *n, *m).map(Answer::Parse).map_err(chain))
        }
        Step::Call(Call::Slots(text, intent, m), json) => {
            head(&mut r, "S", *json);
            field(&mut r, t(text).as_bytes());
            field(&mut r, intent.as_bytes());
            number(&mut r, if *m == 0 && text % 2 == 0 { -1 } else { *m as i64 });
            (r, engine.get_slots_with_alternatives(t(text), intent, *m).map(Answer::Slots).map_err(chain))
        }
        Step::Call(Call::Intents(text), json) => {
            head(&mut r, "I", *json);
            field(&mut r, t(text).as_bytes());
            (r, engine.get_intents(t(text)).map(Answer::Intents).map_err(chain))
        }
        Step::Call(..) => unreachable!(),
        Step::Unknown(text, intent, json) => {
            head(&mut r, "S", *json);
            field(&mut r, t(text).as_bytes());
            field(&mut r, intent.as_bytes());
            number(&mut r, 3);
            (r, engine.get_slots_with_alternatives(t(text), intent, 3).map(Answer::Slots).map_err(chain))
        }
        Step::UnknownFilter(text, intent, white, json) => {
            head(&mut r, "P", *json);
            field(&mut r, t(text).as_bytes());
            let l = Some(vec![intent.clone()]);
            let (w, b) = if *white { (l, None) } else { (None, l) };
            names(&mut r, &w);
            names(&mut r, &b);
            n_m(&mut r, 0, 0, *text);
            let w = w.as_ref().map(|l| as_strs(l));
            let b = b.as_ref().map(|l| as_strs(l));
            (r, engine.parse_with_alternatives(t(text), w, b, 0, 0).map(Answer::Parse).map_err(chain))
        }
        Step::NoDir(name) => {
            let dir = files.scratch.join("none").join(name);
            head(&mut r, "D", false);
            field(&mut r, dir.to_str().unwrap().as_bytes());
            (r, Err(SnipsNluEngine::from_path(&dir).err().map(chain).unwrap_or_default()))
        }
        Step::NoZip(bytes) => {
            head(&mut r, "Z", false);
            field(&mut r, bytes);
            let e = SnipsNluEngine::from_zip(std::io::Cursor::new(bytes.clone())).err();
            (r, Err(e.map(chain).unwrap_or_default()))
        }
        Step::Version => {
            head(&mut r, "V", false);
            (r, Ok(Answer::Intents(vec![])))
        }
    }
}

fn gen_step(g: &mut Gen, case: &Case) -> Step {
    let text = g.below(case.texts.len());
    let name = |g: &mut Gen| g.word(&["no such intent", "None", "", "intent '%s' \"{}\"", "%d%s", "élan 😀"]);
    match g.below(14) {
        0 => Step::Unknown(text, name(g), g.chance(50)),
        1 => Step::UnknownFilter(text, name(g), g.chance(50), g.chance(50)),
        2 => match g.below(3) {
            0 => Step::NoDir(g.word(&["x", "a b", "é", "%s", "x/y"])),
            1 => {
                let n = g.below(40);
                Step::NoZip((0..n).map(|_| g.below(256) as u8).collect())
            }
            _ => Step::Version,
        },
        _ => Step::Call(gen_c_call(g, case), g.chance(35)),
    }
}

pub fn c34(run: &mut Run) {
    run.assume("texts without NUL characters");
    run.section(
        "programs in C",
        "the program gets slots, alternatives or the message of an error",
        (5000, 200_000),
        1500,
        |g| {
            let case = gen_c_case(g);
            let steps = g.vec(1, 12, |g| gen_step(g, &case));
            History { case, steps, zip: g.chance(30) }
        },
        |h: &History, obs: &mut Obs| {
            let files = Files::new(&h.case.spec);
            let engine = SnipsNluEngine::from_path(&files.dir).map_err(|e| e.to_string())?;
            let mut first = vec![];
            if h.zip {
                head(&mut first, "Z", false);
                field(&mut first, &zip_of(&files.dir));
            } else {
                head(&mut first, "D", false);
                field(&mut first, files.dir.to_str().unwrap().as_bytes());
            }
            let created = ask(&first)?;
            ensure!(created.error.is_none(), "the engine is not created: {:?}", created);
            for step in &h.steps {
                let (request, wanted) = expected(&engine, h, &files, step);
                let reply = ask(&request).map_err(|e| format!("{:?} of {:?}: {}", step, h.case.texts, e))?;
                obs.evals += 1;
                match (&wanted, &reply.error) {
                    (Ok(_), None) if matches!(step, Step::Version) => {
                        ensure!(reply.result[0] == snips_nlu_lib::MODEL_VERSION, "model version {}", reply.result);
                    }
                    (Ok(w), None) => {
                        let got = as_answer(w, &reply.result).map_err(|e| format!("{:?}: {}", step, e))?;
                        match agree(w, &got) {
                            Same::Yes => {}
                            Same::Near => obs.label("left out: rounding decides"),
                            Same::No(why) => {
                                return Err(format!("{:?} of {:?}: different {}: {:?} and {}", step, h.case.texts, why, w, reply.result))
                            }
                        }
                        label_values(&got, obs);
                        match &got {
                            Answer::Parse(p) if !p.slots.is_empty() || !p.alternatives.is_empty() => obs.hit("parse"),
                            Answer::Slots(s) if !s.is_empty() => obs.hit("slots"),
                            Answer::Intents(l) if l.len() > 1 => obs.hit("intents"),
                            _ => {}
                        }
                    }
                    (Err(messages), Some(e)) => {
                        ensure!(!e.is_empty(), "{:?} fails without a message", step);
                        for m in messages {
                            // the name of the temporary folder of an archive changes
                            if !matches!(step, Step::NoZip(_)) || !m.contains("snips") {
                                ensure!(e.contains(m.as_str()), "{:?} fails with {:?} without {:?}", step, e, m);
                            }
                        }
                        obs.hit("error");
                    }
                    _ => return Err(format!("{:?} of {:?}: {:?} and {:?}", step, h.case.texts, wanted, reply)),
                }
            }
            Ok(())
        },
    );
}
