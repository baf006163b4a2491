//! Checks of the whole library.
#![allow(dead_code)]
#[macro_use]
mod core;
#[macro_use]
mod common;
mod classifier;
mod damage;
mod engine;
mod faults;
mod ffi;
mod files;
mod filler;
mod guard;
mod parsers;
mod cclient;
mod py;
mod refs;
mod res;
mod serve;
mod spec;
mod text;

use crate::core::{install_panic_hook, load_replay, watchdog, Mode, Run};
use std::path::{Path, PathBuf};

#[global_allocator]
static COUNTING: ffi::Counting = ffi::Counting;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let root = PathBuf::from(std::env::var("VP_ROOT").unwrap_or_else(|_| "/verif".to_string()));
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let id = args[0].clone();
    let mode = match args.get(1).map(|a| &**a) {
        Some("--replay") => load_replay(Path::new(&args[2])).1,
        _ => Mode::Explore,
    };
    install_panic_hook();
    if id == "--serve" {
        serve::serve();
        return;
    }
    if id == "--write" {
        // writes the engine described by a file of JSON
        let s: spec::Spec = serde_json::from_str(&std::fs::read_to_string(&args[1]).unwrap()).unwrap();
        spec::write(&s, Path::new(&args[2]));
        return;
    }
    guard::limit_memory(24 << 30);
    if let Mode::Explore = mode {
        guard::catch_signals();
    }
    watchdog(if thorough { 4 * 3600 } else { 800 });
    let mut run = Run::new(&id, thorough, seed, mode, root);
    match &*id {
        "C01" => engine::c01(&mut run),
        "C02" => engine::c02(&mut run),
        "C03" => engine::c03(&mut run),
        "C04" => engine::c04(&mut run),
        "C05" => engine::c05(&mut run),
        "C06" => engine::c06(&mut run),
        "C16" => engine::c16(&mut run),
        "C17" => engine::c17(&mut run),
        "C18" => engine::c18(&mut run),
        "C30" => engine::c30(&mut run),
        "C31" => engine::c31(&mut run),
        "C35" => engine::c35(&mut run),
        "C36" => engine::c36(&mut run),
        "C37" => engine::c37(&mut run),
        "C19" => files::c19(&mut run),
        "C20" => files::c20(&mut run),
        "C21" => files::c21(&mut run),
        "C22" => damage::c22(&mut run),
        "C23" => files::c23(&mut run),
        "C24" => files::c24(&mut run),
        "C25" => res::c25(&mut run),
        "C26" => res::c26(&mut run),
        "C27" => ffi::c27(&mut run),
        "C28" => ffi::c28(&mut run),
        "C29" => py::c29(&mut run),
        "C34" => cclient::c34(&mut run),
        "C10" => classifier::c10(&mut run),
        "C11" => classifier::c11(&mut run),
        "C12" => classifier::c12(&mut run),
        "C13" => filler::c13(&mut run),
        "C14" => filler::c14(&mut run),
        "C15" => filler::c15(&mut run),
        "C07" => parsers::c07(&mut run),
        "C08" => parsers::c08(&mut run),
        "C09" => parsers::c09(&mut run),
        _ => {
            eprintln!("unknown check {}", id);
            std::process::exit(2);
        }
    }
    std::process::exit(run.finish());
}
