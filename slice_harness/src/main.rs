//! Checks of C10 (scores), C32 (models) and C33 (errors).
#![allow(dead_code)]
#[macro_use]
#[path = "../../harness/src/core.rs"]
mod core;
#[path = "../../harness/src/c32.rs"]
mod c32;
#[path = "../../harness/src/c33.rs"]
mod c33;
mod c10;

// The repository's own files
#[path = "/repo/src/errors.rs"]
pub mod errors;
#[path = "/repo/src/models/mod.rs"]
pub mod models;
pub mod injection {
    #[path = "/repo/src/injection/errors.rs"]
    pub mod errors;
}
pub mod intent_classifier {
    #[path = "/repo/src/intent_classifier/logreg.rs"]
    pub mod logreg;
}
pub mod utils {
    include!(concat!(env!("OUT_DIR"), "/utils.rs"));
}

use crate::core::{install_panic_hook, load_replay, watchdog, Mode, Run};
use std::path::{Path, PathBuf};

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let root = PathBuf::from(std::env::var("VP_ROOT").unwrap_or_else(|_| "/verif".to_string()));
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let id = args[0].clone();
    let mode = match args.get(1).map(|a| &**a) {
        Some("--replay") => load_replay(Path::new(&args[2])).1,
        _ => Mode::Explore,
    };
    install_panic_hook();
    watchdog(if thorough { 4 * 3600 } else { 800 });
    let mut run = Run::new(&id, thorough, seed, mode, root);
    match &*id {
        "C10" => c10::run(&mut run),
        "C32" => c32::run(&mut run),
        "C33" => c33::run(&mut run),
        _ => {
            eprintln!("unknown check {}", id);
            std::process::exit(2);
        }
    }
    std::process::exit(run.finish());
}
