//! Stand-in for snips-nlu-utils 0.9.1 (a git dependency which is not available offline).
//! It reproduces the public API of the original crate and its documented behaviour.
pub mod language;
pub mod range;
pub mod string;
pub mod token;
