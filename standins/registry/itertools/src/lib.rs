//! itertools 0.8 is not in the offline cache: re-export 0.13, whose API includes it.
pub use real::*;
