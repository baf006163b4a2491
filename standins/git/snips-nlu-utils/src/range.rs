use std::ops::Range;

/// Two ranges overlap when they share at least one index
pub fn ranges_overlap(r1: &Range<usize>, r2: &Range<usize>) -> bool {
    r1.start < r2.end && r2.start < r1.end
}
