use std::ops::Range;
use unicode_normalization::char::is_combining_mark;
use unicode_normalization::UnicodeNormalization;

pub fn remove_diacritics(s: &str) -> String {
    s.nfd().filter(|c| !is_combining_mark(*c)).nfc().collect()
}

pub fn normalize(s: &str) -> String {
    remove_diacritics(&s.trim().to_lowercase())
}

fn byte_index(s: &str, char_index: usize) -> usize {
    s.char_indices()
        .map(|(i, _)| i)
        .chain(std::iter::once(s.len()))
        .nth(char_index)
        .unwrap_or_else(|| s.len())
}

pub fn prefix_until_char_index(s: String, index: usize) -> String {
    substring_with_char_range(s, &(0..index))
}

pub fn suffix_from_char_index(s: String, index: usize) -> String {
    s.chars().skip(index).collect()
}

pub fn substring_with_char_range(s: String, range: &Range<usize>) -> String {
    s.chars()
        .skip(range.start)
        .take(range.end.saturating_sub(range.start))
        .collect()
}

/// Converts a range of bytes into the corresponding range of chars
pub fn convert_to_char_range(s: &str, byte_range: &Range<usize>) -> Range<usize> {
    convert_to_char_index(s, byte_range.start)..convert_to_char_index(s, byte_range.end)
}

pub fn convert_to_char_index(s: &str, byte_index: usize) -> usize {
    s.char_indices().take_while(|(i, _)| *i < byte_index).count()
}

pub fn convert_to_byte_range(s: &str, char_range: &Range<usize>) -> Range<usize> {
    convert_to_byte_index(s, char_range.start)..convert_to_byte_index(s, char_range.end)
}

pub fn convert_to_byte_index(s: &str, char_index: usize) -> usize {
    byte_index(s, char_index)
}

pub fn get_shape(s: &str) -> &'static str {
    if s.is_empty() {
        return "xX";
    }
    let is_lower = |c: char| c.is_lowercase();
    let is_upper = |c: char| c.is_uppercase();
    if s.chars().all(is_lower) {
        "xxx"
    } else if s.chars().all(is_upper) {
        "XXX"
    } else if s.chars().next().map(is_upper).unwrap_or(false) && s.chars().skip(1).all(is_lower) {
        "Xxx"
    } else {
        "xX"
    }
}

/// 32 bits FNV-1a
pub fn hash_str_to_i32(input: &str) -> i32 {
    let mut hash: u32 = 0x811c_9dc5;
    for b in input.as_bytes() {
        hash ^= u32::from(*b);
        hash = hash.wrapping_mul(0x0100_0193);
    }
    hash as i32
}
