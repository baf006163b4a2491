use crate::language::Language;
use crate::string::normalize;
use lazy_static::lazy_static;
use regex::Regex;
use std::ops::Range;

#[derive(Debug, Clone, PartialEq, Eq, Hash, Default)]
pub struct Token {
    pub value: String,
    pub range: Range<usize>,
    pub char_range: Range<usize>,
    normalized_value: Option<String>,
}

impl Token {
    pub fn new(value: String, range: Range<usize>, char_range: Range<usize>) -> Self {
        Token {
            value,
            range,
            char_range,
            normalized_value: None,
        }
    }

    pub fn normalized_value(&self) -> String {
        normalize(&self.value)
    }
}

lazy_static! {
    // A token is either a run of word characters or a meaningful symbol; every other
    // character (spaces, quotes, commas, dots...) only separates tokens.
    static ref TOKEN: Regex = Regex::new(r"\w+|[?!&%{}$€£¥¢°@#*+=]").unwrap();
}

pub fn tokenize(input: &str, language: Language) -> Vec<Token> {
    let mut tokens = vec![];
    let mut last_byte = 0;
    let mut last_char = 0;
    for m in TOKEN.find_iter(input) {
        let pieces: Vec<(usize, usize)> = match language {
            // Languages without spaces: one token per character
            Language::JA => m
                .as_str()
                .char_indices()
                .map(|(i, c)| (m.start() + i, m.start() + i + c.len_utf8()))
                .collect(),
            _ => vec![(m.start(), m.end())],
        };
        for (start, end) in pieces {
            let char_start = last_char + input[last_byte..start].chars().count();
            let char_end = char_start + input[start..end].chars().count();
            last_byte = end;
            last_char = char_end;
            tokens.push(Token::new(
                input[start..end].to_string(),
                start..end,
                char_start..char_end,
            ));
        }
    }
    tokens
}

pub fn tokenize_light(input: &str, language: Language) -> Vec<String> {
    tokenize(input, language).into_iter().map(|t| t.value).collect()
}

/// All the ngrams of size 1 to `max_ngram_size`, with the indexes of the tokens they are made of
pub fn compute_all_ngrams(tokens: &[&str], max_ngram_size: usize) -> Vec<(String, Vec<usize>)> {
    let mut ngrams = vec![];
    for start in 0..tokens.len() {
        let mut ngram = String::new();
        let mut indexes = vec![];
        for (i, token) in tokens.iter().enumerate().skip(start).take(max_ngram_size) {
            if !ngram.is_empty() || !indexes.is_empty() {
                ngram.push(' ');
            }
            ngram.push_str(token);
            indexes.push(i);
            ngrams.push((ngram.clone(), indexes.clone()));
        }
    }
    ngrams
}
