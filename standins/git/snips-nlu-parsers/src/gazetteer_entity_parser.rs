//! Stand-in for gazetteer-entity-parser 0.7. Reads its MessagePack files and its own JSON files,
//! writes JSON files.
use failure::{bail, format_err, ResultExt};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::ops::Range;
use std::path::Path;

type Result<T> = std::result::Result<T, failure::Error>;

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct EntityValue {
    pub resolved_value: String,
    pub raw_value: String,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ParsedValue {
    pub resolved_value: String,
    pub alternatives: Vec<String>,
    pub range: Range<usize>,
    pub matched_value: String,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct StoredValue {
    pub raw: String,
    pub resolved: String,
    #[serde(default)]
    pub injected: bool,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct ParserFile {
    /// by increasing rank
    values: Vec<StoredValue>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct ParserConfig {
    version: String,
    parser_filename: String,
    threshold: f32,
    stop_words: Vec<String>,
    edge_cases: Vec<String>,
}

#[derive(Debug, Clone)]
pub struct Parser {
    values: Vec<StoredValue>,
    config: ParserConfig,
    tokens: Vec<Vec<String>>,
    index: BTreeMap<String, Vec<usize>>,
}

impl Parser {
    fn build(config: ParserConfig, values: Vec<StoredValue>) -> Parser {
        let tokens: Vec<Vec<String>> = values
            .iter()
            .map(|v| v.raw.split_whitespace().map(|t| t.to_string()).collect())
            .collect();
        let mut index: BTreeMap<String, Vec<usize>> = BTreeMap::new();
        for (i, value_tokens) in tokens.iter().enumerate() {
            for token in value_tokens.iter().collect::<HashSet<_>>() {
                index.entry(token.clone()).or_insert_with(Vec::new).push(i);
            }
        }
        Parser {
            values,
            config,
            tokens,
            index,
        }
    }

    pub fn from_folder<P: AsRef<Path>>(folder: P) -> Result<Parser> {
        let metadata_path = folder.as_ref().join("metadata.json");
        let file = fs::File::open(&metadata_path)
            .with_context(|_| format!("Cannot open metadata file {:?}", metadata_path))?;
        let config: ParserConfig = serde_json::from_reader(file)
            .with_context(|_| format!("Cannot deserialize metadata file {:?}", metadata_path))?;
        let parser_path = folder.as_ref().join(&config.parser_filename);
        let data = fs::read(&parser_path)
            .with_context(|_| format!("Cannot open parser file {:?}", parser_path))?;
        let values = if data.first() == Some(&b'{') {
            serde_json::from_slice::<ParserFile>(&data)
                .with_context(|_| format!("Cannot deserialize parser file {:?}", parser_path))?
                .values
        } else {
            upstream_values(&data)?
        };
        Ok(Parser::build(config, values))
    }

    pub fn inject_new_values(
        &mut self,
        new_values: Vec<EntityValue>,
        prepend: bool,
        from_vanilla: bool,
    ) -> Result<()> {
        let mut values = std::mem::replace(&mut self.values, vec![]);
        if from_vanilla {
            values.retain(|v| !v.injected);
        }
        let new_values = new_values.into_iter().map(|v| StoredValue {
            raw: v.raw_value,
            resolved: v.resolved_value,
            injected: true,
        });
        let values = if prepend {
            new_values.chain(values).collect()
        } else {
            values.into_iter().chain(new_values).collect()
        };
        *self = Parser::build(self.config.clone(), values);
        Ok(())
    }

    pub fn dump<P: AsRef<Path>>(&self, folder: P) -> Result<()> {
        let folder = folder.as_ref();
        fs::create_dir(folder)
            .with_context(|_| format!("Cannot create parser directory {:?}", folder))?;
        fs::write(
            folder.join("metadata.json"),
            serde_json::to_vec(&self.config)?,
        )?;
        fs::write(
            folder.join(&self.config.parser_filename),
            serde_json::to_vec(&ParserFile {
                values: self.values.clone(),
            })?,
        )?;
        Ok(())
    }

    pub fn run(&self, input: &str, max_alternatives: usize) -> Result<Vec<ParsedValue>> {
        // whitespace tokens with their ranges in characters
        let mut tokens: Vec<(String, Range<usize>)> = vec![];
        for (i, c) in input.chars().enumerate() {
            if c.is_whitespace() {
                continue;
            }
            match tokens.last_mut() {
                Some((value, range)) if range.end == i => {
                    value.push(c);
                    range.end = i + 1;
                }
                _ => tokens.push((c.to_string(), i..i + 1)),
            }
        }
        // (consumed tokens, length of the value, rank, start)
        let mut candidates: Vec<(usize, usize, usize, usize)> = vec![];
        for start in 0..tokens.len() {
            for rank in self.index.get(&tokens[start].0).into_iter().flatten() {
                let value_tokens = &self.tokens[*rank];
                let mut position = 0;
                let mut consumed = 0;
                for (token, _) in &tokens[start..] {
                    match value_tokens[position..].iter().position(|t| t == token) {
                        Some(skipped) => {
                            position += skipped + 1;
                            consumed += 1;
                        }
                        None => break,
                    }
                }
                if consumed as f32 / value_tokens.len() as f32 >= self.config.threshold {
                    candidates.push((consumed, value_tokens.len(), *rank, start));
                }
            }
        }
        candidates.sort_by_key(|(consumed, len, rank, start)| {
            (std::cmp::Reverse(*consumed), *len, *rank, *start)
        });
        let mut matches: Vec<ParsedValue> = vec![];
        for (consumed, _, rank, start) in candidates {
            let range = tokens[start].1.start..tokens[start + consumed - 1].1.end;
            let resolved = &self.values[rank].resolved;
            if let Some(m) = matches.iter_mut().find(|m| m.range == range) {
                if m.resolved_value != *resolved
                    && !m.alternatives.contains(resolved)
                    && m.alternatives.len() < max_alternatives
                {
                    m.alternatives.push(resolved.clone());
                }
            } else if !matches
                .iter()
                .any(|m| m.range.start < range.end && range.start < m.range.end)
            {
                matches.push(ParsedValue {
                    matched_value: input
                        .chars()
                        .skip(range.start)
                        .take(range.end - range.start)
                        .collect(),
                    range,
                    resolved_value: resolved.clone(),
                    alternatives: vec![],
                });
            }
        }
        matches.sort_by_key(|m| m.range.start);
        Ok(matches)
    }
}

#[derive(Debug)]
enum MsgPack {
    Nil,
    Int(u64),
    Float(f64),
    Str(String),
    Array(Vec<MsgPack>),
    Map(Vec<(MsgPack, MsgPack)>),
}

fn read_msgpack(data: &[u8], at: &mut usize, depth: usize) -> Result<MsgPack> {
    if depth > 32 {
        bail!("invalid parser file");
    }
    fn take<'a>(data: &'a [u8], at: &mut usize, n: usize) -> Result<&'a [u8]> {
        let end = at.checked_add(n).ok_or_else(|| format_err!("invalid length"))?;
        let slice = data
            .get(*at..end)
            .ok_or_else(|| format_err!("truncated parser file"))?;
        *at = end;
        Ok(slice)
    }
    fn uint(data: &[u8], at: &mut usize, n: usize) -> Result<u64> {
        Ok(take(data, at, n)?
            .iter()
            .fold(0, |acc, b| (acc << 8) | u64::from(*b)))
    }
    fn string(data: &[u8], at: &mut usize, n: usize) -> Result<MsgPack> {
        Ok(MsgPack::Str(String::from_utf8(take(data, at, n)?.to_vec())?))
    }
    fn array(data: &[u8], at: &mut usize, n: usize, depth: usize) -> Result<MsgPack> {
        let mut values = vec![];
        for _ in 0..n {
            values.push(read_msgpack(data, at, depth + 1)?);
        }
        Ok(MsgPack::Array(values))
    }
    fn map(data: &[u8], at: &mut usize, n: usize, depth: usize) -> Result<MsgPack> {
        let mut values = vec![];
        for _ in 0..n {
            let key = read_msgpack(data, at, depth + 1)?;
            values.push((key, read_msgpack(data, at, depth + 1)?));
        }
        Ok(MsgPack::Map(values))
    }
    let tag = take(data, at, 1)?[0];
    match tag {
        0x00..=0x7f => Ok(MsgPack::Int(u64::from(tag))),
        0x80..=0x8f => map(data, at, (tag & 15) as usize, depth),
        0x90..=0x9f => array(data, at, (tag & 15) as usize, depth),
        0xa0..=0xbf => string(data, at, (tag & 31) as usize),
        0xc0 => Ok(MsgPack::Nil),
        0xca => Ok(MsgPack::Float(f64::from(f32::from_bits(
            uint(data, at, 4)? as u32,
        )))),
        0xcb => Ok(MsgPack::Float(f64::from_bits(uint(data, at, 8)?))),
        0xcc..=0xcf => Ok(MsgPack::Int(uint(data, at, 1 << (tag - 0xcc))?)),
        0xd9..=0xdb => {
            let n = uint(data, at, 1 << (tag - 0xd9))? as usize;
            string(data, at, n)
        }
        0xdc..=0xdd => {
            let n = uint(data, at, 2 << (tag - 0xdc))? as usize;
            array(data, at, n, depth)
        }
        0xde..=0xdf => {
            let n = uint(data, at, 2 << (tag - 0xde))? as usize;
            map(data, at, n, depth)
        }
        _ => bail!("unsupported parser file"),
    }
}

/// Values of a parser file written by gazetteer-entity-parser, by increasing rank
fn upstream_values(data: &[u8]) -> Result<Vec<StoredValue>> {
    fn items(v: &MsgPack) -> Result<&[MsgPack]> {
        match v {
            MsgPack::Array(items) => Ok(items),
            _ => bail!("invalid parser file"),
        }
    }
    fn entries(v: &MsgPack) -> Result<&[(MsgPack, MsgPack)]> {
        match v {
            MsgPack::Map(entries) => Ok(entries),
            _ => bail!("invalid parser file"),
        }
    }
    fn int(v: &MsgPack) -> Result<u64> {
        match v {
            MsgPack::Int(i) => Ok(*i),
            _ => bail!("invalid parser file"),
        }
    }
    fn text(v: &MsgPack) -> Result<String> {
        match v {
            MsgPack::Str(s) => Ok(s.clone()),
            _ => bail!("invalid parser file"),
        }
    }
    fn get(items: &[MsgPack], i: usize) -> Result<&MsgPack> {
        items.get(i).ok_or_else(|| format_err!("invalid parser file"))
    }
    let mut at = 0;
    let root = read_msgpack(data, &mut at, 0)?;
    let root = items(&root)?;
    let mut tokens = BTreeMap::new();
    for (token, id) in entries(get(items(get(root, 0)?)?, 0)?)? {
        tokens.insert(int(id)?, text(token)?);
    }
    let mut resolved = BTreeMap::new();
    for (id, value) in entries(get(items(get(root, 1)?)?, 0)?)? {
        resolved.insert(int(id)?, text(value)?);
    }
    let mut values = vec![];
    for (id, value) in entries(get(root, 3)?)? {
        let value = items(value)?;
        let rank = int(get(value, 0)?)?;
        let raw = items(get(value, 1)?)?
            .iter()
            .map(|t| {
                tokens
                    .get(&int(t)?)
                    .cloned()
                    .ok_or_else(|| format_err!("invalid parser file"))
            })
            .collect::<Result<Vec<_>>>()?
            .join(" ");
        let resolved = resolved
            .get(&int(id)?)
            .cloned()
            .ok_or_else(|| format_err!("invalid parser file"))?;
        values.push((
            rank,
            StoredValue {
                raw,
                resolved,
                injected: false,
            },
        ));
    }
    values.sort_by_key(|(rank, _)| *rank);
    Ok(values.into_iter().map(|(_, v)| v).collect())
}
