//! Stand-in for snips-nlu-parsers 0.4.3 (a git dependency which is not available offline):
//! gazetteer entity parsers loaded from / dumped to a directory, and a small grammar for the
//! builtin entities.
pub mod gazetteer_entity_parser;
mod grammar;

use failure::{format_err, ResultExt};
use serde::{Deserialize, Serialize};
use snips_nlu_ontology::{
    BuiltinEntity, BuiltinEntityKind, BuiltinGazetteerEntityKind, GrammarEntityKind,
    IntoBuiltinEntityKind, Language, SlotValue,
};
use std::fs::File;
use std::ops::Range;
use std::path::Path;
use std::str::FromStr;

type Result<T> = std::result::Result<T, failure::Error>;

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct BuiltinParserMetadata {
    pub language: String,
    pub gazetteer_parser: Option<String>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct GazetteerParserMetadata {
    pub parsers_metadata: Vec<GazetteerEntityMetadata>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct GazetteerEntityMetadata {
    pub entity_identifier: String,
    pub entity_parser: String,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct GazetteerEntityMatch<T> {
    pub value: String,
    pub resolved_value: String,
    pub alternative_resolved_values: Vec<String>,
    pub range: Range<usize>,
    pub entity_identifier: T,
}

pub trait EntityIdentifier: Clone + PartialEq {
    fn try_from_identifier(identifier: &str) -> Result<Self>;
}

impl EntityIdentifier for String {
    fn try_from_identifier(identifier: &str) -> Result<Self> {
        Ok(identifier.to_string())
    }
}

impl EntityIdentifier for BuiltinGazetteerEntityKind {
    fn try_from_identifier(identifier: &str) -> Result<Self> {
        Self::from_identifier(identifier)
    }
}

pub struct GazetteerParser<T: EntityIdentifier> {
    parsers: Vec<(T, gazetteer_entity_parser::Parser)>,
}

impl<T: EntityIdentifier> GazetteerParser<T> {
    pub fn from_path<P: AsRef<Path>>(path: P) -> Result<Self> {
        let metadata_path = path.as_ref().join("metadata.json");
        let file = File::open(&metadata_path)
            .with_context(|_| format!("Cannot open metadata file {:?}", metadata_path))?;
        let metadata: GazetteerParserMetadata = serde_json::from_reader(file)
            .with_context(|_| format!("Cannot deserialize metadata file {:?}", metadata_path))?;
        let parsers = metadata
            .parsers_metadata
            .iter()
            .map(|m| {
                let parser = gazetteer_entity_parser::Parser::from_folder(
                    path.as_ref().join(&m.entity_parser),
                )?;
                Ok((T::try_from_identifier(&m.entity_identifier)?, parser))
            })
            .collect::<Result<Vec<_>>>()?;
        Ok(GazetteerParser { parsers })
    }

    pub fn extract_entities(
        &self,
        sentence: &str,
        scope: Option<&[T]>,
        max_alternatives: usize,
    ) -> Result<Vec<GazetteerEntityMatch<T>>> {
        let mut matches = vec![];
        for (identifier, parser) in &self.parsers {
            if scope.map(|s| s.contains(identifier)).unwrap_or(true) {
                for m in parser.run(sentence, max_alternatives)? {
                    matches.push(GazetteerEntityMatch {
                        value: m.matched_value,
                        resolved_value: m.resolved_value,
                        alternative_resolved_values: m.alternatives,
                        range: m.range,
                        entity_identifier: identifier.clone(),
                    });
                }
            }
        }
        matches.sort_by_key(|m| m.range.start);
        Ok(matches)
    }
}

pub struct BuiltinEntityParser {
    language: Language,
    gazetteer_parser: Option<GazetteerParser<BuiltinGazetteerEntityKind>>,
}

impl BuiltinEntityParser {
    pub fn from_path<P: AsRef<Path>>(path: P) -> Result<Self> {
        let metadata_path = path.as_ref().join("metadata.json");
        let file = File::open(&metadata_path)
            .with_context(|_| format!("Cannot open metadata file {:?}", metadata_path))?;
        let metadata: BuiltinParserMetadata = serde_json::from_reader(file)
            .with_context(|_| format!("Cannot deserialize metadata file {:?}", metadata_path))?;
        let language = Language::from_str(&metadata.language)
            .map_err(|_| format_err!("Unknown language {}", metadata.language))?;
        let gazetteer_parser = match metadata.gazetteer_parser {
            Some(dir) => Some(GazetteerParser::from_path(path.as_ref().join(dir))?),
            None => None,
        };
        Ok(BuiltinEntityParser {
            language,
            gazetteer_parser,
        })
    }

    pub fn extract_entities(
        &self,
        sentence: &str,
        filter: Option<&[BuiltinEntityKind]>,
        max_alternative_resolved_values: usize,
    ) -> Result<Vec<BuiltinEntity>> {
        let in_scope = |kind: BuiltinEntityKind| filter.map(|f| f.contains(&kind)).unwrap_or(true);
        let mut entities = vec![];
        for kind in GrammarEntityKind::all() {
            let kind = kind.into_builtin_kind();
            if in_scope(kind) {
                for (range, value) in grammar::extract(sentence, kind, self.language) {
                    entities.push(BuiltinEntity {
                        value: sentence
                            .chars()
                            .skip(range.start)
                            .take(range.end - range.start)
                            .collect(),
                        range,
                        entity: value,
                        alternatives: vec![],
                        entity_kind: kind,
                    });
                }
            }
        }
        if let Some(gazetteer_parser) = self.gazetteer_parser.as_ref() {
            let scope: Vec<_> = BuiltinGazetteerEntityKind::all()
                .iter()
                .filter(|k| in_scope(k.into_builtin_kind()))
                .cloned()
                .collect();
            for m in gazetteer_parser.extract_entities(
                sentence,
                Some(&*scope),
                max_alternative_resolved_values,
            )? {
                let convert = |v: String| gazetteer_value(m.entity_identifier, v);
                entities.push(BuiltinEntity {
                    value: m.value.clone(),
                    range: m.range.clone(),
                    entity: convert(m.resolved_value.clone()),
                    alternatives: m
                        .alternative_resolved_values
                        .iter()
                        .cloned()
                        .map(convert)
                        .collect(),
                    entity_kind: m.entity_identifier.into_builtin_kind(),
                });
            }
        }
        entities.sort_by_key(|e| e.range.start);
        Ok(entities)
    }
}

fn gazetteer_value(kind: BuiltinGazetteerEntityKind, v: String) -> SlotValue {
    match kind {
        BuiltinGazetteerEntityKind::MusicAlbum => SlotValue::MusicAlbum(v.into()),
        BuiltinGazetteerEntityKind::MusicArtist => SlotValue::MusicArtist(v.into()),
        BuiltinGazetteerEntityKind::MusicTrack => SlotValue::MusicTrack(v.into()),
        BuiltinGazetteerEntityKind::City => SlotValue::City(v.into()),
        BuiltinGazetteerEntityKind::Country => SlotValue::Country(v.into()),
        BuiltinGazetteerEntityKind::Region => SlotValue::Region(v.into()),
    }
}
