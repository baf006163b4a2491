//! Stand-in for snips-nlu-ontology 0.67.1 (a git dependency which is not available offline): the
//! result types of the NLU engine, the builtin entity kinds and the supported languages.
use serde::{Deserialize, Serialize};
use std::fmt;
use std::ops::Range;
use std::str::FromStr;

pub type OntologyResult<T> = std::result::Result<T, failure::Error>;

macro_rules! enum_kind {
    ($kind:ident, [$(($variant:ident, $id:expr)),* $(,)?]) => {
        #[derive(Debug, Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
        pub enum $kind { $( $variant ),* }

        impl $kind {
            pub fn all() -> &'static [$kind] {
                static ALL: &[$kind] = &[$( $kind::$variant ),*];
                ALL
            }

            pub fn identifier(&self) -> &'static str {
                match self { $( $kind::$variant => $id ),* }
            }

            pub fn from_identifier(identifier: &str) -> OntologyResult<Self> {
                Self::all()
                    .iter()
                    .find(|k| k.identifier() == identifier)
                    .cloned()
                    .ok_or_else(|| failure::format_err!("Unknown {} identifier: {}", stringify!($kind), identifier))
            }

            pub fn description(&self) -> &'static str { self.identifier() }
        }

        impl FromStr for $kind {
            type Err = failure::Error;
            fn from_str(s: &str) -> OntologyResult<Self> {
                match s {
                    $( stringify!($variant) => Ok($kind::$variant), )*
                    _ => Self::from_identifier(s),
                }
            }
        }

        impl fmt::Display for $kind {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str(match self { $( $kind::$variant => stringify!($variant) ),* })
            }
        }
    }
}

enum_kind!(
    BuiltinEntityKind,
    [
        (AmountOfMoney, "snips/amountOfMoney"),
        (Duration, "snips/duration"),
        (Number, "snips/number"),
        (Ordinal, "snips/ordinal"),
        (Temperature, "snips/temperature"),
        (Datetime, "snips/datetime"),
        (Date, "snips/date"),
        (Time, "snips/time"),
        (DatePeriod, "snips/datePeriod"),
        (TimePeriod, "snips/timePeriod"),
        (Percentage, "snips/percentage"),
        (MusicAlbum, "snips/musicAlbum"),
        (MusicArtist, "snips/musicArtist"),
        (MusicTrack, "snips/musicTrack"),
        (City, "snips/city"),
        (Country, "snips/country"),
        (Region, "snips/region"),
    ]
);

enum_kind!(
    GrammarEntityKind,
    [
        (AmountOfMoney, "snips/amountOfMoney"),
        (Duration, "snips/duration"),
        (Number, "snips/number"),
        (Ordinal, "snips/ordinal"),
        (Temperature, "snips/temperature"),
        (Datetime, "snips/datetime"),
        (Date, "snips/date"),
        (Time, "snips/time"),
        (DatePeriod, "snips/datePeriod"),
        (TimePeriod, "snips/timePeriod"),
        (Percentage, "snips/percentage"),
    ]
);

enum_kind!(
    BuiltinGazetteerEntityKind,
    [
        (MusicAlbum, "snips/musicAlbum"),
        (MusicArtist, "snips/musicArtist"),
        (MusicTrack, "snips/musicTrack"),
        (City, "snips/city"),
        (Country, "snips/country"),
        (Region, "snips/region"),
    ]
);

pub trait IntoBuiltinEntityKind: Copy {
    fn into_builtin_kind(self) -> BuiltinEntityKind;
}

impl IntoBuiltinEntityKind for BuiltinEntityKind {
    fn into_builtin_kind(self) -> BuiltinEntityKind {
        self
    }
}
impl IntoBuiltinEntityKind for GrammarEntityKind {
    fn into_builtin_kind(self) -> BuiltinEntityKind {
        BuiltinEntityKind::from_identifier(self.identifier()).unwrap()
    }
}
impl IntoBuiltinEntityKind for BuiltinGazetteerEntityKind {
    fn into_builtin_kind(self) -> BuiltinEntityKind {
        BuiltinEntityKind::from_identifier(self.identifier()).unwrap()
    }
}

#[allow(non_camel_case_types)]
#[derive(Debug, Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Language {
    DE,
    EN,
    ES,
    FR,
    IT,
    JA,
    KO,
    PT_PT,
    PT_BR,
}

impl Language {
    pub fn all() -> &'static [Language] {
        use Language::*;
        &[DE, EN, ES, FR, IT, JA, KO, PT_PT, PT_BR]
    }

    fn code(self) -> &'static str {
        match self {
            Language::DE => "de",
            Language::EN => "en",
            Language::ES => "es",
            Language::FR => "fr",
            Language::IT => "it",
            Language::JA => "ja",
            Language::KO => "ko",
            Language::PT_PT => "pt_pt",
            Language::PT_BR => "pt_br",
        }
    }
}

impl fmt::Display for Language {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(self.code())
    }
}

impl FromStr for Language {
    type Err = failure::Error;
    fn from_str(s: &str) -> OntologyResult<Self> {
        let lower = s.to_lowercase();
        Language::all()
            .iter()
            .find(|l| l.code() == lower)
            .cloned()
            .ok_or_else(|| failure::format_err!("Unknown language {}", s))
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct IntentClassifierResult {
    pub intent_name: Option<String>,
    pub confidence_score: f32,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct IntentParserAlternative {
    pub intent: IntentClassifierResult,
    pub slots: Vec<Slot>,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct IntentParserResult {
    pub input: String,
    pub intent: IntentClassifierResult,
    pub slots: Vec<Slot>,
    pub alternatives: Vec<IntentParserAlternative>,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct Slot {
    pub raw_value: String,
    pub value: SlotValue,
    pub alternatives: Vec<SlotValue>,
    pub range: Range<usize>,
    pub entity: String,
    pub slot_name: String,
    #[serde(skip_serializing_if = "Option::is_none")]
    #[serde(default)]
    pub confidence_score: Option<f32>,
}

impl Slot {
    pub fn with_confidence_score(mut self, confidence_score: f32) -> Self {
        self.confidence_score = Some(confidence_score);
        self
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct BuiltinEntity {
    pub value: String,
    pub range: Range<usize>,
    pub entity: SlotValue,
    pub alternatives: Vec<SlotValue>,
    pub entity_kind: BuiltinEntityKind,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(tag = "kind")]
pub enum SlotValue {
    Custom(StringValue),
    Number(NumberValue),
    Ordinal(OrdinalValue),
    Percentage(PercentageValue),
    InstantTime(InstantTimeValue),
    TimeInterval(TimeIntervalValue),
    AmountOfMoney(AmountOfMoneyValue),
    Temperature(TemperatureValue),
    Duration(DurationValue),
    MusicAlbum(StringValue),
    MusicArtist(StringValue),
    MusicTrack(StringValue),
    City(StringValue),
    Country(StringValue),
    Region(StringValue),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct StringValue {
    pub value: String,
}

impl From<String> for StringValue {
    fn from(value: String) -> Self {
        StringValue { value }
    }
}

impl<'a> From<&'a str> for StringValue {
    fn from(value: &'a str) -> Self {
        StringValue { value: value.to_string() }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct NumberValue {
    pub value: f64,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct OrdinalValue {
    pub value: i64,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct PercentageValue {
    pub value: f64,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct InstantTimeValue {
    pub value: String,
    pub grain: Grain,
    pub precision: Precision,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct TimeIntervalValue {
    pub from: Option<String>,
    pub to: Option<String>,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct AmountOfMoneyValue {
    pub value: f32,
    pub precision: Precision,
    pub unit: Option<String>,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct TemperatureValue {
    pub value: f32,
    pub unit: Option<String>,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct DurationValue {
    pub years: i64,
    pub quarters: i64,
    pub months: i64,
    pub weeks: i64,
    pub days: i64,
    pub hours: i64,
    pub minutes: i64,
    pub seconds: i64,
    pub precision: Precision,
}

#[derive(Debug, Copy, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Grain {
    Year,
    Quarter,
    Month,
    Week,
    Day,
    Hour,
    Minute,
    Second,
}

#[derive(Debug, Copy, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Precision {
    Approximate,
    Exact,
}
