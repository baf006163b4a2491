use std::fmt;
use std::str::FromStr;

#[allow(non_camel_case_types)]
#[derive(Debug, Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Language {
    DE,
    EN,
    ES,
    FR,
    IT,
    JA,
    KO,
    PT_PT,
    PT_BR,
}

impl Language {
    pub fn all() -> &'static [Language] {
        use Language::*;
        &[DE, EN, ES, FR, IT, JA, KO, PT_PT, PT_BR]
    }

    fn code(self) -> &'static str {
        match self {
            Language::DE => "de",
            Language::EN => "en",
            Language::ES => "es",
            Language::FR => "fr",
            Language::IT => "it",
            Language::JA => "ja",
            Language::KO => "ko",
            Language::PT_PT => "pt_pt",
            Language::PT_BR => "pt_br",
        }
    }
}

impl fmt::Display for Language {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(self.code())
    }
}

impl FromStr for Language {
    type Err = failure::Error;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        let lower = s.to_lowercase();
        Language::all()
            .iter()
            .find(|l| l.code() == lower)
            .cloned()
            .ok_or_else(|| failure::format_err!("Unknown language {}", s))
    }
}
