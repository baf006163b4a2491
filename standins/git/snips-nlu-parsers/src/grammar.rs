//! A small grammar: each kind is extracted independently of the others. All the patterns are
//! ASCII and case insensitive. No wall clock is involved: instants are relative to 2019-01-01.
use lazy_static::lazy_static;
use regex::Regex;
use snips_nlu_ontology::*;
use std::ops::Range;

const NUM: &str = r"(?:\d{1,9}(?:\.\d{1,4})?|(?:twenty|thirty|forty|fifty|sixty|seventy|eighty|ninety)(?: (?:one|two|three|four|five|six|seven|eight|nine))?|zero|one|two|three|four|five|six|seven|eight|nine|ten|eleven|twelve|thirteen|fourteen|fifteen|sixteen|seventeen|eighteen|nineteen|hundred|deux|trois|cinq|sept|huit|neuf|dix)";

fn re(pattern: &str) -> Regex {
    Regex::new(&format!(r"(?i-u)\b(?:{})", pattern.replace("NUM", NUM))).unwrap()
}

lazy_static! {
    static ref NUMBER: Regex = re(r"(NUM)\b");
    static ref ORDINAL: Regex = re(
        r"(first|second|third|fourth|fifth|sixth|seventh|eighth|ninth|tenth|\d{1,4}(?:st|nd|rd|th))\b"
    );
    static ref PERCENTAGE: Regex = re(r"(NUM) ?(?:%|percent\b)");
    static ref TEMPERATURE: Regex =
        re(r"(NUM) (?:degrees|degree)(?: (celsius|fahrenheit|kelvin))?\b");
    static ref MONEY: Regex = re(r"(NUM) ?(\$|dollars?\b|euros?\b|cents?\b)");
    static ref DURATION: Regex = re(r"(NUM) (year|quarter|month|week|day|hour|minute|second)s?\b");
    static ref DATE: Regex = re(
        r"(today|tomorrow|yesterday|monday|tuesday|wednesday|thursday|friday|saturday|sunday)\b"
    );
    static ref TIME: Regex = re(r"(noon|midnight|(?:at )?\d{1,2} ?(?:am|pm))\b");
    static ref DATE_PERIOD: Regex = re(r"((?:this|next) (?:week|weekend|month|year))\b");
    static ref TIME_PERIOD: Regex = re(r"((?:this|tomorrow) (?:morning|afternoon|evening))\b");
    static ref DATETIME: Regex = re(
        r"((?:today|tomorrow|yesterday|monday|tuesday|wednesday|thursday|friday|saturday|sunday)(?: at (?:noon|midnight|\d{1,2} ?(?:am|pm)))?|now|noon|midnight|(?:this|next) (?:week|weekend|month|year)|(?:this|tomorrow) (?:morning|afternoon|evening)|in NUM (?:hours?|minutes?|days?))\b"
    );
}

fn number(text: &str) -> f64 {
    if let Ok(v) = text.parse::<f64>() {
        return v;
    }
    text.to_ascii_lowercase()
        .split(' ')
        .map(|w| match w {
            "one" => 1., "two" | "deux" => 2., "three" | "trois" => 3., "four" => 4.,
            "five" | "cinq" => 5., "six" => 6., "seven" | "sept" => 7., "eight" | "huit" => 8.,
            "nine" | "neuf" => 9., "ten" | "dix" => 10., "eleven" => 11., "twelve" => 12.,
            "thirteen" => 13., "fourteen" => 14., "fifteen" => 15., "sixteen" => 16.,
            "seventeen" => 17., "eighteen" => 18., "nineteen" => 19., "twenty" => 20.,
            "thirty" => 30., "forty" => 40., "fifty" => 50., "sixty" => 60., "seventy" => 70.,
            "eighty" => 80., "ninety" => 90., "hundred" => 100.,
            _ => 0.,
        })
        .sum()
}

fn ordinal(text: &str) -> i64 {
    let digits: String = text.chars().take_while(|c| c.is_ascii_digit()).collect();
    if let Ok(v) = digits.parse() {
        return v;
    }
    [
        "first", "second", "third", "fourth", "fifth", "sixth", "seventh", "eighth", "ninth",
        "tenth",
    ]
    .iter()
    .position(|o| *o == text.to_ascii_lowercase())
    .map(|i| i as i64 + 1)
    .unwrap_or(0)
}

fn instant(text: &str, grain: Grain) -> SlotValue {
    // a deterministic instant per expression
    let code = text.to_ascii_lowercase().bytes().fold(0u32, |h, b| (h * 31 + u32::from(b)) % 28);
    SlotValue::InstantTime(InstantTimeValue {
        value: format!("2019-01-{:02} 00:00:00 +00:00", code + 1),
        // the days of the week give all the grains, and both precisions
        grain: match &*text.to_ascii_lowercase() {
            "now" => Grain::Second,
            "wednesday" => Grain::Year,
            "thursday" => Grain::Quarter,
            "friday" => Grain::Month,
            "saturday" => Grain::Week,
            _ => grain,
        },
        precision: match &*text.to_ascii_lowercase() {
            "friday" | "now" => Precision::Approximate,
            _ => Precision::Exact,
        },
    })
}

fn interval(text: &str) -> SlotValue {
    let code = text.to_ascii_lowercase().bytes().fold(0u32, |h, b| (h * 31 + u32::from(b)) % 27);
    SlotValue::TimeInterval(TimeIntervalValue {
        from: Some(format!("2019-01-{:02} 00:00:00 +00:00", code + 1)),
        to: Some(format!("2019-01-{:02} 00:00:00 +00:00", code + 2)),
    })
}

pub fn extract(
    sentence: &str,
    kind: BuiltinEntityKind,
    _language: Language,
) -> Vec<(Range<usize>, SlotValue)> {
    let regex: &Regex = match kind {
        BuiltinEntityKind::Number => &NUMBER,
        BuiltinEntityKind::Ordinal => &ORDINAL,
        BuiltinEntityKind::Percentage => &PERCENTAGE,
        BuiltinEntityKind::Temperature => &TEMPERATURE,
        BuiltinEntityKind::AmountOfMoney => &MONEY,
        BuiltinEntityKind::Duration => &DURATION,
        BuiltinEntityKind::Date => &DATE,
        BuiltinEntityKind::Time => &TIME,
        BuiltinEntityKind::DatePeriod => &DATE_PERIOD,
        BuiltinEntityKind::TimePeriod => &TIME_PERIOD,
        BuiltinEntityKind::Datetime => &DATETIME,
        _ => return vec![],
    };
    let mut last = (0, 0);
    regex
        .captures_iter(sentence)
        .map(|c| {
            let m = c.get(0).unwrap();
            let start = last.1 + sentence[last.0..m.start()].chars().count();
            let end = start + m.as_str().chars().count();
            last = (m.end(), end);
            let arg = |i: usize| c.get(i).map(|m| m.as_str()).unwrap_or("");
            let value = match kind {
                BuiltinEntityKind::Number => {
                    SlotValue::Number(NumberValue { value: number(arg(1)) })
                }
                BuiltinEntityKind::Ordinal => {
                    SlotValue::Ordinal(OrdinalValue { value: ordinal(arg(1)) })
                }
                BuiltinEntityKind::Percentage => {
                    SlotValue::Percentage(PercentageValue { value: number(arg(1)) })
                }
                BuiltinEntityKind::Temperature => SlotValue::Temperature(TemperatureValue {
                    value: number(arg(1)) as f32,
                    unit: c.get(2).map(|m| m.as_str().to_ascii_lowercase()),
                }),
                BuiltinEntityKind::AmountOfMoney => SlotValue::AmountOfMoney(AmountOfMoneyValue {
                    value: number(arg(1)) as f32,
                    precision: if arg(1) == "3" { Precision::Approximate } else { Precision::Exact },
                    unit: Some(
                        match &*arg(2).to_ascii_lowercase() {
                            "euro" | "euros" => "EUR",
                            "cent" | "cents" => "cent",
                            _ => "$",
                        }
                        .to_string(),
                    ),
                }),
                BuiltinEntityKind::Duration => {
                    let n = number(arg(1)) as i64;
                    let unit = arg(2).to_ascii_lowercase();
                    let get = |u: &str| if unit == u { n } else { 0 };
                    SlotValue::Duration(DurationValue {
                        years: get("year"),
                        quarters: get("quarter"),
                        months: get("month"),
                        weeks: get("week"),
                        days: get("day"),
                        hours: get("hour"),
                        minutes: get("minute"),
                        seconds: get("second"),
                        precision: if n == 2 { Precision::Approximate } else { Precision::Exact },
                    })
                }
                BuiltinEntityKind::DatePeriod | BuiltinEntityKind::TimePeriod => {
                    interval(m.as_str())
                }
                BuiltinEntityKind::Date => instant(m.as_str(), Grain::Day),
                BuiltinEntityKind::Time => instant(m.as_str(), Grain::Hour),
                _ => {
                    let text = m.as_str().to_ascii_lowercase();
                    if text.starts_with("this") || text.starts_with("next") {
                        interval(m.as_str())
                    } else {
                        instant(m.as_str(), Grain::Minute)
                    }
                }
            };
            (start..end, value)
        })
        .collect()
}
