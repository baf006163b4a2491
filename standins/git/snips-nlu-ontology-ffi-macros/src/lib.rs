//! Stand-in for snips-nlu-ontology-ffi-macros 0.67.1 (a git dependency which is not available
//! offline): the C representation of the results, laid out as in platforms/c/libsnips_nlu.h.
#![allow(non_camel_case_types)]
use libc::{c_char, c_void};
use snips_nlu_ontology::*;
use std::ffi::CString;
use std::ptr::null;

#[repr(C)]
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum SNIPS_GRAIN {
    SNIPS_GRAIN_YEAR = 0,
    SNIPS_GRAIN_QUARTER = 1,
    SNIPS_GRAIN_MONTH = 2,
    SNIPS_GRAIN_WEEK = 3,
    SNIPS_GRAIN_DAY = 4,
    SNIPS_GRAIN_HOUR = 5,
    SNIPS_GRAIN_MINUTE = 6,
    SNIPS_GRAIN_SECOND = 7,
}

#[repr(C)]
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum SNIPS_PRECISION {
    SNIPS_PRECISION_APPROXIMATE = 0,
    SNIPS_PRECISION_EXACT = 1,
}

#[repr(C)]
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum SNIPS_SLOT_VALUE_TYPE {
    SNIPS_SLOT_VALUE_TYPE_CUSTOM = 1,
    SNIPS_SLOT_VALUE_TYPE_NUMBER = 2,
    SNIPS_SLOT_VALUE_TYPE_ORDINAL = 3,
    SNIPS_SLOT_VALUE_TYPE_INSTANTTIME = 4,
    SNIPS_SLOT_VALUE_TYPE_TIMEINTERVAL = 5,
    SNIPS_SLOT_VALUE_TYPE_AMOUNTOFMONEY = 6,
    SNIPS_SLOT_VALUE_TYPE_TEMPERATURE = 7,
    SNIPS_SLOT_VALUE_TYPE_DURATION = 8,
    SNIPS_SLOT_VALUE_TYPE_PERCENTAGE = 9,
    SNIPS_SLOT_VALUE_TYPE_MUSICALBUM = 10,
    SNIPS_SLOT_VALUE_TYPE_MUSICARTIST = 11,
    SNIPS_SLOT_VALUE_TYPE_MUSICTRACK = 12,
    SNIPS_SLOT_VALUE_TYPE_CITY = 13,
    SNIPS_SLOT_VALUE_TYPE_COUNTRY = 14,
    SNIPS_SLOT_VALUE_TYPE_REGION = 15,
}

#[repr(C)]
#[derive(Debug)]
pub struct CIntentClassifierResult {
    pub intent_name: *const c_char,
    pub confidence_score: f32,
}

#[repr(C)]
#[derive(Debug)]
pub struct CIntentClassifierResultArray {
    pub intent_classifier_results: *const CIntentClassifierResult,
    pub size: i32,
}

#[repr(C)]
#[derive(Debug)]
pub struct CSlotValue {
    pub value: *const c_void,
    pub value_type: SNIPS_SLOT_VALUE_TYPE,
}

#[repr(C)]
#[derive(Debug)]
pub struct CSlotValueArray {
    pub slot_values: *const CSlotValue,
    pub size: i32,
}

#[repr(C)]
#[derive(Debug)]
pub struct CSlot {
    pub value: *const CSlotValue,
    pub alternatives: *const CSlotValueArray,
    pub raw_value: *const c_char,
    pub entity: *const c_char,
    pub slot_name: *const c_char,
    pub range_start: i32,
    pub range_end: i32,
    pub confidence_score: f32,
}

#[repr(C)]
#[derive(Debug)]
pub struct CSlotList {
    pub slots: *const CSlot,
    pub size: i32,
}

#[repr(C)]
#[derive(Debug)]
pub struct CIntentParserAlternative {
    pub intent: *const CIntentClassifierResult,
    pub slots: *const CSlotList,
}

#[repr(C)]
#[derive(Debug)]
pub struct CIntentParserAlternativeArray {
    pub intent_parser_alternatives: *const CIntentParserAlternative,
    pub size: i32,
}

#[repr(C)]
#[derive(Debug)]
pub struct CIntentParserResult {
    pub input: *const c_char,
    pub intent: *const CIntentClassifierResult,
    pub slots: *const CSlotList,
    pub alternatives: *const CIntentParserAlternativeArray,
}

#[repr(C)]
#[derive(Debug)]
pub struct CInstantTimeValue {
    pub value: *const c_char,
    pub grain: SNIPS_GRAIN,
    pub precision: SNIPS_PRECISION,
}

#[repr(C)]
#[derive(Debug)]
pub struct CTimeIntervalValue {
    pub from: *const c_char,
    pub to: *const c_char,
}

#[repr(C)]
#[derive(Debug)]
pub struct CAmountOfMoneyValue {
    pub unit: *const c_char,
    pub value: f32,
    pub precision: SNIPS_PRECISION,
}

#[repr(C)]
#[derive(Debug)]
pub struct CTemperatureValue {
    pub unit: *const c_char,
    pub value: f32,
}

#[repr(C)]
#[derive(Debug)]
pub struct CDurationValue {
    pub years: i64,
    pub quarters: i64,
    pub months: i64,
    pub weeks: i64,
    pub days: i64,
    pub hours: i64,
    pub minutes: i64,
    pub seconds: i64,
    pub precision: SNIPS_PRECISION,
}

fn c_string(s: String) -> *const c_char {
    // an interior nul cannot be represented
    CString::new(s.replace('\0', " ")).unwrap().into_raw() as *const c_char
}

fn c_opt_string(s: Option<String>) -> *const c_char {
    s.map(c_string).unwrap_or(null())
}

unsafe fn free_string(s: *const c_char) {
    if !s.is_null() {
        drop(CString::from_raw(s as *mut c_char));
    }
}

fn boxed<T>(t: T) -> *const T {
    Box::into_raw(Box::new(t)) as *const T
}

unsafe fn free<T>(t: *const T) {
    if !t.is_null() {
        drop(Box::from_raw(t as *mut T));
    }
}

fn c_array<T>(v: Vec<T>) -> (*const T, i32) {
    let size = v.len() as i32;
    (Box::into_raw(v.into_boxed_slice()) as *const T, size)
}

unsafe fn free_array<T>(data: *const T, size: i32) {
    drop(Box::from_raw(std::slice::from_raw_parts_mut(
        data as *mut T,
        size as usize,
    )));
}

fn c_precision(p: Precision) -> SNIPS_PRECISION {
    match p {
        Precision::Approximate => SNIPS_PRECISION::SNIPS_PRECISION_APPROXIMATE,
        Precision::Exact => SNIPS_PRECISION::SNIPS_PRECISION_EXACT,
    }
}

fn c_grain(g: Grain) -> SNIPS_GRAIN {
    match g {
        Grain::Year => SNIPS_GRAIN::SNIPS_GRAIN_YEAR,
        Grain::Quarter => SNIPS_GRAIN::SNIPS_GRAIN_QUARTER,
        Grain::Month => SNIPS_GRAIN::SNIPS_GRAIN_MONTH,
        Grain::Week => SNIPS_GRAIN::SNIPS_GRAIN_WEEK,
        Grain::Day => SNIPS_GRAIN::SNIPS_GRAIN_DAY,
        Grain::Hour => SNIPS_GRAIN::SNIPS_GRAIN_HOUR,
        Grain::Minute => SNIPS_GRAIN::SNIPS_GRAIN_MINUTE,
        Grain::Second => SNIPS_GRAIN::SNIPS_GRAIN_SECOND,
    }
}

impl From<SlotValue> for CSlotValue {
    fn from(v: SlotValue) -> Self {
        use SNIPS_SLOT_VALUE_TYPE::*;
        let text = |v: StringValue| c_string(v.value) as *const c_void;
        let (value, value_type) = match v {
            SlotValue::Custom(v) => (text(v), SNIPS_SLOT_VALUE_TYPE_CUSTOM),
            SlotValue::MusicAlbum(v) => (text(v), SNIPS_SLOT_VALUE_TYPE_MUSICALBUM),
            SlotValue::MusicArtist(v) => (text(v), SNIPS_SLOT_VALUE_TYPE_MUSICARTIST),
            SlotValue::MusicTrack(v) => (text(v), SNIPS_SLOT_VALUE_TYPE_MUSICTRACK),
            SlotValue::City(v) => (text(v), SNIPS_SLOT_VALUE_TYPE_CITY),
            SlotValue::Country(v) => (text(v), SNIPS_SLOT_VALUE_TYPE_COUNTRY),
            SlotValue::Region(v) => (text(v), SNIPS_SLOT_VALUE_TYPE_REGION),
            SlotValue::Number(v) => (boxed(v.value) as *const c_void, SNIPS_SLOT_VALUE_TYPE_NUMBER),
            SlotValue::Ordinal(v) => {
                (boxed(v.value) as *const c_void, SNIPS_SLOT_VALUE_TYPE_ORDINAL)
            }
            SlotValue::Percentage(v) => {
                (boxed(v.value) as *const c_void, SNIPS_SLOT_VALUE_TYPE_PERCENTAGE)
            }
            SlotValue::InstantTime(v) => (
                boxed(CInstantTimeValue {
                    value: c_string(v.value),
                    grain: c_grain(v.grain),
                    precision: c_precision(v.precision),
                }) as *const c_void,
                SNIPS_SLOT_VALUE_TYPE_INSTANTTIME,
            ),
            SlotValue::TimeInterval(v) => (
                boxed(CTimeIntervalValue {
                    from: c_opt_string(v.from),
                    to: c_opt_string(v.to),
                }) as *const c_void,
                SNIPS_SLOT_VALUE_TYPE_TIMEINTERVAL,
            ),
            SlotValue::AmountOfMoney(v) => (
                boxed(CAmountOfMoneyValue {
                    unit: c_opt_string(v.unit),
                    value: v.value,
                    precision: c_precision(v.precision),
                }) as *const c_void,
                SNIPS_SLOT_VALUE_TYPE_AMOUNTOFMONEY,
            ),
            SlotValue::Temperature(v) => (
                boxed(CTemperatureValue {
                    unit: c_opt_string(v.unit),
                    value: v.value,
                }) as *const c_void,
                SNIPS_SLOT_VALUE_TYPE_TEMPERATURE,
            ),
            SlotValue::Duration(v) => (
                boxed(CDurationValue {
                    years: v.years,
                    quarters: v.quarters,
                    months: v.months,
                    weeks: v.weeks,
                    days: v.days,
                    hours: v.hours,
                    minutes: v.minutes,
                    seconds: v.seconds,
                    precision: c_precision(v.precision),
                }) as *const c_void,
                SNIPS_SLOT_VALUE_TYPE_DURATION,
            ),
        };
        CSlotValue { value, value_type }
    }
}

impl Drop for CSlotValue {
    fn drop(&mut self) {
        use SNIPS_SLOT_VALUE_TYPE::*;
        unsafe {
            match self.value_type {
                SNIPS_SLOT_VALUE_TYPE_CUSTOM
                | SNIPS_SLOT_VALUE_TYPE_MUSICALBUM
                | SNIPS_SLOT_VALUE_TYPE_MUSICARTIST
                | SNIPS_SLOT_VALUE_TYPE_MUSICTRACK
                | SNIPS_SLOT_VALUE_TYPE_CITY
                | SNIPS_SLOT_VALUE_TYPE_COUNTRY
                | SNIPS_SLOT_VALUE_TYPE_REGION => free_string(self.value as *const c_char),
                SNIPS_SLOT_VALUE_TYPE_NUMBER | SNIPS_SLOT_VALUE_TYPE_PERCENTAGE => {
                    free(self.value as *const f64)
                }
                SNIPS_SLOT_VALUE_TYPE_ORDINAL => free(self.value as *const i64),
                SNIPS_SLOT_VALUE_TYPE_INSTANTTIME => free(self.value as *const CInstantTimeValue),
                SNIPS_SLOT_VALUE_TYPE_TIMEINTERVAL => free(self.value as *const CTimeIntervalValue),
                SNIPS_SLOT_VALUE_TYPE_AMOUNTOFMONEY => {
                    free(self.value as *const CAmountOfMoneyValue)
                }
                SNIPS_SLOT_VALUE_TYPE_TEMPERATURE => free(self.value as *const CTemperatureValue),
                SNIPS_SLOT_VALUE_TYPE_DURATION => free(self.value as *const CDurationValue),
            }
        }
    }
}

impl Drop for CInstantTimeValue {
    fn drop(&mut self) {
        unsafe { free_string(self.value) }
    }
}

impl Drop for CTimeIntervalValue {
    fn drop(&mut self) {
        unsafe {
            free_string(self.from);
            free_string(self.to);
        }
    }
}

impl Drop for CAmountOfMoneyValue {
    fn drop(&mut self) {
        unsafe { free_string(self.unit) }
    }
}

impl Drop for CTemperatureValue {
    fn drop(&mut self) {
        unsafe { free_string(self.unit) }
    }
}

impl From<Vec<SlotValue>> for CSlotValueArray {
    fn from(v: Vec<SlotValue>) -> Self {
        let (slot_values, size) = c_array(v.into_iter().map(CSlotValue::from).collect());
        CSlotValueArray { slot_values, size }
    }
}

impl Drop for CSlotValueArray {
    fn drop(&mut self) {
        unsafe { free_array(self.slot_values, self.size) }
    }
}

impl From<Slot> for CSlot {
    fn from(slot: Slot) -> Self {
        CSlot {
            value: boxed(CSlotValue::from(slot.value)),
            alternatives: boxed(CSlotValueArray::from(slot.alternatives)),
            raw_value: c_string(slot.raw_value),
            entity: c_string(slot.entity),
            slot_name: c_string(slot.slot_name),
            range_start: slot.range.start as i32,
            range_end: slot.range.end as i32,
            confidence_score: slot.confidence_score.unwrap_or(-1.0),
        }
    }
}

impl Drop for CSlot {
    fn drop(&mut self) {
        unsafe {
            free(self.value);
            free(self.alternatives);
            free_string(self.raw_value);
            free_string(self.entity);
            free_string(self.slot_name);
        }
    }
}

impl From<Vec<Slot>> for CSlotList {
    fn from(slots: Vec<Slot>) -> Self {
        let (slots, size) = c_array(slots.into_iter().map(CSlot::from).collect());
        CSlotList { slots, size }
    }
}

impl Drop for CSlotList {
    fn drop(&mut self) {
        unsafe { free_array(self.slots, self.size) }
    }
}

impl From<IntentClassifierResult> for CIntentClassifierResult {
    fn from(r: IntentClassifierResult) -> Self {
        CIntentClassifierResult {
            intent_name: c_opt_string(r.intent_name),
            confidence_score: r.confidence_score,
        }
    }
}

impl Drop for CIntentClassifierResult {
    fn drop(&mut self) {
        unsafe { free_string(self.intent_name) }
    }
}

impl From<Vec<IntentClassifierResult>> for CIntentClassifierResultArray {
    fn from(results: Vec<IntentClassifierResult>) -> Self {
        let (intent_classifier_results, size) =
            c_array(results.into_iter().map(CIntentClassifierResult::from).collect());
        CIntentClassifierResultArray {
            intent_classifier_results,
            size,
        }
    }
}

impl Drop for CIntentClassifierResultArray {
    fn drop(&mut self) {
        unsafe { free_array(self.intent_classifier_results, self.size) }
    }
}

impl From<IntentParserAlternative> for CIntentParserAlternative {
    fn from(a: IntentParserAlternative) -> Self {
        CIntentParserAlternative {
            intent: boxed(CIntentClassifierResult::from(a.intent)),
            slots: boxed(CSlotList::from(a.slots)),
        }
    }
}

impl Drop for CIntentParserAlternative {
    fn drop(&mut self) {
        unsafe {
            free(self.intent);
            free(self.slots);
        }
    }
}

impl From<Vec<IntentParserAlternative>> for CIntentParserAlternativeArray {
    fn from(alternatives: Vec<IntentParserAlternative>) -> Self {
        let (intent_parser_alternatives, size) = c_array(
            alternatives
                .into_iter()
                .map(CIntentParserAlternative::from)
                .collect(),
        );
        CIntentParserAlternativeArray {
            intent_parser_alternatives,
            size,
        }
    }
}

impl Drop for CIntentParserAlternativeArray {
    fn drop(&mut self) {
        unsafe { free_array(self.intent_parser_alternatives, self.size) }
    }
}

impl From<IntentParserResult> for CIntentParserResult {
    fn from(r: IntentParserResult) -> Self {
        CIntentParserResult {
            input: c_string(r.input),
            intent: boxed(CIntentClassifierResult::from(r.intent)),
            slots: boxed(CSlotList::from(r.slots)),
            alternatives: boxed(CIntentParserAlternativeArray::from(r.alternatives)),
        }
    }
}

impl Drop for CIntentParserResult {
    fn drop(&mut self) {
        unsafe {
            free_string(self.input);
            free(self.intent);
            free(self.slots);
            free(self.alternatives);
        }
    }
}
