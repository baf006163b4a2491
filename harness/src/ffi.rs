//! C27 (results of the C API), C28 (errors of the C API)
use crate::common::*;
use crate::core::*;
use crate::engine::*;
use crate::files::zip_of;
use crate::serve::ask_as;
use crate::spec::*;
use ffi_utils::{CStringArray, SNIPS_RESULT};
use libc::c_char;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use snips_nlu_ffi::*;
use snips_nlu_lib::SnipsNluEngine;
use snips_nlu_ontology::*;
use snips_nlu_ontology_ffi_macros::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::ffi::{CStr, CString};
use std::path::{Path, PathBuf};
use std::ptr::null;

// ---- memory held by a thread

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
}

/// Counts the bytes each thread holds
pub struct Counting;

fn count(n: i64) {
    let _ = LIVE.try_with(|l| l.set(l.get() + n));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}

// ---- reading the structures

unsafe fn text(p: *const c_char) -> std::result::Result<String, String> {
    opt_text(p)?.ok_or_else(|| "null string".to_string())
}

unsafe fn opt_text(p: *const c_char) -> std::result::Result<Option<String>, String> {
    if p.is_null() {
        return Ok(None);
    }
    CStr::from_ptr(p).to_str().map(|s| Some(s.to_string())).map_err(|e| e.to_string())
}

unsafe fn list<'a, T>(data: *const T, size: i32) -> std::result::Result<&'a [T], String> {
    ensure!(size >= 0 && (size == 0 || !data.is_null()), "a list of {} elements at {:?}", size, data);
    Ok(if size == 0 { &[] } else { std::slice::from_raw_parts(data, size as usize) })
}

unsafe fn at<'a, T>(p: *const T) -> std::result::Result<&'a T, String> {
    p.as_ref().ok_or_else(|| "null structure".to_string())
}

fn grain(g: SNIPS_GRAIN) -> Grain {
    use SNIPS_GRAIN::*;
    match g {
        SNIPS_GRAIN_YEAR => Grain::Year,
        SNIPS_GRAIN_QUARTER => Grain::Quarter,
        SNIPS_GRAIN_MONTH => Grain::Month,
        SNIPS_GRAIN_WEEK => Grain::Week,
        SNIPS_GRAIN_DAY => Grain::Day,
        SNIPS_GRAIN_HOUR => Grain::Hour,
        SNIPS_GRAIN_MINUTE => Grain::Minute,
        SNIPS_GRAIN_SECOND => Grain::Second,
    }
}

fn precision(p: SNIPS_PRECISION) -> Precision {
    match p {
        SNIPS_PRECISION::SNIPS_PRECISION_APPROXIMATE => Precision::Approximate,
        SNIPS_PRECISION::SNIPS_PRECISION_EXACT => Precision::Exact,
    }
}

unsafe fn value(v: &CSlotValue) -> std::result::Result<SlotValue, String> {
    use SNIPS_SLOT_VALUE_TYPE::*;
    let string = || -> std::result::Result<StringValue, String> { Ok(text(v.value as *const c_char)?.into()) };
    Ok(match v.value_type {
        SNIPS_SLOT_VALUE_TYPE_CUSTOM => SlotValue::Custom(string()?),
        SNIPS_SLOT_VALUE_TYPE_MUSICALBUM => SlotValue::MusicAlbum(string()?),
        SNIPS_SLOT_VALUE_TYPE_MUSICARTIST => SlotValue::MusicArtist(string()?),
        SNIPS_SLOT_VALUE_TYPE_MUSICTRACK => SlotValue::MusicTrack(string()?),
        SNIPS_SLOT_VALUE_TYPE_CITY => SlotValue::City(string()?),
        SNIPS_SLOT_VALUE_TYPE_COUNTRY => SlotValue::Country(string()?),
        SNIPS_SLOT_VALUE_TYPE_REGION => SlotValue::Region(string()?),
        SNIPS_SLOT_VALUE_TYPE_NUMBER => SlotValue::Number(NumberValue { value: *at(v.value as *const f64)? }),
        SNIPS_SLOT_VALUE_TYPE_ORDINAL => SlotValue::Ordinal(OrdinalValue { value: *at(v.value as *const i64)? }),
        SNIPS_SLOT_VALUE_TYPE_PERCENTAGE => {
            SlotValue::Percentage(PercentageValue { value: *at(v.value as *const f64)? })
        }
        SNIPS_SLOT_VALUE_TYPE_INSTANTTIME => {
            let t = at(v.value as *const CInstantTimeValue)?;
            SlotValue::InstantTime(InstantTimeValue {
                value: text(t.value)?,
                grain: grain(t.grain),
                precision: precision(t.precision),
            })
        }
        SNIPS_SLOT_VALUE_TYPE_TIMEINTERVAL => {
            let t = at(v.value as *const CTimeIntervalValue)?;
            SlotValue::TimeInterval(TimeIntervalValue { from: opt_text(t.from)?, to: opt_text(t.to)? })
        }
        SNIPS_SLOT_VALUE_TYPE_AMOUNTOFMONEY => {
            let t = at(v.value as *const CAmountOfMoneyValue)?;
            SlotValue::AmountOfMoney(AmountOfMoneyValue {
                value: t.value,
                precision: precision(t.precision),
                unit: opt_text(t.unit)?,
            })
        }
        SNIPS_SLOT_VALUE_TYPE_TEMPERATURE => {
            let t = at(v.value as *const CTemperatureValue)?;
            SlotValue::Temperature(TemperatureValue { value: t.value, unit: opt_text(t.unit)? })
        }
        SNIPS_SLOT_VALUE_TYPE_DURATION => {
            let t = at(v.value as *const CDurationValue)?;
            SlotValue::Duration(DurationValue {
                years: t.years,
                quarters: t.quarters,
                months: t.months,
                weeks: t.weeks,
                days: t.days,
                hours: t.hours,
                minutes: t.minutes,
                seconds: t.seconds,
                precision: precision(t.precision),
            })
        }
    })
}

unsafe fn slots(l: *const CSlotList) -> std::result::Result<Vec<Slot>, String> {
    let l = at(l)?;
    list(l.slots, l.size)?
        .iter()
        .map(|s| {
            let alternatives = at(s.alternatives)?;
            Ok(Slot {
                raw_value: text(s.raw_value)?,
                value: value(at(s.value)?)?,
                alternatives: list(alternatives.slot_values, alternatives.size)?
                    .iter()
                    .map(|v| value(v))
                    .collect::<std::result::Result<_, String>>()?,
                range: s.range_start as usize..s.range_end as usize,
                entity: text(s.entity)?,
                slot_name: text(s.slot_name)?,
                confidence_score: if s.confidence_score < 0. { None } else { Some(s.confidence_score) },
            })
        })
        .collect()
}

unsafe fn intent(r: &CIntentClassifierResult) -> std::result::Result<IntentClassifierResult, String> {
    Ok(IntentClassifierResult { intent_name: opt_text(r.intent_name)?, confidence_score: r.confidence_score })
}

unsafe fn parsed(r: *const CIntentParserResult) -> std::result::Result<IntentParserResult, String> {
    let r = at(r)?;
    let a = at(r.alternatives)?;
    Ok(IntentParserResult {
        input: text(r.input)?,
        intent: intent(at(r.intent)?)?,
        slots: slots(r.slots)?,
        alternatives: list(a.intent_parser_alternatives, a.size)?
            .iter()
            .map(|a| Ok(IntentParserAlternative { intent: intent(at(a.intent)?)?, slots: slots(a.slots)? }))
            .collect::<std::result::Result<_, String>>()?,
    })
}

/// No string of a structure can hold a nul
fn without_nul(a: Answer) -> Answer {
    let s = |s: String| s.replace('\0', " ");
    let value = |v: SlotValue| -> SlotValue {
        let j = serde_json::to_string(&v).unwrap().replace("\\u0000", " ");
        serde_json::from_str(&j).unwrap()
    };
    let slots = |l: Vec<Slot>| -> Vec<Slot> {
        l.into_iter()
            .map(|x| Slot {
                raw_value: s(x.raw_value),
                value: value(x.value),
                alternatives: x.alternatives.into_iter().map(value).collect(),
                entity: s(x.entity),
                slot_name: s(x.slot_name),
                ..x
            })
            .collect()
    };
    let intent = |i: IntentClassifierResult| IntentClassifierResult { intent_name: i.intent_name.map(s), ..i };
    match a {
        Answer::Parse(p) => Answer::Parse(IntentParserResult {
            input: s(p.input),
            intent: intent(p.intent),
            slots: slots(p.slots),
            alternatives: p
                .alternatives
                .into_iter()
                .map(|a| IntentParserAlternative { intent: intent(a.intent), slots: slots(a.slots) })
                .collect(),
        }),
        Answer::Intents(l) => Answer::Intents(l.into_iter().map(intent).collect()),
        Answer::Slots(l) => Answer::Slots(slots(l)),
        other => other,
    }
}

// ---- calling

fn c(s: &str) -> CString {
    CString::new(s).unwrap()
}

struct Strings {
    _owned: Vec<CString>,
    pointers: Vec<*const c_char>,
    array: CStringArray,
}

impl Strings {
    fn of(l: Vec<CString>) -> Box<Strings> {
        let pointers: Vec<*const c_char> = l.iter().map(|s| s.as_ptr()).collect();
        let array = CStringArray { data: null(), size: pointers.len() as i32 };
        let mut s = Box::new(Strings { _owned: l, pointers, array });
        if !s.pointers.is_empty() {
            s.array.data = s.pointers.as_ptr();
        }
        s
    }
    fn new(l: &[String]) -> Box<Strings> {
        Strings::of(l.iter().map(|s| c(s)).collect())
    }
}

fn pointer(f: &Option<Box<Strings>>) -> *const CStringArray {
    f.as_ref().map(|s| &s.array as *const CStringArray).unwrap_or(null())
}

pub fn last_error() -> std::result::Result<String, String> {
    let mut p: *const c_char = null();
    let r = snips_nlu_engine_get_last_error(&mut p);
    ensure!(r == SNIPS_RESULT::SNIPS_RESULT_OK, "the message of the last error cannot be read");
    let m = unsafe { text(p)? };
    destroyed(snips_nlu_engine_destroy_string(p as *mut c_char))?;
    ensure!(!m.trim().is_empty(), "the message of the last error is empty");
    Ok(m)
}

fn destroyed(r: SNIPS_RESULT) -> Check {
    ensure!(r == SNIPS_RESULT::SNIPS_RESULT_OK, "destroying a value fails: {:?}", last_error());
    Ok(())
}

/// Engine of the C API
pub struct Client(*const CSnipsNluEngine);

impl Client {
    pub fn dir(dir: &Path) -> std::result::Result<Client, String> {
        Client::path(&c(dir.to_str().unwrap()))
    }
    fn path(dir: &CStr) -> std::result::Result<Client, String> {
        let mut p: *const CSnipsNluEngine = null();
        match snips_nlu_engine_create_from_dir(dir.as_ptr(), &mut p) {
            SNIPS_RESULT::SNIPS_RESULT_OK => Client::checked(p),
            SNIPS_RESULT::SNIPS_RESULT_KO => Err(last_error()?),
        }
    }
    pub fn zip(data: &[u8]) -> std::result::Result<Client, String> {
        let mut p: *const CSnipsNluEngine = null();
        match snips_nlu_engine_create_from_zip(data.as_ptr(), data.len() as u32, &mut p) {
            SNIPS_RESULT::SNIPS_RESULT_OK => Client::checked(p),
            SNIPS_RESULT::SNIPS_RESULT_KO => Err(last_error()?),
        }
    }
    fn checked(p: *const CSnipsNluEngine) -> std::result::Result<Client, String> {
        ensure!(!p.is_null(), "created a null engine");
        Ok(Client(p))
    }
    pub fn destroy(self) -> Check {
        destroyed(snips_nlu_engine_destroy_client(self.0 as *mut CSnipsNluEngine))
    }
}

/// A result of the C API, not destroyed yet
#[derive(Clone, Copy)]
enum Held {
    Parse(*const CIntentParserResult),
    Slots(*const CSlotList),
    Intents(*const CIntentClassifierResultArray),
    Json(*const c_char, u8),
}

impl Held {
    fn read(&self) -> std::result::Result<Answer, String> {
        unsafe {
            Ok(match self {
                Held::Parse(p) => Answer::Parse(parsed(*p)?),
                Held::Slots(p) => Answer::Slots(slots(*p)?),
                Held::Intents(p) => {
                    let l = at(*p)?;
                    Answer::Intents(
                        list(l.intent_classifier_results, l.size)?
                            .iter()
                            .map(|r| intent(r))
                            .collect::<std::result::Result<_, String>>()?,
                    )
                }
                Held::Json(p, kind) => {
                    let s = text(*p)?;
                    let v: Value = serde_json::from_str(&s).map_err(|e| format!("{}: {:?}", e, s))?;
                    let err = |e: serde_json::Error| format!("{}: {:?}", e, s);
                    let (a, again) = match kind {
                        0 => {
                            let r: IntentParserResult = serde_json::from_str(&s).map_err(err)?;
                            (Answer::Parse(r.clone()), serde_json::to_string(&r))
                        }
                        1 => {
                            let r: Vec<Slot> = serde_json::from_str(&s).map_err(err)?;
                            (Answer::Slots(r.clone()), serde_json::to_string(&r))
                        }
                        _ => {
                            let r: Vec<IntentClassifierResult> = serde_json::from_str(&s).map_err(err)?;
                            (Answer::Intents(r.clone()), serde_json::to_string(&r))
                        }
                    };
                    let again: Value = serde_json::from_str(&again.unwrap()).unwrap();
                    ensure!(again == v, "unexpected JSON {:?}", s);
                    a
                }
            })
        }
    }

    fn destroy(self) -> Check {
        destroyed(match self {
            Held::Parse(p) => snips_nlu_engine_destroy_result(p as *mut _),
            Held::Slots(p) => snips_nlu_engine_destroy_slots(p as *mut _),
            Held::Intents(p) => snips_nlu_engine_destroy_intent_classifier_results(p as *mut _),
            Held::Json(p, _) => snips_nlu_engine_destroy_string(p as *mut _),
        })
    }
}

/// Arguments of a call, possibly wrong
struct Args {
    client: *const CSnipsNluEngine,
    text: Option<CString>,
    intent: Option<CString>,
    white: Option<Box<Strings>>,
    black: Option<Box<Strings>>,
}

impl Args {
    fn new(client: &Client, texts: &[String], call: &Call) -> Args {
        let list = |f: &Filter| f.as_ref().map(|l| Strings::new(l));
        let mut a = Args { client: client.0, text: None, intent: None, white: None, black: None };
        match call {
            Call::Parse { text, white, black, .. } => {
                a.text = Some(c(&texts[*text]));
                a.white = list(white);
                a.black = list(black);
            }
            Call::Intents(t) => a.text = Some(c(&texts[*t])),
            Call::Slots(t, i, _) => {
                a.text = Some(c(&texts[*t]));
                a.intent = Some(c(i));
            }
            _ => unreachable!(),
        }
        a
    }

    /// Calls the function of the C API with or without alternatives, and as JSON or not
    fn run(&self, call: &Call, json: bool) -> std::result::Result<Held, String> {
        let t = self.text.as_ref().map(|s| s.as_ptr()).unwrap_or(null());
        let i = self.intent.as_ref().map(|s| s.as_ptr()).unwrap_or(null());
        let (w, b) = (pointer(&self.white), pointer(&self.black));
        let mut out: *const c_char = null();
        let mut p: *const CIntentParserResult = null();
        let mut s: *const CSlotList = null();
        let mut l: *const CIntentClassifierResultArray = null();
        let cl = self.client;
        let (r, held): (SNIPS_RESULT, Box<dyn Fn(*const c_char, *const CIntentParserResult, *const CSlotList, *const CIntentClassifierResultArray) -> Held>) = match call {
            Call::Parse { n, m, .. } => match (json, n, m) {
                (false, 0, 0) => (snips_nlu_engine_run_parse(cl, t, w, b, &mut p), Box::new(|_, p, _, _| Held::Parse(p))),
                (false, n, m) => (
                    snips_nlu_engine_run_parse_with_alternatives(cl, t, w, b, *n as u32, *m as u32, &mut p),
                    Box::new(|_, p, _, _| Held::Parse(p)),
                ),
                (true, 0, 0) => (snips_nlu_engine_run_parse_into_json(cl, t, w, b, &mut out), Box::new(|o, _, _, _| Held::Json(o, 0))),
                (true, n, m) => (
                    snips_nlu_engine_run_parse_with_alternatives_into_json(cl, t, w, b, *n as u32, *m as u32, &mut out),
                    Box::new(|o, _, _, _| Held::Json(o, 0)),
                ),
            },
            Call::Slots(_, _, m) => match (json, m) {
                (false, 0) => (snips_nlu_engine_run_get_slots(cl, t, i, &mut s), Box::new(|_, _, s, _| Held::Slots(s))),
                (false, m) => (
                    snips_nlu_engine_run_get_slots_with_alternatives(cl, t, i, *m as u32, &mut s),
                    Box::new(|_, _, s, _| Held::Slots(s)),
                ),
                (true, 0) => (snips_nlu_engine_run_get_slots_into_json(cl, t, i, &mut out), Box::new(|o, _, _, _| Held::Json(o, 1))),
                (true, m) => (
                    snips_nlu_engine_run_get_slots_with_alternatives_into_json(cl, t, i, *m as u32, &mut out),
                    Box::new(|o, _, _, _| Held::Json(o, 1)),
                ),
            },
            _ => {
                if json {
                    (snips_nlu_engine_run_get_intents_into_json(cl, t, &mut out), Box::new(|o, _, _, _| Held::Json(o, 2)))
                } else {
                    (snips_nlu_engine_run_get_intents(cl, t, &mut l), Box::new(|_, _, _, l| Held::Intents(l)))
                }
            }
        };
        match r {
            SNIPS_RESULT::SNIPS_RESULT_OK => Ok(held(out, p, s, l)),
            SNIPS_RESULT::SNIPS_RESULT_KO => Err(last_error()?),
        }
    }
}

pub fn gen_c_call(g: &mut Gen, case: &Case) -> Call {
    let text = g.below(case.texts.len());
    let i = g.pick(&case.spec.intents).name.clone();
    let filter = |g: &mut Gen| match g.below(10) {
        0..=1 => Some(g.pick(&case.filters).clone()),
        2 => Some(vec![]),
        _ => None,
    };
    // as many as there are, written in different ways
    let number = |g: &mut Gen, small: usize| {
        if g.chance(6) { *g.pick(&[256usize, 65_536, 2_147_483_648, 4_294_967_295]) } else { g.below(small) }
    };
    match g.below(8) {
        0..=3 => Call::Parse { text, white: filter(g), black: filter(g), n: number(g, 4), m: number(g, 3) },
        4 => Call::Parse { text, white: filter(g), black: filter(g), n: 0, m: 0 },
        5 => Call::Intents(text),
        _ => Call::Slots(text, i, number(g, 3)),
    }
}

pub fn gen_c_case(g: &mut Gen) -> Case {
    let mut case = gen_case(g, ANY, (1, 4));
    for t in &mut case.texts {
        *t = t.replace('\0', " ");
    }
    if g.chance(50) {
        // texts with several values
        for e in case.spec.entities.values_mut() {
            let more: Vec<_> = e
                .values
                .iter()
                .enumerate()
                .filter(|_| g.chance(60))
                .map(|(i, v)| (v.0.clone(), format!("{} {}", v.0, i)))
                .collect();
            e.values.extend(more);
        }
    }
    case
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Calls {
    case: Case,
    calls: Vec<(Call, bool)>,
    zip: bool,
    /// the engine goes before its results
    early: bool,
    order: Vec<usize>,
}

pub fn c27(run: &mut Run) {
    run.assume("a nul in the middle of a string is given as a space by the structures");
    run.section(
        "results",
        "a result has slots or alternatives",
        (3500, 200_000),
        1500,
        |g| {
            let case = gen_c_case(g);
            let calls = g.vec(2, 7, |g| (gen_c_call(g, &case), g.chance(50)));
            let mut order: Vec<usize> = (0..calls.len()).collect();
            g.shuffle(&mut order);
            Calls { case, calls, zip: g.chance(20), early: g.chance(50), order }
        },
        |k: &Calls, obs: &mut Obs| {
            let files = Files::new(&k.case.spec);
            let e = load(&files.dir)?;
            let client =
                if k.zip { Client::zip(&zip_of(&files.dir)) } else { Client::dir(&files.dir) }?;
            let mut held = vec![];
            for (call_, json) in &k.calls {
                obs.evals += 1;
                let want = call(&e, &k.case.texts, call_);
                let args = Args::new(&client, &k.case.texts, call_);
                let got = args.run(call_, *json);
                let what = || format!("{:?} (JSON: {}) of {:?}", call_, json, k.case.texts);
                let h = match (got, &want) {
                    (Err(m), Answer::Failed(w)) => {
                        ensure!(m.contains(w), "{}: the error {:?} instead of {:?}", what(), m, w);
                        obs.hit("fails as it must");
                        continue;
                    }
                    (Err(m), _) => return Err(format!("{}: the error {:?} instead of {:?}", what(), m, want)),
                    (Ok(h), _) => h,
                };
                let got = h.read().map_err(|e| format!("{}: {}", what(), e))?;
                let want = if *json { want } else { without_nul(want) };
                match agree(&got, &want) {
                    Same::Yes => {}
                    Same::Near => obs.label("left out: rounding decides"),
                    Same::No(why) => {
                        return Err(format!("{}: different {}: {:?} instead of {:?}", what(), why, got, want))
                    }
                }
                let rich = match &got {
                    Answer::Parse(p) => !p.slots.is_empty() || p.alternatives.iter().any(|a| !a.slots.is_empty()),
                    Answer::Slots(s) => !s.is_empty(),
                    _ => false,
                };
                if rich {
                    obs.hit(if *json { "slots as JSON" } else { "slots as structures" });
                }
                held.push((h, got));
            }
            // all of it is released
            for (call_, json) in &k.calls {
                let args = Args::new(&client, &k.case.texts, call_);
                if let Ok(h) = args.run(call_, *json) {
                    h.destroy()?;
                    // what keeps growing at each call is not released
                    let mut kept = i64::max_value();
                    for _ in 0..3 {
                        let before = live();
                        let h = args.run(call_, *json)?;
                        h.destroy()?;
                        kept = kept.min(live() - before);
                        if kept <= 0 {
                            break;
                        }
                    }
                    ensure!(
                        kept <= 0,
                        "{:?} (JSON: {}) of {:?}: {} bytes are still held once its result is destroyed",
                        call_, json, k.case.texts, kept
                    );
                    obs.label("released");
                }
            }
            let mut client = Some(client);
            if k.early {
                client.take().unwrap().destroy()?;
            }
            for i in k.order.iter().filter(|i| **i < held.len()) {
                let (h, first) = &held[*i];
                let again = h.read()?;
                ensure!(again == *first, "a result has changed before it was destroyed: {:?} was {:?}", again, first);
                h.destroy()?;
            }
            if let Some(c) = client {
                c.destroy()?;
            }
            let mut p: *const c_char = null();
            let r = snips_nlu_engine_get_model_version(&mut p);
            ensure!(r == SNIPS_RESULT::SNIPS_RESULT_OK, "no model version: {:?}", last_error());
            let version = unsafe { text(p)? };
            destroyed(snips_nlu_engine_destroy_string(p as *mut c_char))?;
            ensure!(version == snips_nlu_lib::MODEL_VERSION, "model version {:?}", version);
            Ok(())
        },
    );
    run.section(
        "from several threads",
        "threads get results with slots or alternatives",
        (400, 20_000),
        1500,
        |g| {
            let case = gen_c_case(g);
            let calls = g.vec(3, 8, |g| (gen_c_call(g, &case), g.chance(50)));
            Calls { case, calls, zip: false, early: false, order: vec![] }
        },
        |k: &Calls, obs: &mut Obs| {
            let files = Files::new(&k.case.spec);
            let e = load(&files.dir)?;
            let want: Vec<Answer> = k.calls.iter().map(|(c, _)| call(&e, &k.case.texts, c)).collect();
            let client = Client::dir(&files.dir)?;
            let shared = client.0 as usize;
            let results: Vec<std::result::Result<Vec<(usize, std::result::Result<Answer, String>)>, String>> =
                std::thread::scope(|s| {
                    let handles: Vec<_> = (0..4)
                        .map(|t| {
                            s.spawn(move || {
                                let client = Client(shared as *const CSnipsNluEngine);
                                let mut out = vec![];
                                for j in 0..2 * k.calls.len() {
                                    let at = (j + t * 3) % k.calls.len();
                                    let (call_, json) = &k.calls[at];
                                    let args = Args::new(&client, &k.case.texts, call_);
                                    out.push((
                                        at,
                                        match args.run(call_, *json) {
                                            Ok(h) => {
                                                let a = h.read()?;
                                                h.destroy()?;
                                                Ok(a)
                                            }
                                            Err(m) => Err(m),
                                        },
                                    ));
                                }
                                Ok(out)
                            })
                        })
                        .collect();
                    handles
                        .into_iter()
                        .map(|t| t.join().unwrap_or_else(|_| Err("a thread panicked".to_string())))
                        .collect()
                });
            for l in results {
                for (at, got) in l? {
                    obs.evals += 1;
                    let (call_, json) = &k.calls[at];
                    let what = || format!("{:?} (JSON: {}) of {:?}, called by several threads", call_, json, k.case.texts);
                    let got = match (got, &want[at]) {
                        (Err(m), Answer::Failed(w)) => {
                            ensure!(m.contains(w), "{}: the error {:?} instead of {:?}", what(), m, w);
                            continue;
                        }
                        (Err(m), w) => return Err(format!("{}: the error {:?} instead of {:?}", what(), m, w)),
                        (Ok(got), _) => got,
                    };
                    let want = if *json { want[at].clone() } else { without_nul(want[at].clone()) };
                    match agree(&got, &want) {
                        Same::Yes => {}
                        Same::Near => obs.label("left out: rounding decides"),
                        Same::No(why) => {
                            return Err(format!("{}: different {}: {:?} instead of {:?}", what(), why, got, want))
                        }
                    }
                    match &got {
                        Answer::Parse(p) if !p.slots.is_empty() || !p.alternatives.is_empty() => obs.hit("parsed"),
                        Answer::Slots(s) if !s.is_empty() => obs.hit("slots"),
                        _ => {}
                    }
                }
            }
            client.destroy()
        },
    );
    run.section(
        "engines are released",
        "an engine is created and destroyed",
        (150, 5000),
        1500,
        gen_c_case,
        |case: &Case, obs: &mut Obs| {
            let files = Files::new(&case.spec);
            let bytes = zip_of(&files.dir);
            let zip = case.n % 2 == 0;
            let once = || -> Check {
                let client = if zip { Client::zip(&bytes) } else { Client::dir(&files.dir) }?;
                let call_ = Call::Parse { text: 0, white: None, black: None, n: case.n, m: case.m };
                if let Ok(h) = Args::new(&client, &case.texts, &call_).run(&call_, false) {
                    h.destroy()?;
                }
                client.destroy()
            };
            once()?;
            let before = live();
            for _ in 0..3 {
                once()?;
                obs.evals += 1;
            }
            let after = live();
            ensure!(
                after <= before,
                "{} bytes are still held after three engines are destroyed (archive: {})", after - before, zip
            );
            obs.hit("created and destroyed");
            Ok(())
        },
    );
}

// ---- C28

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Wrong {
    NullClient,
    NullText,
    NullIntent,
    /// bytes that are no UTF-8, in: the text, the intent, a list
    BytesText(Vec<u8>),
    BytesIntent(Vec<u8>),
    BytesWhite(Vec<u8>),
    BytesBlack(Vec<u8>),
    /// elements of a list are null
    NullElement(bool, usize),
    NullList(bool),
    NegativeList(bool),
    UnknownIntent(String),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Step {
    Valid(usize, Call, bool),
    Wrong(usize, Call, bool, Wrong),
    /// a list without elements whose address is null
    EmptyNullList(usize, usize),
    Missing(String),
    NullDir,
    BytesDir(Vec<u8>),
    Zip(Vec<u8>),
    NullZip(u32),
    DestroyNull(u8),
    /// replaces an engine by a new one
    Renew(usize),
    Version,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct CRequest {
    dirs: Vec<PathBuf>,
    texts: Vec<String>,
    steps: Vec<Step>,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct CReply {
    problem: Option<String>,
    failures: usize,
    answers: usize,
    /// valid calls after a failure
    after: usize,
}

fn messages(e: &failure::Error) -> Vec<String> {
    e.iter_chain().map(|c| c.to_string().replace('\0', " ")).collect()
}

fn serve_steps(r: &CRequest, out: &mut CReply) -> Check {
    let engines: Vec<SnipsNluEngine> =
        r.dirs.iter().map(|d| load(d)).collect::<std::result::Result<_, String>>()?;
    let mut clients: Vec<Client> =
        r.dirs.iter().map(|d| Client::dir(d)).collect::<std::result::Result<_, String>>()?;
    let mut failed = false;
    // an error, whose message must hold these texts
    let refused = |got: std::result::Result<(), String>, holds: Vec<String>, what: &str| -> Check {
        match got {
            Ok(()) => Err(format!("{} is accepted", what)),
            Err(m) => {
                for h in holds {
                    ensure!(m.contains(&h), "{}: the message {:?} does not tell {:?}", what, m, h);
                }
                Ok(())
            }
        }
    };
    for step in &r.steps {
        let what = format!("{:?}", step);
        match step {
            Step::Valid(k, call_, json) => {
                let want = call(&engines[*k], &r.texts, call_);
                let got = Args::new(&clients[*k], &r.texts, call_).run(call_, *json);
                match (got, want) {
                    (Err(m), Answer::Failed(w)) => {
                        ensure!(m.contains(&w.replace('\0', " ")), "{}: the error {:?} instead of {:?}", what, m, w);
                        out.failures += 1;
                        failed = true;
                    }
                    (Err(m), want) => return Err(format!("{}: the error {:?} instead of {:?}", what, m, want)),
                    (Ok(h), want) => {
                        let got = h.read()?;
                        let want = if *json { want } else { without_nul(want) };
                        if let Same::No(why) = agree(&got, &want) {
                            return Err(format!("{}: different {}: {:?} instead of {:?}", what, why, got, want));
                        }
                        h.destroy()?;
                        out.answers += 1;
                        out.after += failed as usize;
                    }
                }
            }
            Step::Wrong(k, call_, json, wrong) => {
                let mut a = Args::new(&clients[*k], &r.texts, call_);
                let raw = |b: &[u8]| CString::new(b.to_vec()).unwrap();
                let mut call_ = call_.clone();
                let mut holds = vec![];
                let broken = |kind: &Wrong| {
                    let mut s = Strings::of(vec![c("a"), c("b")]);
                    match kind {
                        Wrong::NullElement(_, at) => s.pointers[at % 2] = null(),
                        Wrong::NullList(_) => s.array.data = null(),
                        _ => s.array.size = -1,
                    }
                    Some(s)
                };
                match wrong {
                    Wrong::NullClient => a.client = null(),
                    Wrong::NullText => a.text = None,
                    Wrong::NullIntent => a.intent = None,
                    Wrong::BytesText(b) => a.text = Some(raw(b)),
                    Wrong::BytesIntent(b) => a.intent = Some(raw(b)),
                    Wrong::BytesWhite(b) => a.white = Some(Strings::of(vec![c("a"), raw(b)])),
                    Wrong::BytesBlack(b) => a.black = Some(Strings::of(vec![raw(b), c("a")])),
                    Wrong::NullElement(white, _) | Wrong::NullList(white) | Wrong::NegativeList(white) => {
                        if *white {
                            a.white = broken(wrong);
                        } else {
                            a.black = broken(wrong);
                        }
                    }
                    Wrong::UnknownIntent(i) => {
                        let lib = match &mut call_ {
                            Call::Slots(t, name, m) => {
                                *name = i.clone();
                                engines[*k].get_slots_with_alternatives(&r.texts[*t], i, *m).map(|_| ())
                            }
                            Call::Parse { text, white, black, .. } => {
                                *white = Some(vec![i.clone()]);
                                *black = None;
                                engines[*k].parse(&r.texts[*text], vec![&**i], None).map(|_| ())
                            }
                            _ => unreachable!(),
                        };
                        match lib {
                            // an engine without parsers has no slots, whatever the intent
                            Ok(()) => continue,
                            Err(e) => holds = messages(&e),
                        }
                        a = Args::new(&clients[*k], &r.texts, &call_);
                    }
                }
                let got = a.run(&call_, *json).map(|_| ());
                refused(got, holds, &what)?;
                out.failures += 1;
                failed = true;
            }
            Step::EmptyNullList(k, text) => {
                let none = Call::Parse { text: *text, white: None, black: Some(vec![]), n: 0, m: 0 };
                let mut a = Args::new(&clients[*k], &r.texts, &none);
                a.black.as_mut().unwrap().array.data = null();
                let want = call(&engines[*k], &r.texts, &none);
                match (a.run(&none, true), want) {
                    (Ok(h), want) => {
                        let got = h.read()?;
                        if let Same::No(why) = agree(&got, &want) {
                            return Err(format!("{}: different {}: {:?} instead of {:?}", what, why, got, want));
                        }
                        h.destroy()?;
                    }
                    (Err(_), Answer::Failed(_)) => {}
                    (Err(m), want) => return Err(format!("{}: the error {:?} instead of {:?}", what, m, want)),
                }
            }
            Step::Missing(d) => {
                let d = r.dirs[0].join(d);
                let holds = match SnipsNluEngine::from_path(&d) {
                    Ok(_) => return Err(format!("{}: accepted by the library", what)),
                    Err(e) => messages(&e),
                };
                refused(Client::dir(&d).map(|_| ()), holds, &what)?;
                out.failures += 1;
                failed = true;
            }
            Step::NullDir => {
                let mut p: *const CSnipsNluEngine = null();
                let r = snips_nlu_engine_create_from_dir(null(), &mut p);
                ensure!(r == SNIPS_RESULT::SNIPS_RESULT_KO, "{} is accepted", what);
                last_error()?;
                out.failures += 1;
                failed = true;
            }
            Step::BytesDir(b) => {
                let got = Client::path(&CString::new(b.clone()).unwrap()).map(|_| ());
                refused(got, vec![], &what)?;
                out.failures += 1;
                failed = true;
            }
            Step::Zip(b) => {
                let holds = match SnipsNluEngine::from_zip(std::io::Cursor::new(b.clone())) {
                    Ok(_) => return Err(format!("{}: accepted by the library", what)),
                    Err(e) => e.iter_chain().next().map(|c| c.to_string()).into_iter().collect(),
                };
                refused(Client::zip(b).map(|_| ()), holds, &what)?;
                out.failures += 1;
                failed = true;
            }
            Step::NullZip(n) => {
                let mut p: *const CSnipsNluEngine = null();
                let r = snips_nlu_engine_create_from_zip(null(), *n, &mut p);
                ensure!(r == SNIPS_RESULT::SNIPS_RESULT_KO, "{} is accepted", what);
                last_error()?;
                out.failures += 1;
                failed = true;
            }
            Step::DestroyNull(kind) => {
                let none = std::ptr::null_mut();
                let r = match kind {
                    0 => snips_nlu_engine_destroy_client(none),
                    1 => snips_nlu_engine_destroy_string(std::ptr::null_mut()),
                    2 => snips_nlu_engine_destroy_result(std::ptr::null_mut()),
                    3 => snips_nlu_engine_destroy_slots(std::ptr::null_mut()),
                    _ => snips_nlu_engine_destroy_intent_classifier_results(std::ptr::null_mut()),
                };
                ensure!(r == SNIPS_RESULT::SNIPS_RESULT_KO, "{} is accepted", what);
                last_error()?;
                out.failures += 1;
                failed = true;
            }
            Step::Renew(k) => {
                let new = Client::dir(&r.dirs[*k])?;
                std::mem::replace(&mut clients[*k], new).destroy()?;
            }
            Step::Version => {
                let mut p: *const c_char = null();
                let r = snips_nlu_engine_get_model_version(&mut p);
                ensure!(r == SNIPS_RESULT::SNIPS_RESULT_OK, "no model version");
                ensure!(unsafe { text(p)? } == snips_nlu_lib::MODEL_VERSION, "another model version");
                destroyed(snips_nlu_engine_destroy_string(p as *mut c_char))?;
            }
        }
    }
    for c in clients {
        c.destroy()?;
    }
    Ok(())
}

pub fn serve_c(r: &CRequest) -> CReply {
    let mut out = CReply::default();
    out.problem = match no_panic(|| serve_steps(r, &mut out)) {
        Ok(Ok(())) => None,
        Ok(Err(e)) => Some(e),
        Err(p) => Some(p),
    };
    out
}

const NO_UTF8: &[&[u8]] = &[b"\xff", b"a\xc3", b"\xed\xa0\x80", b"hello \xe9t\xe9", b"\xf8\x88\x80\x80\x80", b"\xc0\xaf"];

fn gen_step(g: &mut Gen, case: &Case, engines: usize) -> Step {
    let k = g.below(engines);
    let bytes = |g: &mut Gen| g.pick(NO_UTF8).to_vec();
    let slots = |g: &mut Gen| Call::Slots(g.below(case.texts.len()), case.spec.intents[0].name.clone(), g.below(2));
    let parse = |g: &mut Gen| Call::Parse {
        text: g.below(case.texts.len()),
        white: None,
        black: None,
        n: g.below(2),
        m: g.below(2),
    };
    match g.below(20) {
        0..=6 => Step::Valid(k, gen_c_call(g, case), g.chance(50)),
        7..=13 => {
            let json = g.chance(50);
            let white = g.chance(50);
            let (call, wrong) = match g.below(12) {
                0 => (gen_c_call(g, case), Wrong::NullClient),
                1 => (gen_c_call(g, case), Wrong::NullText),
                2 => (slots(g), Wrong::NullIntent),
                3 => (gen_c_call(g, case), Wrong::BytesText(bytes(g))),
                4 => (slots(g), Wrong::BytesIntent(bytes(g))),
                5 => (parse(g), Wrong::BytesWhite(bytes(g))),
                6 => (parse(g), Wrong::BytesBlack(bytes(g))),
                7 => (parse(g), Wrong::NullElement(white, g.below(2))),
                8 => (parse(g), Wrong::NullList(white)),
                9 => (parse(g), Wrong::NegativeList(white)),
                _ => {
                    let name = loop {
                        let n = format!("no such {}", g.string(4).replace('\0', ""));
                        if !case.spec.intents.iter().any(|i| i.name == n) {
                            break n;
                        }
                    };
                    (if white { slots(g) } else { parse(g) }, Wrong::UnknownIntent(name))
                }
            };
            Step::Wrong(k, call, json, wrong)
        }
        14 => Step::EmptyNullList(k, g.below(case.texts.len())),
        15 => Step::Missing(g.word(&["missing", "nlu_engine.json", "resources", "été", "", "../nothing"]).replace("../", "")),
        16 => match g.below(2) {
            0 => Step::NullDir,
            _ => Step::BytesDir(bytes(g)),
        },
        17 => match g.below(3) {
            0 => Step::NullZip(if g.chance(50) { 0 } else { 1000 }),
            _ => Step::Zip((0..g.range(0, 40)).map(|_| g.below(256) as u8).collect()),
        },
        18 => Step::DestroyNull(g.below(5) as u8),
        _ => {
            if g.chance(50) {
                Step::Renew(k)
            } else {
                Step::Version
            }
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Steps {
    case: Case,
    engines: usize,
    steps: Vec<Step>,
}

pub fn c28(run: &mut Run) {
    run.assume("the addresses where results are written are valid; 30 s and 3 GB of address space for each history");
    run.section(
        "histories of errors",
        "a call fails, and a call after it succeeds",
        (6000, 300_000),
        1500,
        |g| {
            let case = gen_c_case(g);
            let engines = g.range(1, 2);
            let mut steps = g.vec(3, 14, |g| gen_step(g, &case, engines));
            steps.retain(|s| match s {
                Step::Missing(d) => !d.is_empty(),
                _ => true,
            });
            Steps { case, engines, steps }
        },
        |s: &Steps, obs: &mut Obs| {
            let files = Files::new(&s.case.spec);
            let request = CRequest {
                dirs: (0..s.engines).map(|_| files.dir.clone()).collect(),
                texts: s.case.texts.clone(),
                steps: s.steps.clone(),
            };
            let reply: CReply = ask_as("C", &request)?;
            obs.evals += (reply.failures + reply.answers) as u64;
            if let Some(p) = reply.problem {
                return Err(p);
            }
            if reply.failures > 0 && reply.after > 0 {
                obs.hit("fails, then succeeds");
            } else if reply.failures > 0 {
                obs.label("only fails");
            }
            Ok(())
        },
    );
}
