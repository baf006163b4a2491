//! What the checks of engines share.
use crate::core::*;
use crate::refs::*;
use crate::spec::*;
use crate::text::*;
use serde::{Deserialize, Serialize};
use snips_nlu_lib::SharedResources;
use std::ops::Range;
use std::path::{Path, PathBuf};
use std::sync::Arc;

/// A generated engine and what is asked from it
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case {
    pub spec: Spec,
    pub texts: Vec<String>,
    /// lists of intents
    pub filters: Vec<Vec<String>>,
    pub n: usize,
    pub m: usize,
}

pub fn gen_case(g: &mut Gen, want: Want, texts: (usize, usize)) -> Case {
    let spec = gen_spec(g, want);
    let texts = gen_texts(g, &spec, texts.0, texts.1);
    let names: Vec<String> = spec.intents.iter().map(|i| i.name.clone()).collect();
    let filters = g.vec(1, 3, |g| {
        let mut f = g.subset(&names, 55);
        if g.chance(10) && !f.is_empty() {
            // twice the same
            f.push(f[0].clone());
        }
        g.shuffle(&mut f);
        f
    });
    let m = if g.chance(8) { g.range(5, 12) } else { g.range(0, 4) };
    Case { spec, texts, filters, n: g.range(0, 6), m }
}

pub struct Files {
    pub scratch: Scratch,
    pub dir: PathBuf,
}

impl Files {
    pub fn new(spec: &Spec) -> Files {
        let scratch = Scratch::new();
        let dir = scratch.join("engine");
        write(spec, &dir);
        Files { scratch, dir }
    }
    pub fn shared(&self, spec: &Spec) -> Arc<SharedResources> {
        shared(&self.dir, spec)
    }
    pub fn world(&self, spec: &Spec) -> World {
        World::open(&self.dir, &spec.lang)
    }
}

pub fn shared(dir: &Path, spec: &Spec) -> Arc<SharedResources> {
    snips_nlu_lib::load_shared_resources(
        dir.join("resources").join(&spec.lang),
        dir.join("builtin_entity_parser"),
        dir.join("custom_entity_parser"),
    )
    .unwrap()
}

/// A slot before its resolution
#[derive(Clone, Debug, PartialEq)]
pub struct Raw {
    pub range: Range<usize>,
    pub value: String,
    pub entity: String,
    pub slot: String,
}

#[macro_export]
macro_rules! raws {
    ($slots:expr) => {
        $slots
            .iter()
            .map(|s| $crate::common::Raw {
                range: s.char_range.clone(),
                value: s.value.clone(),
                entity: s.entity.clone(),
                slot: s.slot_name.clone(),
            })
            .collect::<Vec<$crate::common::Raw>>()
    };
}

pub fn expected_raws(text: &str, slots: &[RefSlot]) -> Vec<Raw> {
    slots
        .iter()
        .map(|s| Raw {
            range: s.range.clone(),
            value: sub(text, &s.range),
            entity: s.entity.clone(),
            slot: s.slot.clone(),
        })
        .collect()
}

pub fn close(a: f32, b: f32, eps: f32) -> bool {
    (a - b).abs() <= eps
}

pub fn text_of(e: impl std::fmt::Display) -> String {
    e.to_string()
}

pub fn as_strs(list: &[String]) -> Vec<&str> {
    list.iter().map(|s| &**s).collect()
}
