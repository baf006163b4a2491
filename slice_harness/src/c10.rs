use crate::core::*;
use crate::intent_classifier::logreg::MulticlassLogisticRegression;
use ndarray::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    intercept: Vec<f32>,
    /// one row per class, as in the model files
    coeffs: Vec<Vec<f32>>,
    features: Vec<f32>,
}

fn weight(g: &mut Gen, exact: bool) -> f32 {
    if exact {
        g.int(-32, 32) as f32 / 8.
    } else {
        match g.below(8) {
            0 => 0.,
            1 => g.int(-2000, 2000) as f32 / 10.,
            2 => g.int(-1000, 1000) as f32 * 1e-6,
            _ => g.int(-100_000, 100_000) as f32 / 12345.,
        }
    }
}

fn gen(g: &mut Gen) -> Case {
    let classes = *g.pick(&[3usize, 2, 1, 4, 1, 5, 9, 0, 2, 3]);
    let features = *g.pick(&[2usize, 3, 1, 5, 8, 0, 20, 4, 3]);
    let exact = !g.chance(40);
    Case {
        intercept: (0..classes).map(|_| weight(g, exact)).collect(),
        coeffs: (0..classes).map(|_| (0..features).map(|_| weight(g, exact)).collect()).collect(),
        features: (0..features)
            .map(|_| if g.chance(25) { 0. } else { weight(g, exact) / 4. })
            .collect(),
    }
}

fn model(c: &Case) -> crate::errors::Result<MulticlassLogisticRegression> {
    let n = c.coeffs.len();
    let f = c.features.len();
    // as the classifier does
    let weights = Array::from_shape_fn((f, n), |(i, j)| c.coeffs[j][i]);
    MulticlassLogisticRegression::new(Array::from_vec(c.intercept.clone()), weights)
}

/// A model of the size of real ones: thousands of weights, from a seed
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Large {
    classes: usize,
    features: usize,
    seed: u64,
    /// the weights are multiplied by this
    scale: f32,
    /// one feature out of this many is not null
    every: usize,
    /// more weights, put at these places
    spikes: Vec<(usize, usize, f32)>,
}

fn gen_large(g: &mut Gen) -> Large {
    let classes = if g.chance(60) { g.range(1, 12) } else { g.range(1, 70) };
    let features = if g.chance(60) { g.range(1, 60) } else { g.range(1, 700) };
    Large {
        classes,
        features,
        seed: g.range(0, 1 << 30) as u64,
        scale: *g.pick(&[0.1f32, 1., 0.01, 5., 40., 1e4, 1e-6]),
        every: *g.pick(&[1usize, 2, 10, 40]),
        spikes: g.vec(0, 4, |g| {
            (
                g.range(0, classes - 1),
                g.range(0, features - 1),
                *g.pick(&[1f32, -1., 8., -8., 25., -25., 60., -60., 300., -300., 1e6, -1e6, 1e20, -1e20]),
            )
        }),
    }
}

fn build_large(l: &Large) -> Case {
    let mut state = l.seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    let mut next = || {
        state ^= state << 13;
        state ^= state >> 7;
        state ^= state << 17;
        (state >> 40) as f32 / (1u64 << 24) as f32 * 2. - 1.
    };
    let intercept = (0..l.classes).map(|_| next() * l.scale).collect();
    let mut coeffs: Vec<Vec<f32>> =
        (0..l.classes).map(|_| (0..l.features).map(|_| next() * l.scale).collect()).collect();
    let mut features: Vec<f32> =
        (0..l.features).map(|i| if i % l.every == 0 { next() } else { 0. }).collect();
    for (c, f, w) in &l.spikes {
        coeffs[*c][*f] = *w;
        features[*f] = 1.;
    }
    Case { intercept, coeffs, features }
}

fn check_large(l: &Large, obs: &mut Obs) -> Check {
    check(&build_large(l), obs)
}

/// scores with their tolerances
fn expected(c: &Case) -> Vec<(f64, f64)> {
    let mut scores: Vec<(f64, f64)> = vec![];
    for class in 0..c.coeffs.len() {
        let mut z = f64::from(c.intercept[class]);
        // what the rounding of single precision numbers can do to the sum
        let mut size = z.abs();
        for (w, x) in c.coeffs[class].iter().zip(&c.features) {
            let t = f64::from(*w) * f64::from(*x);
            z += t;
            size += t.abs();
        }
        let p = 1. / (1. + (-z).exp());
        let absolute = 1e-6 + 1e-6 * size * (1. + c.features.len() as f64 / 128.);
        // a score near 0 is as precise as another one
        let relative = if z < -80. { absolute } else { p * (4. * absolute).min(1.) + 1e-30 };
        scores.push((p, absolute.min(relative)));
    }
    if scores.len() == 1 {
        let (p, t) = scores[0];
        scores.insert(0, (1. - p, t.max(1e-6)));
        scores[1].1 = t;
    }
    scores
}

fn check(c: &Case, obs: &mut Obs) -> Check {
    let m = model(c).map_err(|e| format!("refused: {}", e))?;
    let got = m
        .run(&Array::from_vec(c.features.clone()).view())
        .map_err(|e| format!("failed: {}", e))?;
    let want = expected(c);
    ensure!(got.len() == want.len(), "{} scores instead of {}", got.len(), want.len());
    for (i, (p, tol)) in want.iter().enumerate() {
        let s = f64::from(got[i]);
        ensure!((0. ..=1.).contains(&s), "score {} is {}", i, s);
        ensure!((s - p).abs() <= *tol, "score {} is {} instead of {}", i, s, p);
    }
    match c.coeffs.len() {
        0 => obs.label("no class"),
        1 => obs.hit("binary"),
        _ => obs.hit("multiclass"),
    }
    if want.iter().any(|(p, _)| *p > 0.05 && *p < 0.95) {
        obs.label("unsaturated");
    }
    // twice the same, and unaffected by another vector in between
    let zero = m.run(&Array::zeros(c.features.len()).view()).map_err(|e| format!("failed: {}", e))?;
    let reference = expected(&Case { features: vec![0.; c.features.len()], ..c.clone() });
    for (i, (p, tol)) in reference.iter().enumerate() {
        ensure!((f64::from(zero[i]) - p).abs() <= *tol, "score {} of the null vector is {} instead of {}", i, zero[i], p);
    }
    let again = m
        .run(&Array::from_vec(c.features.clone()).view())
        .map_err(|e| format!("failed: {}", e))?;
    ensure!(again == got, "scores changed: {:?} then {:?}", got, again);
    obs.evals += 3;
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Sizes {
    intercept: usize,
    rows: usize,
    columns: usize,
    features: usize,
}

fn gen_sizes(g: &mut Gen) -> Sizes {
    let large = g.chance(15);
    let intercept = if large { g.range(0, 80) } else { g.range(0, 5) };
    let rows = if large { g.range(0, 300) } else { g.range(0, 6) };
    Sizes {
        intercept,
        rows,
        columns: if !g.chance(30) {
            intercept
        } else if large {
            g.range(0, 80)
        } else {
            g.range(0, 5)
        },
        features: if !g.chance(70) {
            rows
        } else if large {
            *g.pick(&[rows + 1, rows.saturating_sub(1), rows * 2, 0, 1])
        } else {
            g.range(0, 13)
        },
    }
}

fn check_sizes(c: &Sizes, obs: &mut Obs) -> Check {
    let m = MulticlassLogisticRegression::new(
        Array::from_elem(c.intercept, 0.25),
        Array::from_elem((c.rows, c.columns), 0.5),
    );
    let m = match m {
        Err(_) => {
            ensure!(c.intercept != c.columns, "a consistent model is refused");
            obs.hit("inconsistent model");
            return Ok(());
        }
        Ok(m) => {
            ensure!(c.intercept == c.columns, "an inconsistent model is accepted");
            m
        }
    };
    match m.run(&Array::from_elem(c.features, 1.).view()) {
        Err(_) => {
            ensure!(c.features != c.rows, "a vector of the size of the model is refused");
            obs.hit("wrong size");
        }
        Ok(scores) => {
            ensure!(c.features == c.rows, "a vector of {} features is accepted instead of {}", c.features, c.rows);
            ensure!(scores.len() == if c.intercept == 1 { 2 } else { c.intercept }, "{} scores", scores.len());
            obs.hit("right size");
        }
    }
    Ok(())
}

pub fn run(run: &mut Run) {
    run.section(
        "scores",
        "a case is an intercept, a weight matrix and a feature vector; non-trivial: at least one class",
        (60_000, 3_000_000),
        260,
        gen,
        check,
    );
    run.section(
        "large models",
        "a case is a model of up to 70 classes and 700 features and a vector; non-trivial: always",
        (4_000, 150_000),
        40,
        gen_large,
        check_large,
    );
    run.section(
        "sizes",
        "a case is the sizes of an intercept, a matrix and a vector; non-trivial: always",
        (20_000, 300_000),
        10,
        gen_sizes,
        check_sizes,
    );
}
