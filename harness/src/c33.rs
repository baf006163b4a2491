use crate::core::*;
use crate::errors::SnipsNluError;
use crate::injection::errors::{NluInjectionError, NluInjectionErrorKind};
use failure::{Context, Fail, ResultExt};
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    kind: usize,
    a: String,
    b: String,
    chain: Vec<String>,
}

#[derive(Debug, Fail)]
#[fail(display = "{}", _0)]
struct Cause(String);

fn gen(g: &mut Gen) -> Case {
    // most are short; some are as long as a request or a path can be
    let long = g.chance(8);
    Case {
        kind: g.below(6),
        a: if long { g.string(12).repeat(g.range(1, 60)) } else { g.string(24) },
        b: if long { g.string(12).repeat(g.range(1, 60)) } else { g.string(16) },
        chain: g.vec(0, if long { 10 } else { 3 }, |g| g.string(10)),
    }
}

fn library_error(c: &Case) -> (SnipsNluError, String) {
    match c.kind {
        0 => (SnipsNluError::ModelLoad(c.a.clone()), format!("Unable to read file '{}'", c.a)),
        1 => (
            SnipsNluError::WrongModelVersion {
                model: c.a.clone(),
                runner: Box::leak(c.b.clone().into_boxed_str()),
            },
            format!("Mismatched model version: model is {} but runner is {}", c.a, c.b),
        ),
        2 => (SnipsNluError::UnknownIntent(c.a.clone()), format!("Unknown intent: '{}'", c.a)),
        _ => (SnipsNluError::InternalError(c.a.clone()), format!("Internal error: {}", c.a)),
    }
}

fn kind(c: &Case) -> (NluInjectionErrorKind, String) {
    if c.kind % 2 == 0 {
        (
            NluInjectionErrorKind::EntityNotInjectable { msg: c.a.clone() },
            format!("Entity is not injectable: {}", c.a),
        )
    } else {
        (
            NluInjectionErrorKind::InternalInjectionError { msg: c.a.clone() },
            format!("Internal injection error: {}", c.a),
        )
    }
}

fn causes(e: &dyn Fail) -> Vec<String> {
    let mut messages = vec![];
    let mut current = Some(e);
    while let Some(f) = current {
        messages.push(f.to_string());
        current = f.cause();
    }
    messages
}

fn check_library(c: &Case, obs: &mut Obs) -> Check {
    let (e, want) = library_error(c);
    ensure!(e.to_string() == want, "message {:?} instead of {:?}", e.to_string(), want);
    ensure!(causes(&e) == vec![want.clone()], "unexpected causes {:?}", causes(&e));
    // through the result type of the library, below other contexts
    let (e, _) = library_error(c);
    let mut error: failure::Error = e.into();
    ensure!(error.to_string() == want, "message {:?} instead of {:?}", error.to_string(), want);
    ensure!(error.downcast_ref::<SnipsNluError>().is_some(), "the error is lost");
    let mut all = vec![want];
    for context in &c.chain {
        error = error.context(context.clone()).into();
        all.insert(0, context.clone());
    }
    let got: Vec<String> = error.iter_chain().map(|f| f.to_string()).collect();
    ensure!(got == all, "chain {:?} instead of {:?}", got, all);
    // as the context of another error
    let (e, want) = library_error(c);
    let result: std::result::Result<(), Cause> = Err(Cause(c.b.clone()));
    let error: failure::Error = result.with_context(|_| e).unwrap_err().into();
    let got: Vec<String> = error.iter_chain().map(|f| f.to_string()).collect();
    ensure!(got == vec![want.clone(), c.b.clone()], "chain {:?} instead of {:?}", got, [want, c.b.clone()]);
    obs.hit(["file", "version", "intent", "internal", "internal", "internal"][c.kind]);
    Ok(())
}

fn check_injection(c: &Case, obs: &mut Obs) -> Check {
    let (k, want) = kind(c);
    ensure!(k.to_string() == want, "kind message {:?} instead of {:?}", k.to_string(), want);
    // on its own
    let e: NluInjectionError = k.into();
    ensure!(e.to_string() == want, "message {:?} instead of {:?}", e.to_string(), want);
    ensure!(causes(&e) == vec![want.clone()], "causes {:?}", causes(&e));
    ensure!(e.backtrace().is_some(), "no backtrace");
    // as the context of nothing
    let e: NluInjectionError = Context::new(kind(c).0).into();
    ensure!(causes(&e) == vec![want.clone()], "causes {:?}", causes(&e));
    // as the context of a chain of errors
    let mut error: failure::Error = Cause(c.b.clone()).into();
    let mut all = vec![c.b.clone()];
    for context in &c.chain {
        error = error.context(context.clone()).into();
        all.insert(0, context.clone());
    }
    all.insert(0, want.clone());
    let e: NluInjectionError = error.context(kind(c).0).into();
    ensure!(e.to_string() == want, "message {:?} instead of {:?}", e.to_string(), want);
    ensure!(causes(&e) == all, "causes {:?} instead of {:?}", causes(&e), all);
    ensure!(e.cause().is_some(), "no cause");
    ensure!(e.backtrace().is_some(), "no backtrace");
    // as the context of a result, the way the injector does
    let result: std::result::Result<(), Cause> = Err(Cause(c.b.clone()));
    let injected: std::result::Result<(), NluInjectionError> =
        result.with_context(|_| kind(c).0).map_err(|e| e.into());
    let e = injected.unwrap_err();
    ensure!(causes(&e) == vec![want.clone(), c.b.clone()], "causes {:?}", causes(&e));
    let e: failure::Error = e.into();
    let got: Vec<String> = e.iter_chain().map(|f| f.to_string()).collect();
    ensure!(got == vec![want.clone(), c.b.clone()], "chain {:?}", got);
    obs.hit(if c.kind % 2 == 0 { "entity" } else { "internal" });
    Ok(())
}

pub fn run(run: &mut Run) {
    let rule = "a case is an error kind, the strings it is made of and a chain of causes; non-trivial: always";
    run.section("library", rule, (30_000, 1_000_000), 180, gen, check_library);
    run.section("injection", rule, (30_000, 1_000_000), 180, gen, check_injection);
}
