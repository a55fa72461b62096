//! What a property check consists of.

use crate::bus::{Bad, Res};
use proptest::prelude::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::Value;
use std::{fmt::Debug, panic, sync::Mutex};

/// Collects what a case exercised
#[derive(Default)]
pub struct Cx {
    pub classes: Vec<String>,
    pub nontrivial: bool,
}

impl Cx {
    pub fn class(&mut self, c: impl Into<String>) {
        let c = c.into();
        if !self.classes.contains(&c) {
            self.classes.push(c);
        }
    }

    pub fn class_if(&mut self, b: bool, c: &str) {
        if b {
            self.class(c);
        }
    }
}

pub trait Prop {
    const ID: &'static str;
    /// How cases are made and what makes one non-trivial
    const RULE: &'static str;
    type Case: Serialize + DeserializeOwned + Debug + Clone + 'static;

    fn strategy(thorough: bool) -> BoxedStrategy<Self::Case>;
    /// Number of generated cases (quick, thorough)
    const CASES: (usize, usize);
    /// Cases per worker process
    const RECYCLE: usize = 120;
    /// Seconds after which a case counts as hanging
    const LIMIT: u64 = 60;
    /// Number of worker processes running at the same time
    const SHARDS: usize = 8;

    fn run(case: &Self::Case, cx: &mut Cx) -> Res;

    /// Concrete cases which are always run first
    fn fixed() -> Vec<Self::Case> {
        vec![]
    }
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum Verdict {
    Pass,
    Fail,
    Slow,
    Skip,
    Known,
    /// The harness itself is broken
    Broken,
    /// Not a case
    Invalid,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Outcome {
    pub verdict: Verdict,
    #[serde(default)]
    pub msg: String,
    #[serde(default)]
    pub sig: String,
    #[serde(default)]
    pub nontrivial: bool,
    #[serde(default)]
    pub classes: Vec<String>,
}

pub struct Def {
    pub id: &'static str,
    pub rule: &'static str,
    pub cases: (usize, usize),
    pub recycle: usize,
    pub limit: u64,
    pub shards: usize,
    pub strategy: fn(bool) -> BoxedStrategy<Value>,
    pub run: fn(&Value) -> Outcome,
    pub fixed: fn() -> Vec<Value>,
}

impl Def {
    pub fn of<P: Prop>() -> Self {
        Self {
            id: P::ID,
            rule: P::RULE,
            cases: P::CASES,
            recycle: P::RECYCLE,
            limit: P::LIMIT,
            shards: P::SHARDS,
            strategy: |t| P::strategy(t).prop_map(|c| serde_json::to_value(&c).unwrap()).boxed(),
            run: run::<P>,
            fixed: || P::fixed().iter().map(|c| serde_json::to_value(c).unwrap()).collect(),
        }
    }
}

// ---------------------------------------------------------------- panics

static PANICS: Mutex<Vec<(bool, String)>> = Mutex::new(vec![]);

/// Record panics of any thread; a panic located in the harness is a defect of the harness.
pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let (own, loc) = match info.location() {
            Some(l) => (l.file().starts_with("src/"), format!("{}:{}", l.file(), l.line())),
            None => (false, "?".into()),
        };
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let th = std::thread::current().name().unwrap_or("?").to_owned();
        eprintln!("panic on thread {th:?} at {loc}: {msg}");
        if let Ok(mut p) = PANICS.lock() {
            p.push((own, format!("thread {th:?} panicked at {loc}: {msg}")));
        }
    }));
}

pub fn take_panics() -> Vec<(bool, String)> {
    std::mem::take(&mut *PANICS.lock().unwrap_or_else(|e| e.into_inner()))
}

fn run<P: Prop>(v: &Value) -> Outcome {
    let case: P::Case = match serde_json::from_value(v.clone()) {
        Ok(c) => c,
        Err(e) => {
            return Outcome {
                verdict: Verdict::Invalid,
                msg: format!("bad case: {e}"),
                sig: String::new(),
                nontrivial: false,
                classes: vec![],
            }
        }
    };
    take_panics();
    let mut cx = Cx::default();
    let r = panic::catch_unwind(panic::AssertUnwindSafe(|| P::run(&case, &mut cx)));
    crate::interpose::disarm();
    let panics = take_panics();
    let (mut verdict, mut msg, mut sig) = match r {
        Ok(Ok(())) => (Verdict::Pass, String::new(), String::new()),
        Ok(Err(Bad::Fail(m))) => (Verdict::Fail, m, String::new()),
        Ok(Err(Bad::Slow(m))) => (Verdict::Slow, m, String::new()),
        Ok(Err(Bad::Skip(m))) => (Verdict::Skip, m, String::new()),
        Ok(Err(Bad::Known(s, m))) => (Verdict::Known, m, s),
        Err(_) => (Verdict::Broken, "panic".into(), String::new()),
    };
    if let Some((_, m)) = panics.iter().find(|(own, _)| !own) {
        if verdict != Verdict::Fail {
            verdict = Verdict::Fail;
            msg = format!("{m} ({msg})");
            sig = String::new();
        }
    } else if let Some((_, m)) = panics.first() {
        if verdict != Verdict::Fail {
            verdict = Verdict::Broken;
            msg = m.clone();
            sig = String::new();
        }
    }
    Outcome { verdict, msg, sig, nontrivial: cx.nontrivial, classes: cx.classes }
}
