//! C01, C02: labels and selector expressions against reference models.

use crate::{
    bus::{expr_strategy, Expr, Res},
    def::{Cx, Prop},
    ensure,
};
use ipmb::{Label, LabelOp};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// Element names: short ones which collide often, names which are prefixes, case variants,
/// whitespace variants or equivalent forms of each other, names around the inline string size
/// and long ones.
fn name() -> BoxedStrategy<String> {
    let long = |n: usize, c: char| {
        let mut s: String = "x".repeat(n);
        s.push(c);
        s
    };
    prop_oneof![
        10 => prop::sample::select(vec!["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"]).prop_map(str::to_owned),
        4 => prop::sample::select(vec!["", " ", "a ", " a", "A", "aa", "ab", "a\0", "a\n", "*", "a*", "!a", "a|b", "a&b"]).prop_map(str::to_owned),
        3 => prop::sample::select(vec!["é", "e\u{301}", "ß", "ss", "ẞ", "İ", "i", "I", "日本", "日", "🙂", "\u{feff}a"]).prop_map(str::to_owned),
        3 => (prop::sample::select(vec![21usize, 22, 23, 24, 31, 63, 64, 127, 250, 251, 255, 300]), prop::sample::select(vec!['x', 'y', 'é'])).prop_map(move |(n, c)| long(n, c)),
        2 => "[a-z]{1,30}",
        2 => "\\PC{0,12}",
    ]
    .boxed()
}

fn roundtrip<T: Serialize + for<'a> Deserialize<'a>>(t: &T) -> Result<T, String> {
    let v = ipmb::encode(t).map_err(|e| format!("encode: {e}"))?;
    ipmb::decode(&v).map_err(|e| format!("decode: {e}"))
}

// ------------------------------------------------------------------ C01

pub struct Algebra;

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct AlgebraCase {
    expr: Expr,
    labels: Vec<Vec<String>>,
    /// Chains of the given length to reach deep nesting: (kind, length)
    chain: Option<(u8, u16)>,
}

impl Algebra {
    fn chained(e: &Expr, chain: Option<(u8, u16)>) -> Expr {
        let mut e = e.clone();
        if let Some((kind, n)) = chain {
            let mut d = e.depth();
            for k in 0..n {
                // the nesting that is accepted when decoding is limited
                if d > 900 {
                    break;
                }
                d += if kind % 6 == 5 { 2 } else { 1 };
                let l = Expr::L(format!("n{}", k % 7));
                e = match kind % 6 {
                    0 => Expr::N(Box::new(e)),
                    1 => Expr::A(Box::new(e), Box::new(l)),
                    2 => Expr::O(Box::new(e), Box::new(l)),
                    3 => Expr::A(Box::new(l), Box::new(e)),
                    4 => Expr::O(Box::new(Expr::N(Box::new(l))), Box::new(e)),
                    _ => Expr::N(Box::new(Expr::O(Box::new(l), Box::new(e)))),
                };
            }
        }
        e
    }
}

impl Prop for Algebra {
    const ID: &'static str = "C01";
    const RULE: &'static str = "random expressions (all six constructors, up to ~24 nodes, optionally wrapped in a chain of up to 900 levels) evaluated on 1..6 random label sets (names collide, are prefixes, case or Unicode variants, or long), directly, through the builder methods, after encode/decode of expression and label, and through double negation, De Morgan, commutation and absorption; non-trivial: at least 3 nodes and the expression is true on one of the label sets and false on another or mentions a name that a label set carries";
    type Case = AlgebraCase;
    const CASES: (usize, usize) = (60_000, 1_500_000);
    const RECYCLE: usize = 100_000;

    fn strategy(_thorough: bool) -> BoxedStrategy<AlgebraCase> {
        (
            expr_strategy(name(), 6),
            prop::collection::vec(prop::collection::vec(name(), 0..12), 1..6),
            prop::option::weighted(0.1, (0u8..6, 0u16..900)),
        )
            .prop_flat_map(|(expr, labels, chain)| {
                // often use names of the expression in labels
                let mut names = vec![];
                collect(&expr, &mut names);
                if names.is_empty() {
                    names.push("a".into());
                }
                let extra = prop::collection::vec(prop::collection::vec(prop::sample::select(names), 0..6), labels.len());
                (Just(expr), Just(labels), extra, Just(chain)).prop_map(|(expr, mut labels, extra, chain)| {
                    for (l, e) in labels.iter_mut().zip(extra) {
                        l.extend(e);
                    }
                    AlgebraCase { expr, labels, chain }
                })
            })
            .boxed()
    }

    fn run(case: &AlgebraCase, cx: &mut Cx) -> Res {
        let expr = Self::chained(&case.expr, case.chain);
        let op = expr.op();
        let decoded: LabelOp = match roundtrip(&op) {
            Ok(d) => d,
            Err(e) => crate::fail!("expression does not survive encoding: {e}"),
        };
        let (mut t, mut f, mut hit) = (false, false, false);
        let mut names = vec![];
        collect(&case.expr, &mut names);
        for l in &case.labels {
            let want = expr.eval(l);
            if want {
                t = true
            } else {
                f = true
            }
            hit |= names.iter().any(|n| l.contains(n));
            let label = Label::from(l);
            ensure!(op.validate(&label) == want, "{op:?} on {l:?}: expected {want}");
            ensure!(decoded.validate(&label) == want, "decoded {decoded:?} on {l:?}: expected {want}");
            let label2: Label = match roundtrip(&label) {
                Ok(d) => d,
                Err(e) => crate::fail!("label does not survive encoding: {e}"),
            };
            ensure!(op.validate(&label2) == want, "{op:?} on decoded {l:?}: expected {want}");
            ensure!(op.clone().validate(&label) == want, "clone of {op:?} on {l:?}: expected {want}");
            // laws
            let other = Expr::leaf(l.first().map(|s| s.as_str()).unwrap_or("zz"));
            let o = other.eval(l);
            ensure!((!!op.clone()).validate(&label) == want, "double negation of {op:?} on {l:?}");
            ensure!((!op.clone()).validate(&label) != want, "negation of {op:?} on {l:?}");
            ensure!((!(op.clone().and(other.op()))).validate(&label) == (!op.clone()).or(!other.op()).validate(&label), "De Morgan of {op:?} and {other:?} on {l:?}");
            ensure!(op.clone().and(other.op()).validate(&label) == (want && o), "{op:?} and {other:?} on {l:?}");
            ensure!(other.op().and(op.clone()).validate(&label) == (want && o), "{other:?} and {op:?} on {l:?}");
            ensure!(op.clone().or(other.op()).validate(&label) == (want || o), "{op:?} or {other:?} on {l:?}");
            ensure!(other.op().or(op.clone()).validate(&label) == (want || o), "{other:?} or {op:?} on {l:?}");
            ensure!(op.clone().and(LabelOp::True).validate(&label) == want, "{op:?} and true on {l:?}");
            ensure!(!op.clone().and(LabelOp::False).validate(&label), "{op:?} and false on {l:?}");
            ensure!(op.clone().or(LabelOp::True).validate(&label), "{op:?} or true on {l:?}");
        }
        cx.nontrivial = expr.size() >= 3 && ((t && f) || hit);
        cx.class_if(t && f, "true and false");
        cx.class_if(expr.depth() > 100, "deep");
        cx.class_if(hit, "name carried");
        cx.class_if(case.labels.iter().any(|l| l.len() > 8), "label beyond inline capacity");
        Ok(())
    }
}

fn collect(e: &Expr, out: &mut Vec<String>) {
    match e {
        Expr::L(s) => out.push(s.clone()),
        Expr::N(a) => collect(a, out),
        Expr::A(a, b) | Expr::O(a, b) => {
            collect(a, out);
            collect(b, out)
        }
        _ => {}
    }
}

// ------------------------------------------------------------------ C02

pub struct Sets;

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum SetOp {
    Insert(String),
    Remove(String),
    All(Vec<String>),
    Reload,
    Rebuild(u8),
}

impl Prop for Sets {
    const ID: &'static str = "C02";
    const RULE: &'static str = "random histories of insert/remove/membership/serialize/rebuild operations on a label (up to 40 operations, names collide often, beyond 8 elements) compared after every step with an insertion-ordered list without duplicates; non-trivial: a duplicate insert or a remove of a present element took place";
    type Case = Vec<SetOp>;
    const CASES: (usize, usize) = (60_000, 1_500_000);
    const RECYCLE: usize = 100_000;

    fn strategy(_thorough: bool) -> BoxedStrategy<Self::Case> {
        let op = prop_oneof![
            8 => name().prop_map(SetOp::Insert),
            3 => name().prop_map(SetOp::Remove),
            2 => prop::collection::vec(name(), 0..5).prop_map(SetOp::All),
            1 => Just(SetOp::Reload),
            1 => (0u8..4).prop_map(SetOp::Rebuild),
        ];
        prop::collection::vec(op, 1..40).boxed()
    }

    fn run(case: &Self::Case, cx: &mut Cx) -> Res {
        let mut label = Label::default();
        let mut model: Vec<String> = vec![];
        for (i, op) in case.iter().enumerate() {
            match op {
                SetOp::Insert(s) => {
                    label.insert(s);
                    if model.contains(s) {
                        cx.nontrivial = true;
                        cx.class("duplicate insert");
                    } else {
                        model.push(s.clone());
                    }
                }
                SetOp::Remove(s) => {
                    label.remove(s);
                    if model.contains(s) {
                        cx.nontrivial = true;
                        cx.class("effective remove");
                    }
                    model.retain(|m| m != s);
                }
                SetOp::All(v) => {
                    let want = v.iter().all(|s| model.contains(s));
                    cx.class_if(want && !v.is_empty(), "membership true");
                    let got = label.all(v.iter().map(|s| s.as_str()));
                    ensure!(got == want, "step {i}: all({v:?}) on {model:?} is {got}");
                }
                SetOp::Reload => {
                    let l: Label = match roundtrip(&label) {
                        Ok(l) => l,
                        Err(e) => crate::fail!("step {i}: {e}"),
                    };
                    ensure!(l == label, "step {i}: decoded label differs: {l:?} vs {label:?}");
                    label = l;
                }
                SetOp::Rebuild(k) => {
                    let l = match k {
                        0 => Label::from(&model),
                        1 => Label::from(model.iter().chain(model.iter())),
                        2 => {
                            let mut l = ipmb::label!();
                            for m in &model {
                                l.insert(m);
                            }
                            l
                        }
                        _ => match model.as_slice() {
                            [] => ipmb::label!(),
                            [a] => ipmb::label!(a),
                            [a, b] => ipmb::label!(a, b, a),
                            [a, b, c] => ipmb::label!(a, b, c),
                            [a, b, c, rest @ ..] => {
                                let mut l = ipmb::label!(a, b, c);
                                for r in rest {
                                    l.insert(r);
                                }
                                l
                            }
                        },
                    };
                    ensure!(l == label, "step {i}: rebuilt label {l:?} differs from {label:?}");
                    if *k % 2 == 0 {
                        label = l;
                    }
                }
            }
            let got: Vec<&str> = label.iter().collect();
            ensure!(got == model, "step {i} ({op:?}): elements are {got:?}, expected {model:?}");
            ensure!(label.all(model.iter().map(|s| s.as_str())), "step {i}: all elements expected in {label:?}");
            for s in ["a", "b", "\u{1}", ""] {
                ensure!(label.all([s]) == model.iter().any(|m| m == s), "step {i}: all([{s:?}]) on {model:?}");
            }
            cx.class_if(model.len() > 8, "more than 8 elements");
        }
        Ok(())
    }
}
