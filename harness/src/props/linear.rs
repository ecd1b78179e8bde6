//! P24: resizing is a linear operation.

use crate::by_fmt;
use crate::engine::*;
use crate::gen::*;
use crate::judge::Tolerance;
use crate::model::*;
use crate::props::set_level;
use crate::run::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub rc: RC,
    pub other: u64,
    /// power of two
    pub scale: i32,
    pub negate: bool,
}

fn check<T: Api>(c: &Case) -> Outcome {
    set_level(&c.rc)?;
    let rc = &c.rc;
    let src: Img<T> = rc.src();
    let got = rc.call(&src)?;
    let plain = src.plain();
    let r = Reference::new(rc.func(), &plain, rc.dw, rc.dh, rc.limits());
    let tol = Tolerance::new(rc, &r);
    let first = got.at(0, 0, 0).bits();
    let varied = got.pixels().iter().any(|v| *v != first);
    let apply = |f: &dyn Fn(usize, f64) -> f64| -> Result<Img<T>, String> {
        let p = Plain { d: plain.d.iter().enumerate().map(|(i, v)| f(i, *v)).collect(), ..plain.clone() };
        let i: Img<T> = Img::from_plain(&p, rc.spad, rc.bit_depth());
        rc.call(&i)
    };
    let each = |g: &Img<T>, want: &dyn Fn(usize, usize, usize) -> f64, t: &dyn Fn(usize, usize, f64) -> f64, what: &str| {
        for y in 0..rc.dh {
            for x in 0..rc.dw {
                for k in 0..rc.n {
                    let (a, b) = (g.at(x, y, k).to_f64(), want(x, y, k));
                    if !((a - b).abs() <= t(x, y, b)) {
                        return Err(format!(
                            "{}: {what}: sample ({x},{y},{k}) is {a}, expected {b} ± {}",
                            rc.describe(),
                            t(x, y, b)
                        ));
                    }
                }
            }
        }
        Ok(())
    };
    if rc.integer() {
        let m = rc.max();
        let neg = apply(&|_, v| m - v)?;
        each(&neg, &|x, y, k| m - got.at(x, y, k).to_f64(), &|x, y, _| 2.0 * tol.at(x, y), "complement")?;
    } else {
        let f = (if c.negate { -1.0 } else { 1.0 }) * 2f64.powi(c.scale);
        let scaled = apply(&|_, v| v * f)?;
        // a power of two changes no rounding, except among subnormals
        let sub = |x: usize, y: usize| {
            let tiny = if rc.fmt == Fmt::F16 { 6e-8 } else { 1.5e-45 };
            let taps = 2.0 + (r.taps_v() + r.taps_h()) as f64;
            tiny * (1.0 + f.abs()) * (2.0 + r.v_sum_abs(y)) * (1.0 + r.h_sum_abs(x)) * taps
        };
        let half = rc.fmt == Fmt::F16;
        let sub = |x: usize, y: usize, b: f64| sub(x, y) + if half { b.abs() * 1e-3 } else { 0.0 };
        each(&scaled, &|x, y, k| got.at(x, y, k).to_f64() * f, &sub, &format!("content times {f}"))?;
        let other: Img<T> = RC { seed: c.other, pat: Pattern::Noise, ..rc.clone() }.src();
        let other = other.plain();
        let b = apply(&|i, _| other.d[i])?;
        let sum = apply(&|i, v| v + other.d[i])?;
        each(
            &sum,
            &|x, y, k| got.at(x, y, k).to_f64() + b.at(x, y, k).to_f64(),
            &|x, y, _| 4.0 * tol.at(x, y),
            "sum of two images",
        )?;
    }
    Ok(Info::new(varied).label(format!("{:?}x{}", rc.fmt, rc.n)).label(format!("pass:{}", rc.kind())))
}

pub struct P24;
impl Prop for P24 {
    const ID: &'static str = "P24";
    const CASES: (u64, u64) = (80_000, 1_500_000);
    const RULE: &'static str = "float images: content times a power of two (and negated) must scale every output bit \
        for bit, and the sum of two images resizes to the sum; integer images: the complement resizes to the \
        complement; non-trivial: the output is not uniform";
    type Case = Case;
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let fmts: Vec<Fmt> = ALL_FMTS.iter().chain(&[Fmt::F32, Fmt::F32]).copied().collect();
        (rc(Opt::new(&fmts)), any::<u64>(), -12i32..=12, any::<bool>())
            .prop_map(|(rc, other, scale, negate)| {
                let scale = if rc.fmt == Fmt::F16 { scale.clamp(-2, 2) } else { scale };
                Case { rc, other, scale, negate }
            })
            .boxed()
    }
    fn check(c: &Case) -> Outcome {
        by_fmt!(c.rc.fmt, T => check::<T>(c))
    }
}
