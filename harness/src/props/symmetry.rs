//! P23: mirroring or transposing the image and resizing commute.

use crate::by_fmt;
use crate::engine::*;
use crate::gen::*;
use crate::judge::Tolerance;
use crate::model::*;
use crate::props::set_level;
use crate::run::*;
use std::collections::HashMap;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Sym {
    FlipX,
    FlipY,
    Rotate180,
    Transpose,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub rc: RC,
    pub sym: Sym,
}

fn map(s: Sym, x: usize, y: usize, w: usize, h: usize) -> (usize, usize) {
    match s {
        Sym::FlipX => (w - 1 - x, y),
        Sym::FlipY => (x, h - 1 - y),
        Sym::Rotate180 => (w - 1 - x, h - 1 - y),
        Sym::Transpose => (y, x),
    }
}

fn check<T: Api>(c: &Case) -> Outcome {
    set_level(&c.rc)?;
    let rc = &c.rc;
    let n = rc.n;
    let src: Img<T> = rc.src();
    let got = rc.call(&src)?;
    let mut rc2 = rc.clone();
    if c.sym == Sym::Transpose {
        (rc2.sw, rc2.sh, rc2.dw, rc2.dh) = (rc.sh, rc.sw, rc.dh, rc.dw);
    }
    let mut turned = Img::<T>::poisoned(rc2.sw, rc2.sh, n, rc.spad, rc.bit_depth());
    for y in 0..rc.sh {
        for x in 0..rc.sw {
            let (tx, ty) = map(c.sym, x, y, rc.sw, rc.sh);
            for k in 0..n {
                turned.d[ty * turned.stride + tx * n + k] = src.at(x, y, k);
            }
        }
    }
    let got2 = rc2.call(&turned)?;
    let plain = src.plain();
    let r = Reference::new(rc.func(), &plain, rc.dw, rc.dh, rc.limits());
    // clamping between the passes does not commute with swapping them
    let signed = |a: &Option<Axis>| a.as_ref().is_some_and(|a| a.exact.iter().any(|t| t.w.iter().any(|w| *w < 0.0)));
    if c.sym == Sym::Transpose && rc.integer() && rc.kind() == "both" && (signed(&r.v) || signed(&r.h)) {
        return Ok(Info::new(false).label("skipped"));
    }
    let tol = Tolerance::new(rc, &r);
    let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY);
    for v in &plain.d {
        lo = lo.min(*v);
        hi = hi.max(*v);
    }
    let range = if rc.integer() { hi - lo } else { 2.0 * rc.fmax };
    let first = got.at(0, 0, 0).bits();
    let mut varied = false;
    let (mut spread_v, mut spread_h) = (HashMap::new(), HashMap::new());
    for y in 0..rc.dh {
        for x in 0..rc.dw {
            let (tx, ty) = map(c.sym, x, y, rc.dw, rc.dh);
            for k in 0..n {
                varied |= got.at(x, y, k).bits() != first;
                let (a, b) = (got.at(x, y, k).to_f64(), got2.at(tx, ty, k).to_f64());
                let mut t = 2.0 * tol.at(x, y);
                if !((a - b).abs() <= t) {
                    // where the last bit of a position decides, either side is right
                    let both = |a: &Option<Axis>, cache: &mut HashMap<usize, f64>, i: usize| {
                        a.as_ref().map_or(0.0, |v| *cache.entry(i).or_insert_with(|| v.spread(i) + v.spread(v.out_size - 1 - i)))
                    };
                    let (sv, sh) = (both(&r.v, &mut spread_v, y), both(&r.h, &mut spread_h, x));
                    t += 2.0 * range * (sv * r.h_sum_abs(x) + sh * r.v_sum_abs(y) + sv * sh);
                    if !((a - b).abs() <= t) {
                        return Err(format!(
                            "{} {:?}: sample ({x},{y},{k}) is {a}, its image ({tx},{ty}) is {b}, tolerance {t}",
                            rc.describe(),
                            c.sym
                        ));
                    }
                }
            }
        }
    }
    Ok(Info::new(varied).label(format!("{:?}", c.sym)).label(format!("{:?}x{n}", rc.fmt)).label(format!("pass:{}", rc.kind())))
}

pub struct P23;
impl Prop for P23 {
    const ID: &'static str = "P23";
    const CASES: (u64, u64) = (100_000, 2_000_000);
    const RULE: &'static str = "a generated image and its mirror image (or transpose) are resized; the results must be \
        mirror images up to rounding; non-trivial: the output is not uniform";
    type Case = Case;
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let symmetric: Vec<u32> = (0..49)
            .filter(|f| *f != NEAREST && !filter(*f).ewa)
            .collect();
        (rc(Opt::new(ALL_FMTS).filters(&symmetric)), select(vec![Sym::FlipX, Sym::FlipY, Sym::Rotate180, Sym::Transpose]))
            .prop_map(|(mut rc, mut sym)| {
                if crate::model::filter_id(&rc.filter) == AREA && (rc.dw > rc.sw || rc.dh > rc.sh) {
                    // as in OpenCV, enlarging with the area filter leans to one side
                    sym = Sym::Transpose;
                }
                rc.apat = AlphaPattern::Content;
                if sym == Sym::Transpose {
                    // the columns become rows: as in `rc`, many rows with little padding
                    rc.spad %= 71;
                    rc.dpad %= 71;
                    (rc.sw, rc.sh, rc.dw, rc.dh) = (rc.sh, rc.sw, rc.dh, rc.dw);
                    rc.affordable();
                    (rc.sw, rc.sh, rc.dw, rc.dh) = (rc.sh, rc.sw, rc.dh, rc.dw);
                }
                Case { rc, sym }
            })
            .boxed()
    }
    fn check(c: &Case) -> Outcome {
        by_fmt!(c.rc.fmt, T => check::<T>(c))
    }
}
