//! P06: alpha-aware resizing.

use crate::by_fmt;
use crate::engine::*;
use crate::gen::*;
use crate::judge::*;
use crate::model::*;
use crate::props::set_level;
use crate::run::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;

/// Every colour of `got` against Σ w·c·a / Σ w·a, where the denominator is the alpha found in the
/// output itself (checked separately against the plain resize of the alpha channel).
fn check<T: Api>(c: &RC) -> Outcome {
    let level = set_level(c)?;
    let src: Img<T> = c.src();
    let plain = src.plain();
    let got = c.call(&src)?;

    let unit = if c.integer() { c.max() } else { 1.0 };
    let alpha0 = plain.d[3];
    let constant = plain.d.chunks(4).all(|p| p[3] == alpha0);

    // alpha is resized as any channel
    let only = |p: &Plain, k: usize| Plain { w: p.w, h: p.h, n: 1, d: p.d.chunks(4).map(|q| q[k]).collect() };
    let a_src = only(&plain, 3);
    let one = RC { n: 1, ..c.clone() };
    let mut a_got = Img::<T>::poisoned(c.dw, c.dh, 1, 0, c.bit_depth());
    for y in 0..c.dh {
        for x in 0..c.dw {
            a_got.d[y * c.dw + x] = got.at(x, y, 3);
        }
    }
    compare(&one, &a_src, &a_got).map_err(|m| format!("alpha channel of {}: {m}", c.describe()))?;

    if constant && c.fmt != Fmt::F16 {
        // nothing to weigh: colours as without premultiplication
        compare(c, &plain, &got).map_err(|m| format!("constant alpha {alpha0}: {m}"))?;
        return Ok(Info::new(false).label("constant alpha").label(format!("level:{level}")));
    }

    // premultiplied colours, as stored
    let mut pm = plain.clone();
    for p in pm.d.chunks_mut(4) {
        for k in 0..3 {
            p[k] = p[k] * p[3] / unit;
        }
    }
    let r = Reference::new(c.func(), &pm, c.dw, c.dh, c.limits());
    // the tolerance follows the magnitude of what is resized
    let big = pm.d.iter().fold(0.0f64, |m, v| m.max(v.abs()));
    let like = RC { fmax: big, ..c.clone() };
    let tol = Tolerance::new(&like, &r);
    let mut colours = false;
    for y in 0..c.dh {
        for x in 0..c.dw {
            let a = got.at(x, y, 3).to_f64();
            // storing the premultiplied source costs one rounding more
            let stored = match c.fmt {
                Fmt::U8 | Fmt::U16 => 0.51,
                Fmt::F32 => big * 1e-6,
                Fmt::F16 => big * 1e-3,
            } * r.v_sum_abs(y)
                * r.h_sum_abs(x);
            let t = tol.at(x, y) + stored;
            for ch in 0..3 {
                let v = got.at(x, y, ch).to_f64();
                let verdict = |lo: f64, hi: f64| -> Option<String> {
                    if c.integer() {
                        if a == 0.0 {
                            return None; // no colour to recover
                        }
                        let slack = 0.5 + if c.fmt == Fmt::U16 { unit * 2e-6 + 2e-3 } else { 0.002 + 4e-4 * v };
                        let l = ((lo - t) * unit / a - slack).clamp(0.0, unit);
                        let h = ((hi + t) * unit / a + slack).clamp(0.0, unit);
                        (v < l - 1e-9 || v > h + 1e-9).then(|| format!("expected {l:.3}..{h:.3}"))
                    } else {
                        let small = c.fmax * if c.fmt == Fmt::F16 { 0.02 } else { 1e-6 };
                        if a.abs() < small {
                            return None;
                        }
                        let back = v * a;
                        let slack = back.abs() * if c.fmt == Fmt::F16 { 2e-3 } else { 1e-5 };
                        (!(back >= lo - t - slack && back <= hi + t + slack))
                            .then(|| format!("colour times alpha is {back}, expected {lo}..{hi} ± {}", t + slack))
                    }
                };
                let want = r.value(x, y, ch);
                if verdict(want, want).is_some() {
                    let (lo, hi) = r.hull(x, y, ch);
                    let (lo, hi) = (2.0 * lo - hi, 2.0 * hi - lo);
                    if let Some(m) = verdict(lo, hi) {
                        return Err(format!(
                            "{} {:?} premultiplied: sample ({x},{y},{ch}) is {v} at alpha {a}; {m} (premultiplied value {want:.4} ± {t:.4})",
                            c.describe(),
                            c.apat
                        ));
                    }
                }
                colours |= v != 0.0 && a != 0.0;
            }
        }
    }
    Ok(Info::new(colours)
        .label(format!("level:{level}"))
        .label(format!("fmt:{:?}", c.fmt))
        .label(format!("alpha:{:?}", c.apat))
        .label(format!("pass:{}", c.kind())))
}

/// A row so wide that 32 bits do not hold the sum of what its alpha differs by from that of the first pixel. It is
/// doubled or copied along the axis, so that single precision holds every position.
pub fn wide_row(c: &mut RC, more: usize) {
    c.fmt = Fmt::U16;
    c.n = 4;
    c.depth = 16;
    c.apat = AlphaPattern::FirstOff;
    c.premul = true;
    (c.sw, c.sh, c.dh) = if more < 10 { (131_073, 1, 1) } else { (32_769 + c.sw % 15, 1, 1) };
    c.dw = c.sw * (1 + more % 2);
    c.dh = 2 - more % 2;
}

pub struct P06;
impl Prop for P06 {
    const ID: &'static str = "P06";
    const CASES: (u64, u64) = (100_000, 8_000_000);
    const RULE: &'static str = "a generated four-channel image (u8, u16 of every depth, f32, f16; 9 alpha patterns) is \
        resized with premultiplication; every colour is compared with the alpha-weighted f64 reference and alpha with \
        the plain one; non-trivial: alpha varies and some output colour is not zero";
    type Case = RC;
    fn strategy(_: Tier) -> BoxedStrategy<RC> {
        (rc(Opt::new(ALL_FMTS).ns(&[4]).premul(Some(true))), 0u32..9000, 0usize..15)
            .prop_map(|(mut c, special, more)| {
                if special >= 8999 {
                    wide_row(&mut c, more);
                }
                if c.fmt == Fmt::F16 {
                    // products must stay within half precision
                    c.fmax = c.fmax.min(100.0);
                }
                c
            })
            .boxed()
    }
    fn check(c: &RC) -> Outcome {
        by_fmt!(c.fmt, T => check::<T>(c))
    }
}
