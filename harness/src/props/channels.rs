//! P19: channels do not mix, and all are treated alike.

use crate::by_fmt;
use crate::engine::*;
use crate::gen::*;
use crate::model::{Plain, Reference};
use crate::op::*;
use crate::props::set_level;
use crate::run::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub rc: RC,
    pub perm: u64,
    pub keep: usize,
    pub other: u64,
}

fn permutation(n: usize, seed: u64) -> Vec<usize> {
    let mut r = Mix(seed);
    let mut p: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        p.swap(i, r.below(i as u64 + 1) as usize);
    }
    p
}

/// Float sums may be grouped differently from channel to channel, integer ones may not matter.
struct Slack<'a> {
    rc: &'a RC,
    plain: Plain,
    reference: std::cell::OnceCell<(Vec<f64>, Vec<f64>)>,
}
impl<'a> Slack<'a> {
    fn new<T: Elem>(rc: &'a RC, src: &Img<T>) -> Slack<'a> {
        Slack { rc, plain: src.plain(), reference: Default::default() }
    }
    fn allows(&self, a: f64, b: f64, x: usize, y: usize) -> bool {
        let rc = self.rc;
        if rc.fixed_point() || rc.premul || rc.same_size() {
            return false;
        }
        let (v, h) = self.reference.get_or_init(|| {
            let r = Reference::new(rc.func(), &self.plain, rc.dw, rc.dh, None);
            let v = (0..rc.dh).map(|y| r.v_sum_abs(y)).collect();
            let h = (0..rc.dw).map(|x| r.h_sum_abs(x)).collect();
            (v, h)
        });
        let s = v[y] * h[x] * rc.max();
        let t = match rc.fmt {
            Fmt::U16 => 1.0 + s * 1e-5 + h[x],
            Fmt::F32 => s * 1e-5,
            _ => s * 2.5e-3,
        };
        (a - b).abs() <= t
    }
}

fn check<T: Api>(c: &Case) -> Outcome {
    set_level(&c.rc)?;
    let rc = &c.rc;
    let src: Img<T> = rc.src();
    let got = rc.call(&src)?;
    let n = rc.n;
    // with premultiplication alpha keeps its place
    let colours = if rc.premul { 3 } else { n };
    let mut p = permutation(colours, c.perm);
    p.extend(colours..n);
    let mut moved = src.clone();
    for y in 0..rc.sh {
        for x in 0..rc.sw {
            for k in 0..n {
                moved.d[y * src.stride + x * n + k] = src.at(x, y, p[k]);
            }
        }
    }
    let m = rc.call(&moved)?;
    let slack = Slack::new(rc, &src);
    for y in 0..rc.dh {
        for x in 0..rc.dw {
            for k in 0..n {
                let (a, b) = (m.at(x, y, k), got.at(x, y, p[k]));
                if a.bits() != b.bits() && !slack.allows(a.to_f64(), b.to_f64(), x, y) {
                    return Err(format!(
                        "{}: channel {} moved to place {k} gives {a:?} at ({x},{y}) instead of {b:?}",
                        rc.describe(),
                        p[k]
                    ));
                }
            }
        }
    }
    // other channels get other content
    let keep = c.keep % colours;
    let alt: Img<T> = RC { seed: c.other, pat: Pattern::Noise, ..rc.clone() }.src();
    let mut mixed = src.clone();
    for y in 0..rc.sh {
        for x in 0..rc.sw {
            for k in 0..colours {
                if k != keep {
                    mixed.d[y * src.stride + x * n + k] = alt.at(x, y, k);
                }
            }
        }
    }
    let m = rc.call(&mixed)?;
    for y in 0..rc.dh {
        for x in 0..rc.dw {
            let (a, b) = (m.at(x, y, keep), got.at(x, y, keep));
            if a.bits() != b.bits() && !slack.allows(a.to_f64(), b.to_f64(), x, y) {
                return Err(format!(
                    "{}: channel {keep} is {a:?} at ({x},{y}) instead of {b:?} once the other channels changed",
                    rc.describe()
                ));
            }
        }
    }
    let first = got.at(0, 0, 0).bits();
    let varied = got.pixels().iter().any(|v| *v != first);
    Ok(Info::new(varied && colours > 1).label(format!("{:?}x{n}", rc.fmt)).label(format!("pass:{}", rc.kind())))
}

pub struct P19;
impl Prop for P19 {
    const ID: &'static str = "P19";
    const CASES: (u64, u64) = (150_000, 2_000_000);
    const RULE: &'static str = "a generated image is resized, then again with its channels permuted, then with other \
        content in all channels but one; results must follow bit for bit, floats and 16-bit samples deeper than 12 bits up to rounding \
        (with premultiplication alpha stays); \
        non-trivial: at least two channels and an output that is not uniform";
    type Case = Case;
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        (rc(Opt::new(ALL_FMTS).filters(&all_filters()).ns(&[2, 3, 4]).premul(None).cap(5000)), any::<u64>(), 0usize..4, any::<u64>())
            .prop_map(|(rc, perm, keep, other)| Case { rc, perm, keep, other })
            .boxed()
    }
    fn check(c: &Case) -> Outcome {
        by_fmt!(c.rc.fmt, T => check::<T>(c))
    }
}
