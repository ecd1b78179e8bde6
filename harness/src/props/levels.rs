//! P11: every CPU and both workload strategies give the same picture, up to rounding.

use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::op::*;
use crate::props::set_level;
use crate::with_data;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub op: Op,
    pub other: String,
    pub flip_strategy: bool,
}

/// What rounding leaves open: one unit a pass.
struct Limits {
    unit: f64,
    float: bool,
    v: Vec<f64>,
    h: Vec<f64>,
}
impl Limits {
    fn new(rc: &RC, packed: bool) -> Limits {
        let v = (rc.sh != rc.dh && rc.func() != NEAREST).then(|| Axis::new(rc.func(), rc.sh, rc.dh));
        let h = (rc.sw != rc.dw && rc.func() != NEAREST).then(|| Axis::new(rc.func(), rc.sw, rc.dw));
        let sums = |a: &Option<Axis>, n: usize| match a {
            Some(a) => (0..n).map(|i| a.sum_abs(i)).collect(),
            None => vec![0.0; n],
        };
        // sums over long windows collect the rounding of every term
        let long = 1.2e-7 * [&v, &h].iter().map(|a| a.as_ref().map_or(0, |a| a.max_taps)).sum::<usize>() as f64;
        // integer kernels up to 12 bits do the same sums everywhere; alpha passes round once more
        let unit = match rc.fmt {
            Fmt::U8 => 1.0,
            Fmt::U16 if rc.depth > 12 => 1.0 + rc.max() * long,
            Fmt::U16 if packed || rc.premul => 1.0,
            Fmt::U16 => 0.0,
            Fmt::F32 => rc.fmax * (4e-6 + long),
            _ => rc.fmax * 1.01e-3,
        };
        Limits { unit, float: !rc.integer(), v: sums(&v, rc.dh), h: sums(&h, rc.dw) }
    }
    fn at(&self, x: usize, y: usize) -> f64 {
        let (v, h) = (self.v[y], self.h[x]);
        // integers round to whole units whatever the weights; floats err in proportion to them
        let e = match (v > 0.0, h > 0.0) {
            (true, true) => h + 1.0,
            (true, false) | (false, true) => 1.0,
            _ => 0.0,
        };
        self.unit * if self.float { v.max(1.0) * h.max(1.0) * e } else { (e + 1e-6).floor() }
    }
}

pub struct P11;
impl Prop for P11 {
    const ID: &'static str = "P11";
    const CASES: (u64, u64) = (60_000, 2_000_000);
    const RULE: &'static str = "one generated call is made on two of nine simulated CPU levels, with the same or the other \
        workload strategy; results must agree up to the rounding of the format; non-trivial: the levels or strategies \
        differ and the output is not uniform";
    type Case = Case;
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        (op(Opt::new(ALL_FMTS).filters(&all_filters()).premul(None), (10, 2, 0)), level(), prop::bool::weighted(0.3))
            .prop_map(|(op, other, flip_strategy)| Case { op, other, flip_strategy })
            .boxed()
    }
    fn check(c: &Case) -> Outcome {
        let a = &c.op;
        let mut b = a.clone();
        b.rc.level = c.other.clone();
        b.rc.quality ^= c.flip_strategy;
        set_level(&a.rc)?;
        let ga = a.run()?;
        set_level(&b.rc)?;
        let gb = b.run()?;
        let rc = &a.rc;
        let view = |d: &Data| -> Plain {
            match a.kind {
                Kind::Packed(p) => p.decode(u8::get(d)).plain(),
                _ => with_data!(d, i => i.plain()),
            }
        };
        let (pa, pb) = (view(&ga), view(&gb));
        let limits = Limits::new(rc, matches!(a.kind, Kind::Packed(_)));
        for y in 0..rc.dh {
            for x in 0..rc.dw {
                for k in 0..rc.n {
                    let (p, q) = (pa.at(x, y, k), pb.at(x, y, k));
                    if p == q {
                        continue;
                    }
                    let mut t = limits.at(x, y);
                    if rc.premul && k < 3 {
                        // dividing by alpha magnifies what its and the colour's rounding leave open
                        let al = pa.at(x, y, 3).abs().min(pb.at(x, y, 3).abs()) - t;
                        if al <= 0.0 {
                            continue;
                        }
                        let m = rc.max();
                        t = t + 2.0 * t * (1.0 + p.abs().max(q.abs()) / m) * m.max(1.0) / al;
                    }
                    if !((p - q).abs() <= t) {
                        return Err(format!(
                            "{}: sample ({x},{y},{k}) is {p}, but {q} on {}{}, tolerance {t}",
                            a.describe(),
                            c.other,
                            if c.flip_strategy { " with the other workload strategy" } else { "" }
                        ));
                    }
                }
            }
        }
        Ok(Info::new((c.other != rc.level || c.flip_strategy) && ga.varied()).label(a.family()))
    }
}
