//! P22: an output pixel depends on its filter window only, and blends it convexly when no weight is
//! negative.

use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::op::*;
use crate::props::set_level;
use crate::run::*;
use crate::with_data;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub op: Op,
    /// the part of the source that stays, in 1/1000 of each side
    pub part: (u32, u32, u32, u32),
    pub other: u64,
    /// floats: not-a-number and infinities outside
    pub poison: bool,
}

/// source range an output may read on one axis: every admissible rounding of its window
fn window(a: &Option<Axis>, i: usize) -> (usize, usize) {
    match a {
        None => (i, i + 1),
        Some(a) => a.reach(i),
    }
}

pub struct P22;
impl Prop for P22 {
    const ID: &'static str = "P22";
    const CASES: (u64, u64) = (80_000, 1_500_000);
    const RULE: &'static str = "a generated call is repeated after everything outside a generated source rectangle was \
        replaced (floats: also by NaN and infinities); every output whose window lies inside must keep its bits; for \
        kernels without negative weights every output must lie between the extremes of its window; non-trivial: the \
        rectangle fixes some output, leaves something out, and some other output changed, or the convexity was tested \
        on a non-uniform window";
    type Case = Case;
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let part = (0u32..900, 0u32..900, 100u32..=1000, 100u32..=1000);
        (op(Opt::new(ALL_FMTS).premul(None).cap(5000), (10, 1, 0)), part, any::<u64>(), prop::bool::weighted(0.4))
            .prop_map(|(op, part, other, poison)| Case { op, part, other, poison })
            .boxed()
    }
    fn check(c: &Case) -> Outcome {
        let op = &c.op;
        let rc = &op.rc;
        set_level(rc)?;
        let (mut src, n) = (op.src(), op.stored_n());
        if rc.premul {
            // two alpha values stay in the kept part and elsewhere, so both calls are premultiplied
            with_data!(&mut src, i => {
                for y in 0..i.h {
                    let o = y * i.stride + 3;
                    i.d[o] = Elem::from_f64(rc.max() * if y % 2 == 0 { 1.0 } else { 0.5 });
                }
            });
        }
        let got = {
            let mut d = op.dst();
            op.apply(&op.tool(), &src, &mut d).map_err(|e| format!("rejected: {e:?}"))?;
            d
        };
        let zero = Plain { w: rc.sw, h: rc.sh, n: 1, d: vec![0.0; rc.sw * rc.sh] };
        let r = Reference::new(rc.func(), &zero, rc.dw, rc.dh, None);
        let wx: Vec<_> = (0..rc.dw).map(|i| window(&r.h, i)).collect();
        let wy: Vec<_> = (0..rc.dh).map(|i| window(&r.v, i)).collect();

        let cut = |a: u32, l: u32, size: usize| {
            let lo = (a as usize * size / 1000).min(size - 1);
            (lo, (lo + (l as usize * size).div_ceil(1000)).min(size))
        };
        let (x0, x1) = cut(c.part.0, c.part.2, rc.sw);
        let (y0, y1) = cut(c.part.1, c.part.3, rc.sh);
        let alt = Op { rc: RC { seed: c.other, pat: Pattern::Noise, apat: AlphaPattern::Noise, ..rc.clone() }, ..op.clone() }.src();
        let mut changed = src.clone();
        let outside = |x: usize, y: usize| x < x0 || x >= x1 || y < y0 || y >= y1;
        macro_rules! replace {
            ($t:ty) => {{
                let (a, b) = (<$t>::get(&alt), <$t>::get_mut(&mut changed));
                for y in 0..rc.sh {
                    for x in 0..rc.sw {
                        if outside(x, y) {
                            for k in 0..n {
                                let o = y * b.stride + x * n + k;
                                b.d[o] = if c.poison && !<$t>::INTEGER { <$t>::poison(o) } else { a.d[o] };
                            }
                        }
                    }
                }
            }};
        }
        match &src {
            Data::U8(_) => replace!(u8),
            Data::U16(_) => replace!(u16),
            Data::F32(_) => replace!(f32),
            #[cfg(feature = "f16")]
            Data::F16(_) => replace!(F16),
        }
        if rc.premul {
            // the first column keeps its alpha
            macro_rules! alpha {
                ($t:ty) => {{
                    let (a, b) = (<$t>::get(&src).clone(), <$t>::get_mut(&mut changed));
                    for y in 0..rc.sh {
                        b.d[y * b.stride + 3] = a.at(0, y, 3);
                    }
                }};
            }
            match &src {
                Data::U8(_) => alpha!(u8),
                Data::U16(_) => alpha!(u16),
                Data::F32(_) => alpha!(f32),
                #[cfg(feature = "f16")]
                Data::F16(_) => alpha!(F16),
            }
        }
        // premultiplication is decided on the whole image; only compare when both varied
        let comparable = !rc.premul || rc.sh > 1;
        let (mut fixed, mut moved) = (0usize, false);
        if comparable {
            let mut d = op.dst();
            op.apply(&op.tool(), &changed, &mut d).map_err(|e| format!("rejected: {e:?}"))?;
            let (a, b) = (got.pixels(), d.pixels());
            moved = a != b;
            for y in 0..rc.dh {
                if wy[y].0 < y0 || wy[y].1 > y1 {
                    continue;
                }
                for x in 0..rc.dw {
                    if wx[x].0 < x0 || wx[x].1 > x1 {
                        continue;
                    }
                    fixed += 1;
                    for k in 0..n {
                        let o = (y * rc.dw + x) * n + k;
                        if a[o] != b[o] {
                            return Err(format!(
                                "{}: sample ({x},{y},{k}) reads source x {:?} y {:?} but changed from {:#x} to {:#x} when only pixels outside x {:?} y {:?} did",
                                op.describe(), wx[x], wy[y], a[o], b[o], (x0, x1), (y0, y1)
                            ));
                        }
                    }
                }
            }
        }
        // convexity
        let all = |a: &Option<Axis>, n: usize| a.as_ref().map_or(true, |a| (0..n).all(|i| a.exact[i].w.iter().all(|w| *w >= 0.0)));
        let mut convex = false;
        if !rc.premul && all(&r.h, rc.dw) && all(&r.v, rc.dh) {
            let (s, g): (Plain, Plain) = match op.kind {
                Kind::Packed(p) => (p.decode(u8::get(&src)).plain(), p.decode(u8::get(&got)).plain()),
                _ => (with_data!(&src, i => i.plain()), with_data!(&got, i => i.plain())),
            };
            let slack = match rc.fmt {
                Fmt::U8 | Fmt::U16 if rc.fixed_point() => 0.0,
                Fmt::U16 => 1.0,
                Fmt::F32 => rc.fmax * 1e-5,
                _ => rc.fmax * 2e-3,
            };
            for y in 0..rc.dh {
                for x in 0..rc.dw {
                    for k in 0..rc.n {
                        let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY);
                        for sy in wy[y].0..wy[y].1 {
                            for sx in wx[x].0..wx[x].1 {
                                let v = s.at(sx, sy, k);
                                lo = lo.min(v);
                                hi = hi.max(v);
                            }
                        }
                        convex |= hi > lo;
                        let v = g.at(x, y, k);
                        if !(v >= lo - slack && v <= hi + slack) {
                            return Err(format!(
                                "{}: sample ({x},{y},{k}) is {v}, outside the range {lo}..{hi} of its window",
                                op.describe()
                            ));
                        }
                    }
                }
            }
        }
        Ok(Info::new((fixed > 0 && moved) || convex)
            .label(op.family())
            .label(format!("pass:{}", rc.kind()))
            .label(if convex { "convex" } else { "signed weights" }))
    }
}
