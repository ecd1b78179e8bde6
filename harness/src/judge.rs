//! Comparison of a result with the reference model.
//!
//! The tolerance is what the storage format and the documented arithmetic allow, not what the code
//! happens to produce: half a unit for each rounding, plus the representation error of the
//! weights (15 fractional bits for fixed-point formats, f32 otherwise).

use crate::gen::*;
use crate::model::*;
use crate::run::*;

/// Tolerance of one pass for one output, in sample units.
fn pass(c: &RC, axis: &Axis, i: usize, range: f64) -> f64 {
    let taps = axis.exact[i].w.len() as f64;
    let s = axis.sum_abs(i);
    match c.fmt {
        Fmt::U8 | Fmt::U16 if c.fixed_point() => {
            // every weight is off by at most 2^-16, one of them takes the rest of the sum
            let mut e = 0.5 + taps * range / 65536.0 + 0.02;
            if c.fmt == Fmt::U8 && !c.quality {
                // products may be kept with 6 fractional bits
                e += taps * 0.5 / 64.0;
            }
            // known finding: a weight above 1 does not fit 15 fractional bits
            if c.strict {
                e
            } else {
                e + 2.0 * axis.excess(i) * range
            }
        }
        Fmt::U16 => 0.5 + c.max() * s * (2e-6 + taps * 6e-8) + 0.02,
        Fmt::F32 => c.fmax * s * (5e-5 + taps * 6e-8),
        // stored with 11 significant bits; weights and sums in f32, or in f16 where the CPU has it
        _ => c.fmax * s * (1.2e-3 + taps * 6e-8),
    }
}

pub struct Tolerance {
    v: Option<Vec<f64>>,
    h: Option<Vec<f64>>,
    hs: Option<Vec<f64>>,
}
impl Tolerance {
    pub fn new(c: &RC, r: &Reference) -> Tolerance {
        let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY);
        for v in &r.src.d {
            lo = lo.min(*v);
            hi = hi.max(*v);
        }
        let range = hi - lo;
        Tolerance {
            v: r.v.as_ref().map(|a| (0..a.out_size).map(|i| pass(c, a, i, range)).collect()),
            h: r.h.as_ref().map(|a| {
                // the intermediate image may overshoot the range of the source
                let s = r.v.as_ref().map_or(1.0, |a| (0..a.out_size).map(|i| a.sum_abs(i)).fold(1.0, f64::max));
                (0..a.out_size).map(|i| pass(c, a, i, range * s)).collect()
            }),
            hs: r.h.as_ref().map(|a| (0..a.out_size).map(|i| a.sum_abs(i)).collect()),
        }
    }
    pub fn at(&self, x: usize, y: usize) -> f64 {
        let e1 = self.v.as_ref().map_or(0.0, |v| v[y]);
        match (&self.h, &self.hs) {
            (Some(h), Some(s)) => e1 * s[x] + h[x],
            _ => e1,
        }
    }
}

#[derive(Default, Debug)]
pub struct Stats {
    pub worst: f64,
    /// worst error in units of the tolerance
    pub ratio: f64,
    pub distinct: bool,
    pub at: (usize, usize, usize),
}

/// Compares an image with the reference resize of `src`.
pub fn compare<T: Elem>(c: &RC, src: &Plain, got: &Img<T>) -> Result<Stats, String> {
    let r = Reference::new(c.func(), src, c.dw, c.dh, c.limits());
    let tol = Tolerance::new(c, &r);
    let mut st = Stats::default();
    let first = got.at(0, 0, 0).bits();
    for y in 0..c.dh {
        for x in 0..c.dw {
            for ch in 0..c.n {
                let g = got.at(x, y, ch);
                st.distinct |= g.bits() != first;
                let g = g.to_f64();
                let want = r.value(x, y, ch);
                let mut e = (g - want).abs();
                let t = tol.at(x, y);
                if !(e <= t) {
                    // the value need not be monotone between the alternatives
                    let (lo, hi) = r.hull(x, y, ch);
                    let (lo, hi) = (2.0 * lo - hi, 2.0 * hi - lo);
                    e = (g - hi).max(lo - g).max(0.0);
                    if !(e <= t) {
                        return Err(format!(
                            "{}: sample ({x},{y},{ch}) is {g}, expected {want:.6} ± {t:.6} (in [{lo:.6}, {hi:.6}])",
                            c.describe()
                        ));
                    }
                }
                if e > st.worst {
                    st.worst = e;
                }
                if e / t > st.ratio {
                    st.ratio = e / t;
                    st.at = (x, y, ch);
                }
            }
        }
    }
    Ok(st)
}
