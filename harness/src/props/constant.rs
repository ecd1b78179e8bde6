//! P08: constant images stay constant, and integer samples stay within their depth.

use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::op::*;
use crate::props::set_level;
use crate::run::*;
use crate::with_data;
use proptest::strategy::BoxedStrategy;

pub struct P08;
impl Prop for P08 {
    const ID: &'static str = "P08";
    const CASES: (u64, u64) = (160_000, 4_000_000);
    const RULE: &'static str = "a generated image is resized; when every channel is constant the output must be the \
        same constant (exactly for up to 12 bits, within rounding otherwise), and integer output never exceeds the \
        largest value of its depth; non-trivial: the constant is neither black nor white, or the content varies";
    type Case = Op;
    fn strategy(_: Tier) -> BoxedStrategy<Op> {
        use Pattern::*;
        op(
            Opt::new(ALL_FMTS)
                .premul(None)
                .pats(&[Zero, Max, Constant, Constant, Constant, Constant, Extremes])
                .apats(&[AlphaPattern::Opaque, AlphaPattern::Constant, AlphaPattern::Transparent, AlphaPattern::Binary]),
            (8, 1, 0),
        )
    }
    fn check(c: &Op) -> Outcome {
        set_level(&c.rc)?;
        let rc = &c.rc;
        let src = c.src();
        let got = c.run()?;
        let plain = rc.plain();
        let n = rc.n;
        let constant = plain.d.chunks(n).all(|p| p == &plain.d[..n]);
        let got: Plain = match c.kind {
            Kind::Packed(p) => p.decode(u8::get(&got)).plain(),
            _ => with_data!(&got, i => i.plain()),
        };
        if rc.integer() {
            if let Some(v) = got.d.iter().find(|v| **v > rc.max()) {
                return Err(format!("{}: a sample is {v}, above {}", c.describe(), rc.max()));
            }
        }
        if !constant {
            return Ok(Info::new(true).label("varied"));
        }
        let want: Vec<f64> = match c.kind {
            Kind::Packed(_) => plain.d[..n].to_vec(),
            _ => with_data!(&src, i => i.plain()).d[..n].to_vec(),
        };
        // how much the rounding of one pass is amplified, and how long the windows are
        let one = Plain { w: rc.sw, h: rc.sh, n: 1, d: vec![0.0; rc.sw * rc.sh] };
        let r = Reference::new(rc.func(), &one, rc.dw, rc.dh, None);
        let taps = (r.taps_v() + r.taps_h()) as f64;
        for y in 0..rc.dh {
            for x in 0..rc.dw {
                let s = r.v_sum_abs(y) * r.h_sum_abs(x);
                for ch in 0..n {
                    let (g, w) = (got.at(x, y, ch), want[ch]);
                    let tol = match rc.fmt {
                        Fmt::U8 | Fmt::U16 if rc.fixed_point() => 0.0,
                        Fmt::U16 => (w * s * taps * 1.2e-7).floor() + if taps > 64.0 || s > 4.0 { 1.0 } else { 0.0 },
                        Fmt::F32 => w.abs() * s * (2e-6 + taps * 1.2e-7),
                        _ => w.abs() * (s * (taps * 1.2e-7) + 2.1e-3 * s + if rc.premul { 4e-3 } else { 0.0 }) + 1e-7,
                    };
                    if rc.premul && ch < 3 && want[3] == 0.0 {
                        continue;
                    }
                    if !((g - w).abs() <= tol) {
                        return Err(format!(
                            "{}: constant {w} becomes {g} at ({x},{y},{ch}), tolerance {tol}",
                            c.describe()
                        ));
                    }
                }
            }
        }
        let mid = want.iter().any(|w| *w != 0.0 && *w != rc.max());
        Ok(Info::new(mid).label(c.family()).label(format!("pass:{}", rc.kind())))
    }
}
