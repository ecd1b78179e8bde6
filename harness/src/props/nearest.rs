//! P07: nearest-neighbour resizing copies, bit for bit, the source pixel under each output centre.

use crate::engine::*;
use crate::gen::*;
use crate::model::NEAREST;
use crate::op::*;
use crate::props::set_level;
use proptest::strategy::BoxedStrategy;

/// source positions whose centre is the nearest to the centre of output `i` (two on a tie, and two
/// when f32 cannot tell)
fn candidates(i: usize, from: usize, to: usize) -> (usize, usize) {
    let p = (2 * i + 1) as f64 * from as f64 / (2 * to) as f64;
    let e = p * 4e-7;
    let lo = (p - e).floor();
    (lo.max(0.0) as usize, ((p + e).floor() as usize).min(from - 1))
}

pub struct P07;
impl Prop for P07 {
    const ID: &'static str = "P07";
    const CASES: (u64, u64) = (300_000, 4_000_000);
    const RULE: &'static str = "a generated image of every format (u8, u16, f32, f16, packed) is resized with the \
        nearest filter; one source column per output column and one source row per output row must explain every \
        output pixel bit for bit; non-trivial: the output holds at least two different samples";
    type Case = Op;
    fn strategy(_: Tier) -> BoxedStrategy<Op> {
        op(Opt::new(ALL_FMTS).filters(&[NEAREST]).premul(None).cap(20_000), (8, 1, 0))
    }
    fn check(c: &Op) -> Outcome {
        set_level(&c.rc)?;
        let src = c.src();
        let mut dst = c.dst();
        c.apply(&c.tool(), &src, &mut dst).map_err(|e| format!("valid resize rejected: {e:?}"))?;
        let (s, d) = (src.pixels(), dst.pixels());
        let n = c.stored_n();
        let RC { sw, sh, dw, dh, .. } = c.rc;
        // the columns and rows still able to explain what was seen
        for y in 0..dh {
            let (y0, y1) = candidates(y, sh, dh);
            for x in 0..dw {
                let (x0, x1) = candidates(x, sw, dw);
                let got = &d[(y * dw + x) * n..][..n];
                let ok = (y0..=y1).any(|sy| (x0..=x1).any(|sx| &s[(sy * sw + sx) * n..][..n] == got));
                if !ok {
                    return Err(format!(
                        "{}: pixel ({x},{y}) is {got:x?}, source pixel ({x0}..={x1},{y0}..={y1}) starts with {:x?}",
                        c.describe(),
                        &s[(y0 * sw + x0) * n..][..n]
                    ));
                }
            }
        }
        Ok(Info::new(dst.varied()).label(c.family()).label(format!("pass:{}", c.rc.kind())))
    }
}
