//! P14: resizing to the same size is a copy.

use crate::engine::*;
use crate::gen::*;
use crate::op::*;
use crate::props::set_level;
use proptest::strategy::BoxedStrategy;

pub struct P14;
impl Prop for P14 {
    const ID: &'static str = "P14";
    const CASES: (u64, u64) = (500_000, 4_000_000);
    const RULE: &'static str = "a generated image is resized to its own size by any entry point with any filter, with \
        and without premultiplication; every pixel must be copied bit for bit; non-trivial: the image is not uniform";
    type Case = Op;
    fn strategy(_: Tier) -> BoxedStrategy<Op> {
        op(Opt::new(ALL_FMTS).filters(&all_filters()).premul(None).same_size(), (8, 2, 4))
    }
    fn check(c: &Op) -> Outcome {
        set_level(&c.rc)?;
        let src = c.src();
        let got = c.run()?;
        if let Some((p, a, b)) = got.first_difference(&src) {
            return Err(format!("{}: sample {p:?} is {a:#x}, the source holds {b:#x}", c.describe()));
        }
        Ok(Info::new(src.varied()).label(c.family()))
    }
}
