//! P27: the guarantees hold in every build of the crate, not only with all features on.

use crate::engine::*;
use crate::gen::*;
use crate::model::NEAREST;
use crate::op::*;
use crate::props::*;
use proptest::prelude::*;

pub struct P27;
impl Prop for P27 {
    const ID: &'static str = "P27";
    const CASES: (u64, u64) = (60_000, 2_000_000);
    const RULE: &'static str = "for each of six builds (default features; all; none; SSE without AVX; AVX without SSE; compiled for x86-64-v3), all with overflow checks, generated calls of every entry point the build has are \
        judged as P01 to P07 and P15 judge them (f64 model, exact nearest positions, colour space model); non-trivial: \
        as in those";
    type Case = Op;
    fn strategy(_: Tier) -> BoxedStrategy<Op> {
        (op(Opt::new(ALL_FMTS).filters(&all_filters()).premul(None), (12, 2, 1)), 0u32..3000, 0usize..15)
            .prop_map(|(mut op, special, more)| {
                if special >= 2999 && matches!(op.kind, Kind::Plain) {
                    alpha::wide_row(&mut op.rc, more);
                }
                op
            })
            .boxed()
    }
    fn check(op: &Op) -> Outcome {
        let rc = &op.rc;
        let near = rc.func() == NEAREST;
        match op.kind {
            Kind::Colour(_) => colour_resize::P15::check(op),
            _ if rc.same_size() => same::P14::check(op),
            _ if near => nearest::P07::check(op),
            Kind::Packed(packing) => ar30::P05::check(&ar30::Case { packing, rc: rc.clone() }),
            Kind::Plain if rc.premul && rc.n == 4 => alpha::P06::check(rc),
            Kind::Plain => match rc.fmt {
                Fmt::U8 => accuracy::P01::check(rc),
                Fmt::U16 => accuracy::P02::check(rc),
                Fmt::F32 => accuracy::P03::check(rc),
                Fmt::F16 => accuracy::P04::check(rc),
            },
        }
        .map(|i| i.label(op.family()).label(format!("level:{}", rc.level)))
    }
}
