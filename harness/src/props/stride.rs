//! P09: strides change where rows lie, never what they hold; padding stays as it was.

use crate::engine::*;
use crate::gen::*;
use crate::op::*;
use crate::props::set_level;
use crate::with_data;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub op: Op,
    /// pass the stride of an image without padding as zero ("computed from the width")
    pub zero: bool,
}

pub struct P09;
impl Prop for P09 {
    const ID: &'static str = "P09";
    const CASES: (u64, u64) = (150_000, 2_000_000);
    const RULE: &'static str = "one generated call (any entry point, any filter, same-size copies included) is made with \
        padded rows and with tight rows, padding filled with hostile values; pixels must agree bit for bit and the \
        destination padding must be untouched; non-trivial: some row was padded, or a stride was given as zero";
    type Case = Case;
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let o = Opt::new(ALL_FMTS).filters(&all_filters()).premul(None).cap(5000);
        let ops = prop_oneof![9 => op(o.clone(), (10, 3, 3)), 1 => op(o.same_size(), (10, 3, 3))];
        (ops, any::<bool>()).prop_map(|(op, zero)| Case { op, zero }).boxed()
    }
    fn check(c: &Case) -> Outcome {
        set_level(&c.op.rc)?;
        let padded = &c.op;
        let mut tight = padded.clone();
        tight.rc.spad = 0;
        tight.rc.dpad = 0;
        let want = tight.run()?;
        let mut src = padded.src();
        let before = padded.dst();
        let mut got = before.clone();
        let packed = matches!(padded.kind, Kind::Packed(_));
        let (zs, zd) = (c.zero && padded.rc.spad == 0 && !packed, c.zero && padded.rc.dpad == 0 && !packed);
        let strides = (src.stride(), got.stride());
        if zs {
            with_data!(&mut src, i => i.stride = 0);
        }
        if zd {
            with_data!(&mut got, i => i.stride = 0);
        }
        let r = padded.apply(&padded.tool(), &src, &mut got);
        with_data!(&mut got, i => i.stride = strides.1);
        r.map_err(|e| format!("{}: rejected with padding: {e:?}", padded.describe()))?;
        let place = format!("{} (padding {} and {}, zero strides: {zs} {zd})", padded.describe(), padded.rc.spad, padded.rc.dpad);
        if let Some((p, a, b)) = got.first_difference(&want) {
            return Err(format!("{place}: sample {p:?} is {a:#x} with this stride and {b:#x} without padding"));
        }
        if let Some(p) = got.padding_diff(&before) {
            return Err(format!("{place}: padding element {} of row {} was written", p.0, p.1));
        }
        Ok(Info::new(padded.rc.spad + padded.rc.dpad > 0 || zs || zd)
            .label(padded.family())
            .label(format!("pass:{}", padded.rc.kind())))
    }
}
