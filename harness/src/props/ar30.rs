//! P05: packed 10-bit images.

use crate::ar30::*;
use crate::engine::*;
use crate::gen::*;
use crate::judge::compare;
use crate::model::*;
use crate::props::set_level;
use crate::run::*;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub packing: Packing,
    /// geometry, content and settings; three 10-bit channels
    pub rc: RC,
}

pub fn strategy(o: Opt) -> BoxedStrategy<Case> {
    (select(PACKINGS.to_vec()), rc(o.ns(&[3])))
        .prop_map(|(packing, mut rc)| {
            rc.fmt = Fmt::U16;
            rc.depth = 10;
            Case { packing, rc }
        })
        .boxed()
}
pub fn alpha(seed: u64) -> impl Fn(usize) -> u32 {
    move |i| (Mix(seed ^ i as u64).next() & 3) as u32
}

pub struct P05;
impl Prop for P05 {
    const ID: &'static str = "P05";
    const CASES: (u64, u64) = (100_000, 4_000_000);
    const RULE: &'static str = "a generated packed image (both layouts, both byte orders, random alpha bits) is \
        resized; every unpacked colour is compared with the f64 reference at 10 bits and alpha must be opaque; \
        non-trivial: the output holds at least two different samples";
    type Case = Case;
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        strategy(Opt::new(&[Fmt::U16]))
    }
    fn check(c: &Case) -> Outcome {
        let level = set_level(&c.rc)?;
        let plain = c.rc.plain();
        let src = c.packing.encode(&plain, alpha(c.rc.seed), c.rc.spad);
        let mut dst = Img::<u8>::poisoned(c.rc.dw, c.rc.dh, 4, c.rc.dpad, 0);
        c.packing.resize(&c.rc.params().scaler(), &src, &mut dst).map_err(|e| format!("valid resize rejected: {e:?}"))?;
        let seen: Plain = plain;
        let st = compare(&c.rc, &seen, &c.packing.decode(&dst)).map_err(|m| format!("{:?} {m}", c.packing))?;
        for y in 0..dst.h {
            for x in 0..dst.w {
                let p = c.packing.pixel(&dst, x, y);
                if p[3] != 3 {
                    return Err(format!("{:?} {}: alpha bits of pixel ({x},{y}) are {}, not opaque", c.packing, c.rc.describe(), p[3]));
                }
            }
        }
        Ok(Info::new(st.distinct)
            .label(format!("level:{level}"))
            .label(format!("packing:{:?}", c.packing))
            .label(format!("pass:{}", c.rc.kind())))
    }
}
