//! P13: a valid call always returns, and touches no memory outside the buffers it was given.

use crate::engine::*;
use crate::gen::*;
use crate::guard;
use crate::op::*;
use crate::props::set_level;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub op: Op,
    /// 1: inaccessible memory follows every heap block, 2: precedes it
    pub mode: usize,
}

pub struct P13;
impl Prop for P13 {
    const ID: &'static str = "P13";
    const CASES: (u64, u64) = (80_000, 3_000_000);
    const RULE: &'static str = "one generated valid call (any entry point, level, filter, padding, one-pixel and long thin \
        images) runs with every heap block of the process placed against an inaccessible page and fresh memory filled \
        with junk; it must return Ok without a fault or panic, and give the bits of the same call on ordinary memory; \
        non-trivial: guarded blocks were served during the call and the sizes differ";
    type Case = Case;
    fn strategy(tier: Tier) -> BoxedStrategy<Case> {
        let cap = if tier == Tier::Quick { 5_000 } else { 20_000 };
        let o = Opt::new(ALL_FMTS).filters(&all_filters()).premul(None).cap(cap);
        let ops = prop_oneof![12 => op(o.clone(), (10, 3, 2)), 1 => op(o.same_size(), (10, 3, 3))];
        (ops, 1usize..=2)
            .prop_map(|(mut op, mode)| {
                if let crate::run::Threads::Fixed(n) = op.rc.threads {
                    op.rc.threads = crate::run::Threads::Fixed(n.min(3));
                }
                Case { op, mode }
            })
            .boxed()
    }
    fn check(c: &Case) -> Outcome {
        set_level(&c.op.rc)?;
        if !guard::enable(c.mode) {
            return Err("no address space for guarded memory".into());
        }
        let before = guard::served();
        let (src, mut dst) = (c.op.src(), c.op.dst());
        let images = guard::served();
        let r = c.op.apply(&c.op.tool(), &src, &mut dst);
        let during = guard::served() - images;
        guard::disable();
        r.map_err(|e| format!("{}: valid call rejected: {e:?}", c.op.describe()))?;
        let plain = c.op.run()?;
        if let Some((p, a, b)) = dst.first_difference(&plain) {
            return Err(format!(
                "{}: sample {p:?} is {a:#x} with junk in fresh memory, {b:#x} otherwise",
                c.op.describe()
            ));
        }
        Ok(Info::new(images - before >= 2 && !c.op.rc.same_size())
            .label(c.op.family())
            .label(format!("mode:{}", c.mode))
            .label(if during > 0 { "allocates" } else { "in place" })
            .label(format!("level:{}", c.op.rc.level)))
    }
}
