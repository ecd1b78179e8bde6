//! P10: the threading policy never changes a result.

use crate::engine::*;
use crate::gen::*;
use crate::op::*;
use crate::props::set_level;
use crate::run::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub op: Op,
    pub policy: Threads,
    pub other: Threads,
}

pub struct P10;
impl Prop for P10 {
    const ID: &'static str = "P10";
    const CASES: (u64, u64) = (50_000, 1_000_000);
    const RULE: &'static str = "one generated call (any entry point) is made single-threaded and under two generated \
        policies (fixed 0..=40 threads, adaptive); all bits must agree; non-trivial: a policy that uses a pool and an \
        output of more than one row that is not uniform";
    type Case = Case;
    fn strategy(tier: Tier) -> BoxedStrategy<Case> {
        let policy = || prop_oneof![12 => (0usize..=16).prop_map(Threads::Fixed), 4 => Just(Threads::Adaptive), 1 => (17usize..=40).prop_map(Threads::Fixed)];
        let cap = if tier == Tier::Quick { 6_000 } else { 60_000 };
        let mut o = Opt::new(ALL_FMTS).filters(&all_filters()).premul(None).cap(cap).big(6).side(900);
        o.threads = false;
        (op(o, (10, 2, 2)), policy(), policy()).prop_map(|(op, policy, other)| Case { op, policy, other }).boxed()
    }
    fn check(c: &Case) -> Outcome {
        set_level(&c.op.rc)?;
        let mut a = c.op.clone();
        a.rc.threads = Threads::Single;
        let want = a.run()?;
        for policy in [c.policy, c.other] {
            let mut b = c.op.clone();
            b.rc.threads = policy;
            let got = b.run()?;
            if let Some((p, x, y)) = got.first_difference(&want) {
                return Err(format!("{}: sample {p:?} is {x:#x}, single-threaded {y:#x}", b.describe()));
            }
        }
        Ok(Info::new(a.rc.dh > 1 && want.varied()).label(a.family()).label(format!("{:?}", c.policy)))
    }
}
