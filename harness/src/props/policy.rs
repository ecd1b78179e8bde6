//! P21: the threading policy names a sane number of threads, and pools have it.

use crate::engine::*;
use crate::run::Threads;
use pic_scale::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub policy: Threads,
    pub w: usize,
    pub h: usize,
    pub more: (usize, usize),
    pub pool: bool,
}

pub struct P21;
impl Prop for P21 {
    const ID: &'static str = "P21";
    const CASES: (u64, u64) = (200_000, 2_000_000);
    const RULE: &'static str = "a generated policy and two generated sizes, one not smaller; single is 1 thread and no \
        pool, fixed is what was asked for but at least one, adaptive is between 1 and the parallelism of the machine, \
        1 below 65,536 pixels, all of it for huge images, and never falls as the image grows; a pool has that many \
        threads; non-trivial: a policy other than single";
    type Case = Case;
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let side = || prop_oneof![3 => 0usize..3000, 1 => 0usize..40, 1 => 0usize..200_000];
        let policy = prop_oneof![
            1 => Just(Threads::Single),
            3 => (0usize..=64).prop_map(Threads::Fixed),
            5 => Just(Threads::Adaptive)
        ];
        (policy, side(), side(), (0usize..1000, 0usize..1000), prop::bool::weighted(0.2))
            .prop_map(|(policy, w, h, more, pool)| Case { policy, w, h, more, pool })
            .boxed()
    }
    fn check(c: &Case) -> Outcome {
        let p = c.policy.policy();
        let size = ImageSize::new(c.w, c.h);
        let n = p.thread_count(size);
        let cpus = std::thread::available_parallelism().map_or(1, |v| v.get());
        let what = format!("{p:?} for {}x{}", c.w, c.h);
        let ok = match c.policy {
            Threads::Single => n == 1,
            Threads::Fixed(k) => n == k.max(1),
            Threads::Adaptive => {
                let area = c.w * c.h;
                (1..=cpus).contains(&n)
                    && (area >= 256 * 256 || n == 1)
                    && (area < 256 * 256 * cpus || n == cpus)
                    && n == p.thread_count(ImageSize::new(c.h, c.w))
            }
        };
        if !ok {
            return Err(format!("{what}: {n} threads of {cpus}"));
        }
        let n2 = p.thread_count(ImageSize::new(c.w + c.more.0, c.h + c.more.1));
        if n2 < n {
            return Err(format!("{what}: {n} threads, but {n2} for an image larger by {:?}", c.more));
        }
        if c.pool {
            match (p.get_pool(size), c.policy) {
                (None, Threads::Single) => {}
                (Some(pool), Threads::Fixed(_) | Threads::Adaptive) => {
                    if pool.current_num_threads() != n {
                        return Err(format!("{what}: a pool of {} instead of {n} threads", pool.current_num_threads()));
                    }
                }
                (pool, _) => return Err(format!("{what}: pool present: {}", pool.is_some())),
            }
        }
        Ok(Info::new(c.policy != Threads::Single).label(format!("{n} threads")))
    }
}
