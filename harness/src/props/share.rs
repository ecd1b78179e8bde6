//! P25: calls made at the same time by several threads do not disturb each other.

use crate::engine::*;
use crate::gen::*;
use crate::op::*;
use crate::props::history::{link, tie};
use crate::props::set_level;
use crate::run::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicUsize, Ordering};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum How {
    /// one operating-system thread per caller, one scaler shared by all
    Shared,
    /// the same, each caller with a scaler of its own
    Own,
    /// callers are tasks of a rayon pool of this many threads, one scaler shared by all
    Pool(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub how: How,
    pub policy: Threads,
    /// what each caller does; all but the size and content are those of the first when shared
    pub callers: Vec<Op>,
    pub rounds: usize,
    /// caller k waits k * this many spin rounds before each call
    pub stagger: usize,
}

// a scaler is plain data shared by reference; whether sharing it is sound is what is examined
struct Share<'a>(&'a Tool);
unsafe impl Sync for Share<'_> {}

pub struct P25;
impl Prop for P25 {
    const ID: &'static str = "P25";
    const CASES: (u64, u64) = (30_000, 1_000_000);
    const RULE: &'static str = "2..=5 callers make generated calls (any format, sizes and content of their own) at the \
        same time, through one shared scaler, scalers of their own, or from the tasks of a rayon pool, released together \
        with a generated stagger, 1..=3 rounds; every result must equal, bit for bit, the one computed alone before; \
        non-trivial: two callers or more with non-uniform results of which two differ";
    type Case = Case;
    fn strategy(tier: Tier) -> BoxedStrategy<Case> {
        let cap = if tier == Tier::Quick { 2_500 } else { 12_000 };
        let mut o = Opt::new(ALL_FMTS).filters(&all_filters()).premul(None).cap(cap).big(1);
        o.threads = false;
        let links = prop::collection::vec(link(), 5);
        let how = prop_oneof![4 => Just(How::Shared), 2 => Just(How::Own), 2 => (1usize..=4).prop_map(How::Pool)];
        let policy = prop_oneof![
            2 => Just(Threads::Single),
            4 => (0usize..=6).prop_map(Threads::Fixed),
            1 => Just(Threads::Adaptive)
        ];
        (how, policy, prop::collection::vec(op(o, (10, 2, 2)), 2..=5), 1usize..=3, 0usize..400, links)
            .prop_map(|(how, policy, mut callers, rounds, stagger, links)| {
                let first = callers[0].clone();
                let colour = matches!(first.kind, Kind::Colour(_));
                callers.retain(|c| how == How::Own || matches!(c.kind, Kind::Colour(_)) == colour);
                while callers.len() < 2 {
                    let mut c = first.clone();
                    c.rc.seed ^= 0x5555 + callers.len() as u64;
                    callers.push(c);
                }
                for c in &mut callers {
                    c.rc.level = first.rc.level.clone();
                    c.rc.threads = policy;
                    if how != How::Own {
                        c.rc.filter = first.rc.filter.clone();
                        c.rc.quality = first.rc.quality;
                        if colour {
                            c.kind = first.kind;
                        }
                    }
                }
                // often of one format, the bit depth differs all the same
                for k in 1..callers.len() {
                    let plain = callers[k].kind == Kind::Plain && first.kind == Kind::Plain;
                    if links[k].is_some() && plain {
                        callers[k].rc.fmt = first.rc.fmt;
                        callers[k].rc.n = first.rc.n;
                        callers[k].rc.fmax = first.rc.fmax;
                        callers[k].rc.signed = first.rc.signed;
                        callers[k].rc.premul = first.rc.premul;
                        if first.rc.fmt == Fmt::U16 && callers[k].rc.depth == 0 {
                            callers[k].rc.depth = [8, 10, 12, 16, 9][callers[k].rc.seed as usize % 5];
                        }
                        if first.rc.fmt != Fmt::U16 {
                            callers[k].rc.depth = 0;
                        }
                    }
                }
                tie(&mut callers, &links);
                Case { how, policy, callers, rounds, stagger }
            })
            .boxed()
    }
    fn check(c: &Case) -> Outcome {
        set_level(&c.callers[0].rc)?;
        let mut want = vec![];
        for o in &c.callers {
            want.push(o.run()?);
        }
        let shared = c.callers[0].tool();
        let tools: Vec<Tool> =
            if c.how == How::Own { c.callers.iter().map(|o| o.tool()).collect() } else { vec![] };
        let share = Share(&shared);
        let own: Vec<Share> = tools.iter().map(Share).collect();
        let waiting = AtomicUsize::new(0);
        let together = c.callers.len();
        let spin = !matches!(c.how, How::Pool(_));
        let call = |k: usize| -> Result<(), String> {
            let share = &share;
            let own = &own;
            let tool = if c.how == How::Own { own[k].0 } else { share.0 };
            let o = &c.callers[k];
            let src = o.src();
            for round in 0..c.rounds {
                let mut dst = o.dst();
                if spin {
                    // released together
                    waiting.fetch_add(1, Ordering::SeqCst);
                    while waiting.load(Ordering::SeqCst) < together * (round + 1) {
                        std::thread::yield_now();
                    }
                }
                for _ in 0..k * c.stagger {
                    std::hint::spin_loop();
                }
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| o.apply(tool, &src, &mut dst)));
                let bad = match r {
                    Err(_) => Some("panicked".to_string()),
                    Ok(Err(e)) => Some(format!("rejected: {e:?}")),
                    Ok(Ok(())) => dst
                        .first_difference(&want[k])
                        .map(|(p, a, b)| format!("sample {p:?} is {a:#x}, computed alone {b:#x}")),
                };
                if let Some(m) = bad {
                    // nobody must wait for this caller any more
                    waiting.fetch_add(together * (c.rounds + 1), Ordering::SeqCst);
                    return Err(format!("{:?}, caller {k}, round {round}: {}: {m}", c.how, o.describe()));
                }
            }
            Ok(())
        };
        let results: Vec<Result<(), String>> = match c.how {
            How::Pool(n) => {
                use rayon::prelude::*;
                let pool = rayon::ThreadPoolBuilder::new().num_threads(n).build().map_err(|e| format!("{e}"))?;
                pool.install(|| (0..c.callers.len()).into_par_iter().map(call).collect())
            }
            _ => std::thread::scope(|s| {
                let call = &call;
                let hs: Vec<_> = (0..c.callers.len()).map(|k| s.spawn(move || call(k))).collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a caller panicked".into()))).collect()
            }),
        };
        results.into_iter().collect::<Result<Vec<()>, String>>()?;
        let varied = want.iter().filter(|w| w.varied()).count();
        let differ = want.iter().any(|w| w.pixels() != want[0].pixels());
        Ok(Info::new(varied >= 2 && differ).label(format!("{:?}", c.how)).label(format!("{:?}", c.policy)))
    }
}
