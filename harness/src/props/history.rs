//! P18: a scaler keeps no memory of earlier calls.

use crate::colour::*;
use crate::engine::*;
use crate::by_fmt;
use crate::gen::*;
use crate::judge::compare;
use crate::model::Plain;
use crate::op::*;
use crate::props::set_level;
use crate::run::*;
use crate::with_data;
use pic_scale::*;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    /// calls made one after another
    pub steps: Vec<Op>,
    /// the scaler each call is made on; the filter is that of the scaler's first call
    #[serde(default)]
    pub who: Vec<usize>,
    /// fill of the destination before each call
    pub fill: u8,
}

/// Takes the geometry, or a part of it, of an earlier step.
#[derive(Clone, Copy, Debug)]
pub struct Link {
    pub from: usize,
    pub part: usize,
    pub depth: bool,
}
pub fn link() -> BoxedStrategy<Option<Link>> {
    prop::option::weighted(0.6, (0usize..6, 0usize..6, any::<bool>()).prop_map(|(from, part, depth)| Link { from, part, depth }))
        .boxed()
}
pub fn tie(steps: &mut [Op], links: &[Option<Link>]) {
    for k in 1..steps.len() {
        let Some(l) = links[k] else { continue };
        let e = steps[l.from % k].rc.clone();
        let r = &mut steps[k].rc;
        match l.part {
            0..=1 => (r.sw, r.sh, r.dw, r.dh) = (e.sw, e.sh, e.dw, e.dh),
            2 => (r.sw, r.dw) = (e.sw, e.dw),
            3 => (r.sh, r.dh) = (e.sh, e.dh),
            4 => (r.sw, r.sh, r.dw, r.dh) = (e.sh, e.sw, e.dh, e.dw),
            _ => (r.sw, r.sh, r.dw, r.dh) = (e.dw, e.dh, e.sw, e.sh),
        }
        if l.part == 2 {
            // the other axis follows when the image gets too large
            (r.sh, r.dh) = (r.sh.min(9_000 / r.sw + 1), r.dh.min(9_000 / r.dw + 1));
        }
        if l.part == 3 {
            (r.sw, r.dw) = (r.sw.min(9_000 / r.sh + 1), r.dw.min(9_000 / r.dh + 1));
        }
        if (r.sw, r.sh) == (r.dw, r.dh) {
            r.dh += 1;
        }
        if l.depth && e.fmt == Fmt::U16 && r.fmt == Fmt::U16 && !matches!(steps[k].kind, Kind::Packed(_)) {
            steps[k].rc.depth = e.depth;
        }
        steps[k].rc.affordable();
    }
}

/// Judges a result without any further call of the crate, as far as the plain model reaches.
fn judge<T: Api + Wrap>(c: &RC, src: &Data, got: &Data) -> Result<bool, String> {
    let (src, got) = (T::get(src).plain(), T::get(got));
    if c.func() == crate::model::NEAREST || c.same_size() {
        return Ok(false);
    }
    if !c.premul {
        compare(c, &src, got)?;
        return Ok(true);
    }
    // alpha is resized as any channel
    let one = RC { n: 1, premul: false, ..c.clone() };
    let a = Plain { w: src.w, h: src.h, n: 1, d: src.d.chunks(4).map(|p| p[3]).collect() };
    let mut g = Img::<T>::poisoned(c.dw, c.dh, 1, 0, c.bit_depth());
    for y in 0..c.dh {
        for x in 0..c.dw {
            g.d[y * c.dw + x] = got.at(x, y, 3);
        }
    }
    compare(&one, &a, &g)?;
    Ok(true)
}

pub struct P18;
impl Prop for P18 {
    const ID: &'static str = "P18";
    const CASES: (u64, u64) = (50_000, 600_000);
    const RULE: &'static str = "a generated history of 2..=7 calls on 1..=3 scalers of different filters (formats, sizes, \
        threading, workload strategy and premultiplication change between calls, sizes often return, whole, in part or \
        transposed; invalid calls in between; destinations hold old data); every result must equal, bit for bit, that of \
        a new scaler on a new destination, agree with the f64 model where the call is a plain one, and sources must stay \
        as they were; non-trivial: at least two steps with non-uniform results";
    type Case = Case;
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let o = || Opt::new(ALL_FMTS).filters(&all_filters()).premul(None).cap(2500);
        let mixed = prop::collection::vec(op(o(), (10, 3, 0)), 2..=7);
        let colour = (select(spaces()), prop::collection::vec(op(o(), (0, 0, 1)), 2..=4)).prop_map(|(s, mut v)| {
            v.iter_mut().for_each(|x| x.kind = Kind::Colour(s));
            v
        });
        let links = prop::collection::vec(link(), 7);
        let who = prop::collection::vec(0usize..3, 7);
        (prop_oneof![5 => mixed, 1 => colour], links, who, 1usize..=3, any::<u8>())
            .prop_map(|(mut steps, links, who, scalers, fill)| {
                let who: Vec<usize> = (0..steps.len()).map(|k| who[k] % scalers).collect();
                let l = steps[0].rc.level.clone();
                for k in 0..steps.len() {
                    let first = (0..=k).find(|&j| who[j] == who[k]).unwrap();
                    steps[k].rc.filter = steps[first].rc.filter.clone();
                    steps[k].rc.level = l.clone();
                }
                tie(&mut steps, &links);
                Case { steps, who, fill }
            })
            .boxed()
    }
    fn check(c: &Case) -> Outcome {
        set_level(&c.steps[0].rc)?;
        let who = |k: usize| c.who.get(k).copied().unwrap_or(0);
        let mut tools: Vec<Option<Tool>> = (0..8).map(|_| None).collect();
        let (mut varied, mut judged) = (0, 0);
        for (k, s) in c.steps.iter().enumerate() {
            let tool = tools[who(k)].get_or_insert_with(|| s.tool());
            match tool {
                Tool::Scaler(t) => {
                    t.set_threading_policy(s.rc.threads.policy());
                    t.set_workload_strategy(if s.rc.quality {
                        WorkloadStrategy::PreferQuality
                    } else {
                        WorkloadStrategy::PreferSpeed
                    });
                }
                Tool::Colour(t) => t.set_threading_policy(s.rc.threads.policy()),
            }
            let src = s.src();
            let keep = src.raw();
            let mut dst = s.dst();
            with_data!(&mut dst, i => {
                for (j, v) in i.d.iter_mut().enumerate() {
                    *v = Elem::poison(j + c.fill as usize);
                }
            });
            if c.fill & 1 == 1 {
                // a call that must fail, in between, on the same scaler
                let mut bad = dst.clone();
                with_data!(&mut bad, i => { i.d.push(Elem::poison(1)); });
                if s.apply(tool, &src, &mut bad).is_ok() {
                    return Err(format!("step {k}: {}: a destination of the wrong length was accepted", s.describe()));
                }
            }
            s.apply(tool, &src, &mut dst).map_err(|e| format!("step {k}: {}: rejected: {e:?}", s.describe()))?;
            if src.raw() != keep {
                return Err(format!("step {k}: {}: the source was modified", s.describe()));
            }
            if s.kind == Kind::Plain {
                let j = by_fmt!(s.rc.fmt, T => judge::<T>(&s.rc, &src, &dst)).map_err(|m| format!("step {k}: {m}"))?;
                judged += j as usize;
            }
            let want = s.run()?;
            if let Some((p, a, b)) = dst.first_difference(&want) {
                return Err(format!("step {k}: {}: sample {p:?} is {a:#x}, by a new scaler {b:#x}", s.describe()));
            }
            varied += want.varied() as usize;
        }
        Ok(Info::new(varied >= 2)
            .label(format!("steps:{}", c.steps.len()))
            .label(format!("against the model:{judged}")))
    }
}
