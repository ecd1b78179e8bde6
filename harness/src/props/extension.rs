//! P17: the one-call extension gives what a scaler gives.

use crate::by_fmt;
use crate::engine::*;
use crate::gen::*;
use crate::op::*;
use crate::props::set_level;
use crate::run::*;
use pic_scale::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub rc: RC,
    pub multithreading: bool,
    /// destination longer than it should be
    pub broken: bool,
}

pub struct P17;
impl Prop for P17 {
    const ID: &'static str = "P17";
    const CASES: (u64, u64) = (200_000, 3_000_000);
    const RULE: &'static str = "a generated image of one of 16 types is scaled through the extension trait with generated \
        options and through a scaler with the same settings; pixels must agree bit for bit, padding stay as it was, \
        errors be the same; non-trivial: the sizes differ and the output is not uniform";
    type Case = Case;
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let o = Opt::new(ALL_FMTS).filters(&all_filters()).premul(None).cap(5000);
        let r = prop_oneof![9 => rc(o.clone()), 1 => rc(o.same_size())];
        (r, any::<bool>(), prop::bool::weighted(0.05))
            .prop_map(|(rc, multithreading, broken)| Case { rc, multithreading, broken })
            .boxed()
    }
    fn check(c: &Case) -> Outcome {
        set_level(&c.rc)?;
        by_fmt!(c.rc.fmt, T => {
            let rc = &c.rc;
            let src: Img<T> = rc.src();
            let mut before: Img<T> = rc.dst();
            if c.broken {
                before.d.push(T::poison(1));
            }
            let (mut a, mut b) = (before.clone(), before.clone());
            let f = ResamplingFunction::from(rc.func());
            let r = T::scale(&src, &mut a, ScalingOptions {
                resampling_function: f,
                premultiply_alpha: rc.premul,
                use_multithreading: c.multithreading,
            });
            let want = T::resize(&Scaler::new(f), rc.premul, &src, &mut b);
            match (&r, &want) {
                (Ok(()), Ok(())) => {}
                (Err(x), Err(y)) if x.code() == y.code() => return Ok(Info::new(false).label("refused")),
                _ => return Err(format!("{}: the extension gives {r:?}, the scaler {want:?}", rc.describe())),
            }
            if let Some(p) = a.padding_diff(&before) {
                return Err(format!("{}: padding element {} of row {} was written", rc.describe(), p.0, p.1));
            }
            let (x, y) = (a.pixels(), b.pixels());
            if let Some(k) = (0..x.len()).find(|&k| x[k] != y[k]) {
                return Err(format!(
                    "{} (multithreading {}): sample {k} is {:#x} by the extension and {:#x} by a scaler",
                    rc.describe(), c.multithreading, x[k], y[k]
                ));
            }
            Ok(Info::new(!rc.same_size() && x.iter().any(|v| *v != x[0]))
                .label(format!("{:?}x{}", rc.fmt, rc.n))
                .label(if c.multithreading { "threads" } else { "single" }))
        })
    }
}
