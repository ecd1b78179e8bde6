//! P01..P04: a resize agrees with the reference model, for every format, filter and geometry.

use crate::engine::*;
use crate::gen::*;
use crate::judge::compare;
use crate::props::set_level;
use crate::run::*;
use crate::by_fmt;
use proptest::strategy::BoxedStrategy;

fn one<T: Api>(c: &RC) -> Outcome {
    let level = set_level(c)?;
    let plain = c.plain();
    let mut src: Img<T> = Img::from_plain(&plain, c.spad, c.bit_depth());
    src.bit_depth = c.bit_depth();
    let seen = src.plain();
    let got = c.call(&src)?;
    let st = compare(c, &seen, &got)?;
    if let Ok(f) = std::env::var("PSV_RATIO") {
        use std::io::Write;
        let mut f = std::fs::OpenOptions::new().append(true).create(true).open(f).unwrap();
        writeln!(f, "{:.3} {:.6} {} {:?}", st.ratio, st.worst, c.describe(), c.pat).unwrap();
    }
    Ok(Info::new(st.distinct)
        .label(format!("level:{level}"))
        .label(format!("channels:{}", c.n))
        .label(format!("pass:{}", c.kind()))
        .label(format!("filter:{}", c.filter))
        .label(if c.quality { "quality" } else { "speed" })
        .label(match c.threads {
            Threads::Single => "threads:1",
            _ => "threads:many",
        }))
}

macro_rules! accuracy {
    ($name:ident, $id:literal, $fmt:expr, $cases:expr) => {
        pub struct $name;
        impl Prop for $name {
            const ID: &'static str = $id;
            const CASES: (u64, u64) = $cases;
            const RULE: &'static str = "a generated image (8 content patterns, 1-4 channels, 48 filters, \
                sizes 1..4200, strides, strategies, threads, 9 CPU levels) is resized and every sample compared \
                with the f64 reference; non-trivial: the output holds at least two different samples";
            type Case = RC;
            fn strategy(_: Tier) -> BoxedStrategy<RC> {
                rc(Opt::new(&[$fmt]))
            }
            fn check(c: &RC) -> Outcome {
                by_fmt!(c.fmt, T => one::<T>(c))
            }
        }
    };
}
accuracy!(P01, "P01", Fmt::U8, (250_000, 12_000_000));
accuracy!(P02, "P02", Fmt::U16, (250_000, 12_000_000));
accuracy!(P03, "P03", Fmt::F32, (250_000, 12_000_000));
accuracy!(P04, "P04", Fmt::F16, (150_000, 8_000_000));
