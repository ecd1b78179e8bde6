//! P20: a filter is the function its name stands for.

use crate::engine::*;
use crate::model;
use pic_scale::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub number: u32,
    /// position in the support, in 2^-24 of it
    pub at: Vec<u32>,
    /// argument of the Bessel functions
    pub bessel: f64,
}

pub struct P20;
impl Prop for P20 {
    const ID: &'static str = "P20";
    const CASES: (u64, u64) = (600_000, 10_000_000);
    const RULE: &'static str = "a generated filter number and generated distances within the support; the filter must have \
        the documented name and shape, and its kernel in f32 and in f64 the value of the published formula (f64 model); \
        the Bessel functions are compared with their integral; non-trivial: a known filter whose kernel is not 0 or 1 \
        at some distance";
    type Case = Case;
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let at = prop_oneof![8 => 0u32..=1 << 24, 1 => (0u32..=24).prop_map(|k| (k << 24) / 24), 1 => 0u32..1000];
        (
            prop_oneof![20 => 0u32..49, 1 => 49u32..100, 1 => any::<u32>()],
            prop::collection::vec(at, 1..=6),
            prop_oneof![0.0f64..30.0, 0.0f64..1e-3, 30.0f64..400.0],
        )
            .prop_map(|(number, at, bessel)| Case { number, at, bessel })
            .boxed()
    }
    fn check(c: &Case) -> Outcome {
        let f = ResamplingFunction::from(c.number);
        let name = format!("{f:?}");
        let documented = model::FILTER_NAMES.get(c.number as usize).copied().unwrap_or("Bilinear");
        if name != documented {
            return Err(format!("filter number {} is {name}, documented as {documented}", c.number));
        }
        let m = model::filter(model::filter_id(documented));
        let f32s = f.get_resampling_filter::<f32>();
        let f64s = f.get_resampling_filter::<f64>();
        let shape = |size: f32, ewa: bool, resizable: bool, area: bool, window: bool| {
            if size as f64 != m.size
                || ewa != m.ewa
                || resizable != m.resizable
                || area != (documented == "Area")
                || window != m.window.is_some()
            {
                return Err(format!(
                    "{documented}: size {size}, ewa {ewa}, resizable {resizable}, area {area}, window {window}; expected \
                     size {}, ewa {}, resizable {}, window {}",
                    m.size,
                    m.ewa,
                    m.resizable,
                    m.window.is_some()
                ));
            }
            Ok(())
        };
        shape(f32s.min_kernel_size, f32s.is_ewa, f32s.is_resizable_kernel, f32s.is_area, f32s.window.is_some())?;
        shape(f64s.min_kernel_size, f64s.is_ewa, f64s.is_resizable_kernel, f64s.is_area, f64s.window.is_some())?;
        let support = if m.resizable { m.size } else { m.size / 2.0 };
        let peak = (0..=32).map(|i| (m.kernel)(support * i as f64 / 32.0).abs()).fold(0.0, f64::max);
        let mut shaped = false;
        for a in &c.at {
            let x = (support * *a as f64 / (1u32 << 24) as f64) as f32;
            let xs = [x as f64, (x as f64 - 2e-6).max(0.0), x as f64 + 2e-6];
            let v = xs.map(|x| (m.kernel)(x));
            shaped |= v[0] != 0.0 && v[0] != 1.0;
            let (lo, hi) = (v[0].min(v[1]).min(v[2]), v[0].max(v[1]).max(v[2]));
            for (t, got, tol) in [
                ("f32", (f32s.kernel)(x) as f64, peak * 2e-5),
                ("f64", (f64s.kernel)(x as f64), peak * 1e-6),
            ] {
                if !(got >= lo - tol && got <= hi + tol) {
                    return Err(format!("{documented} in {t}: kernel({x}) is {got}, the formula gives {}", v[0]));
                }
            }
        }
        let b = c.bessel;
        for (what, got, want, tol) in [
            ("j1", j1(b), model::j1(b), 1e-12),
            ("j1 of a negative argument", j1(-b), -model::j1(b), 1e-12),
            ("jinc_f64", jinc_f64(b), model::jinc(b), 1e-8),
            ("jinc_f32", jinc_f32(b as f32) as f64, model::jinc(b as f32 as f64), 1e-6),
        ] {
            if !((got - want).abs() <= tol) {
                return Err(format!("{what}({b}) is {got}, the integral gives {want}"));
            }
        }
        Ok(Info::new(c.number < 49 && shaped).label(documented))
    }
}
