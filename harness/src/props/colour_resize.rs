//! P15: the scalers of other colour spaces convert, resize there and convert back.

use crate::colour::*;
use crate::engine::*;
use crate::gen::*;
use crate::judge::Tolerance;
use crate::model::*;
use crate::op::*;
use crate::props::set_level;
use crate::run::*;
use pic_scale::{ResamplingFunction, Scaler, Scaling};
use proptest::strategy::BoxedStrategy;

fn f32_rc(rc: &RC) -> RC {
    RC { fmt: Fmt::F32, fmax: 1.0, quality: false, spad: 0, dpad: 0, ..rc.clone() }
}

pub struct P15;
impl Prop for P15 {
    const ID: &'static str = "P15";
    const CASES: (u64, u64) = (25_000, 800_000);
    const RULE: &'static str = "a generated 8-bit image (RGB or RGBA, 31 space and transfer combinations) is resized by a \
        colour-space scaler; the output must equal the image converted by colorutils-rs, resized as a float (or linear \
        8-bit) image by the generic scaler and converted back, and lie among the conversions of the f64 reference in \
        that space ± the f32 tolerance; non-trivial: sizes differ and the output is not uniform";
    type Case = Op;
    fn strategy(_: Tier) -> BoxedStrategy<Op> {
        op(Opt::new(&[Fmt::U8]).filters(&all_filters()).premul(None).cap(2500), (0, 0, 1))
    }
    fn check(op: &Op) -> Outcome {
        let rc = &op.rc;
        let Kind::Colour(space) = op.kind else { unreachable!() };
        set_level(rc)?;
        let n = rc.n;
        let src = op.src();
        let plain = u8::get(&src).plain();
        let got = op.run()?;
        let got = u8::get(&got);
        let info = Info::new(!rc.same_size() && Data::U8(got.clone()).varied())
            .label(space.name())
            .label(format!("x{n}"))
            .label(if rc.premul { "premultiplied" } else { "plain" });
        if rc.same_size() {
            return match got.pixels() == u8::get(&src).pixels() {
                true => Ok(info),
                false => Err(format!("{}: a resize to the same size is not a copy", op.describe())),
            };
        }
        let conv = space.forward(&plain);
        // 1. the float (or linear) image through the generic scaler
        let approx = matches!(space, Space::LinearApprox(_));
        let mut s = Scaler::new(ResamplingFunction::from(rc.func()));
        s.set_threading_policy(Threads::Single.policy());
        macro_rules! generic {
            ($t:ty) => {{
                let i: Img<$t> = Img::from_plain(&conv, 0, 0);
                let mut d = Img::<$t>::poisoned(rc.dw, rc.dh, n, 0, 0);
                <$t>::resize(&s, rc.premul, &i, &mut d).map_err(|e| format!("{e:?}"))?;
                d.plain()
            }};
        }
        let mid = if approx { generic!(u8) } else { generic!(f32) };
        let row = rc.dw * n;
        for y in 0..rc.dh {
            let comps: Vec<f32> = mid.d[y * row..(y + 1) * row].iter().map(|v| *v as f32).collect();
            let want = space.back(n, &comps);
            for (i, (g, w)) in got.row(y).iter().zip(&want).enumerate() {
                if g.abs_diff(*w) > !approx as u8 {
                    return Err(format!(
                        "{}: sample ({},{y},{}) is {g}, converting, resizing and converting back gives {w}",
                        op.describe(),
                        i / n,
                        i % n
                    ));
                }
            }
        }
        if rc.premul || rc.func() == NEAREST || conv.d.iter().any(|v| !v.is_finite()) {
            return Ok(info.label("differential only"));
        }
        let table: Vec<u8> = if approx {
            let all: Vec<f32> = (0..256).flat_map(|v| vec![v as f32; n]).collect();
            space.back(n, &all).chunks(n).map(|p| p[0]).collect()
        } else {
            vec![]
        };
        // 2. the model in that space
        let limits = approx.then_some((0.0, 255.0));
        let r = Reference::new(rc.func(), &conv, rc.dw, rc.dh, limits);
        let tols: Vec<Tolerance> = (0..n)
            .map(|k| {
                let m = conv.d.iter().skip(k).step_by(n).fold(0.0f64, |m, v| m.max(v.abs()));
                let like = if approx { RC { quality: false, ..rc.clone() } } else { RC { fmax: m.max(1e-3), ..f32_rc(rc) } };
                Tolerance::new(&like, &r)
            })
            .collect();
        // what the conversion back makes of the corners of a box of components, pixel by pixel
        let combos = 1usize << n;
        let bounds = |boxes: &[(f64, f64)]| -> Vec<(u8, u8)> {
            let mut out = vec![(255u8, 0u8); boxes.len()];
            if approx {
                for (i, (o, (lo, hi))) in out.iter_mut().zip(boxes).enumerate() {
                    for v in lo.ceil().clamp(0.0, 255.0) as u8..=hi.floor().clamp(0.0, 255.0) as u8 {
                        // alpha is no colour
                        let c = if i % n == 3 { v } else { table[v as usize] };
                        *o = (o.0.min(c), o.1.max(c));
                    }
                }
                return out;
            }
            let mut comps = Vec::with_capacity(boxes.len() * (combos + 1));
            for b in boxes.chunks(n) {
                comps.extend(b.iter().map(|(l, h)| ((l + h) * 0.5) as f32));
                for c in 0..combos {
                    comps.extend(b.iter().enumerate().map(|(k, (l, h))| if c >> k & 1 == 1 { *h as f32 } else { *l as f32 }));
                }
            }
            for (i, v) in space.back(n, &comps).iter().enumerate() {
                let o = &mut out[i / (n * (combos + 1)) * n + i % n];
                *o = (o.0.min(*v), o.1.max(*v));
            }
            out
        };
        // the conversion itself is off by up to two levels between its vector and scalar parts
        let slack = if approx { 0 } else { 3 };
        let outside = |g: u8, b: (u8, u8)| g < b.0.saturating_sub(slack) || g > b.1.saturating_add(slack);
        for y in 0..rc.dh {
            let mut boxes = Vec::with_capacity(row);
            for x in 0..rc.dw {
                for k in 0..n {
                    let (v, t) = (r.value(x, y, k), tols[k].at(x, y));
                    boxes.push((v - t, v + t));
                }
            }
            let b = bounds(&boxes);
            for x in 0..rc.dw {
                if (0..n).all(|k| !outside(got.at(x, y, k), b[x * n + k])) {
                    continue;
                }
                let mut wide = false;
                let near: Vec<(f64, f64)> = (0..n)
                    .map(|k| {
                        let (l, h) = r.hull(x, y, k);
                        let t = tols[k].at(x, y);
                        // where the last bit of a position decides a lot, the corners say nothing
                        wide |= h - l > 20.0 * t;
                        (2.0 * l - h - t, 2.0 * h - l + t)
                    })
                    .collect();
                let b = bounds(&near);
                if !wide && (0..n).any(|k| outside(got.at(x, y, k), b[k])) {
                    let g: Vec<u8> = (0..n).map(|k| got.at(x, y, k)).collect();
                    return Err(format!("{}: pixel ({x},{y}) is {g:?}, expected {b:?} from {near:.5?}", op.describe()));
                }
            }
        }
        Ok(info)
    }
}
