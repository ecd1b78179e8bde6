//! P12: malformed images are refused with a fitting error and nothing is written.

use crate::engine::*;
use crate::gen::*;
use crate::op::*;
use crate::props::set_level;
use crate::run::*;
use crate::with_data;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fault {
    /// the buffer gets longer or shorter
    Len(i32),
    /// the stride changes, the buffer does not
    Stride(i32),
    /// the stride becomes that many elements shorter (or longer) than a row, the buffer follows
    ShortStride(i32),
    /// an empty side; the buffer follows or stays
    NoWidth(bool),
    NoHeight(bool),
    Depth(usize),
    Width(i32),
    Height(i32),
    /// sides whose product does not fit
    Huge(u32, u32),
    /// a stride that is right but for a bit so high that its product with the height is, too
    HighStride(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub op: Op,
    /// on the destination (true) or on the source
    pub faults: Vec<(bool, Fault)>,
}

fn put<T: Elem>(i: &mut Img<T>, f: Fault) {
    let fit = |i: &mut Img<T>| {
        let s = if i.stride == 0 { i.w.wrapping_mul(i.n) } else { i.stride };
        if s as u128 * (i.h as u128) < 1 << 24 {
            i.d.resize(s * i.h, T::poison(3));
        }
    };
    let add = |v: usize, d: i32| (v as i128 + d as i128).max(0) as usize;
    match f {
        Fault::Len(d) => i.d.resize(add(i.d.len(), d), T::poison(1)),
        Fault::Stride(d) => i.stride = add(i.stride, d),
        Fault::ShortStride(d) => {
            i.stride = add(i.w.wrapping_mul(i.n), -d);
            fit(i);
        }
        Fault::NoWidth(f) => {
            i.w = 0;
            if f {
                i.stride = 0;
                fit(i);
            }
        }
        Fault::NoHeight(f) => {
            i.h = 0;
            if f {
                fit(i);
            }
        }
        Fault::Depth(d) => i.bit_depth = d,
        Fault::Width(d) => i.w = add(i.w, d),
        Fault::Height(d) => i.h = add(i.h, d),
        Fault::Huge(a, b) => {
            i.w = 1usize << a;
            i.h = 1usize << b;
            i.stride = 0;
        }
        Fault::HighStride(b) => {
            let step = 1usize << b;
            i.h = i.h.div_ceil(step).wrapping_mul(step);
            i.stride = i.w.wrapping_mul(i.n);
            fit(i);
            i.stride |= 1usize << (64 - b);
        }
    }
}

/// error codes that describe what is wrong with one image
fn problems<T: Elem>(i: &Img<T>, packed: bool, dst: bool) -> Vec<usize> {
    let mut v = vec![];
    if i.w == 0 || i.h == 0 {
        v.push(1);
    }
    let row = i.w as u128 * i.n as u128;
    let stride = if i.stride == 0 && !packed { row } else { i.stride as u128 };
    let most = usize::MAX as u128;
    if row.saturating_mul(i.h as u128) > most || row > most || stride.saturating_mul(i.h as u128) > most {
        v.push(if dst { 3 } else { 2 });
    }
    if stride.saturating_mul(i.h as u128) != i.d.len() as u128 {
        v.push(4);
    }
    if stride < row {
        v.push(5);
    }
    if dst && T::NAME == "u16" && !(1..=16).contains(&i.bit_depth) {
        v.push(6);
    }
    v
}

pub struct P12;
impl Prop for P12 {
    const ID: &'static str = "P12";
    const CASES: (u64, u64) = (600_000, 5_000_000);
    const RULE: &'static str = "a generated call (any entry point) gets 1..=3 generated faults in its images: wrong buffer \
        length, stride, empty side, side not matching the buffer, product of sides, or of stride and height, that overflows, bit depth; an \
        independent predicate says what is wrong; a call with something wrong must return an error of one of those \
        kinds, not panic, and leave the destination as it was, any other must succeed; non-trivial: something is wrong";
    type Case = Case;
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let fault = prop_oneof![
            2 => select(vec![-1, 1, -3, 4, -64, 64, -1000000]).prop_map(Fault::Len),
            2 => select(vec![-1, 1, -4, 4, -100000, 37]).prop_map(Fault::Stride),
            2 => select(vec![1, 2, 4, 7, 100000, 0, -1, -5]).prop_map(Fault::ShortStride),
            1 => any::<bool>().prop_map(Fault::NoWidth),
            1 => any::<bool>().prop_map(Fault::NoHeight),
            2 => select(vec![0usize, 1, 8, 16, 17, 18, 32, 64, usize::MAX]).prop_map(Fault::Depth),
            1 => select(vec![-1, 1, 3]).prop_map(Fault::Width),
            1 => select(vec![-1, 1, 3]).prop_map(Fault::Height),
            1 => (30u32..=63, 30u32..=63).prop_map(|(a, b)| Fault::Huge(a, b)),
            1 => (1u32..=6).prop_map(Fault::HighStride),
        ];
        let o = Opt::new(ALL_FMTS).filters(&all_filters()).premul(None).cap(900);
        let ops = prop_oneof![4 => op(o.clone(), (10, 3, 3)), 1 => op(o.same_size(), (10, 3, 3))];
        (ops, prop::collection::vec((any::<bool>(), fault), 1..=3)).prop_map(|(op, faults)| Case { op, faults }).boxed()
    }
    fn check(c: &Case) -> Outcome {
        set_level(&c.op.rc)?;
        let packed = matches!(c.op.kind, Kind::Packed(_));
        let (mut src, mut dst) = (c.op.src(), c.op.dst());
        for (d, f) in &c.faults {
            with_data!(if *d { &mut dst } else { &mut src }, i => put(i, *f));
        }
        // content beyond the depth is outside the domain, also where padding becomes content
        if let (Data::U16(s), Data::U16(d)) = (&mut src, &dst) {
            if (1..=12).contains(&d.bit_depth) {
                s.d.iter_mut().for_each(|v| *v = (*v).min((1 << d.bit_depth) - 1));
            }
        }
        let mut wrong = with_data!(&src, i => problems(i, packed, false));
        wrong.extend(with_data!(&dst, i => problems(i, packed, true)));
        let before = dst.raw();
        let r = c.op.apply(&c.op.tool(), &src, &mut dst);
        let what = || {
            let g = |d: &Data| with_data!(d, i => format!("{}x{} stride {} length {} depth {}", i.w, i.h, i.stride, i.d.len(), i.bit_depth));
            format!("{}: source {}, destination {}", c.op.describe(), g(&src), g(&dst))
        };
        match (r, wrong.is_empty()) {
            (Ok(()), true) => Ok(Info::new(false).label("valid")),
            (Err(e), true) => Err(format!("{}: refused though nothing is wrong: {e:?}", what())),
            (Ok(()), false) => Err(format!("{}: accepted, expected one of the errors {wrong:?}", what())),
            (Err(e), false) => {
                if !wrong.contains(&e.code()) {
                    return Err(format!("{}: refused with {e:?}, expected one of the errors {wrong:?}", what()));
                }
                if dst.raw() != before {
                    return Err(format!("{}: refused with {e:?}, but the destination was written", what()));
                }
                if e.to_string().is_empty() {
                    return Err("an error without a description".into());
                }
                Ok(Info::new(true).label(format!("code:{}", e.code())).label(c.op.family()))
            }
        }
    }
}
