//! P16: image containers hold what they were given, over any history of operations.

use crate::engine::*;
use crate::run::*;
use pic_scale::*;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum How {
    New,
    Borrow,
    FromSlice,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    /// build a container of `w`x`h` from a buffer that is `delta` elements off
    Build { how: How, mutable: bool, w: usize, h: usize, delta: i32 },
    Alloc { w: usize, h: usize, depth: Option<usize> },
    /// zero-filled immutable image
    AllocShared { w: usize, h: usize },
    Write { at: u32, v: u32 },
    /// continue with a copy and spoil the original
    Copy,
    /// look at an immutable copy, spoil the original meanwhile
    Freeze,
    /// copy the pixels into a container with other padding and continue there
    Transfer { pad: usize },
    /// give the stride as zero ("from the width") when there is no padding
    ZeroStride,
    Depth { v: usize },
    /// resize and compare with the same image built anew
    Resize { w: usize, h: usize },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub fmt: crate::gen::Fmt,
    pub n: usize,
    pub steps: Vec<Step>,
}

fn mismatch<S>(r: Result<S, PicScaleError>, w: usize, h: usize, n: usize, len: usize) -> Result<Option<S>, String> {
    let want = w * h * n;
    match r {
        Ok(s) if len == want => Ok(Some(s)),
        Ok(_) => Err(format!("a {w}x{h} image of {n} channels accepts a buffer of {len}")),
        Err(PicScaleError::BufferMismatch(m)) if len != want => {
            if (m.expected, m.width, m.height, m.channels, m.slice_len) != (want, w, h, n, len) {
                return Err(format!("{m:?} reported for {w}x{h}x{n} from {len}"));
            }
            Ok(None)
        }
        Err(e) => Err(format!("a {w}x{h} image of {n} channels refuses a buffer of {len}: {e:?}")),
    }
}

/// What the mutable container is expected to hold.
struct Model<T> {
    img: Img<T>,
    zero: bool,
}

fn same<T: Elem>(m: &Model<T>, what: &str, n: usize, w: usize, h: usize, depth: usize, ch: usize, stride: usize, size: ImageSize, bytes: &[T]) -> Result<(), String> {
    let i = &m.img;
    if (w, h, depth, ch, stride) != (i.w, i.h, i.bit_depth, n, i.stride) {
        return Err(format!(
            "{what}: {w}x{h} depth {depth} channels {ch} stride {stride}, expected {}x{} depth {} channels {n} stride {}",
            i.w, i.h, i.bit_depth, i.stride
        ));
    }
    if (size.width, size.height) != (i.w, i.h) {
        return Err(format!("{what}: get_size is {size:?}"));
    }
    if bytes.len() != i.d.len() || bytes.iter().zip(&i.d).any(|(a, b)| a.bits() != b.bits()) {
        return Err(format!("{what}: the buffer differs"));
    }
    Ok(())
}

fn run<T: Api, const N: usize>(c: &Case) -> Outcome {
    let fresh = |w: usize, h: usize, k: usize| -> Img<T> {
        let mut i = Img::<T>::poisoned(w, h, N, 0, 0);
        for (j, v) in i.d.iter_mut().enumerate() {
            *v = T::from_f64(((j * 7 + k * 13) % 251) as f64);
        }
        i
    };
    let mut m = Model { img: fresh(2, 2, 0), zero: false };
    let mut store: ImageStoreMut<'static, T, N> =
        ImageStoreMut::new(m.img.d.clone(), 2, 2).map_err(|e| format!("{e:?}"))?;
    let mut used = 0;
    let spoil = |s: &mut ImageStoreMut<'_, T, N>| {
        for (j, v) in s.buffer.borrow_mut().iter_mut().enumerate() {
            *v = T::poison(j);
        }
    };
    for (k, step) in c.steps.iter().enumerate() {
        let at = |e: String| format!("{:?}x{N} step {k} {step:?}: {e}", c.fmt);
        match *step {
            Step::Build { how, mutable, w, h, delta } => {
                let mut img = fresh(w, h, k + 1);
                img.d.resize((img.d.len() as i64 + delta as i64).max(0) as usize, T::poison(k));
                let len = img.d.len();
                let mut d = img.d.clone();
                let built: Option<ImageStoreMut<'static, T, N>> = if mutable {
                    match how {
                        How::New => mismatch(ImageStoreMut::new(d, w, h), w, h, N, len),
                        How::Borrow => mismatch(ImageStoreMut::borrow(&mut d, w, h).map(|s| s.copied()), w, h, N, len),
                        How::FromSlice => mismatch(ImageStoreMut::from_slice(&mut d, w, h).map(|s| s.copied()), w, h, N, len),
                    }
                    .map_err(at)?
                } else {
                    let s: Option<ImageStore<'_, T, N>> = match how {
                        How::New => mismatch(ImageStore::new(d.clone(), w, h), w, h, N, len),
                        How::Borrow => mismatch(ImageStore::borrow(&d, w, h), w, h, N, len),
                        How::FromSlice => mismatch(ImageStore::from_slice(&d, w, h), w, h, N, len),
                    }
                    .map_err(at)?;
                    match s {
                        None => None,
                        Some(s) => {
                            let t = Model { img: img.clone(), zero: false };
                            same(&t, "built", N, s.width, s.height, s.bit_depth, s.channels, s.stride(), s.get_size(), s.as_bytes()).map_err(at)?;
                            let own = s.copied();
                            drop(s);
                            d.iter_mut().enumerate().for_each(|(j, v)| *v = T::poison(j));
                            same(&t, "copy", N, own.width, own.height, own.bit_depth, own.channels, own.stride(), own.get_size(), own.as_bytes()).map_err(at)?;
                            let b = own.buffer.to_vec();
                            Some(ImageStoreMut::new(b, w, h).map_err(|e| at(format!("{e:?}")))?)
                        }
                    }
                };
                if let Some(b) = built {
                    store = b;
                    m = Model { img, zero: false };
                    used += 1;
                }
            }
            Step::Alloc { w, h, depth } => {
                store = match depth {
                    None => ImageStoreMut::alloc(w, h),
                    Some(d) => ImageStoreMut::alloc_with_depth(w, h, d),
                };
                let mut img = fresh(w, h, 0);
                img.d.iter_mut().for_each(|v| *v = T::default());
                img.bit_depth = depth.unwrap_or(0);
                m = Model { img, zero: false };
            }
            Step::AllocShared { w, h } => {
                let s = ImageStore::<T, N>::alloc(w, h);
                let mut img = fresh(w, h, 0);
                img.d.iter_mut().for_each(|v| *v = T::default());
                let t = Model { img, zero: false };
                same(&t, "alloc", N, s.width, s.height, s.bit_depth, s.channels, s.stride(), s.get_size(), s.as_bytes()).map_err(at)?;
            }
            Step::Write { at, v } => {
                let len = m.img.d.len();
                if len > 0 {
                    let i = at as usize % len;
                    let v = T::from_f64((v % 256) as f64);
                    store.buffer.borrow_mut()[i] = v;
                    m.img.d[i] = v;
                    used += 1;
                }
            }
            Step::Copy => {
                let copy = store.copied();
                spoil(&mut store);
                store = copy;
                used += 1;
                m.zero = false;
            }
            Step::Freeze => {
                let again: ImageStoreMut<'static, T, N> = store.copied();
                let f = store.to_immutable();
                same(&m, "immutable", N, f.width, f.height, f.bit_depth, f.channels, f.stride(), f.get_size(), f.as_bytes()).map_err(at)?;
                let g: ImageStore<'static, T, N> = f.copied();
                drop(f);
                spoil(&mut store);
                same(&m, "copy of immutable", N, g.width, g.height, g.bit_depth, g.channels, g.stride(), g.get_size(), g.as_bytes()).map_err(at)?;
                store = again;
                m.zero = false;
            }
            Step::Transfer { pad } => {
                if m.img.w == 0 || m.img.h == 0 {
                    continue;
                }
                let mut img = Img::<T>::poisoned(m.img.w, m.img.h, N, pad, m.img.bit_depth);
                let mut into = ImageStoreMut::<T, N> {
                    buffer: BufferStore::Owned(img.d.clone()),
                    channels: N,
                    width: img.w,
                    height: img.h,
                    stride: img.stride,
                    bit_depth: img.bit_depth,
                };
                store.to_immutable().copied_to_mut(&mut into);
                for y in 0..img.h {
                    let o = y * img.stride;
                    img.d[o..o + img.w * N].copy_from_slice(m.img.row(y));
                }
                store = into;
                m = Model { img, zero: false };
                used += 1;
            }
            Step::ZeroStride => {
                if m.img.stride == m.img.w * N {
                    store.stride = 0;
                    m.zero = true;
                }
            }
            Step::Depth { v } => {
                store.bit_depth = v;
                m.img.bit_depth = v;
            }
            Step::Resize { w, h } => {
                if m.img.w == 0 || m.img.h == 0 {
                    continue;
                }
                let s = Scaler::new(ResamplingFunction::CatmullRom);
                let (mut a, mut b) = (Img::<T>::poisoned(w, h, N, 1, 10), Img::<T>::poisoned(w, h, N, 1, 10));
                T::resize_raw::<N>(&s, false, &store.to_immutable(), &mut a.store_mut::<N>()).map_err(|e| at(format!("{e:?}")))?;
                T::resize(&s, false, &m.img, &mut b).map_err(|e| at(format!("{e:?}")))?;
                if a.pixels() != b.pixels() {
                    return Err(at("a resize of the container differs from one of the same image built anew".into()));
                }
                used += 1;
            }
        }
        let e = |e: String| format!("{:?}x{N} after step {k} {step:?}: {e}", c.fmt);
        same(&m, "container", N, store.width, store.height, store.bit_depth, store.channels, store.stride(), store.get_size(), store.as_bytes()).map_err(e)?;
        if store.buffer.borrow().len() != m.img.d.len() {
            return Err(e("borrow gives another length".into()));
        }
    }
    Ok(Info::new(used >= 2).label(format!("{:?}x{N}", c.fmt)))
}

pub struct P16;
impl Prop for P16 {
    const ID: &'static str = "P16";
    const CASES: (u64, u64) = (1_500_000, 5_000_000);
    const RULE: &'static str = "a generated history of 1..=8 container operations (constructors with right and wrong buffer \
        lengths, allocation, writes, copies, freezing, transfer between strides, zero stride, bit depth, resizing) runs \
        next to a plain model; dimensions, stride, depth and every element must agree after each step, errors must name \
        the true numbers; non-trivial: at least two steps built, changed, copied or resized an image";
    type Case = Case;
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let side = || prop_oneof![10 => 1usize..12, 1 => Just(0usize)];
        let step = prop_oneof![
            3 => (select(vec![How::New, How::Borrow, How::FromSlice]), any::<bool>(), side(), side(),
                  select(vec![0, 0, 0, 0, 1, -1, 4, -4, 100]))
                .prop_map(|(how, mutable, w, h, delta)| Step::Build { how, mutable, w, h, delta }),
            1 => (side(), side(), prop::option::of(0usize..40)).prop_map(|(w, h, depth)| Step::Alloc { w, h, depth }),
            1 => (side(), side()).prop_map(|(w, h)| Step::AllocShared { w, h }),
            3 => (any::<u32>(), any::<u32>()).prop_map(|(at, v)| Step::Write { at, v }),
            3 => Just(Step::Copy),
            2 => Just(Step::Freeze),
            3 => (0usize..9).prop_map(|pad| Step::Transfer { pad }),
            1 => Just(Step::ZeroStride),
            1 => (0usize..20).prop_map(|v| Step::Depth { v }),
            2 => (1usize..14, 1usize..14).prop_map(|(w, h)| Step::Resize { w, h }),
        ];
        (select(crate::gen::ALL_FMTS.to_vec()), 1usize..=4, prop::collection::vec(step, 1..=8))
            .prop_map(|(fmt, n, steps)| Case { fmt, n, steps })
            .boxed()
    }
    fn check(c: &Case) -> Outcome {
        crate::by_fmt!(c.fmt, T => match c.n {
            1 => run::<T, 1>(c),
            2 => run::<T, 2>(c),
            3 => run::<T, 3>(c),
            _ => run::<T, 4>(c),
        })
    }
}
