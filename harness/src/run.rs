//! Calling the code under test with generated images, through its public API only.

use pic_scale::*;
use serde::{Deserialize, Serialize};
use std::fmt::Debug;

#[cfg(feature = "f16")]
pub type F16 = f16;

pub trait Elem: Copy + Clone + Debug + Default + Send + Sync + PartialEq + 'static {
    const NAME: &'static str;
    const INTEGER: bool;
    fn to_f64(self) -> f64;
    fn from_f64(v: f64) -> Self;
    fn bits(self) -> u64;
    /// element used to fill memory outside the image; never produced by a resize in these tests
    fn poison(i: usize) -> Self;
}
impl Elem for u8 {
    const NAME: &'static str = "u8";
    const INTEGER: bool = true;
    fn to_f64(self) -> f64 {
        self as f64
    }
    fn from_f64(v: f64) -> u8 {
        v as u8
    }
    fn bits(self) -> u64 {
        self as u64
    }
    fn poison(i: usize) -> u8 {
        (i.wrapping_mul(167) >> 2) as u8 ^ 0xA5
    }
}
impl Elem for u16 {
    const NAME: &'static str = "u16";
    const INTEGER: bool = true;
    fn to_f64(self) -> f64 {
        self as f64
    }
    fn from_f64(v: f64) -> u16 {
        v as u16
    }
    fn bits(self) -> u64 {
        self as u64
    }
    fn poison(i: usize) -> u16 {
        (i.wrapping_mul(40503) >> 3) as u16 ^ 0xA5C3
    }
}
impl Elem for f32 {
    const NAME: &'static str = "f32";
    const INTEGER: bool = false;
    fn to_f64(self) -> f64 {
        self as f64
    }
    fn from_f64(v: f64) -> f32 {
        v as f32
    }
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
    fn poison(i: usize) -> f32 {
        [f32::NAN, 1e30, -7e28, f32::INFINITY][i % 4]
    }
}
#[cfg(feature = "f16")]
impl Elem for f16 {
    const NAME: &'static str = "f16";
    const INTEGER: bool = false;
    fn to_f64(self) -> f64 {
        self as f64
    }
    fn from_f64(v: f64) -> f16 {
        v as f16
    }
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
    fn poison(i: usize) -> f16 {
        [f16::NAN, 6e4, -5e4, f16::INFINITY][i % 4]
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Threads {
    Single,
    Adaptive,
    Fixed(usize),
}
impl Threads {
    pub fn policy(self) -> ThreadingPolicy {
        match self {
            Threads::Single => ThreadingPolicy::Single,
            Threads::Adaptive => ThreadingPolicy::Adaptive,
            Threads::Fixed(n) => ThreadingPolicy::Fixed(n),
        }
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Params {
    pub func: u32,
    pub premul: bool,
    pub quality: bool,
    pub threads: Threads,
}
impl Params {
    pub fn plain(func: u32) -> Params {
        Params { func, premul: false, quality: false, threads: Threads::Single }
    }
    pub fn scaler(&self) -> Scaler {
        let mut s = Scaler::new(ResamplingFunction::from(self.func));
        s.set_workload_strategy(if self.quality {
            WorkloadStrategy::PreferQuality
        } else {
            WorkloadStrategy::PreferSpeed
        });
        s.set_threading_policy(self.threads.policy());
        s
    }
}

/// An image with its stride, as the caller of the crate would hold it.
#[derive(Clone, Debug, PartialEq)]
pub struct Img<T> {
    pub w: usize,
    pub h: usize,
    pub n: usize,
    pub stride: usize,
    pub bit_depth: usize,
    pub d: Vec<T>,
}
impl<T: Elem> Img<T> {
    pub fn poisoned(w: usize, h: usize, n: usize, pad: usize, bit_depth: usize) -> Img<T> {
        let stride = w * n + pad;
        Img { w, h, n, stride, bit_depth, d: (0..stride * h).map(T::poison).collect() }
    }
    pub fn from_plain(p: &crate::model::Plain, pad: usize, bit_depth: usize) -> Img<T> {
        let mut i = Img::poisoned(p.w, p.h, p.n, pad, bit_depth);
        for y in 0..p.h {
            for x in 0..p.w * p.n {
                i.d[y * i.stride + x] = T::from_f64(p.d[y * p.w * p.n + x]);
            }
        }
        i
    }
    pub fn plain(&self) -> crate::model::Plain {
        let mut d = Vec::with_capacity(self.w * self.h * self.n);
        for y in 0..self.h {
            d.extend(self.row(y).iter().map(|v| v.to_f64()));
        }
        crate::model::Plain { w: self.w, h: self.h, n: self.n, d }
    }
    pub fn row(&self, y: usize) -> &[T] {
        &self.d[y * self.stride..y * self.stride + self.w * self.n]
    }
    pub fn at(&self, x: usize, y: usize, c: usize) -> T {
        self.d[y * self.stride + x * self.n + c]
    }
    /// pixel content as bits, without padding
    pub fn pixels(&self) -> Vec<u64> {
        (0..self.h).flat_map(|y| self.row(y).iter().map(|v| v.bits())).collect()
    }
    /// where padding differs from another image of the same geometry
    pub fn padding_diff(&self, before: &Img<T>) -> Option<(usize, usize)> {
        for y in 0..self.h {
            for i in self.w * self.n..self.stride {
                if self.d[y * self.stride + i].bits() != before.d[y * self.stride + i].bits() {
                    return Some((i, y));
                }
            }
        }
        None
    }
    pub fn store<const N: usize>(&self) -> ImageStore<'_, T, N> {
        ImageStore {
            buffer: std::borrow::Cow::Borrowed(&self.d),
            channels: N,
            width: self.w,
            height: self.h,
            stride: self.stride,
            bit_depth: self.bit_depth,
        }
    }
    pub fn store_mut<const N: usize>(&mut self) -> ImageStoreMut<'_, T, N> {
        ImageStoreMut {
            buffer: BufferStore::Borrowed(&mut self.d),
            channels: N,
            width: self.w,
            height: self.h,
            stride: self.stride,
            bit_depth: self.bit_depth,
        }
    }
}

pub type R = Result<(), PicScaleError>;

/// One resize entry point of the crate, selected by element type and channel count.
pub trait Api: Elem {
    fn resize(s: &Scaler, premul: bool, src: &Img<Self>, dst: &mut Img<Self>) -> R;
    fn resize_raw<const N: usize>(
        s: &Scaler,
        premul: bool,
        src: &ImageStore<Self, N>,
        dst: &mut ImageStoreMut<Self, N>,
    ) -> R;
    /// the extension trait `ImageStoreScaling`
    fn scale(src: &Img<Self>, dst: &mut Img<Self>, o: ScalingOptions) -> R;
}

// the const-generic call is routed by channel count: the four arms are the four public methods
macro_rules! api {
    ($t:ty, $n1:ident, $n2:ident, $n3:ident, $n4:ident) => {
        impl Api for $t {
            fn resize(s: &Scaler, premul: bool, src: &Img<$t>, dst: &mut Img<$t>) -> R {
                assert_eq!(src.n, dst.n);
                match src.n {
                    1 => s.$n1(&src.store::<1>(), &mut dst.store_mut::<1>()),
                    2 => s.$n2(&src.store::<2>(), &mut dst.store_mut::<2>()),
                    3 => s.$n3(&src.store::<3>(), &mut dst.store_mut::<3>()),
                    4 => s.$n4(&src.store::<4>(), &mut dst.store_mut::<4>(), premul),
                    _ => unreachable!(),
                }
            }
            fn resize_raw<const N: usize>(
                s: &Scaler,
                premul: bool,
                src: &ImageStore<$t, N>,
                dst: &mut ImageStoreMut<$t, N>,
            ) -> R {
                fn re<'a, const N: usize, const M: usize>(s: &ImageStore<'a, $t, N>) -> ImageStore<'a, $t, M> {
                    ImageStore {
                        buffer: s.buffer.clone(),
                        channels: s.channels,
                        width: s.width,
                        height: s.height,
                        stride: s.stride,
                        bit_depth: s.bit_depth,
                    }
                }
                fn rm<'a, const N: usize, const M: usize>(
                    s: &'a mut ImageStoreMut<'_, $t, N>,
                ) -> ImageStoreMut<'a, $t, M> {
                    ImageStoreMut {
                        buffer: BufferStore::Borrowed(s.buffer.borrow_mut()),
                        channels: s.channels,
                        width: s.width,
                        height: s.height,
                        stride: s.stride,
                        bit_depth: s.bit_depth,
                    }
                }
                match N {
                    1 => s.$n1(&re::<N, 1>(src), &mut rm::<N, 1>(dst)),
                    2 => s.$n2(&re::<N, 2>(src), &mut rm::<N, 2>(dst)),
                    3 => s.$n3(&re::<N, 3>(src), &mut rm::<N, 3>(dst)),
                    4 => s.$n4(&re::<N, 4>(src), &mut rm::<N, 4>(dst), premul),
                    _ => unreachable!(),
                }
            }
            fn scale(src: &Img<$t>, dst: &mut Img<$t>, o: ScalingOptions) -> R {
                match src.n {
                    1 => src.store::<1>().scale(&mut dst.store_mut::<1>(), o),
                    2 => src.store::<2>().scale(&mut dst.store_mut::<2>(), o),
                    3 => src.store::<3>().scale(&mut dst.store_mut::<3>(), o),
                    4 => src.store::<4>().scale(&mut dst.store_mut::<4>(), o),
                    _ => unreachable!(),
                }
            }
        }
    };
}
api!(u8, resize_plane, resize_cbcr8, resize_rgb, resize_rgba);
api!(u16, resize_plane_u16, resize_cbcr_u16, resize_rgb_u16, resize_rgba_u16);
api!(f32, resize_plane_f32, resize_cbcr_f32, resize_rgb_f32, resize_rgba_f32);
#[cfg(feature = "f16")]
api!(f16, resize_plane_f16, resize_cbcr_f16, resize_rgb_f16, resize_rgba_f16);

/// splitmix64, used only to expand one generated seed into image content
pub struct Mix(pub u64);
impl Mix {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Pattern {
    Zero,
    Max,
    Constant,
    Noise,
    Extremes,
    Gradient,
    Impulse,
    Checker,
}
pub const PATTERNS: [Pattern; 8] = [
    Pattern::Zero,
    Pattern::Max,
    Pattern::Constant,
    Pattern::Noise,
    Pattern::Extremes,
    Pattern::Gradient,
    Pattern::Impulse,
    Pattern::Checker,
];

/// Image content: a pure function of pattern, seed, geometry and the largest value. `integer`
/// rounds samples to whole numbers.
pub fn content(p: Pattern, seed: u64, w: usize, h: usize, n: usize, max: f64, integer: bool) -> crate::model::Plain {
    let mut r = Mix(seed);
    let mut d = Vec::with_capacity(w * h * n);
    let consts: Vec<f64> = (0..n).map(|_| r.unit() * max).collect();
    let (ix, iy) = (r.below(w as u64) as usize, r.below(h as u64) as usize);
    let (gx, gy) = (r.unit(), r.unit());
    for y in 0..h {
        for x in 0..w {
            for c in 0..n {
                let v = match p {
                    Pattern::Zero => 0.0,
                    Pattern::Max => max,
                    Pattern::Constant => consts[c],
                    Pattern::Noise => r.unit() * max,
                    Pattern::Extremes => {
                        if r.next() & 1 == 0 {
                            0.0
                        } else {
                            max
                        }
                    }
                    Pattern::Gradient => {
                        let t = gx * x as f64 / w as f64 + gy * y as f64 / h as f64;
                        ((t * (c + 1) as f64) % 1.0) * max
                    }
                    Pattern::Impulse => {
                        if x == ix && y == iy {
                            max
                        } else {
                            0.0
                        }
                    }
                    Pattern::Checker => {
                        if (x + y + c) & 1 == 0 {
                            max
                        } else {
                            consts[c] * 0.25
                        }
                    }
                };
                d.push(if integer { v.round().min(max) } else { v });
            }
        }
    }
    crate::model::Plain { w, h, n, d }
}
