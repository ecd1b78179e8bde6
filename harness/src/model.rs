//! Reference model of the resampler, in f64, written from the definition of each filter and of the
//! window rule, and independent of the code under test.
//!
//! One axis of a resize is described by one `Tap` row per output position: first source index and
//! normalised weights.  Filters whose support ends in a jump (box, hamming, ...) make the result
//! depend on the last bit of the f32 position arithmetic of the crate, so the model produces, next
//! to the exact row, a few rows for positions moved by the rounding error f32 can introduce; an
//! output is accepted when it lies inside the hull of these alternatives (plus the tolerance).

use std::f64::consts::PI;

#[derive(Clone, Debug, PartialEq)]
pub struct Tap {
    pub start: usize,
    pub w: Vec<f64>,
}

/// All filters of the crate, in the numbering documented by `From<u32> for ResamplingFunction`.
pub const FILTER_NAMES: [&str; 49] = [
    "Bilinear", "Nearest", "Cubic", "MitchellNetravalli", "CatmullRom", "Hermite", "BSpline", "Hann", "Bicubic",
    "Hamming", "Hanning", "Blackman", "Welch", "Quadric", "Gaussian", "Sphinx", "Bartlett", "Robidoux",
    "RobidouxSharp", "Spline16", "Spline36", "Spline64", "Kaiser", "BartlettHann", "Box", "Bohman", "Lanczos2",
    "Lanczos3", "Lanczos4", "Lanczos2Jinc", "Lanczos3Jinc", "Lanczos4Jinc", "EwaHanning", "EwaRobidoux",
    "EwaBlackman", "EwaQuadric", "EwaRobidouxSharp", "EwaLanczos3Jinc", "Ginseng", "EwaGinseng", "EwaLanczosSharp",
    "EwaLanczos4Sharpest", "EwaLanczosSoft", "HaasnSoft", "Lagrange2", "Lagrange3", "Lanczos6", "Lanczos6Jinc",
    "Area",
];
pub const NEAREST: u32 = 1;
pub const AREA: u32 = 48;

pub fn filter_id(name: &str) -> u32 {
    FILTER_NAMES.iter().position(|n| *n == name).unwrap() as u32
}

fn bc(x: f64, b: f64, c: f64) -> f64 {
    let x = x.abs();
    if x < 1.0 {
        ((12.0 - 9.0 * b - 6.0 * c) * x.powi(3) + (-18.0 + 12.0 * b + 6.0 * c) * x * x + (6.0 - 2.0 * b)) / 6.0
    } else if x < 2.0 {
        ((-b - 6.0 * c) * x.powi(3)
            + (6.0 * b + 30.0 * c) * x * x
            + (-12.0 * b - 48.0 * c) * x
            + (8.0 * b + 24.0 * c))
            / 6.0
    } else {
        0.0
    }
}

fn sinc(x: f64) -> f64 {
    if x.abs() < 1e-4 {
        1.0 - x * x / 6.0
    } else {
        x.sin() / x
    }
}

extern "C" {
    /// Bessel function of the first kind, order one, of the C library.
    #[link_name = "j1"]
    fn bessel_j1(x: f64) -> f64;
}

pub fn j1(x: f64) -> f64 {
    unsafe { bessel_j1(x) }
}

/// J1(x)/x, with its limit at the origin.
pub fn jinc(x: f64) -> f64 {
    if x.abs() < 1e-4 {
        0.5 - x * x / 16.0
    } else {
        j1(x) / x
    }
}

fn lanczos(x: f64, a: f64) -> f64 {
    if x.abs() < a {
        sinc(PI * x) * sinc(PI * x / a)
    } else {
        0.0
    }
}
fn lanczos_jinc(x: f64, a: f64) -> f64 {
    if x.abs() < a {
        jinc(PI * x) * jinc(PI * x / a)
    } else {
        0.0
    }
}
fn hann1(x: f64) -> f64 {
    let x = x.abs();
    if x >= 1.0 {
        0.0
    } else {
        0.5 + 0.5 * (PI * x).cos()
    }
}
fn i0(x: f64) -> f64 {
    let (mut s, mut t, mut k) = (1.0, 1.0, 1.0);
    loop {
        t *= (x / (2.0 * k)) * (x / (2.0 * k));
        s += t;
        k += 1.0;
        if t < 1e-16 * s {
            return s;
        }
    }
}
fn lagrange(x: f64, support: usize) -> f64 {
    if x > support as f64 {
        return 0.0;
    }
    let n = (support as f64 + x).floor() as i64;
    let mut v = 1.0;
    for i in 0..(2 * support as i64) {
        if i != n {
            v *= (n as f64 - i as f64 - x) / (n as f64 - i as f64);
        }
    }
    v
}
fn poly3(x: f64, a: f64, b: f64, c: f64, d: f64) -> f64 {
    ((a * x + b) * x + c) * x + d
}

#[derive(Clone, Copy)]
pub struct Filter {
    pub kernel: fn(f64) -> f64,
    /// window function, its size and blur
    pub window: Option<(fn(f64) -> f64, f64, f64)>,
    pub size: f64,
    pub ewa: bool,
    pub resizable: bool,
}

const JINC_R3: f64 = 3.2383154841662362;
const JINC_R4: f64 = 4.2410628637960699;

pub fn filter(id: u32) -> Filter {
    let sq2 = std::f64::consts::SQRT_2;
    let _ = sq2;
    let f = |kernel: fn(f64) -> f64, size: f64| Filter { kernel, window: None, size, ewa: false, resizable: true };
    let fixed = |kernel: fn(f64) -> f64, size: f64| Filter { kernel, window: None, size, ewa: false, resizable: false };
    let win = |kernel: fn(f64) -> f64, w: fn(f64) -> f64, ws: f64, blur: f64, size: f64, ewa: bool| Filter {
        kernel,
        window: Some((w, ws, blur)),
        size,
        ewa,
        resizable: true,
    };
    let ewa = |mut x: Filter| {
        x.ewa = true;
        x
    };
    let robidoux: fn(f64) -> f64 = |x| {
        let s = std::f64::consts::SQRT_2;
        bc(x, 12.0 / (19.0 + 9.0 * s), 113.0 / (58.0 + 216.0 * s))
    };
    let robidoux_sharp: fn(f64) -> f64 = |x| {
        let s = std::f64::consts::SQRT_2;
        bc(x, 6.0 / (13.0 + 7.0 * s), 7.0 / (2.0 + 12.0 * s))
    };
    let blackman: fn(f64) -> f64 = |x| {
        let x = x.abs();
        if x < 2.0 {
            let w = 0.42 + 0.49656062 * (PI * x / 2.0).cos() + 0.07684867 * (PI * x).cos();
            sinc(PI * x) * w
        } else {
            0.0
        }
    };
    let quadric: fn(f64) -> f64 = |x| {
        let x = x.abs();
        if x < 0.5 {
            0.75 - x * x
        } else if x < 1.5 {
            0.5 * (x - 1.5) * (x - 1.5)
        } else {
            0.0
        }
    };
    let unit: fn(f64) -> f64 = |_| 1.0;
    match FILTER_NAMES[id as usize] {
        "Bilinear" | "Nearest" => f(|x| (1.0 - x.abs()).max(0.0), 2.0),
        "Cubic" | "BSpline" => f(|x| bc(x, 1.0, 0.0), 2.0),
        "MitchellNetravalli" => f(|x| bc(x, 1.0 / 3.0, 1.0 / 3.0), 2.0),
        "CatmullRom" | "Bicubic" => f(|x| bc(x, 0.0, 0.5), 2.0),
        "Hermite" => f(|x| bc(x, 0.0, 0.0), 2.0),
        "Hann" => f(
            |x| {
                if x.abs() > 2.0 {
                    0.0
                } else {
                    let r = (x * PI / 4.0).cos();
                    r * r / 4.0
                }
            },
            3.0,
        ),
        "Hamming" => f(
            |x| {
                let x = x.abs();
                if x >= 1.0 {
                    0.0
                } else {
                    0.54 + 0.46 * (PI * x).cos()
                }
            },
            2.0,
        ),
        "Hanning" => f(hann1, 2.0),
        "Blackman" => f(blackman, 2.0),
        "EwaBlackman" => ewa(f(blackman, 2.0)),
        "Welch" => f(|x| if x >= 1.0 { 0.0 } else { 1.0 - x * x }, 2.0),
        "Quadric" => f(quadric, 2.0),
        "EwaQuadric" => ewa(f(quadric, 2.0)),
        "Gaussian" => f(
            |x| {
                let s = 0.35f64;
                (1.0 / ((2.0 * PI).sqrt() * s)) * (-x * x / (2.0 * s * s)).exp()
            },
            2.0,
        ),
        "Sphinx" => f(
            |x| {
                let x = x * PI;
                if x.abs() < 1e-2 {
                    1.0 - x * x / 10.0
                } else {
                    3.0 * (x.sin() - x * x.cos()) / (x * x * x)
                }
            },
            2.0,
        ),
        "Bartlett" => f(|x| (1.0 - x.abs()).max(0.0), 2.0),
        "Robidoux" => f(robidoux, 2.0),
        "EwaRobidoux" => ewa(f(robidoux, 2.0)),
        "RobidouxSharp" => f(robidoux_sharp, 2.0),
        "EwaRobidouxSharp" => ewa(f(robidoux_sharp, 2.0)),
        "Spline16" => fixed(
            |x| {
                if x < 1.0 {
                    poly3(x, 1.0, -9.0 / 5.0, -1.0 / 5.0, 1.0)
                } else {
                    poly3(x - 1.0, -1.0 / 3.0, 4.0 / 5.0, -7.0 / 15.0, 0.0)
                }
            },
            2.0,
        ),
        "Spline36" => fixed(
            |x| {
                if x < 1.0 {
                    poly3(x, 13.0 / 11.0, -453.0 / 209.0, -3.0 / 209.0, 1.0)
                } else if x < 2.0 {
                    poly3(x - 1.0, -6.0 / 11.0, 270.0 / 209.0, -156.0 / 209.0, 0.0)
                } else {
                    poly3(x - 2.0, 1.0 / 11.0, -45.0 / 209.0, 26.0 / 209.0, 0.0)
                }
            },
            4.0,
        ),
        "Spline64" => fixed(
            |x| {
                if x < 1.0 {
                    poly3(x, 49.0 / 41.0, -6387.0 / 2911.0, -3.0 / 2911.0, 1.0)
                } else if x < 2.0 {
                    poly3(x - 1.0, -24.0 / 41.0, 4032.0 / 2911.0, -2328.0 / 2911.0, 0.0)
                } else if x < 3.0 {
                    poly3(x - 2.0, 6.0 / 41.0, -1008.0 / 2911.0, 582.0 / 2911.0, 0.0)
                } else {
                    poly3(x - 3.0, -1.0 / 41.0, 168.0 / 2911.0, -97.0 / 2911.0, 0.0)
                }
            },
            6.0,
        ),
        "Kaiser" => f(
            |x| {
                if x > 1.0 {
                    0.0
                } else {
                    i0(6.33 * (1.0 - x * x).max(0.0).sqrt()) / i0(6.33)
                }
            },
            2.0,
        ),
        "BartlettHann" => f(
            |x| {
                let x = x.abs();
                if x > 1.0 {
                    0.0
                } else {
                    0.62 - 0.24 * x + 0.38 * (PI * x).cos()
                }
            },
            2.0,
        ),
        "Box" | "Area" => f(unit, 2.0),
        "Bohman" => f(
            |x| {
                let x = x.abs();
                if x > 1.0 {
                    0.0
                } else {
                    (1.0 - x) * (PI * x).cos() + (PI * x).sin() / PI
                }
            },
            2.0,
        ),
        "Lanczos2" => f(|x| lanczos(x, 2.0), 2.0),
        "Lanczos3" => f(|x| lanczos(x, 3.0), 3.0),
        "Lanczos4" => f(|x| lanczos(x, 4.0), 4.0),
        "Lanczos6" => f(|x| lanczos(x, 6.0), 6.0),
        "Lanczos2Jinc" => f(|x| lanczos_jinc(x, 2.0), 2.0),
        "Lanczos3Jinc" => f(|x| lanczos_jinc(x, 3.0), 3.0),
        "EwaLanczos3Jinc" => ewa(f(|x| lanczos_jinc(x, 3.0), 3.0)),
        "Lanczos4Jinc" => f(|x| lanczos_jinc(x, 4.0), 4.0),
        "Lanczos6Jinc" => f(|x| lanczos_jinc(x, 6.0), 6.0),
        "EwaHanning" => win(jinc, hann1, 2.0, 0.0, 1.0, true),
        "Ginseng" => win(sinc, jinc, 3.0, 1.0, 3.0, false),
        "EwaGinseng" => win(sinc, jinc, JINC_R3, 1.0, 3.0, true),
        "EwaLanczosSharp" => win(jinc, jinc, JINC_R3, 0.9812505837223707, 3.0, true),
        "EwaLanczos4Sharpest" => win(jinc, jinc, JINC_R4, 0.8845120932605005, 4.0, true),
        "EwaLanczosSoft" => win(jinc, jinc, JINC_R3, 1.0164667662867047, 3.0, true),
        "HaasnSoft" => win(jinc, hann1, 3.0, 1.11, 3.0, false),
        "Lagrange2" => f(|x| lagrange(x, 2), 2.0),
        "Lagrange3" => f(|x| lagrange(x, 3), 3.0),
        other => unreachable!("{other}"),
    }
}

/// Ways the position arithmetic may be rounded: shift of the centre (in units of the f32 error
/// bound at this position) and relative error of the kernel argument.
/// A shift of 2 stands for a centre that falls exactly on a pixel centre or edge, when one is in reach.
const ALTS: [(f64, f64); 12] = [
    (0.0, 0.0),
    (-1.0, 0.0),
    (1.0, 0.0),
    (0.0, -1.0),
    (0.0, 1.0),
    (-1.0, -1.0),
    (-1.0, 1.0),
    (1.0, -1.0),
    (1.0, 1.0),
    (2.0, 0.0),
    (2.0, -1.0),
    (2.0, 1.0),
];

#[derive(Clone, Debug)]
pub struct Axis {
    pub func: u32,
    pub in_size: usize,
    pub out_size: usize,
    bases: Vec<usize>,
    /// the exact row of every output
    pub exact: Vec<Tap>,
    pub max_taps: usize,
}

fn shifted(x: f64, shift: f64) -> f64 {
    let bound = (x.abs() + 1.0) * 3e-7;
    if shift == 2.0 {
        let s = (x * 2.0).round() / 2.0;
        if (s - x).abs() <= bound {
            s
        } else {
            x
        }
    } else {
        x + shift * bound
    }
}

/// centre of output `i` and the `base` pixels whose centres are nearest to it
fn window(in_size: usize, scale: f64, base: usize, i: usize, shift: f64) -> (f64, usize, usize) {
    let cx = shifted((i as f64 + 0.5) * scale, shift).min(in_size as f64);
    let first = (cx - base as f64 / 2.0 + 0.5).floor();
    (cx, first.max(0.0) as usize, ((first + base as f64) as usize).min(in_size))
}

fn one_row(fl: &Filter, in_size: usize, out_size: usize, base: usize, i: usize, alt: (f64, f64)) -> Tap {
    let scale = in_size as f64 / out_size as f64;
    let cutoff = if fl.resizable { scale.max(1.0) } else { 1.0 };
    let (cx, start, end) = window(in_size, scale, base, i, alt.0);
    let center = cx - 0.5;
    let fs = (1.0 / cutoff) * (1.0 + alt.1 * 4e-7);
    let mut w = Vec::with_capacity(end.saturating_sub(start));
    for k in start..end {
        let dx = (k as f64 - center).abs();
        w.push(match fl.window {
            None => (fl.kernel)(dx * fs),
            Some((win, size, blur)) => {
                let x = if blur > 0.0 { dx / blur } else { dx };
                // the window is cut at `size` source pixels, its argument follows the filter scale
                let wv = if x * (1.0 + alt.1 * 4e-7) < size { win(x * fs * size) } else { 0.0 };
                wv * (fl.kernel)(x * fs)
            }
        });
    }
    if fl.ewa {
        for j in 1..w.len() {
            w[j] = 0.7 * w[j] + 0.3 * w[j - 1];
        }
    }
    let s: f64 = w.iter().sum();
    if s != 0.0 {
        for v in w.iter_mut() {
            *v /= s;
        }
    } else if !w.is_empty() {
        // a kernel that vanishes on every tap: the nearest source pixel
        w[(center.round().max(0.0) as usize).clamp(start, end - 1) - start] = 1.0;
    }
    Tap { start, w }
}

fn area_row(in_size: usize, out_size: usize, i: usize, alt: (f64, f64)) -> Tap {
    // OpenCV INTER_AREA when enlarging: a linear blend of two neighbours
    let scale = in_size as f64 / out_size as f64;
    let sx = shifted(i as f64 * scale, alt.0).floor().max(0.0);
    let fx = (i as f64 + 1.0) - (sx + 1.0) / scale * (1.0 + alt.1 * 2e-7);
    let dx = if fx <= 0.0 { 0.0 } else { fx - fx.floor() };
    let start = sx as usize;
    let size = 2.min(in_size - start.min(in_size - 1));
    let start = start.min(in_size - 1);
    let mut w = vec![1.0 - dx, dx];
    w.truncate(size);
    let s: f64 = w.iter().sum();
    if s != 0.0 {
        w.iter_mut().for_each(|v| *v /= s);
    } else {
        w[0] = 1.0;
    }
    Tap { start, w }
}

impl Axis {
    pub fn new(func: u32, in_size: usize, out_size: usize) -> Axis {
        let fl = filter(func);
        let scale32 = in_size as f32 / out_size as f32;
        let cutoff32 = if fl.resizable { scale32.max(1.0) } else { 1.0 };
        let base = (fl.size as f32 * cutoff32).round() as usize;
        let exact = fl.size * if fl.resizable { (in_size as f64 / out_size as f64).max(1.0) } else { 1.0 };
        let mut bases = vec![base];
        let tie = (exact - exact.floor() - 0.5).abs() < 1e-5 * exact;
        if tie {
            for b in [exact.floor() as usize, exact.ceil() as usize] {
                if !bases.contains(&b) {
                    bases.push(b);
                }
            }
        }
        let mut a = Axis { func, in_size, out_size, bases, exact: vec![], max_taps: 0 };
        a.exact = (0..out_size).map(|i| a.row(i, base, (0.0, 0.0))).collect();
        a.max_taps = a.exact.iter().map(|t| t.w.len()).max().unwrap_or(0);
        a
    }
    fn row(&self, i: usize, base: usize, alt: (f64, f64)) -> Tap {
        if self.func == AREA && self.in_size < self.out_size {
            area_row(self.in_size, self.out_size, i, alt)
        } else {
            one_row(&filter(self.func), self.in_size, self.out_size, base, i, alt)
        }
    }
    /// every admissible rounding of the row of output `i`, the exact one first
    pub fn alternatives(&self, i: usize) -> Vec<Tap> {
        self.bases.iter().flat_map(|b| ALTS.iter().map(|alt| self.row(i, *b, *alt))).collect()
    }
    /// source range of output `i` under every admissible rounding
    pub fn reach(&self, i: usize) -> (usize, usize) {
        if self.func == AREA && self.in_size < self.out_size {
            let a = self.alternatives(i);
            return a.iter().fold((usize::MAX, 0), |(lo, hi), t| (lo.min(t.start), hi.max(t.start + t.w.len())));
        }
        let scale = self.in_size as f64 / self.out_size as f64;
        let all = self.bases.iter().flat_map(|b| ALTS.iter().map(|alt| window(self.in_size, scale, *b, i, alt.0)));
        all.fold((usize::MAX, 0), |(lo, hi), (_, s, e)| (lo.min(s), hi.max(e)))
    }
    pub fn sum_abs(&self, i: usize) -> f64 {
        self.exact[i].w.iter().map(|v| v.abs()).sum()
    }
    /// by how much weights of output `i` exceed 1
    pub fn excess(&self, i: usize) -> f64 {
        self.exact[i].w.iter().map(|v| (v.abs() - 32767.0 / 32768.0).max(0.0)).sum()
    }
    /// largest disagreement between the alternatives at output `i`, as a sum of |weight| changes
    pub fn spread(&self, i: usize) -> f64 {
        let alts = self.alternatives(i);
        let lo = alts.iter().map(|t| t.start).min().unwrap();
        let hi = alts.iter().map(|t| t.start + t.w.len()).max().unwrap();
        let dense = |t: &Tap| {
            let mut v = vec![0.0; hi - lo];
            for (k, w) in t.w.iter().enumerate() {
                v[t.start - lo + k] = *w;
            }
            v
        };
        let a = dense(&alts[0]);
        alts[1..]
            .iter()
            .map(|r| a.iter().zip(dense(r)).map(|(x, y)| (x - y).abs()).sum::<f64>())
            .fold(0.0, f64::max)
    }
}

/// Image in f64, tightly packed.
#[derive(Clone, Debug)]
pub struct Plain {
    pub w: usize,
    pub h: usize,
    pub n: usize,
    pub d: Vec<f64>,
}
impl Plain {
    pub fn at(&self, x: usize, y: usize, c: usize) -> f64 {
        self.d[(y * self.w + x) * self.n + c]
    }
}

/// The reference resize: vertical pass first, then horizontal, each only when the size changes.
pub struct Reference<'a> {
    pub src: &'a Plain,
    pub v: Option<Axis>,
    pub h: Option<Axis>,
    /// storage limits of the intermediate and final image (integer formats)
    pub clamp: Option<(f64, f64)>,
    mid: Plain,
}

impl<'a> Reference<'a> {
    pub fn new(func: u32, src: &'a Plain, dw: usize, dh: usize, clamp: Option<(f64, f64)>) -> Reference<'a> {
        let v = (src.h != dh).then(|| Axis::new(func, src.h, dh));
        let h = (src.w != dw).then(|| Axis::new(func, src.w, dw));
        let mid = match &v {
            None => src.clone(),
            Some(ax) => {
                let mut d = vec![0.0; src.w * dh * src.n];
                let row = src.w * src.n;
                for y in 0..dh {
                    let t = &ax.exact[y];
                    let out = &mut d[y * row..(y + 1) * row];
                    for (k, wv) in t.w.iter().enumerate() {
                        let s = &src.d[(t.start + k) * row..(t.start + k + 1) * row];
                        for (o, i) in out.iter_mut().zip(s) {
                            *o += wv * i;
                        }
                    }
                    if let Some((lo, hi)) = clamp {
                        out.iter_mut().for_each(|o| *o = o.clamp(lo, hi));
                    }
                }
                Plain { w: src.w, h: dh, n: src.n, d }
            }
        };
        Reference { src, v, h, clamp, mid }
    }
    fn cl(&self, v: f64) -> f64 {
        match self.clamp {
            Some((lo, hi)) => v.clamp(lo, hi),
            None => v,
        }
    }
    /// exact value at an output pixel
    pub fn value(&self, x: usize, y: usize, c: usize) -> f64 {
        match &self.h {
            None => self.mid.at(x, y, c),
            Some(ax) => {
                let t = &ax.exact[x];
                let mut s = 0.0;
                for (k, w) in t.w.iter().enumerate() {
                    s += w * self.mid.at(t.start + k, y, c);
                }
                self.cl(s)
            }
        }
    }
    /// hull of the values over every admissible rounding of the positions
    pub fn hull(&self, x: usize, y: usize, c: usize) -> (f64, f64) {
        let vs: Vec<Option<Tap>> = match &self.v {
            Some(a) => a.alternatives(y).into_iter().map(Some).collect(),
            None => vec![None],
        };
        let hs: Vec<Option<Tap>> = match &self.h {
            Some(a) => a.alternatives(x).into_iter().map(Some).collect(),
            None => vec![None],
        };
        let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY);
        for vt in &vs {
            for ht in &hs {
                let col = |xx: usize| match vt {
                    None => self.src.at(xx, y, c),
                    Some(t) => {
                        self.cl(t.w.iter().enumerate().map(|(k, w)| w * self.src.at(xx, t.start + k, c)).sum::<f64>())
                    }
                };
                let v = match ht {
                    None => col(x),
                    Some(t) => self.cl(t.w.iter().enumerate().map(|(k, w)| w * col(t.start + k)).sum::<f64>()),
                };
                lo = lo.min(v);
                hi = hi.max(v);
            }
        }
        (lo, hi)
    }
    pub fn h_sum_abs(&self, x: usize) -> f64 {
        self.h.as_ref().map_or(1.0, |a| a.sum_abs(x))
    }
    pub fn v_sum_abs(&self, y: usize) -> f64 {
        self.v.as_ref().map_or(1.0, |a| a.sum_abs(y))
    }
    pub fn passes(&self) -> usize {
        self.v.is_some() as usize + self.h.is_some() as usize
    }
    pub fn taps_v(&self) -> usize {
        self.v.as_ref().map_or(0, |a| a.max_taps)
    }
    pub fn taps_h(&self) -> usize {
        self.h.as_ref().map_or(0, |a| a.max_taps)
    }
}
