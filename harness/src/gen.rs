//! Generators shared by the properties.

use crate::run::*;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
pub enum Fmt {
    U8,
    U16,
    F32,
    F16,
}
pub const ALL_FMTS: &[Fmt] = &[
    Fmt::U8,
    Fmt::U16,
    Fmt::F32,
    #[cfg(feature = "f16")]
    Fmt::F16,
];

/// Runs `$e` with `$t` bound to the element type of the format.
#[macro_export]
macro_rules! by_fmt {
    ($fmt:expr, $t:ident => $e:expr) => {
        match $fmt {
            $crate::gen::Fmt::U8 => {
                type $t = u8;
                $e
            }
            $crate::gen::Fmt::U16 => {
                type $t = u16;
                $e
            }
            $crate::gen::Fmt::F32 => {
                type $t = f32;
                $e
            }
            $crate::gen::Fmt::F16 => {
                #[cfg(feature = "f16")]
                {
                    type $t = $crate::run::F16;
                    $e
                }
                #[cfg(not(feature = "f16"))]
                {
                    panic!("f16 needs the full build")
                }
            }
        }
    };
}

/// One resize call, everything that determines it.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct RC {
    pub level: String,
    pub fmt: Fmt,
    pub n: usize,
    /// bit depth of u16 images
    pub depth: usize,
    pub sw: usize,
    pub sh: usize,
    pub dw: usize,
    pub dh: usize,
    pub filter: String,
    pub pat: Pattern,
    pub seed: u64,
    /// largest sample of float images
    pub fmax: f64,
    /// float content spans [-fmax, fmax]
    pub signed: bool,
    pub quality: bool,
    pub threads: Threads,
    pub spad: usize,
    pub dpad: usize,
    /// ask for alpha premultiplication (4 channels)
    pub premul: bool,
    pub apat: AlphaPattern,
    /// judged without the allowance for the known finding about weights above one
    #[serde(default)]
    pub strict: bool,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum AlphaPattern {
    /// as the colours
    Content,
    Opaque,
    Transparent,
    Constant,
    /// every pixel opaque but one
    OneOff,
    Binary,
    Low,
    Noise,
    /// all pixels but the first alike
    FirstOff,
}
const APATS: [AlphaPattern; 9] = [
    AlphaPattern::Content,
    AlphaPattern::Opaque,
    AlphaPattern::Transparent,
    AlphaPattern::Constant,
    AlphaPattern::OneOff,
    AlphaPattern::Binary,
    AlphaPattern::Low,
    AlphaPattern::Noise,
    AlphaPattern::FirstOff,
];

impl RC {
    pub fn func(&self) -> u32 {
        crate::model::filter_id(&self.filter)
    }
    pub fn level_index(&self) -> usize {
        level_index(&self.level)
    }
    pub fn params(&self) -> Params {
        Params { func: self.func(), premul: self.premul, quality: self.quality, threads: self.threads }
    }
    pub fn bit_depth(&self) -> usize {
        if self.fmt == Fmt::U16 {
            self.depth
        } else {
            0
        }
    }
    /// largest sample
    pub fn max(&self) -> f64 {
        match self.fmt {
            Fmt::U8 => 255.0,
            Fmt::U16 => ((1u32 << self.depth) - 1) as f64,
            _ => self.fmax,
        }
    }
    pub fn integer(&self) -> bool {
        matches!(self.fmt, Fmt::U8 | Fmt::U16)
    }
    pub fn limits(&self) -> Option<(f64, f64)> {
        self.integer().then(|| (0.0, self.max()))
    }
    /// fixed-point arithmetic is used for these samples (8 bit, and 16-bit storage up to 12 bit)
    pub fn fixed_point(&self) -> bool {
        self.fmt == Fmt::U8 || (self.fmt == Fmt::U16 && self.depth <= 12)
    }
    pub fn same_size(&self) -> bool {
        self.sw == self.dw && self.sh == self.dh
    }
    pub fn plain(&self) -> crate::model::Plain {
        let mut p = content(self.pat, self.seed, self.sw, self.sh, self.n, self.max(), self.integer());
        if self.signed && !self.integer() {
            p.d.iter_mut().for_each(|v| *v = 2.0 * *v - self.fmax);
        }
        if self.n == 4 {
            let mut r = Mix(self.seed ^ 0xA1FA);
            let m = self.max();
            let k = (r.unit() * m).round();
            let px = self.sw * self.sh;
            // the odd pixel is often one of the last ones, where vector loops hand over
            let odd = match r.below(3) {
                0 => px - 1 - r.below(8.min(px as u64)) as usize,
                1 => (r.below(self.sh as u64) as usize + 1) * self.sw - 1 - r.below(8.min(self.sw as u64)) as usize,
                _ => r.below(px as u64) as usize,
            };
            for i in 0..px {
                let v = match self.apat {
                    AlphaPattern::Content => {
                        let v = p.d[i * 4 + 3];
                        if self.signed {
                            v.abs()
                        } else {
                            v
                        }
                    }
                    AlphaPattern::Opaque => m,
                    AlphaPattern::Transparent => 0.0,
                    AlphaPattern::Constant => k,
                    AlphaPattern::OneOff => {
                        if i == odd {
                            k
                        } else {
                            m
                        }
                    }
                    AlphaPattern::Binary => {
                        if r.next() & 1 == 0 {
                            0.0
                        } else {
                            m
                        }
                    }
                    AlphaPattern::Low => r.unit() * m * 0.06,
                    AlphaPattern::Noise => r.unit() * m,
                    AlphaPattern::FirstOff => match (k as u64 % 2, i) {
                        (0, 0) => m,
                        (0, _) => (m / 2.0).floor(),
                        (_, 0) => 0.0,
                        _ => m,
                    },
                };
                p.d[i * 4 + 3] = if self.integer() { v.round().min(m) } else { v };
            }
        }
        p
    }
    pub fn src<T: Elem>(&self) -> Img<T> {
        Img::from_plain(&self.plain(), self.spad, self.bit_depth())
    }
    pub fn dst<T: Elem>(&self) -> Img<T> {
        Img::poisoned(self.dw, self.dh, self.n, self.dpad, self.bit_depth())
    }
    /// Performs the call on the given source.
    pub fn call<T: Api>(&self, src: &Img<T>) -> Result<Img<T>, String> {
        let mut d = self.dst::<T>();
        T::resize(&self.params().scaler(), self.premul, src, &mut d).map_err(|e| format!("valid resize rejected: {e:?}"))?;
        Ok(d)
    }
    pub fn kind(&self) -> &'static str {
        match (self.sw != self.dw, self.sh != self.dh) {
            (true, true) => "both",
            (true, false) => "horizontal",
            (false, true) => "vertical",
            _ => "copy",
        }
    }
    pub fn describe(&self) -> String {
        format!(
            "{:?}x{}{} {} {}x{}->{}x{} {} {:?}{}",
            self.fmt,
            self.n,
            if self.fmt == Fmt::U16 { format!(" depth {}", self.depth) } else { String::new() },
            self.filter,
            self.sw,
            self.sh,
            self.dw,
            self.dh,
            self.level,
            self.threads,
            if self.quality { " quality" } else { " speed" }
        )
    }
}

impl RC {
    /// The portable half-precision vertical pass converts the whole source for every output row:
    /// right, but quadratic in the height; such cases are cut.
    pub fn affordable(&mut self) {
        const MOST: usize = 250_000_000;
        let area = (self.sw * self.n + self.spad) * self.sh;
        if self.fmt == Fmt::F16 && area * self.dh > MOST && self.sh != self.dh {
            self.dh = (MOST / area).max(1);
            if self.same_size() {
                self.dh += 1;
            }
        }
    }
}

pub fn level_index(name: &str) -> usize {
    crate::isa::LEVELS.iter().position(|l| l.0 == name).expect("unknown level")
}

#[derive(Clone)]
pub struct Opt {
    pub fmts: Vec<Fmt>,
    pub ns: Vec<usize>,
    pub filters: Vec<u32>,
    pub same_size: bool,
    pub premul: Option<bool>,
    pub pad: bool,
    pub threads: bool,
    pub cap: usize,
    /// how often, in 200 cases, an image is larger than `cap`
    pub big: u32,
    /// sides of such images
    pub side: usize,
    pub pats: Vec<Pattern>,
    pub apats: Vec<AlphaPattern>,
}
impl Opt {
    pub fn new(fmts: &[Fmt]) -> Opt {
        Opt {
            fmts: fmts.to_vec(),
            ns: vec![1, 2, 3, 4],
            filters: (0..49).filter(|f| *f != crate::model::NEAREST).collect(),
            same_size: false,
            premul: Some(false),
            pad: true,
            threads: true,
            cap: 9_000,
            big: 1,
            side: 620,
            pats: PATTERNS.to_vec(),
            apats: APATS.to_vec(),
        }
    }
    pub fn ns(mut self, ns: &[usize]) -> Opt {
        self.ns = ns.to_vec();
        self
    }
    pub fn filters(mut self, f: &[u32]) -> Opt {
        self.filters = f.to_vec();
        self
    }
    pub fn pats(mut self, p: &[Pattern]) -> Opt {
        self.pats = p.to_vec();
        self
    }
    pub fn apats(mut self, p: &[AlphaPattern]) -> Opt {
        self.apats = p.to_vec();
        self
    }
    pub fn premul(mut self, p: Option<bool>) -> Opt {
        self.premul = p;
        self
    }
    pub fn cap(mut self, c: usize) -> Opt {
        self.cap = c;
        if c < 6_000 {
            self.big = 0;
        }
        self
    }
    pub fn side(mut self, s: usize) -> Opt {
        self.side = s;
        self
    }
    pub fn big(mut self, b: u32) -> Opt {
        self.big = b;
        self
    }
    pub fn same_size(mut self) -> Opt {
        self.same_size = true;
        self
    }
}

pub fn dim() -> BoxedStrategy<usize> {
    prop_oneof![
        3 => 1usize..=9,
        6 => 1usize..=40,
        3 => 41usize..=130,
        1 => 131usize..=420,
        1 => select(vec![8usize, 12, 16, 17, 24, 31, 32, 33, 48, 56, 63, 64, 65, 96, 127, 128, 129, 192, 255, 256, 257]),
    ]
    .boxed()
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Geo {
    pub sw: usize,
    pub sh: usize,
    pub dw: usize,
    pub dh: usize,
}

fn capped(a: usize, b: usize, cap: usize, wide: bool) -> (usize, usize) {
    // keep one of the two, cut the other
    if a * b <= cap {
        (a, b)
    } else if wide {
        (a, (cap / a).max(1))
    } else {
        ((cap / b).max(1), b)
    }
}

/// Images large enough for every automatic choice of threads (from 2^17 pixels on), or with a side
/// that does not fit 16 bits.
fn big(most: usize) -> BoxedStrategy<Geo> {
    let area = (300..=most, 440..=most, 300..=most, 440..=most, dim(), 0usize..8);
    let side = (4_200usize..=70_000, 1usize..=2, dim(), dim(), 0usize..6);
    prop_oneof![
        3 => area.prop_map(|(a, b, c, d, s, rel)| match rel {
            0..=1 => Geo { sw: a, sh: b, dw: c, dh: d },
            2 => Geo { sw: a, sh: b, dw: a, dh: d },
            3 => Geo { sw: a, sh: b, dw: c, dh: b },
            4 => Geo { sw: s, sh: s / 3 + 1, dw: c, dh: d },
            5 => Geo { sw: a, sh: b, dw: s, dh: s / 2 + 1 },
            6 => Geo { sw: s, sh: b, dw: c, dh: b },
            _ => Geo { sw: a, sh: s, dw: a, dh: d },
        }),
        1 => side.prop_map(|(a, k, s, t, rel)| match rel {
            0 => Geo { sw: a, sh: k, dw: s, dh: t.min(20) },
            1 => Geo { sw: k, sh: a, dw: t.min(20), dh: s },
            2 => Geo { sw: s, sh: k, dw: a, dh: 3 - k },
            3 => Geo { sw: k, sh: s, dw: 3 - k, dh: a },
            4 => Geo { sw: a, sh: k, dw: a / 2 + s, dh: k },
            _ => Geo { sw: k, sh: a, dw: k, dh: a / 2 + s },
        }),
    ]
    .prop_map(|mut g| {
        if (g.sw, g.sh) == (g.dw, g.dh) {
            g.dh += 1;
        }
        g
    })
    .boxed()
}

/// Source and destination sizes. `cap` bounds the pixels of either image, but for `large` in 200.
pub fn geo(cap: usize, same: bool, large: u32, side: usize) -> BoxedStrategy<Geo> {
    if same {
        let usual = (dim(), dim(), any::<bool>()).prop_map(move |(w, h, wide)| {
            let (sw, sh) = capped(w, h, cap, wide);
            Geo { sw, sh, dw: sw, dh: sh }
        });
        if large == 0 {
            return usual.boxed();
        }
        return prop_oneof![
            200 - large => usual,
            large => big(side).prop_map(|g| Geo { dw: g.sw, dh: g.sh, ..g }),
        ]
        .boxed();
    }
    let axis = || {
        (dim(), dim(), 0usize..20, 2usize..=9, 1usize..=3).prop_map(|(a, b, rel, k, t)| match rel {
            0..=9 => (a, b),
            10..=11 => (a, a),
            12 => (a, a * k.min(4)),
            13 => (a * k, a),
            14 => (a + 1, a),
            15 => (a, a + 1),
            16 => (a * k + t, t),
            17 => (t, b),
            18 => (a, t),
            _ => (a.max(2), (a / 2).max(1)),
        })
    };
    let usual = (axis(), axis(), any::<bool>(), any::<bool>(), 0usize..10);
    // long and thin images
    let long = (400usize..=4200, 1usize..=5, 400usize..=4200, 1usize..=5, 0usize..6);
    let small = prop_oneof![
        24 => usual.prop_map(move |((sw, dw), (sh, dh), w1, w2, one)| {
            let (sw, sh) = capped(sw, sh, cap, w1);
            let (mut dw, mut dh) = capped(dw, dh, cap, w2);
            match one {
                0..=1 => dw = sw,
                2..=3 => dh = sh,
                _ => {}
            }
            if (dw, dh) == (sw, sh) {
                dw += 1;
            }
            Geo { sw, sh, dw, dh }
        }),
        1 => long.prop_map(move |(a, b, c, d, rel)| {
            let mut g = match rel {
                0 => Geo { sw: a, sh: b, dw: c, dh: d },
                1 => Geo { sw: b, sh: a, dw: d, dh: c },
                2 => Geo { sw: a, sh: b, dw: d * 20, dh: b },
                3 => Geo { sw: b, sh: a, dw: b, dh: d * 20 },
                4 => Geo { sw: d * 20, sh: b, dw: c, dh: b },
                _ => Geo { sw: b, sh: d * 20, dw: b, dh: c },
            };
            if (g.sw, g.sh) == (g.dw, g.dh) {
                g.dh += 1;
            }
            g
        }),
    ];
    if large == 0 {
        return small.boxed();
    }
    prop_oneof![200 - large => small, large => big(side)].boxed()
}

pub fn threads() -> BoxedStrategy<Threads> {
    prop_oneof![
        24 => Just(Threads::Single),
        4 => (1usize..=9).prop_map(Threads::Fixed),
        2 => Just(Threads::Adaptive),
        1 => (10usize..=40).prop_map(Threads::Fixed),
    ]
    .boxed()
}

pub fn pad() -> BoxedStrategy<usize> {
    prop_oneof![12 => Just(0usize), 12 => 1usize..=9, 4 => 10usize..=70, 1 => 71usize..=3000].boxed()
}

pub fn level() -> BoxedStrategy<String> {
    (0..crate::isa::LEVELS.len()).prop_map(|i| crate::isa::LEVELS[i].0.to_string()).boxed()
}

pub fn rc(o: Opt) -> BoxedStrategy<RC> {
    let fmts = o.fmts.clone();
    let threads_s = if o.threads { threads() } else { Just(Threads::Single).boxed() };
    let pad_s = || if o.pad { pad() } else { Just(0usize).boxed() };
    let premul_s = match o.premul {
        Some(p) => Just(p).boxed(),
        None => any::<bool>().boxed(),
    };
    let pats = {
        // noise is the content that makes most mistakes visible
        let mut v = o.pats.clone();
        for p in [Pattern::Noise, Pattern::Extremes] {
            if o.pats.contains(&p) {
                v.push(p);
                v.push(p);
            }
        }
        v
    };
    (
        (level(), select(fmts), select(o.ns.clone()), prop_oneof![Just(16usize), 1usize..=16, select(vec![10usize, 12])]),
        geo(o.cap, o.same_size, o.big, o.side),
        (select(o.filters.clone()), select(pats), any::<u64>()),
        (select(vec![1.0f64, 1.0, 255.0, 0.01, 1000.0, 65535.0]), prop::bool::weighted(0.3), any::<bool>(), threads_s),
        (pad_s(), pad_s(), premul_s, select(o.apats.clone())),
    )
        .prop_map(|((level, fmt, n, depth), g, (f, pat, seed), (fmax, signed, quality, threads), (spad, dpad, premul, apat))| {
            let float = matches!(fmt, Fmt::F32 | Fmt::F16);
            let mut c = RC {
                level,
                fmt,
                n,
                depth: if fmt == Fmt::U16 { depth } else { 0 },
                sw: g.sw,
                sh: g.sh,
                dw: g.dw,
                dh: g.dh,
                filter: crate::model::FILTER_NAMES[f as usize].to_string(),
                pat,
                seed,
                fmax: match fmt {
                    Fmt::F32 => fmax,
                    // products with alpha must stay within half precision
                    Fmt::F16 => fmax.clamp(1.0, if premul && n == 4 { 100.0 } else { 1000.0 }),
                    _ => 0.0,
                },
                signed: signed && float,
                quality,
                threads,
                spad,
                dpad,
                premul: premul && n == 4,
                apat: if n == 4 { apat } else { AlphaPattern::Content },
                strict: false,
            };
            c.affordable();
            // wide padding is for images of few rows
            if c.spad > 70 && c.sh > 400 {
                c.spad %= 71;
            }
            if c.dpad > 70 && c.dh > 400 {
                c.dpad %= 71;
            }
            c
        })
        .boxed()
}
