//! One call of any entry point of the crate: the generic scaler, packed 10-bit images, or a scaler
//! of another colour space; with everything that determines its result.

use crate::ar30::*;
use crate::by_fmt;
use crate::colour::*;
use crate::gen::*;
use crate::run::*;
use pic_scale::*;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    Plain,
    Packed(Packing),
    Colour(Space),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Op {
    pub kind: Kind,
    pub rc: RC,
}

#[derive(Clone, Debug)]
pub enum Data {
    U8(Img<u8>),
    U16(Img<u16>),
    F32(Img<f32>),
    #[cfg(feature = "f16")]
    F16(Img<F16>),
}
pub trait Wrap: Elem {
    fn wrap(i: Img<Self>) -> Data;
    fn get(d: &Data) -> &Img<Self>;
    fn get_mut(d: &mut Data) -> &mut Img<Self>;
}
macro_rules! wrap {
    ($t:ty, $v:ident) => {
        impl Wrap for $t {
            fn wrap(i: Img<$t>) -> Data {
                Data::$v(i)
            }
            fn get(d: &Data) -> &Img<$t> {
                match d {
                    Data::$v(i) => i,
                    _ => unreachable!(),
                }
            }
            fn get_mut(d: &mut Data) -> &mut Img<$t> {
                match d {
                    Data::$v(i) => i,
                    _ => unreachable!(),
                }
            }
        }
    };
}
wrap!(u8, U8);
wrap!(u16, U16);
wrap!(f32, F32);
#[cfg(feature = "f16")]
wrap!(F16, F16);

/// Binds `$i` to the image inside.
#[macro_export]
macro_rules! with_data {
    ($d:expr, $i:ident => $e:expr) => {
        match $d {
            $crate::op::Data::U8($i) => $e,
            $crate::op::Data::U16($i) => $e,
            $crate::op::Data::F32($i) => $e,
            #[cfg(feature = "f16")]
            $crate::op::Data::F16($i) => $e,
        }
    };
}
impl Data {
    /// pixel content, row by row, without padding
    pub fn pixels(&self) -> Vec<u64> {
        with_data!(self, i => i.pixels())
    }
    /// the whole buffer
    pub fn raw(&self) -> Vec<u64> {
        with_data!(self, i => i.d.iter().map(|v| v.bits()).collect())
    }
    pub fn stride(&self) -> usize {
        with_data!(self, i => i.stride)
    }
    /// where the padding differs from another buffer of the same geometry
    pub fn padding_diff(&self, before: &Data) -> Option<(usize, usize)> {
        match (self, before) {
            (Data::U8(a), Data::U8(b)) => a.padding_diff(b),
            (Data::U16(a), Data::U16(b)) => a.padding_diff(b),
            (Data::F32(a), Data::F32(b)) => a.padding_diff(b),
            #[cfg(feature = "f16")]
            (Data::F16(a), Data::F16(b)) => a.padding_diff(b),
            _ => unreachable!(),
        }
    }
    /// position (x, y, channel) and bits of the first differing sample
    pub fn first_difference(&self, o: &Data) -> Option<((usize, usize, usize), u64, u64)> {
        let (a, b) = (self.pixels(), o.pixels());
        let (w, n) = with_data!(self, i => (i.w, i.n));
        assert_eq!(a.len(), b.len());
        let k = (0..a.len()).find(|&k| a[k] != b[k])?;
        Some(((k / n % w, k / n / w, k % n), a[k], b[k]))
    }
    pub fn varied(&self) -> bool {
        let p = self.pixels();
        p.iter().any(|v| *v != p[0])
    }
}

pub enum Tool {
    Scaler(Scaler),
    Colour(Box<dyn Scaling>),
}

impl Op {
    pub fn func(&self) -> u32 {
        self.rc.func()
    }
    /// channels of the stored image
    pub fn stored_n(&self) -> usize {
        if matches!(self.kind, Kind::Packed(_)) {
            4
        } else {
            self.rc.n
        }
    }
    pub fn src(&self) -> Data {
        match self.kind {
            Kind::Packed(p) => Data::U8(p.encode(&self.rc.plain(), crate::props::ar30::alpha(self.rc.seed), self.rc.spad)),
            _ => by_fmt!(self.rc.fmt, T => T::wrap(self.rc.src::<T>())),
        }
    }
    pub fn dst(&self) -> Data {
        match self.kind {
            Kind::Packed(_) => Data::U8(Img::poisoned(self.rc.dw, self.rc.dh, 4, self.rc.dpad, 0)),
            _ => by_fmt!(self.rc.fmt, T => T::wrap(self.rc.dst::<T>())),
        }
    }
    pub fn tool(&self) -> Tool {
        match self.kind {
            Kind::Colour(s) => Tool::Colour(s.scaler(self.func(), self.rc.threads)),
            _ => Tool::Scaler(self.rc.params().scaler()),
        }
    }
    pub fn apply(&self, tool: &Tool, src: &Data, dst: &mut Data) -> R {
        match (self.kind, tool) {
            (Kind::Packed(p), Tool::Scaler(s)) => p.resize(s, u8::get(src), u8::get_mut(dst)),
            (Kind::Colour(_), Tool::Colour(s)) => Space::resize(s.as_ref(), self.rc.premul, u8::get(src), u8::get_mut(dst)),
            (_, Tool::Scaler(s)) => {
                by_fmt!(self.rc.fmt, T => T::resize(s, self.rc.premul, T::get(src), T::get_mut(dst)))
            }
            _ => unreachable!(),
        }
    }
    /// the call with a fresh tool and a fresh destination
    pub fn run(&self) -> Result<Data, String> {
        let mut d = self.dst();
        self.apply(&self.tool(), &self.src(), &mut d).map_err(|e| format!("{}: valid resize rejected: {e:?}", self.describe()))?;
        Ok(d)
    }
    pub fn describe(&self) -> String {
        match self.kind {
            Kind::Plain => format!("{}{}", self.rc.describe(), if self.rc.premul { " premultiplied" } else { "" }),
            k => format!("{k:?} {}{}", self.rc.describe(), if self.rc.premul { " premultiplied" } else { "" }),
        }
    }
    pub fn family(&self) -> String {
        match self.kind {
            Kind::Plain => format!("{:?}x{}", self.rc.fmt, self.rc.n),
            Kind::Packed(p) => (if p.ra30 { "RA30" } else { "AR30" }).to_string(),
            Kind::Colour(s) => s.name().to_string(),
        }
    }
}

/// Weights of plain, packed and colour-space calls.
pub fn op(o: Opt, weights: (u32, u32, u32)) -> BoxedStrategy<Op> {
    let packed = (select(PACKINGS.to_vec()), rc(Opt { ns: vec![3], fmts: vec![Fmt::U16], premul: Some(false), ..o.clone() })).prop_map(
        |(p, mut rc)| {
            rc.fmt = Fmt::U16;
            rc.depth = 10;
            Op { kind: Kind::Packed(p), rc }
        },
    );
    let colour = (select(spaces()), rc(Opt { ns: vec![3, 4], fmts: vec![Fmt::U8], cap: o.cap.min(2500), ..o.clone() }))
        .prop_map(|(s, rc)| Op { kind: Kind::Colour(s), rc });
    let plain = rc(o).prop_map(|rc| Op { kind: Kind::Plain, rc });
    let mut parts: Vec<(u32, BoxedStrategy<Op>)> = vec![];
    for (w, s) in [(weights.0, plain.boxed()), (weights.1, packed.boxed()), (weights.2 * cfg!(feature = "colour") as u32, colour.boxed())] {
        if w > 0 {
            parts.push((w, s));
        }
    }
    proptest::strategy::Union::new_weighted(parts).boxed()
}

/// every filter, the nearest one included (twice as often as any other)
pub fn all_filters() -> Vec<u32> {
    let mut v: Vec<u32> = (0..49).collect();
    v.push(crate::model::NEAREST);
    v
}
