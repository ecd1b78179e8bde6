//! 10-bit packed pixels, by the documented layout of the two formats and byte orders.

use crate::model::Plain;
use crate::run::*;
use pic_scale::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Packing {
    /// RGBA1010102 (red in the top bits) instead of RGBA2101010 (alpha in the top bits)
    pub ra30: bool,
    /// big endian instead of the byte order of the host
    pub network: bool,
}
impl Packing {
    pub fn pack(&self, p: [u32; 4]) -> [u8; 4] {
        let v = if self.ra30 {
            p[0] << 22 | p[1] << 12 | p[2] << 2 | p[3]
        } else {
            p[3] << 30 | p[2] << 20 | p[1] << 10 | p[0]
        };
        if self.network {
            v.to_be_bytes()
        } else {
            v.to_ne_bytes()
        }
    }
    pub fn unpack(&self, b: [u8; 4]) -> [u32; 4] {
        let v = if self.network { u32::from_be_bytes(b) } else { u32::from_ne_bytes(b) };
        if self.ra30 {
            [v >> 22 & 1023, v >> 12 & 1023, v >> 2 & 1023, v & 3]
        } else {
            [v & 1023, v >> 10 & 1023, v >> 20 & 1023, v >> 30]
        }
    }
    fn order(&self) -> Ar30ByteOrder {
        if self.network {
            Ar30ByteOrder::Network
        } else {
            Ar30ByteOrder::Host
        }
    }
    /// image of packed pixels (4 bytes each, `Img` of 4 channels of bytes)
    pub fn encode(&self, rgb: &Plain, alpha: impl Fn(usize) -> u32, pad: usize) -> Img<u8> {
        let mut i = Img::<u8>::poisoned(rgb.w, rgb.h, 4, pad, 0);
        for y in 0..rgb.h {
            for x in 0..rgb.w {
                let c = |k| rgb.at(x, y, k) as u32;
                let b = self.pack([c(0), c(1), c(2), alpha(y * rgb.w + x)]);
                let o = y * i.stride + x * 4;
                i.d[o..o + 4].copy_from_slice(&b);
            }
        }
        i
    }
    pub fn pixel(&self, i: &Img<u8>, x: usize, y: usize) -> [u32; 4] {
        let o = y * i.stride + x * 4;
        self.unpack(i.d[o..o + 4].try_into().unwrap())
    }
    /// colour channels as an image of 10-bit samples
    pub fn decode(&self, i: &Img<u8>) -> Img<u16> {
        let mut r = Img::<u16>::poisoned(i.w, i.h, 3, 0, 10);
        for y in 0..i.h {
            for x in 0..i.w {
                let p = self.pixel(i, x, y);
                for c in 0..3 {
                    r.d[(y * i.w + x) * 3 + c] = p[c] as u16;
                }
            }
        }
        r
    }
    pub fn resize_raw(
        &self,
        s: &Scaler,
        src: (&[u8], usize, ImageSize),
        dst: (&mut [u8], usize, ImageSize),
    ) -> R {
        if self.ra30 {
            s.resize_ra30(src.0, src.1, src.2, dst.0, dst.1, dst.2, self.order())
        } else {
            s.resize_ar30(src.0, src.1, src.2, dst.0, dst.1, dst.2, self.order())
        }
    }
    pub fn resize(&self, s: &Scaler, src: &Img<u8>, dst: &mut Img<u8>) -> R {
        let (ds, dz) = (dst.stride, ImageSize::new(dst.w, dst.h));
        self.resize_raw(s, (&src.d, src.stride, ImageSize::new(src.w, src.h)), (&mut dst.d, ds, dz))
    }
}
pub const PACKINGS: [Packing; 4] = [
    Packing { ra30: false, network: false },
    Packing { ra30: false, network: true },
    Packing { ra30: true, network: false },
    Packing { ra30: true, network: true },
];
