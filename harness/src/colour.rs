//! The scalers that work in another colour space, and that space through `colorutils-rs`.

use crate::model::Plain;
use crate::run::*;
use colorutils_rs as cu;
#[cfg(feature = "colour")]
use pic_scale::*;
#[cfg(not(feature = "colour"))]
use pic_scale::{Scaling, ThreadingPolicy};
use cu::TransferFunction;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Tf {
    Srgb,
    Rec709,
    Gamma2p2,
    Gamma2p8,
    Smpte428,
    Linear,
}
pub const TFS: [Tf; 6] = [Tf::Srgb, Tf::Rec709, Tf::Gamma2p2, Tf::Gamma2p8, Tf::Smpte428, Tf::Linear];
impl Tf {
    fn get(self) -> TransferFunction {
        match self {
            Tf::Srgb => TransferFunction::Srgb,
            Tf::Rec709 => TransferFunction::Rec709,
            Tf::Gamma2p2 => TransferFunction::Gamma2p2,
            Tf::Gamma2p8 => TransferFunction::Gamma2p8,
            Tf::Smpte428 => TransferFunction::Smpte428,
            Tf::Linear => TransferFunction::Linear,
        }
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Space {
    Lab,
    Luv,
    Lch,
    Xyz,
    Sigmoidal,
    /// None: the default constructor, sRGB
    Linear(Option<Tf>),
    LinearApprox(Option<Tf>),
    Oklab(Tf),
    Jzazbz(Tf),
}
impl Space {
    pub fn name(&self) -> &'static str {
        match self {
            Space::Lab => "Lab",
            Space::Luv => "Luv",
            Space::Lch => "LCh",
            Space::Xyz => "XYZ",
            Space::Sigmoidal => "Sigmoidal",
            Space::Linear(_) => "Linear",
            Space::LinearApprox(_) => "LinearApprox",
            Space::Oklab(_) => "Oklab",
            Space::Jzazbz(_) => "Jzazbz",
        }
    }
    #[cfg(not(feature = "colour"))]
    pub fn scaler(&self, _: u32, _: Threads) -> Box<dyn Scaling> {
        panic!("built without colour spaces")
    }
    #[cfg(feature = "colour")]
    pub fn scaler(&self, func: u32, threads: Threads) -> Box<dyn Scaling> {
        let f = ResamplingFunction::from(func);
        let mut s: Box<dyn Scaling> = match *self {
            Space::Lab => Box::new(LabScaler::new(f)),
            Space::Luv => Box::new(LuvScaler::new(f)),
            Space::Lch => Box::new(LChScaler::new(f)),
            Space::Xyz => Box::new(XYZScaler::new(f)),
            Space::Sigmoidal => Box::new(SigmoidalScaler::new(f)),
            Space::Linear(None) => Box::new(LinearScaler::new(f)),
            Space::Linear(Some(t)) => Box::new(LinearScaler::new_with_transfer(f, t.get())),
            Space::LinearApprox(None) => Box::new(LinearApproxScaler::new(f)),
            Space::LinearApprox(Some(t)) => Box::new(LinearApproxScaler::new_with_transfer(f, t.get())),
            Space::Oklab(t) => Box::new(OklabScaler::new(f, t.get())),
            Space::Jzazbz(t) => Box::new(JzazbzScaler::new(f, LUMINANCE, t.get())),
        };
        s.set_threading_policy(threads.policy());
        s
    }
    pub fn resize(s: &dyn Scaling, premul: bool, src: &Img<u8>, dst: &mut Img<u8>) -> R {
        if src.n == 3 {
            s.resize_rgb(&src.store::<3>(), &mut dst.store_mut::<3>())
        } else {
            s.resize_rgba(&src.store::<4>(), &mut dst.store_mut::<4>(), premul)
        }
    }
    /// the components of an image in this space (for `LinearApprox`: 8-bit linear samples)
    pub fn forward(&self, p: &Plain) -> Plain {
        let (w, h) = (p.w as u32, p.h as u32);
        let rgb: Vec<u8> = p.d.iter().map(|v| *v as u8).collect();
        let st = w * p.n as u32;
        let mut f = vec![0f32; rgb.len()];
        let fs = st * 4;
        let four = p.n == 4;
        let srgb = TransferFunction::Srgb;
        let m = &cu::SRGB_TO_XYZ_D65;
        match *self {
            Space::Lab if four => cu::rgba_to_lab_with_alpha(&rgb, st, &mut f, fs, w, h, m, srgb),
            Space::Lab => cu::rgb_to_lab(&rgb, st, &mut f, fs, w, h, m, srgb),
            Space::Luv if four => cu::rgba_to_luv_with_alpha(&rgb, st, &mut f, fs, w, h, m, srgb),
            Space::Luv => cu::rgb_to_luv(&rgb, st, &mut f, fs, w, h, m, srgb),
            Space::Lch if four => cu::rgba_to_lch_with_alpha(&rgb, st, &mut f, fs, w, h, m, srgb),
            Space::Lch => cu::rgb_to_lch(&rgb, st, &mut f, fs, w, h, m, srgb),
            Space::Xyz if four => cu::rgba_to_xyz_with_alpha(&rgb, st, &mut f, fs, w, h, m, srgb),
            Space::Xyz => cu::srgb_to_xyz(&rgb, st, &mut f, fs, w, h),
            Space::Sigmoidal if four => cu::rgba_to_sigmoidal(&rgb, st, &mut f, fs, w, h),
            Space::Sigmoidal => cu::rgb_to_sigmoidal(&rgb, st, &mut f, fs, w, h),
            Space::Linear(t) if four => cu::rgba_to_linear(&rgb, st, &mut f, fs, w, h, t.map_or(srgb, Tf::get)),
            Space::Linear(t) => cu::rgb_to_linear(&rgb, st, &mut f, fs, w, h, t.map_or(srgb, Tf::get)),
            Space::Oklab(t) if four => cu::rgba_to_oklab(&rgb, st, &mut f, fs, w, h, t.get()),
            Space::Oklab(t) => cu::rgb_to_oklab(&rgb, st, &mut f, fs, w, h, t.get()),
            Space::Jzazbz(t) if four => cu::rgba_to_jzazbz(&rgb, st, &mut f, fs, w, h, LUMINANCE, t.get()),
            Space::Jzazbz(t) => cu::rgb_to_jzazbz(&rgb, st, &mut f, fs, w, h, LUMINANCE, t.get()),
            Space::LinearApprox(t) => {
                let mut o = vec![0u8; rgb.len()];
                let t = t.map_or(srgb, Tf::get);
                if four {
                    cu::rgba_to_linear_u8(&rgb, st, &mut o, st, w, h, t);
                } else {
                    cu::rgb_to_linear_u8(&rgb, st, &mut o, st, w, h, t);
                }
                f = o.iter().map(|v| *v as f32).collect();
            }
        }
        Plain { w: p.w, h: p.h, n: p.n, d: f.iter().map(|v| *v as f64).collect() }
    }
    /// 8-bit samples of components of this space, `n` per pixel
    pub fn back(&self, n: usize, comps: &[f32]) -> Vec<u8> {
        let w = (comps.len() / n) as u32;
        let (st, fs) = (w * n as u32, w * n as u32 * 4);
        let mut o = vec![0u8; comps.len()];
        let four = n == 4;
        let srgb = TransferFunction::Srgb;
        let m = &cu::XYZ_TO_SRGB_D65;
        match *self {
            Space::Lab if four => cu::lab_with_alpha_to_rgba(comps, fs, &mut o, st, w, 1, m, srgb),
            Space::Lab => cu::lab_to_srgb(comps, fs, &mut o, st, w, 1),
            Space::Luv if four => cu::luv_with_alpha_to_rgba(comps, fs, &mut o, st, w, 1, m, srgb),
            Space::Luv => cu::luv_to_rgb(comps, fs, &mut o, st, w, 1, m, srgb),
            Space::Lch if four => cu::lch_with_alpha_to_rgba(comps, fs, &mut o, st, w, 1, m, srgb),
            Space::Lch => cu::lch_to_rgb(comps, fs, &mut o, st, w, 1, m, srgb),
            Space::Xyz if four => cu::xyz_with_alpha_to_rgba(comps, fs, &mut o, st, w, 1, m, srgb),
            Space::Xyz => cu::xyz_to_srgb(comps, fs, &mut o, st, w, 1),
            Space::Sigmoidal if four => cu::sigmoidal_to_rgba(comps, fs, &mut o, st, w, 1),
            Space::Sigmoidal => cu::sigmoidal_to_rgb(comps, fs, &mut o, st, w, 1),
            Space::Linear(t) if four => cu::linear_to_rgba(comps, fs, &mut o, st, w, 1, t.map_or(srgb, Tf::get)),
            Space::Linear(t) => cu::linear_to_rgb(comps, fs, &mut o, st, w, 1, t.map_or(srgb, Tf::get)),
            Space::Oklab(t) if four => cu::oklab_to_rgba(comps, fs, &mut o, st, w, 1, t.get()),
            Space::Oklab(t) => cu::oklab_to_rgb(comps, fs, &mut o, st, w, 1, t.get()),
            Space::Jzazbz(t) if four => cu::jzazbz_to_rgba(comps, fs, &mut o, st, w, 1, LUMINANCE, t.get()),
            Space::Jzazbz(t) => cu::jzazbz_to_rgb(comps, fs, &mut o, st, w, 1, LUMINANCE, t.get()),
            Space::LinearApprox(t) => {
                let i: Vec<u8> = comps.iter().map(|v| *v as u8).collect();
                let t = t.map_or(srgb, Tf::get);
                if four {
                    cu::linear_u8_to_rgba(&i, st, &mut o, st, w, 1, t);
                } else {
                    cu::linear_u8_to_rgb(&i, st, &mut o, st, w, 1, t);
                }
            }
        }
        o
    }
}
pub const LUMINANCE: f32 = 203.0;

pub fn spaces() -> Vec<Space> {
    let mut v = vec![Space::Lab, Space::Luv, Space::Lch, Space::Xyz, Space::Sigmoidal];
    for t in TFS {
        v.push(Space::Linear(Some(t)));
        v.push(Space::LinearApprox(Some(t)));
        v.push(Space::Oklab(t));
        v.push(Space::Jzazbz(t));
    }
    v.push(Space::Linear(None));
    v.push(Space::LinearApprox(None));
    v
}
