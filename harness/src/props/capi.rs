//! P26: the C functions of /repo/picscale give what the Rust interface gives, wherever the rows lie.

use crate::by_fmt;
use crate::engine::*;
use crate::gen::*;
use crate::props::set_level;
use crate::run::*;
use pic_scale::*;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fault {
    None,
    SourceWidth,
    SourceHeight,
    TargetWidth,
    TargetHeight,
    SourceStride,
    TargetStride,
    Depth(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub rc: RC,
    pub multithreading: bool,
    /// bytes between a 16-byte boundary and the first pixel
    pub lead: (usize, usize),
    /// bytes after the pixels of each row
    pub pad: (usize, usize),
    /// rows end where accessible memory ends
    pub guard: bool,
    pub fault: Fault,
}

pub const FILTERS: [&str; 6] = ["Nearest", "Bilinear", "Lanczos3", "MitchellNetravalli", "Bicubic", "CatmullRom"];

struct Call {
    src: *const u8,
    src_stride: usize,
    size: (u32, u32),
    dst: *mut u8,
    dst_stride: usize,
    new: (u32, u32),
    depth: u32,
    filter: usize,
    flags: u32,
}

#[cfg(not(feature = "capi"))]
fn call(_: &RC, _: &Call) -> usize {
    panic!("built without the C interface")
}
#[cfg(feature = "capi")]
fn call(rc: &RC, c: &Call) -> usize {
    use picscale::*;
    let filter = match c.filter {
        0 => ScalingFilter::Nearest,
        1 => ScalingFilter::Bilinear,
        2 => ScalingFilter::Lanczos3,
        3 => ScalingFilter::MitchellNetravalli,
        4 => ScalingFilter::Bicubic,
        _ => ScalingFilter::CatmullRom,
    };
    let (w, h) = c.size;
    let (nw, nh) = c.new;
    macro_rules! plain {
        ($f:ident) => {
            $f(c.src as *const _, c.src_stride, w, h, c.dst as *mut _, c.dst_stride, nw, nh, filter, c.flags)
        };
    }
    macro_rules! deep {
        ($f:ident) => {
            $f(c.src as *const _, c.src_stride, w, h, c.dst as *mut _, c.dst_stride, nw, nh, c.depth, filter, c.flags)
        };
    }
    match (rc.fmt, rc.n) {
        (Fmt::U8, 1) => plain!(pic_scale_resize_planar8),
        (Fmt::U8, 2) => plain!(pic_scale_resize_cbcr8),
        (Fmt::U8, 3) => plain!(pic_scale_resize_rgb8),
        (Fmt::U8, _) => plain!(pic_scale_resize_rgba8),
        (Fmt::U16, 1) => deep!(pic_scale_resize_planar16),
        (Fmt::U16, 2) => deep!(pic_scale_resize_cbcr16),
        (Fmt::U16, 3) => deep!(pic_scale_resize_rgb16),
        (Fmt::U16, _) => deep!(pic_scale_resize_rgba16),
        (Fmt::F32, 1) => plain!(pic_scale_resize_planar_f32),
        (Fmt::F32, 2) => plain!(pic_scale_resize_cbcr_f32),
        (Fmt::F32, 3) => plain!(pic_scale_resize_rgb_f32),
        (Fmt::F32, _) => plain!(pic_scale_resize_rgba_f32),
        (Fmt::F16, 1) => plain!(pic_scale_resize_planar_f16),
        (Fmt::F16, 2) => plain!(pic_scale_resize_cbcr_f16),
        (Fmt::F16, 3) => plain!(pic_scale_resize_rgb_f16),
        (Fmt::F16, _) => plain!(pic_scale_resize_rgba_f16),
    }
}

/// Rows at a byte stride, in a block of memory of their own.
struct Bytes {
    d: Vec<u8>,
    at: usize,
    stride: usize,
}
impl Bytes {
    fn new(lead: usize, guard: bool, row: usize, pad: usize, h: usize) -> Bytes {
        let stride = row + pad;
        let room = if guard { 0 } else { 32 };
        let d: Vec<u8> = (0..room + stride * h).map(u8::poison).collect();
        let at = if guard { 0 } else { d.as_ptr().align_offset(16) + lead };
        Bytes { d, at, stride }
    }
    fn put<T: Elem>(&mut self, i: &Img<T>) {
        let size = std::mem::size_of::<T>();
        for y in 0..i.h {
            for x in 0..i.w * i.n {
                let o = self.at + y * self.stride + x * size;
                self.d[o..o + size].copy_from_slice(&i.d[y * i.stride + x].bits().to_le_bytes()[..size]);
            }
        }
    }
}

pub struct P26;
impl Prop for P26 {
    const ID: &'static str = "P26";
    const CASES: (u64, u64) = (80_000, 3_000_000);
    const RULE: &'static str = "a generated image of one of 16 types is resized through its C function from and to rows \
        at generated byte addresses and byte strides, some against inaccessible memory; the result must be 0 and the \
        pixels those of the Rust scaler, bit for bit, every other byte unchanged; calls with one fault must return a \
        code that names it and write nothing; non-trivial: sizes differ and the output is not uniform, or the call \
        was refused for its fault";
    type Case = Case;
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let ids: Vec<u32> = FILTERS.iter().map(|f| crate::model::filter_id(f)).collect();
        let o = Opt::new(ALL_FMTS).filters(&ids).premul(None).cap(4000);
        let r = prop_oneof![9 => rc(o.clone()), 1 => rc(o.same_size())];
        let lead = || prop_oneof![2 => Just(0usize), 1 => 1usize..16];
        let pad = || prop_oneof![3 => Just(0usize), 2 => (0usize..5).prop_map(|v| v * 4), 2 => 0usize..40];
        let fault = prop_oneof![
            14 => Just(Fault::None),
            3 => select(vec![
                Fault::SourceWidth, Fault::SourceHeight, Fault::TargetWidth, Fault::TargetHeight,
                Fault::SourceStride, Fault::TargetStride, Fault::Depth(0), Fault::Depth(17), Fault::Depth(300),
            ]),
        ];
        (r, any::<bool>(), (lead(), lead()), (pad(), pad()), prop::bool::weighted(0.3), fault)
            .prop_map(|(mut rc, multithreading, lead, pad, guard, fault)| {
                (rc.spad, rc.dpad, rc.quality, rc.threads) = (0, 0, false, Threads::Single);
                Case { rc, multithreading, lead, pad, guard, fault }
            })
            .boxed()
    }
    fn check(c: &Case) -> Outcome {
        set_level(&c.rc)?;
        by_fmt!(c.rc.fmt, T => one::<T>(c))
    }
}

fn one<T: Api>(c: &Case) -> Outcome {
    let rc = &c.rc;
    let src: Img<T> = rc.src();
    let mut want: Img<T> = rc.dst();
    let f = ResamplingFunction::from(rc.func());
    let mut tool = Scaler::new(f);
    tool.set_threading_policy(ThreadingPolicy::Single);
    T::resize(&tool, rc.premul, &src, &mut want).map_err(|e| format!("the scaler refuses a valid call: {e:?}"))?;

    let size = std::mem::size_of::<T>();
    let pixel = rc.n * size;
    if c.guard && !crate::guard::enable(1) {
        return Err("no address space for guarded memory".into());
    }
    let mut s = Bytes::new(c.lead.0, c.guard, rc.sw * pixel, c.pad.0, rc.sh);
    s.put(&src);
    let mut d = Bytes::new(c.lead.1, c.guard, rc.dw * pixel, c.pad.1, rc.dh);
    let before = d.d.clone();
    let mut k = Call {
        src: s.d[s.at..].as_ptr(),
        src_stride: s.stride,
        size: (rc.sw as u32, rc.sh as u32),
        dst: d.d[d.at..].as_mut_ptr(),
        dst_stride: d.stride,
        new: (rc.dw as u32, rc.dh as u32),
        depth: rc.depth as u32,
        filter: FILTERS.iter().position(|f| *f == rc.filter).expect("filter of the C interface"),
        flags: rc.premul as u32 | (c.multithreading as u32) << 1,
    };
    let fault = match c.fault {
        Fault::Depth(_) if rc.fmt != Fmt::U16 => Fault::None,
        f => f,
    };
    match fault {
        Fault::None => {}
        Fault::SourceWidth => k.size.0 = 0,
        Fault::SourceHeight => k.size.1 = 0,
        Fault::TargetWidth => k.new.0 = 0,
        Fault::TargetHeight => k.new.1 = 0,
        Fault::SourceStride => k.src_stride = rc.sw * pixel - 1 - c.pad.0 % (rc.sw * pixel),
        Fault::TargetStride => k.dst_stride = rc.dw * pixel - 1 - c.pad.1 % (rc.dw * pixel),
        Fault::Depth(v) => k.depth = v,
    }
    let code = call(rc, &k);
    crate::guard::disable();
    let text = || {
        format!(
            "{} {}address mod {size}: {} to {}, strides {} to {} bytes",
            rc.describe(),
            if rc.premul { "premultiplied " } else { "" },
            k.src as usize % size, k.dst as usize % size, k.src_stride, k.dst_stride
        )
    };
    if fault != Fault::None {
        let fits: &[usize] = match fault {
            Fault::SourceStride | Fault::TargetStride => &[4, 5],
            Fault::Depth(_) => &[6],
            _ => &[1],
        };
        if !fits.contains(&code) {
            return Err(format!("{}: {fault:?} gives code {code}, expected one of {fits:?}", text()));
        }
        if d.d != before {
            return Err(format!("{}: the refused call ({fault:?}) wrote to the destination", text()));
        }
        return Ok(Info::new(true).label(format!("refused:{fault:?}")));
    }
    if code != 0 {
        return Err(format!("{}: a valid call gives code {code}", text()));
    }
    let mut expected = Bytes { d: before, at: d.at, stride: d.stride };
    expected.put(&want);
    if let Some(o) = (0..d.d.len()).find(|&o| d.d[o] != expected.d[o]) {
        let (y, x) = if o < d.at { (0, usize::MAX) } else { ((o - d.at) / d.stride, (o - d.at) % d.stride) };
        return Err(format!(
            "{}: byte {x} of row {y} is {:#x}, expected {:#x}{}",
            text(), d.d[o], expected.d[o],
            if x >= rc.dw * pixel { " (outside the pixels)" } else { "" }
        ));
    }
    let moved = |p: usize, st: usize| p % std::mem::align_of::<T>() != 0 || st % size != 0;
    let p = want.pixels();
    Ok(Info::new(!rc.same_size() && p.iter().any(|v| *v != p[0]))
        .label(format!("{:?}x{}", rc.fmt, rc.n))
        .label(if moved(k.src as usize, k.src_stride) { "source unaligned" } else { "source aligned" })
        .label(if moved(k.dst as usize, k.dst_stride) { "target unaligned" } else { "target aligned" }))
}
