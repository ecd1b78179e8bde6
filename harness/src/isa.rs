//! Selection of the instruction-set level the code under test believes it runs on.
//!
//! pic-scale picks its kernels at run time through `std::arch::is_x86_feature_detected!`.  That
//! macro reads a small cache kept by the standard library.  To exercise every kernel of one build
//! on one machine, the harness finds that cache in its own executable and *removes* features from
//! it (never adds any), so the code under test behaves as on an older CPU.  The meaning of each
//! bit is found by probing, so no knowledge of the enum behind the cache is built in.  When the
//! cache cannot be found only the native level is exercised (and the evidence shows it).

use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::OnceLock;

const WORDS: usize = 3;

fn find_cache() -> Option<&'static [AtomicUsize; WORDS]> {
    let exe = std::fs::read("/proc/self/exe").ok()?;
    let u16_ = |o: usize| -> Option<u64> { Some(u16::from_le_bytes(exe.get(o..o + 2)?.try_into().ok()?) as u64) };
    let u32_ = |o: usize| -> Option<u64> { Some(u32::from_le_bytes(exe.get(o..o + 4)?.try_into().ok()?) as u64) };
    let u64_ = |o: usize| -> Option<u64> { Some(u64::from_le_bytes(exe.get(o..o + 8)?.try_into().ok()?)) };
    if exe.get(0..4)? != b"\x7fELF" {
        return None;
    }
    let etype = u16_(16)?;
    let shoff = u64_(40)? as usize;
    let shentsize = u16_(58)? as usize;
    let shnum = u16_(60)? as usize;
    let mut cache_value = None;
    let mut anchor_value = None;
    for i in 0..shnum {
        let sh = shoff + i * shentsize;
        if u32_(sh + 4)? != 2 {
            continue; // SHT_SYMTAB
        }
        let off = u64_(sh + 24)? as usize;
        let size = u64_(sh + 32)? as usize;
        let link = u32_(sh + 40)? as usize;
        let str_off = u64_(shoff + link * shentsize + 24)? as usize;
        for s in (off..off + size).step_by(24) {
            let name = str_off + u32_(s)? as usize;
            let end = name + exe.get(name..)?.iter().position(|&c| c == 0)?;
            let name = &exe[name..end];
            let has = |needle: &[u8]| name.windows(needle.len()).any(|w| w == needle);
            if has(b"std_detect") && has(b"cache") && has(b"CACHE") {
                if u64_(s + 16)? as usize != WORDS * 8 || cache_value.is_some() {
                    return None;
                }
                cache_value = Some(u64_(s + 8)? as usize);
            }
            if name == b"psverif_isa_anchor" {
                anchor_value = Some(u64_(s + 8)? as usize);
            }
        }
    }
    let base = match etype {
        2 => 0usize,
        _ => (psverif_isa_anchor as *const () as usize).wrapping_sub(anchor_value?),
    };
    let addr = base.wrapping_add(cache_value?);
    // SAFETY: the address is that of a live static of exactly this size in this very executable.
    Some(unsafe { &*(addr as *const [AtomicUsize; WORDS]) })
}

#[no_mangle]
pub extern "C" fn psverif_isa_anchor() -> u32 {
    0x5053
}

macro_rules! feats {
    ($($n:tt),*) => {
        pub const FEATURES: &[&str] = &[$($n),*];
        /// in the target of the build, so never detected at run time
        const STATIC: &[bool] = &[$(cfg!(target_feature = $n)),*];
        pub fn detected() -> Vec<bool> { vec![$(std::arch::is_x86_feature_detected!($n)),*] }
    };
}
feats!("sse4.1", "f16c", "fma", "avx2", "avxvnni", "avx512f", "avx512bw", "avx512vnni", "avx512vbmi", "avx512fp16");

/// Levels modelled on real CPU generations; each entry is the list of features left visible.
pub const LEVELS: &[(&str, &[&str])] = &[
    ("native", FEATURES),
    ("scalar", &[]),
    ("sse41", &["sse4.1"]),
    ("sse41-f16c-fma", &["sse4.1", "f16c", "fma"]),
    ("avx2", &["sse4.1", "f16c", "fma", "avx2"]),
    ("avx2-nofma", &["sse4.1", "f16c", "avx2"]),
    ("avx2-vnni", &["sse4.1", "f16c", "fma", "avx2", "avxvnni"]),
    ("avx512", &["sse4.1", "f16c", "fma", "avx2", "avx512f", "avx512bw"]),
    (
        "avx512-vnni",
        &["sse4.1", "f16c", "fma", "avx2", "avxvnni", "avx512f", "avx512bw", "avx512vnni", "avx512vbmi"],
    ),
];

struct Probe {
    cache: &'static [AtomicUsize; WORDS],
    saved: Vec<usize>,
    place: Vec<(usize, usize)>,
    native: Vec<bool>,
}

static PROBE: OnceLock<Option<Probe>> = OnceLock::new();

fn probe() -> Option<Probe> {
    let native = detected();
    let cache = find_cache()?;
    let saved: Vec<usize> = cache.iter().map(|c| c.load(Ordering::SeqCst)).collect();
    let top = 1usize << (usize::BITS - 1);
    let mut place = vec![None; FEATURES.len()];
    for w in 0..WORDS {
        for b in 0..(usize::BITS as usize - 1) {
            for (i, c) in cache.iter().enumerate() {
                c.store(if i == w { top | (1 << b) } else { top }, Ordering::SeqCst);
            }
            for (f, on) in detected().into_iter().enumerate() {
                if on {
                    place[f] = Some((w, b));
                }
            }
        }
    }
    for (c, v) in cache.iter().zip(&saved) {
        c.store(*v, Ordering::SeqCst);
    }
    Some(Probe { cache, saved, place: place.into_iter().collect::<Option<Vec<_>>>()?, native })
}

/// Restricts feature detection to a level (index in `LEVELS`). Returns false when that is
/// impossible here; the native level is then in force. Must not race with calls of the code under
/// test, so it is called between cases only.
pub fn set_level(level: usize) -> bool {
    let Some(p) = PROBE.get_or_init(probe) else { return level == 0 };
    let keep = LEVELS[level].1;
    let mut words = p.saved.clone();
    for (f, name) in FEATURES.iter().enumerate() {
        if !keep.contains(name) && !STATIC[f] {
            words[p.place[f].0] &= !(1usize << p.place[f].1);
        }
    }
    for (c, v) in p.cache.iter().zip(words) {
        c.store(v, Ordering::SeqCst);
    }
    // what is visible now must be exactly native ∩ level
    let ok = detected().into_iter().enumerate().all(|(f, on)| on == (p.native[f] && (keep.contains(&FEATURES[f]) || STATIC[f])));
    if !ok {
        for (c, v) in p.cache.iter().zip(&p.saved) {
            c.store(*v, Ordering::SeqCst);
        }
    }
    ok
}
