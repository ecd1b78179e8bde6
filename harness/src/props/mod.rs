pub mod accuracy;
pub mod alpha;
pub mod ar30;
pub mod build;
pub mod capi;
pub mod channels;
pub mod colour_resize;
pub mod reject;
pub mod memory;
pub mod filters;
pub mod policy;
pub mod extension;
pub mod container;
pub mod constant;
pub mod history;
pub mod levels;
pub mod linear;
pub mod local;
pub mod same;
pub mod share;
pub mod stride;
pub mod symmetry;
pub mod threads;
pub mod nearest;

use crate::gen::RC;

/// Puts the level of the case in force and names the one that is.
pub fn set_level(c: &RC) -> Result<String, String> {
    if crate::isa::set_level(c.level_index()) {
        Ok(c.level.clone())
    } else {
        Ok("native (level not available here)".into())
    }
}

