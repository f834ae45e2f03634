//! Instantiates the rig for some geometries (several small crates compile in parallel)
use rig::map::{MapDut, full};
use vcore::SharedCore;

pub fn open(core: &SharedCore, cache: usize) -> Option<Box<dyn MapDut>> {
    let (g, pages) = {
        let c = core.borrow();
        ((c.w, c.r, c.e), c.pages())
    };
    Some(match g {
        (4, 1, 128) if pages > 16 => full::<4, 1, 128, 320>(core, cache, pages),
        (4, 1, 128) => full::<4, 1, 128, 16>(core, cache, pages),
        _ => return None,
    })
}
