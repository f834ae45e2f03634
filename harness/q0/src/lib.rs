//! Instantiates the rig for some geometries (several small crates compile in parallel)
use rig::queue::{QueueDut, full};
use vcore::SharedCore;

pub fn open(core: &SharedCore, cache: usize) -> Option<Box<dyn QueueDut>> {
    let (g, pages) = {
        let c = core.borrow();
        ((c.w, c.r, c.e), c.pages())
    };
    Some(match g {
        (4, 4, 64) if pages > 16 => full::<4, 4, 64, 320>(core, cache, pages),
        (4, 4, 64) => full::<4, 4, 64, 16>(core, cache, pages),
        (4, 1, 128) if pages > 16 => full::<4, 1, 128, 320>(core, cache, pages),
        (4, 1, 128) => full::<4, 1, 128, 16>(core, cache, pages),
        (8, 4, 128) if pages > 16 => full::<8, 4, 128, 320>(core, cache, pages),
        (8, 4, 128) => full::<8, 4, 128, 16>(core, cache, pages),
        _ => return None,
    })
}
