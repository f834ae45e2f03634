//! Instantiates the rig for some geometries (several small crates compile in parallel)
use rig::map::{MapDut, common};
use vcore::SharedCore;

pub fn open(core: &SharedCore, cache: usize) -> Option<Box<dyn MapDut>> {
    let (g, pages) = {
        let c = core.borrow();
        ((c.w, c.r, c.e), c.pages())
    };
    Some(match g {
        (1, 1, 48) => common::<1, 1, 48, 16>(core, cache, pages),
        (32, 1, 256) => common::<32, 1, 256, 16>(core, cache, pages),
        (1, 4, 96) => common::<1, 4, 96, 16>(core, cache, pages),
        (16, 8, 256) => common::<16, 8, 256, 16>(core, cache, pages),
        _ => return None,
    })
}
