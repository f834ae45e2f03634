//! Instantiates the rig for some geometries (several small crates compile in parallel)
use rig::map::{MapDut, common, rig};
use sequential_storage::cache::Cache;
use vcore::SharedCore;

pub fn open(core: &SharedCore, cache: usize) -> Option<Box<dyn MapDut>> {
    let (g, pages) = {
        let c = core.borrow();
        ((c.w, c.r, c.e), c.pages())
    };
    Some(match g {
        (4, 4, 256) => common::<4, 4, 256, 16>(core, cache, pages),
        (2, 2, 64) => common::<2, 2, 64, 16>(core, cache, pages),
        (4, 32, 256) => common::<4, 32, 256, 16>(core, cache, pages),
        (4, 4, 1024) if pages > 16 => common::<4, 4, 1024, 320>(core, cache, pages),
        (4, 4, 1024) => common::<4, 4, 1024, 16>(core, cache, pages),
        (4, 4, 8192) => common::<4, 4, 8192, 16>(core, cache, pages),
        (4, 4, 131072) => rig::<4, 4, 131072, _>(core, Cache::new_uncached()),
        _ => return None,
    })
}
