//! Instantiates the rig for some geometries (several small crates compile in parallel)
use rig::queue::{QueueDut, common, rig};
use sequential_storage::cache::Cache;
use vcore::SharedCore;

pub fn open(core: &SharedCore, cache: usize) -> Option<Box<dyn QueueDut>> {
    let (g, pages) = {
        let c = core.borrow();
        ((c.w, c.r, c.e), c.pages())
    };
    Some(match g {
        (1, 1, 48) => common::<1, 1, 48, 16>(core, cache, pages),
        (32, 1, 256) => common::<32, 1, 256, 16>(core, cache, pages),
        (1, 4, 96) => common::<1, 4, 96, 16>(core, cache, pages),
        (16, 8, 256) => common::<16, 8, 256, 16>(core, cache, pages),
        (4, 4, 256) => common::<4, 4, 256, 16>(core, cache, pages),
        (2, 2, 64) => common::<2, 2, 64, 16>(core, cache, pages),
        (4, 32, 256) => common::<4, 32, 256, 16>(core, cache, pages),
        (4, 4, 1024) if pages > 16 => common::<4, 4, 1024, 320>(core, cache, pages),
        (4, 4, 1024) => common::<4, 4, 1024, 16>(core, cache, pages),
        (4, 4, 8192) => common::<4, 4, 8192, 16>(core, cache, pages),
        (4, 4, 131072) => rig::<4, 4, 131072, _>(core, Cache::new_uncached()),
        _ => return None,
    })
}
