//! Opens map and queue storages of every available geometry and cache
use rig::map::MapDut;
use rig::queue::QueueDut;
use vcore::SharedCore;

pub fn open_map(core: &SharedCore, cache: usize) -> Box<dyn MapDut> {
    m0::open(core, cache)
        .or_else(|| m1::open(core, cache))
        .or_else(|| m2::open(core, cache))
        .or_else(|| m3::open(core, cache))
        .or_else(|| m4::open(core, cache))
        .expect("geometry not available")
}

pub fn open_queue(core: &SharedCore, cache: usize) -> Box<dyn QueueDut> {
    q0::open(core, cache).or_else(|| q1::open(core, cache)).expect("geometry not available")
}
