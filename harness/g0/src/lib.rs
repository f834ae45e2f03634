//! Configuration constructors for many geometries, and storages on the smallest possible pages
use rig::Geom;
use rig::map::MapDut;
use rig::queue::QueueDut;
use sequential_storage::cache::Cache;
use sequential_storage::map::{MapConfig, MapConfigError as M};
use sequential_storage::queue::{QueueConfig, QueueConfigError as Q};
use std::ops::Range;
use std::panic::catch_unwind;
use vcore::{MonFlash, SharedCore};

/// What a constructor returned
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Ret {
    Accepted,
    Start,
    End,
    Range,
    Pages,
    Word,
    Panicked,
}

/// The fallible and the panicking constructor
pub type Both = (Ret, Ret);

fn map<const W: usize, const R: usize, const E: usize>(range: Range<u32>) -> Both {
    let r = range.clone();
    let a = catch_unwind(|| match MapConfig::<MonFlash<W, R, E>>::try_new(r) {
        Ok(_) => Ret::Accepted,
        Err(M::StartRangeNotAtPageBoundary) => Ret::Start,
        Err(M::EndRangeNotAtPageBoundary) => Ret::End,
        Err(M::RangeTooSmall) => Ret::Range,
        Err(M::PagesTooSmall) => Ret::Pages,
        Err(M::WordSizeTooLarge) => Ret::Word,
    });
    let b = catch_unwind(|| drop(MapConfig::<MonFlash<W, R, E>>::new(range)));
    (a.unwrap_or(Ret::Panicked), if b.is_ok() { Ret::Accepted } else { Ret::Panicked })
}

fn queue<const W: usize, const R: usize, const E: usize>(range: Range<u32>) -> Both {
    let r = range.clone();
    let a = catch_unwind(|| match QueueConfig::<MonFlash<W, R, E>>::try_new(r) {
        Ok(_) => Ret::Accepted,
        Err(Q::StartRangeNotAtPageBoundary) => Ret::Start,
        Err(Q::EndRangeNotAtPageBoundary) => Ret::End,
        Err(Q::RangeTooSmall) => Ret::Range,
        Err(Q::PagesTooSmall) => Ret::Pages,
        Err(Q::WordSizeTooLarge) => Ret::Word,
    });
    let b = catch_unwind(|| drop(QueueConfig::<MonFlash<W, R, E>>::new(range)));
    (a.unwrap_or(Ret::Panicked), if b.is_ok() { Ret::Accepted } else { Ret::Panicked })
}

pub struct Entry {
    pub g: Geom,
    pub map: fn(Range<u32>) -> Both,
    pub queue: fn(Range<u32>) -> Both,
}

macro_rules! table {
    ($(($w:literal, $r:literal, $e:expr)),* $(,)?) => {
        &[$(Entry { g: ($w, $r, $e), map: map::<$w, $r, { $e }>, queue: queue::<$w, $r, { $e }> }),*]
    };
}

pub const TABLE: &[Entry] = table![
    // Smallest possible pages and one step less
    (1, 1, 11), (1, 1, 10), (1, 1, 8), (1, 1, 1),
    (2, 2, 14), (2, 2, 12), (1, 2, 14), (2, 1, 14), (2, 1, 12),
    (4, 4, 20), (4, 4, 16), (4, 1, 20), (4, 1, 16), (1, 4, 20), (1, 4, 16), (4, 4, 4),
    (8, 8, 32), (8, 8, 24), (8, 1, 32), (4, 8, 32), (1, 8, 24),
    (16, 16, 64), (16, 16, 48), (16, 4, 64), (4, 16, 48),
    (32, 32, 128), (32, 32, 96), (32, 1, 128), (1, 32, 128), (1, 32, 96), (32, 32, 32),
    // Words that are too large
    (64, 64, 4096), (64, 1, 4096), (1, 64, 4096), (64, 64, 256), (64, 64, 64), (128, 4, 512), (256, 256, 256),
    // Ordinary ones
    (4, 4, 64), (4, 1, 256), (1, 1, 4096), (8, 4, 2048), (32, 32, 131_072), (4, 4, 65_536), (2, 2, 1 << 20),
    // Very large pages
    (4, 4, 1 << 24), (4, 4, 1 << 30), (4, 4, 1 << 31), (1, 1, 3 << 30), (1, 1, u32::MAX as usize), (1, 1, 1_431_655_765),
];

pub const USABLE: &[Geom] = &[
    (1, 1, 11),
    (2, 2, 14),
    (2, 1, 14),
    (1, 2, 14),
    (4, 4, 20),
    (4, 1, 20),
    (1, 4, 20),
    (8, 8, 32),
    (4, 8, 32),
    (16, 4, 64),
    (32, 32, 128),
    (1, 32, 128),
    (4, 4, 24),
    (1, 1, 20),
    (8, 1, 40),
];

mod wrap {
    use super::{MapDut, QueueDut, SharedCore};
    use sequential_storage::cache::CacheImpl;
    pub fn m<const W: usize, const R: usize, const E: usize>(
        core: &SharedCore,
        cache: impl CacheImpl<rig::VKey> + 'static,
    ) -> Box<dyn MapDut> {
        rig::map::rig::<W, R, E, _>(core, cache)
    }
    pub fn q<const W: usize, const R: usize, const E: usize>(core: &SharedCore, cache: impl CacheImpl<()> + 'static) -> Box<dyn QueueDut> {
        rig::queue::rig::<W, R, E, _>(core, cache)
    }
}

macro_rules! opens {
    ($(($w:literal, $r:literal, $e:literal)),* $(,)?) => {
        pub fn open_map(core: &SharedCore) -> Box<dyn MapDut> {
            let g = { let c = core.borrow(); (c.w, c.r, c.e) };
            match g {
                $(($w, $r, $e) => wrap::m::<$w, $r, $e>(core, Cache::new_uncached()),)*
                _ => panic!("no such geometry"),
            }
        }
        pub fn open_queue(core: &SharedCore) -> Box<dyn QueueDut> {
            let g = { let c = core.borrow(); (c.w, c.r, c.e) };
            match g {
                $(($w, $r, $e) => wrap::q::<$w, $r, $e>(core, Cache::new_uncached()),)*
                _ => panic!("no such geometry"),
            }
        }
    };
}
opens![
    (1, 1, 11), (2, 2, 14), (2, 1, 14), (1, 2, 14), (4, 4, 20), (4, 1, 20), (1, 4, 20), (8, 8, 32), (4, 8, 32),
    (16, 4, 64), (32, 32, 128), (1, 32, 128), (4, 4, 24), (1, 1, 20), (8, 1, 40),
];
