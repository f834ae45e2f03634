use crate::{E, Geom, Out, Scratch, VKey, call};
use sequential_storage::cache::key_pointers::{ArrayKeyPointers, HeapKeyPointers};
use sequential_storage::cache::page_pointers::{ArrayPagePointers, HeapPagePointers};
use sequential_storage::cache::page_states::{ArrayPageStates, CalculatedPageStates, HeapPageStates};
use sequential_storage::cache::{Cache, CacheImpl, Uncached};
use sequential_storage::map::{MapConfig, MapStorage};
use vcore::{MonFlash, SharedCore};

pub type Items = Vec<(VKey, Vec<u8>)>;

pub trait MapDut {
    fn store(&mut self, k: &VKey, v: &[u8]) -> Out<()>;
    fn store_generic(&mut self, k: &VKey, v: &[u8]) -> Out<()>;
    fn fetch(&mut self, k: &VKey) -> Out<Option<Vec<u8>>>;
    fn remove(&mut self, k: &VKey) -> Out<()>;
    fn remove_all(&mut self) -> Out<()>;
    fn erase_all(&mut self) -> Out<()>;
    /// At most `max` entries. Items seen before an error are lost.
    fn iterate(&mut self, max: usize) -> Out<Items>;
    /// Iterate over at most `max` items; keeps going `retries` times after an error
    fn iterate_stubborn(&mut self, max: usize, retries: usize) -> (Items, Vec<E>, bool);
    /// Iterate with a buffer of `lens[n]` bytes for the n-th call (the creation is call 0), and with a
    /// sufficient one after that. Continues after errors, ends at the end.
    fn iterate_bufs(&mut self, lens: &[usize]) -> Vec<Out<Option<(VKey, Vec<u8>)>>>;
    /// Length of the data buffer used from now on
    fn set_buf(&mut self, len: usize);
    /// Destroy the storage and create a new one with the same flash and cache
    fn recreate(&mut self);
    fn core(&self) -> &SharedCore;
    fn range(&self) -> core::ops::Range<u32>;
    fn overhead(&self) -> u32;
}

struct Rig<const W: usize, const R: usize, const ER: usize, C: CacheImpl<VKey>> {
    st: Option<MapStorage<VKey, MonFlash<W, R, ER>, C>>,
    core: SharedCore,
    scratch: Scratch,
    buf: usize,
}

impl<const W: usize, const R: usize, const ER: usize, C: CacheImpl<VKey>> Rig<W, R, ER, C> {
    fn parts(&mut self) -> (&mut MapStorage<VKey, MonFlash<W, R, ER>, C>, &SharedCore, &mut [u8]) {
        (self.st.as_mut().unwrap(), &self.core, self.scratch.get(self.buf))
    }
}

impl<const W: usize, const R: usize, const ER: usize, C: CacheImpl<VKey>> MapDut for Rig<W, R, ER, C> {
    fn store(&mut self, k: &VKey, v: &[u8]) -> Out<()> {
        let (st, core, buf) = self.parts();
        call(core, st.store_item(buf, k, &v))
    }
    fn store_generic(&mut self, k: &VKey, v: &[u8]) -> Out<()> {
        let (st, core, buf) = self.parts();
        call(core, st.store_item_generic(buf, k, &v))
    }
    fn fetch(&mut self, k: &VKey) -> Out<Option<Vec<u8>>> {
        let (st, core, buf) = self.parts();
        let r = call(core, st.fetch_item::<&[u8]>(buf, k))?;
        Ok(r.map(|v| v.to_vec()))
    }
    fn remove(&mut self, k: &VKey) -> Out<()> {
        let (st, core, buf) = self.parts();
        call(core, st.remove_item(buf, k))
    }
    fn remove_all(&mut self) -> Out<()> {
        let (st, core, buf) = self.parts();
        call(core, st.remove_all_items(buf))
    }
    fn erase_all(&mut self) -> Out<()> {
        let (st, core, _) = self.parts();
        call(core, st.erase_all())
    }
    fn iterate(&mut self, max: usize) -> Out<Items> {
        let (items, mut errs, _) = self.iterate_stubborn(max, 0);
        match errs.pop() {
            Some(e) => Err(e),
            None => Ok(items),
        }
    }
    fn iterate_stubborn(&mut self, max: usize, retries: usize) -> (Items, Vec<E>, bool) {
        let (st, core, buf) = self.parts();
        let core = core.clone();
        let mut out = Vec::new();
        let mut errs = Vec::new();
        let mut it = match call(&core, st.fetch_all_items(buf)) {
            Ok(it) => it,
            Err(e) => return (out, vec![e], false),
        };
        let mut fuel = crate::fuel(&core);
        while out.len() < max {
            match call(&core, it.next::<&[u8]>(buf)) {
                Ok(None) => return (out, errs, true),
                Ok(Some((k, v))) => {
                    fuel = fuel.saturating_sub(v.len());
                    out.push((k, v.to_vec()));
                }
                Err(e) => {
                    core.borrow_mut().cancelled = false;
                    let fatal = matches!(e, E::Panic(_) | E::Hang);
                    errs.push(e);
                    if errs.len() > retries || fatal {
                        return (out, errs, false);
                    }
                }
            }
            fuel = fuel.saturating_sub(8);
            if fuel == 0 {
                errs.push(E::Hang);
                return (out, errs, false);
            }
        }
        (out, errs, false)
    }
    fn iterate_bufs(&mut self, lens: &[usize]) -> Vec<Out<Option<(VKey, Vec<u8>)>>> {
        let (st, core, buf) = self.parts();
        let core = core.clone();
        let mut n = 0;
        let mut next = || {
            n += 1;
            lens.get(n - 1).copied().unwrap_or(usize::MAX)
        };
        let len = next().min(buf.len());
        let mut it = match call(&core, st.fetch_all_items(&mut buf[..len])) {
            Ok(it) => it,
            Err(e) => return vec![Err(e)],
        };
        let mut out = Vec::new();
        let mut fuel = crate::fuel(&core) + lens.len() * 8;
        while fuel > 0 {
            let len = next().min(buf.len());
            let r = call(&core, it.next::<&[u8]>(&mut buf[..len])).map(|r| r.map(|(k, v)| (k, v.to_vec())));
            fuel = fuel.saturating_sub(8 + r.as_ref().map_or(0, |r| r.as_ref().map_or(0, |(_, v)| v.len())));
            let done = matches!(r, Ok(None) | Err(E::Panic(_) | E::Hang));
            out.push(r);
            if done {
                return out;
            }
        }
        out.push(Err(E::Hang));
        out
    }
    fn set_buf(&mut self, len: usize) {
        self.buf = len;
    }
    fn recreate(&mut self) {
        let st = self.st.take().unwrap();
        let range = st.flash_range();
        let (flash, cache) = st.destroy();
        self.st = Some(MapStorage::new(flash, MapConfig::new(range), cache));
    }
    fn core(&self) -> &SharedCore {
        &self.core
    }
    fn range(&self) -> core::ops::Range<u32> {
        self.st.as_ref().unwrap().flash_range()
    }
    fn overhead(&self) -> u32 {
        MapStorage::<VKey, MonFlash<W, R, ER>, C>::item_overhead_size()
    }
}

pub fn rig<const W: usize, const R: usize, const ER: usize, C: CacheImpl<VKey> + 'static>(
    core: &SharedCore,
    cache: C,
) -> Box<dyn MapDut> {
    let range = core.borrow().range();
    Box::new(Rig::<W, R, ER, C> {
        st: Some(MapStorage::new(MonFlash::new(core.clone()), MapConfig::new(range), cache)),
        core: core.clone(),
        scratch: Scratch::new(ER),
        buf: ER,
    })
}

pub fn common<const W: usize, const R: usize, const ER: usize, const N: usize>(core: &SharedCore, cache: usize, pages: usize) -> Box<dyn MapDut> {
    match cache {
        0 => rig::<W, R, ER, _>(core, Cache::new_uncached()),
        1 => rig::<W, R, ER, _>(
            core,
            Cache::new(CalculatedPageStates::new(pages), ArrayPagePointers::<N>::new(), ArrayKeyPointers::<VKey, 4>::new()),
        ),
        2 => rig::<W, R, ER, _>(
            core,
            Cache::new(ArrayPageStates::<N>::new(), HeapPagePointers::new(pages), HeapKeyPointers::new(6)),
        ),
        _ => panic!("cache {cache} not available for this geometry"),
    }
}

pub fn full<const W: usize, const R: usize, const ER: usize, const N: usize>(core: &SharedCore, cache: usize, pages: usize) -> Box<dyn MapDut> {
    match cache {
        0..=2 => common::<W, R, ER, N>(core, cache, pages),
        3 => rig::<W, R, ER, _>(
            core,
            Cache::new(HeapPageStates::new(pages), Uncached, ArrayKeyPointers::<VKey, 1>::new()),
        ),
        4 => rig::<W, R, ER, _>(core, Cache::new(CalculatedPageStates::new(pages), Uncached, Uncached)),
        5 => rig::<W, R, ER, _>(core, Cache::new(Uncached, ArrayPagePointers::<N>::new(), Uncached)),
        6 => rig::<W, R, ER, _>(core, Cache::new(Uncached, Uncached, HeapKeyPointers::new(3))),
        7 => rig::<W, R, ER, _>(core, Cache::new(ArrayPageStates::<N>::new(), Uncached, Uncached)),
        8 => rig::<W, R, ER, _>(core, Cache::new(CalculatedPageStates::new(pages), HeapPagePointers::new(pages + 2), Uncached)),
        9 => rig::<W, R, ER, _>(
            core,
            Cache::new(HeapPageStates::new(pages), ArrayPagePointers::<N>::new(), HeapKeyPointers::new(64)),
        ),
        10 => rig::<W, R, ER, _>(core, Cache::new(ArrayPageStates::<N>::new(), ArrayPagePointers::<N>::new(), HeapKeyPointers::new(0))),
        _ => panic!("no cache {cache}"),
    }
}

pub const CACHE_NAMES: [&str; crate::MAP_CACHES] = [
    "uncached",
    "calculated+arrayptr+arraykeys4",
    "arraystates+heapptr+heapkeys6",
    "heapstates+arraykeys1",
    "calculated",
    "arrayptr",
    "heapkeys3",
    "arraystates",
    "calculated+heapptr",
    "heapstates+arrayptr+heapkeys64",
    "arraystates+arrayptr+heapkeys0",
];

/// Caches available for a geometry
pub fn caches(g: Geom) -> usize {
    if crate::FULL_GEOMS.contains(&g) { crate::MAP_CACHES } else { crate::COMMON_CACHES }
}
