use crate::{E, Geom, Out, Scratch, call};
use sequential_storage::cache::page_pointers::{ArrayPagePointers, HeapPagePointers};
use sequential_storage::cache::page_states::{ArrayPageStates, CalculatedPageStates, HeapPageStates};
use sequential_storage::cache::{Cache, CacheImpl, Uncached};
use sequential_storage::queue::{QueueConfig, QueueStorage};
use vcore::{MonFlash, SharedCore};

/// What an iteration did
#[derive(Debug, Default)]
pub struct Walk {
    /// Items returned, and whether they were popped: Some(Ok) popped, Some(Err) pop failed
    pub seen: Vec<(Vec<u8>, Option<Out<()>>)>,
    /// Errors returned by the creation of the iterator or `next`
    pub errs: Vec<E>,
    /// The iterator returned its end
    pub ended: bool,
}

pub trait QueueDut {
    fn push(&mut self, data: &[u8], overwrite: bool) -> Out<()>;
    fn peek(&mut self) -> Out<Option<Vec<u8>>>;
    fn pop(&mut self) -> Out<Option<Vec<u8>>>;
    /// Iterate over at most `max` items and pop those for which `pop(index)` is true.
    /// Continues after up to `retries` errors. `extra` more calls of next after the end.
    fn walk(&mut self, max: usize, retries: usize, extra: usize, pop: &mut dyn FnMut(usize) -> bool) -> Walk;
    /// Iterate with a buffer of `lens[n]` bytes for the n-th call of next, and with a sufficient one
    /// after that. Continues after errors, ends at the end. Items are popped if the mask says so.
    fn walk_bufs(&mut self, lens: &[usize], mask: u64) -> Vec<Out<Option<(Vec<u8>, Option<Out<()>>)>>>;
    fn max_fit(&mut self) -> Out<Option<u32>>;
    fn space_left(&mut self) -> Out<u32>;
    fn erase_all(&mut self) -> Out<()>;
    fn set_buf(&mut self, len: usize);
    fn recreate(&mut self);
    fn core(&self) -> &SharedCore;
    fn range(&self) -> core::ops::Range<u32>;
    fn overhead(&self) -> u32;
    fn list(&mut self) -> Out<Vec<Vec<u8>>> {
        let mut w = self.walk(usize::MAX, 0, 0, &mut |_| false);
        match w.errs.pop() {
            Some(e) => Err(e),
            None => Ok(w.seen.into_iter().map(|(d, _)| d).collect()),
        }
    }
}

struct Rig<const W: usize, const R: usize, const ER: usize, C: CacheImpl<()>> {
    st: Option<QueueStorage<MonFlash<W, R, ER>, C>>,
    core: SharedCore,
    scratch: Scratch,
    input: Scratch,
    buf: usize,
}

impl<const W: usize, const R: usize, const ER: usize, C: CacheImpl<()>> Rig<W, R, ER, C> {
    fn parts(&mut self) -> (&mut QueueStorage<MonFlash<W, R, ER>, C>, &SharedCore, &mut [u8]) {
        (self.st.as_mut().unwrap(), &self.core, self.scratch.get(self.buf))
    }
}

impl<const W: usize, const R: usize, const ER: usize, C: CacheImpl<()>> QueueDut for Rig<W, R, ER, C> {
    fn push(&mut self, data: &[u8], overwrite: bool) -> Out<()> {
        let aligned = self.input.get(data.len());
        aligned.copy_from_slice(data);
        call(&self.core, self.st.as_mut().unwrap().push(aligned, overwrite))
    }
    fn peek(&mut self) -> Out<Option<Vec<u8>>> {
        let (st, core, buf) = self.parts();
        Ok(call(core, st.peek(buf))?.map(|d| d.to_vec()))
    }
    fn pop(&mut self) -> Out<Option<Vec<u8>>> {
        let (st, core, buf) = self.parts();
        Ok(call(core, st.pop(buf))?.map(|d| d.to_vec()))
    }
    fn walk(&mut self, max: usize, retries: usize, extra: usize, pop: &mut dyn FnMut(usize) -> bool) -> Walk {
        let (st, core, buf) = self.parts();
        let core = core.clone();
        let mut w = Walk::default();
        let mut it = match call(&core, st.iter()) {
            Ok(it) => it,
            Err(e) => {
                w.errs.push(e);
                return w;
            }
        };
        let mut fuel = crate::fuel(&core);
        let mut after_end = 0;
        while w.seen.len() < max {
            fuel = fuel.saturating_sub(8 + w.seen.last().map_or(0, |s| s.0.len()));
            if fuel == 0 {
                w.errs.push(E::Hang);
                return w;
            }
            match call(&core, it.next(buf)) {
                Ok(None) => {
                    w.ended = true;
                    if after_end == extra {
                        return w;
                    }
                    after_end += 1;
                }
                Ok(Some(entry)) => {
                    let data = entry.to_vec();
                    if pop(w.seen.len()) {
                        let r = call(&core, entry.pop()).map(|d| d.to_vec());
                        let r = match r {
                            Ok(d) if d == data => Ok(()),
                            Ok(d) => Err(E::Other(format!(
                                "entry was {} but pop returned {}",
                                vcore::hex(&data),
                                vcore::hex(&d)
                            ))),
                            Err(e) => Err(e),
                        };
                        core.borrow_mut().cancelled = false;
                        let stop = r.is_err();
                        w.seen.push((data, Some(r)));
                        if stop && (retries == 0 || core.borrow().dead) {
                            return w;
                        }
                    } else {
                        w.seen.push((data, None));
                    }
                }
                Err(e) => {
                    core.borrow_mut().cancelled = false;
                    let fatal = matches!(e, E::Panic(_) | E::Hang);
                    w.errs.push(e);
                    if w.errs.len() > retries || fatal || core.borrow().dead {
                        return w;
                    }
                }
            }
        }
        w
    }
    fn walk_bufs(&mut self, lens: &[usize], mask: u64) -> Vec<Out<Option<(Vec<u8>, Option<Out<()>>)>>> {
        let (st, core, buf) = self.parts();
        let core = core.clone();
        let mut it = match call(&core, st.iter()) {
            Ok(it) => it,
            Err(e) => return vec![Err(e)],
        };
        let mut out = Vec::new();
        let mut items = 0;
        let mut fuel = crate::fuel(&core) + lens.len() * 8;
        for n in 0.. {
            fuel = fuel.saturating_sub(8 + out.last().map_or(0, |r: &Out<Option<(Vec<u8>, _)>>| {
                r.as_ref().map_or(0, |r| r.as_ref().map_or(0, |r| r.0.len()))
            }));
            if fuel == 0 {
                break;
            }
            let len = lens.get(n).copied().unwrap_or(usize::MAX).min(buf.len());
            match call(&core, it.next(&mut buf[..len])) {
                Ok(None) => {
                    out.push(Ok(None));
                    return out;
                }
                Ok(Some(entry)) => {
                    let data = entry.to_vec();
                    let pop = mask >> (items % 64) & 1 == 1;
                    items += 1;
                    let popped = pop.then(|| match call(&core, entry.pop()) {
                        Ok(d) if *d == data[..] => Ok(()),
                        Ok(d) => Err(E::Other(format!("entry was {} but pop returned {}", vcore::hex(&data), vcore::hex(d)))),
                        Err(e) => Err(e),
                    });
                    out.push(Ok(Some((data, popped))));
                }
                Err(e) => {
                    let fatal = matches!(e, E::Panic(_) | E::Hang);
                    out.push(Err(e));
                    if fatal {
                        return out;
                    }
                }
            }
        }
        out.push(Err(E::Hang));
        out
    }
    fn max_fit(&mut self) -> Out<Option<u32>> {
        let (st, core, _) = self.parts();
        call(core, st.find_max_fit())
    }
    fn space_left(&mut self) -> Out<u32> {
        let (st, core, _) = self.parts();
        call(core, st.space_left())
    }
    fn erase_all(&mut self) -> Out<()> {
        let (st, core, _) = self.parts();
        call(core, st.erase_all())
    }
    fn set_buf(&mut self, len: usize) {
        self.buf = len;
    }
    fn recreate(&mut self) {
        let st = self.st.take().unwrap();
        let range = st.flash_range();
        let (flash, cache) = st.destroy();
        self.st = Some(QueueStorage::new(flash, QueueConfig::new(range), cache));
    }
    fn core(&self) -> &SharedCore {
        &self.core
    }
    fn range(&self) -> core::ops::Range<u32> {
        self.st.as_ref().unwrap().flash_range()
    }
    fn overhead(&self) -> u32 {
        QueueStorage::<MonFlash<W, R, ER>, C>::item_overhead_size()
    }
}

pub fn rig<const W: usize, const R: usize, const ER: usize, C: CacheImpl<()> + 'static>(
    core: &SharedCore,
    cache: C,
) -> Box<dyn QueueDut> {
    let range = core.borrow().range();
    Box::new(Rig::<W, R, ER, C> {
        st: Some(QueueStorage::new(MonFlash::new(core.clone()), QueueConfig::new(range), cache)),
        core: core.clone(),
        scratch: Scratch::new(ER),
        input: Scratch::new(ER),
        buf: ER,
    })
}

pub fn common<const W: usize, const R: usize, const ER: usize, const N: usize>(core: &SharedCore, cache: usize, pages: usize) -> Box<dyn QueueDut> {
    match cache {
        0 => rig::<W, R, ER, _>(core, Cache::new_uncached()),
        1 => rig::<W, R, ER, _>(
            core,
            Cache::new(CalculatedPageStates::new(pages), ArrayPagePointers::<N>::new(), Uncached),
        ),
        2 => rig::<W, R, ER, _>(core, Cache::new(ArrayPageStates::<N>::new(), HeapPagePointers::new(pages), Uncached)),
        _ => panic!("cache {cache} not available for this geometry"),
    }
}

pub fn full<const W: usize, const R: usize, const ER: usize, const N: usize>(core: &SharedCore, cache: usize, pages: usize) -> Box<dyn QueueDut> {
    match cache {
        0..=2 => common::<W, R, ER, N>(core, cache, pages),
        3 => rig::<W, R, ER, _>(core, Cache::new(CalculatedPageStates::new(pages), Uncached, Uncached)),
        4 => rig::<W, R, ER, _>(core, Cache::new(Uncached, ArrayPagePointers::<N>::new(), Uncached)),
        5 => rig::<W, R, ER, _>(core, Cache::new(HeapPageStates::new(pages), Uncached, Uncached)),
        6 => rig::<W, R, ER, _>(core, Cache::new(HeapPageStates::new(pages + 1), ArrayPagePointers::<N>::new(), Uncached)),
        _ => panic!("no cache {cache}"),
    }
}

pub const CACHE_NAMES: [&str; crate::QUEUE_CACHES] = [
    "uncached",
    "calculated+arrayptr",
    "arraystates+heapptr",
    "calculated",
    "arrayptr",
    "heapstates",
    "heapstates+arrayptr",
];

pub fn caches(g: Geom) -> usize {
    if crate::FULL_GEOMS.contains(&g) { crate::QUEUE_CACHES } else { crate::COMMON_CACHES }
}
