//! Rigs for the RAM-buffered queue and the interrupt-safe ring, with a critical section
//! implementation that lets simulated interrupts happen wherever real ones could.
pub mod cs;

use rig::{E, Out, Scratch, call};
use sequential_storage::cache::page_pointers::ArrayPagePointers;
use sequential_storage::cache::page_states::{ArrayPageStates, CalculatedPageStates};
use sequential_storage::cache::{Cache, CacheImpl, Uncached};
use sequential_storage::queue::buffered::{BufferedQueue, OverflowPolicy, SharedRamRing};
use sequential_storage::queue::{QueueConfig, QueueStorage};
use std::future::Future;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::task::{Context, Poll, Wake, Waker};
use vcore::{FlashErr, MonFlash, SharedCore};

fn policy(discard: bool) -> OverflowPolicy {
    if discard { OverflowPolicy::DiscardOldest } else { OverflowPolicy::Err }
}

pub trait BufDut {
    fn enqueue(&mut self, data: &[u8], discard: bool) -> Out<bool>;
    fn drain_one(&mut self, overwrite: bool) -> Out<bool>;
    fn drain_all(&mut self, overwrite: bool) -> Out<()>;
    fn pop(&mut self) -> Out<Option<Vec<u8>>>;
    fn peek(&mut self) -> Out<Option<Vec<u8>>>;
    /// capacity, free bytes, items, used bytes
    fn counters(&self) -> (usize, usize, usize, usize);
    fn set_buf(&mut self, len: usize);
    /// Throw the ring away, keep the storage
    fn unwrap_and_wrap(&mut self);
}

struct Rig<const W: usize, const R: usize, const ER: usize, const N: usize, C: CacheImpl<()>> {
    q: Option<BufferedQueue<MonFlash<W, R, ER>, C, N>>,
    core: SharedCore,
    scratch: Scratch,
    buf: usize,
}

impl<const W: usize, const R: usize, const ER: usize, const N: usize, C: CacheImpl<()>> BufDut for Rig<W, R, ER, N, C> {
    fn enqueue(&mut self, data: &[u8], discard: bool) -> Out<bool> {
        let q = self.q.as_mut().unwrap();
        rig::drive(&self.core, async { q.enqueue(data, policy(discard)) }).map(|r| r.is_ok())
    }
    fn drain_one(&mut self, overwrite: bool) -> Out<bool> {
        let buf = self.scratch.get(self.buf);
        call(&self.core, self.q.as_mut().unwrap().drain_one(buf, overwrite))
    }
    fn drain_all(&mut self, overwrite: bool) -> Out<()> {
        let buf = self.scratch.get(self.buf);
        call(&self.core, self.q.as_mut().unwrap().drain_all(buf, overwrite))
    }
    fn pop(&mut self) -> Out<Option<Vec<u8>>> {
        let buf = self.scratch.get(self.buf);
        Ok(call(&self.core, self.q.as_mut().unwrap().pop(buf))?.map(|d| d.to_vec()))
    }
    fn peek(&mut self) -> Out<Option<Vec<u8>>> {
        let buf = self.scratch.get(self.buf);
        Ok(call(&self.core, self.q.as_mut().unwrap().peek(buf))?.map(|d| d.to_vec()))
    }
    fn counters(&self) -> (usize, usize, usize, usize) {
        let q = self.q.as_ref().unwrap();
        let cap = BufferedQueue::<MonFlash<W, R, ER>, C, N>::ram_capacity_bytes();
        (cap, q.ram_free_bytes(), q.ram_pending_count(), q.ram_bytes_used())
    }
    fn set_buf(&mut self, len: usize) {
        self.buf = len;
    }
    fn unwrap_and_wrap(&mut self) {
        let storage = self.q.take().unwrap().into_storage();
        self.q = Some(BufferedQueue::new(storage));
    }
}

fn buf<const W: usize, const R: usize, const ER: usize, const N: usize>(core: &SharedCore, cache: usize) -> Box<dyn BufDut> {
    fn make<const W: usize, const R: usize, const ER: usize, const N: usize, C: CacheImpl<()> + 'static>(
        core: &SharedCore,
        cache: C,
    ) -> Box<dyn BufDut> {
        let range = core.borrow().range();
        let st = QueueStorage::new(MonFlash::<W, R, ER>::new(core.clone()), QueueConfig::new(range), cache);
        Box::new(Rig::<W, R, ER, N, C> { q: Some(BufferedQueue::new(st)), core: core.clone(), scratch: Scratch::new(ER), buf: ER })
    }
    let pages = core.borrow().pages();
    match cache {
        0 => make::<W, R, ER, N, _>(core, Cache::new_uncached()),
        1 => make::<W, R, ER, N, _>(core, Cache::new(CalculatedPageStates::new(pages), ArrayPagePointers::<16>::new(), Uncached)),
        _ => make::<W, R, ER, N, _>(core, Cache::new(ArrayPageStates::<16>::new(), Uncached, Uncached)),
    }
}

/// Geometries and ring sizes with a buffered queue
pub const BUFS: &[((usize, usize, usize), usize)] = &[
    ((4, 4, 64), 16),
    ((4, 4, 64), 2),
    ((4, 4, 64), 1),
    ((4, 4, 64), 0),
    ((4, 4, 64), 37),
    ((4, 1, 128), 10),
    ((4, 1, 128), 64),
    ((4, 1, 128), 300),
    ((1, 1, 48), 33),
    ((1, 1, 48), 5),
    ((8, 4, 128), 70),
    ((8, 4, 128), 256),
    ((4, 4, 64), 140_000),
];

pub fn open_buf(n: usize, core: &SharedCore, cache: usize) -> Box<dyn BufDut> {
    match n {
        0 => buf::<4, 4, 64, 16>(core, cache),
        1 => buf::<4, 4, 64, 2>(core, cache),
        2 => buf::<4, 4, 64, 1>(core, cache),
        3 => buf::<4, 4, 64, 0>(core, cache),
        4 => buf::<4, 4, 64, 37>(core, cache),
        5 => buf::<4, 1, 128, 10>(core, cache),
        6 => buf::<4, 1, 128, 64>(core, cache),
        7 => buf::<4, 1, 128, 300>(core, cache),
        8 => buf::<1, 1, 48, 33>(core, cache),
        9 => buf::<1, 1, 48, 5>(core, cache),
        10 => buf::<8, 4, 128, 70>(core, cache),
        11 => buf::<8, 4, 128, 256>(core, cache),
        12 => buf::<4, 4, 64, 140_000>(core, cache),
        _ => panic!("no such buffered queue"),
    }
}

// ---------------------------------------------------------------- shared ring

/// What a step of a call of the task led to
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Step {
    Pending,
    Done(Out<Ret>),
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Ret {
    Unit,
    Bool(bool),
    Item(Option<Vec<u8>>),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Task {
    DrainOne { overwrite: bool },
    DrainAll { overwrite: bool },
    WaitAndDrainAll { overwrite: bool },
    Wait,
    Pop { overwrite: bool },
    Peek { overwrite: bool },
}

/// The part interrupts and threads may use
pub trait Producer {
    fn enqueue(&self, data: &[u8], discard: bool) -> bool;
    fn capacity(&self) -> usize;
    fn free(&self) -> usize;
    fn pending(&self) -> usize;
    fn oldest_len(&self) -> Option<usize>;
}

impl<const N: usize> Producer for SharedRamRing<N> {
    fn enqueue(&self, data: &[u8], discard: bool) -> bool {
        SharedRamRing::enqueue(self, data, policy(discard)).is_ok()
    }
    fn capacity(&self) -> usize {
        Self::ram_capacity_bytes()
    }
    fn free(&self) -> usize {
        self.ram_free_bytes()
    }
    fn pending(&self) -> usize {
        self.ram_pending_count()
    }
    fn oldest_len(&self) -> Option<usize> {
        self.oldest_ram_item_len()
    }
}

pub struct Wakes(pub AtomicU64);
impl Wake for Wakes {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}

pub trait SharedDut {
    fn producer(&self) -> Rc<dyn Producer>;
    /// Start a call. A call that still runs is dropped
    fn start(&mut self, task: Task);
    fn running(&self) -> bool;
    /// Poll it once
    fn step(&mut self) -> Step;
    fn cancel(&mut self);
    /// Number of wake-ups of the current call so far
    fn wakes(&self) -> u64;
    fn set_buf(&mut self, len: usize);
}

type Fut = Pin<Box<dyn Future<Output = Out<Ret>>>>;

struct Shared<const W: usize, const R: usize, const ER: usize, const N: usize, C: CacheImpl<()> + 'static> {
    // Declared (and dropped) first, it borrows from the others
    fut: Option<Fut>,
    ring: Rc<SharedRamRing<N>>,
    st: *mut QueueStorage<MonFlash<W, R, ER>, C>,
    scratch: *mut Scratch,
    buf: usize,
    wakes: Arc<Wakes>,
    core: SharedCore,
}

impl<const W: usize, const R: usize, const ER: usize, const N: usize, C: CacheImpl<()> + 'static> Drop for Shared<W, R, ER, N, C> {
    fn drop(&mut self) {
        self.fut = None;
        // SAFETY: made by Box::into_raw, and the only user is gone
        unsafe {
            drop(Box::from_raw(self.st));
            drop(Box::from_raw(self.scratch));
        }
    }
}

fn flat<T>(r: Result<T, sequential_storage::Error<FlashErr>>, f: impl FnOnce(T) -> Ret) -> Out<Ret> {
    r.map(f).map_err(E::from)
}

impl<const W: usize, const R: usize, const ER: usize, const N: usize, C: CacheImpl<()> + 'static> SharedDut
    for Shared<W, R, ER, N, C>
{
    fn producer(&self) -> Rc<dyn Producer> {
        self.ring.clone()
    }
    fn start(&mut self, task: Task) {
        self.fut = None;
        self.wakes = Arc::new(Wakes(AtomicU64::new(0)));
        let ring = self.ring.clone();
        // SAFETY: they live until drop, which drops the future first, and there is only one future
        let (st, buf) = unsafe { (&mut *self.st, (*self.scratch).get(self.buf)) };
        self.fut = Some(Box::pin(async move {
            match task {
                Task::DrainOne { overwrite } => flat(ring.drain_one(st, buf, overwrite).await, Ret::Bool),
                Task::DrainAll { overwrite } => flat(ring.drain_all(st, buf, overwrite).await, |()| Ret::Unit),
                Task::WaitAndDrainAll { overwrite } => flat(ring.wait_and_drain_all(st, buf, overwrite).await, |()| Ret::Unit),
                Task::Wait => {
                    ring.wait().await;
                    Ok(Ret::Unit)
                }
                Task::Pop { overwrite } => flat(ring.pop(st, buf, overwrite).await, |d| Ret::Item(d.map(|d| d.to_vec()))),
                Task::Peek { overwrite } => flat(ring.peek(st, buf, overwrite).await, |d| Ret::Item(d.map(|d| d.to_vec()))),
            }
        }));
    }
    fn running(&self) -> bool {
        self.fut.is_some()
    }
    fn step(&mut self) -> Step {
        self.core.borrow_mut().budget = vcore::flash::DEFAULT_BUDGET;
        let waker = Waker::from(self.wakes.clone());
        let mut cx = Context::from_waker(&waker);
        let fut = self.fut.as_mut().expect("no call is running");
        vcore::driver::call_begin();
        let r = catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(&mut cx)));
        vcore::driver::call_end();
        match r {
            Ok(Poll::Pending) => Step::Pending,
            Ok(Poll::Ready(v)) => {
                self.fut = None;
                Step::Done(v)
            }
            Err(_) => {
                self.fut = None;
                Step::Done(Err(E::Panic(vcore::driver::last_panic())))
            }
        }
    }
    fn cancel(&mut self) {
        self.fut = None;
    }
    fn wakes(&self) -> u64 {
        self.wakes.0.load(Ordering::SeqCst)
    }
    fn set_buf(&mut self, len: usize) {
        assert!(self.fut.is_none());
        self.buf = len;
    }
}

fn shared<const W: usize, const R: usize, const ER: usize, const N: usize>(core: &SharedCore, cache: usize) -> Box<dyn SharedDut> {
    fn make<const W: usize, const R: usize, const ER: usize, const N: usize, C: CacheImpl<()> + 'static>(
        core: &SharedCore,
        cache: C,
    ) -> Box<dyn SharedDut> {
        let range = core.borrow().range();
        let st = QueueStorage::new(MonFlash::<W, R, ER>::new(core.clone()), QueueConfig::new(range), cache);
        Box::new(Shared::<W, R, ER, N, C> {
            fut: None,
            ring: Rc::new(SharedRamRing::new()),
            st: Box::into_raw(Box::new(st)),
            scratch: Box::into_raw(Box::new(Scratch::new(ER))),
            buf: ER,
            wakes: Arc::new(Wakes(AtomicU64::new(0))),
            core: core.clone(),
        })
    }
    let pages = core.borrow().pages();
    match cache {
        0 => make::<W, R, ER, N, _>(core, Cache::new_uncached()),
        _ => make::<W, R, ER, N, _>(core, Cache::new(CalculatedPageStates::new(pages), ArrayPagePointers::<16>::new(), Uncached)),
    }
}

pub const SHAREDS: &[((usize, usize, usize), usize)] = &[
    ((4, 4, 64), 16),
    ((4, 4, 64), 40),
    ((4, 4, 64), 9),
    ((4, 1, 128), 24),
    ((4, 1, 128), 100),
    ((1, 1, 48), 12),
    ((1, 1, 48), 30),
    ((8, 4, 128), 64),
];

pub fn open_shared(n: usize, core: &SharedCore, cache: usize) -> Box<dyn SharedDut> {
    match n {
        0 => shared::<4, 4, 64, 16>(core, cache),
        1 => shared::<4, 4, 64, 40>(core, cache),
        2 => shared::<4, 4, 64, 9>(core, cache),
        3 => shared::<4, 1, 128, 24>(core, cache),
        4 => shared::<4, 1, 128, 100>(core, cache),
        5 => shared::<1, 1, 48, 12>(core, cache),
        6 => shared::<1, 1, 48, 30>(core, cache),
        7 => shared::<8, 4, 128, 64>(core, cache),
        _ => panic!("no such shared ring"),
    }
}

// ---------------------------------------------------------------- threads

/// What real threads saw: accepted items per thread, and everything the drain task delivered
#[derive(Default)]
pub struct Threads {
    pub accepted: Vec<Vec<Vec<u8>>>,
    pub refused: u64,
    pub delivered: Vec<Vec<u8>>,
    pub errors: Vec<E>,
    /// Items in the ring although the drain task was not woken
    pub left_behind: usize,
    pub drains: u64,
}

struct Unpark(std::thread::Thread, AtomicBool);
impl Wake for Unpark {
    fn wake(self: Arc<Self>) {
        self.1.store(true, Ordering::SeqCst);
        self.0.unpark();
    }
}

const T: usize = 128;
type TStorage = QueueStorage<MonFlash<4, 4, T>, Cache<Uncached, Uncached, Uncached, ()>>;

fn pop_all(core: &SharedCore, st: &mut TStorage, out: &mut Threads) {
    let mut scratch = Scratch::new(T);
    loop {
        match call(core, st.pop(scratch.get(T))) {
            Ok(Some(d)) => out.delivered.push(d.to_vec()),
            Ok(None) => return,
            Err(e) => {
                out.errors.push(e);
                return;
            }
        }
    }
}

/// Thread t enqueues every item whose index is t modulo the number of producers, with the given policy
pub fn threads<const N: usize>(items: &[(Vec<u8>, bool)], producers: usize) -> Threads {
    let ring: SharedRamRing<N> = SharedRamRing::new();
    let core = vcore::Core::new(4, 4, T, 0, 4).shared();
    core.borrow_mut().yields = true;
    let mut st: TStorage = QueueStorage::new(MonFlash::new(core.clone()), QueueConfig::new(0..4 * T as u32), Cache::new_uncached());
    let mut scratch = Scratch::new(T);
    let running = AtomicU64::new(producers as u64);
    let mut out = Threads { accepted: vec![vec![]; producers], ..Threads::default() };
    let wake = Arc::new(Unpark(std::thread::current(), AtomicBool::new(false)));
    let waker = Waker::from(wake.clone());
    std::thread::scope(|s| {
        let mut handles = Vec::new();
        for t in 0..producers {
            let (ring, running, wake) = (&ring, &running, &wake);
            handles.push(s.spawn(move || {
                let mut ok = Vec::new();
                let mut refused = 0;
                for (i, (d, discard)) in items.iter().skip(t).step_by(producers).enumerate() {
                    if ring.enqueue(d, policy(*discard)).is_ok() {
                        ok.push(d.clone());
                    } else {
                        refused += 1;
                        std::thread::yield_now();
                    }
                    if i % 7 == 3 {
                        std::thread::yield_now();
                    }
                }
                running.fetch_sub(1, Ordering::SeqCst);
                wake.0.unpark();
                (ok, refused)
            }));
        }
        'task: loop {
            core.borrow_mut().budget = vcore::flash::DEFAULT_BUDGET;
            let r = {
                let mut fut = Box::pin(ring.wait_and_drain_all(&mut st, scratch.get(T), false));
                let mut cx = Context::from_waker(&waker);
                loop {
                    if let Poll::Ready(r) = fut.as_mut().poll(&mut cx) {
                        break r;
                    }
                    // If nobody enqueues any more, every wake-up has happened already
                    let over = running.load(Ordering::SeqCst) == 0;
                    if wake.1.swap(false, Ordering::SeqCst) {
                        continue;
                    }
                    if over {
                        out.left_behind = ring.ram_pending_count();
                        break 'task;
                    }
                    std::thread::park_timeout(std::time::Duration::from_millis(50));
                }
            };
            out.drains += 1;
            let mut r = r.map_err(E::from);
            while r == Err(E::Full) {
                pop_all(&core, &mut st, &mut out);
                r = call(&core, ring.drain_all(&mut st, scratch.get(T), false));
            }
            if let Err(e) = r {
                out.errors.push(e);
                break;
            }
            pop_all(&core, &mut st, &mut out);
        }
        for (t, h) in handles.into_iter().enumerate() {
            let (ok, refused) = h.join().unwrap();
            out.accepted[t] = ok;
            out.refused += refused;
        }
    });
    pop_all(&core, &mut st, &mut out);
    out
}
