//! The critical section: a reentrant lock for real threads, with a place for simulated
//! interrupts right before it is taken and right after it is released.
use critical_section::RawRestoreState;
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicU64, Ordering};

struct Cs;
critical_section::set_impl!(Cs);

static OWNER: AtomicU64 = AtomicU64::new(0);
static NEXT: AtomicU64 = AtomicU64::new(1);

type Hook = Box<dyn FnMut()>;

thread_local! {
    static ME: u64 = NEXT.fetch_add(1, Ordering::SeqCst);
    static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) };
    /// Nobody else uses what this thread uses: no need for a lock
    static SOLO: Cell<bool> = const { Cell::new(false) };
    static INSIDE: Cell<bool> = const { Cell::new(false) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
    /// Number of critical sections entered
    pub static ENTERED: Cell<u64> = const { Cell::new(0) };
}

/// Called at every point outside of critical sections where an interrupt could happen
pub fn set_hook(hook: Option<Hook>) {
    SOLO.with(|s| s.set(hook.is_some()));
    HOOK.with(|h| *h.borrow_mut() = hook);
}

fn interrupt() {
    if BUSY.with(|b| b.replace(true)) {
        return;
    }
    HOOK.with(|h| {
        if let Ok(mut h) = h.try_borrow_mut() {
            if let Some(h) = h.as_mut() {
                h();
            }
        }
    });
    BUSY.with(|b| b.set(false));
}

/// Run something without interrupts
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    let was = BUSY.with(|b| b.replace(true));
    let r = f();
    BUSY.with(|b| b.set(was));
    r
}

unsafe impl critical_section::Impl for Cs {
    unsafe fn acquire() -> RawRestoreState {
        if SOLO.with(|s| s.get()) {
            if INSIDE.with(|i| i.get()) {
                return true;
            }
            interrupt();
            INSIDE.with(|i| i.set(true));
            ENTERED.with(|e| e.set(e.get() + 1));
            return false;
        }
        let me = ME.with(|m| *m);
        if OWNER.load(Ordering::SeqCst) == me {
            return true;
        }
        let mut spins = 0u32;
        while OWNER.compare_exchange(0, me, Ordering::SeqCst, Ordering::SeqCst).is_err() {
            spins += 1;
            if spins % 64 == 0 {
                std::thread::yield_now();
            }
            core::hint::spin_loop();
        }
        ENTERED.with(|e| e.set(e.get() + 1));
        false
    }
    unsafe fn release(nested: RawRestoreState) {
        if nested {
            return;
        }
        if SOLO.with(|s| s.get()) {
            INSIDE.with(|i| i.set(false));
            interrupt();
        } else {
            OWNER.store(0, Ordering::SeqCst);
        }
    }
}
