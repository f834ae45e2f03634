//! The monitoring flash: a NOR flash in memory that checks every access and injects faults.

use embedded_storage_async::nor_flash::{
    ErrorType, MultiwriteNorFlash, NorFlash, NorFlashError, NorFlashErrorKind, ReadNorFlash,
};
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum FlashErr {
    OutOfBounds,
    NotAligned,
    /// An injected error, with a unique id
    Injected(u32),
    /// The power is gone
    PowerLoss,
}

impl NorFlashError for FlashErr {
    fn kind(&self) -> NorFlashErrorKind {
        match self {
            FlashErr::OutOfBounds => NorFlashErrorKind::OutOfBounds,
            FlashErr::NotAligned => NorFlashErrorKind::NotAligned,
            _ => NorFlashErrorKind::Other,
        }
    }
}

impl core::fmt::Display for FlashErr {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        write!(f, "{self:?}")
    }
}

pub const READ: u8 = 1;
pub const WRITE: u8 = 2;
pub const ERASE: u8 = 4;
pub const ANY: u8 = 7;
pub const MUTATE: u8 = 6;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Ev {
    pub kind: u8,
    pub addr: u32,
    pub len: u32,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Mode {
    /// Everything from here on fails until `revive`
    PowerLoss,
    /// This one access returns an error
    Error,
    /// This one access never completes; the caller has to drop the future
    Cancel,
    /// A read returns flipped bits (`mask` at byte `byte % len`), the flash content stays as it is
    FlipRead { byte: usize, mask: u8 },
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum When {
    /// At the n-th (from 0) byte changed by writes and erases
    MutByte(u64),
    /// At the n-th (from 0) access of one of the given kinds; `part` bytes of a write or erase are still done
    Access { kinds: u8, n: u64, part: usize },
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Plan {
    pub when: When,
    pub mode: Mode,
}

#[derive(Debug, Clone)]
pub struct Core {
    /// write, read, erase size
    pub w: usize,
    pub r: usize,
    pub e: usize,
    pub base: u32,
    pub mem: Vec<u8>,
    /// Programs of each write word since its last erase
    pub wcount: Vec<u8>,
    /// Number of erases of each page
    pub erases: Vec<u32>,
    pub plan: Option<Plan>,
    /// What the plan did, when it triggered
    pub fired: Option<Ev>,
    pub last_err: Option<FlashErr>,
    pub dead: bool,
    pub cancelled: bool,
    /// Return Pending once before each access
    pub yields: bool,
    pub log_on: bool,
    pub log: Vec<Ev>,
    pub n_reads: u64,
    pub n_writes: u64,
    pub n_erases: u64,
    pub bytes_read: u64,
    pub mut_bytes: u64,
    /// Accesses left before the running call counts as not terminating
    pub budget: u64,
    pub check_align: bool,
    /// Broken rules: (rule, text)
    pub viol: Vec<(&'static str, String)>,
    /// Track changes to already programmed words
    pub reprog: Vec<u32>,
    err_seq: u32,
    /// Offsets at which a write began since the last erase
    pub starts: Vec<bool>,
    /// Bytes of interrupted writes and flipped bits
    pub torn: Vec<bool>,
    /// For each page erased: its index and the number of live items it held
    pub erase_log: Vec<(usize, usize)>,
}

thread_local! {
    /// Headers read by the code under test that were never written as such, but have a valid length
    /// CRC and overlap the remains of an interrupted write or flipped bits: collisions of the 16 bit CRC.
    pub static COLLISIONS: core::cell::Cell<u64> = const { core::cell::Cell::new(0) };
}

pub type SharedCore = Rc<RefCell<Core>>;

pub const BUDGET_PANIC: &str = "@@budget@@";
pub const DEFAULT_BUDGET: u64 = 3_000_000;

enum Fate {
    Go,
    Fail(FlashErr),
    Hang,
    Flip(usize, u8),
}

impl Core {
    pub fn new(w: usize, r: usize, e: usize, base: u32, pages: usize) -> Self {
        Core {
            w,
            r,
            e,
            base,
            mem: vec![0xFF; e * pages],
            wcount: vec![0; e * pages / w],
            erases: vec![0; pages],
            plan: None,
            fired: None,
            last_err: None,
            dead: false,
            cancelled: false,
            yields: false,
            log_on: false,
            log: Vec::new(),
            n_reads: 0,
            n_writes: 0,
            n_erases: 0,
            bytes_read: 0,
            mut_bytes: 0,
            budget: DEFAULT_BUDGET,
            check_align: true,
            viol: Vec::new(),
            reprog: Vec::new(),
            err_seq: 0,
            starts: vec![false; e * pages],
            torn: vec![false; e * pages],
            erase_log: Vec::new(),
        }
    }
    pub fn shared(self) -> SharedCore {
        Rc::new(RefCell::new(self))
    }
    pub fn pages(&self) -> usize {
        self.mem.len() / self.e
    }
    pub fn word(&self) -> usize {
        self.w.max(self.r)
    }
    pub fn range(&self) -> core::ops::Range<u32> {
        self.base..self.base + self.mem.len() as u32
    }
    /// A copy of the flash without plans, counters and logs
    pub fn image(&self) -> Core {
        Core {
            plan: None,
            fired: None,
            last_err: None,
            dead: false,
            cancelled: false,
            log: Vec::new(),
            log_on: false,
            viol: Vec::new(),
            reprog: Vec::new(),
            budget: DEFAULT_BUDGET,
            n_reads: 0,
            n_writes: 0,
            n_erases: 0,
            bytes_read: 0,
            mut_bytes: 0,
            mem: self.mem.clone(),
            wcount: self.wcount.clone(),
            erases: self.erases.clone(),
            starts: self.starts.clone(),
            torn: self.torn.clone(),
            erase_log: Vec::new(),
            ..*self
        }
    }
    pub fn revive(&mut self) {
        self.dead = false;
        self.cancelled = false;
        self.plan = None;
        self.fired = None;
        self.last_err = None;
    }
    pub fn arm(&mut self, plan: Plan) {
        self.plan = Some(plan);
        self.fired = None;
        self.last_err = None;
    }
    /// Take the plan away again; returns what it did
    pub fn disarm(&mut self) -> Option<Ev> {
        self.plan = None;
        self.cancelled = false;
        self.fired.take()
    }
    pub fn accesses(&self) -> u64 {
        self.n_reads + self.n_writes + self.n_erases
    }

    fn broken(&mut self, rule: &'static str, text: String) {
        if self.viol.len() < 16 {
            self.viol.push((rule, text));
        }
    }

    fn account(&mut self, kind: u8, addr: u32, len: usize) {
        match kind {
            READ => self.n_reads += 1,
            WRITE => self.n_writes += 1,
            _ => self.n_erases += 1,
        }
        if self.log_on {
            self.log.push(Ev { kind, addr, len: len as u32 });
        }
        if self.budget == 0 {
            panic!("{BUDGET_PANIC}");
        }
        self.budget -= 1;
    }

    /// Check address, length and alignment. Returns the offset in `mem`
    fn validate(&mut self, kind: u8, addr: u32, len: usize, unit: usize) -> Result<usize, FlashErr> {
        let name = match kind {
            READ => "read",
            WRITE => "write",
            _ => "erase",
        };
        let range = self.range();
        if len == 0 {
            self.broken("empty", format!("empty {name} at {addr:#x}"));
        }
        if !(addr as usize).is_multiple_of(unit) || !len.is_multiple_of(unit) {
            self.broken(
                "align",
                format!("{name} of {len} bytes at {addr:#x} is not aligned to {unit}"),
            );
            return Err(FlashErr::NotAligned);
        }
        if addr < range.start || u64::from(addr) + len as u64 > u64::from(range.end) {
            self.broken(
                "bounds",
                format!("{name} of {len} bytes at {addr:#x} leaves the range {range:#x?}"),
            );
            return Err(FlashErr::OutOfBounds);
        }
        Ok((addr - range.start) as usize)
    }

    /// Decide what happens to this access. Returns the fate and how many bytes are done.
    fn fate(&mut self, kind: u8, addr: u32, len: usize) -> (Fate, usize) {
        if self.dead {
            return (Fate::Fail(FlashErr::PowerLoss), 0);
        }
        let Some(plan) = self.plan.as_mut() else {
            return (Fate::Go, len);
        };
        let done = match &mut plan.when {
            When::MutByte(n) => {
                if kind == READ {
                    return (Fate::Go, len);
                }
                if *n < len as u64 {
                    *n as usize
                } else {
                    *n -= len as u64;
                    return (Fate::Go, len);
                }
            }
            When::Access { kinds, n, part } => {
                if *kinds & kind == 0 {
                    return (Fate::Go, len);
                }
                if *n == 0 {
                    (*part).min(len)
                } else {
                    *n -= 1;
                    return (Fate::Go, len);
                }
            }
        };
        let mode = plan.mode;
        self.plan = None;
        self.fired = Some(Ev { kind, addr, len: len as u32 });
        match mode {
            Mode::PowerLoss => {
                self.dead = true;
                self.last_err = Some(FlashErr::PowerLoss);
                (Fate::Fail(FlashErr::PowerLoss), done)
            }
            Mode::Error => {
                self.err_seq += 1;
                let e = FlashErr::Injected(self.err_seq);
                self.last_err = Some(e.clone());
                (Fate::Fail(e), done)
            }
            Mode::Cancel => {
                self.cancelled = true;
                (Fate::Hang, done)
            }
            Mode::FlipRead { byte, mask } => (Fate::Flip(byte % len.max(1), mask), len),
        }
    }

    fn do_read(&mut self, addr: u32, buf: &mut [u8]) -> Result<Fate, FlashErr> {
        self.account(READ, addr, buf.len());
        let unit = self.r;
        let off = self.validate(READ, addr, buf.len(), unit)?;
        self.bytes_read += buf.len() as u64;
        self.watch_collision(off, buf.len());
        let (fate, _) = self.fate(READ, addr, buf.len());
        match fate {
            Fate::Go => buf.copy_from_slice(&self.mem[off..off + buf.len()]),
            Fate::Flip(i, mask) => {
                buf.copy_from_slice(&self.mem[off..off + buf.len()]);
                if !buf.is_empty() {
                    buf[i] ^= mask;
                }
            }
            _ => {}
        }
        Ok(fate)
    }

    fn watch_collision(&self, off: usize, len: usize) {
        let h = &self.mem[off..off + len];
        if len == crate::decode::up(8, self.word())
            && !self.starts[off]
            && self.torn[off..off + len].contains(&true)
            && crate::decode::crc16(&h[4..6]).to_le_bytes() == h[6..8]
        {
            COLLISIONS.with(|c| c.set(c.get() + 1));
        }
    }

    /// Change stored bits behind the back of the code under test
    pub fn flip(&mut self, off: usize, mask: u8) {
        self.mem[off] ^= mask;
        self.torn[off] = true;
    }

    /// Take over the content of another flash
    pub fn load(&mut self, other: &Core) {
        self.mem.clone_from(&other.mem);
        self.starts.clone_from(&other.starts);
        self.torn.clone_from(&other.torn);
        self.wcount.clone_from(&other.wcount);
        self.erases.clone_from(&other.erases);
    }

    fn do_write(&mut self, addr: u32, data: &[u8]) -> Result<Fate, FlashErr> {
        self.account(WRITE, addr, data.len());
        let unit = self.w;
        let off = self.validate(WRITE, addr, data.len(), unit)?;
        if self.check_align && !data.is_empty() && !(data.as_ptr() as usize).is_multiple_of(4) {
            self.broken("bufalign", format!("write at {addr:#x} from a buffer not aligned to 4"));
        }
        let (fate, done) = self.fate(WRITE, addr, data.len());
        for (i, b) in data[..done].iter().enumerate() {
            let old = self.mem[off + i];
            if !old & b != 0 {
                self.broken(
                    "zero-to-one",
                    format!("write at {:#x}: {b:02x} over {old:02x}", addr as usize + i),
                );
            }
            self.mem[off + i] = old & b;
        }
        let complete = self.mem[off..off + data.len()] == *data;
        if !data.is_empty() && complete {
            self.starts[off] = true;
        }
        if !complete {
            self.torn[off..off + data.len()].fill(true);
        }
        if done > 0 {
            let words = off / self.w..(off + done).div_ceil(self.w);
            for word in words {
                self.wcount[word] = self.wcount[word].saturating_add(1);
                if self.wcount[word] > 1 {
                    self.reprog.push((word * self.w) as u32);
                }
            }
        }
        self.mut_bytes += done as u64;
        Ok(fate)
    }

    fn do_erase(&mut self, from: u32, to: u32) -> Result<Fate, FlashErr> {
        let len = to.wrapping_sub(from) as usize;
        self.account(ERASE, from, len);
        if to < from {
            self.broken("bounds", format!("erase from {from:#x} to {to:#x}"));
            return Err(FlashErr::OutOfBounds);
        }
        let unit = self.e;
        let off = self.validate(ERASE, from, len, unit)?;
        let (fate, done) = self.fate(ERASE, from, len);
        if self.log_on {
            for p in off / self.e..(off + done).div_ceil(self.e) {
                let live = crate::decode::page(self, p).live();
                self.erase_log.push((p, live));
            }
        }
        self.mem[off..off + done].fill(0xFF);
        self.starts[off..off + done].fill(false);
        self.torn[off..off + done].fill(false);
        // A word only becomes programmable again when it was erased completely
        for word in off / self.w..(off + done) / self.w {
            self.wcount[word] = 0;
        }
        if done > 0 {
            for page in off / self.e..(off + done).div_ceil(self.e) {
                self.erases[page] += 1;
            }
        }
        self.mut_bytes += done as u64;
        Ok(fate)
    }
}

/// Handle that implements the flash traits. W: write size, R: read size, E: erase size
#[derive(Clone)]
pub struct MonFlash<const W: usize, const R: usize, const E: usize> {
    pub core: SharedCore,
}

impl<const W: usize, const R: usize, const E: usize> MonFlash<W, R, E> {
    pub fn new(core: SharedCore) -> Self {
        {
            let c = core.borrow();
            assert!(c.w == W && c.r == R && c.e == E);
        }
        Self { core }
    }

    async fn finish(&self, fate: Result<Fate, FlashErr>) -> Result<(), FlashErr> {
        match fate? {
            Fate::Go | Fate::Flip(..) => Ok(()),
            Fate::Fail(e) => Err(e),
            Fate::Hang => core::future::pending().await,
        }
    }

    async fn maybe_yield(&self) {
        if self.core.borrow().yields {
            let mut first = true;
            core::future::poll_fn(move |cx| {
                if first {
                    first = false;
                    cx.waker().wake_by_ref();
                    core::task::Poll::Pending
                } else {
                    core::task::Poll::Ready(())
                }
            })
            .await;
        }
    }
}

impl<const W: usize, const R: usize, const E: usize> ErrorType for MonFlash<W, R, E> {
    type Error = FlashErr;
}

impl<const W: usize, const R: usize, const E: usize> ReadNorFlash for MonFlash<W, R, E> {
    const READ_SIZE: usize = R;
    async fn read(&mut self, offset: u32, bytes: &mut [u8]) -> Result<(), Self::Error> {
        self.maybe_yield().await;
        let fate = self.core.borrow_mut().do_read(offset, bytes);
        self.finish(fate).await
    }
    fn capacity(&self) -> usize {
        let c = self.core.borrow();
        c.base as usize + c.mem.len()
    }
}

impl<const W: usize, const R: usize, const E: usize> NorFlash for MonFlash<W, R, E> {
    const WRITE_SIZE: usize = W;
    const ERASE_SIZE: usize = E;
    async fn erase(&mut self, from: u32, to: u32) -> Result<(), Self::Error> {
        self.maybe_yield().await;
        let fate = self.core.borrow_mut().do_erase(from, to);
        self.finish(fate).await
    }
    async fn write(&mut self, offset: u32, bytes: &[u8]) -> Result<(), Self::Error> {
        self.maybe_yield().await;
        let fate = self.core.borrow_mut().do_write(offset, bytes);
        self.finish(fate).await
    }
}

impl<const W: usize, const R: usize, const E: usize> MultiwriteNorFlash for MonFlash<W, R, E> {}
