//! Uniform, dynamically typed access to map and queue storages of many geometries and caches,
//! with panics, cancellation and endless calls turned into results.

use std::future::Future;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::pin::pin;
use std::task::{Context, Poll, Waker};

use sequential_storage::Error;
use sequential_storage::map::{Key, SerializationError};
use vcore::{FlashErr, SharedCore};

pub mod map;
pub mod queue;

/// Result of a call, as far as a caller can see it
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum E {
    Storage(FlashErr),
    Full,
    Corrupted,
    LogicBug,
    BufTooBig,
    BufTooSmall(usize),
    Ser(SerializationError),
    TooBig,
    Other(String),
    /// The future was dropped
    Cancelled,
    Panic(String),
    /// Far too many flash accesses or polls
    Hang,
}

impl E {
    /// The call was ended by the injected fault
    pub fn interrupted(&self) -> bool {
        matches!(
            self,
            E::Cancelled | E::Storage(FlashErr::PowerLoss) | E::Storage(FlashErr::Injected(_))
        )
    }
}

pub type Out<T> = Result<T, E>;

impl From<Error<FlashErr>> for E {
    fn from(e: Error<FlashErr>) -> Self {
        match e {
            Error::Storage { value, .. } => E::Storage(value),
            Error::FullStorage => E::Full,
            Error::Corrupted { .. } => E::Corrupted,
            Error::LogicBug { .. } => E::LogicBug,
            Error::BufferTooBig => E::BufTooBig,
            Error::BufferTooSmall(n) => E::BufTooSmall(n),
            Error::SerializationError(s) => E::Ser(s),
            Error::ItemTooBig => E::TooBig,
            other => E::Other(format!("{other:?}")),
        }
    }
}

/// Poll the future to its end, or until the flash says the access never completes
pub fn drive<T>(core: &SharedCore, fut: impl Future<Output = T>) -> Result<T, E> {
    core.borrow_mut().budget = vcore::flash::DEFAULT_BUDGET;
    vcore::driver::call_begin();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut fut = pin!(fut);
        let mut cx = Context::from_waker(Waker::noop());
        let mut polls = 0u64;
        loop {
            match fut.as_mut().poll(&mut cx) {
                Poll::Ready(v) => return Ok(v),
                Poll::Pending => {
                    if core.borrow().cancelled {
                        return Err(E::Cancelled);
                    }
                    polls += 1;
                    if polls > 50_000_000 {
                        return Err(E::Hang);
                    }
                }
            }
        }
    }));
    vcore::driver::call_end();
    match r {
        Ok(v) => v,
        Err(_) => {
            let text = vcore::driver::last_panic();
            if text.contains(vcore::flash::BUDGET_PANIC) {
                Err(E::Hang)
            } else {
                Err(E::Panic(text))
            }
        }
    }
}

/// Flatten the two levels of results
pub fn call<T>(core: &SharedCore, fut: impl Future<Output = Result<T, Error<FlashErr>>>) -> Out<T> {
    match drive(core, fut) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(e.into()),
        Err(e) => Err(e),
    }
}

/// Variable length key: one length byte, then the bytes
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct VKey(pub Vec<u8>);

impl core::fmt::Debug for VKey {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        write!(f, "k{}", vcore::hex(&self.0))
    }
}

impl Key for VKey {
    fn serialize_into(&self, buffer: &mut [u8]) -> Result<usize, SerializationError> {
        let len = self.0.len() + 1;
        if buffer.len() < len {
            return Err(SerializationError::BufferTooSmall);
        }
        buffer[0] = self.0.len() as u8;
        buffer[1..len].copy_from_slice(&self.0);
        Ok(len)
    }
    fn deserialize_from(buffer: &[u8]) -> Result<(Self, usize), SerializationError> {
        let len = *buffer.first().ok_or(SerializationError::BufferTooSmall)? as usize;
        let bytes = buffer.get(1..1 + len).ok_or(SerializationError::BufferTooSmall)?;
        Ok((VKey(bytes.to_vec()), len + 1))
    }
    fn get_len(buffer: &[u8]) -> Result<usize, SerializationError> {
        Ok(*buffer.first().ok_or(SerializationError::BufferTooSmall)? as usize + 1)
    }
}

/// (write, read, erase size)
pub type Geom = (usize, usize, usize);

/// Geometries available with caches 0, 1 and 2
pub const GEOMS: &[Geom] = &[
    (4, 4, 64),
    (4, 1, 128),
    (1, 1, 48),
    (8, 4, 128),
    (32, 1, 256),
    (1, 4, 96),
    (16, 8, 256),
    (4, 4, 256),
    (2, 2, 64),
    (4, 32, 256),
    (4, 4, 1024),
];

/// Geometries available with all caches
pub const FULL_GEOMS: &[Geom] = &[(4, 4, 64), (4, 1, 128), (8, 4, 128)];

pub const MAP_CACHES: usize = 11;
pub const QUEUE_CACHES: usize = 7;
/// Caches available for every geometry
pub const COMMON_CACHES: usize = 3;

/// 4-byte aligned scratch memory of any length
pub struct Scratch(Vec<u32>);
impl Scratch {
    pub fn new(len: usize) -> Self {
        Scratch(vec![0xA5A5_A5A5; len.div_ceil(4) + 1])
    }
    pub fn get(&mut self, len: usize) -> &mut [u8] {
        if self.0.len() * 4 < len {
            self.0.resize(len.div_ceil(4) + 1, 0xA5A5_A5A5);
        }
        // SAFETY: u32 memory is valid u8 memory, and the length is within the vector
        unsafe { core::slice::from_raw_parts_mut(self.0.as_mut_ptr().cast::<u8>(), len) }
    }
}

/// Every item lies in flash once: an iteration that gives more than fits there does not end.
/// Counted in bytes, for items and for the calls that give none.
pub fn fuel(core: &SharedCore) -> usize {
    core.borrow().mem.len() * 2 + 4096
}
