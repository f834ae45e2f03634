//! Monitoring flash, independent decoder and check driver. Nothing in here depends on the crate
//! under test.
pub mod decode;
pub mod driver;
pub mod flash;
pub mod rng;

pub use driver::{Case, Ctx, Fail, Res};
pub use flash::{Core, FlashErr, Mode, MonFlash, Plan, SharedCore};
pub use rng::Rng;

/// FNV-1a
pub fn hash_bytes(seed: u64, data: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ seed.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    for b in data {
        h ^= u64::from(*b);
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    h
}

pub fn hex(data: &[u8]) -> String {
    const MAX: usize = 24;
    let mut s = String::new();
    for b in data.iter().take(MAX) {
        s.push_str(&format!("{b:02x}"));
    }
    if data.len() > MAX {
        s.push_str(&format!("..({}B,h{:08x})", data.len(), hash_bytes(0, data) as u32));
    }
    s
}
