//! Deterministic stand-in for the operating system's random numbers: every
//! call yields bytes never returned before, so that v4 ids are distinct and a
//! replay sees the ids of the symbolic run.
use std::sync::atomic::{AtomicU32, Ordering};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Error(std::num::NonZeroU32);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("getrandom")
    }
}
impl std::error::Error for Error {}
impl From<std::num::NonZeroU32> for Error {
    fn from(e: std::num::NonZeroU32) -> Self {
        Self(e)
    }
}
impl Error {
    pub fn raw_os_error(self) -> Option<i32> {
        None
    }
    pub const fn code(self) -> std::num::NonZeroU32 {
        self.0
    }
}

static NEXT: AtomicU32 = AtomicU32::new(1);

pub fn fill(dest: &mut [u8]) -> Result<(), Error> {
    for c in dest.chunks_mut(4) {
        let n = NEXT.fetch_add(1, Ordering::Relaxed).wrapping_mul(0x9e37_79b1);
        c.copy_from_slice(&n.to_le_bytes()[..c.len()]);
    }
    Ok(())
}

pub fn u32() -> Result<u32, Error> {
    let mut b = [0; 4];
    fill(&mut b)?;
    Ok(u32::from_le_bytes(b))
}

pub fn u64() -> Result<u64, Error> {
    let mut b = [0; 8];
    fill(&mut b)?;
    Ok(u64::from_le_bytes(b))
}
