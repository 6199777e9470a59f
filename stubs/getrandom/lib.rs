//! Operating-system randomness as arbitrary bytes.
use core::num::NonZeroU32;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Error(NonZeroU32);
impl Error {
    pub const INTERNAL_START: u32 = 1 << 31;
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
    pub const fn code(self) -> NonZeroU32 {
        self.0
    }
    pub fn raw_os_error(self) -> Option<i32> {
        None
    }
}
impl From<NonZeroU32> for Error {
    fn from(c: NonZeroU32) -> Self {
        Error(c)
    }
}
impl core::fmt::Display for Error {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("getrandom error")
    }
}
impl std::error::Error for Error {}
extern "C" {
    fn sym_bytes(p: *mut u8, n: usize, id: u32);
}
pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    // identifiers from 9000 on are not replay inputs
    unsafe { sym_bytes(dest.as_mut_ptr(), dest.len(), 9000) };
    Ok(())
}
