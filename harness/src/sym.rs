//! The interface between harnesses and the symbolic executor.  In the
//! symbolic build the functions below are external symbols that the executor
//! implements; in the native (replay) build they are implemented here over a
//! recorded input file.
#![allow(dead_code)]

#[cfg(feature = "symbolic")]
mod imp {
    extern "C" {
        pub fn sym_bytes(p: *mut u8, n: usize, id: u32);
        pub fn sym_assume(c: bool);
        pub fn sym_assert(c: bool, p: *const u8, n: usize);
        pub fn sym_fail(p: *const u8, n: usize) -> !;
        pub fn sym_case() -> u64;
        pub fn sym_tier() -> u64;
        pub fn sym_conc(v: u64) -> u64;
        pub fn sym_eq(a: *const u8, al: usize, b: *const u8, bl: usize) -> bool;
        pub fn sym_ite(c: bool, a: u64, b: u64) -> u64;
        pub fn sym_cover(p: *const u8, n: usize);
        pub fn sym_note(p: *const u8, n: usize);
        pub fn sym_panics_ok(b: bool);
        pub fn sym_uf(alg: u32, i: *const u8, il: usize, o: *mut u8, ol: usize);
    }
}

#[cfg(not(feature = "symbolic"))]
mod imp {
    use std::cell::RefCell;
    pub struct St {
        pub inputs: Vec<(u32, Vec<u8>)>,
        pub pos: usize,
        pub case: u64,
        pub tier: u64,
    }
    thread_local! { pub static ST: RefCell<St> = const { RefCell::new(St { inputs: vec![], pos: 0, case: 0, tier: 0 }) }; }
    pub unsafe fn sym_bytes(p: *mut u8, n: usize, id: u32) {
        if n == 0 {
            return;
        }
        ST.with(|s| {
            let mut s = s.borrow_mut();
            let k = s.pos;
            s.pos += 1;
            if k >= s.inputs.len() {
                println!("REPLAY diverged: input {} requested but not recorded", id);
                std::process::exit(7);
            }
            let (i, b) = &s.inputs[k];
            if *i != id || b.len() != n {
                println!("REPLAY diverged: input {} ({} bytes) requested, {} ({} bytes) recorded", id, n, i, b.len());
                std::process::exit(7);
            }
            std::ptr::copy_nonoverlapping(b.as_ptr(), p, n);
        })
    }
    pub unsafe fn sym_assume(c: bool) {
        if !c {
            println!("REPLAY assumption not met");
            std::process::exit(8);
        }
    }
    pub unsafe fn sym_assert(c: bool, p: *const u8, n: usize) {
        if !c {
            let m = String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).to_string();
            println!("REPLAY assert {}", m);
            std::process::exit(1);
        }
    }
    pub unsafe fn sym_fail(p: *const u8, n: usize) -> ! {
        sym_assert(false, p, n);
        unreachable!()
    }
    pub unsafe fn sym_case() -> u64 {
        ST.with(|s| s.borrow().case)
    }
    pub unsafe fn sym_tier() -> u64 {
        ST.with(|s| s.borrow().tier)
    }
    pub unsafe fn sym_conc(v: u64) -> u64 {
        v
    }
    pub unsafe fn sym_eq(a: *const u8, al: usize, b: *const u8, bl: usize) -> bool {
        std::slice::from_raw_parts(a, al) == std::slice::from_raw_parts(b, bl)
    }
    pub unsafe fn sym_ite(c: bool, a: u64, b: u64) -> u64 {
        if c {
            a
        } else {
            b
        }
    }
    pub unsafe fn sym_cover(p: *const u8, n: usize) {
        println!("REPLAY cover {}", String::from_utf8_lossy(std::slice::from_raw_parts(p, n)));
    }
    pub unsafe fn sym_note(p: *const u8, n: usize) {
        println!("note {}", String::from_utf8_lossy(std::slice::from_raw_parts(p, n)));
    }
    pub unsafe fn sym_panics_ok(b: bool) {
        super::PANICS_OK.store(b, std::sync::atomic::Ordering::SeqCst);
    }
}
#[cfg(not(feature = "symbolic"))]
pub use imp::ST;
pub static PANICS_OK: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// `n` fresh symbolic bytes
pub fn bytes(n: usize, id: u32) -> Vec<u8> {
    let mut v = vec![0u8; n];
    unsafe { imp::sym_bytes(v.as_mut_ptr(), n, id) };
    v
}
pub fn arr<const N: usize>(id: u32) -> [u8; N] {
    let mut v = [0u8; N];
    unsafe { imp::sym_bytes(v.as_mut_ptr(), N, id) };
    v
}
pub fn u8_(id: u32) -> u8 {
    arr::<1>(id)[0]
}
pub fn u16_(id: u32) -> u16 {
    u16::from_le_bytes(arr::<2>(id))
}
pub fn u32_(id: u32) -> u32 {
    u32::from_le_bytes(arr::<4>(id))
}
pub fn u64_(id: u32) -> u64 {
    u64::from_le_bytes(arr::<8>(id))
}
pub fn u128_(id: u32) -> u128 {
    u128::from_le_bytes(arr::<16>(id))
}
pub fn assume(c: bool) {
    unsafe { imp::sym_assume(c) }
}
pub fn check(c: bool, m: &str) {
    unsafe { imp::sym_assert(c, m.as_ptr(), m.len()) }
}
pub fn fail(m: &str) -> ! {
    unsafe { imp::sym_fail(m.as_ptr(), m.len()) }
}
pub fn case() -> u64 {
    unsafe { imp::sym_case() }
}
pub fn tier() -> u64 {
    unsafe { imp::sym_tier() }
}
/// enumerate the feasible values of `v` (one path each)
pub fn conc(v: u64) -> u64 {
    unsafe { imp::sym_conc(v) }
}
/// equality of two byte strings as one formula (no branching)
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    unsafe { imp::sym_eq(a.as_ptr(), a.len(), b.as_ptr(), b.len()) }
}
pub fn ite(c: bool, a: u64, b: u64) -> u64 {
    unsafe { imp::sym_ite(c, a, b) }
}
/// reachability witness: the runner requires every named cover of a harness to be reached
pub fn cover(m: &str) {
    unsafe { imp::sym_cover(m.as_ptr(), m.len()) }
}
pub fn note(m: &str) {
    unsafe { imp::sym_note(m.as_ptr(), m.len()) }
}
pub fn panics_ok(b: bool) {
    unsafe { imp::sym_panics_ok(b) }
}
/// a symbolic value below `n`, one path per value
pub fn choose(n: u64, id: u32) -> u64 {
    let v = u8_(id) as u64;
    assume(v < n);
    conc(v)
}
/// a string of `n` arbitrary ASCII characters
pub fn ascii(n: usize, id: u32) -> String {
    let v = bytes(n, id);
    let mut m = 0u8;
    for b in &v {
        m |= *b;
    }
    assume(m < 0x80);
    unsafe { String::from_utf8_unchecked(v) }
}
/// lengths around which things change: powers of two, hash blocks, Base64 digits
pub const LONG: [usize; 24] = [
    15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537,
];
/// a fixed pattern of which the first, the middle and the last byte are any
pub fn long(n: usize, id: u32) -> Vec<u8> {
    let mut v: Vec<u8> = (0..n).map(|k| b"The quick brown fox "[k % 20]).collect();
    let x = arr::<3>(id);
    v[0] = x[0];
    v[n / 2] = x[1];
    v[n - 1] = x[2];
    v
}
/// the same of printable characters that need no escape
pub fn long_plain(n: usize, id: u32) -> String {
    let v = long(n, id);
    for b in [v[0], v[n / 2], v[n - 1]] {
        assume((b >= 32) & (b != b'"') & (b != b'\\') & (b < 0x7f));
    }
    unsafe { String::from_utf8_unchecked(v) }
}
