//! Totality: whatever the outcome, no panic.
use crate::c02::{bin, code};
use crate::sym::*;
use crate::tab::*;
use crate::{I, M};
use cesride::{Counter, Indexer, Matter};

/// one arbitrary non-ASCII character (2, 3 or 4 bytes of UTF-8)
fn wide(id: u32) -> Vec<u8> {
    let w = 2 + choose(3, id + 1) as usize;
    wide_of(w, id).into_bytes()
}
/// the same of a given number of bytes
pub fn wide_of(w: usize, id: u32) -> String {
    let mut c = u32_(id);
    let (lo, hi) = [(0x80, 0x800), (0x800, 0x10000), (0x10000, 0x110000)][w - 2];
    assume((c >= lo) & (c < hi) & !((c >= 0xd800) & (c < 0xe000)));
    let mut v = vec![0u8; w];
    let mut i = w - 1;
    while i > 0 {
        v[i] = 0x80 | (c & 63) as u8;
        c >>= 6;
        i -= 1;
    }
    v[0] = [0xc0, 0xe0, 0xf0][w - 2] | c as u8;
    unsafe { String::from_utf8_unchecked(v) }
}
/// a text that starts with the code: total length around `fs` (or a length
/// below 24 where it is variable), all ASCII or with one wide character at an
/// interesting position
fn text(c: &str, cs: usize, fs: usize) -> String {
    let n = if fs > 0 {
        match choose(4, 10) {
            0 => cs - 1,
            1 => fs - 1,
            2 => fs,
            _ => fs + 1,
        }
    } else {
        choose(if tier() == 0 { 16 } else { 48 }, 10) as usize
    };
    let n = n.max(c.len());
    let k = choose(if tier() == 0 { 6 } else { 12 }, 11) as usize;
    let mut t = c.as_bytes().to_vec();
    if k == 0 {
        t.extend_from_slice(ascii(n - c.len(), 12).as_bytes());
    } else {
        // where the wide character starts
        let p = match k {
            1 => 0,
            2 => c.len(),
            3 => cs - 1,
            4 => cs,
            5 => fs.max(n) - 1,
            6 => 1,
            7 => cs + 1,
            8 => fs.max(4) - 2,
            9 => fs.max(4) - 3,
            10 => n / 2,
            _ => n / 2 + 1,
        };
        t.truncate(p);
        if t.len() < p {
            t.extend_from_slice(ascii(p - t.len(), 12).as_bytes());
        }
        t.extend_from_slice(&wide(13));
        if t.len() < n {
            t.extend_from_slice(ascii(n - t.len(), 15).as_bytes());
        }
    }
    unsafe { String::from_utf8_unchecked(t) }
}
fn done(ok: bool) {
    cover(if ok { "accepted" } else { "refused" });
}
#[no_mangle]
pub extern "C" fn h_c03_m_text() {
    let c = code(case() as usize);
    let t = text(c.c, c.hs + c.ss, c.fs);
    done(M::new_with_qb64(&t).is_ok());
}
#[no_mangle]
pub extern "C" fn h_c03_i_text() {
    let c = &ICODES[case() as usize];
    let t = text(c.c, c.cs(), c.fs);
    done(I::new_with_qb64(&t).is_ok());
}
#[no_mangle]
pub extern "C" fn h_c03_c_text() {
    let (c, ss) = CCODES[case() as usize];
    let t = text(c, c.len() + ss, c.len() + ss);
    done(Counter::new_with_qb64(&t).is_ok());
}
fn binary(c: &str, cs: usize, fs: usize) -> Vec<u8> {
    let n = if fs > 0 {
        match choose(4, 10) {
            0 => cs * 3 / 4,
            1 => fs * 3 / 4 - 1,
            2 => fs * 3 / 4,
            _ => fs * 3 / 4 + 1,
        }
    } else {
        choose(if tier() == 0 { 16 } else { 36 }, 10) as usize
    };
    bin(c, n, 12)
}
#[no_mangle]
pub extern "C" fn h_c03_m_bin() {
    let c = code(case() as usize);
    done(M::new_with_qb2(&binary(c.c, c.hs + c.ss, c.fs)).is_ok());
}
#[no_mangle]
pub extern "C" fn h_c03_i_bin() {
    let c = &ICODES[case() as usize];
    done(I::new_with_qb2(&binary(c.c, c.cs(), c.fs)).is_ok());
}
#[no_mangle]
pub extern "C" fn h_c03_c_bin() {
    let (c, ss) = CCODES[case() as usize];
    done(Counter::new_with_qb2(&binary(c, c.len() + ss, c.len() + ss)).is_ok());
}
/// any byte sequence as text
#[no_mangle]
pub extern "C" fn h_c03_short() {
    let b = bytes(case() as usize % 8, 0);
    done(match case() / 8 {
        0 => M::new_with_qb64b(&b).is_ok(),
        1 => I::new_with_qb64b(&b).is_ok(),
        _ => Counter::new_with_qb64b(&b).is_ok(),
    });
}
/// any byte sequence as binary
#[no_mangle]
pub extern "C" fn h_c03_shortbin() {
    let b = bytes(case() as usize % 8, 0);
    done(match case() / 8 {
        0 => M::new_with_qb2(&b).is_ok(),
        1 => I::new_with_qb2(&b).is_ok(),
        _ => Counter::new_with_qb2(&b).is_ok(),
    });
}
/// a code that is either any string of up to four characters (possibly with a
/// wide one) or one of the table
fn any_code_str(k: usize, table: &str) -> String {
    if k < 5 {
        ascii(k, 0)
    } else if k == 5 {
        unsafe { String::from_utf8_unchecked(wide(1)) }
    } else {
        table.to_string()
    }
}
const LENS: [usize; 14] = [0, 1, 2, 3, 4, 16, 31, 32, 33, 56, 63, 64, 65, 114];
#[no_mangle]
pub extern "C" fn h_c03_m_code() {
    let k = case() as usize;
    let c = any_code_str(k, if k < 6 { "" } else { code(k - 6).c });
    let raw = bytes(LENS[choose(14, 2) as usize], 3);
    match M::new(Some(&c), Some(&raw), None, None, None) {
        Ok(m) => {
            // what was constructed serialises (or says why not) without a panic
            let _ = m.qb64().is_ok();
            let _ = m.qb2().is_ok();
            let _ = m.full_size().is_ok();
            done(true)
        }
        Err(_) => done(false),
    }
}
#[no_mangle]
pub extern "C" fn h_c03_i_code() {
    let k = case() as usize;
    let c = any_code_str(k, if k < 6 { "" } else { ICODES[k - 6].c });
    let raw = bytes(LENS[choose(14, 2) as usize], 3);
    let index = u32_(4);
    let ondex = if choose(2, 5) == 1 { Some(u32_(6)) } else { None };
    match I::new(Some(index), ondex, Some(&c), Some(&raw), None, None, None) {
        Ok(m) => {
            let _ = m.qb64().is_ok();
            let _ = m.qb2().is_ok();
            let _ = m.full_size().is_ok();
            done(true)
        }
        Err(_) => done(false),
    }
}
#[no_mangle]
pub extern "C" fn h_c03_c_code() {
    let k = case() as usize;
    let c = any_code_str(k, if k < 6 { "" } else { CCODES[k - 6].0 });
    let m = if choose(2, 2) == 0 {
        Counter::new(Some(u32_(3)), None, Some(&c), None, None, None)
    } else {
        let t = if choose(2, 4) == 0 { ascii(choose(9, 5) as usize, 6) } else { unsafe { String::from_utf8_unchecked(wide(7)) } };
        Counter::new(None, Some(&t), Some(&c), None, None, None)
    };
    match m {
        Ok(m) => {
            let _ = m.qb64().is_ok();
            let _ = m.qb2().is_ok();
            let _ = m.full_size().is_ok();
            let _ = m.count_as_b64(choose(7, 9) as usize).is_ok();
            done(true)
        }
        Err(_) => done(false),
    }
}
#[no_mangle]
pub extern "C" fn h_c03_semver() {
    let k = case() as usize;
    let t = if k < 7 {
        ascii(k, 0)
    } else {
        let mut s = ascii(k - 7, 0);
        s.push_str(unsafe { std::str::from_utf8_unchecked(&wide(1)) });
        s.push_str(&ascii(1, 3));
        s
    };
    done(Counter::sem_ver_str_to_b64(&t).is_ok());
}
/// variable codes with any size field and much material: case = code of 13 (the last indexed) + 13 * (binary or wide at the end)
#[no_mangle]
pub extern "C" fn h_c03_big() {
    let (k, how) = (case() as usize % 13, case() / 13);
    let (c, ss) = if k < 12 { (VAR[k].c, VAR[k].ss) } else { ("0z", 2) };
    let n = [30, 300][choose(2, 9) as usize];
    if how == 1 {
        let mut b = bin(c, (c.len() + ss) * 3 / 4, 0);
        b.extend(vec![0x5a; n]);
        b.extend(bytes(2, 1));
        done(if k < 12 { M::new_with_qb2(&b).is_ok() } else { I::new_with_qb2(&b).is_ok() });
        return;
    }
    let mut t = c.as_bytes().to_vec();
    t.extend(ascii(ss, 0).bytes());
    t.extend(vec![b'Z'; n]);
    t.extend(if how == 0 { ascii(2, 1).into_bytes() } else { wide(1) });
    let t = unsafe { String::from_utf8_unchecked(t) };
    done(if k < 12 { M::new_with_qb64(&t).is_ok() } else { I::new_with_qb64(&t).is_ok() });
}
