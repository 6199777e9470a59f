use crate::sym::*;
use crate::tab::*;
use cesride::{Matter, Number, Seqner};

/// lower-case hexadecimal digits of `v` without leading zeros, at least one
fn hexs(v: u128) -> Vec<u8> {
    let mut n = 1;
    while n < 32 && v >> (4 * n) != 0 {
        n += 1;
    }
    (0..n).rev().map(|i| b"0123456789abcdef"[(v >> (4 * i)) as usize & 15]).collect()
}
fn value(b: &[u8]) -> u128 {
    b.iter().fold(0, |a, &x| a << 8 | x as u128)
}
fn text_of(code: &str, raw: &[u8]) -> Vec<u8> {
    let ps = (3 - raw.len() % 3) % 3;
    let mut b = vec![0u8; ps];
    b.extend_from_slice(raw);
    let mut t = code.as_bytes().to_vec();
    t.extend_from_slice(&enc(&b)[code.len() % 4..]);
    t
}
/// the views of a Number that denotes `v` under `code`
fn number(m: &cesride::Result<Number>, code: &str, v: u128) {
    let m = match m {
        Ok(m) => m,
        Err(_) => fail("refused"),
    };
    check(m.code() == code, "code");
    match m.num() {
        Ok(n) => check(n == v, "integer view"),
        Err(_) => fail("integer view"),
    }
    match m.positive() {
        Ok(p) => check(p == (v != 0), "positive"),
        Err(_) => fail("positive"),
    }
    let size = match code {
        "M" => 2,
        "0H" => 4,
        "N" => 8,
        _ => 16,
    };
    check(eq(&m.raw(), &v.to_be_bytes()[16 - size..]), "raw");
}
fn seqner(m: &cesride::Result<Seqner>, v: u128) {
    let m = match m {
        Ok(m) => m,
        Err(_) => fail("refused"),
    };
    check(m.code() == "0A", "code");
    match m.sn() {
        Ok(n) => check(n == v, "integer view"),
        Err(_) => fail("integer view"),
    }
    check(eq(&m.raw(), &v.to_be_bytes()), "raw");
}
fn smallest(v: u128) -> &'static str {
    if v >> 16 == 0 {
        "M"
    } else if v >> 32 == 0 {
        "0H"
    } else if v >> 64 == 0 {
        "N"
    } else {
        "0A"
    }
}
/// any integer; case 0 through new_with_num, then new with every code argument
#[no_mangle]
pub extern "C" fn h_c06_num() {
    let v = u128_(0);
    let r = if case() == 0 {
        Number::new_with_num(v)
    } else {
        Number::new(Some(v), None, [None, Some("M"), Some("0H"), Some("N"), Some("0A")][case() as usize - 1], None, None, None, None)
    };
    if r.is_err() && case() > 1 {
        return;
    }
    let code = smallest(v);
    number(&r, code, v);
    let m = match r {
        Ok(m) => m,
        Err(_) => return,
    };
    let h = match m.numh() {
        Ok(h) => h,
        Err(_) => fail("hexadecimal view"),
    };
    check(eq(h.as_bytes(), &hexs(v)), "hexadecimal view");
    number(&Number::new_with_numh(&h), code, v);
    number(&Number::new_with_raw(&m.raw(), Some(code)), code, v);
    let t = match m.qb64() {
        Ok(t) => t,
        Err(_) => fail("text form"),
    };
    check(eq(t.as_bytes(), &text_of(code, &m.raw())), "text form");
    number(&Number::new_with_qb64(&t), code, v);
    number(&Number::new_with_qb64b(t.as_bytes()), code, v);
    match m.qb2() {
        Ok(b) => number(&Number::new_with_qb2(&b), code, v),
        Err(_) => fail("binary form"),
    }
    cover("integer");
}
#[no_mangle]
pub extern "C" fn h_c06_sn() {
    let v = u128_(0);
    let r = if case() == 0 { Seqner::new_with_sn(v) } else { Seqner::new(Some(v), None, Some("0A"), None, None, None, None) };
    seqner(&r, v);
    let m = match r {
        Ok(m) => m,
        Err(_) => return,
    };
    let h = match m.snh() {
        Ok(h) => h,
        Err(_) => fail("hexadecimal view"),
    };
    check(eq(h.as_bytes(), &hexs(v)), "hexadecimal view");
    seqner(&Seqner::new_with_snh(&h), v);
    seqner(&Seqner::new_with_raw(&m.raw(), None), v);
    seqner(&Seqner::new_with_raw(&m.raw(), Some("0A")), v);
    let t = match m.qb64() {
        Ok(t) => t,
        Err(_) => fail("text form"),
    };
    check(eq(t.as_bytes(), &text_of("0A", &v.to_be_bytes())), "text form");
    seqner(&Seqner::new_with_qb64(&t), v);
    seqner(&Seqner::new_with_qb64b(t.as_bytes()), v);
    match m.qb2() {
        Ok(b) => seqner(&Seqner::new_with_qb2(&b), v),
        Err(_) => fail("binary form"),
    }
    cover("integer");
}
/// the value of a hexadecimal string, with an optional '+'
fn parse_hex(t: &[u8]) -> (bool, u128) {
    const D: [u8; 256] = {
        let mut d = [255u8; 256];
        let mut i = 0;
        while i < 10 {
            d[b'0' as usize + i] = i as u8;
            i += 1;
        }
        let mut i = 0;
        while i < 6 {
            d[b'a' as usize + i] = 10 + i as u8;
            d[b'A' as usize + i] = 10 + i as u8;
            i += 1;
        }
        d
    };
    let t = if t.first() == Some(&b'+') { &t[1..] } else { t };
    let mut bad = t.is_empty();
    let mut v = 0u128;
    for (i, &c) in t.iter().enumerate() {
        let d = D[c as usize];
        bad |= d > 15;
        if i + 32 < t.len() {
            // beyond 128 bits: only zeros
            bad |= d != 0;
        } else {
            v = v << 4 | (d & 15) as u128;
        }
    }
    (!bad, v)
}
/// any text of a given length: even cases Number, odd cases Seqner
#[no_mangle]
pub extern "C" fn h_c06_hex() {
    let n = (case() / 2) as usize;
    let t = ascii(n, 0);
    let (ok, v) = parse_hex(t.as_bytes());
    if case() % 2 == 0 {
        match Number::new_with_numh(&t) {
            Ok(m) => {
                if n == 0 {
                    number(&Ok(m), "M", 0);
                    return;
                }
                check(ok, "text that is no hexadecimal number is accepted");
                cover("accepted");
                number(&Ok(m), smallest(v), v);
            }
            Err(_) => {
                check(!ok, "hexadecimal number refused");
                cover("refused");
            }
        }
    } else {
        match Seqner::new_with_snh(&t) {
            Ok(m) => {
                if n == 0 {
                    seqner(&Ok(m), 0);
                    return;
                }
                check(ok, "text that is no hexadecimal number is accepted");
                cover("accepted");
                seqner(&Ok(m), v);
            }
            Err(_) => {
                check(!ok, "hexadecimal number refused");
                cover("refused");
            }
        }
    }
}
/// every code of the family and any raw: parsed forms denote its big-endian value
#[no_mangle]
pub extern "C" fn h_c06_raw() {
    let (code, size) = [("M", 2), ("0H", 4), ("N", 8), ("0A", 16)][case() as usize / 8 % 4];
    let raw = bytes(size, 0);
    let t = text_of(code, &raw);
    let s = unsafe { String::from_utf8_unchecked(t.clone()) };
    let b = dec(&t).0;
    let v = value(&raw);
    let r = match case() % 8 {
        0 => Number::new_with_raw(&raw, Some(code)),
        1 => Number::new_with_qb64(&s),
        2 => Number::new_with_qb64b(&t),
        3 => Number::new_with_qb2(&b),
        4 => Number::new(None, None, Some(code), Some(&raw), None, None, None),
        5 => Number::new(None, None, None, None, None, Some(&s), None),
        6 => Number::new(None, None, None, None, Some(&t), None, None),
        _ => Number::new(None, None, None, None, None, None, Some(&b)),
    };
    number(&r, code, v);
    if let Ok(m) = r {
        match m.numh() {
            Ok(h) => check(eq(h.as_bytes(), &hexs(v)), "hexadecimal view"),
            Err(_) => fail("hexadecimal view"),
        }
        match m.qb64() {
            Ok(q) => check(eq(q.as_bytes(), &t), "text form"),
            Err(_) => fail("text form"),
        }
        cover("value");
    }
}
/// raw shorter than the code's integer, and an integer that is not a number code
#[no_mangle]
pub extern "C" fn h_c06_short() {
    let (code, size) = [("M", 2), ("0H", 4), ("N", 8), ("0A", 16)][case() as usize % 4];
    let n = choose(size, 0) as usize;
    let raw = bytes(n, 1);
    if case() < 4 {
        check(Number::new_with_raw(&raw, Some(code)).is_err(), "raw too short for its code is accepted");
    } else {
        check(Seqner::new_with_raw(&raw, None).is_err(), "raw too short for its code is accepted");
    }
    cover("refused");
}
/// a text with one character beyond ASCII: case = kind * 12 + place * 3 + bytes of it - 2
#[no_mangle]
pub extern "C" fn h_c06_wide() {
    let c = crate::c03::wide_of(case() as usize % 3 + 2, 0);
    let (a, z) = [(0, 0), (0, 2), (2, 0), (1, 30)][case() as usize / 3 % 4];
    let t = ascii(a, 1) + &c + &ascii(z, 2);
    let e = if case() / 12 == 0 { Number::new_with_numh(&t).is_err() } else { Seqner::new_with_snh(&t).is_err() };
    check(e, "text that is no hexadecimal number is accepted");
    cover("refused");
}
