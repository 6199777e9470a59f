use crate::sym::*;
use crate::tab::*;
use cesride::{Bext, Bexter, Dater, Matter};

fn all64(t: &[u8]) -> bool {
    let mut bad = 0u8;
    for &c in t {
        bad |= UNB64[c as usize] >> 6;
    }
    bad == 0
}
fn string(t: &[u8]) -> String {
    unsafe { String::from_utf8_unchecked(t.to_vec()) }
}
fn same(m: &cesride::Result<Bexter>, code: &str, raw: &[u8], t: &[u8]) {
    let m = match m {
        Ok(m) => m,
        Err(_) => fail("text refused"),
    };
    check(m.code() == code, "code");
    check(eq(&m.raw(), raw), "raw");
    match m.bext() {
        Ok(b) => {
            // a whole number of quadlets that begins with 'A' reads as padding
            let pad = !t.is_empty() && t.len() % 4 == 0 && t[0] == b'A';
            if pad {
                cover("padded");
            } else {
                check(eq(b.as_bytes(), t), "text does not come back unchanged");
                cover("returned");
            }
        }
        Err(_) => fail("no text"),
    }
}
/// any ASCII text of a given length; from case 128 with a variable code as argument
#[no_mangle]
pub extern "C" fn h_c08_bext() {
    let n = case() as usize % 128;
    let t = ascii(n, 0);
    let ok = all64(t.as_bytes());
    let m = if case() < 128 { Bexter::new_with_bext(&t) } else { Bexter::new(Some(&t), Some(["4A", "5A", "6A"][case() as usize / 128 - 1]), None, None, None, None) };
    let m = match m {
        Ok(m) => m,
        Err(_) => {
            check(!ok, "Base64 text refused");
            cover("refused");
            return;
        }
    };
    check(ok, "text outside the alphabet accepted");
    let mut p = vec![b'A'; (4 - n % 4) % 4];
    p.extend_from_slice(t.as_bytes());
    let ls = [0, 2, 1, 0][n % 4];
    let full = dec(&p).0;
    let code = ["4A", "5A", "6A"][ls];
    let raw = &full[ls..];
    let m = Ok(m);
    same(&m, code, raw, t.as_bytes());
    let m = match m {
        Ok(m) => m,
        Err(_) => return,
    };
    let mut q = code.as_bytes().to_vec();
    q.extend_from_slice(&int64(p.len() as u64 / 4, 2));
    q.extend_from_slice(&p);
    match m.qb64() {
        Ok(s) => {
            check(eq(s.as_bytes(), &q), "text form");
            same(&Bexter::new_with_qb64(&s), code, raw, t.as_bytes());
        }
        Err(_) => fail("no text form"),
    }
    match m.qb64b() {
        Ok(s) => same(&Bexter::new_with_qb64b(&s), code, raw, t.as_bytes()),
        Err(_) => fail("no text form"),
    }
    match m.qb2() {
        Ok(b) => {
            check(eq(&b, &dec(&q).0), "binary form");
            same(&Bexter::new_with_qb2(&b), code, raw, t.as_bytes());
        }
        Err(_) => fail("no binary form"),
    }
    same(&Bexter::new_with_raw(raw, Some(code)), code, raw, t.as_bytes());
}
/// text around the largest size of the small codes and other boundaries, three characters free
#[no_mangle]
pub extern "C" fn h_c08_bext_big() {
    let n = [4 * 4095, 4 * 63, 4 * 64, 1 << 16][case() as usize / 8] - 3 + case() as usize % 8;
    let mut t = vec![b'x'; n];
    let w = ascii(3, 0);
    t[0] = w.as_bytes()[0];
    t[n / 2] = w.as_bytes()[1];
    t[n - 1] = w.as_bytes()[2];
    let ok = all64(w.as_bytes());
    match Bexter::new_with_bext(&string(&t)) {
        Ok(m) => {
            check(ok, "text outside the alphabet accepted");
            let ls = [0, 2, 1, 0][n % 4];
            let big = (n + 3) / 4 > 4095;
            let code = [["4A", "5A", "6A"], ["7AAA", "8AAA", "9AAA"]][big as usize][ls];
            let mut p = vec![b'A'; (4 - n % 4) % 4];
            p.extend_from_slice(&t);
            let raw = dec(&p).0[ls..].to_vec();
            let m = Ok(m);
            same(&m, code, &raw, &t);
            if let Ok(m) = m {
                match m.qb64() {
                    Ok(s) => same(&Bexter::new_with_qb64(&s), code, &raw, &t),
                    Err(_) => fail("no text form"),
                }
                match m.qb2() {
                    Ok(b) => same(&Bexter::new_with_qb2(&b), code, &raw, &t),
                    Err(_) => fail("no binary form"),
                }
            }
        }
        Err(_) => {
            check(!ok, "Base64 text refused");
            cover("refused");
        }
    }
}
/// text of arbitrary UTF-8 with at least one non-ASCII character is refused
#[no_mangle]
pub extern "C" fn h_c08_bext_utf8() {
    let b = bytes(case() as usize, 0);
    let mut m = 0u8;
    for x in &b {
        m |= *x;
    }
    assume(m >= 0x80);
    if let Ok(s) = std::str::from_utf8(&b) {
        check(Bexter::new_with_bext(s).is_err(), "text outside the alphabet accepted");
        cover("refused");
    }
}
/// any Bexter that parses: what it returns comes back when it is stored again
#[no_mangle]
pub extern "C" fn h_c08_bext_parsed() {
    let code = ["4A", "5A", "6A", "7AAA", "8AAA", "9AAA"][case() as usize % 6];
    let q = case() as usize / 12;
    let mut t = code.as_bytes().to_vec();
    t.extend_from_slice(&int64(q as u64, if code.len() == 2 { 2 } else { 4 }));
    t.extend_from_slice(ascii(4 * q, 0).as_bytes());
    let r = if case() / 6 % 2 == 0 { Bexter::new_with_qb64(&string(&t)) } else { Bexter::new_with_qb2(&dec(&t).0) };
    let m = match r {
        Ok(m) => m,
        Err(_) => return,
    };
    let b = match m.bext() {
        Ok(b) => b,
        Err(_) => fail("no text"),
    };
    check(all64(b.as_bytes()), "returned text is outside the alphabet");
    match Bexter::new_with_bext(&b) {
        Ok(n) => match n.bext() {
            Ok(c) => check(eq(c.as_bytes(), b.as_bytes()), "returned text does not come back"),
            Err(_) => fail("no text"),
        },
        Err(_) => fail("returned text is refused"),
    }
    cover("again");
}

const DTS: &[u8; 32] = b"2020-08-22T17:50:09.988921+00:00";
fn stored(t: &[u8]) -> Vec<u8> {
    let mut v = b"1AAG".to_vec();
    v.extend(t.iter().map(|&c| match c {
        b':' => b'c',
        b'.' => b'd',
        b'+' => b'p',
        c => c,
    }));
    v
}
fn dts(m: &cesride::Result<Dater>, t: &[u8]) {
    let m = match m {
        Ok(m) => m,
        Err(_) => fail("date-time refused"),
    };
    match m.dts() {
        Ok(d) => check(eq(d.as_bytes(), t), "date-time does not come back unchanged"),
        Err(_) => fail("no date-time"),
    }
    match m.dtsb() {
        Ok(d) => check(eq(&d, t), "date-time does not come back unchanged"),
        Err(_) => fail("no date-time"),
    }
}
fn dater(r: cesride::Result<Dater>, t: &[u8]) {
    dts(&r, t);
    let m = match r {
        Ok(m) => m,
        Err(_) => return,
    };
    check(m.code() == "1AAG", "code");
    let q = stored(t);
    match m.qb64() {
        Ok(s) => {
            check(eq(s.as_bytes(), &q), "text form");
            dts(&Dater::new_with_qb64(&s), t);
        }
        Err(_) => fail("no text form"),
    }
    match m.qb64b() {
        Ok(s) => dts(&Dater::new_with_qb64b(&s), t),
        Err(_) => fail("no text form"),
    }
    match m.qb2() {
        Ok(b) => {
            check(eq(&b, &dec(&q).0), "binary form");
            dts(&Dater::new_with_qb2(&b), t);
        }
        Err(_) => fail("no binary form"),
    }
    dts(&Dater::new_with_raw(&m.raw(), Some("1AAG")), t);
    dts(&Dater::new_with_dts(&string(t), None), t);
    dts(&Dater::new_with_dts(&string(t), Some("1AAG")), t);
    cover("date-time");
}
/// every digit of the fixed-width form, both offset signs; case 1: 'Z'-less
/// separators as they are, with a space or 't' instead of 'T' refused or kept
#[no_mangle]
pub extern "C" fn h_c08_dts() {
    let mut t = *DTS;
    let d: [u8; 24] = arr(0);
    let mut bad = false;
    let mut k = 0;
    for c in t.iter_mut() {
        if c.is_ascii_digit() {
            bad |= d[k] < b'0' || d[k] > b'9';
            *c = d[k];
            k += 1;
        }
    }
    assume(!bad);
    if case() == 1 {
        t[26] = b'-';
    }
    let s = string(&t);
    dater(Dater::new_with_dts(&s, None), &t);
}
/// three arbitrary characters anywhere in the fixed-width form
#[no_mangle]
pub extern "C" fn h_c08_dts_any() {
    let mut t = *DTS;
    let w = ascii(3, 0);
    let k = (case() as usize * 3).min(29);
    t[k..k + 3].copy_from_slice(w.as_bytes());
    let ok = w.bytes().all(|c| UNB64[c as usize] < 64 || c == b':' || c == b'.' || c == b'+');
    let amb = w.bytes().any(|c| c == b'c' || c == b'd' || c == b'p');
    match Dater::new_with_dts(&string(&t), None) {
        Ok(m) => {
            check(ok, "text outside the alphabet accepted");
            if !amb {
                dater(Ok(m), &t);
            }
        }
        Err(_) => {
            check(!ok, "date-time refused");
            cover("refused");
        }
    }
}
/// a stored date-time with three arbitrary characters anywhere: what it
/// returns is stored as the same primitive again
#[no_mangle]
pub extern "C" fn h_c08_dts_parsed() {
    let mut q = stored(DTS);
    let w = ascii(3, 0);
    let k = 4 + (case() as usize / 2 * 3).min(29);
    q[k..k + 3].copy_from_slice(w.as_bytes());
    let r = if case() % 2 == 0 {
        Dater::new_with_qb64(&string(&q))
    } else {
        let (b, ok) = dec(&q);
        assume(ok);
        Dater::new_with_qb2(&b)
    };
    let m = match r {
        Ok(m) => m,
        Err(_) => return,
    };
    let d = match m.dts() {
        Ok(d) => d,
        Err(_) => fail("no date-time"),
    };
    check(eq(&stored(d.as_bytes()), &q), "returned text differs from the stored one");
    match Dater::new_with_dts(&d, None) {
        Ok(n) => {
            check(n.code() == m.code() && eq(&n.raw(), &m.raw()), "stored again differently");
            cover("again");
        }
        Err(_) => fail("returned date-time is refused"),
    }
}
