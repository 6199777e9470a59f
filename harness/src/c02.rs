use crate::sym::*;
use crate::tab::*;
use crate::M;
use cesride::Matter;

/// extent in characters of the primitive that starts the text, by the code table
pub fn extent(c: &Code, t: &[u8]) -> usize {
    if c.fs > 0 {
        return c.fs;
    }
    let mut n = 0usize;
    let mut k = 0;
    while k < c.ss {
        n = n * 64 + UNB64[t[c.hs + k] as usize] as usize;
        k += 1;
    }
    c.hs + c.ss + 4 * n
}
pub fn code(i: usize) -> &'static Code {
    if i < NFIXED {
        fixed(i)
    } else {
        &VAR[i - NFIXED]
    }
}

fn accepted_text(m: &M, t: &[u8]) {
    let c = match any_code(&m.code()) {
        Some(c) => c,
        None => fail("accepted text has an unknown code"),
    };
    check(t.len() >= c.hs && eq(&t[..c.hs], c.c.as_bytes()), "code differs from the text");
    check(t.len() >= c.hs + c.ss, "accepted text is shorter than its code requires");
    let fs = conc(extent(c, t) as u64) as usize;
    check(fs <= t.len(), "accepted text is shorter than its code requires");
    match m.full_size() {
        Ok(n) => check(n == fs, "full size"),
        Err(_) => fail("full size"),
    }
    match m.qb64() {
        Ok(q) => check(eq(q.as_bytes(), &t[..fs]), "re-serialised text differs"),
        Err(_) => fail("accepted text does not re-serialise"),
    }
    match m.qb2() {
        Ok(b) => check(eq(&b, &dec(&t[..fs]).0), "binary form differs"),
        Err(_) => fail("accepted text has no binary form"),
    }
}

/// any text that starts with a given code, of lengths around the full size
#[no_mangle]
pub extern "C" fn h_c02_text() {
    let c = code(case() as usize);
    let n = if c.fs > 0 {
        c.fs - c.hs - 1 + choose(3, 1) as usize
    } else {
        choose(if tier() == 0 { 25 } else { 49 }, 1) as usize
    };
    let mut t = c.c.to_string();
    t.push_str(&ascii(n, 0));
    let m = match M::new_with_qb64(&t) {
        Ok(m) => m,
        Err(_) => return,
    };
    cover("accepted");
    check(m.code() == c.c, "code differs from the text");
    accepted_text(&m, t.as_bytes());
}
/// any short text
#[no_mangle]
pub extern "C" fn h_c02_short() {
    let n = case() as usize;
    let t = ascii(n, 0);
    let m = match M::new_with_qb64(&t) {
        Ok(m) => m,
        Err(_) => return,
    };
    cover("accepted");
    accepted_text(&m, t.as_bytes());
}

fn accepted_bin(m: &M, t: &[u8]) {
    let q = match m.qb2() {
        Ok(q) => q,
        Err(_) => fail("accepted binary does not re-serialise"),
    };
    check(q.len() <= t.len(), "re-serialised binary longer than the input");
    check(eq(&q, &t[..q.len()]), "re-serialised binary differs");
    let s = match m.qb64() {
        Ok(q) => q,
        Err(_) => fail("accepted binary has no text form"),
    };
    check(eq(s.as_bytes(), &enc(&q)), "text form differs");
    let c = match any_code(&m.code()) {
        Some(c) => c,
        None => fail("accepted binary has an unknown code"),
    };
    check(s.len() >= c.hs + c.ss && eq(&s.as_bytes()[..c.hs], c.c.as_bytes()), "code differs");
    check(extent(c, s.as_bytes()) == s.len(), "extent differs from the code table");
}
/// `n` arbitrary bytes whose leading bits are those of the code
pub fn bin(c: &str, n: usize, id: u32) -> Vec<u8> {
    let mut b = bytes(n, id);
    let mut i = 0;
    let c = c.as_bytes();
    while i < 6 * c.len() && i / 8 < n {
        let bit = UNB64[c[i / 6] as usize] >> (5 - i % 6) & 1;
        let m = 0x80u8 >> (i % 8);
        b[i / 8] = if bit == 1 { b[i / 8] | m } else { b[i / 8] & !m };
        i += 1;
    }
    b
}
/// any binary that starts with a given code, of lengths around the full size
#[no_mangle]
pub extern "C" fn h_c02_bin() {
    let c = code(case() as usize);
    let n = if c.fs > 0 {
        c.fs * 3 / 4 - 1 + choose(3, 1) as usize
    } else {
        choose(if tier() == 0 { 20 } else { 38 }, 1) as usize
    };
    let t = bin(c.c, n, 0);
    let m = match M::new_with_qb2(&t) {
        Ok(m) => m,
        Err(_) => return,
    };
    cover("accepted");
    check(m.code() == c.c, "code differs from the binary");
    accepted_bin(&m, &t);
}
/// any short binary
#[no_mangle]
pub extern "C" fn h_c02_shortbin() {
    let n = case() as usize;
    let t = bytes(n, 0);
    let m = match M::new_with_qb2(&t) {
        Ok(m) => m,
        Err(_) => return,
    };
    cover("accepted");
    accepted_bin(&m, &t);
}
/// sizes in quadlets around which something changes
const QUADS: [usize; 11] = [4, 5, 63, 64, 65, 127, 255, 256, 1023, 4095, 4096];
fn sparse(n: usize, f: impl Fn(usize, u32) -> Vec<u8>) -> Vec<u8> {
    let mut v = vec![b'A'; n];
    for (k, c) in v.iter_mut().enumerate() {
        *c = B64[(k * 7 + 3) % 64];
    }
    v[..4].copy_from_slice(&f(4, 0));
    v[n / 2..n / 2 + 2].copy_from_slice(&f(2, 1));
    v[n - 2..].copy_from_slice(&f(2, 2));
    v
}
/// variable codes at larger sizes, material mostly fixed: case = code + 12 * (size + 11 * binary)
#[no_mangle]
pub extern "C" fn h_c02_big() {
    let c = &VAR[case() as usize % 12];
    let q = QUADS[case() as usize / 12 % 11];
    if q >= 1 << (6 * c.ss) {
        return;
    }
    let mut t = c.c.as_bytes().to_vec();
    t.extend(int64(q as u64, c.ss));
    if case() / 132 == 0 {
        t.extend(sparse(4 * q, |n, id| ascii(n, id).into_bytes()));
        t.extend(ascii(5, 3).bytes());
        let t = unsafe { String::from_utf8_unchecked(t) };
        match M::new_with_qb64(&t) {
            Ok(m) => {
                check(m.code() == c.c, "code differs from the text");
                accepted_text(&m, t.as_bytes());
                match M::new_with_qb64(&t[..t.len() - 5]) {
                    Ok(x) => check(x == m, "what follows matters"),
                    Err(_) => fail("what follows matters"),
                }
                cover("accepted");
            }
            Err(_) => check(M::new_with_qb64(&t[..t.len() - 5]).is_err(), "what follows matters"),
        }
        check(M::new_with_qb64(&t[..t.len() - 6]).is_err(), "a truncated text accepted");
    } else {
        let mut b = dec(&t).0;
        b.extend(sparse(3 * q, bytes));
        b.extend(bytes(5, 3));
        let n = b.len() - 5;
        match M::new_with_qb2(&b) {
            Ok(m) => {
                check(m.code() == c.c, "code differs from the binary");
                accepted_bin(&m, &b);
                check(matches!(m.qb2(), Ok(x) if x.len() == n), "extent");
                match M::new_with_qb2(&b[..n]) {
                    Ok(x) => check(x == m, "what follows matters"),
                    Err(_) => fail("what follows matters"),
                }
                cover("accepted");
            }
            Err(_) => check(M::new_with_qb2(&b[..n]).is_err(), "what follows matters"),
        }
        check(M::new_with_qb2(&b[..n - 1]).is_err(), "a truncated binary accepted");
    }
}
/// fixed codes followed by much more: case = code + 38 * (tail + 3 * (text, text bytes, binary))
#[no_mangle]
pub extern "C" fn h_c02_tail() {
    let c = fixed(case() as usize % 38);
    let k = [7, 60, 300][case() as usize / 38 % 3];
    let how = case() / 114;
    let mut t = if how < 2 {
        let mut t = c.c.as_bytes().to_vec();
        t.extend(ascii(c.fs - c.hs, 0).bytes());
        t
    } else {
        bin(c.c, c.fs * 3 / 4, 0)
    };
    let n = t.len();
    t.extend(match how {
        0 => ascii(6, 1).into_bytes(),
        1 => [bytes(1, 1), ascii(5, 2).into_bytes()].concat(),
        _ => bytes(6, 1),
    });
    t.extend(vec![b'D'; k - 6]);
    let new = |b: &[u8]| match how {
        0 => M::new_with_qb64(unsafe { std::str::from_utf8_unchecked(b) }),
        1 => M::new_with_qb64b(b),
        _ => M::new_with_qb2(b),
    };
    let x = new(&t);
    match (&x, new(&t[..n])) {
        (Ok(x), Ok(y)) => {
            check(x.code() == c.c && y.code() == c.c && eq(&x.raw(), &y.raw()) && x.size() == y.size(), "what follows matters");
            cover("accepted");
        }
        (Err(_), Err(_)) => (),
        // text bytes that are no text at all may be refused
        (Err(_), Ok(_)) => check(how == 1 && std::str::from_utf8(&t).is_err(), "what follows matters"),
        _ => fail("what follows matters"),
    }
}
