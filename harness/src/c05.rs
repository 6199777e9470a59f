use crate::sym::*;
use crate::tab::*;
use cesride::Counter;

fn same(p: cesride::Result<Counter>, c: &str, n: u32) {
    match p {
        Ok(p) => {
            check(p.code() == c, "code");
            check(p.count() == n, "count");
        }
        Err(_) => fail("does not parse back"),
    }
}
fn image(c: &str, ss: usize, n: u32) -> Vec<u8> {
    let mut o = c.as_bytes().to_vec();
    o.extend(int64(n as u64, ss));
    o
}
fn forms(m: &Counter, c: &str, ss: usize, n: u32) {
    check(m.code() == c, "code");
    check(m.count() == n, "count");
    let expect = image(c, ss, n);
    let t = match m.qb64() {
        Ok(t) => t,
        Err(_) => fail("qb64 fails"),
    };
    check(eq(t.as_bytes(), &expect), "text form");
    let tb = match m.qb64b() {
        Ok(t) => t,
        Err(_) => fail("qb64b fails"),
    };
    check(eq(&tb, &expect), "text bytes form");
    let b = match m.qb2() {
        Ok(b) => b,
        Err(_) => fail("qb2 fails"),
    };
    check(eq(&b, &dec(&expect).0), "binary form");
    match m.full_size() {
        Ok(n) => check(n == t.len(), "full size"),
        Err(_) => fail("full size"),
    }
    match m.count_as_b64(0) {
        Ok(s) => check(eq(s.as_bytes(), &expect[c.len()..]), "count in the code's own width"),
        Err(_) => fail("count_as_b64"),
    }
    same(Counter::new_with_qb64(&t), c, n);
    same(Counter::new_with_qb64b(&tb), c, n);
    same(Counter::new_with_qb2(&b), c, n);
    same(Counter::new(None, None, None, None, Some(&t), None), c, n);
    same(Counter::new(None, None, None, Some(&tb), None, None), c, n);
    same(Counter::new(None, None, None, None, None, Some(&b)), c, n);
}
/// every code and every 32-bit count
#[no_mangle]
pub extern "C" fn h_c05_build() {
    let (c, ss) = CCODES[case() as usize];
    let n = u32_(0);
    let fits = (n as u64) < 1u64 << (6 * ss);
    let m = match choose(2, 1) {
        0 => Counter::new_with_code_and_count(c, n),
        _ => Counter::new(Some(n), None, Some(c), None, None, None),
    };
    match m {
        Ok(m) => {
            check(fits, "count that does not fit is accepted");
            forms(&m, c, ss, n);
            cover("roundtrip");
        }
        Err(_) => {
            check(!fits, "count that fits is refused");
            cover("refused");
        }
    }
}
/// the count given as Base64 text, and rendered with a chosen width
#[no_mangle]
pub extern "C" fn h_c05_b64() {
    let (c, ss) = CCODES[case() as usize];
    let k = choose(6, 1) as usize;
    let t = ascii(k, 0);
    let mut good = true;
    for b in t.bytes() {
        good &= UNB64[b as usize] < 64;
    }
    let m = match Counter::new(None, Some(&t), Some(c), None, None, None) {
        Ok(m) => m,
        Err(_) => {
            check(!good | (val64(t.as_bytes()) >= 1 << (6 * ss)), "count that fits is refused");
            cover("refused");
            return;
        }
    };
    check(good, "foreign character accepted");
    check(m.count() as u64 == val64(t.as_bytes()), "count differs from its Base64 text");
    let l = 1 + choose(6, 2) as usize;
    if (m.count() as u64) < 1 << (6 * l) {
        match m.count_as_b64(l) {
            Ok(s) => check(eq(s.as_bytes(), &int64(m.count() as u64, l)), "fixed-width count"),
            Err(_) => fail("count_as_b64"),
        }
        cover("rendered");
    }
}
/// accepted text (any 0..=10 ASCII characters, or characters after a code)
#[no_mangle]
pub extern "C" fn h_c05_text() {
    let k = case() as usize;
    let t = if k < 9 {
        ascii(k, 0)
    } else {
        let (c, ss) = CCODES[k - 9];
        let mut s = c.to_string();
        s.push_str(&ascii(ss - 1 + choose(4, 1) as usize, 0));
        s
    };
    let m = match Counter::new_with_qb64(&t) {
        Ok(m) => m,
        Err(_) => return,
    };
    cover("accepted");
    let t = t.as_bytes();
    let (c, ss) = match ccode(&m.code()) {
        Some(c) => *c,
        None => fail("unknown code"),
    };
    let fs = c.len() + ss;
    check(fs <= t.len(), "accepted text is shorter than its code requires");
    check(eq(&t[..c.len()], c.as_bytes()), "code differs from the text");
    let n = m.count();
    check(eq(&t[..fs], &image(c, ss, n)), "count differs from its field");
    forms(&m, c, ss, n);
}
/// accepted binary
#[no_mangle]
pub extern "C" fn h_c05_bin() {
    let k = case() as usize;
    let b = if k < 8 {
        bytes(k, 0)
    } else {
        let (c, ss) = CCODES[k - 8];
        crate::c02::bin(c, (c.len() + ss) / 4 * 3 - 1 + choose(3, 1) as usize, 0)
    };
    let m = match Counter::new_with_qb2(&b) {
        Ok(m) => m,
        Err(_) => return,
    };
    cover("accepted");
    let (c, ss) = match ccode(&m.code()) {
        Some(c) => *c,
        None => fail("unknown code"),
    };
    let fs = (c.len() + ss) / 4 * 3;
    check(fs <= b.len(), "accepted binary is shorter than its code requires");
    let n = m.count();
    check(eq(&enc(&b[..fs]), &image(c, ss, n)), "code or count differs from its field");
    forms(&m, c, ss, n);
}
/// packing of semantic versions
#[no_mangle]
pub extern "C" fn h_c05_semver() {
    let p = arr::<3>(0);
    let fits = (p[0] < 64) & (p[1] < 64) & (p[2] < 64);
    match Counter::sem_ver_to_b64(p[0], p[1], p[2]) {
        Ok(s) => {
            check(fits, "component above 63 accepted");
            check(eq(s.as_bytes(), &[B64[p[0] as usize & 63], B64[p[1] as usize & 63], B64[p[2] as usize & 63]]), "packed version");
            cover("packed");
        }
        Err(_) => {
            check(!fits, "version refused");
            cover("refused");
        }
    }
}
/// every ASCII version string of up to 6 (thorough 8) characters
#[no_mangle]
pub extern "C" fn h_c05_semver_str() {
    let n = case() as usize;
    let t = ascii(n, 0);
    // reference reading: up to three dot-separated numbers, absent ones zero
    // (each may carry a sign, as long as it is not negative)
    let (mut parts, mut k, mut good) = ([0u32; 3], 0usize, true);
    let (mut digits, mut sign) = (0, 0u8);
    for b in t.bytes() {
        if b == b'.' {
            good &= sign == 0 || digits > 0;
            k += 1;
            digits = 0;
            sign = 0;
            if k == 3 {
                good = false;
                break;
            }
        } else if (b == b'+' || b == b'-') && digits == 0 && sign == 0 {
            sign = b;
        } else if b.is_ascii_digit() {
            parts[k] = parts[k] * 10 + (b - b'0') as u32;
            digits += 1;
            if parts[k] > 63 || parts[k] > 0 && sign == b'-' {
                good = false;
                break;
            }
        } else {
            good = false;
            break;
        }
    }
    good &= sign == 0 || digits > 0;
    match Counter::sem_ver_str_to_b64(&t) {
        Ok(s) => {
            check(good, "malformed version accepted");
            check(eq(s.as_bytes(), &[B64[parts[0] as usize], B64[parts[1] as usize], B64[parts[2] as usize]]), "packed version");
            cover("packed");
        }
        Err(_) => {
            check(!good, "version refused");
            cover("refused");
        }
    }
}
