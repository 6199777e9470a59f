use crate::sym::*;
use crate::tab::*;
use crate::M;
use cesride::Matter;

fn roundtrip(m: &M, code: &str, size: u32, raw: &[u8], expect: &[u8]) {
    let t = match m.qb64() {
        Ok(t) => t,
        Err(_) => fail("qb64 fails"),
    };
    check(eq(t.as_bytes(), expect), "text form");
    let tb = match m.qb64b() {
        Ok(t) => t,
        Err(_) => fail("qb64b fails"),
    };
    check(eq(&tb, expect), "text bytes form");
    let b = match m.qb2() {
        Ok(t) => t,
        Err(_) => fail("qb2 fails"),
    };
    check(eq(&b, &dec(expect).0), "binary form");
    let ps = [M::new_with_qb64(&t), M::new_with_qb64b(&tb), M::new_with_qb2(&b), M::new(None, None, None, Some(&t), None), M::new(None, None, Some(&tb), None, None), M::new(None, None, None, None, Some(&b))];
    for p in ps {
        match p {
            Ok(p) => {
                check(p.code() == code, "code after parsing");
                check(p.size() == size, "size after parsing");
                check(eq(&p.raw(), raw), "raw after parsing");
            }
            Err(_) => fail("does not parse back"),
        }
    }
    cover("roundtrip");
}

/// every fixed-size code, every raw value
#[no_mangle]
pub extern "C" fn h_c01_fixed() {
    let c = fixed(case() as usize);
    let raw = bytes(c.raw(), 0);
    let m = match M::new_with_code_and_raw(c.c, &raw) {
        Ok(m) => m,
        Err(_) => fail("construction fails"),
    };
    check(m.code() == c.c, "code");
    check(eq(&m.raw(), &raw), "raw");
    roundtrip(&m, c.c, 0, &raw, &fixed_qb64(c, &raw));
}

/// every variable-size code and raw length 0..=17 (quick) / 0..=48 (thorough):
/// the requested code's family is kept and the lead size follows the length
#[no_mangle]
pub extern "C" fn h_c01_var() {
    let c = &VAR[case() as usize];
    let n = choose(if tier() == 0 { 18 } else { 49 }, 1) as usize;
    var(c, &bytes(n, 0));
}
fn var(c: &Code, raw: &[u8]) {
    let n = raw.len();
    let ls = (3 - n % 3) % 3;
    let small = c.hs == 2;
    let fam = c.c.as_bytes()[c.hs - 1];
    let big = !small || (n + ls) / 3 > 4095;
    let mut i = 0;
    // the code of the same family with the right lead size
    while !(VAR[i].ls == ls && (VAR[i].hs == 4) == big && VAR[i].c.as_bytes()[VAR[i].hs - 1] == fam) {
        i += 1;
    }
    let w = &VAR[i];
    let m = match M::new_with_code_and_raw(c.c, raw) {
        Ok(m) => m,
        Err(_) => fail("construction fails"),
    };
    check(m.code() == w.c, "code selected by lead size");
    check(eq(&m.raw(), raw), "raw");
    roundtrip(&m, w.c, ((n + ls) / 3) as u32, raw, &var_qb64(w, raw));
}
/// around the boundary between small and large variable codes (4095 quadlets)
/// and around 2^16 bytes and 2^16 quadlets: six arbitrary bytes at the ends
#[no_mangle]
pub extern "C" fn h_c01_varbig() {
    let k = case() as usize;
    let c = &VAR[k / 4 % 12];
    let n = [12283, 65534, 196606, 187, 766, 3070][k / 48] + k % 4;
    let mut raw = vec![0x5au8; n];
    raw[..3].copy_from_slice(&bytes(3, 0));
    raw[n - 3..].copy_from_slice(&bytes(3, 1));
    var(c, &raw);
}
