use crate::sym::*;
use crate::tab::*;
use cesride::{Cigar, Indexer, Matter, Salter, Siger, Signer, Verfer};

/// seed, unindexed signature, transferable key, non-transferable key,
/// indexed: both lists, current list only, both lists big, current only big
const ALG: [[&str; 8]; 3] = [
    ["A", "0B", "D", "B", "A", "B", "2A", "2B"],
    ["J", "0C", "1AAB", "1AAA", "C", "D", "2C", "2D"],
    ["Q", "0I", "1AAJ", "1AAI", "E", "F", "2E", "2F"],
];
const ORDER: [(u128, u128); 3] = [
    (u128::MAX, u128::MAX),
    (0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFE, 0xBAAEDCE6AF48A03BBFD25E8CD0364141),
    (0xFFFFFFFF00000000FFFFFFFFFFFFFFFF, 0xBCE6FAADA7179E84F3B9CAC2FC632551),
];
fn ok<T>(r: cesride::Result<T>, m: &str) -> T {
    match r {
        Ok(v) => v,
        Err(_) => fail(m),
    }
}
/// an arbitrary private key of the algorithm
fn seed(a: usize, id: u32) -> Vec<u8> {
    let b = bytes(32, id);
    if a > 0 {
        let hi = u128::from_be_bytes(b[..16].try_into().unwrap());
        let lo = u128::from_be_bytes(b[16..].try_into().unwrap());
        assume(!((hi == 0) & (lo == 0)) & ((hi < ORDER[a].0) | ((hi == ORDER[a].0) & (lo < ORDER[a].1))));
    }
    b
}
fn signer(a: usize, s: &[u8], t: bool) -> Signer {
    ok(Signer::new_with_raw(s, Some(t), Some(ALG[a][0])), "signer refused")
}
/// false or an error
fn no(r: cesride::Result<bool>) -> bool {
    !matches!(r, Ok(true))
}
fn key(a: usize, t: bool) -> &'static str {
    ALG[a][if t { 2 } else { 3 }]
}
/// the signer's own shape: case = algorithm * 2 + transferable
#[no_mangle]
pub extern "C" fn h_c15_signer() {
    let a = case() as usize / 2;
    let t = case() % 2 == 1;
    let s = seed(a, 0);
    let x = signer(a, &s, t);
    check(x.code() == ALG[a][0] && eq(&x.raw(), &s), "signer");
    let v = x.verfer();
    check(v.code() == key(a, t), "code of the verification key");
    check(v.raw().len() == if a == 0 { 32 } else { 33 }, "size of the verification key");
    let same = |r: cesride::Result<Signer>, t: bool, m: &str| {
        let y = ok(r, m);
        check(y.code() == ALG[a][0] && eq(&y.raw(), &s), m);
        check(y.verfer().code() == key(a, t) && eq(&y.verfer().raw(), &v.raw()), m);
    };
    let q = ok(x.qb64(), "qb64");
    same(Signer::new_with_qb64(&q, Some(t)), t, "text form");
    same(Signer::new_with_qb64b(q.as_bytes(), Some(!t)), !t, "bytes form");
    same(Signer::new_with_qb2(&ok(x.qb2(), "qb2"), Some(t)), t, "binary form");
    same(Signer::new_with_qb64(&q, None), true, "transferable by default");
    same(Signer::new(None, Some(ALG[a][0]), Some(&s), None, None, None), true, "transferable by default");
    if a == 0 {
        same(Signer::new(Some(t), None, Some(&s), None, None, None), t, "default algorithm");
    }
    // a fresh key
    let y = ok(Signer::new_with_defaults(Some(t), Some(ALG[a][0])), "no fresh key");
    check(y.code() == ALG[a][0] && y.raw().len() == 32 && y.verfer().code() == key(a, t), "fresh key");
    let m = bytes(2, 3);
    let c = ok(y.sign_unindexed(&m), "signing fails");
    check(ok(y.verfer().verify(&c.raw(), &m), "verify fails"), "fresh key");
    // the key as a primitive
    let w = ok(Verfer::new_with_qb64(&ok(v.qb64(), "key")), "key");
    check(w.code() == v.code() && eq(&w.raw(), &v.raw()), "key");
    cover("signer");
}
/// case = ((algorithm * 2 + transferable) * 4 + message length) * 4 + length of another message
#[no_mangle]
pub extern "C" fn h_c15_unindexed() {
    let a = case() as usize / 32;
    let t = case() / 16 % 2 == 1;
    let s = seed(a, 0);
    let m = bytes(case() as usize / 4 % 4, 1);
    let n = bytes(case() as usize % 4, 2);
    let x = signer(a, &s, t);
    let c = ok(x.sign_unindexed(&m), "signing fails");
    check(c.code() == ALG[a][1], "code of the signature");
    check(c.verfer() == x.verfer(), "key of the signature");
    check(c.raw().len() == 64, "size of the signature");
    let v = c.verfer();
    check(ok(v.verify(&c.raw(), &m), "verify fails"), "does not verify");
    // through the encodings
    let d = ok(Cigar::new_with_qb64(&ok(c.qb64(), "qb64"), Some(&v)), "text form");
    check(d.code() == c.code() && eq(&d.raw(), &c.raw()) && d.verfer() == v, "text form");
    let d = ok(Cigar::new_with_qb2(&ok(c.qb2(), "qb2"), Some(&v)), "binary form");
    check(d.code() == c.code() && eq(&d.raw(), &c.raw()), "binary form");
    // another message
    check(no(v.verify(&c.raw(), &n)) != eq(&m, &n), "verifies another message");
    cover("signed");
}
/// every other signature and every other key: case = algorithm * 2 + transferable
#[no_mangle]
pub extern "C" fn h_c15_other() {
    let a = case() as usize / 2;
    let t = case() % 2 == 1;
    let s = seed(a, 0);
    let m = bytes(2, 1);
    let x = signer(a, &s, t);
    let c = ok(x.sign_unindexed(&m), "signing fails");
    let v = x.verfer();
    // a signature that differs
    let mask = bytes(64, 2);
    let mut bad = c.raw();
    let mut any = 0;
    for i in 0..64 {
        bad[i] ^= mask[i];
        any |= mask[i];
    }
    check(no(v.verify(&bad, &m)) == (any != 0), "verifies another signature");
    // a signature of another length
    let l = choose(3, 3);
    let cut = match l {
        0 => c.raw()[..63].to_vec(),
        1 => [c.raw(), vec![0]].concat(),
        _ => vec![],
    };
    check(no(v.verify(&cut, &m)), "verifies a signature of another length");
    // another key, of either kind
    let s2 = seed(a, 4);
    let y = signer(a, &s2, !t);
    check(no(y.verfer().verify(&c.raw(), &m)) != eq(&s, &s2), "verifies under another key");
    cover("other");
}
/// a key of one algorithm used for another: case = (algorithm * 3 + other) * 2 + transferable
#[no_mangle]
pub extern "C" fn h_c15_cross() {
    let (a, b) = (case() as usize / 6, case() as usize / 2 % 3);
    let t = case() % 2 == 1;
    assume(a != b);
    let s = seed(a, 0);
    if b > 0 {
        let (hi, lo) = (u128::from_be_bytes(s[..16].try_into().unwrap()), u128::from_be_bytes(s[16..].try_into().unwrap()));
        assume(!((hi == 0) & (lo == 0)) & ((hi < ORDER[b].0) | ((hi == ORDER[b].0) & (lo < ORDER[b].1))));
    }
    let m = bytes(2, 1);
    let x = signer(a, &s, t);
    let c = ok(x.sign_unindexed(&m), "signing fails");
    match Verfer::new_with_raw(&x.verfer().raw(), Some(key(b, t))) {
        Ok(v) => check(no(v.verify(&c.raw(), &m)), "a key of one algorithm verifies through another"),
        Err(_) => check((a == 0) != (b == 0), "raw key refused"),
    }
    let y = signer(b, &s, t);
    check(no(y.verfer().verify(&c.raw(), &m)), "a signature verifies under the other algorithm's key");
    cover("cross");
}
/// indexed: case = (algorithm * 2 + only) * 2 + whether an other index is given; any indices
#[no_mangle]
pub extern "C" fn h_c15_indexed() {
    let a = case() as usize / 4;
    let only = case() / 2 % 2 == 1;
    let s = seed(a, 0);
    let m = bytes(2, 1);
    let x = signer(a, &s, true);
    let i = u32_(2);
    let o = if case() % 2 == 1 { Some(u32_(3)) } else { None };
    let (fits, code) = if only {
        (i < 4096, if i < 64 { 5 } else { 7 })
    } else {
        let j = o.unwrap_or(i);
        ((i < 4096) & (j < 4096), if (i == j) & (i < 64) { 4 } else { 6 })
    };
    let g = match x.sign_indexed(&m, only, i, o) {
        Ok(g) => g,
        Err(_) => {
            check(!fits, "index refused");
            cover("refused");
            return;
        }
    };
    check(fits, "index too large");
    check(g.code() == ALG[a][code], "code of the signature");
    check(g.index() == i, "index");
    if !only {
        check(g.ondex() == o.unwrap_or(i), "other index");
    }
    check(g.verfer() == x.verfer(), "key");
    check(ok(g.verfer().verify(&g.raw(), &m), "verify fails"), "does not verify");
    let same = |h: Siger, w: &str| {
        check(h.code() == g.code() && eq(&h.raw(), &g.raw()), w);
        check(h.index() == g.index() && h.ondex() == g.ondex(), w);
    };
    same(ok(Siger::new_with_qb64(&ok(g.qb64(), "qb64"), None), "text form"), "text form");
    same(ok(Siger::new_with_qb2(&ok(g.qb2(), "qb2"), None), "binary form"), "binary form");
    cover("signed");
}
/// verification never panics: case = key kind * 4 + (signature length % 4)
#[no_mangle]
pub extern "C" fn h_c15_any() {
    let k = case() as usize / 4;
    let (a, t) = (k / 2, k % 2 == 1);
    let raw = bytes(if a == 0 { 32 } else { 33 }, 0);
    let v = ok(Verfer::new_with_raw(&raw, Some(key(a, t))), "key refused");
    let sig = bytes([0, 1, 64, 65][case() as usize % 4], 1);
    let m = bytes(1, 2);
    let _ = v.verify(&sig, &m);
    cover("any");
}
/// a signer stretched from a salt signs too: case = algorithm * 2 + transferable
#[no_mangle]
pub extern "C" fn h_c15_salted() {
    let a = case() as usize / 2;
    let t = case() % 2 == 1;
    let salt = bytes(16, 0);
    let m = bytes(2, 1);
    let x = match ok(Salter::new_with_raw(&salt, None, None), "salt").signer(Some(ALG[a][0]), Some(t), Some("x"), None, Some(true)) {
        Ok(x) => x,
        Err(_) => {
            check(a > 0, "no signer");
            return;
        }
    };
    let c = ok(x.sign_unindexed(&m), "signing fails");
    check(c.code() == ALG[a][1] && x.verfer().code() == key(a, t), "codes");
    check(ok(x.verfer().verify(&c.raw(), &m), "verify fails"), "does not verify");
    let _ = int64(0, 1);
    cover("salted");
}
/// long messages: case = algorithm + 3 * length
#[no_mangle]
pub extern "C" fn h_c15_long() {
    let a = case() as usize % 3;
    let n = LONG[case() as usize / 3];
    let (m, o) = (long(n, 1), long(n, 2));
    let s = seed(a, 0);
    let x = signer(a, &s, true);
    let v = x.verfer();
    let c = ok(x.sign_unindexed(&m), "signing fails").raw();
    let g = ok(x.sign_indexed(&m, false, 3, None), "signing fails").raw();
    for c in [&c, &g] {
        check(ok(v.verify(c, &m), "verify fails"), "does not verify");
        check(no(v.verify(c, &o)) != eq(&m, &o), "verifies another message");
        check(no(v.verify(c, &m[..n - 1])), "verifies a shorter message");
        check(no(v.verify(c, &[&m[..], &o[..1]].concat())), "verifies a longer message");
    }
    cover("long");
}
