use crate::sym::*;
use blake2::Digest;
use cesride::{Diger, Matter};

pub const CODES: [&str; 9] = ["E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"];
fn size(c: usize) -> usize {
    if c < 5 {
        32
    } else {
        64
    }
}
/// the digest the code names, straight from the hash implementations
pub fn hash(code: &str, m: &[u8]) -> Vec<u8> {
    match code {
        "E" => blake3::hash(m).as_bytes().to_vec(),
        "F" => blake2::Blake2b::<blake2::digest::consts::U32>::digest(m).to_vec(),
        "G" => blake2::Blake2s256::digest(m).to_vec(),
        "H" => sha3::Sha3_256::digest(m).to_vec(),
        "I" => sha2::Sha256::digest(m).to_vec(),
        "0D" => {
            let mut o = [0u8; 64];
            let mut h = blake3::Hasher::new();
            h.update(m);
            h.finalize_xof().fill(&mut o);
            o.to_vec()
        }
        "0E" => blake2::Blake2b512::digest(m).to_vec(),
        "0F" => sha3::Sha3_512::digest(m).to_vec(),
        _ => sha2::Sha512::digest(m).to_vec(),
    }
}
fn ok<T>(r: cesride::Result<T>, m: &str) -> T {
    match r {
        Ok(v) => v,
        Err(_) => fail(m),
    }
}
fn xor(a: &[u8], m: &[u8]) -> Vec<u8> {
    a.iter().zip(m).map(|(x, y)| x ^ y).collect()
}
/// case = code * 16 + message length: the digest, what it verifies, and
/// that every other digest of the code does not verify the message
#[no_mangle]
pub extern "C" fn h_c16_digest() {
    let c = case() as usize / 16;
    let m = bytes(case() as usize % 16, 0);
    let code = CODES[c];
    let d = ok(Diger::new_with_ser(&m, Some(code)), "digest refused");
    let h = hash(code, &m);
    check(eq(&d.raw(), &h), "not the digest its code names");
    check(d.code() == code, "code");
    check(ok(d.verify(&m), "verify fails"), "does not verify what it was made over");
    let e = ok(Diger::new(Some(&m), Some(code), None, None, None, None), "digest refused");
    check(e == d, "another primitive the second time");
    if c == 0 {
        let e = ok(Diger::new_with_ser(&m, None), "digest refused");
        check(e == d, "default code");
    }
    // back from its encodings
    let q = ok(d.qb64(), "qb64");
    check(matches!(Diger::new_with_qb64(&q), Ok(e) if e == d || (e.raw() == h && e.code() == code)), "text form");
    check(matches!(Diger::new_with_qb2(&ok(d.qb2(), "qb2")), Ok(e) if eq(&e.raw(), &h) && e.code() == code), "binary form");
    // any other digest
    let mask = bytes(size(c), 1);
    let f = ok(Diger::new_with_raw(&xor(&h, &mask), Some(code)), "raw refused");
    let zero = eq(&mask, &vec![0u8; mask.len()]);
    check(ok(f.verify(&m), "verify fails") == zero, "verifies under another digest");
    cover("digest");
}
/// case = (code * 4 + length) * 4 + length of the other message
#[no_mangle]
pub extern "C" fn h_c16_other() {
    let c = case() as usize / 16;
    let m = bytes(case() as usize / 4 % 4, 0);
    let n = bytes(case() as usize % 4, 1);
    let d = ok(Diger::new_with_ser(&m, Some(CODES[c])), "digest refused");
    let same = eq(&m, &n);
    check(ok(d.verify(&n), "verify fails") == same, "verifies another message");
    let e = ok(Diger::new_with_ser(&n, Some(CODES[c])), "digest refused");
    check((e == d) == same, "digests of different messages are equal");
    cover("other");
}
/// case = (code * 9 + other code) * 2 + how; messages of one or two bytes
#[no_mangle]
pub extern "C" fn h_c16_compare() {
    let (k, how) = (case() as usize / 2, case() % 2);
    let (c1, c2) = (k / 9, k % 9);
    let s1 = bytes(1 + choose(2, 9) as usize, 0);
    let s2 = bytes(1 + choose(2, 10) as usize, 1);
    let s = bytes(2, 2);
    let a = ok(Diger::new_with_ser(&s1, Some(CODES[c1])), "digest refused");
    let b = ok(Diger::new_with_ser(&s2, Some(CODES[c2])), "digest refused");
    let cmp = |m: &[u8]| {
        let r = if how == 0 {
            let q = ok(b.qb64b(), "qb64b");
            a.compare(m, Some(&q), None)
        } else {
            a.compare(m, None, Some(&b))
        };
        ok(r, "comparison fails")
    };
    let same = eq(&s1, &s2);
    check(cmp(&s1) == same, "comparison over the digested message");
    check(cmp(&s2) == same, "comparison over the other's message");
    let r = cmp(&s);
    check(!r | same, "different messages compare equal");
    check((c1 == c2) | !r | eq(&s, &s1), "compares equal over another message");
    check(a.compare(&s1, None, None).is_err(), "nothing to compare with");
    cover("compared");
}
/// codes that are no digest, and raw material of the wrong size
#[no_mangle]
pub extern "C" fn h_c16_codes() {
    let k = crate::c02::code(case() as usize);
    let m = bytes(2, 0);
    let r = Diger::new_with_ser(&m, Some(k.c));
    check(r.is_ok() == CODES.contains(&k.c), "code");
    cover("code");
}
/// long messages: case = code + 9 * length
#[no_mangle]
pub extern "C" fn h_c16_long() {
    let code = CODES[case() as usize % 9];
    let n = LONG[case() as usize / 9];
    let (m, o) = (long(n, 0), long(n, 1));
    let d = ok(Diger::new_with_ser(&m, Some(code)), "digest refused");
    check(eq(&d.raw(), &hash(code, &m)), "not the digest its code names");
    check(ok(d.verify(&m), "verify fails"), "does not verify what it was made over");
    let same = eq(&m, &o);
    check(ok(d.verify(&o), "verify fails") == same, "verifies another message");
    check(!ok(d.verify(&m[..n - 1]), "verify fails"), "verifies a shorter message");
    let l = [&m[..], &o[..1]].concat();
    check(!ok(d.verify(&l), "verify fails"), "verifies a longer message");
    let e = ok(Diger::new_with_ser(&o, Some(CODES[(case() as usize + 1) % 9])), "digest refused");
    check(ok(d.compare(&m, None, Some(&e)), "comparison fails") == same, "comparison");
    cover("long");
}
