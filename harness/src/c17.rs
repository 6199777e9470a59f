use crate::sym::*;
use argon2::{Algorithm, Argon2, Params, Version};
use cesride::{Matter, Salter, Signer};

const SEEDS: [&str; 3] = ["A", "J", "Q"];
const KEYS: [[&str; 2]; 3] = [["B", "D"], ["1AAA", "1AAB"], ["1AAI", "1AAJ"]];
const TIERS: [&str; 4] = ["low", "med", "high", "min"];
fn ok<T>(r: cesride::Result<T>, m: &str) -> T {
    match r {
        Ok(v) => v,
        Err(_) => fail(m),
    }
}
/// the stretched key, straight from the stretching function
fn stretch(path: &str, salt: &[u8], tier: &str, n: usize) -> Vec<u8> {
    let (m, t) = match tier {
        "min" => (8, 1),
        "low" => (65536, 2),
        "med" => (262144, 3),
        _ => (1048576, 4),
    };
    let p = match Params::new(m, t, 1, Some(n)) {
        Ok(p) => p,
        Err(_) => fail("parameters"),
    };
    let mut o = vec![0; n];
    if Argon2::new(Algorithm::Argon2id, Version::V0x13, p).hash_password_into(path.as_bytes(), salt, &mut o).is_err() {
        fail("stretching");
    }
    o
}
fn salter(raw: &[u8], tier: Option<&str>) -> Salter {
    ok(Salter::new_with_raw(raw, None, tier), "salt refused")
}
/// stretching: case = ((salter's tier 0..4) * 5 + asked tier 0..4) * 2 + temporary; 4: not given
#[no_mangle]
pub extern "C" fn h_c17_stretch() {
    let temp = case() % 2 == 1;
    let own = TIERS.get(case() as usize / 10).copied();
    let asked = TIERS.get(case() as usize / 2 % 5).copied();
    let raw = bytes(16, 0);
    let path = ascii(2, 1);
    let s = salter(&raw, own);
    check(s.tier() == own.unwrap_or("low"), "tier");
    let tier = if temp { "min" } else { asked.unwrap_or(own.unwrap_or("low")) };
    let n = [None, Some(16), Some(64)][choose(3, 2) as usize];
    let k = ok(s.stretch(n, Some(&path), asked, Some(temp)), "stretching refused");
    check(eq(&k, &stretch(&path, &raw, tier, n.unwrap_or(32))), "stretched key");
    if !temp {
        let l = ok(s.stretch(n, Some(&path), asked, None), "stretching refused");
        check(eq(&k, &l), "not temporary by default");
    }
    cover("stretched");
}
/// a signer: case = ((code 0..3; 3: not given) * 3 + transferable; 2: not given) * 4 + path length; 3: not given
#[no_mangle]
pub extern "C" fn h_c17_signer() {
    let code = SEEDS.get(case() as usize / 12).copied();
    let tr = [Some(false), Some(true), None][case() as usize / 4 % 3];
    let l = case() as usize % 4;
    let path = if l < 3 { Some(ascii(l, 1)) } else { None };
    let raw = bytes(16, 0);
    let temp = choose(2, 3) == 1;
    let tiers = if temp { (None, Some("high")) } else { [(None, None), (Some("low"), Some("min")), (Some("min"), None)][choose(3, 4) as usize] };
    let s = salter(&raw, tiers.0);
    let tier = if temp { "min" } else { tiers.1.unwrap_or(tiers.0.unwrap_or("low")) };
    let c = code.map_or(0, |c| SEEDS.iter().position(|x| *x == c).unwrap_or(0));
    let want = stretch(path.as_deref().unwrap_or(""), &raw, tier, 32);
    match s.signer(code, tr, path.as_deref(), tiers.1, Some(temp)) {
        Ok(x) => {
            check(x.code() == SEEDS[c], "code");
            check(eq(&x.raw(), &want), "key");
            check(x.verfer().code() == KEYS[c][tr.unwrap_or(true) as usize], "transferability");
            let y = ok(s.signer(code, tr, path.as_deref(), tiers.1, Some(temp)), "refused the second time");
            check(y == x, "another key the second time");
            let z = ok(Signer::new_with_raw(&want, tr, code), "signer");
            check(z.verfer() == x.verfer(), "verification key");
            cover("signer");
        }
        Err(_) => {
            // a stretched key that is no private key of the algorithm
            check(Signer::new_with_raw(&want, tr, code).is_err(), "refused");
        }
    }
}
/// another salt, path or tier gives another key: case = path lengths (l1 * 4 + l2)
#[no_mangle]
pub extern "C" fn h_c17_distinct() {
    let (p, q) = (ascii(case() as usize / 4, 0), ascii(case() as usize % 4, 1));
    let (r, s) = (bytes(16, 2), bytes(16, 3));
    let (t, u) = (TIERS[[0, 3][choose(2, 4) as usize]], TIERS[[0, 3][choose(2, 5) as usize]]);
    let x = ok(salter(&r, Some(t)).signer(None, None, Some(&p), None, None), "refused");
    let y = ok(salter(&s, None).signer(None, None, Some(&q), Some(u), None), "refused");
    let same = eq(p.as_bytes(), q.as_bytes()) & eq(&r, &s) & (t == u);
    check(eq(&x.raw(), &y.raw()) == same, "same key");
    check(eq(&x.verfer().raw(), &y.verfer().raw()) == same, "same verification key");
    cover("distinct");
}
/// several signers: case = (count 0..3; 3: not given) * 3 + (start: not given, any 8 bits, any 20 bits)
#[no_mangle]
pub extern "C" fn h_c17_signers() {
    let count = [Some(0), Some(1), Some(3), None][case() as usize / 3];
    let start = match case() % 3 {
        0 => None,
        1 => Some(u8_(0) as usize),
        _ => Some((u32_(0) & 0xfffff) as usize),
    };
    let raw = bytes(16, 1);
    let path = [None, Some("a/"), Some("")][choose(3, 2) as usize];
    let s = salter(&raw, None);
    let v = ok(s.signers(count, start, path, None, Some(false), Some("min"), None), "refused");
    check(v.len() == count.unwrap_or(1), "number of signers");
    for (i, x) in v.iter().enumerate() {
        let n = start.unwrap_or(0) + i;
        let mut h = vec![];
        let mut on = false;
        for k in (0..6).rev() {
            let d = n >> (4 * k) & 15;
            on |= (d != 0) | (k == 0);
            if on {
                h.push(b"0123456789abcdef"[d]);
            }
        }
        let p = format!("{}{}", path.unwrap_or(""), unsafe { String::from_utf8_unchecked(h) });
        check(eq(&x.raw(), &stretch(&p, &raw, "min", 32)), "key at its position");
        let y = ok(s.signer(None, Some(false), Some(&p), Some("min"), None), "refused");
        check(y == *x, "signer at its position");
    }
    cover("signers");
}
/// the other arguments of several signers reach each one
#[no_mangle]
pub extern "C" fn h_c17_passed() {
    let raw = bytes(16, 1);
    let c = case() as usize % 3;
    let s = salter(&raw, Some("med"));
    let tr = [Some(false), Some(true), None][choose(3, 2) as usize];
    let temp = [Some(false), Some(true), None][choose(3, 3) as usize];
    let tier = [Some("low"), Some("min"), None][choose(3, 4) as usize];
    if temp != Some(true) && tier.is_none() && c > 0 {
        // a slow native replay adds nothing
        return;
    }
    let v = match s.signers(Some(2), None, Some("p"), Some(SEEDS[c]), tr, tier, temp) {
        Ok(v) => v,
        Err(_) => {
            check(c > 0, "refused");
            return;
        }
    };
    check(v.len() == 2, "number of signers");
    for (i, x) in v.iter().enumerate() {
        let p = ["p0", "p1"][i];
        check(matches!(s.signer(Some(SEEDS[c]), tr, Some(p), tier, temp), Ok(y) if y == *x), "signer at its position");
        check(x.code() == SEEDS[c] && x.verfer().code() == KEYS[c][tr.unwrap_or(true) as usize], "codes");
    }
    cover("passed");
}
/// salts: given ones are kept, missing ones drawn
#[no_mangle]
pub extern "C" fn h_c17_salt() {
    let raw = bytes(16, 0);
    let tier = TIERS.get(case() as usize).copied();
    let same = |r: cesride::Result<Salter>, w: &str| {
        let x = ok(r, w);
        check(eq(&x.raw(), &raw) && x.code() == "0A" && x.tier() == tier.unwrap_or("low"), w);
    };
    let s = salter(&raw, tier);
    let q = ok(s.qb64(), "qb64");
    same(Ok(s.clone()), "raw");
    same(Salter::new_with_raw(&raw, Some("0A"), tier), "raw with code");
    same(Salter::new_with_qb64(&q, tier), "text form");
    same(Salter::new_with_qb64b(q.as_bytes(), tier), "bytes form");
    same(Salter::new_with_qb2(&ok(s.qb2(), "qb2"), tier), "binary form");
    let d = ok(Salter::new_with_defaults(tier), "fresh salt");
    check(d.raw().len() == 16 && d.code() == "0A" && d.tier() == tier.unwrap_or("low"), "fresh salt");
    check(s.stretch(None, None, Some("none"), None).is_err(), "unknown tier accepted");
    for k in 0..50 {
        let c = crate::c02::code(k).c;
        let r = s.signer(Some(c), None, None, None, Some(true));
        check(r.is_err() || SEEDS.contains(&c), "a code that is no seed");
    }
    cover("salt");
}
/// long paths: case = length of the path
#[no_mangle]
pub extern "C" fn h_c17_long() {
    let n = LONG[case() as usize];
    let (p, q) = (long_plain(n, 0), long_plain(n, 1));
    let raw = bytes(16, 2);
    let s = salter(&raw, Some("min"));
    let x = ok(s.signer(None, None, Some(&p), None, None), "refused");
    check(eq(&x.raw(), &stretch(&p, &raw, "min", 32)), "key");
    let y = ok(s.signer(None, None, Some(&q), None, None), "refused");
    check(eq(&x.raw(), &y.raw()) == eq(p.as_bytes(), q.as_bytes()), "same key");
    let z = ok(s.signer(None, None, Some(&p[..n - 1]), None, None), "refused");
    check(!eq(&x.raw(), &z.raw()), "same key for a shorter path");
    let v = ok(s.signers(Some(2), Some(9), Some(&p), None, None, None, None), "refused");
    check(v.len() == 2 && eq(&v[1].raw(), &stretch(&(p.clone() + "a"), &raw, "min", 32)), "key at its position");
    cover("long");
}
/// many signers: case = 0..3
#[no_mangle]
pub extern "C" fn h_c17_many() {
    let raw = bytes(16, 0);
    let s = salter(&raw, Some("min"));
    let (n, start) = [(40, 0), (300, 0), (5, 0xfffe), (3, 0xffffffff)][case() as usize];
    let v = ok(s.signers(Some(n), Some(start), None, None, None, None, None), "refused");
    check(v.len() == n, "number of signers");
    for (i, x) in v.iter().enumerate() {
        check(eq(&x.raw(), &stretch(&format!("{:x}", start + i), &raw, "min", 32)), "key at its position");
    }
    cover("many");
}
/// every path character, also beyond ASCII: case = number of bytes
#[no_mangle]
pub extern "C" fn h_c17_utf8() {
    let p = bytes(case() as usize, 0);
    let raw = bytes(16, 1);
    let Ok(p) = std::str::from_utf8(&p) else { return };
    let s = salter(&raw, None);
    let x = ok(s.signer(None, None, Some(p), Some("min"), None), "refused");
    check(eq(&x.raw(), &stretch(p, &raw, "min", 32)), "key");
    cover("path");
}
