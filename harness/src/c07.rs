use crate::c02::code;
use crate::sym::*;
use crate::tab::*;
use cesride::{Bexter, Cigar, Dater, Diger, Indexer, Matter, Number, Pather, Prefixer, Saider, Salter, Seqner, Siger, Signer, Verfer};

const KEYS: &[&str] = &["B", "D", "1AAA", "1AAB", "1AAI", "1AAJ"];
const DIGESTS: &[&str] = &["E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"];
const SIGS: &[&str] = &["0B", "0C", "0I"];
const SEEDS: &[&str] = &["A", "J", "Q"];
const SALT: &[&str] = &["0A"];
const NUMBERS: &[&str] = &["M", "0H", "N", "0A"];
const DATE: &[&str] = &["1AAG"];
const B64TEXT: &[&str] = &["4A", "5A", "6A", "7AAA", "8AAA", "9AAA"];
const PREFIX: &[&str] = &["B", "D", "1AAA", "1AAB", "1AAI", "1AAJ", "E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"];

struct In {
    code: &'static str,
    raw: Vec<u8>,
    t: Vec<u8>,
    s: String,
    b: Vec<u8>,
}
/// a well-formed primitive of code `k` with arbitrary raw
fn input(k: &'static Code) -> In {
    let n = if k.fs > 0 { k.raw() } else { 6 - k.ls };
    let raw = bytes(n, 0);
    let mut b = vec![0u8; k.ls + if k.fs > 0 { (3 - (n + k.ls) % 3) % 3 } else { 0 }];
    let skip = if k.fs > 0 { k.hs % 4 } else { 0 };
    b.extend_from_slice(&raw);
    let mut t = k.c.as_bytes().to_vec();
    if k.fs == 0 {
        t.extend_from_slice(&int64(2, k.ss));
    }
    t.extend_from_slice(&enc(&b)[skip..]);
    let s = unsafe { String::from_utf8_unchecked(t.clone()) };
    let d = dec(&t).0;
    In { code: k.c, raw, t, s, b: d }
}
fn one<T: Matter>(r: cesride::Result<T>, fam: &[&str], foreign: bool) {
    match r {
        Ok(m) => {
            check(fam.contains(&m.code().as_str()), "holds a code of another family");
            check(!foreign, "a primitive of another family is accepted");
            check(m.digestive() == DIGESTS.contains(&m.code().as_str()), "digestive() is wrong");
            if PREFIX.contains(&m.code().as_str()) {
                check(m.transferable() != NONTRANS.contains(&m.code().as_str()), "transferable() is wrong");
            }
            cover("accepted");
        }
        Err(_) => cover("refused"),
    }
}
const NONTRANS: &[&str] = &["B", "1AAA", "1AAI"];
fn is(f: &[&str], c: &str) -> bool {
    f.contains(&c)
}
macro_rules! ty {
    ($T:ident, $fam:expr, $i:ident, $f:ident, [$($e:expr),* $(,)?]) => {{
        $( one::<$T>($e, $fam, !is($fam, $i.code)); )*
        // the caller names a code of the family, the material says otherwise
        for $f in $fam { own!($T, $fam, $i, $f); }
    }};
}
macro_rules! own {
    (Verfer, $fam:expr, $i:ident, $f:ident) => { args!(Verfer, $fam, $i, $f, (), ()) };
    (Diger, $fam:expr, $i:ident, $f:ident) => { args!(Diger, $fam, $i, $f, (None), ()) };
    (Cigar, $fam:expr, $i:ident, $f:ident) => { args!(Cigar, $fam, $i, $f, (None), ()) };
    (Signer, $fam:expr, $i:ident, $f:ident) => { args!(Signer, $fam, $i, $f, (None), ()) };
    (Salter, $fam:expr, $i:ident, $f:ident) => { args!(Salter, $fam, $i, $f, (None), ()) };
    (Dater, $fam:expr, $i:ident, $f:ident) => { args!(Dater, $fam, $i, $f, (None), ()) };
    (Bexter, $fam:expr, $i:ident, $f:ident) => { args!(Bexter, $fam, $i, $f, (None), ()) };
    (Number, $fam:expr, $i:ident, $f:ident) => { args!(Number, $fam, $i, $f, (None, None), ()) };
    (Seqner, $fam:expr, $i:ident, $f:ident) => { args!(Seqner, $fam, $i, $f, (None, None), ()) };
    (Pather, $fam:expr, $i:ident, $f:ident) => { args!(Pather, $fam, $i, $f, (None, None), ()) };
    (Prefixer, $fam:expr, $i:ident, $f:ident) => { args!(Prefixer, $fam, $i, $f, (None, None), ()) };
    (Saider, $fam:expr, $i:ident, $f:ident) => { args!(Saider, $fam, $i, $f, (None, None, None, None), ()) };
}
macro_rules! args {
    ($T:ident, $fam:expr, $i:ident, $f:ident, ($($p:expr),*), ()) => {{
        let foreign = !is($fam, $i.code);
        one::<$T>($T::new($($p,)* Some(*$f), None, None, Some(&$i.s), None), $fam, foreign);
        one::<$T>($T::new($($p,)* Some(*$f), None, Some(&$i.t), None, None), $fam, foreign);
        one::<$T>($T::new($($p,)* Some(*$f), None, None, None, Some(&$i.b)), $fam, foreign);
    }};
}
macro_rules! plain {
    ($T:ident, $fam:expr, $i:ident) => {
        ty!($T, $fam, $i, f, [$T::new_with_raw(&$i.raw, Some($i.code)), $T::new_with_qb64(&$i.s), $T::new_with_qb64b(&$i.t), $T::new_with_qb2(&$i.b)])
    };
}
macro_rules! with {
    ($T:ident, $fam:expr, $i:ident, raw($($x:tt)*)) => {
        ty!($T, $fam, $i, f, [$T::new_with_raw(&$i.raw, $($x)*), $T::new_with_qb64(&$i.s, None), $T::new_with_qb64b(&$i.t, None), $T::new_with_qb2(&$i.b, None)])
    };
}
/// case = type * 50 + code
#[no_mangle]
pub extern "C" fn h_c07_matter() {
    let k = code(case() as usize % 50);
    let i = input(k);
    match case() / 50 {
        0 => plain!(Verfer, KEYS, i),
        1 => plain!(Diger, DIGESTS, i),
        2 => plain!(Saider, DIGESTS, i),
        3 => with!(Cigar, SIGS, i, raw(None, Some(i.code))),
        4 => with!(Signer, SEEDS, i, raw(None, Some(i.code))),
        5 => with!(Salter, SALT, i, raw(Some(i.code), None)),
        6 => plain!(Seqner, SALT, i),
        7 => plain!(Number, NUMBERS, i),
        8 => plain!(Dater, DATE, i),
        9 => plain!(Bexter, B64TEXT, i),
        10 => plain!(Pather, B64TEXT, i),
        _ => plain!(Prefixer, PREFIX, i),
    }
    // the same with a key attached
    if case() / 50 == 3 {
        if let Ok(v) = Verfer::new_with_raw(&[3u8; 32], Some("D")) {
            one(Cigar::new_with_raw(&i.raw, Some(&v), Some(i.code)), SIGS, !is(SIGS, i.code));
            one(Cigar::new_with_qb64(&i.s, Some(&v)), SIGS, !is(SIGS, i.code));
            one(Cigar::new_with_qb64b(&i.t, Some(&v)), SIGS, !is(SIGS, i.code));
            one(Cigar::new_with_qb2(&i.b, Some(&v)), SIGS, !is(SIGS, i.code));
        }
    }
}
/// values that are computed: a digest over bytes, a number, a date, text
#[no_mangle]
pub extern "C" fn h_c07_made() {
    let k = code(case() as usize % 50);
    let ser = bytes(4, 0);
    one(Diger::new(Some(&ser), Some(k.c), None, None, None, None), DIGESTS, !is(DIGESTS, k.c));
    one(Bexter::new(Some("abcd"), Some(k.c), None, None, None, None), B64TEXT, !is(B64TEXT, k.c));
    one(Pather::new(None, Some("-a-b"), Some(k.c), None, None, None, None), B64TEXT, !is(B64TEXT, k.c));
    one(Dater::new(Some("2020-08-22T17:50:09.988921+00:00"), Some(k.c), None, None, None, None), DATE, false);
    one(Signer::new_with_defaults(None, Some(k.c)), SEEDS, !is(SEEDS, k.c));
    one(Salter::new(None, Some(k.c), None, None, None, None), SALT, !is(SALT, k.c));
    one(Seqner::new(Some(5), None, Some(k.c), None, None, None, None), SALT, false);
    one(Number::new(Some(5), None, Some(k.c), None, None, None, None), NUMBERS, false);
}
const SIGERS: &[&str] = &["A", "B", "C", "D", "E", "F", "2A", "2B", "2C", "2D", "2E", "2F"];
/// case < 19: every indexed code; then every other code
#[no_mangle]
pub extern "C" fn h_c07_siger() {
    let v = match Verfer::new_with_raw(&[3u8; 32], Some("D")) {
        Ok(v) => v,
        Err(_) => fail("verfer"),
    };
    for v in [None, Some(&v)] {
        let mut r = vec![];
        let c;
        if case() < 19 {
            let k = &ICODES[case() as usize];
            c = k.c;
            let raw = bytes(if k.fs > 0 { k.raw() } else { 6 }, 0);
            let index = if k.fs > 0 { u8_(1) as u32 & 63 } else { 2 };
            let ondex = if k.k == 'c' { 0 } else { index };
            let t = indexed_qb64(k, index, ondex, &raw);
            let s = unsafe { String::from_utf8_unchecked(t.clone()) };
            let b = dec(&t).0;
            let o = if k.k == 'c' { None } else { Some(index) };
            r.push(Siger::new_with_raw(&raw, v, Some(index), o, Some(c)));
            r.push(Siger::new_with_qb64(&s, v));
            r.push(Siger::new_with_qb64b(&t, v));
            r.push(Siger::new_with_qb2(&b, v));
            for f in SIGERS {
                r.push(Siger::new(v, None, None, Some(f), None, None, Some(&s), None));
                r.push(Siger::new(v, None, None, Some(f), None, Some(&t), None, None));
                r.push(Siger::new(v, None, None, Some(f), None, None, None, Some(&b)));
            }
        } else {
            let i = input(code(case() as usize - 19));
            c = "";
            r.push(Siger::new_with_raw(&i.raw, v, Some(0), None, Some(i.code)));
            r.push(Siger::new_with_qb64(&i.s, v));
            r.push(Siger::new_with_qb64b(&i.t, v));
            r.push(Siger::new_with_qb2(&i.b, v));
        }
        for r in r {
            match r {
                Ok(m) => {
                    check(SIGERS.contains(&m.code().as_str()), "holds a code of another family");
                    check(c.is_empty() || SIGERS.contains(&c), "an indexed signature of another family is accepted");
                    cover("accepted");
                }
                Err(_) => cover("refused"),
            }
        }
    }
}
/// any text (case even) or binary (odd) of a length that some code has
#[no_mangle]
pub extern "C" fn h_c07_any() {
    const L: [usize; 14] = [4, 8, 12, 24, 36, 44, 48, 56, 76, 80, 88, 100, 124, 16];
    let ty = case() / 28;
    let n = L[(case() / 2 % 14) as usize];
    macro_rules! go {
        ($T:ident, $fam:expr $(, $x:expr)*) => {
            if case() % 2 == 0 {
                one($T::new_with_qb64(&ascii(n, 0) $(, $x)*), $fam, false)
            } else {
                one($T::new_with_qb2(&bytes(n * 3 / 4, 0) $(, $x)*), $fam, false)
            }
        };
    }
    match ty {
        0 => go!(Verfer, KEYS),
        1 => go!(Diger, DIGESTS),
        2 => go!(Saider, DIGESTS),
        3 => go!(Cigar, SIGS, None),
        4 => go!(Signer, SEEDS, None),
        5 => go!(Salter, SALT, None),
        6 => go!(Seqner, SALT),
        7 => go!(Number, NUMBERS),
        8 => go!(Dater, DATE),
        9 => go!(Bexter, B64TEXT),
        10 => go!(Pather, B64TEXT),
        _ => go!(Prefixer, PREFIX),
    }
}
