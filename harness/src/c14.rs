use crate::c12::{dummy, json, obj, set, sized, version, without};
use crate::c16::{hash, CODES};
use crate::sym::*;
use crate::tab;
use cesride::data::Value;
use cesride::{Matter, Prefixer};

fn ok<T>(r: cesride::Result<T>, m: &str) -> T {
    match r {
        Ok(v) => v,
        Err(_) => fail(m),
    }
}
/// non-transferable ones first
const KEYS: [&str; 6] = ["B", "1AAA", "1AAI", "D", "1AAB", "1AAJ"];
const ILKS: [&str; 3] = ["icp", "dip", "vcp"];
fn text(s: &str) -> Value {
    Value::from(s)
}
fn list(v: &[&str]) -> Value {
    Value::Array(v.iter().map(|s| text(s)).collect())
}
/// a key of any value
fn key(code: &str, id: u32) -> String {
    let c = tab::any_code(code).unwrap();
    String::from_utf8(tab::fixed_qb64(c, &bytes(c.raw(), id))).unwrap()
}
/// an event as those of a non-transferable identifier look, with all fields in use
fn event(t: &str, i: &str, key: &str, x: &str) -> Value {
    obj(&[
        ("v", version("KERI", 0)),
        ("t", text(t)),
        ("d", text("")),
        ("i", text(i)),
        ("s", text(x)),
        ("kt", text("1")),
        ("k", list(&[key])),
        ("nt", text("0")),
        ("n", list(&[])),
        ("bt", text("0")),
        ("b", list(&[])),
        ("c", list(&[])),
        ("a", list(&[])),
    ])
}
fn plain(n: usize, id: u32) -> String {
    let s = ascii(n, id);
    for b in s.bytes() {
        assume((b >= 32) & (b != b'"') & (b != b'\\') & (b != 0x7f));
    }
    s
}
fn is(p: &Prefixer, e: &Value, prefixed: Option<bool>) -> bool {
    ok(p.verify(e, prefixed), "verification fails")
}
fn isnt(p: &Prefixer, e: &Value, prefixed: Option<bool>) -> bool {
    !matches!(p.verify(e, prefixed), Ok(true))
}
/// key prefixes: case = code + 6 * type of event
#[no_mangle]
pub extern "C" fn h_c14_key() {
    let c = case() as usize % 6;
    let t = ILKS[case() as usize / 6];
    let k = key(KEYS[c], 0);
    let o = key(KEYS[c], 1);
    let e = event(t, &k, &k, "0");
    // by code, by the prefix there is, and by both
    let p = ok(Prefixer::new_with_ked(&e, None, Some(KEYS[c])), "derivation fails");
    check(eq(ok(p.qb64(), "no text").as_bytes(), k.as_bytes()), "not the key");
    check(p.code() == KEYS[c], "code");
    let q = ok(Prefixer::new_with_ked(&e, Some(&["E", KEYS[c]]), None), "derivation fails");
    check(q == p, "another prefix by code");
    let q = ok(Prefixer::new_with_ked(&without(&e, "i"), None, Some(KEYS[c])), "derivation fails");
    check(q == p, "another prefix without a prefix");
    check(Prefixer::new_with_ked(&without(&e, "i"), None, None).is_err(), "derived with neither code nor prefix");
    check(Prefixer::new_with_ked(&e, Some(&["E"]), None).is_err(), "derived a code that is not allowed");
    check(is(&p, &e, None), "does not verify");
    check(is(&p, &e, Some(false)), "does not verify");
    check(is(&p, &e, Some(true)), "does not verify");
    check(is(&p, &without(&e, "i"), None), "does not verify");
    check(isnt(&p, &without(&e, "i"), Some(true)), "verifies a prefix that is not there");
    // with another key or prefix
    let same = eq(k.as_bytes(), o.as_bytes());
    check(is(&p, &set(&e, "k", list(&[&o])), None) == same, "another key");
    let f = set(&e, "i", text(&o));
    check(is(&p, &f, None), "does not verify");
    check(is(&p, &f, Some(true)) == same, "another prefix");
    // an event of the other key
    let f = event(t, &o, &o, "0");
    check(is(&p, &f, None) == same, "another event");
    check(is(&p, &f, Some(true)) == same, "another event");
    let q = ok(Prefixer::new_with_ked(&f, None, Some(KEYS[c])), "derivation fails");
    check((q == p) == same, "the same prefix from another event");
    cover("key");
}
/// a key of one kind under every other code, and key prefixes of other codes over the same bytes
/// (case = code of the key + 6 * code asked for, of 15 and an unknown one)
#[no_mangle]
pub extern "C" fn h_c14_codes() {
    let c = case() as usize % 6;
    let a = match case() as usize / 6 {
        n @ 0..=5 => KEYS[n],
        n @ 6..=14 => CODES[n - 6],
        15 => "A",
        16 => "0A",
        17 => "0B",
        18 => "",
        _ => "?",
    };
    let k = key(KEYS[c], 0);
    let e = event("icp", &k, &k, "0");
    let r = Prefixer::new_with_ked(&e, None, Some(a));
    if a == KEYS[c] {
        check(r.is_ok(), "derivation fails");
    } else if CODES.contains(&a) {
        let p = ok(r, "derivation fails");
        check(p.code() == a, "code");
        check(is(&p, &e, None), "does not verify");
        check(isnt(&p, &e, Some(true)), "verifies another prefix");
    } else {
        check(r.is_err(), "a key of another kind accepted");
        if KEYS.contains(&a) {
            let n = tab::any_code(a).unwrap().raw();
            let p = ok(Prefixer::new_with_raw(&bytes(n, 1), Some(a)), "prefix refused");
            check(isnt(&p, &e, None), "a prefix of another kind verifies");
        } else {
            check(Prefixer::new_with_raw(&bytes(64, 1), Some(a)).is_err(), "a prefix of no such kind");
        }
    }
    cover("codes");
}
/// what follows the event's fields may vary for key prefixes; what must be empty for
/// non-transferable ones (case = code + 6 * change)
#[no_mangle]
pub extern "C" fn h_c14_bound() {
    let c = case() as usize % 6;
    let k = key(KEYS[c], 0);
    let o = key(KEYS[c], 1);
    let x = plain(1, 2);
    let e = event("icp", &k, &k, "0");
    let p = ok(Prefixer::new_with_ked(&e, None, Some(KEYS[c])), "derivation fails");
    // 0: still this prefix, 1: only for transferable ones, 2: no longer, 3: an error
    let (f, w) = match case() / 6 {
        0 => (set(&e, "s", text(&x)), 0),
        1 => (without(&e, "n"), 0),
        2 => (without(&e, "b"), 0),
        3 => (without(&e, "a"), 0),
        4 => (set(&e, "n", list(&[&x])), 1),
        5 => (set(&e, "b", list(&[&x])), 1),
        6 => (set(&e, "a", list(&[&x])), 1),
        7 => (set(&e, "a", Value::Array(vec![obj(&[("i", text(&x))])])), 1),
        8 => (set(&e, "n", text(&x)), 1),
        9 => (set(&e, "k", list(&[])), 2),
        10 => (set(&e, "k", list(&[&k, &o])), 2),
        11 => (set(&e, "k", list(&[&k, &k])), 2),
        12 => (without(&e, "k"), 2),
        13 => (set(&e, "k", list(&[&format!("{k}{x}")])), 2),
        14 => (set(&e, "k", list(&[&k[..k.len() - 1]])), 2),
        15 => (set(&e, "k", list(&[&x])), 2),
        16 => (set(&e, "k", list(&[""])), 2),
        17 => (set(&e, "k", text(&k)), 2),
        18 => (set(&e, "k", Value::Null), 2),
        19 => (set(&e, "k", Value::Array(vec![Value::from(5i64)])), 2),
        20 => (without(&e, "t"), 3),
        21 => (set(&e, "t", Value::Null), 3),
        22 => (set(&e, "t", text("rot")), 3),
        23 => (set(&e, "t", text("drt")), 3),
        24 => (set(&e, "t", text("ixn")), 3),
        25 => (set(&e, "t", text(&plain(3, 3))), 4),
        26 => (set(&e, "t", Value::Array(vec![text("icp")])), 3),
        27 => (e.to_vec().map(|_| Value::Null).unwrap_or(Value::Null), 3),
        28 => (Value::Array(vec![e.clone()]), 3),
        29 => (text("t"), 3),
        30 => (obj(&[]), 3),
        31 => (set(&e, "n", Value::from(1i64)), 1),
        32 => (set(&e, "a", obj(&[("i", text(&x))])), 1),
        33 => (set(&e, "b", Value::Null), 0),
        34 => (set(&e, "a", text("")), 0),
        35 => (set(&e, "n", obj(&[])), 0),
        36 => (without(&e, "v"), 0),
        _ => (without(&e, "d"), 0),
    };
    let r = Prefixer::new_with_ked(&f, None, Some(KEYS[c]));
    let v = p.verify(&f, None);
    if w == 4 {
        let t = f["t"].to_string().unwrap_or_default();
        let inception = eq(t.as_bytes(), b"icp") || eq(t.as_bytes(), b"dip") || eq(t.as_bytes(), b"vcp");
        check(r.is_ok() == inception, "type of event");
        check(v.is_ok() == inception, "type of event");
        cover("bound");
        return;
    }
    if w == 0 || (w == 1 && c >= 3) {
        check(matches!(r, Ok(q) if q == p), "not derived any longer");
        check(matches!(v, Ok(true)), "not verified any longer");
    } else {
        check(!matches!(v, Ok(true)), "still verified");
        check(w < 3 || v.is_err(), "no error");
        match r {
            // two keys of which the first
            Ok(_) => fail("still derived"),
            Err(_) => {}
        }
    }
    cover("bound");
}
fn want(e: &Value, c: usize) -> Vec<u8> {
    hash(CODES[c], &json(&sized(&set(&set(e, "i", dummy(c)), "d", dummy(c)), "KERI")))
}
/// digest prefixes: case = code + 9 * (type of event + 3 * variant)
#[no_mangle]
pub extern "C" fn h_c14_digest() {
    let c = case() as usize % 9;
    let t = ILKS[case() as usize / 9 % 3];
    let (x, i) = (plain(2, 0), plain(2, 1));
    let k = "DIM66TjBMfwPnbwK7oZqbZyGz9nOeVmQHeH3NZxrsk8F";
    let e = event(t, &i, k, &x);
    let e = match case() / 27 {
        0 => e,
        1 => without(&e, "i"),
        2 => without(&e, "d"),
        3 => set(&e, "v", version("KERI", 0xfffff)),
        _ => set(&set(&e, "k", list(&[k, &x])), "a", Value::Array(vec![obj(&[("i", text(&x)), ("n", Value::from(3i64))])])),
    };
    let p = ok(Prefixer::new_with_ked(&e, None, Some(CODES[c])), "derivation fails");
    check(p.code() == CODES[c], "code");
    check(eq(&p.raw(), &want(&e, c)), "not the digest of the event with dummies");
    let pre = ok(p.qb64(), "no text");
    check(is(&p, &e, None), "does not verify");
    check(isnt(&p, &e, Some(true)), "verifies another prefix");
    // with prefix and identifier in their places
    let f = set(&e, "i", text(&pre));
    check(is(&p, &f, Some(true)), "does not verify");
    let f = set(&f, "d", text(&pre));
    check(is(&p, &f, Some(true)), "does not verify");
    check(is(&p, &f, None), "does not verify");
    if case() / 27 == 0 {
        let q = ok(Prefixer::new_with_ked(&f, Some(&["D", CODES[c]]), None), "derivation fails");
        check(q == p, "another prefix the second time");
        check(Prefixer::new_with_ked(&f, Some(&["D"]), None).is_err(), "derived a code that is not allowed");
        let (a, b) = ((c + 1) % 9, (c + 8) % 9);
        for o in [a, b] {
            let q = ok(Prefixer::new_with_ked(&f, None, Some(CODES[o])), "derivation fails");
            check(q.code() == CODES[o], "code");
            check(isnt(&q, &f, Some(true)), "a prefix of another code");
        }
        // any digest but the right one
        let mut raw = p.raw();
        let at = raw.len() - 7;
        for (k, d) in bytes(7, 2).iter().enumerate() {
            raw[at + k] = *d;
        }
        let q = ok(Prefixer::new_with_raw(&raw, Some(CODES[c])), "prefix refused");
        check(is(&q, &e, None) == eq(&raw, &want(&e, c)), "another digest verifies");
    }
    cover("digest");
}
/// every change of a covered field makes another event (case = code + 9 * change)
#[no_mangle]
pub extern "C" fn h_c14_altered() {
    let c = case() as usize % 9;
    let (x, y) = (plain(2, 0), plain(2, 1));
    let k = "DIM66TjBMfwPnbwK7oZqbZyGz9nOeVmQHeH3NZxrsk8F";
    let n = case() as usize / 9;
    let l = ["t", "s", "kt", "k", "nt", "n", "bt", "b", "c", "a", "z"][n];
    let field = |x: &str| match l {
        "t" => text("icp"),
        "k" => list(&[k, x]),
        "n" | "b" | "c" => list(&[x]),
        "a" => Value::Array(vec![obj(&[("i", text(x))])]),
        _ => text(x),
    };
    let e = event("icp", "", k, "0");
    let e = set(&e, l, field(&x));
    let p = ok(Prefixer::new_with_ked(&e, None, Some(CODES[c])), "derivation fails");
    let f = if l == "t" { set(&e, "t", text("dip")) } else { set(&e, l, field(&y)) };
    let same = l != "t" && eq(x.as_bytes(), y.as_bytes());
    check(is(&p, &f, None) == same, "another event");
    let q = ok(Prefixer::new_with_ked(&f, None, Some(CODES[c])), "derivation fails");
    check((q == p) == same, "the same prefix from another event");
    if l != "t" {
        check(isnt(&p, &without(&e, l), None), "verifies an event without the field");
    }
    // an altered prefix
    let mut raw = p.raw();
    let at = [0, raw.len() / 2, raw.len() - 1][n % 3];
    let d = u8_(2);
    raw[at] ^= d;
    let q = ok(Prefixer::new_with_raw(&raw, Some(CODES[c])), "prefix refused");
    check(is(&q, &e, None) == (d == 0), "an altered prefix");
    cover("altered");
}
/// events no digest prefix can be derived from (case = code + 9 * event)
#[no_mangle]
pub extern "C" fn h_c14_refuse() {
    let c = case() as usize % 9;
    let x = plain(1, 0);
    let k = "DIM66TjBMfwPnbwK7oZqbZyGz9nOeVmQHeH3NZxrsk8F";
    let e = event("icp", "", k, &x);
    let p = ok(Prefixer::new_with_ked(&e, None, Some(CODES[c])), "derivation fails");
    let f = match case() / 9 {
        0 => without(&e, "t"),
        1 => set(&e, "t", text("rot")),
        2 => set(&e, "t", text("ixn")),
        3 => set(&e, "t", Value::from(1i64)),
        4 => without(&e, "v"),
        5 => set(&e, "v", text(&x)),
        6 => set(&e, "v", Value::Null),
        7 => set(&e, "v", text("KERI10CBOR000000_")),
        8 => set(&e, "v", text("KERI20JSON000000_")),
        9 => Value::Array(vec![e.clone()]),
        10 => text(&x),
        11 => Value::Null,
        _ => obj(&[]),
    };
    check(Prefixer::new_with_ked(&f, None, Some(CODES[c])).is_err(), "derived from no event");
    check(p.verify(&f, None).is_err(), "verified no event");
    check(p.verify(&f, Some(true)).is_err(), "verified no event");
    check(Prefixer::new(None, None, Some(CODES[c]), None, None, None, None).is_err(), "derived from nothing");
    cover("refused");
}
/// the code taken from the prefix there is: any two characters before any prefix
#[no_mangle]
pub extern "C" fn h_c14_given() {
    let k = "DIM66TjBMfwPnbwK7oZqbZyGz9nOeVmQHeH3NZxrsk8F";
    let i = plain(2, 0) + &k[2..][..[0, 2, 41, 42, 42][case() as usize]];
    let key = if case() == 4 { i.as_str() } else { k };
    let e = event("icp", &i, key, "0");
    let given = Prefixer::new_with_qb64(&i);
    match Prefixer::new_with_ked(&e, None, None) {
        Ok(p) => {
            check(matches!(given, Ok(g) if g.code() == p.code()), "a prefix of another code");
            check(is(&p, &e, None), "does not verify");
            if KEYS.contains(&p.code().as_str()) {
                check(matches!(p.qb64(), Ok(t) if eq(t.as_bytes(), key.as_bytes())), "not the key");
            }
            cover("derived");
        }
        Err(_) => cover("refused"),
    }
}
