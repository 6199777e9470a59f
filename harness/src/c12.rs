use crate::c16::{hash, CODES};
use crate::sym::*;
use cesride::data::{Object, Value};
use cesride::{Matter, Saider};

fn ok<T>(r: cesride::Result<T>, m: &str) -> T {
    match r {
        Ok(v) => v,
        Err(_) => fail(m),
    }
}
pub fn obj(f: &[(&str, Value)]) -> Value {
    let mut o = Object::new();
    for (k, v) in f {
        o.insert(k.to_string(), v.clone());
    }
    Value::Object(o)
}
pub fn set(v: &Value, k: &str, x: Value) -> Value {
    let mut v = v.clone();
    v[k] = x;
    v
}
pub fn without(v: &Value, k: &str) -> Value {
    match v {
        Value::Object(o) => Value::Object(o.iter().filter(|e| e.0 != k).map(|e| (e.0.clone(), e.1.clone())).collect()),
        _ => fail("no object"),
    }
}
pub fn fs(c: usize) -> usize {
    if c < 5 {
        44
    } else {
        88
    }
}
pub fn dummy(c: usize) -> Value {
    Value::from("#".repeat(fs(c)).as_str())
}
pub fn json(v: &Value) -> Vec<u8> {
    ok(v.to_json(), "rendering fails").into_bytes()
}
pub fn version(ident: &str, n: usize) -> Value {
    Value::from(format!("{ident}10JSON{n:06x}_").as_str())
}
/// the version string, if there is one, states the length
pub fn sized(v: &Value, ident: &str) -> Value {
    set(v, "v", version(ident, json(v).len()))
}
const LABELS: [&str; 6] = ["d", "i", "$id", "@id", "id", "said"];
const IDENTS: [&str; 2] = ["KERI", "ACDC"];
/// a message: version string (none, KERI, ACDC) and fields of every kind
struct Msg {
    sad: Value,
    label: &'static str,
    versioned: bool,
    ident: &'static str,
}
fn message(shape: usize, label: &'static str, text: &str, n: i64) -> Msg {
    let (versioned, ident) = (shape % 3 > 0, IDENTS[(shape % 3).saturating_sub(1)]);
    let mut f = vec![];
    if versioned {
        f.push(("v", version(ident, [0, 0xffffff][shape / 3 % 2])));
    }
    let id = (label, Value::from(""));
    let rest = [
        ("x", Value::from(text)),
        ("a", Value::Array(vec![Value::from(n), Value::Boolean(true), Value::Null, Value::from("t")])),
        ("o", obj(&[("d", Value::from("inner")), ("x", Value::Array(vec![])), ("y", obj(&[("z", Value::from("deep"))]))])),
    ];
    if shape / 3 == 0 {
        f.push(id);
        f.extend(rest);
    } else {
        f.extend(rest);
        f.push(id);
    }
    Msg { sad: obj(&f), label, versioned, ident }
}
/// what the digest is computed over
fn dummied(m: &Msg, c: usize, ignore: &[&str]) -> Vec<u8> {
    let mut s = set(&m.sad, m.label, dummy(c));
    if m.versioned {
        s = sized(&s, m.ident);
    }
    for k in ignore {
        s = without(&s, k);
    }
    json(&s)
}
fn text(n: usize) -> String {
    let s = ascii(n, 0);
    // plain characters: escapes are C18's subject
    for b in s.bytes() {
        assume((b >= 32) & (b != b'"') & (b != b'\\') & (b != 0x7f));
    }
    s
}
fn code_of(c: usize) -> Option<&'static str> {
    if c == 0 && case() % 2 == 0 {
        None
    } else {
        Some(CODES[c])
    }
}
/// case = code + 9 * (shape + 6 * label)
#[no_mangle]
pub extern "C" fn h_c12_saidify() {
    let c = case() as usize % 9;
    let m = message(case() as usize / 9 % 6, LABELS[case() as usize / 54 % 6], &text(2), u8_(1) as i64 & 7);
    let code = code_of(c);
    let l = if m.label == "d" && c % 2 == 0 { None } else { Some(m.label) };
    let (s, out) = ok(Saider::saidify(&m.sad, code, None, l, None), "refused");
    let said = ok(s.qb64(), "no text");
    check(s.code() == CODES[c], "code");
    check(eq(&s.raw(), &hash(CODES[c], &dummied(&m, c, &[]))), "not the digest of the message with dummies");
    let mut want = set(&m.sad, m.label, Value::from(said.as_str()));
    if m.versioned {
        want = sized(&want, m.ident);
    }
    check(out == want, "the message is more than completed");
    for (p, v) in [(None, None), (Some(true), Some(true)), (Some(false), Some(false))] {
        check(ok(s.verify(&out, p, v, None, l, None), "verification fails"), "does not verify");
    }
    let (s2, out2) = ok(Saider::saidify(&out, code, None, l, None), "refused");
    check(s2 == s, "another identifier the second time");
    check(out2 == out, "another message the second time");
    check(ok(Saider::new_with_sad(&out, l, None, None, None), "refused") == s, "identifier of the completed message");
    let s3 = ok(Saider::new_with_qb64(&said), "own text refused");
    check(s3 == s, "parsed");
    cover("said");
}
/// every raw value: an identifier verifies a message exactly when it is the message's
#[no_mangle]
pub extern "C" fn h_c12_exact() {
    let c = case() as usize % 9;
    let m = message(case() as usize / 9 % 6, LABELS[case() as usize / 54 % 6], &text(1), 5);
    // the right value and any difference from it, which a native replay can follow
    let right = hash(CODES[c], &dummied(&m, c, &[]));
    let raw: Vec<u8> = right.iter().zip(bytes(right.len(), 2)).map(|(x, y)| x ^ y).collect();
    let s = ok(Saider::new_with_raw(&raw, Some(CODES[c])), "refused");
    let mut sad = set(&m.sad, m.label, Value::from(ok(s.qb64(), "no text").as_str()));
    if m.versioned {
        sad = sized(&sad, m.ident);
    }
    let right = eq(&raw, &right);
    check(ok(s.verify(&sad, Some(true), None, None, Some(m.label), None), "verification fails") == right, "verifies another message");
    if right {
        cover("right");
    } else {
        cover("wrong");
    }
}
const CHANGES: u64 = 14;
/// after any change to the completed message it does not verify any more
#[no_mangle]
pub extern "C" fn h_c12_change() {
    let (k, c) = (case() % CHANGES, case() as usize / CHANGES as usize % 9);
    let shape = [1, 5, 0][case() as usize / (CHANGES as usize * 9) % 3];
    let t = text(2);
    let n = u8_(1) as i64 & 3;
    let m = message(shape, LABELS[c % 6], &t, n);
    let (s, out) = ok(Saider::saidify(&m.sad, Some(CODES[c]), None, Some(m.label), None), "refused");
    let mut prefixed = None;
    let bad = match k {
        0 => {
            // another text of the same length
            let u = bytes(2, 3);
            for b in &u {
                assume((*b >= 32) & (*b != b'"') & (*b != b'\\') & (*b < 0x7f));
            }
            assume(!eq(&u, t.as_bytes()));
            set(&out, "x", Value::from(unsafe { std::str::from_utf8_unchecked(&u) }))
        }
        1 => {
            // of another length
            let u = ascii(3, 3);
            set(&out, "x", Value::from(u.as_str()))
        }
        2 => {
            let mut v = out.clone();
            let n2 = u8_(3) as i64 & 3;
            assume(n2 != n);
            v["a"][0] = Value::from(n2);
            v
        }
        3 => {
            let mut v = out.clone();
            v["a"][1] = Value::Boolean(false);
            v
        }
        4 => {
            let mut v = out.clone();
            v["a"][2] = Value::from("null");
            v
        }
        5 => {
            let mut v = out.clone();
            v["o"]["y"]["z"] = Value::from(ascii(4, 3).as_str());
            assume(v != out);
            v
        }
        6 => {
            let mut v = out.clone();
            v["o"]["d"] = Value::from("");
            v
        }
        7 => without(&out, "x"),
        8 => set(&out, "new", Value::Null),
        9 => set(&without(&out, "a"), "a", out["a"].clone()),
        10 | 11 => {
            // another identifier in the message
            prefixed = Some(true);
            let e = if k == 10 { ascii(fs(c), 3) } else { ascii(3, 3) };
            let v = set(&out, m.label, Value::from(e.as_str()));
            assume(!eq(e.as_bytes(), ok(s.qb64(), "no text").as_bytes()));
            v
        }
        12 => {
            if !m.versioned {
                cover("no version");
                return;
            }
            let z = u32_(3) & 0xffffff;
            let len = json(&out).len() as u32;
            assume(z != len);
            let mut t = b"KERI10JSON".to_vec();
            if m.ident == "ACDC" {
                t[..4].copy_from_slice(b"ACDC");
            }
            for i in (0..6).rev() {
                let d = (z >> (4 * i) & 15) as u8;
                t.push(ite(d < 10, d as u64 + 48, d as u64 + 87) as u8);
            }
            t.push(b'_');
            set(&out, "v", Value::from(unsafe { std::str::from_utf8_unchecked(&t) }))
        }
        _ => {
            if !m.versioned {
                cover("no version");
                return;
            }
            // another protocol or no proper version string
            let v = ["KERI", "ACDC"][(m.ident == "KERI") as usize];
            if choose(2, 3) == 0 {
                set(&out, "v", version(v, json(&out).len()))
            } else {
                set(&out, "v", Value::from(ascii(2, 4).as_str()))
            }
        }
    };
    match s.verify(&bad, prefixed, None, None, Some(m.label), None) {
        Ok(v) => check(!v, "a changed message verifies"),
        Err(_) => {}
    }
    cover("changed");
}
/// with fields left out of the digest: the others are covered and the ignored ones stay
#[no_mangle]
pub extern "C" fn h_c12_ignore() {
    let c = case() as usize % 9;
    let t = text(2);
    let m = message([0, 1, 5][case() as usize / 9 % 3], "d", &t, 5);
    let ignore: &[&str] = [&["x"][..], &["a", "o"][..], &["absent", "x", "x"][..], &[][..]][case() as usize / 27];
    let (s, out) = ok(Saider::saidify(&m.sad, Some(CODES[c]), Some("JSON"), None, Some(ignore)), "refused");
    check(eq(&s.raw(), &hash(CODES[c], &dummied(&m, c, ignore))), "not the digest without the ignored fields");
    let mut want = set(&m.sad, "d", Value::from(ok(s.qb64(), "no text").as_str()));
    if m.versioned {
        want = sized(&want, m.ident);
    }
    check(out == want, "the message is more than completed");
    check(ok(s.verify(&out, Some(true), None, None, None, Some(ignore)), "verification fails"), "does not verify");
    let u = text(2);
    let other = set(&out, "x", Value::from(u.as_str()));
    if ignore.contains(&"x") {
        check(ok(s.verify(&other, Some(true), None, None, None, Some(ignore)), "verification fails"), "an ignored field matters");
    } else {
        assume(u != t);
        check(!ok(s.verify(&other, Some(true), None, None, None, Some(ignore)), "verification fails"), "a covered field does not matter");
    }
    cover("ignored");
}
/// what cannot have an identifier is refused, and verification of anything does not panic
#[no_mangle]
pub extern "C" fn h_c12_refuse() {
    let s = ok(Saider::new_with_raw(&[7; 32], Some("E")), "refused");
    let m = message(1, "d", "", 1);
    let (v, want) = match case() {
        0 => (Value::Null, false),
        1 => (Value::from("d"), false),
        2 => (Value::Array(vec![Value::from("d")]), false),
        3 => (obj(&[]), false),
        4 => (obj(&[("i", Value::from(""))]), false),
        5 => (set(&m.sad, "v", Value::Null), false),
        6 => (set(&m.sad, "v", Value::from("")), false),
        7 => (set(&m.sad, "v", Value::from("KERI11JSON000000_")), false),
        8 => (set(&m.sad, "d", Value::Null), true),
        9 => (set(&m.sad, "d", Value::from(ascii(2, 0).as_str())), true),
        _ => (without(&m.sad, "v"), true),
    };
    check(Saider::saidify(&v, None, None, None, None).is_ok() == want, "identifier for something that has none");
    for l in [None, Some("d"), Some("i"), Some("v")] {
        for p in [None, Some(true)] {
            let r = s.verify(&v, p, None, None, l, None);
            check(matches!(r, Ok(false) | Err(_)) | want | (3..=4).contains(&case()), "verifies what has no identifier");
        }
        let _ = Saider::new_with_sad(&v, l, None, None, None);
        let _ = Saider::new_with_sad(&v, l, None, None, Some("E"));
    }
    cover("asked");
}
/// only the nine digest codes make identifiers
#[no_mangle]
pub extern "C" fn h_c12_codes() {
    let code = ascii(case() as usize, 0);
    let m = message(1, "d", "", 1);
    let mut good = false;
    for c in CODES {
        good |= (c.len() == code.len()) && eq(c.as_bytes(), code.as_bytes());
    }
    check(Saider::saidify(&m.sad, Some(&code), None, None, None).is_ok() == good, "code");
    check(Saider::new_with_sad(&m.sad, None, None, None, Some(&code)).is_ok() == good, "code of a message");
    if good {
        cover("known");
    } else {
        cover("unknown");
    }
}
/// long contents: case = code + 9 * length
#[no_mangle]
pub extern "C" fn h_c12_long() {
    let c = case() as usize % 9;
    let n = LONG[case() as usize / 9];
    let mut t = vec![b'x'; n];
    let (x, y) = (arr::<2>(0), arr::<2>(1));
    for b in [x[0], x[1], y[0], y[1]] {
        assume((b >= 32) & (b != b'"') & (b != b'\\') & (b < 0x7f));
    }
    let mut u = t.clone();
    (t[n / 2], t[n - 1], u[n / 2], u[n - 1]) = (x[0], x[1], y[0], y[1]);
    let (t, u) = unsafe { (String::from_utf8_unchecked(t), String::from_utf8_unchecked(u)) };
    let m = message(1, "d", &t, 5);
    let (s, out) = ok(Saider::saidify(&m.sad, Some(CODES[c]), None, None, None), "refused");
    check(eq(&s.raw(), &hash(CODES[c], &dummied(&m, c, &[]))), "not the digest of the message with dummies");
    check(out == sized(&set(&m.sad, "d", Value::from(ok(s.qb64(), "no text").as_str())), m.ident), "the message is more than completed");
    check(ok(s.verify(&out, Some(true), None, None, None, None), "verification fails"), "does not verify");
    let other = set(&out, "x", Value::from(u.as_str()));
    check(ok(s.verify(&other, Some(true), None, None, None, None), "verification fails") == eq(t.as_bytes(), u.as_bytes()), "a changed message verifies");
    let short = sized(&set(&out, "x", Value::from(&t[..n - 1])), m.ident);
    check(!ok(s.verify(&short, Some(true), None, None, None, None), "verification fails"), "a shortened message verifies");
    cover("long");
}
