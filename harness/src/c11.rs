use crate::sym::*;
use cesride::common::{deversify, sizeify, sniff, versify, Version};
use cesride::data::{Object, Value};

fn ok<T>(r: cesride::Result<T>, m: &str) -> T {
    match r {
        Ok(v) => v,
        Err(_) => fail(m),
    }
}
const IDENTS: [&str; 2] = ["KERI", "ACDC"];
/// value of a lowercase hexadecimal digit, 255 if it is none, without branching
fn hex(c: u8) -> u32 {
    let d = c.wrapping_sub(b'0');
    let l = c.wrapping_sub(b'a');
    ite(d < 10, d as u64, ite(l < 6, l as u64 + 10, 255)) as u32
}
/// the protocol without branching
fn name(i: usize) -> Vec<u8> {
    (0..4).map(|k| ite(i == 0, IDENTS[0].as_bytes()[k] as u64, IDENTS[1].as_bytes()[k] as u64) as u8).collect()
}
fn digit(v: u32) -> u8 {
    ite(v < 10, v as u64 + 48, v as u64 + 87) as u8
}
/// the reference: 17 characters, protocol, two hexadecimal version digits, kind, six
/// hexadecimal size digits and a terminator
pub fn parse(t: &[u8]) -> Option<(usize, u8, u8, u32)> {
    if t.len() != 17 {
        return None;
    }
    let (keri, acdc) = (eq(&t[..4], b"KERI"), eq(&t[..4], b"ACDC"));
    let (mut size, mut bad) = (0u32, hex(t[4]) | hex(t[5]));
    for &c in &t[10..16] {
        size = size << 4 | (hex(c) & 15);
        bad |= hex(c);
    }
    if (t[16] == b'_') & eq(&t[6..10], b"JSON") & (keri | acdc) & (bad < 16) {
        Some((acdc as usize, hex(t[4]) as u8, hex(t[5]) as u8, size))
    } else {
        None
    }
}
fn render(i: usize, major: u8, minor: u8, size: u32) -> Vec<u8> {
    let mut v = name(i);
    v.push(digit(major as u32));
    v.push(digit(minor as u32));
    v.extend_from_slice(b"JSON");
    for k in (0..6).rev() {
        v.push(digit((size >> (4 * k)) & 15));
    }
    v.push(b'_');
    v
}
/// every version and size, of both protocols: rendered as defined and read back, or refused
#[no_mangle]
pub extern "C" fn h_c11_round() {
    let i = case() as usize & 1;
    let (major, minor) = match case() / 2 {
        0 => (u8_(0), u8_(1)),
        1 => (1, 0),
        _ => (u8_(0), 15),
    };
    let size = match case() / 2 {
        0 => u8_(2) as u32,
        1 => u32_(2),
        _ => 0xffff00 | u8_(2) as u32,
    };
    let v = Version { major, minor };
    match versify(Some(IDENTS[i]), Some(&v), Some("JSON"), Some(size)) {
        Ok(s) => {
            check((major < 16) & (minor < 16) & (size < 1 << 24), "a version string that cannot say this");
            check(eq(s.as_bytes(), &render(i, major, minor, size)), "version string");
            let d = ok(deversify(&s), "own version string refused");
            check(eq(d.ident.as_bytes(), &name(i)), "protocol");
            check(d.kind == "JSON", "kind");
            check((d.version.major == major) & (d.version.minor == minor), "version");
            check(d.size == size, "size");
            if (case() / 2 == 1) & (i == 0) {
                check(matches!(versify(None, None, None, Some(size)), Ok(x) if x == s), "defaults");
            }
            cover("rendered");
        }
        Err(_) => {
            check((major > 15) | (minor > 15) | (size >= 1 << 24), "refused");
            cover("refused");
        }
    }
}
/// protocols and kinds: case / 2 characters each (protocol or kind)
#[no_mangle]
pub extern "C" fn h_c11_names() {
    let s = ascii(case() as usize / 2, 0);
    if case() % 2 == 0 {
        let good = (s == "KERI") | (s == "ACDC");
        check(versify(Some(&s), None, None, None).is_ok() == good, "protocol");
    } else {
        check(versify(None, None, Some(&s), None).is_ok() == (s == "JSON"), "kind");
    }
    cover("asked");
}
/// every ASCII text of case characters as version string
#[no_mangle]
pub extern "C" fn h_c11_text() {
    let t = ascii(case() as usize, 0);
    let want = parse(t.as_bytes());
    match (deversify(&t), want) {
        (Ok(d), Some((i, major, minor, size))) => {
            check(eq(d.ident.as_bytes(), &name(i)), "protocol");
            check(d.kind == "JSON", "kind");
            check((d.version.major == major) & (d.version.minor == minor), "version");
            check(d.size == size, "size");
            cover("accepted");
        }
        (Ok(_), None) => fail("malformed version string accepted"),
        (Err(_), Some(_)) => fail("version string refused"),
        _ => cover("refused"),
    }
}
/// a version string with text before and after it, and two of them
#[no_mangle]
pub extern "C" fn h_c11_long() {
    let (a, b) = (case() as usize % 4, case() as usize / 4 % 4);
    let vs = render(0, 1, 0, u8_(2) as u32);
    let mut t = ascii(a, 0).into_bytes();
    t.extend_from_slice(&vs);
    if case() / 16 == 1 {
        t.extend_from_slice(&render(0, 1, 0, 0));
    }
    t.extend_from_slice(ascii(b, 1).as_bytes());
    let t = unsafe { String::from_utf8_unchecked(t) };
    check(deversify(&t).is_ok() == (a + b + case() as usize / 16 == 0), "surrounded version string");
    cover("asked");
}
/// sniffing: any fields at offset case % 16 behind anything, followed by anything
#[no_mangle]
pub extern "C" fn h_c11_sniff() {
    let (p, after) = (case() as usize % 16, [12usize, 13, 30][case() as usize / 16]);
    let (i, major, minor) = (choose(2, 0) as usize, u8_(1) & 15, u8_(2) & 15);
    let size = u32_(3) & 0xffffff;
    let mut t = ascii(p, 4).into_bytes();
    t.extend_from_slice(&render(i, major, minor, size));
    let after = if after == 12 { 12usize.saturating_sub(p) } else { after };
    let any = after.min(2);
    t.extend_from_slice(&bytes(any, 5));
    if p + 17 + after > 29 {
        // behind the part that is looked at
        let inside = 12usize.saturating_sub(p + any).min(after - any);
        t.extend_from_slice(ascii(inside, 6).as_bytes());
        t.extend_from_slice(&bytes(after - any - inside, 7));
    } else {
        t.extend_from_slice(ascii(after - any, 6).as_bytes());
    }
    match sniff(&t) {
        Ok(d) => {
            check(p <= 12, "a version string this far in");
            check(eq(d.ident.as_bytes(), &name(i)), "protocol");
            check(d.kind == "JSON", "kind");
            check((d.version.major == major) & (d.version.minor == minor), "version");
            check(d.size == size, "size");
            cover("found");
        }
        Err(_) => {
            check(p > 12, "version string not found");
            cover("refused");
        }
    }
}
/// sniffing anything of fewer bytes than needed, or anything of 29 with some fixed frame:
/// found exactly when a version string is there
#[no_mangle]
pub extern "C" fn h_c11_any() {
    let p = case() as usize % 16;
    if case() / 16 == 0 {
        check(sniff(&bytes(13 + p, 0)).is_err(), "too few bytes accepted");
        cover("short");
        return;
    }
    // 17 arbitrary characters within a message
    let mut t = vec![b' '; p];
    let w = ascii(17, 0);
    t.extend_from_slice(w.as_bytes());
    while t.len() < 30 {
        t.push(b' ');
    }
    match (sniff(&t), parse(w.as_bytes())) {
        (Ok(d), Some((i, major, minor, size))) => {
            check(eq(d.ident.as_bytes(), &name(i)), "protocol");
            check((d.version.major == major) & (d.version.minor == minor), "version");
            check(d.size == size, "size");
            check(p <= 12, "a version string this far in");
            cover("found");
        }
        (Ok(_), None) => fail("malformed version string accepted"),
        (Err(_), Some(_)) => check(p > 12, "version string not found"),
        _ => cover("refused"),
    }
}
fn obj(f: &[(&str, Value)]) -> Value {
    let mut o = Object::new();
    for (k, v) in f {
        o.insert(k.to_string(), v.clone());
    }
    Value::Object(o)
}
fn s(t: &[u8]) -> Value {
    Value::from(unsafe { std::str::from_utf8_unchecked(t) })
}
/// sizing a message: any stated size, string contents of several lengths, order of fields
#[no_mangle]
pub extern "C" fn h_c11_size() {
    let i = choose(2, 0) as usize;
    let vs = s(&render(i, 1, 0, u32_(1) & 0xffffff));
    let (ked, len) = match case() {
        k @ 0..=3 => {
            let t = ascii(k as usize, 2);
            (obj(&[("v", vs), ("d", Value::from(t.as_str()))]), None)
        }
        k @ 4..=7 => {
            let n = u8_(2);
            (obj(&[("v", vs), ("d", Value::Array(vec![Value::from(n as i64 >> (2 * (k - 4))), Value::Null, Value::Boolean(true)]))]), None)
        }
        8 => (obj(&[("a", Value::from(choose(10, 2) as i64)), ("v", vs)]), None),
        9 => (obj(&[("t", Value::from("ixn")), ("v", vs), ("d", obj(&[("v", Value::from("x"))]))]), None),
        k => {
            // total lengths around powers of 16
            let n = [255usize, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537][k as usize - 10];
            let base = br#"{"v":"KERI10JSON000000_","d":""}"#.len();
            (obj(&[("v", vs), ("d", Value::from("x".repeat(n - base).as_str()))]), Some(n))
        }
    };
    let r = sizeify(&ked, None);
    if case() == 9 {
        check(r.is_err(), "version string too far in");
        cover("refused");
        return;
    }
    let r = ok(r, "refused");
    check(eq(r.ident.as_bytes(), &name(i)), "protocol");
    check(r.kind == "JSON", "kind");
    check((r.version.major == 1) & (r.version.minor == 0), "version");
    check(len.is_none() || len == Some(r.raw.len()), "length");
    let t = ok(r.ked.to_json(), "rendering fails");
    check(eq(t.as_bytes(), &r.raw), "raw is not what its fields render");
    let v = ok(r.ked["v"].to_string(), "no version string");
    check(eq(v.as_bytes(), &render(i, 1, 0, r.raw.len() as u32)), "stated size");
    let mut same = ked.clone();
    same["v"] = r.ked["v"].clone();
    check(r.ked == same, "another field changed");
    check(matches!(sizeify(&r.ked, Some("JSON")), Ok(x) if x == r), "sized twice");
    if r.raw.len() >= 29 {
        check(matches!(sniff(&r.raw), Ok(d) if d.size as usize == r.raw.len()), "sniffed size");
    }
    cover("sized");
}
/// what has no proper version string is not sized
#[no_mangle]
pub extern "C" fn h_c11_unsized() {
    let b = match case() {
        0 => obj(&[("d", Value::from("x"))]),
        1 => Value::from("KERI10JSON000000_"),
        2 => Value::Array(vec![Value::from("v")]),
        3 => obj(&[("v", Value::Null)]),
        4 => obj(&[("v", Value::from(0i64))]),
        5 => Value::Null,
        6 => {
            // any other version
            let v = (u8_(0) & 15, u8_(1) & 15);
            assume(v != (1, 0));
            obj(&[("v", s(&render(0, v.0, v.1, 0)))])
        }
        7 => {
            // another field that reads like a version string comes first
            obj(&[("t", s(&render(0, 1, 0, 0))), ("v", s(&render(0, 1, 0, u8_(0) as u32)))])
        }
        _ => obj(&[("v", s(&render(0, 1, 0, u8_(0) as u32)))]),
    };
    if case() == 8 {
        let k = ascii(4, 1);
        assume(k != "JSON");
        check(sizeify(&b, Some(&k)).is_err(), "sized as another kind");
    } else {
        check(sizeify(&b, None).is_err(), "sized");
    }
    cover("refused");
}
