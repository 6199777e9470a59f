use crate::c12::{json, obj, set, version, without};
use crate::sym::*;
use crate::tab;
use cesride::data::Value;
use cesride::{Creder, Matter, Sadder, Saider, Serder};

fn ok<T>(r: cesride::Result<T>, m: &str) -> T {
    match r {
        Ok(v) => v,
        Err(_) => fail(m),
    }
}
const IDENTS: [&str; 2] = ["KERI", "ACDC"];
/// what the two kinds of message have in common
#[derive(Clone, PartialEq, Debug)]
enum Msg {
    S(Serder),
    C(Creder),
}
macro_rules! each {
    ($s:expr, $x:ident => $e:expr) => {
        match $s {
            Msg::S($x) => $e,
            Msg::C($x) => $e,
        }
    };
}
impl Msg {
    fn raw(i: usize, code: Option<&str>, raw: &[u8]) -> Option<Msg> {
        if i == 0 {
            match code {
                None => Serder::new_with_raw(raw),
                c => Serder::new(c, Some(raw), None, None, None),
            }
            .ok()
            .map(Msg::S)
        } else {
            match code {
                None => Creder::new_with_raw(raw),
                c => Creder::new(c, Some(raw), None, None, None),
            }
            .ok()
            .map(Msg::C)
        }
    }
    fn ked(i: usize, code: Option<&str>, ked: &Value) -> Option<Msg> {
        if i == 0 {
            Serder::new_with_ked(ked, code, None).ok().map(Msg::S)
        } else {
            Creder::new_with_ked(ked, code, None).ok().map(Msg::C)
        }
    }
}
fn expect(m: Option<Msg>, t: &str) -> Msg {
    match m {
        Some(m) => m,
        None => fail(t),
    }
}
/// everything a loaded message says about itself
fn whole(m: &Msg, i: usize, code: &str, raw: &[u8], said: &str) {
    check(eq(&each!(m, x => x.raw()), raw), "raw is not the bytes it states");
    check(each!(m, x => x.size()) as usize == raw.len(), "size");
    check(each!(m, x => x.ident()) == IDENTS[i], "protocol");
    check(each!(m, x => x.kind()) == "JSON", "kind");
    let v = each!(m, x => x.version());
    check((v.major == 1) & (v.minor == 0), "version");
    check(each!(m, x => x.code()) == code, "code");
    check(eq(ok(each!(m, x => x.said()), "no said").as_bytes(), said.as_bytes()), "identifier");
    check(eq(&ok(each!(m, x => x.saidb()), "no said"), said.as_bytes()), "identifier bytes");
    check(ok(each!(m, x => x.saider()).qb64(), "no said") == said, "saider");
}
/// the field map is exactly what the bytes parse to
fn fields(m: &Msg, raw: &[u8]) {
    let ked = each!(m, x => x.ked());
    match serde_json::from_slice::<serde_json::Value>(raw) {
        Ok(j) => check(ked == Value::from(&j), "fields are not those of the bytes"),
        Err(_) => fail("malformed JSON accepted"),
    }
}
/// an identifier of code number c (of 9) over a digest of which the first, the middle and the
/// last byte are any
fn said(c: usize, id: u32) -> String {
    let code = crate::c16::CODES[c];
    let n = if c < 5 { 32 } else { 64 };
    let mut raw: Vec<u8> = (0..n).map(|k| (k * 7) as u8).collect();
    let x = arr::<3>(id);
    raw[0] = x[0];
    raw[n / 2] = x[1];
    raw[n - 1] = x[2];
    String::from_utf8(tab::fixed_qb64(tab::any_code(code).unwrap(), &raw)).unwrap()
}
fn plain(n: usize, id: u32) -> String {
    let s = ascii(n, id);
    for b in s.bytes() {
        assume((b >= 32) & (b != b'"') & (b != b'\\') & (b != 0x7f));
    }
    s
}
fn finish(ident: &str, body: &str) -> Vec<u8> {
    let n = body.len() + r#"{"v":"KERI10JSON000000_",}"#.len();
    format!(r#"{{"v":"{ident}10JSON{n:06x}_",{body}}}"#).into_bytes()
}
/// well-formed messages with any digest, text and integer, followed by anything; loaded as
/// their own kind and as the other.  case = code + 9 * (kind + 2 * loaded as other + 4 * tail)
#[no_mangle]
pub extern "C" fn h_c13_load() {
    let (c, i, other, tail) = (case() as usize % 9, case() as usize / 9 % 2, case() as usize / 18 % 2, case() as usize / 36);
    let d = said(c, 0);
    let (t, n) = (plain(2, 1), u8_(2) & 7);
    let raw = finish(IDENTS[i], &format!(r#""t":"{t}","d":"{d}","n":{n},"a":[{{"x":null}},"y",true]"#));
    let mut b = raw.clone();
    b.extend_from_slice(&bytes(tail, 3));
    let code = if c == 0 { None } else { Some(crate::c16::CODES[c]) };
    if other == 1 {
        check(Msg::raw(1 - i, code, &b).is_none(), "a foreign message accepted");
        cover("foreign");
        return;
    }
    let m = expect(Msg::raw(i, code, &b), "a message refused");
    whole(&m, i, crate::c16::CODES[c], &raw, &d);
    let ked = obj(&[
        ("v", version(IDENTS[i], raw.len())),
        ("t", Value::from(t.as_str())),
        ("d", Value::from(d.as_str())),
        ("n", Value::from(n as i64)),
        ("a", Value::Array(vec![obj(&[("x", Value::Null)]), Value::from("y"), Value::Boolean(true)])),
    ]);
    check(each!(&m, x => x.ked()) == ked, "fields");
    if c > 0 {
        check(Msg::raw(i, None, &b).is_none(), "another digest code accepted");
    }
    check(Msg::raw(i, Some(crate::c16::CODES[(c + 1) % 9]), &b).is_none(), "another digest code accepted");
    // the same message from its fields
    let k = expect(Msg::ked(i, code, &ked), "fields refused");
    check(k == m, "from its fields another message");
    let k = expect(Msg::ked(i, code, &set(&ked, "v", version(IDENTS[i], 7))), "fields refused");
    check(k == m, "from its fields without the right size another message");
    cover("loaded");
}
/// long messages, from bytes and from fields.  case = kind + 2 * length
#[no_mangle]
pub extern "C" fn h_c13_big() {
    let i = case() as usize % 2;
    let n = [255usize, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537, 0x12345][case() as usize / 2];
    let d = said(0, 0);
    let t = plain(2, 1);
    let base = finish(IDENTS[i], &format!(r#""d":"{d}","x":"{t}""#)).len();
    let x = "y".repeat(n - base) + &t;
    let raw = finish(IDENTS[i], &format!(r#""d":"{d}","x":"{x}""#));
    check(raw.len() == n, "length");
    let mut b = raw.clone();
    b.extend_from_slice(&bytes(1, 2));
    let m = expect(Msg::raw(i, None, &b), "a message refused");
    whole(&m, i, "E", &raw, &d);
    let ked = obj(&[("v", version(IDENTS[i], 0)), ("d", Value::from(d.as_str())), ("x", Value::from(x.as_str()))]);
    let k = expect(Msg::ked(i, None, &ked), "fields refused");
    whole(&k, i, "E", &raw, &d);
    check(k == m, "from its fields another message");
    check(Msg::raw(i, None, &raw[..n - 1]).is_none(), "a truncated message accepted");
    cover("long");
}
/// any text as identifier: short ones, and those of about the right length whose first two and
/// last two characters are any
#[no_mangle]
pub extern "C" fn h_c13_said() {
    let i = case() as usize % 2;
    let n = [0usize, 1, 2, 4, 43, 44, 45][case() as usize / 2];
    let d = if n < 5 {
        plain(n, 0)
    } else {
        let (a, z) = (plain(2, 0), plain(2, 1));
        format!("{a}{}{z}", "M66TjBMfwPnbwK7oZqbZyGz9nOeVmQHeH3NZxrsk8F8"[..n - 4].to_string())
    };
    let raw = finish(IDENTS[i], &format!(r#""d":"{d}""#));
    if raw.len() < 29 {
        fail("too short");
    }
    let good = matches!(Saider::new_with_qb64(&d), Ok(s) if s.code() == "E" && matches!(s.qb64(), Ok(t) if eq(t.as_bytes(), d.as_bytes())));
    match Msg::raw(i, None, &raw) {
        Some(m) => {
            check(good, "a malformed identifier accepted");
            whole(&m, i, "E", &raw, &d);
            cover("accepted");
        }
        None => {
            check(!good, "an identifier refused");
            cover("refused");
        }
    }
}
fn sample(i: usize) -> Vec<u8> {
    finish(IDENTS[i], r#""d":"EIM66TjBMfwPnbwK7oZqbZyGz9nOeVmQHeH3NZxrsk8F","i":"x""#)
}
/// truncated: case = kind + 2 * length
#[no_mangle]
pub extern "C" fn h_c13_cut() {
    let i = case() as usize % 2;
    let m = sample(i);
    let n = case() as usize / 2;
    if n < m.len() {
        check(Msg::raw(i, None, &m[..n]).is_none(), "a truncated message accepted");
        check(Msg::raw(i, Some("E"), &m[..n]).is_none(), "a truncated message accepted");
    }
    cover("cut");
}
/// any stated size, any version and any three bytes after the message
#[no_mangle]
pub extern "C" fn h_c13_size() {
    let i = case() as usize % 2;
    let mut m = sample(i);
    let len = m.len();
    let z = if case() / 2 == 0 { u32_(0) & 0xffffff } else { len as u32 };
    let v = if case() / 2 == 1 { u8_(2) } else { 0x10 };
    let h = |d: u8| ite(d < 10, d as u64 + 48, d as u64 + 87) as u8;
    m[10] = h(v >> 4);
    m[11] = h(v & 15);
    for k in 0..6 {
        m[16 + k] = h((z >> (20 - 4 * k) & 15) as u8);
    }
    m.extend_from_slice(&bytes(3, 1));
    match Msg::raw(i, None, &m) {
        Some(x) => {
            check(v == 0x10, "another version accepted");
            check(z as usize <= m.len(), "more than there is");
            check(z as usize >= len, "less than a message");
            let n = conc(z as u64) as usize;
            for b in &m[len..n] {
                check(matches!(*b, b' ' | b'\t' | b'\r' | b'\n'), "something behind the message becomes part of it");
            }
            check(eq(&each!(&x, x => x.raw()), &m[..n]), "raw is not the bytes it states");
            check(each!(&x, x => x.size()) == z, "size");
            cover("accepted");
        }
        None => {
            check((v != 0x10) | (z as usize != len), "a message refused");
            cover("refused");
        }
    }
}
/// any characters within a message, as (part of) a value or between fields
#[no_mangle]
pub extern "C" fn h_c13_json() {
    let i = case() as usize % 2;
    let n = case() as usize / 2 % 4;
    let x = ascii(n, 0);
    let d = "EIM66TjBMfwPnbwK7oZqbZyGz9nOeVmQHeH3NZxrsk8F";
    for b in x.bytes() {
        // numbers with fractions or exponents are C18's subject
        assume((b != b'.') & (b != b'e') & (b != b'E'));
    }
    let raw = match case() / 8 {
        0 => finish(IDENTS[i], &format!(r#""d":"{d}","x":"{x}""#)),
        1 => finish(IDENTS[i], &format!(r#""d":"{d}","x":{x}"#)),
        2 => finish(IDENTS[i], &format!(r#""d":"{d}"{x}"#)),
        _ => finish(IDENTS[i], &format!(r#""d{x}":"{d}""#)),
    };
    let good = serde_json::from_slice::<serde_json::Value>(&raw).is_ok();
    match Msg::raw(i, None, &raw) {
        Some(m) => {
            check(good, "malformed JSON accepted");
            check(eq(&each!(&m, x => x.raw()), &raw), "raw is not the bytes it states");
            fields(&m, &raw);
            whole(&m, i, "E", &raw, d);
            cover("accepted");
        }
        None => {
            check(!good | (case() / 8 == 3), "a message refused");
            cover("refused");
        }
    }
}
/// any byte that is no ASCII character inside a text
#[no_mangle]
pub extern "C" fn h_c13_utf8() {
    let i = case() as usize % 2;
    let n = case() as usize / 2 + 1;
    let d = "EIM66TjBMfwPnbwK7oZqbZyGz9nOeVmQHeH3NZxrsk8F";
    let mut raw = finish(IDENTS[i], &format!(r#""d":"{d}","x":"{}""#, "~".repeat(n)));
    let at = raw.len() - 2 - n;
    let b = bytes(n, 0);
    for k in 0..n {
        assume((b[k] >= 0x80) | (b[k] == b'z'));
        raw[at + k] = b[k];
    }
    let good = std::str::from_utf8(&b).is_ok();
    match Msg::raw(i, None, &raw) {
        Some(m) => {
            check(good, "bytes that are no text accepted");
            check(eq(&each!(&m, x => x.raw()), &raw), "raw is not the bytes it states");
            check(matches!(each!(&m, x => x.ked())["x"].to_string(), Ok(x) if eq(x.as_bytes(), &b)), "text");
            cover("accepted");
        }
        None => {
            check(!good, "a text refused");
            cover("refused");
        }
    }
}
/// what is no message is refused, from bytes and from fields
#[no_mangle]
pub extern "C" fn h_c13_refuse() {
    let i = case() as usize % 2;
    let d = "EIM66TjBMfwPnbwK7oZqbZyGz9nOeVmQHeH3NZxrsk8F";
    let good = obj(&[("v", version(IDENTS[i], 0)), ("d", Value::from(d)), ("x", Value::from("0123456789"))]);
    let bad = match case() / 2 {
        0 => without(&good, "d"),
        1 => without(&good, "v"),
        2 => set(&good, "d", Value::Null),
        3 => set(&good, "d", Value::from(5i64)),
        4 => set(&good, "d", Value::Array(vec![Value::from(d)])),
        5 => set(&good, "d", Value::from("")),
        6 => set(&good, "d", Value::from("BEy_EvE8OUMqj0AgCJ3wOCOrIVHVtwubYAysPyaAv9VI")),
        7 => set(&good, "v", Value::from("KERI11JSON000000_")),
        8 => set(&good, "v", Value::from("KERI10CBOR000000_")),
        9 => set(&good, "v", version(IDENTS[1 - i], 0)),
        10 => set(&good, "v", Value::Null),
        11 => set(&good, "v", Value::from(plain(2, 0).as_str())),
        12 => Value::Array(vec![good.clone()]),
        13 => Value::from("d"),
        14 => Value::Null,
        15 => set(&good, "d", Value::from("FIM66TjBMfwPnbwK7oZqbZyGz9nOeVmQHeH3NZxrsk8F")),
        _ => obj(&[]),
    };
    check(Msg::ked(i, None, &good).is_some(), "a message refused");
    check(Msg::ked(i, None, &bad).is_none(), "no message accepted");
    // the same as bytes that state their size where they state one
    let mut b = json(&bad);
    if let Some(p) = b.windows(6).position(|w| w == b"000000") {
        let h = format!("{:06x}", b.len());
        b[p..p + 6].copy_from_slice(h.as_bytes());
    }
    check(Msg::raw(i, None, &b).is_none(), "no message accepted from bytes");
    if i == 0 {
        check(Serder::new(None, None, None, None, None).is_err(), "nothing accepted");
    } else {
        check(Creder::new(None, None, None, None, None).is_err(), "nothing accepted");
    }
    cover("refused");
}
fn qb64(code: &str, id: u32) -> String {
    let c = tab::any_code(code).unwrap();
    String::from_utf8(tab::fixed_qb64(c, &bytes(c.raw(), id))).unwrap()
}
/// what an event's accessors return is what its fields say
#[no_mangle]
pub extern "C" fn h_c13_event() {
    let d = "EIM66TjBMfwPnbwK7oZqbZyGz9nOeVmQHeH3NZxrsk8F";
    let k = [qb64("D", 0), qb64("1AAI", 1)];
    let n = [qb64("E", 2), qb64("0G", 3)];
    let b = [qb64("B", 4), qb64("1AAA", 5)];
    let t = ["icp", "rot", "ixn", "dip", "drt", "rct", "ksn", "", "icpx", "ro"][case() as usize % 10];
    let full = case() / 10 == 0;
    let pre = plain(2, 6);
    let sn = u8_(7);
    let s = format!("{}", ["0", "1f", "0001", "ffffffffffffffffffffffffffffffff"][sn as usize & 3]);
    let list = |v: &[String]| Value::Array(v.iter().map(|s| Value::from(s.as_str())).collect());
    let mut f = vec![("v", version("KERI", 0)), ("d", Value::from(d))];
    if full {
        f.extend([
            ("t", Value::from(t)),
            ("i", Value::from(pre.as_str())),
            ("s", Value::from(s.as_str())),
            ("kt", Value::from("2")),
            ("k", list(&k)),
            ("nt", Value::Array(vec![Value::from("1/2"), Value::from("1/2")])),
            ("n", list(&n)),
            ("b", list(&b)),
            ("f", Value::from(["MAAA", "MAAB", "0AAAAAAAAAAAAAAAAAAAAAAB"][case() as usize % 3])),
        ]);
    }
    let e = ok(Serder::new_with_ked(&obj(&f), None, None), "event refused");
    let e = if case() % 2 == 0 { ok(Serder::new_with_raw(&e.raw()), "event refused") } else { e };
    if !full {
        check(matches!(e.verfers(), Ok(v) if v.is_empty()), "keys");
        check(matches!(e.digers(), Ok(v) if v.is_empty()), "digests");
        check(matches!(e.werfers(), Ok(v) if v.is_empty()), "witnesses");
        check(matches!(e.tholder(), Ok(None)), "threshold");
        check(matches!(e.ntholder(), Ok(None)), "next threshold");
        check(matches!(e.fner(), Ok(None)), "first seen number");
        check(e._fn().is_err() & e.sner().is_err() & e.sn().is_err(), "number");
        check(e.pre().is_err() & e.preb().is_err() & e.est().is_err(), "prefix");
        cover("bare");
        return;
    }
    let v = ok(e.verfers(), "keys");
    check(v.len() == 2, "keys");
    for (v, k) in v.iter().zip(&k) {
        check(eq(ok(v.qb64(), "key").as_bytes(), k.as_bytes()), "key");
    }
    let v = ok(e.digers(), "digests");
    check(v.len() == 2, "digests");
    for (v, k) in v.iter().zip(&n) {
        check(eq(ok(v.qb64(), "digest").as_bytes(), k.as_bytes()), "digest");
    }
    let v = ok(e.werfers(), "witnesses");
    check(v.len() == 2, "witnesses");
    for (v, k) in v.iter().zip(&b) {
        check(eq(ok(v.qb64(), "witness").as_bytes(), k.as_bytes()), "witness");
    }
    check(matches!(e.tholder(), Ok(Some(t)) if !t.weighted() && matches!(t.num(), Ok(Some(2)))), "threshold");
    check(matches!(e.ntholder(), Ok(Some(t)) if t.weighted() && t.size() == 2), "next threshold");
    let want = [0u128, 31, 1, u128::MAX][sn as usize & 3];
    check(matches!(e.sn(), Ok(n) if n == want), "sequence number");
    check(matches!(e.sner(), Ok(n) if matches!(n.num(), Ok(n) if n == want)), "sequence number");
    let want = [0u128, 1, 1][case() as usize % 3];
    check(matches!(e._fn(), Ok(n) if n == want), "first seen number");
    check(matches!(e.fner(), Ok(Some(n)) if matches!(n.num(), Ok(n) if n == want)), "first seen number");
    check(matches!(e.pre(), Ok(p) if p == pre), "prefix");
    check(matches!(e.preb(), Ok(p) if p == pre.as_bytes()), "prefix bytes");
    check(matches!(e.est(), Ok(x) if x == matches!(t, "icp" | "rot" | "dip" | "drt")), "establishment");
    cover("event");
}
/// what a credential's accessors return is what its fields say
#[no_mangle]
pub extern "C" fn h_c13_credential() {
    let d = "EIM66TjBMfwPnbwK7oZqbZyGz9nOeVmQHeH3NZxrsk8F";
    let x = [plain(1, 0), plain(1, 1), plain(1, 2), plain(1, 3), plain(1, 4)];
    let v = |k: usize| Value::from(x[k].as_str());
    let mut f = vec![("v", version("ACDC", 0)), ("d", Value::from(d))];
    let m = case();
    let a = obj(&[("d", v(2)), ("LEI", v(0))]);
    let e = obj(&[("d", v(3)), ("qvi", obj(&[("n", v(1))]))]);
    if m & 1 > 0 {
        f.push(("i", v(0)));
        f.push(("s", v(1)));
    }
    if m & 2 > 0 {
        f.push(("ri", v(4)));
    }
    if m & 4 > 0 {
        f.push(("a", a.clone()));
    }
    if m & 8 > 0 {
        f.push(("e", e.clone()));
    }
    let c = ok(Creder::new_with_ked(&obj(&f), None, None), "credential refused");
    check(c.crd() == c.ked(), "fields");
    let s = |r: cesride::Result<String>, k: usize, there: bool| match r {
        Ok(t) => check(there && eq(t.as_bytes(), x[k].as_bytes()), "field"),
        Err(_) => check(!there, "field missing"),
    };
    s(c.issuer(), 0, m & 1 > 0);
    s(c.schema(), 1, m & 1 > 0);
    match c.status() {
        Ok(Some(t)) => check((m & 2 > 0) && t == x[4], "registry"),
        Ok(None) => check(m & 2 == 0, "registry missing"),
        Err(_) => fail("registry"),
    }
    check(c.subject() == if m & 4 > 0 { a } else { Value::Null }, "subject");
    check(matches!(c.chains(), Ok(x) if x == if m & 8 > 0 { e } else { obj(&[]) }), "chains");
    cover("credential");
}
/// rendering for people: never fails, cut where asked
#[no_mangle]
pub extern "C" fn h_c13_pretty() {
    let d = "EIM66TjBMfwPnbwK7oZqbZyGz9nOeVmQHeH3NZxrsk8F";
    let u = arr::<2>(0);
    assume((u[0] >= 0xc2) & (u[0] <= 0xdf) & (u[1] & 0xc0 == 0x80));
    let x = "é".repeat(3) + unsafe { std::str::from_utf8_unchecked(&u) };
    let e = ok(Serder::new_with_ked(&obj(&[("v", version("KERI", 0)), ("x", Value::from(x.as_str())), ("d", Value::from(d))]), None, None), "event refused");
    let full = ok(e.pretty(None), "not rendered");
    match serde_json::from_str::<serde_json::Value>(&full) {
        Ok(j) => check(Value::from(&j) == e.ked(), "another message"),
        Err(_) => fail("no JSON"),
    }
    for n in 24..56 {
        let t = ok(e.pretty(Some(n)), "not rendered");
        check(full.starts_with(&t) & (t.len() <= n) & (t.len() + 1 >= n), "cut elsewhere");
    }
    check(ok(e.pretty(Some(full.len())), "not rendered") == full, "cut");
    cover("rendered");
}
/// escapes inside a text: case = kind + 2 * (one character, \u and four, a pair of them)
#[no_mangle]
pub extern "C" fn h_c13_escape() {
    let i = case() as usize % 2;
    let d = "EIM66TjBMfwPnbwK7oZqbZyGz9nOeVmQHeH3NZxrsk8F";
    let x = match case() / 2 {
        0 => ascii(1, 0),
        1 => "u".to_string() + &ascii(4, 0),
        _ => {
            let c = bytes(2, 0);
            for b in &c {
                assume(matches!(*b, b'0'..=b'9' | b'a'..=b'f'));
            }
            format!("ud{}34\\ud{}fe", c[0] as char, c[1] as char)
        }
    };
    let raw = finish(IDENTS[i], &format!(r#""d":"{d}","x":"a\{x}""#));
    let good = serde_json::from_slice::<serde_json::Value>(&raw).is_ok();
    match Msg::raw(i, None, &raw) {
        Some(m) => {
            check(good, "malformed JSON accepted");
            fields(&m, &raw);
            whole(&m, i, "E", &raw, d);
            cover("accepted");
        }
        None => {
            check(!good, "a message refused");
            cover("refused");
        }
    }
}
