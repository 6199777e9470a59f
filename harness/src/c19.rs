use crate::sym::*;
use crate::tab::*;
use cesride::data::{dat, Value};
use cesride::{Bext, Matter, Pather, Saider, Serder};

fn ok<T>(r: cesride::Result<T>, m: &str) -> T {
    match r {
        Ok(v) => v,
        Err(_) => fail(m),
    }
}
fn string(t: Vec<u8>) -> String {
    unsafe { String::from_utf8_unchecked(t) }
}
/// the parts a pather exposes
fn parts(p: &Pather) -> Vec<String> {
    match ok(p.path(), "no path") {
        Value::Array(a) => a.iter().map(|e| ok(e.to_string(), "part is no string")).collect(),
        _ => fail("path is no list"),
    }
}
fn same(p: &Pather, want: &[String], w: &str) {
    let got = parts(p);
    check(got.len() == want.len(), w);
    for (a, b) in got.iter().zip(want) {
        check(eq(a.as_bytes(), b.as_bytes()), w);
    }
    let mut t = "-".to_string();
    for (i, s) in want.iter().enumerate() {
        if i > 0 {
            t.push('-');
        }
        t += s;
    }
    check(eq(ok(p.bext(), "no text").as_bytes(), t.as_bytes()), "text form");
}
fn list(v: &[String]) -> Value {
    Value::Array(v.iter().map(|s| Value::from(s.as_str())).collect())
}
fn pather(v: &[String]) -> Pather {
    ok(Pather::new_with_path(&list(v)), "path refused")
}
/// the same path from each of its forms
fn forms(p: &Pather, want: &[String]) {
    same(p, want, "parts");
    same(&ok(Pather::new_with_bext(&ok(p.bext(), "text")), "text refused"), want, "parts from text");
    let q = ok(p.qb64(), "qb64");
    same(&ok(Pather::new_with_qb64(&q), "text primitive refused"), want, "parts from primitive");
    same(&ok(Pather::new_with_qb64b(q.as_bytes()), "bytes primitive refused"), want, "parts from primitive");
    same(&ok(Pather::new_with_qb2(&ok(p.qb2(), "qb2")), "binary primitive refused"), want, "parts from binary");
    same(&ok(Pather::new_with_path(&ok(p.path(), "path")), "path refused"), want, "parts from path");
}
/// path from parts: case = number of parts; each of one or two characters or an integer of one byte
#[no_mangle]
pub extern "C" fn h_c19_parts() {
    let mut v = vec![];
    let mut l = vec![];
    for i in 0..case() as u32 {
        match choose(3, 30 + i) {
            2 => {
                let n = u8_(10 + i);
                assume(n < 100);
                let mut t = vec![];
                if n > 9 {
                    t.push(b'0' + n / 10);
                }
                t.push(b'0' + n % 10);
                v.push(string(t));
                l.push(Value::from(n));
            }
            k => {
                let t = ascii(1 + k as usize, 20 + i);
                l.push(Value::from(t.as_str()));
                v.push(t);
            }
        }
    }
    let mut good = true;
    for t in &v {
        for &c in t.as_bytes() {
            good &= (UNB64[c as usize] < 64) & (c != b'-');
        }
    }
    match Pather::new_with_path(&Value::Array(l)) {
        Ok(p) => {
            check(good, "path of other characters accepted");
            forms(&p, &v);
            cover("path");
        }
        Err(_) => {
            check(!good, "path refused");
            cover("refused");
        }
    }
}
/// path from text: any text of a given length
#[no_mangle]
pub extern "C" fn h_c19_text() {
    let t = ascii(case() as usize, 0);
    let mut good = true;
    for &c in t.as_bytes() {
        good &= UNB64[c as usize] < 64;
    }
    let p = match Pather::new_with_bext(&t) {
        Ok(p) => p,
        Err(_) => {
            check(!good, "text refused");
            cover("refused");
            return;
        }
    };
    check(good, "text of other characters accepted");
    // a text of whole quadlets that begins with "A" is not representable (see C08)
    if !t.is_empty() && t.as_bytes()[0] == b'-' {
        check(eq(ok(p.bext(), "text").as_bytes(), t.as_bytes()), "text changes");
        let mut v = vec![];
        let mut cur = vec![];
        for &c in &t.as_bytes()[1..] {
            if c == b'-' {
                v.push(string(std::mem::take(&mut cur)));
            } else {
                cur.push(c);
            }
        }
        v.push(string(cur));
        if t.len() == 1 {
            v.clear();
        }
        forms(&p, &v);
        cover("path");
    } else if t.len() % 4 > 0 || t.is_empty() || t.as_bytes()[0] != b'A' {
        check(p.path().is_err(), "text without leading separator is a path");
        cover("no path");
    }
}
fn tree(k: u64) -> Value {
    match k {
        0 => dat!({ "a": { "z": 10, "b": { "x": 11, "y": 12 } }, "c": [20, [21, 22], { "d": 23 }], "e": "leaf" }),
        1 => dat!([{ "a": 1, "b": [2] }, [3, 4], 5]),
        2 => dat!({ "x": [], "y": {}, "z": null }),
        3 => dat!({ "b": { "a": { "a": 1 }, "b": [7] }, "a": { "0": 5, "b": 6 } }),
        4 => dat!("text"),
        // keys that look like positions, and more than ten elements
        5 => dat!({ "01": 1, "00": [2, { "10": 3 }], "1": 4, "9": { "1": 5, "01": 6 }, "": 7 }),
        _ => dat!([0, 1, [10, { "0": 1 }], 3, 4, 5, 6, 7, 8, 9, { "10": 1, "a": 2 }, 11]),
    }
}
/// the element at the end of the parts
fn reference<'a>(v: &'a Value, p: &[String]) -> Option<&'a Value> {
    let t = match p.first() {
        None => return Some(v),
        Some(t) => t.as_bytes(),
    };
    let number = !t.is_empty() && t.iter().all(|c| c.is_ascii_digit());
    let n = t.iter().fold(0usize, |n, c| n * 10 + (*c & 15) as usize);
    let next = match v {
        Value::Object(o) if number => o.get_index(n).map(|e| e.1),
        Value::Object(_) if t.is_empty() => Some(v),
        Value::Object(o) => o.iter().find(|e| e.0.as_bytes() == t).map(|e| e.1),
        Value::Array(a) if number => a.get(n),
        _ => None,
    };
    reference(next?, &p[1..])
}
/// one part: any single character, a two-digit number, or nothing
fn part(id: u32) -> String {
    match choose(3, id) {
        0 => {
            let c = u8_(id + 50);
            assume((UNB64[c as usize] < 64) & (c != b'-'));
            let c = if c.is_ascii_digit() | ((c >= b'a') & (c <= b'f')) | (c >= b'x') { conc(c as u64) as u8 } else { c };
            string(vec![c])
        }
        1 => ["00", "01", "10", "99", "0a"][choose(5, id + 50) as usize].to_string(),
        _ => String::new(),
    }
}
/// any two characters
fn two(id: u32) -> String {
    let mut c = bytes(2, id);
    for c in &mut c {
        assume((UNB64[*c as usize] < 64) & (*c != b'-'));
        if c.is_ascii_digit() {
            *c = conc(*c as u64) as u8;
        }
    }
    string(c)
}
/// resolving: case = tree * 5 + number of parts, or 4 for one part of any two characters
#[no_mangle]
pub extern "C" fn h_c19_resolve() {
    let v = tree(case() / 5);
    let n = case() as usize % 5;
    let p: Vec<String> = if n == 4 { vec![two(0)] } else { (0..n).map(|i| part(i as u32)).collect() };
    if n == 1 && p[0].is_empty() {
        // the same text as no part at all
        return;
    }
    let x = pather(&p);
    match (x.resolve(&v), reference(&v, &p)) {
        (Ok(a), Some(b)) => {
            check(a == *b, "another element");
            cover("resolved");
        }
        (Err(_), None) => cover("no such element"),
        (Ok(_), None) => fail("resolves to an element that is not there"),
        (Err(_), Some(_)) => fail("does not resolve"),
    }
}
/// root and strip: case = number of parts * 4 + number of the other's parts
#[no_mangle]
pub extern "C" fn h_c19_views() {
    let mut id = 0;
    let mut get = |n: u64| -> Vec<String> {
        (0..n)
            .map(|_| {
                id += 1;
                ["a", "b", "ab"][choose(3, id) as usize].to_string()
            })
            .collect()
    };
    let a = get(case() / 4);
    let b = get(case() % 4);
    let (p, q) = (pather(&a), pather(&b));
    let both: Vec<String> = b.iter().chain(a.iter()).cloned().collect();
    let r = ok(p.root(&q), "rooting fails");
    forms(&r, &both);
    // what was rooted strips to what it was
    forms(&ok(r.strip(&q), "stripping fails"), &a);
    check(ok(r.starts_with(&q), "starts_with fails"), "does not start with its root");
    let s = ok(p.strip(&q), "stripping fails");
    if b.len() <= a.len() && a[..b.len()] == b[..] {
        same(&s, &a[b.len()..], "stripped");
        check(ok(p.starts_with(&q), "starts_with fails"), "does not start with its prefix");
        cover("stripped");
    } else {
        same(&s, &a, "nothing to strip");
        cover("unchanged");
    }
}
/// tails of an event
#[no_mangle]
pub extern "C" fn h_c19_tail() {
    let e = dat!({ "v": "KERI10JSON000000_", "d": "", "i": "ABCDEFG", "s": {}, "t": "rot", "x": 1, "l": ["a", { "b": "c" }] });
    let e = ok(Saider::saidify(&e, None, None, None, None), "saidify").1;
    let s = ok(Serder::new_with_ked(&e, None, None), "event");
    let p: Vec<String> = (0..1 + case()).map(|i| part(i as u32)).collect();
    if case() == 0 && p[0].is_empty() {
        return;
    }
    let x = pather(&p);
    let want = reference(&e, &p);
    match x.tail(&s) {
        Ok(t) => match want {
            Some(Value::String(w)) => {
                check(t == *w && Saider::new_with_qb64(w).is_ok(), "tail");
                cover("string");
            }
            Some(w @ (Value::Array(_) | Value::Object(_))) => {
                check(t == ok(w.to_json(), "JSON"), "tail");
                cover("structure");
            }
            _ => fail("tail of nothing"),
        },
        Err(_) => {
            match want {
                None | Some(Value::Number(_)) => (),
                Some(Value::String(w)) => check(Saider::new_with_qb64(w).is_err(), "no tail"),
                _ => fail("no tail"),
            }
            cover("none");
        }
    }
}
