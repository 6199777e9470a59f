use crate::sym::*;
use cesride::data::Value;
use serde_json::Value as J;

fn ok<T>(r: cesride::Result<T>, m: &str) -> T {
    match r {
        Ok(v) => v,
        Err(_) => fail(m),
    }
}
fn parse(t: &str) -> Option<J> {
    serde_json::from_str(t).ok()
}
/// rendering parses back to the same value, both for the library and for JSON
fn back(v: &Value, j: Option<&J>) {
    let t = ok(v.to_json(), "rendering fails");
    match parse(&t) {
        Some(k) => {
            check(Value::from(&k) == *v, "value changes on the way");
            if let Some(j) = j {
                check(k == *j, "JSON changes on the way");
            }
        }
        None => fail("rendering is no JSON"),
    }
    check(format!("{v}") == t, "displayed differently");
}
/// any JSON text of a given number of characters without fractions or exponents
#[no_mangle]
pub extern "C" fn h_c18_text() {
    let b = bytes(case() as usize, 0);
    for &c in &b {
        assume((c < 0x80) & (c != b'.') & (c != b'e') & (c != b'E') & (c >= 32));
    }
    let t = unsafe { String::from_utf8_unchecked(b) };
    if let Some(j) = parse(&t) {
        let v = Value::from(&j);
        back(&v, Some(&j));
        match (&j, &v) {
            (J::Null, Value::Null) => cover("null"),
            (J::Bool(b), _) => check(v.to_bool().ok() == Some(*b), "boolean"),
            (J::String(s), _) => check(matches!(v.to_string(), Ok(x) if x == *s), "string"),
            (J::Array(a), Value::Array(w)) => check(a.len() == w.len(), "array"),
            (J::Object(a), Value::Object(w)) => check(a.len() == w.len(), "object"),
            (J::Number(n), _) => check(n.as_i64().is_none() || v.to_i64().ok() == n.as_i64(), "number"),
            _ => fail("kind"),
        }
        cover("parsed");
    } else {
        cover("no JSON");
    }
}
/// any string of a given number of characters (case % 8 ASCII characters, case / 8: as
/// value, as key, next to a two-byte character)
#[no_mangle]
pub extern "C" fn h_c18_string() {
    let n = case() as usize % 8;
    let s = match case() / 8 {
        0 | 1 => ascii(n, 0),
        _ => {
            let a = ascii(n, 0);
            let u = arr::<2>(1);
            assume((u[0] >= 0xc2) & (u[0] <= 0xdf) & (u[1] & 0xc0 == 0x80));
            a + unsafe { std::str::from_utf8_unchecked(&u) }
        }
    };
    let v = if case() / 8 == 1 {
        let mut o = cesride::data::Object::new();
        o.insert(s.clone(), Value::Null);
        Value::Object(o)
    } else {
        Value::from(s.as_str())
    };
    let t = ok(v.to_json(), "rendering fails");
    match (parse(&t), case() / 8) {
        (Some(J::Object(o)), 1) => check(o.len() == 1 && o.contains_key(&s), "key"),
        (Some(J::String(x)), _) => check(eq(x.as_bytes(), s.as_bytes()), "string"),
        _ => fail("rendering is no JSON string"),
    }
    back(&v, None);
    cover("string");
}
/// integers, either sign: case 0..4: any of 4 * (case + 1) bits; 4..18: 8 free bits from
/// bit 4 * (case - 4) up, the others those of a fixed pattern; 18: within 255 of the extremes
#[no_mangle]
pub extern "C" fn h_c18_int() {
    let neg = choose(2, 1) == 1;
    let n = match case() {
        k @ 0..=3 => (u16_(0) as u64 & ((1u64 << (4 * (k + 1))) - 1)) as i64,
        k @ 4..=17 => {
            let s = 4 * (k - 4);
            ((0x5a5a5a5a5a5a5a5a & !(0xff << s)) | (u8_(0) as u64) << s) as i64 & i64::MAX
        }
        _ => i64::MAX - u8_(0) as i64,
    };
    let n = if neg { -n - (case() == 18) as i64 } else { n };
    let v = Value::from(n);
    check(v.to_i64().ok() == Some(n), "integer");
    let t = ok(v.to_json(), "rendering fails");
    match parse(&t) {
        Some(j) => {
            check(j.as_i64() == Some(n), "integer rendered wrongly");
            check(Value::from(&j) == v, "integer changes on the way");
            check(Value::from(&j).to_f64().is_err(), "integer becomes a float");
        }
        None => fail("rendering is no JSON"),
    }
    cover("integer");
}
const NUMS: [&str; 26] = [
    "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615", "18446744073709551616", "1e300",
    "-1e300", "1e-300", "0.1", "1.0", "-0", "-0.0", "1e2", "1E400", "5e-324", "1.7976931348623157e308", "123456789.125", "100000000000000000000",
    "-9223372036854775809", "1e15", "1e16", "1e17", "1e21", "3.14159e5", "0e0", "1.5e-7",
];
/// numbers beyond 64-bit integers, alone and inside
#[no_mangle]
pub extern "C" fn h_c18_float() {
    let s = NUMS[case() as usize % NUMS.len()];
    let t = match choose(3, 0) {
        0 => s.to_string(),
        1 => format!("[{s}]"),
        _ => format!("{{\"a\":{s}}}"),
    };
    if let Some(j) = parse(&t) {
        let v = Value::from(&j);
        let n = match &v {
            Value::Array(a) => &a[0],
            Value::Object(o) => &o[0],
            _ => &v,
        };
        let m = match &j {
            J::Array(a) => &a[0],
            J::Object(o) => &o["a"],
            _ => &j,
        };
        if let Some(i) = m.as_i64() {
            check(n.to_i64().ok() == Some(i), "integer");
        } else {
            check(n.to_f64().ok() == m.as_f64(), "float");
        }
        back(&v, if m.is_u64() && !m.is_i64() { None } else { Some(&j) });
        cover("number");
    } else {
        cover("no JSON");
    }
}
/// arbitrary values: up to two levels of arrays and objects of up to two elements
fn any(depth: u64, id: u32) -> (Value, J) {
    let k = choose(if depth == 0 { 5 } else { 11 }, id);
    match k {
        0 => (Value::Null, J::Null),
        1 => (Value::Boolean(false), J::from(false)),
        2 => (Value::Boolean(true), J::from(true)),
        3 => {
            let n = u8_(id + 100) as i8;
            (Value::from(n), J::from(n))
        }
        4 => {
            let s = ascii(1, id + 100);
            (Value::from(s.as_str()), J::from(s.as_str()))
        }
        5 | 6 | 7 => {
            let mut v = vec![];
            let mut j = vec![];
            for i in 0..k - 5 {
                let (x, y) = any(depth - 1, id * 2 + i as u32 + 1);
                v.push(x);
                j.push(y);
            }
            (Value::Array(v), J::Array(j))
        }
        _ => {
            let mut v = cesride::data::Object::new();
            let mut j = serde_json::Map::new();
            for i in 0..k - 8 {
                let (x, y) = any(depth - 1, id * 2 + i as u32 + 1);
                let key = ["z", "a"][i as usize];
                v.insert(key.to_string(), x);
                j.insert(key.to_string(), y);
            }
            (Value::Object(v), J::Object(j))
        }
    }
}
fn same(v: &Value, j: &J) -> bool {
    match (v, j) {
        (Value::Null, J::Null) => true,
        (Value::Boolean(a), J::Bool(b)) => a == b,
        (Value::Number(_), J::Number(b)) => v.to_i64().ok() == b.as_i64(),
        (Value::String(a), J::String(b)) => eq(a.as_bytes(), b.as_bytes()),
        (Value::Array(a), J::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)),
        (Value::Object(a), J::Object(b)) => a.len() == b.len() && a.iter().zip(b).all(|((k, x), (l, y))| k == l && same(x, y)),
        _ => false,
    }
}
#[no_mangle]
pub extern "C" fn h_c18_shape() {
    let (mut v, mut j) = any(1 + case() / 2, 1);
    if case() % 2 == 1 {
        v = Value::Array(vec![v, Value::Boolean(false)]);
        j = J::Array(vec![j, J::Bool(false)]);
    }
    check(same(&Value::from(&j), &j), "converted value");
    check(Value::from(&j) == v, "converted value");
    let t = ok(v.to_json(), "rendering fails");
    match parse(&t) {
        Some(k) => check(same(&v, &k), "value changes on the way"),
        None => fail("rendering is no JSON"),
    }
    cover("shape");
}
/// setting and reading entries: keys keep their places, a new one comes last
#[no_mangle]
pub extern "C" fn h_c18_set() {
    let keys = ["v", "d", "i"];
    let mut v = Value::Object(Default::default());
    let mut m: Vec<(String, i64)> = vec![];
    for r in 0..3 + case() as u32 {
        let k = match choose(4, r) {
            3 => "\"".to_string(),
            k => keys[k as usize].to_string(),
        };
        let n = u8_(20 + r) as i64;
        v[k.as_str()] = Value::from(n);
        match m.iter_mut().find(|e| e.0 == k) {
            Some(e) => e.1 = n,
            None => m.push((k, n)),
        }
    }
    let o = ok(v.to_map(), "map");
    check(o.len() == m.len(), "number of keys");
    for (i, (k, n)) in m.iter().enumerate() {
        check(v[i].to_i64().ok() == Some(*n) && v[k.as_str()].to_i64().ok() == Some(*n), "entry");
        check(o.get_index(i).map(|e| e.0 == k).unwrap_or(false), "order of keys");
    }
    let a = Value::Array(m.iter().map(|e| Value::from(e.1)).collect());
    for (i, e) in m.iter().enumerate() {
        check(a[i].to_i64().ok() == Some(e.1), "element");
    }
    back(&v, None);
    cover("set");
}
/// every integer type, and what each accessor says about each kind: case = kind of value
#[no_mangle]
pub extern "C" fn h_c18_from() {
    let n = u64_(0);
    let (v, want) = match case() {
        0 => (Value::from(n as i8), Some(n as i8 as i64)),
        1 => (Value::from(n as i16), Some(n as i16 as i64)),
        2 => (Value::from(n as i32), Some(n as i32 as i64)),
        3 => (Value::from(n as i64), Some(n as i64)),
        4 => (Value::from(n as u8), Some(n as u8 as i64)),
        5 => (Value::from(n as u16), Some(n as u16 as i64)),
        6 => (Value::from(n as u32), Some(n as u32 as i64)),
        7 => (Value::Null, None),
        8 => (Value::Boolean(n & 1 == 1), None),
        9 => (Value::from(ascii(2, 1).as_str()), None),
        10 => (Value::from(f64::from_bits(n)), None),
        11 => (Value::from(f32::from_bits(n as u32)), None),
        12 => (Value::from(&[Value::from(n as i64), Value::Null][..]), None),
        _ => {
            let mut h = std::collections::HashMap::new();
            h.insert("k".to_string(), Value::from(n as i64));
            (Value::from(&h), None)
        }
    };
    let k = case();
    check(v.to_i64().ok() == want, "integer");
    check(v.to_bool().ok() == if k == 8 { Some(n & 1 == 1) } else { None }, "boolean");
    check(v.to_string().is_ok() == (k == 9), "string");
    // as bit patterns: not-a-number has no place in JSON, so its bits are not compared
    let f = match k {
        10 => Some(f64::from_bits(n)),
        11 => Some(f32::from_bits(n as u32) as f64),
        _ => None,
    };
    check(v.to_f64().is_ok() == f.is_some(), "float");
    if let (Some(f), Ok(g)) = (f, v.to_f64()) {
        check((f.to_bits() == g.to_bits()) | (f.is_nan() & g.is_nan()), "float");
        check(matches!(f64::try_from(&v), Ok(g) if f.to_bits() == g.to_bits() || f.is_nan()), "float");
        check(matches!(i64::try_from(&v), Ok(i) if i == f as i64), "float as integer");
    }
    check(v.to_vec().is_ok() == (k == 12), "list");
    check(v.to_map().is_ok() == (k == 13), "map");
    if k < 7 {
        check(matches!(i64::try_from(&v), Ok(x) if Some(x) == want), "integer");
        check(matches!((f64::try_from(&v), want), (Ok(f), Some(x)) if f.to_bits() == (x as f64).to_bits()), "integer as float");
    } else {
        check(i64::try_from(&v).is_ok() == (k == 10 || k == 11), "integer");
    }
    check(bool::try_from(&v).ok() == v.to_bool().ok(), "boolean");
    check(String::try_from(&v).ok() == v.to_string().ok(), "string");
    check(Vec::<Value>::try_from(&v).ok() == v.to_vec().ok(), "list");
    if k >= 7 {
        check(f64::try_from(&v).is_ok() == (k == 10 || k == 11), "float");
    }
    match k {
        12 => check(matches!(v.to_vec(), Ok(a) if a.len() == 2 && a[0].to_i64().ok() == Some(n as i64) && a[1] == Value::Null), "elements"),
        13 => check(v["k"].to_i64().ok() == Some(n as i64) && v[0] == v["k"], "entry"),
        _ => (),
    }
    cover("asked");
}
/// a string with one character of three or four bytes: case = bytes - 3 + 2 * (value, key, in a list)
#[no_mangle]
pub extern "C" fn h_c18_wide() {
    let w = 3 + case() as usize % 2;
    let mut b = ascii(1, 0).into_bytes();
    let u = if case() / 2 == 1 {
        // keys are hashed
        let i = choose(3, 1) as usize;
        [["\u{800}", "\u{20ac}", "\u{fffd}"], ["\u{10000}", "\u{1f600}", "\u{10ffff}"]][w - 3][i].as_bytes().to_vec()
    } else {
        bytes(w, 1)
    };
    let mut c = (u[0] & if w == 3 { 15 } else { 7 }) as u32;
    for x in &u[1..] {
        assume(x & 0xc0 == 0x80);
        c = c << 6 | (x & 63) as u32;
    }
    assume(u[0] & if w == 3 { 0xf0 } else { 0xf8 } == if w == 3 { 0xe0 } else { 0xf0 });
    if w == 3 {
        assume((c >= 0x800) & !((c >= 0xd800) & (c < 0xe000)));
    } else {
        assume((c >= 0x10000) & (c < 0x110000));
    }
    b.extend_from_slice(&u);
    b.push(b'x');
    let s = unsafe { String::from_utf8_unchecked(b) };
    let v = match case() / 2 {
        0 => Value::from(s.as_str()),
        1 => {
            let mut o = cesride::data::Object::new();
            o.insert(s.clone(), Value::from(s.as_str()));
            Value::Object(o)
        }
        _ => Value::Array(vec![Value::from(s.as_str()), Value::from("")]),
    };
    match parse(&ok(v.to_json(), "rendering fails")) {
        Some(J::String(x)) => check(eq(x.as_bytes(), s.as_bytes()), "string"),
        Some(J::Object(o)) => check(matches!(o.get(&s), Some(J::String(x)) if *x == s), "key"),
        Some(J::Array(a)) => check(matches!(&a[0], J::String(x) if eq(x.as_bytes(), s.as_bytes())), "element"),
        _ => fail("another value"),
    }
    back(&v, None);
    cover("wide");
}
/// large values: case = kind * 3 + size
#[no_mangle]
pub extern "C" fn h_c18_large() {
    let n = [20usize, 100, 1000][case() as usize % 3];
    let x = u8_(0) as i64;
    let (s, b) = (ascii(1, 1), u8_(2) & 1 == 1);
    let leaf = || Value::Array(vec![Value::from(x), Value::from(s.as_str()), Value::Boolean(b), Value::Null]);
    let mut v = leaf();
    match case() / 3 {
        0 => {
            // deep (serde_json's own limit is 128)
            for k in 0..n.min(120) {
                v = if k % 2 == 0 {
                    Value::Array(vec![v])
                } else {
                    let mut o = cesride::data::Object::new();
                    o.insert("k".to_string(), v);
                    Value::Object(o)
                };
            }
        }
        1 => v = Value::Array((0..n).map(|k| if k % 7 == 3 { leaf() } else { Value::from(k as i64 - 3) }).collect()),
        2 => {
            // keys in no particular order
            let mut o = cesride::data::Object::new();
            for k in 0..n {
                o.insert(format!("k{}", k * 7919 % n), if k % 11 == 5 { leaf() } else { Value::from(k as i64) });
            }
            check(o.len() == n, "keys");
            v = Value::Object(o);
            let t = ok(v.to_json(), "rendering fails");
            match parse(&t) {
                Some(J::Object(j)) => {
                    for (k, e) in j.keys().enumerate() {
                        check(*e == format!("k{}", k * 7919 % n), "order of keys");
                    }
                    match Value::from(&J::Object(j)) {
                        Value::Object(o) => {
                            for (k, e) in o.keys().enumerate() {
                                check(*e == format!("k{}", k * 7919 % n), "order of keys");
                            }
                        }
                        _ => fail("kind"),
                    }
                }
                _ => fail("rendering is no JSON"),
            }
        }
        _ => {
            let t = long_plain(n, 3);
            v = Value::from(t.as_str());
            check(matches!(parse(&ok(v.to_json(), "rendering fails")), Some(J::String(x)) if eq(x.as_bytes(), t.as_bytes())), "string");
        }
    }
    back(&v, None);
    cover("large");
}
/// the same key more than once in JSON text: the last value at the first place
#[no_mangle]
pub extern "C" fn h_c18_twice() {
    let k = arr::<3>(0);
    for c in k {
        assume((c == b'a') | (c == b'b') | (c == b'c'));
    }
    let k = k.map(|c| conc(c as u64) as u8 as char);
    let t = format!("{{\"{}\":1,\"{}\":[true],\"{}\":\"x\"}}", k[0], k[1], k[2]);
    let j = match parse(&t) {
        Some(j) => j,
        None => fail("no JSON"),
    };
    let v = Value::from(&j);
    check(same(&v, &j), "converted value");
    back(&v, Some(&j));
    cover("twice");
}
