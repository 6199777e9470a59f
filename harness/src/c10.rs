use crate::sym::*;
use crate::tab::*;
use cesride::data::Value;
use cesride::{Bexter, Matter, Tholder};

fn s(t: &str) -> Value {
    Value::from(t)
}
fn string(t: Vec<u8>) -> String {
    unsafe { String::from_utf8_unchecked(t) }
}
fn again(t: &Tholder, r: cesride::Result<Tholder>, what: &str) {
    match r {
        Ok(u) => {
            check(u == *t, what);
            check(u.size() == t.size(), "size");
            check(u.weighted() == t.weighted(), "kind");
            for idx in [&[][..], &[0], &[1], &[0, 1], &[0, 1, 2]] {
                check(u.satisfy(idx).ok() == t.satisfy(idx).ok(), "satisfaction");
            }
        }
        Err(_) => fail(what),
    }
}
/// an accepted threshold converts to every form and back
fn forms(t: &Tholder) {
    again(t, Tholder::new_with_thold(&t.thold()), "threshold form");
    match t.sith() {
        Ok(v) => again(t, Tholder::new_with_sith(&v), "expression form"),
        Err(_) => fail("no expression form"),
    }
    match t.limen() {
        Ok(l) => {
            again(t, Tholder::new_with_limen(&l), "primitive form");
            let p = if t.weighted() { t.bexter().map(|b| b.qb64b()) } else { t.number().map(|n| n.qb64b()) };
            match p {
                Some(Ok(p)) => check(eq(&p, &l), "primitive"),
                _ => fail("no primitive"),
            }
            check(t.weighted() == t.number().is_none() && t.weighted() == t.bexter().is_some(), "kind of primitive");
        }
        Err(_) => fail("no primitive form"),
    }
    match t.to_json() {
        Ok(j) => match serde_json::from_str::<serde_json::Value>(&j) {
            Ok(v) => again(t, Tholder::new_with_sith(&Value::from(&v)), "JSON form"),
            Err(_) => fail("no JSON"),
        },
        Err(_) => fail("no JSON form"),
    }
    match t.num() {
        Ok(n) => check(n.is_some() != t.weighted(), "number"),
        Err(_) => fail("number"),
    }
    cover("converted");
}
/// any integer
#[no_mangle]
pub extern "C" fn h_c10_int() {
    let n = u64_(0) as i64;
    let v = Value::from(n);
    let r = if case() == 0 { Tholder::new_with_sith(&v) } else { Tholder::new_with_thold(&v) };
    let ok = (n >= 0) & (n <= u32::MAX as i64);
    match r {
        Ok(t) => {
            check(n >= 0, "negative threshold accepted");
            check(n != 0 || !t.satisfy(&[0, 1, 2]).unwrap_or(true), "zero threshold is satisfied");
            check(t.size() as i64 == n && !t.weighted(), "size");
            check(matches!(t.num(), Ok(Some(k)) if k as i64 == n), "number");
            match t.number() {
                Some(p) => check(matches!(p.num(), Ok(k) if k == n as u128), "primitive"),
                None => fail("no primitive"),
            }
            forms(&t);
        }
        Err(_) => {
            check(!ok, "integer threshold refused");
            cover("refused");
        }
    }
}
/// any text of a given length as hexadecimal number
#[no_mangle]
pub extern "C" fn h_c10_hex() {
    let t = ascii(case() as usize, 0);
    assume(t.is_empty() || t.as_bytes()[0] != b'[');
    const D: [u8; 256] = {
        let mut d = [255u8; 256];
        let mut i = 0;
        while i < 16 {
            d[b"0123456789abcdef"[i] as usize] = i as u8;
            d[b"0123456789ABCDEF"[i] as usize] = i as u8;
            i += 1;
        }
        d
    };
    let b = t.as_bytes();
    let signed = !b.is_empty() && (b[0] == b'+' || b[0] == b'-');
    let mut bad = b.is_empty();
    let mut n = 0u64;
    for (i, &c) in b.iter().enumerate() {
        let c = D[c as usize];
        bad |= c > 15;
        if i + 8 < b.len() {
            bad |= c != 0;
        }
        n = n << 4 | (c & 15) as u64;
    }
    match Tholder::new_with_sith(&s(&t)) {
        Ok(h) => {
            if !signed {
                check(!bad, "malformed number accepted");
                check(h.size() as u64 == n, "size");
                forms(&h);
            }
        }
        Err(_) => {
            if !signed {
                check(bad, "number refused");
            }
            cover("refused");
        }
    }
}
/// any text as a weight next to a weight of one
#[no_mangle]
pub extern "C" fn h_c10_weight() {
    let mut b = bytes(case() as usize, 0);
    // one path per digit, every other character at once
    for c in b.iter_mut() {
        assume(*c < 0x80);
        if c.is_ascii_digit() || *c == b'/' {
            *c = conc(*c as u64) as u8;
        }
    }
    let mut parts = vec![];
    let (mut v, mut l, mut good, mut signed) = (0u64, 0, true, false);
    for &c in &b {
        if c == b'/' {
            parts.push((v, l));
            v = 0;
            l = 0;
        } else if c.is_ascii_digit() {
            v = v * 10 + (c - b'0') as u64;
            l += 1;
        } else {
            good = false;
            signed |= c == b'-' || c == b'+';
        }
    }
    parts.push((v, l));
    let good = good
        && match parts.len() {
            1 => b.len() == 1 && (b[0] == b'0' || b[0] == b'1'),
            2 => parts[0].1 > 0 && parts[1].1 > 0 && parts[1].0 > 0 && parts[0].0 <= parts[1].0,
            _ => false,
        };
    let t = string(b);
    let v = Value::Array(vec![s(&t), s("1")]);
    match Tholder::new_with_sith(&v) {
        Ok(h) => {
            check(good || signed, "malformed weight accepted");
            check(h.size() == 2 && h.weighted(), "size");
            if good && t.len() > 1 {
                let (n, d) = (parts[0].0, parts[1].0);
                let (mut x, mut y) = (n, d);
                while y != 0 {
                    (x, y) = (y, x % y);
                }
                let e = if n == 0 {
                    "0".to_string()
                } else if n == d {
                    "1".to_string()
                } else {
                    format!("{}/{}", n / x, d / x)
                };
                check(h.thold() == Value::Array(vec![Value::Array(vec![s(&e), s("1")])]), "weight value");
            }
            if good {
                forms(&h);
            }
        }
        Err(_) => {
            check(!good, "weight refused");
            cover("refused");
        }
    }
    // the same through the other forms
    check(Tholder::new_with_thold(&Value::Array(vec![v])).is_ok() || !good, "threshold form refused");
}
/// kinds of a part of an expression
fn part(k: u64, depth: u32) -> (Value, Kind) {
    match k {
        0 => (s("1"), Kind::Weight(2)),
        1 => (s("1/2"), Kind::Weight(1)),
        2 => (s("0"), Kind::Weight(0)),
        3 => (Value::Null, Kind::Bad),
        4 => (Value::Boolean(true), Kind::Bad),
        5 => (Value::from(1), Kind::Bad),
        6 => (Value::from(0.5), Kind::Bad),
        7 => (Value::Object(Default::default()), Kind::Bad),
        8 => (s(""), Kind::Bad),
        9 => (Value::Array(vec![]), Kind::Clause(vec![])),
        _ => {
            // an array of one or two parts
            let n = k - 9;
            let mut v = vec![];
            let mut c = vec![];
            for i in 0..n {
                let (x, y) = part(choose(if depth == 0 { 12 } else { 10 }, 20 + 2 * depth + i as u32), depth + 1);
                v.push(x);
                c.push(y);
            }
            (Value::Array(v), Kind::Clause(c))
        }
    }
}
enum Kind {
    Weight(u32),
    Bad,
    Clause(Vec<Kind>),
}
fn clause(c: &[Kind]) -> Option<bool> {
    let mut n = 0;
    for k in c {
        match k {
            Kind::Weight(w) => n += w,
            _ => return None,
        }
    }
    Some(n >= 2)
}
/// any expression of up to two levels with up to two parts each:
/// accepted exactly if it is a clause or a list of clauses, all reaching one
#[no_mangle]
pub extern "C" fn h_c10_shape() {
    let (v, k) = part(case() % 3 + 9, 0);
    let c = match k {
        Kind::Clause(c) => c,
        _ => return,
    };
    let flat = !c.is_empty() && clause(&c) == Some(true);
    let nested = !c.is_empty() && c.iter().all(|k| matches!(k, Kind::Clause(c) if clause(c) == Some(true)));
    let (r, want) = match case() / 3 {
        0 => (Tholder::new_with_sith(&v), flat || nested),
        1 => (Tholder::new_with_thold(&v), nested),
        _ => match v.to_json() {
            Ok(j) => (Tholder::new_with_sith(&s(&j)), flat || nested),
            Err(_) => fail("no JSON"),
        },
    };
    match r {
        Ok(t) => {
            check(want, "ill-formed threshold accepted");
            forms(&t);
        }
        Err(_) => {
            check(!want, "threshold refused");
            cover("refused");
        }
    }
}
/// short byte strings as primitive form
#[no_mangle]
pub extern "C" fn h_c10_limen_short() {
    let b = bytes(case() as usize, 0);
    match Tholder::new_with_limen(&b) {
        Ok(t) => forms(&t),
        Err(_) => cover("refused"),
    }
}
/// any number primitive, text or with trailing characters
#[no_mangle]
pub extern "C" fn h_c10_limen_num() {
    let (code, size) = [("M", 2), ("0H", 4), ("N", 8), ("0A", 16)][case() as usize % 4];
    let raw = bytes(size, 0);
    let mut b = vec![0u8; (3 - size % 3) % 3];
    b.extend_from_slice(&raw);
    let mut t = code.as_bytes().to_vec();
    t.extend_from_slice(&enc(&b)[code.len() % 4..]);
    let n = raw.iter().fold(0u128, |a, &x| a << 8 | x as u128);
    match Tholder::new_with_limen(&t) {
        Ok(h) => {
            check(n <= u32::MAX as u128 && h.size() as u128 == n && !h.weighted(), "size");
            forms(&h);
        }
        Err(_) => {
            check(n > u32::MAX as u128, "number refused");
            cover("refused");
        }
    }
}
/// any text primitive of one or two quadlets of weights: refused or converted
#[no_mangle]
pub extern "C" fn h_c10_limen_text() {
    let q = case() as usize / 3 + 1;
    let c = case() as usize % 3;
    let mut t = ["4A", "5A", "6A"][c].as_bytes().to_vec();
    t.extend_from_slice(&int64(q as u64, 2));
    let mut x = bytes(4 * q, 0);
    // what a bext of this code begins with
    for (i, b) in x.iter_mut().enumerate() {
        if i < [0, 2, 3][c] {
            *b = b'A';
        }
        assume(UNB64[*b as usize] < 64);
        if b.is_ascii_digit() || (*b == b'a') | (*b == b'c') | (*b == b's') {
            *b = conc(*b as u64) as u8;
        }
    }
    t.extend_from_slice(&x);
    match Tholder::new_with_limen(&t) {
        Ok(h) => {
            check(h.weighted(), "kind");
            // value: parse the text as clauses of weights
            forms(&h);
        }
        Err(_) => cover("refused"),
    }
}
/// large thresholds and those with large numbers: case < 7: those of C09
#[no_mangle]
pub extern "C" fn h_c10_large() {
    let w = match case() {
        k @ 0..=6 => crate::c09::large(k),
        7 => vec![vec!["1/3300".to_string(); 3300]],
        8 => vec![vec!["1".to_string(); 9000]],
        _ => (0..300).map(|k| vec!["1".to_string(), format!("{}/997", k + 1)]).collect(),
    };
    let n: usize = w.iter().map(|c| c.len()).sum();
    let t = match Tholder::new_with_sith(&crate::c09::value(&w)) {
        Ok(t) => t,
        Err(_) => fail("threshold refused"),
    };
    check(t.size() as usize == n && t.weighted(), "size");
    check(t.thold() == crate::c09::value(&w), "threshold");
    forms(&t);
    let all: Vec<u32> = (0..n as u32).collect();
    match t.limen().and_then(|l| Tholder::new_with_limen(&l)) {
        Ok(u) => check(matches!(u.satisfy(&all), Ok(true)), "satisfaction"),
        Err(_) => fail("primitive form"),
    }
    cover("large");
}
/// numerator and denominator around 2^31, 2^32 and 2^63, the last digit of each any:
/// refused or the very number.  case = numerator + 5 * denominator
#[no_mangle]
pub extern "C" fn h_c10_digits() {
    const N: [&str; 5] = ["214748364", "429496729", "922337203685477580", "1844674407370955161", ""];
    let d = arr::<2>(0);
    for c in d {
        assume(c.is_ascii_digit());
    }
    let d = d.map(|c| conc(c as u64) as u8 as char);
    let (a, b) = (format!("{}{}", N[case() as usize % 5], d[0]), format!("{}{}", N[case() as usize / 5], d[1]));
    let v = Value::Array(vec![s(&format!("{a}/{b}")), s("1")]);
    let (x, y) = (a.parse::<u128>().unwrap_or(0), b.parse::<u128>().unwrap_or(0));
    let good = (y > 0) & (x <= y);
    match Tholder::new_with_sith(&v) {
        Ok(t) => {
            check(good, "ill-formed weight accepted");
            check(t.size() == 2 && t.weighted(), "size");
            check(matches!(t.satisfy(&[0]), Ok(r) if r == (x == y)), "weight value");
            let (mut p, mut q) = (x, y);
            while q != 0 {
                (p, q) = (q, p % q);
            }
            let e = if x == 0 || x == y { format!("{}", x / y) } else { format!("{}/{}", x / p, y / p) };
            check(t.thold() == Value::Array(vec![Value::Array(vec![s(&e), s("1")])]), "weight value");
            forms(&t);
        }
        Err(_) => {
            check(!good || y > i32::MAX as u128, "weight refused");
            cover("refused");
        }
    }
}
/// several clauses, each reaching one or not: case = clauses (1..8) + 8 * form; up to four
/// clauses of any kind, with more all but one reach one
#[no_mangle]
pub extern "C" fn h_c10_clauses() {
    let n = case() as usize % 8;
    let clause = |k: u64| -> Vec<Value> {
        match k {
            0 => vec![s("1")],
            1 => vec![s("1/3"), s("2/3")],
            2 => vec![s("3/4")],
            3 => vec![s("1/2"), s("1/3"), s("0"), s("1/7")],
            _ => vec![s("1/5"), s("1/5"), s("1/5"), s("1/5"), s("1/5")],
        }
    };
    let kinds: Vec<u64> = if n <= 4 {
        (0..n as u32).map(|i| choose(4, 30 + i)).collect()
    } else {
        let (p, k) = (choose(n as u64, 30) as usize, choose(5, 31));
        (0..n).map(|i| if i == p { k } else { [0, 4, 1][i % 3] }).collect()
    };
    let good = n > 0 && kinds.iter().all(|k| ![2, 3].contains(k));
    let v = Value::Array(kinds.iter().map(|k| Value::Array(clause(*k))).collect());
    let r = match case() / 8 {
        0 => Tholder::new_with_sith(&v),
        1 => Tholder::new_with_thold(&v),
        2 => match v.to_json() {
            Ok(j) => Tholder::new_with_sith(&s(&j)),
            Err(_) => fail("no JSON"),
        },
        _ => {
            let t: Vec<String> = kinds
                .iter()
                .map(|k| clause(*k).iter().map(|w| w.to_string().unwrap_or_default().replace('/', "s")).collect::<Vec<_>>().join("c"))
                .collect();
            match Bexter::new_with_bext(&t.join("a")).and_then(|b| b.qb64b()) {
                Ok(l) => Tholder::new_with_limen(&l),
                Err(_) => fail("no primitive"),
            }
        }
    };
    match r {
        Ok(t) => {
            check(good, "clause that cannot reach one accepted");
            check(t.size() as usize == kinds.iter().map(|k| clause(*k).len()).sum::<usize>(), "size");
            forms(&t);
        }
        Err(_) => {
            check(!good, "threshold refused");
            cover("refused");
        }
    }
}
