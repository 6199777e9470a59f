use crate::sym::*;
use cesride::data::Value;
use cesride::Tholder;

fn s(t: &str) -> Value {
    Value::from(t)
}
fn arr_(v: Vec<Value>) -> Value {
    Value::Array(v)
}
fn sat(t: &cesride::Result<Tholder>, idx: &[u32]) -> bool {
    match t {
        Ok(t) => match t.satisfy(idx) {
            Ok(b) => b,
            Err(_) => fail("satisfy fails"),
        },
        Err(_) => fail("threshold refused"),
    }
}
/// the number of distinct values in a list
fn distinct(idx: &[u32]) -> u64 {
    let mut n = 0;
    for i in 0..idx.len() {
        let mut new = true;
        for j in 0..i {
            new &= idx[j] != idx[i];
        }
        n += new as u64;
    }
    n
}
/// numeric threshold: any number, any index list of a given length
#[no_mangle]
pub extern "C" fn h_c09_numeric() {
    let l = case() as usize % 8;
    let n = u32_(0);
    let t = match case() / 8 {
        0 => Tholder::new_with_sith(&Value::from(n)),
        1 => Tholder::new_with_thold(&Value::from(n)),
        _ => {
            assume(n < 16);
            let n = conc(n as u64) as u32;
            let h = ["0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f"][n as usize];
            Tholder::new_with_sith(&s(h))
        }
    };
    let idx: Vec<u32> = (0..l).map(|i| u32_(1 + i as u32)).collect();
    let want = (n > 0) & (distinct(&idx) >= n as u64);
    let got = sat(&t, &idx);
    check(got == want, "numeric threshold");
    if got {
        cover("reached");
    } else {
        cover("not reached");
    }
}
/// weights as (numerator, denominator), clause lengths
type W = &'static [&'static [(u64, u64)]];
const TH: [W; 14] = [
    &[&[(1, 2), (1, 2)]],
    &[&[(1, 2), (1, 2), (1, 4), (1, 4), (1, 4)]],
    &[&[(1, 2), (1, 2), (1, 4)], &[(1, 1), (1, 1)]],
    &[&[(1, 3), (1, 3), (1, 3)]],
    &[&[(1, 1)], &[(1, 1)]],
    &[&[(0, 1), (1, 1), (1, 2), (1, 2)]],
    &[&[(1, 2), (1, 2)], &[(1, 3), (2, 3)], &[(1, 1)]],
    &[&[(1, 7), (2, 7), (3, 7), (1, 7)]],
    &[&[(46340, 46341), (1, 46341), (1, 46339), (46338, 46339)]],
    &[&[(1, 2147483647), (2147483646, 2147483647), (1, 2147483629)]],
    &[&[(2, 3), (1, 2), (1, 5)], &[(3, 4), (1, 4)]],
    &[&[(1, 6), (1, 10), (11, 15)]],
    &[&[(1, 1), (0, 1)], &[(0, 1), (1, 1)]],
    &[&[(1, 2), (3, 8), (1, 8), (1, 16), (1, 16)]],
];
fn text(w: (u64, u64)) -> String {
    if w.1 == 1 {
        format!("{}", w.0)
    } else {
        format!("{}/{}", w.0, w.1)
    }
}
/// whether the members reach every clause, exactly; `m[i]` is 0 or 1
fn reached(w: W, m: &[u64]) -> bool {
    let mut k = 0;
    let mut ok = true;
    for c in w {
        let mut lcm = 1u128;
        for &(_, d) in c.iter() {
            let (mut a, mut b) = (lcm, d as u128);
            while b != 0 {
                (a, b) = (b, a % b);
            }
            lcm = lcm / a * d as u128;
        }
        let mut sum = 0u128;
        for &(n, d) in c.iter() {
            sum += m[k] as u128 * (n as u128 * (lcm / d as u128));
            k += 1;
        }
        ok &= sum >= lcm;
    }
    ok
}
fn tholder(w: W, how: u64) -> cesride::Result<Tholder> {
    let clauses: Vec<Value> = w.iter().map(|c| arr_(c.iter().map(|&w| s(&text(w))).collect())).collect();
    let v = arr_(clauses);
    match how {
        0 => Tholder::new_with_sith(&v),
        1 => Tholder::new_with_thold(&v),
        2 => {
            // one clause needs no nesting
            if w.len() == 1 {
                Tholder::new_with_sith(&v[0])
            } else {
                Tholder::new_with_sith(&s(&v.to_json()?))
            }
        }
        _ => Tholder::new_with_limen(&Tholder::new_with_thold(&v)?.limen()?),
    }
}
/// weighted threshold: case = (threshold * 4 + form) * 8 + list length; any indices
#[no_mangle]
pub extern "C" fn h_c09_weighted() {
    let l = case() as usize % 8;
    let w = TH[case() as usize / 32];
    let t = tholder(w, case() / 8 % 4);
    let n: usize = w.iter().map(|c| c.len()).sum();
    let idx: Vec<u32> = (0..l).map(|i| u32_(1 + i as u32)).collect();
    let mut m = vec![];
    for k in 0..n {
        let mut b = false;
        for &i in &idx {
            b |= i == k as u32;
        }
        m.push(b as u64);
    }
    let want = reached(w, &m);
    let got = sat(&t, &idx);
    check(got == want, "weighted threshold");
    if got {
        cover("reached");
    } else {
        cover("not reached");
    }
}
/// weighted threshold, every member present or absent in any combination,
/// with a repeated index and one beyond the end
#[no_mangle]
pub extern "C" fn h_c09_subset() {
    let w = TH[case() as usize / 4];
    let t = tholder(w, case() % 4);
    let n: usize = w.iter().map(|c| c.len()).sum();
    let mask = u8_(0);
    assume((mask as u64) < 1 << n);
    let mut idx = vec![];
    let mut m = vec![0; n];
    for k in (0..n).rev() {
        if mask >> k & 1 == 1 {
            idx.push(k as u32);
            m[k] = 1;
        }
    }
    if u8_(1) & 1 == 1 {
        if let Some(&f) = idx.first() {
            idx.push(f);
        }
        idx.push(n as u32);
        idx.push(u32_(2) | 64);
    }
    let got = sat(&t, &idx);
    check(got == reached(w, &m), "weighted threshold");
    if got {
        cover("reached");
    } else {
        cover("not reached");
    }
}
/// weights of one digit over one digit, all of them: one clause of
/// case % 4 + 1 such weights followed by 1 (never listed), every subset
#[no_mangle]
pub extern "C" fn h_c09_weights() {
    let k = case() as usize + 1;
    let mut v = vec![];
    let (mut sum, mut idx) = (0u64, vec![]);
    for i in 0..k {
        let d = arr::<2>(i as u32);
        assume((d[0] >= b'0') & (d[0] <= d[1]) & (d[1] >= b'1') & (d[1] <= b'9'));
        let d = [conc(d[0] as u64) as u8, conc(d[1] as u64) as u8];
        v.push(Value::String(unsafe { String::from_utf8_unchecked(vec![d[0], b'/', d[1]]) }));
        if choose(2, 10 + i as u32) == 1 {
            idx.push(i as u32);
            const Q: [u64; 10] = [0, 2520, 1260, 840, 630, 504, 420, 360, 315, 280];
            sum += (d[0] - b'0') as u64 * Q[(d[1] - b'0') as usize];
        }
    }
    v.push(s("1"));
    let got = sat(&Tholder::new_with_sith(&arr_(v)), &idx);
    check(got == (sum >= 2520), "sum of weights");
    if got {
        cover("reached");
    } else {
        cover("not reached");
    }
}
/// large thresholds of which every member is needed, one of them replaced by any index
pub fn large(k: u64) -> Vec<Vec<String>> {
    let w = |n: usize, t: &str| vec![t.to_string(); n];
    match k {
        0 => vec![w(70, "1/70")],
        1 => vec![w(300, "1/300")],
        2 => (0..40).map(|_| w(2, "1/2")).collect(),
        3 => (0..70).map(|_| w(1, "1")).collect(),
        4 => (2..14).map(|n| w(n, &format!("1/{n}"))).collect(),
        5 => vec![w(255, "1/255"), w(1, "1"), w(2, "1/2")],
        _ => vec![w(65, "1/65"), w(65, "1/65"), vec!["1/2".into(), "1/4".into(), "1/8".into(), "1/16".into(), "1/32".into(), "1/32".into()]],
    }
}
pub fn value(t: &[Vec<String>]) -> Value {
    arr_(t.iter().map(|c| arr_(c.iter().map(|w| s(w)).collect())).collect())
}
/// case = threshold * 5 + place of the replaced member
#[no_mangle]
pub extern "C" fn h_c09_large() {
    let w = large(case() / 5);
    let n: usize = w.iter().map(|c| c.len()).sum();
    let p = [0, 1, 64, n / 2, n - 1][case() as usize % 5];
    let t = Tholder::new_with_sith(&value(&w));
    match &t {
        Ok(t) => check(t.size() as usize == n && t.weighted(), "size"),
        Err(_) => fail("threshold refused"),
    }
    let x = u32_(0);
    let mut idx: Vec<u32> = (0..n as u32).collect();
    check(sat(&t, &idx), "all members");
    idx.reverse();
    check(sat(&t, &idx), "all members");
    idx.extend([0, n as u32, u32::MAX]);
    check(sat(&t, &idx), "all members and others");
    let mut idx: Vec<u32> = (0..n as u32).collect();
    idx.remove(p);
    check(!sat(&t, &idx), "one member missing");
    idx.push(x);
    check(sat(&t, &idx) == (x as usize == p), "one member replaced");
    cover("asked");
}
/// large numeric thresholds: case = number * 3 + place of any index
#[no_mangle]
pub extern "C" fn h_c09_many() {
    let n = [21u32, 27, 33][case() as usize / 3];
    let p = [0, n / 2, n - 1][case() as usize % 3];
    let t = Tholder::new_with_sith(&s(&format!("{n:x}")));
    let x = u32_(0);
    let mut idx: Vec<u32> = (0..n).filter(|k| *k != p).map(|k| k * 3).collect();
    check(!sat(&t, &idx), "one too few");
    idx.insert(0, x);
    let mut new = true;
    for k in &idx[1..] {
        new &= x != *k;
    }
    check(sat(&t, &idx) == new, "numeric threshold");
    cover("asked");
}
