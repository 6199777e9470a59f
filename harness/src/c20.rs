use crate::c12::{json, obj, version};
use crate::sym::*;
use crate::tab;
use cesride::data::Value;
use cesride::*;
use cesride_wasm as w;
use js_sys::Array;
use w::{ValueWrapper, Wrap};
use wasm_bindgen::JsValue;

/// argument number k, given or not as the case says
fn arg<T>(k: u32, x: T) -> Option<T> {
    if case() >> k & 1 == 1 {
        Some(x)
    } else {
        None
    }
}
fn ok<T>(r: cesride::Result<T>, m: &str) -> T {
    match r {
        Ok(v) => v,
        Err(_) => fail(m),
    }
}
/// what the binding returns is what the native operation returns; failures are errors
fn same<A, B>(a: w_result<A>, b: cesride::Result<B>, f: impl Fn(&A, &B) -> bool) {
    match (a, b) {
        (Ok(a), Ok(b)) => {
            check(f(&a, &b), "another result");
            cover("same");
        }
        (Err(JsValue::Error(_)), Err(_)) => cover("error"),
        (Err(_), Err(_)) => fail("not an error"),
        (Ok(_), Err(_)) => fail("a result instead of an error"),
        (Err(_), Ok(_)) => fail("an error instead of a result"),
    }
}
#[allow(non_camel_case_types)]
type w_result<T> = core::result::Result<T, JsValue>;
fn text(a: &String, b: &String) -> bool {
    eq(a.as_bytes(), b.as_bytes())
}
fn octets(a: &Vec<u8>, b: &Vec<u8>) -> bool {
    eq(a, b)
}
fn plain<T: PartialEq>(a: &T, b: &T) -> bool {
    a == b
}
/// the operations all primitives share
macro_rules! matter {
    ($w:expr) => {{
        let (w, n) = (&$w, &*$w);
        check(text(&w.code(), &Matter::code(n)), "code");
        check(w.size() == Matter::size(n), "size");
        check(octets(&w.raw(), &Matter::raw(n)), "raw");
        same(w.qb64(), Matter::qb64(n), text);
        same(w.qb64b(), Matter::qb64b(n), octets);
        same(w.qb2(), Matter::qb2(n), octets);
    }};
}
/// a wrapper holds the native value
macro_rules! holds {
    () => {
        |a, b| **a == *b
    };
}
/// a value of the code whose last bytes are any: its bytes, text and binary form
struct Any {
    raw: Vec<u8>,
    qb64: String,
    qb2: Vec<u8>,
}
fn any(code: &str, seed: u8, id: u32) -> Any {
    let c = tab::any_code(code).unwrap();
    let mut raw: Vec<u8> = (0..c.raw()).map(|k| seed.wrapping_add(3 * k as u8)).collect();
    let n = raw.len().min(4);
    let x = bytes(n, id);
    let at = raw.len() - n;
    raw[at..].copy_from_slice(&x);
    let t = tab::fixed_qb64(c, &raw);
    let (qb2, _) = tab::dec(&t);
    Any { raw, qb64: String::from_utf8(t).unwrap(), qb2 }
}
/// four values of one code for the four ways to state a primitive; bit 5 of the case: another
/// code, bit 6: bytes and texts that are none
fn four(code: &str) -> (String, Any, Any, Any, Any) {
    let (mut a, mut b, mut c, mut d) = (any(code, 1, 100), any(code, 51, 101), any(code, 101, 102), any(code, 151, 103));
    if case() >> 6 & 1 == 1 {
        a.raw.truncate(3);
        b.qb64.truncate(9);
        c.qb64.truncate(9);
        d.qb2.truncate(5);
    }
    (if case() >> 5 & 1 == 1 { "1AAC".to_string() } else { code.to_string() }, a, b, c, d)
}
/// the value reads as JSON to what it is
fn value(v: &ValueWrapper, n: &Value) -> bool {
    matches!(n.to_json(), Ok(j) if eq(j.as_bytes(), v.value().as_bytes()))
}
fn wrap(v: &Value) -> ValueWrapper {
    ValueWrapper::new(std::str::from_utf8(&json(v)).unwrap())
}
fn names(v: &[&str]) -> Array {
    let a = Array::new();
    for s in v {
        a.push(&JsValue::from_str(s));
    }
    a
}

/// every 128-bit integer passes both ways, through the binding's type and through numbers
#[no_mangle]
pub extern "C" fn h_c20_u128() {
    let x = u128_(0);
    check(u128::from(w::U128Wrapper::from(x)) == x, "another integer");
    if case() == 0 {
        let a = w::NumberWrapper::new_with_num(x.into());
        same(a, Number::new_with_num(x), holds!());
        same(w::NumberWrapper::new(Some(x.into()), None, None, None, None, None, None), Number::new(Some(x), None, None, None, None, None, None), holds!());
        if let Ok(a) = w::NumberWrapper::new_with_num(x.into()) {
            same(a.num().map(u128::from), Ok(x), plain);
            same(a.numh(), (*a).numh(), text);
            matter!(a);
        }
    } else {
        same(w::SeqnerWrapper::new_with_sn(x.into()), Seqner::new_with_sn(x), holds!());
        same(w::SeqnerWrapper::new(Some(x.into()), None, None, None, None, None, None), Seqner::new(Some(x), None, None, None, None, None, None), holds!());
        if let Ok(a) = w::SeqnerWrapper::new_with_sn(x.into()) {
            same(a.sn().map(u128::from), Ok(x), plain);
            same(a.snh(), (*a).snh(), text);
            matter!(a);
        }
    }
}
macro_rules! numbers {
    ($f:ident, $W:ident, $N:ident, $withh:ident, $get:ident, $geth:ident, $code:expr) => {
        #[no_mangle]
        pub extern "C" fn $f() {
            let (code, a, b, c, d) = four($code);
            let h = ["1f", "0", "-1"][case() as usize >> 8];
            let (numh, code, raw) = (arg(7, h.to_string()), arg(0, code), arg(1, a.raw));
            let (qb64b, qb64, qb2) = (arg(2, b.qb64.into_bytes()), arg(3, c.qb64), arg(4, d.qb2));
            let r = w::$W::new(None, numh.clone(), code.clone(), raw.clone(), qb64b.clone(), qb64.clone(), qb2.clone());
            if let Ok(x) = &r {
                same(x.$get().map(u128::from), (**x).$get(), plain);
                same(x.$geth(), (**x).$geth(), text);
                check(*<w::$W as Wrap<$N>>::wrap(&**x) == **x, "wrap");
            }
            same(r, $N::new(None, numh.as_deref(), code.as_deref(), raw.as_deref(), qb64b.as_deref(), qb64.as_deref(), qb2.as_deref()), holds!());
            match case() & 0x9f {
                0x80 => same(w::$W::$withh(h), $N::$withh(h), holds!()),
                3 => same(w::$W::new_with_raw(&raw.clone().unwrap(), code.clone()), $N::new_with_raw(&raw.unwrap(), code.as_deref()), holds!()),
                2 => same(w::$W::new_with_raw(&raw.clone().unwrap(), None), $N::new_with_raw(&raw.unwrap(), None), holds!()),
                4 => same(w::$W::new_with_qb64b(&qb64b.clone().unwrap()), $N::new_with_qb64b(&qb64b.unwrap()), holds!()),
                8 => same(w::$W::new_with_qb64(&qb64.clone().unwrap()), $N::new_with_qb64(&qb64.unwrap()), holds!()),
                16 => same(w::$W::new_with_qb2(&qb2.clone().unwrap()), $N::new_with_qb2(&qb2.unwrap()), holds!()),
                _ => {}
            }
            cover("compared");
        }
    };
}
numbers!(h_c20_number, NumberWrapper, Number, new_with_numh, num, numh, "0H");
numbers!(h_c20_seqner, SeqnerWrapper, Seqner, new_with_snh, sn, snh, "0A");

#[no_mangle]
pub extern "C" fn h_c20_verfer() {
    let (code, a, b, c, d) = four(["D", "1AAJ"][case() as usize >> 7]);
    let (code, raw) = (arg(0, code), arg(1, a.raw));
    let (qb64b, qb64, qb2) = (arg(2, b.qb64.into_bytes()), arg(3, c.qb64), arg(4, d.qb2));
    let r = w::VerferWrapper::new(code.clone(), raw.clone(), qb64b.clone(), qb64.clone(), qb2.clone());
    if let Ok(x) = &r {
        matter!(*x);
        check(*w::VerferWrapper::wrap(&**x) == **x, "wrap");
        let (s, m) = (bytes(64, 1), bytes(2, 2));
        same(x.verify(&s, &m), (**x).verify(&s, &m), plain);
        same(x.verify(&s[..9], &m), (**x).verify(&s[..9], &m), plain);
    }
    same(r, Verfer::new(code.as_deref(), raw.as_deref(), qb64b.as_deref(), qb64.as_deref(), qb2.as_deref()), holds!());
    match case() & 0x1f {
        3 => same(w::VerferWrapper::new_with_raw(&raw.clone().unwrap(), code.clone()), Verfer::new_with_raw(&raw.unwrap(), code.as_deref()), holds!()),
        2 => same(w::VerferWrapper::new_with_raw(&raw.clone().unwrap(), None), Verfer::new_with_raw(&raw.unwrap(), None), holds!()),
        4 => same(w::VerferWrapper::new_with_qb64b(&qb64b.clone().unwrap()), Verfer::new_with_qb64b(&qb64b.unwrap()), holds!()),
        8 => same(w::VerferWrapper::new_with_qb64(&qb64.clone().unwrap()), Verfer::new_with_qb64(&qb64.unwrap()), holds!()),
        16 => same(w::VerferWrapper::new_with_qb2(&qb2.clone().unwrap()), Verfer::new_with_qb2(&qb2.unwrap()), holds!()),
        _ => {}
    }
    cover("compared");
}
#[no_mangle]
pub extern "C" fn h_c20_diger() {
    let (code, a, b, c, d) = four("F");
    let m = bytes(2, 0);
    let (ser, code, raw) = (arg(7, m.clone()), arg(0, code), arg(1, a.raw));
    let (qb64b, qb64, qb2) = (arg(2, b.qb64.into_bytes()), arg(3, c.qb64), arg(4, d.qb2));
    let r = w::DigerWrapper::new(ser.clone(), code.clone(), raw.clone(), qb64b.clone(), qb64.clone(), qb2.clone());
    if let Ok(x) = &r {
        matter!(*x);
        check(*w::DigerWrapper::wrap(&**x) == **x, "wrap");
        let o = bytes(2, 1);
        same(x.verify(&m), (**x).verify(&m), plain);
        same(x.verify(&o), (**x).verify(&o), plain);
        if case() < 0x100 && case() >> 5 & 3 == 0 {
            for (s, t) in [(&m, &o), (&m, &m), (&o, &m)] {
                let Ok(y) = w::DigerWrapper::new_with_ser(t, Some("H".to_string())) else { fail("digest") };
                same(x.compare_diger(s, &y), (**x).compare(s, None, Some(&y)), plain);
                let q = ok((*y).qb64b(), "digest");
                same(x.compare_dig(s, &q), (**x).compare(s, Some(&q), None), plain);
            }
            same(x.compare_dig(&m, b"?"), (**x).compare(&m, Some(b"?"), None), plain);
        }
    }
    same(r, Diger::new(ser.as_deref(), code.as_deref(), raw.as_deref(), qb64b.as_deref(), qb64.as_deref(), qb2.as_deref()), holds!());
    match case() & 0x9f {
        0x80 => same(w::DigerWrapper::new_with_ser(&m, None), Diger::new_with_ser(&m, None), holds!()),
        0x81 => same(w::DigerWrapper::new_with_ser(&m, code.clone()), Diger::new_with_ser(&m, code.as_deref()), holds!()),
        3 => same(w::DigerWrapper::new_with_raw(&raw.clone().unwrap(), code.clone()), Diger::new_with_raw(&raw.unwrap(), code.as_deref()), holds!()),
        2 => same(w::DigerWrapper::new_with_raw(&raw.clone().unwrap(), None), Diger::new_with_raw(&raw.unwrap(), None), holds!()),
        4 => same(w::DigerWrapper::new_with_qb64b(&qb64b.clone().unwrap()), Diger::new_with_qb64b(&qb64b.unwrap()), holds!()),
        8 => same(w::DigerWrapper::new_with_qb64(&qb64.clone().unwrap()), Diger::new_with_qb64(&qb64.unwrap()), holds!()),
        16 => same(w::DigerWrapper::new_with_qb2(&qb2.clone().unwrap()), Diger::new_with_qb2(&qb2.unwrap()), holds!()),
        _ => {}
    }
    cover("compared");
}
fn bad<T>() -> cesride::Result<T> {
    match Verfer::new_with_qb64("") {
        Err(e) => Err(e),
        Ok(_) => fail("no error"),
    }
}
fn verfer(id: u32) -> w::VerferWrapper {
    match w::VerferWrapper::new_with_qb64(&any("D", 7, id).qb64) {
        Ok(v) => v,
        Err(_) => fail("no key"),
    }
}
#[no_mangle]
pub extern "C" fn h_c20_cigar() {
    let (code, a, b, c, d) = four("0B");
    let k = verfer(0);
    let (key, code, raw) = (arg(7, k), arg(0, code), arg(1, a.raw));
    let (qb64b, qb64, qb2) = (arg(2, b.qb64.into_bytes()), arg(3, c.qb64), arg(4, d.qb2));
    let n: Option<Verfer> = key.as_deref().cloned();
    let n = n.as_ref();
    let r = w::CigarWrapper::new(key.clone(), code.clone(), raw.clone(), qb64b.clone(), qb64.clone(), qb2.clone());
    if let Ok(x) = &r {
        matter!(*x);
        check(*w::CigarWrapper::wrap(&**x) == **x, "wrap");
        check(*x.verfer() == (**x).verfer(), "key");
    }
    same(r, Cigar::new(n, code.as_deref(), raw.as_deref(), qb64b.as_deref(), qb64.as_deref(), qb2.as_deref()), holds!());
    match case() & 0x1f {
        3 => same(w::CigarWrapper::new_with_raw(&raw.clone().unwrap(), key, code.clone()), Cigar::new_with_raw(&raw.unwrap(), n, code.as_deref()), holds!()),
        2 => same(w::CigarWrapper::new_with_raw(&raw.clone().unwrap(), key, None), Cigar::new_with_raw(&raw.unwrap(), n, None), holds!()),
        4 => same(w::CigarWrapper::new_with_qb64b(&qb64b.clone().unwrap(), key), Cigar::new_with_qb64b(&qb64b.unwrap(), n), holds!()),
        8 => same(w::CigarWrapper::new_with_qb64(&qb64.clone().unwrap(), key), Cigar::new_with_qb64(&qb64.unwrap(), n), holds!()),
        16 => same(w::CigarWrapper::new_with_qb2(&qb2.clone().unwrap(), key), Cigar::new_with_qb2(&qb2.unwrap(), n), holds!()),
        _ => {}
    }
    cover("compared");
}
/// indexed signatures: any two indices, given or not
#[no_mangle]
pub extern "C" fn h_c20_siger() {
    let bad = case() >> 6 & 1 == 1;
    let sig = |id| {
        let mut s = vec![5u8; 64];
        s[60..].copy_from_slice(&bytes(4, id));
        s
    };
    let made = |id: u32, i: u32| {
        let s = ok(Siger::new_with_raw(&sig(id), None, Some(i), None, Some("A")), "no signature");
        (ok(s.qb64(), "no text"), ok(s.qb2(), "no bytes"))
    };
    let cut = |mut v: Vec<u8>| {
        if bad {
            v.truncate(5);
        }
        v
    };
    let (i, o) = (u32_(0), u32_(1));
    let (b, c, d) = (made(101, 1), made(102, 2), made(103, 3));
    let key = arg(7, verfer(2));
    let n: Option<Verfer> = key.as_deref().cloned();
    let n = n.as_ref();
    let (index, ondex) = (arg(8, i), arg(9, o));
    let (code, raw) = (arg(0, if case() >> 5 & 1 == 1 { "2A" } else { "A" }.to_string()), arg(1, cut(sig(100))));
    let (qb64b, qb64) = (arg(2, cut(b.0.into_bytes())), arg(3, String::from_utf8(cut(c.0.into_bytes())).unwrap()));
    let qb2 = arg(4, cut(d.1));
    let r = w::SigerWrapper::new(key.clone(), index, ondex, code.clone(), raw.clone(), qb64b.clone(), qb64.clone(), qb2.clone());
    if let Ok(x) = &r {
        check(text(&x.code(), &(**x).code()), "code");
        check(octets(&x.raw(), &(**x).raw()), "raw");
        check(x.index() == (**x).index(), "index");
        check(x.ondex() == (**x).ondex(), "ondex");
        same(x.qb64(), (**x).qb64(), text);
        same(x.qb64b(), (**x).qb64b(), octets);
        same(x.qb2(), (**x).qb2(), octets);
        check(*x.verfer() == (**x).verfer(), "key");
        check(*w::SigerWrapper::wrap(&**x) == **x, "wrap");
    }
    same(r, Siger::new(n, index, ondex, code.as_deref(), raw.as_deref(), qb64b.as_deref(), qb64.as_deref(), qb2.as_deref()), holds!());
    match case() & 0x1f {
        2 | 3 => same(w::SigerWrapper::new_with_raw(&raw.clone().unwrap(), key, index, ondex, code.clone()), Siger::new_with_raw(&raw.unwrap(), n, index, ondex, code.as_deref()), holds!()),
        4 => same(w::SigerWrapper::new_with_qb64b(&qb64b.clone().unwrap(), key), Siger::new_with_qb64b(&qb64b.unwrap(), n), holds!()),
        8 => same(w::SigerWrapper::new_with_qb64(&qb64.clone().unwrap(), key), Siger::new_with_qb64(&qb64.unwrap(), n), holds!()),
        16 => same(w::SigerWrapper::new_with_qb2(&qb2.clone().unwrap(), key), Siger::new_with_qb2(&qb2.unwrap(), n), holds!()),
        _ => {}
    }
    cover("compared");
}
#[no_mangle]
pub extern "C" fn h_c20_bexter() {
    // texts: four characters before a fixed one
    let any = |id: u32, k: usize| {
        let x = bytes(3, id);
        let t = ["AAB", "AAC", "AAD", "AAE"][k];
        let _ = t;
        x
    };
    let made = |id: u32, k: usize| ok(Bexter::new_with_raw(&any(id, k), Some("4A")), "no text");
    let bad = case() >> 6 & 1 == 1;
    let cut = |mut v: Vec<u8>| {
        if bad {
            v.truncate(5);
        }
        v
    };
    let (b, c, d) = (made(101, 1), made(102, 2), made(103, 3));
    let bext = if bad { "b.d" } else { "a-_9" };
    let (code, raw) = (arg(0, if case() >> 5 & 1 == 1 { "5A" } else { "4A" }.to_string()), arg(1, any(100, 0)));
    let (qb64b, qb64) = (arg(2, cut(ok(b.qb64b(), "no text"))), arg(3, String::from_utf8(cut(ok(c.qb64b(), "no text"))).unwrap()));
    let (qb2, bx) = (arg(4, cut(ok(d.qb2(), "no bytes"))), arg(7, bext.to_string()));
    let r = w::BexterWrapper::new(bx.clone(), code.clone(), raw.clone(), qb64b.clone(), qb64.clone(), qb2.clone());
    if let Ok(x) = &r {
        matter!(*x);
        same(x.bext(), (**x).bext(), text);
        check(*w::BexterWrapper::wrap(&**x) == **x, "wrap");
    }
    same(r, Bexter::new(bx.as_deref(), code.as_deref(), raw.as_deref(), qb64b.as_deref(), qb64.as_deref(), qb2.as_deref()), holds!());
    match case() & 0x9f {
        0x80 => same(w::BexterWrapper::new_with_bext(bext), Bexter::new_with_bext(bext), holds!()),
        3 => same(w::BexterWrapper::new_with_raw(&raw.clone().unwrap(), code.clone()), Bexter::new_with_raw(&raw.unwrap(), code.as_deref()), holds!()),
        2 => same(w::BexterWrapper::new_with_raw(&raw.clone().unwrap(), None), Bexter::new_with_raw(&raw.unwrap(), None), holds!()),
        4 => same(w::BexterWrapper::new_with_qb64b(&qb64b.clone().unwrap()), Bexter::new_with_qb64b(&qb64b.unwrap()), holds!()),
        8 => same(w::BexterWrapper::new_with_qb64(&qb64.clone().unwrap()), Bexter::new_with_qb64(&qb64.unwrap()), holds!()),
        16 => same(w::BexterWrapper::new_with_qb2(&qb2.clone().unwrap()), Bexter::new_with_qb2(&qb2.unwrap()), holds!()),
        _ => {}
    }
    cover("compared");
}
#[no_mangle]
pub extern "C" fn h_c20_dater() {
    let dts = ["2020-08-22T17:50:09.988921+00:00", "2020-08-22T17:50:09.988921-01:00", "2021-01-01T00:00:00.000000+00:00", "1999-12-31T23:59:59.999999+00:00", "2020-08-22"];
    let bad = case() >> 6 & 1 == 1;
    let d = |k: usize| ok(Dater::new_with_dts(dts[k], None), "no date");
    let cut = |mut v: Vec<u8>| {
        if bad {
            v.truncate(5);
        }
        v
    };
    let (code, raw) = (arg(0, if case() >> 5 & 1 == 1 { "1AAF" } else { "1AAG" }.to_string()), arg(1, cut(d(0).raw())));
    let (qb64b, qb64) = (arg(2, cut(ok(d(1).qb64b(), "no text"))), arg(3, String::from_utf8(cut(ok(d(2).qb64b(), "no text"))).unwrap()));
    let (qb2, t) = (arg(4, cut(ok(d(3).qb2(), "no bytes"))), arg(7, dts[if bad { 4 } else { 1 }].to_string()));
    let r = w::DaterWrapper::new(t.clone(), code.clone(), raw.clone(), qb64b.clone(), qb64.clone(), qb2.clone());
    if let Ok(x) = &r {
        matter!(*x);
        same(x.dts(), (**x).dts(), text);
        same(x.dtsb(), (**x).dtsb(), octets);
        check(*w::DaterWrapper::wrap(&**x) == **x, "wrap");
    }
    let now = case() & 0x9e == 0;
    let n = Dater::new(t.as_deref(), code.as_deref(), raw.as_deref(), qb64b.as_deref(), qb64.as_deref(), qb2.as_deref());
    same(r, n, |a, b| now || **a == *b);
    match case() & 0x9f {
        0x80 => same(w::DaterWrapper::new_with_dts(t.as_deref().unwrap(), None), Dater::new_with_dts(t.as_deref().unwrap(), None), holds!()),
        0x81 => same(w::DaterWrapper::new_with_dts(t.as_deref().unwrap(), code.clone()), Dater::new_with_dts(t.as_deref().unwrap(), code.as_deref()), holds!()),
        3 => same(w::DaterWrapper::new_with_raw(&raw.clone().unwrap(), code.clone()), Dater::new_with_raw(&raw.unwrap(), code.as_deref()), holds!()),
        2 => same(w::DaterWrapper::new_with_raw(&raw.clone().unwrap(), None), Dater::new_with_raw(&raw.unwrap(), None), holds!()),
        4 => same(w::DaterWrapper::new_with_qb64b(&qb64b.clone().unwrap()), Dater::new_with_qb64b(&qb64b.unwrap()), holds!()),
        8 => same(w::DaterWrapper::new_with_qb64(&qb64.clone().unwrap()), Dater::new_with_qb64(&qb64.unwrap()), holds!()),
        16 => same(w::DaterWrapper::new_with_qb2(&qb2.clone().unwrap()), Dater::new_with_qb2(&qb2.unwrap()), holds!()),
        _ => {}
    }
    cover("compared");
}
#[no_mangle]
pub extern "C" fn h_c20_signer() {
    let (code, a, b, c, d) = four("A");
    let transferable = arg(7, case() >> 8 & 1 == 1);
    let (code, raw) = (arg(0, code), arg(1, a.raw));
    let (qb64b, qb64, qb2) = (arg(2, b.qb64.into_bytes()), arg(3, c.qb64), arg(4, d.qb2));
    let random = case() & 0x1e == 0;
    let r = w::SignerWrapper::new(transferable, code.clone(), raw.clone(), qb64b.clone(), qb64.clone(), qb2.clone());
    if let Ok(x) = &r {
        check(*x.verfer() == (**x).verfer(), "key");
        if !random {
            matter!(*x);
            check(*w::SignerWrapper::wrap(&**x) == **x, "wrap");
            let m = bytes(2, 0);
            let (i, o) = (u32_(1), u32_(2));
            same(x.sign_unindexed(&m), (**x).sign_unindexed(&m), holds!());
            for only in [false, true] {
                same(x.sign_indexed(&m, only, i, Some(o)), (**x).sign_indexed(&m, only, i, Some(o)), holds!());
                same(x.sign_indexed(&m, only, i, None), (**x).sign_indexed(&m, only, i, None), holds!());
            }
        }
    }
    let n = Signer::new(transferable, code.as_deref(), raw.as_deref(), qb64b.as_deref(), qb64.as_deref(), qb2.as_deref());
    same(r, n, |a, b| if random { a.code() == b.code() && a.verfer().code() == b.verfer().code() } else { **a == *b });
    match case() & 0x1f {
        3 => same(w::SignerWrapper::new_with_raw(&raw.clone().unwrap(), transferable, code.clone()), Signer::new_with_raw(&raw.unwrap(), transferable, code.as_deref()), holds!()),
        2 => same(w::SignerWrapper::new_with_raw(&raw.clone().unwrap(), transferable, None), Signer::new_with_raw(&raw.unwrap(), transferable, None), holds!()),
        4 => same(w::SignerWrapper::new_with_qb64b(&qb64b.clone().unwrap(), transferable), Signer::new_with_qb64b(&qb64b.unwrap(), transferable), holds!()),
        8 => same(w::SignerWrapper::new_with_qb64(&qb64.clone().unwrap(), transferable), Signer::new_with_qb64(&qb64.unwrap(), transferable), holds!()),
        16 => same(w::SignerWrapper::new_with_qb2(&qb2.clone().unwrap(), transferable), Signer::new_with_qb2(&qb2.unwrap(), transferable), holds!()),
        _ => {}
    }
    cover("compared");
}
#[no_mangle]
pub extern "C" fn h_c20_salter() {
    let (code, a, b, c, d) = four("0A");
    let tier = arg(7, ["low", "med", "high", "top"][case() as usize >> 8 & 3].to_string());
    let t = tier.as_deref();
    let (code, raw) = (arg(0, code), arg(1, a.raw));
    let (qb64b, qb64, qb2) = (arg(2, b.qb64.into_bytes()), arg(3, c.qb64), arg(4, d.qb2));
    let random = case() & 0x1e == 0;
    let r = w::SalterWrapper::new(tier.clone(), code.clone(), raw.clone(), qb64b.clone(), qb64.clone(), qb2.clone());
    if let (Ok(x), false) = (&r, random) {
        matter!(*x);
        check(x.tier() == (**x).tier(), "tier");
        check(*w::SalterWrapper::wrap(&**x) == **x, "wrap");
    }
    let n = Salter::new(t, code.as_deref(), raw.as_deref(), qb64b.as_deref(), qb64.as_deref(), qb2.as_deref());
    same(r, n, |a, b| if random { a.code() == b.code() && a.tier() == b.tier() } else { **a == *b });
    match case() & 0x1f {
        0 => same(w::SalterWrapper::new_with_defaults(tier.clone()), Salter::new_with_defaults(t), |a, b| a.tier() == b.tier()),
        3 => same(w::SalterWrapper::new_with_raw(&raw.clone().unwrap(), code.clone(), tier.clone()), Salter::new_with_raw(&raw.unwrap(), code.as_deref(), t), holds!()),
        2 => same(w::SalterWrapper::new_with_raw(&raw.clone().unwrap(), None, tier.clone()), Salter::new_with_raw(&raw.unwrap(), None, t), holds!()),
        4 => same(w::SalterWrapper::new_with_qb64b(&qb64b.clone().unwrap(), tier.clone()), Salter::new_with_qb64b(&qb64b.unwrap(), t), holds!()),
        8 => same(w::SalterWrapper::new_with_qb64(&qb64.clone().unwrap(), tier.clone()), Salter::new_with_qb64(&qb64.unwrap(), t), holds!()),
        16 => same(w::SalterWrapper::new_with_qb2(&qb2.clone().unwrap(), tier.clone()), Salter::new_with_qb2(&qb2.unwrap(), t), holds!()),
        _ => {}
    }
    cover("compared");
}
/// stretching and signers: every argument given or not, any salt and path
#[no_mangle]
pub extern "C" fn h_c20_stretch() {
    let x = match w::SalterWrapper::new_with_raw(&bytes(16, 0), None, Some("low".to_string())) {
        Ok(x) => x,
        Err(_) => fail("no salt"),
    };
    let path = arg(0, ascii(2, 1));
    let tier = arg(1, ["med", "top"][case() as usize >> 7].to_string());
    let temp = arg(2, case() >> 6 & 1 == 0);
    let transferable = arg(3, case() >> 6 & 1 == 1);
    let code = arg(4, "A".to_string());
    let count = arg(5, 2usize);
    let (p, t) = (path.as_deref(), tier.as_deref());
    let size = arg(3, 5usize);
    same(x.stretch(size, path.clone(), tier.clone(), temp), (*x).stretch(size, p, t, temp), octets);
    same(x.signer(code.clone(), transferable, path.clone(), tier.clone(), temp), (*x).signer(code.as_deref(), transferable, p, t, temp), holds!());
    let start = arg(6, 3usize);
    let r = x.signers(count, start, path.clone(), code.clone(), transferable, tier.clone(), temp);
    let n = (*x).signers(count, start, p, code.as_deref(), transferable, t, temp);
    same(r, n, |a, b| {
        a.len() == b.len() && a.is_empty() == b.is_empty() && (0..b.len()).all(|k| matches!(a.get(k), Some(s) if *s == b[k])) && a.get(b.len()).is_none() && a.get(usize::MAX).is_none()
    });
    cover("compared");
}
/// the same with other sizes, counts, starting points, paths and tiers: case = which of them is unusual
#[no_mangle]
pub extern "C" fn h_c20_stretch_far() {
    let x = match w::SalterWrapper::new_with_raw(&bytes(16, 0), None, None) {
        Ok(x) => x,
        Err(_) => fail("no salt"),
    };
    let k = case() as usize;
    let (mut size, mut path, mut tier, mut count, mut start, mut code, mut transferable) =
        (Some(32usize), Some("p".to_string()), Some("low".to_string()), Some(2usize), Some(1usize), Some("A".to_string()), Some(true));
    match k {
        0..=9 => size = Some([0, 1, 3, 4, 16, 63, 64, 65, 257, 1025][k]),
        10..=15 => path = Some(["".to_string(), " ".to_string(), "\u{e9}/".to_string(), "a".repeat(17), "0".repeat(65), "z".repeat(300)][k - 10].clone()),
        16..=21 => tier = Some(["", "high", "LOW", "medium", "tiny", "low "][k - 16].to_string()),
        22..=26 => count = Some([0, 1, 3, 17, 33][k - 22]),
        27..=32 => start = Some([0, 9, 15, 255, 65535, u32::MAX as usize - 1][k - 27]),
        33..=37 => code = Some(["J", "", "0A", "Z", "AA"][k - 33].to_string()),
        38 => transferable = Some(false),
        39 => (count, start) = (Some(2), Some(usize::MAX - 2)),
        _ => path = Some(ascii(k - 40, 1)),
    }
    let temp = [None, Some(true), Some(false)][choose(3, 2) as usize];
    let (p, t, c) = (path.as_deref(), tier.as_deref(), code.as_deref());
    same(x.stretch(size, path.clone(), tier.clone(), temp), (*x).stretch(size, p, t, temp), octets);
    same(x.signer(code.clone(), transferable, path.clone(), tier.clone(), temp), (*x).signer(c, transferable, p, t, temp), holds!());
    let r = x.signers(count, start, path.clone(), code.clone(), transferable, tier.clone(), temp);
    let n = (*x).signers(count, start, p, c, transferable, t, temp);
    same(r, n, |a, b| a.len() == b.len() && a.is_empty() == b.is_empty() && (0..b.len()).all(|k| matches!(a.get(k), Some(s) if *s == b[k])) && a.get(b.len()).is_none());
    cover("compared");
}
fn sad() -> Value {
    let t = ascii(1, 0);
    for b in t.bytes() {
        assume((b >= 32) & (b != b'"') & (b != b'\\') & (b != 0x7f));
    }
    obj(&[("v", version("KERI", 0)), ("d", Value::from("")), ("id", Value::from("")), ("x", Value::from(t.as_str())), ("y", Value::Array(vec![Value::from(1i64), Value::Null]))])
}
/// identifiers: every argument given or not
#[no_mangle]
pub extern "C" fn h_c20_saider() {
    let (code, a, b, c, d) = four("F");
    let s = sad();
    let (code, raw) = (arg(0, code), arg(1, a.raw));
    let (qb64b, qb64, qb2) = (arg(2, b.qb64.into_bytes()), arg(3, c.qb64), arg(4, d.qb2));
    let given = case() >> 7 & 1 == 1;
    let value = if given { Some(wrap(&s)) } else { None };
    let native = if given { Some(&s) } else { None };
    let r = w::SaiderWrapper::new(value, None, None, None, code.clone(), raw.clone(), qb64b.clone(), qb64.clone(), qb2.clone());
    if let Ok(x) = &r {
        matter!(*x);
        check(*w::SaiderWrapper::wrap(&**x) == **x, "wrap");
    }
    same(r, Saider::new(native, None, None, None, code.as_deref(), raw.as_deref(), qb64b.as_deref(), qb64.as_deref(), qb2.as_deref()), holds!());
    match case() & 0x9f {
        3 => same(w::SaiderWrapper::new_with_raw(&raw.clone().unwrap(), code.clone()), Saider::new_with_raw(&raw.unwrap(), code.as_deref()), holds!()),
        2 => same(w::SaiderWrapper::new_with_raw(&raw.clone().unwrap(), None), Saider::new_with_raw(&raw.unwrap(), None), holds!()),
        4 => same(w::SaiderWrapper::new_with_qb64b(&qb64b.clone().unwrap()), Saider::new_with_qb64b(&qb64b.unwrap()), holds!()),
        8 => same(w::SaiderWrapper::new_with_qb64(&qb64.clone().unwrap()), Saider::new_with_qb64(&qb64.unwrap()), holds!()),
        16 => same(w::SaiderWrapper::new_with_qb2(&qb2.clone().unwrap()), Saider::new_with_qb2(&qb2.unwrap()), holds!()),
        _ => {}
    }
    cover("compared");
}
#[no_mangle]
pub extern "C" fn h_c20_saidify() {
    let s = sad();
    let label = arg(0, "id".to_string());
    let kind = arg(1, if case() >> 4 & 1 == 1 { "CBOR" } else { "JSON" }.to_string());
    let code = arg(2, "H".to_string());
    let ignored: &[&str] = if case() >> 4 & 1 == 1 { &["x", "v"] } else { &["y"] };
    let ignore = || arg(3, names(ignored));
    let ig = arg(3, ignored);
    let (l, k, c) = (label.as_deref(), kind.as_deref(), code.as_deref());
    let r = w::SaiderWrapper::saidify(wrap(&s), code.clone(), kind.clone(), label.clone(), ignore());
    let n = Saider::saidify(&s, c, k, l, ig);
    if let (Ok(r), Ok(n)) = (&r, &n) {
        check(*r.saider() == n.0, "another identifier");
        // and back
        let v = ValueWrapper::new(&r.value());
        check(value(&v, &n.1), "another message");
        for (p, q) in [(None, None), (Some(true), None), (Some(false), Some(true)), (Some(true), Some(false))] {
            let v = ValueWrapper::new(&r.value());
            same(r.saider().verify(v, p, q, kind.clone(), label.clone(), ignore()), n.0.verify(&n.1, p, q, k, l, ig), plain);
            same(r.saider().verify(wrap(&s), p, q, kind.clone(), label.clone(), ignore()), n.0.verify(&s, p, q, k, l, ig), plain);
        }
    }
    same(r, n, |a, b| *a.saider() == b.0);
    same(w::SaiderWrapper::new_with_sad(wrap(&s), label.clone(), kind.clone(), ignore(), code.clone()), Saider::new_with_sad(&s, l, k, ig, c), holds!());
    same(w::SaiderWrapper::new(Some(wrap(&s)), label.clone(), kind.clone(), ignore(), code.clone(), None, None, None, None), Saider::new(Some(&s), l, k, ig, c, None, None, None, None), holds!());
    cover("compared");
}
fn event(key: &str) -> Value {
    let l = |v: &[&str]| Value::Array(v.iter().map(|s| Value::from(*s)).collect());
    obj(&[
        ("v", version("KERI", 0)),
        ("t", Value::from("icp")),
        ("d", Value::from("EIM66TjBMfwPnbwK7oZqbZyGz9nOeVmQHeH3NZxrsk8F")),
        ("i", Value::from(key)),
        ("s", Value::from("1f")),
        ("kt", Value::from("1")),
        ("k", l(&[key])),
        ("nt", Value::from("1")),
        ("n", l(&["EIM66TjBMfwPnbwK7oZqbZyGz9nOeVmQHeH3NZxrsk8F", "FIM66TjBMfwPnbwK7oZqbZyGz9nOeVmQHeH3NZxrsk8F"])),
        ("b", l(&["BIM66TjBMfwPnbwK7oZqbZyGz9nOeVmQHeH3NZxrsk8F"])),
        ("f", Value::from("MAAF")),
    ])
}
#[no_mangle]
pub extern "C" fn h_c20_prefixer() {
    let (code, a, b, c, d) = four("D");
    let e = event(&c.qb64);
    let given = case() >> 7 & 1 == 1;
    let value = || if given { Some(wrap(&e)) } else { None };
    let native = if given { Some(&e) } else { None };
    let allowed: Option<&[&str]> = match case() as usize >> 8 {
        0 => None,
        1 => Some(&["E", "D"]),
        _ => Some(&["E"]),
    };
    let allows = || allowed.map(names);
    let code = if given && case() >> 5 & 1 == 1 { "E".to_string() } else { code };
    let (code, raw) = (arg(0, code), arg(1, a.raw));
    let (qb64b, qb64, qb2) = (arg(2, b.qb64.into_bytes()), arg(3, c.qb64), arg(4, d.qb2));
    let r = w::PrefixerWrapper::new(value(), allows(), code.clone(), raw.clone(), qb64b.clone(), qb64.clone(), qb2.clone());
    if let Ok(x) = &r {
        matter!(*x);
        check(*w::PrefixerWrapper::wrap(&**x) == **x, "wrap");
        for p in [None, Some(false), Some(true)] {
            same(x.verify(wrap(&e), p), (**x).verify(&e, p), plain);
        }
        check(x.verify(ValueWrapper::new("{}"), None).is_err(), "no error");
    }
    same(r, Prefixer::new(native, allowed, code.as_deref(), raw.as_deref(), qb64b.as_deref(), qb64.as_deref(), qb2.as_deref()), holds!());
    match case() & 0x9f {
        0x80 => same(w::PrefixerWrapper::new_with_ked(wrap(&e), allows(), None), Prefixer::new_with_ked(&e, allowed, None), holds!()),
        0x81 => same(w::PrefixerWrapper::new_with_ked(wrap(&e), allows(), code.clone()), Prefixer::new_with_ked(&e, allowed, code.as_deref()), holds!()),
        3 => same(w::PrefixerWrapper::new_with_raw(&raw.clone().unwrap(), code.clone()), Prefixer::new_with_raw(&raw.unwrap(), code.as_deref()), holds!()),
        2 => same(w::PrefixerWrapper::new_with_raw(&raw.clone().unwrap(), None), Prefixer::new_with_raw(&raw.unwrap(), None), holds!()),
        4 => same(w::PrefixerWrapper::new_with_qb64b(&qb64b.clone().unwrap()), Prefixer::new_with_qb64b(&qb64b.unwrap()), holds!()),
        8 => same(w::PrefixerWrapper::new_with_qb64(&qb64.clone().unwrap()), Prefixer::new_with_qb64(&qb64.unwrap()), holds!()),
        16 => same(w::PrefixerWrapper::new_with_qb2(&qb2.clone().unwrap()), Prefixer::new_with_qb2(&qb2.unwrap()), holds!()),
        _ => {}
    }
    cover("compared");
}
/// events: every constructor argument given or not, every accessor
#[no_mangle]
pub extern "C" fn h_c20_serder() {
    let key = any("D", 9, 0).qb64;
    let e = event(&key);
    let bare = obj(&[("v", version("KERI", 0)), ("d", Value::from("EIM66TjBMfwPnbwK7oZqbZyGz9nOeVmQHeH3NZxrsk8F"))]);
    let e = if case() >> 5 & 1 == 1 { bare } else { e };
    let loaded = ok(Serder::new_with_ked(&e, None, None), "event refused");
    let code = arg(0, if case() >> 6 & 1 == 1 { "F" } else { "E" }.to_string());
    let mut bytes = loaded.raw();
    if case() >> 7 & 1 == 1 {
        bytes.pop();
    } else {
        bytes.push(b'-');
    }
    let raw = arg(1, bytes);
    let kind = arg(2, if case() >> 7 & 1 == 1 { "MGPK" } else { "JSON" }.to_string());
    let given = case() >> 3 & 1 == 1;
    let value = || if given { Some(wrap(&e)) } else { None };
    let native = if given { Some(&e) } else { None };
    let sad = arg(4, w::SerderWrapper::wrap(&loaded));
    let n = if sad.is_some() { Some(&loaded) } else { None };
    let r = w::SerderWrapper::new(code.clone(), raw.clone(), kind.clone(), value(), sad);
    if let Ok(x) = &r {
        let n = &**x;
        check(text(&x.code(), &n.code()), "code");
        check(octets(&x.raw(), &n.raw()), "raw");
        check(value_(&x.ked(), &n.ked()), "fields");
        check(x.ident() == n.ident(), "protocol");
        check(x.kind() == n.kind(), "kind");
        check(x.size() == n.size(), "size");
        check(*x.saider() == n.saider(), "identifier");
        let _ = x.version();
        same(x.verfers(), n.verfers(), |a, b| a.length() as usize == b.len() && (0..b.len()).all(|k| matches!(a.get(k as u32).get::<w::VerferWrapper>(), Some(v) if **v == b[k])));
        same(x.digers(), n.digers(), |a, b| a.length() as usize == b.len() && (0..b.len()).all(|k| matches!(a.get(k as u32).get::<w::DigerWrapper>(), Some(v) if **v == b[k])));
        same(x.werfers(), n.werfers(), |a, b| a.length() as usize == b.len() && (0..b.len()).all(|k| matches!(a.get(k as u32).get::<w::VerferWrapper>(), Some(v) if **v == b[k])));
        same(x.tholder(), n.tholder(), |a, b| a.as_deref() == b.as_ref());
        same(x.ntholder(), n.ntholder(), |a, b| a.as_deref() == b.as_ref());
        same(x.sner(), n.sner(), holds!());
        same(x.sn().map(u128::from), n.sn(), plain);
        same(x.fner(), n.fner(), |a, b| a.as_deref() == b.as_ref());
        same(x._fn().map(u128::from), n._fn(), plain);
    }
    same(r, Serder::new(code.as_deref(), raw.as_deref(), kind.as_deref(), native, n), holds!());
    if case() >> 1 & 1 == 0 && case() >> 4 & 1 == 0 && given {
        same(w::SerderWrapper::new_with_ked(wrap(&e), code.clone(), kind.clone()), Serder::new_with_ked(&e, code.as_deref(), kind.as_deref()), holds!());
    }
    cover("compared");
}
fn value_(v: &ValueWrapper, n: &Value) -> bool {
    value(v, n)
}
/// thresholds of any kind
#[no_mangle]
pub extern "C" fn h_c20_tholder() {
    let l = |v: &[&str]| Value::Array(v.iter().map(|s| Value::from(*s)).collect());
    let vals = [Value::from(2i64), Value::from("3"), l(&["1/2", "1/2"]), Value::Array(vec![l(&["1"]), l(&["1/3", "2/3", "1"])]), Value::from("x"), Value::Null];
    let s = &vals[case() as usize >> 3];
    let limen = match Tholder::new_with_sith(&vals[(case() as usize >> 3) % 4]) {
        Ok(t) => ok(t.limen(), "no limen"),
        Err(_) => fail("no threshold"),
    };
    let (th, li, si) = (arg(0, s), arg(1, limen.clone()), arg(2, s));
    let r = w::TholderWrapper::new(th.map(wrap), li.clone(), si.map(wrap));
    if let Ok(x) = &r {
        let n = &**x;
        check(value(&x.thold(), &n.thold()), "threshold");
        check(x.weighted() == n.weighted(), "weighted");
        check(x.size() == n.size(), "size");
        same(x.num(), n.num(), plain);
        check(x.number().as_deref() == n.number().as_ref(), "number");
        check(x.bexter().as_deref() == n.bexter().as_ref(), "text");
        same(x.limen(), n.limen(), octets);
        same(x.sith(), n.sith(), value);
        same(x.to_json(), n.to_json(), text);
        let i = [u32_(0), u32_(1)];
        same(x.satisfy(&i), n.satisfy(&i), plain);
        same(x.satisfy(&[]), n.satisfy(&[]), plain);
        check(*w::TholderWrapper::wrap(n) == *n, "wrap");
    }
    same(r, Tholder::new(th, li.as_deref(), si), holds!());
    if case() % 8 == 0 {
        same(w::TholderWrapper::new_with_sith(wrap(s)), Tholder::new_with_sith(s), holds!());
        same(w::TholderWrapper::new_with_thold(wrap(s)), Tholder::new_with_thold(s), holds!());
        same(w::TholderWrapper::new_with_limen(&limen), Tholder::new_with_limen(&limen), holds!());
    }
    cover("compared");
}
/// any text in place of a JSON value: what is no JSON is an error, anything else is what it
/// reads as
#[no_mangle]
pub extern "C" fn h_c20_value() {
    let t = ascii(case() as usize / 8, 0);
    for b in t.bytes() {
        assume((b != b'.') & (b != b'e') & (b != b'E'));
    }
    let v = || ValueWrapper::new(&t);
    check(text(&v().value(), &t), "another text");
    let n: cesride::Result<Value> = match serde_json::from_str::<serde_json::Value>(&t) {
        Ok(j) => Ok(Value::from(&j)),
        Err(_) => bad(),
    };
    match case() % 8 {
        0 => same(w::TholderWrapper::new_with_sith(v()), n.and_then(|n| Tholder::new_with_sith(&n)), holds!()),
        1 => same(w::TholderWrapper::new_with_thold(v()), n.and_then(|n| Tholder::new_with_thold(&n)), holds!()),
        2 => same(w::TholderWrapper::new(None, None, Some(v())), n.and_then(|n| Tholder::new(None, None, Some(&n))), holds!()),
        3 => same(w::SerderWrapper::new_with_ked(v(), None, None), n.and_then(|n| Serder::new_with_ked(&n, None, None)), holds!()),
        4 => same(w::SerderWrapper::new(None, None, None, Some(v()), None), n.and_then(|n| Serder::new(None, None, None, Some(&n), None)), holds!()),
        5 => {
            same(w::SaiderWrapper::new_with_sad(v(), None, None, None, None), n.and_then(|n| Saider::new_with_sad(&n, None, None, None, None)), holds!());
        }
        6 => {
            same(w::SaiderWrapper::saidify(v(), None, None, None, None), n.and_then(|n| Saider::saidify(&n, None, None, None, None)), |a, b| *a.saider() == b.0);
        }
        _ => {
            let p = ok(Prefixer::new_with_qb64("DIM66TjBMfwPnbwK7oZqbZyGz9nOeVmQHeH3NZxrsk8F"), "prefix");
            let s = ok(Saider::new_with_qb64("EIM66TjBMfwPnbwK7oZqbZyGz9nOeVmQHeH3NZxrsk8F"), "identifier");
            match &n {
                Ok(j) => {
                    same(w::PrefixerWrapper::new_with_ked(v(), None, Some("D".to_string())), Prefixer::new_with_ked(j, None, Some("D")), holds!());
                    same(w::PrefixerWrapper::new(Some(v()), None, Some("D".to_string()), None, None, None, None), Prefixer::new_with_ked(j, None, Some("D")), holds!());
                    same(w::PrefixerWrapper::wrap(&p).verify(v(), None), p.verify(j, None), plain);
                    same(w::SaiderWrapper::wrap(&s).verify(v(), None, None, None, None, None), s.verify(j, None, None, None, None, None), plain);
                }
                Err(_) => {
                    check(w::PrefixerWrapper::new_with_ked(v(), None, Some("D".to_string())).is_err(), "no error");
                    check(w::PrefixerWrapper::wrap(&p).verify(v(), None).is_err(), "no error");
                    check(w::SaiderWrapper::wrap(&s).verify(v(), None, None, None, None, None).is_err(), "no error");
                    check(w::SaiderWrapper::new(Some(v()), None, None, None, None, None, None, None, None).is_err(), "no error");
                }
            }
        }
    }
    cover("compared");
}
/// the code names
#[no_mangle]
pub extern "C" fn h_c20_codex() {
    macro_rules! codes {
        ($E:ident, $f:ident, $C:path, $($a:ident $b:ident)*) => {{
            use $C as N;
            $(check(w::$f(w::$E::$a) == N::$b, stringify!($a));)*
        }};
    }
    codes!(CesrideMatterCodex, matter_codex_code, cesride::matter::Codex, Ed25519Seed Ed25519_Seed Ed25519N Ed25519N X25519 X25519 Ed25519 Ed25519 Blake3_256 Blake3_256 Blake2b_256 Blake2b_256 Blake2s_256 Blake2s_256 SHA3_256 SHA3_256 SHA2_256 SHA2_256 ECDSA_256k1_Seed ECDSA_256k1_Seed Ed448_Seed Ed448_Seed X448 X448 Short Short Big Big X25519_Private X25519_Private X25519_Cipher_Seed X25519_Cipher_Seed Salt_128 Salt_128 Ed25519_Sig Ed25519_Sig ECDSA_256k1_Sig ECDSA_256k1_Sig Blake3_512 Blake3_512 Blake2b_512 Blake2b_512 SHA3_512 SHA3_512 SHA2_512 SHA2_512 Long Long ECDSA_256k1N ECDSA_256k1N ECDSA_256k1 ECDSA_256k1 Ed448N Ed448N Ed448 Ed448 Ed448_Sig Ed448_Sig Tern Tern DateTime DateTime X25519_Cipher_Salt X25519_Cipher_Salt TBD1 TBD1 TBD2 TBD2 StrB64_L0 StrB64_L0 StrB64_L1 StrB64_L1 StrB64_L2 StrB64_L2 StrB64_Big_L0 StrB64_Big_L0 StrB64_Big_L1 StrB64_Big_L1 StrB64_Big_L2 StrB64_Big_L2 Bytes_L0 Bytes_L0 Bytes_L1 Bytes_L1 Bytes_L2 Bytes_L2 Bytes_Big_L0 Bytes_Big_L0 Bytes_Big_L1 Bytes_Big_L1 Bytes_Big_L2 Bytes_Big_L2);
    codes!(CesrideIndexerCodex, indexer_codex_code, cesride::indexer::Codex, Ed25519 Ed25519 Ed25519_Crt Ed25519_Crt ECDSA_256k1 ECDSA_256k1 ECDSA_256k1_Crt ECDSA_256k1_Crt Ed448 Ed448 Ed448_Crt Ed448_Crt Ed25519_Big Ed25519_Big Ed25519_Big_Crt Ed25519_Big_Crt ECDSA_256k1_Big ECDSA_256k1_Big ECDSA_256k1_Big_Crt ECDSA_256k1_Big_Crt Ed448_Big Ed448_Big Ed448_Big_Crt Ed448_Big_Crt TBD0 TBD0 TBD1 TBD1 TBD4 TBD4);
    cover("compared");
}
