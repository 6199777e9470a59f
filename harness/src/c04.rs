use crate::c02::bin;
use crate::sym::*;
use crate::tab::*;
use crate::I;
use cesride::{Indexer, Matter, Siger, Verfer};

fn same<T: Indexer>(p: cesride::Result<T>, c: &ICode, index: u32, ondex: u32, raw: &[u8]) {
    match p {
        Ok(p) => {
            check(p.code() == c.c, "code");
            check(p.index() == index, "index");
            check(p.ondex() == ondex, "other index");
            check(eq(&p.raw(), raw), "raw");
        }
        Err(_) => fail("does not parse back"),
    }
}
/// a code, an index and other index (present or not) and raw bytes: accepted
/// exactly if representable, and then all forms carry exactly these values
fn build<T: Indexer>(c: &ICode, new: fn(&str, &[u8], u32, Option<u32>) -> cesride::Result<T>) {
    let index = u32_(0);
    let ondex = if choose(2, 1) == 1 { Some(u32_(2)) } else { None };
    let mut ok = ((index as u64) < 1u64 << (6 * c.ms())) & !(c.k == 'c' && ondex.is_some());
    if let Some(o) = ondex {
        ok &= if c.os > 0 { (o as u64) < 1u64 << (6 * c.os) } else { o == index };
    }
    let n = if c.fs > 0 {
        c.raw()
    } else {
        // variable length: the index is the size in quadlets
        if ok {
            assume(index < if tier() == 0 { 8 } else { 24 });
            3 * conc(index as u64) as usize
        } else {
            12
        }
    };
    let raw = bytes(n, 3);
    let m = match new(c.c, &raw, index, ondex) {
        Ok(m) => m,
        Err(_) => {
            check(!ok, "representable index refused");
            cover("refused");
            return;
        }
    };
    check(ok, "index or other index that the code cannot represent is accepted");
    let o = match ondex {
        Some(o) => o,
        None if c.k == 'b' || c.fs == 0 => index,
        None => 0,
    };
    check(m.code() == c.c, "code");
    check(m.index() == index, "index");
    check(m.ondex() == o, "other index");
    check(eq(&m.raw(), &raw), "raw");
    let expect = indexed_qb64(c, index, o, &raw);
    let t = match m.qb64() {
        Ok(t) => t,
        Err(_) => fail("qb64 fails"),
    };
    check(eq(t.as_bytes(), &expect), "text form");
    let tb = match m.qb64b() {
        Ok(t) => t,
        Err(_) => fail("qb64b fails"),
    };
    check(eq(&tb, &expect), "text bytes form");
    let b = match m.qb2() {
        Ok(b) => b,
        Err(_) => fail("qb2 fails"),
    };
    check(eq(&b, &dec(&expect).0), "binary form");
    match m.full_size() {
        Ok(n) => check(n == t.len(), "full size"),
        Err(_) => fail("full size"),
    }
    same(T::new_with_qb64(&t), c, index, o, &raw);
    same(T::new_with_qb64b(&tb), c, index, o, &raw);
    same(T::new_with_qb2(&b), c, index, o, &raw);
    same(T::new(None, None, None, None, None, Some(&t), None), c, index, o, &raw);
    same(T::new(None, None, None, None, Some(&tb), None, None), c, index, o, &raw);
    same(T::new(None, None, None, None, None, None, Some(&b)), c, index, o, &raw);
    cover("roundtrip");
}
#[no_mangle]
pub extern "C" fn h_c04_build() {
    let c = &ICODES[case() as usize % 19];
    if case() < 19 {
        build::<I>(c, |c, r, i, o| I::new_with_code_and_raw(c, r, i, o));
    } else {
        build::<I>(c, |c, r, i, o| I::new(Some(i), o, Some(c), Some(r), None, None, None));
    }
}
/// the same through Siger, which also keeps the verification key attached
#[no_mangle]
pub extern "C" fn h_c04_siger() {
    let c = &ICODES[case() as usize];
    build::<Siger>(c, |c, r, i, o| {
        let v = match Verfer::new_with_raw(&[7u8; 32], Some("D")) {
            Ok(v) => v,
            Err(_) => fail("verfer"),
        };
        let s = Siger::new_with_raw(r, Some(&v), Some(i), o, Some(c))?;
        check(s.verfer() == v, "attached verification key");
        let t = match s.qb64() {
            Ok(t) => t,
            Err(_) => fail("qb64 fails"),
        };
        same(Siger::new_with_qb64(&t, Some(&v)), &ICODES[case() as usize], s.index(), s.ondex(), &s.raw());
        same(Siger::new_with_qb64b(t.as_bytes(), Some(&v)), &ICODES[case() as usize], s.index(), s.ondex(), &s.raw());
        match s.qb2() {
            Ok(b) => same(Siger::new_with_qb2(&b, Some(&v)), &ICODES[case() as usize], s.index(), s.ondex(), &s.raw()),
            Err(_) => fail("qb2 fails"),
        }
        Ok(s)
    });
}

fn extent(c: &ICode, t: &[u8]) -> usize {
    if c.fs > 0 {
        c.fs
    } else {
        c.cs() + 4 * val64(&t[c.hs..c.cs()]) as usize
    }
}
fn accepted(m: &I, t: &[u8]) {
    let c = match icode(&m.code()) {
        Some(c) => c,
        None => fail("unknown code"),
    };
    check(t.len() >= c.cs() && eq(&t[..c.hs], c.c.as_bytes()), "code differs from the text");
    let fs = conc(extent(c, t) as u64) as usize;
    check(fs <= t.len(), "accepted input is shorter than its code requires");
    check(m.index() as u64 == val64(&t[c.hs..c.hs + c.ms()]), "index differs from its field");
    let od = val64(&t[c.hs + c.ms()..c.cs()]);
    check(m.ondex() as u64 == if c.os > 0 { od } else if c.k == 'c' { 0 } else { m.index() as u64 }, "other index differs from its field");
    check(!(c.k == 'c' && od != 0), "other index on a current-only code");
    match m.full_size() {
        Ok(n) => check(n == fs, "full size"),
        Err(_) => fail("full size"),
    }
    match m.qb64() {
        Ok(q) => check(eq(q.as_bytes(), &t[..fs]), "re-serialised text differs"),
        Err(_) => fail("accepted input does not re-serialise"),
    }
    match m.qb2() {
        Ok(b) => check(eq(&b, &dec(&t[..fs]).0), "binary form differs"),
        Err(_) => fail("accepted input has no binary form"),
    }
}
/// any text that starts with a given code, lengths around the full size
#[no_mangle]
pub extern "C" fn h_c04_text() {
    let c = &ICODES[case() as usize];
    let n = if c.fs > 0 { c.fs - c.hs - 1 + choose(3, 1) as usize } else { choose(if tier() == 0 { 25 } else { 49 }, 1) as usize };
    let mut t = c.c.to_string();
    t.push_str(&ascii(n, 0));
    let m = match I::new_with_qb64(&t) {
        Ok(m) => m,
        Err(_) => return,
    };
    cover("accepted");
    check(m.code() == c.c, "code differs from the text");
    accepted(&m, t.as_bytes());
}
/// any binary that starts with a given code, lengths around the full size
#[no_mangle]
pub extern "C" fn h_c04_bin() {
    let c = &ICODES[case() as usize];
    let n = if c.fs > 0 { c.fs * 3 / 4 - 1 + choose(3, 1) as usize } else { choose(if tier() == 0 { 20 } else { 38 }, 1) as usize };
    let t = bin(c.c, n, 0);
    let m = match I::new_with_qb2(&t) {
        Ok(m) => m,
        Err(_) => return,
    };
    cover("accepted");
    check(m.code() == c.c, "code differs from the binary");
    let mut u = t.clone();
    while u.len() % 3 != 0 {
        u.push(0);
    }
    // the text image of the input, up to the last whole quadlet
    let k = t.len() / 3 * 4;
    accepted(&m, &enc(&u)[..k]);
}
/// the variable-size code at larger sizes: case = size
#[no_mangle]
pub extern "C" fn h_c04_big() {
    let c = match icode("0z") {
        Some(c) => c,
        None => fail("no code"),
    };
    let q = [62u32, 63, 64, 65, 127, 255, 256, 1023, 1024, 4094, 4095][case() as usize];
    let raw = long(3 * q as usize, 0);
    let m = match I::new_with_code_and_raw("0z", &raw, q, None) {
        Ok(m) => m,
        Err(_) => fail("refused"),
    };
    check(m.index() == q && m.ondex() == q && eq(&m.raw(), &raw), "built");
    let expect = indexed_qb64(c, q, q, &raw);
    let mut t = match m.qb64() {
        Ok(t) => t,
        Err(_) => fail("qb64 fails"),
    };
    check(eq(t.as_bytes(), &expect), "text form");
    let mut b = match m.qb2() {
        Ok(b) => b,
        Err(_) => fail("qb2 fails"),
    };
    check(eq(&b, &dec(&expect).0), "binary form");
    check(I::new_with_qb64(&t[..t.len() - 1]).is_err(), "a truncated text accepted");
    check(I::new_with_qb2(&b[..b.len() - 1]).is_err(), "a truncated binary accepted");
    t.push_str(&ascii(2, 1));
    b.extend(bytes(2, 2));
    same(I::new_with_qb64(&t), c, q, q, &raw);
    same(I::new_with_qb64b(t.as_bytes()), c, q, q, &raw);
    same(I::new_with_qb2(&b), c, q, q, &raw);
    check(I::new_with_code_and_raw("0z", &raw[..raw.len() - 1], q, None).is_err(), "raw of another size");
    check(I::new_with_code_and_raw("0z", &raw, q + 1, None).is_err(), "index of another size");
    cover("built");
}
/// any index and other index set on an existing value: serialised in full or not at all
#[no_mangle]
pub extern "C" fn h_c04_set() {
    let c = &ICODES[case() as usize];
    let (index, mut ondex) = (u32_(0), u32_(1));
    if c.k == 'c' {
        ondex = 0; // has none
    } else if c.os == 0 {
        ondex = index; // the same
    }
    let fits = ((index as u64) < 1u64 << (6 * c.ms())) & (c.os == 0 || (ondex as u64) < 1u64 << (6 * c.os));
    let n = if c.fs > 0 {
        c.raw()
    } else {
        assume((index < 5) | !fits);
        if fits { 3 * conc(index as u64) as usize } else { 12 }
    };
    let raw = bytes(n, 2);
    let mut m = I::default();
    m.set_code(c.c);
    m.set_raw(&raw);
    m.set_index(index);
    m.set_ondex(ondex);
    let (t, tb, b) = (m.qb64(), m.qb64b(), m.qb2());
    if !fits {
        check(t.is_err() & tb.is_err() & b.is_err(), "index or other index that the code cannot represent is serialised");
        cover("refused");
        return;
    }
    let expect = indexed_qb64(c, index, ondex, &raw);
    check(matches!(&t, Ok(t) if eq(t.as_bytes(), &expect)), "text form");
    check(matches!(&tb, Ok(t) if eq(t, &expect)), "text bytes form");
    check(matches!(&b, Ok(b) if eq(b, &dec(&expect).0)), "binary form");
    // raw bytes of another size have no form
    m.set_raw(&[&raw[..], &[0]].concat());
    check(m.qb64().is_err() & m.qb2().is_err(), "raw of another size serialised");
    cover("serialised");
}
