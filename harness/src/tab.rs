//! The CESR code tables, written down from the specification (not read from
//! the code under test), and reference encoders over them.
#![allow(dead_code)]
/// code, hard size, soft size, full size in characters (0: variable), lead bytes
pub struct Code {
    pub c: &'static str,
    pub hs: usize,
    pub ss: usize,
    pub fs: usize,
    pub ls: usize,
}
const fn f(c: &'static str, fs: usize, ls: usize) -> Code {
    Code { c, hs: c.len(), ss: 0, fs, ls }
}
const fn v(c: &'static str, ls: usize) -> Code {
    Code { c, hs: c.len(), ss: c.len(), fs: 0, ls }
}
pub const FIXED: [Code; 37] = [
    f("A", 44, 0), f("B", 44, 0), f("C", 44, 0), f("D", 44, 0), f("E", 44, 0), f("F", 44, 0), f("G", 44, 0),
    f("H", 44, 0), f("I", 44, 0), f("J", 44, 0), f("K", 76, 0), f("L", 76, 0), f("M", 4, 0), f("N", 12, 0),
    f("O", 44, 0), f("P", 124, 0), f("Q", 44, 0), f("0A", 24, 0), f("0B", 88, 0), f("0C", 88, 0), f("0D", 88, 0),
    f("0E", 88, 0), f("0F", 88, 0), f("0G", 88, 0), f("0H", 8, 0), f("0I", 88, 0), f("1AAA", 48, 0), f("1AAB", 48, 0),
    f("1AAC", 80, 0), f("1AAD", 80, 0), f("1AAE", 56, 0), f("1AAF", 8, 0), f("1AAG", 36, 0), f("1AAH", 100, 0),
    f("1AAI", 48, 0), f("1AAJ", 48, 0), f("2AAA", 8, 1),
];
pub const FIXED2: [Code; 1] = [f("3AAA", 8, 2)];
pub const NFIXED: usize = 38;
pub fn fixed(i: usize) -> &'static Code {
    if i < 37 {
        &FIXED[i]
    } else {
        &FIXED2[0]
    }
}
pub const VAR: [Code; 12] = [
    v("4A", 0), v("5A", 1), v("6A", 2), v("4B", 0), v("5B", 1), v("6B", 2), v("7AAA", 0), v("8AAA", 1), v("9AAA", 2),
    v("7AAB", 0), v("8AAB", 1), v("9AAB", 2),
];
impl Code {
    /// raw size of a fixed code
    pub fn raw(&self) -> usize {
        (self.fs - self.hs) * 3 / 4 - self.ls
    }
}
pub fn any_code(c: &str) -> Option<&'static Code> {
    let mut i = 0;
    while i < NFIXED {
        if fixed(i).c == c {
            return Some(fixed(i));
        }
        i += 1;
    }
    for k in &VAR {
        if k.c == c {
            return Some(k);
        }
    }
    None
}

pub const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
/// value of a Base64 character, 255 if it is none
pub const UNB64: [u8; 256] = {
    let mut t = [255u8; 256];
    let mut i = 0;
    while i < 64 {
        t[B64[i] as usize] = i as u8;
        i += 1;
    }
    t
};
/// Base64 text of bytes whose number is a multiple of 3
pub fn enc(b: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(b.len() / 3 * 4);
    let mut i = 0;
    while i + 2 < b.len() {
        let n = (b[i] as u32) << 16 | (b[i + 1] as u32) << 8 | b[i + 2] as u32;
        o.push(B64[(n >> 18 & 63) as usize]);
        o.push(B64[(n >> 12 & 63) as usize]);
        o.push(B64[(n >> 6 & 63) as usize]);
        o.push(B64[(n & 63) as usize]);
        i += 3;
    }
    o
}
/// bytes of Base64 text whose length is a multiple of 4; the flag says all
/// characters belong to the alphabet
pub fn dec(t: &[u8]) -> (Vec<u8>, bool) {
    let mut o = Vec::with_capacity(t.len() / 4 * 3);
    let mut i = 0;
    let mut bad = 0u8;
    while i + 3 < t.len() {
        let (a, b, c, d) = (UNB64[t[i] as usize], UNB64[t[i + 1] as usize], UNB64[t[i + 2] as usize], UNB64[t[i + 3] as usize]);
        bad |= (a | b | c | d) & 0xc0;
        let n = (a as u32 & 63) << 18 | (b as u32 & 63) << 12 | (c as u32 & 63) << 6 | (d as u32 & 63);
        o.push((n >> 16) as u8);
        o.push((n >> 8) as u8);
        o.push(n as u8);
        i += 4;
    }
    (o, bad == 0)
}
pub fn int64(n: u64, l: usize) -> Vec<u8> {
    let mut o = vec![0u8; l];
    let mut i = 0;
    while i < l {
        o[l - 1 - i] = B64[(n >> (6 * i) & 63) as usize];
        i += 1;
    }
    o
}
/// reference text form of a fixed-size primitive
pub fn fixed_qb64(c: &Code, raw: &[u8]) -> Vec<u8> {
    let ps = (3 - (raw.len() + c.ls) % 3) % 3;
    let mut b = vec![0u8; ps + c.ls];
    b.extend_from_slice(raw);
    let e = enc(&b);
    let mut o = c.c.as_bytes().to_vec();
    o.extend_from_slice(&e[ps..]);
    o
}
/// reference text form of a variable-size primitive (the code given is the
/// family's small or large code; the size and lead select the actual one)
pub fn var_qb64(c: &Code, raw: &[u8]) -> Vec<u8> {
    let mut b = vec![0u8; c.ls];
    b.extend_from_slice(raw);
    let e = enc(&b);
    let mut o = c.c.as_bytes().to_vec();
    o.extend_from_slice(&int64((b.len() / 3) as u64, c.ss));
    o.extend_from_slice(&e);
    o
}

/// indexed signature codes: code, hard, soft (both index fields), other-index
/// field, full size (0: variable), lead bytes, list kind
pub struct ICode {
    pub c: &'static str,
    pub hs: usize,
    pub ss: usize,
    pub os: usize,
    pub fs: usize,
    pub ls: usize,
    /// 'b': both lists, 'c': current list only, '-': neither (test codes)
    pub k: char,
}
const fn ic(c: &'static str, ss: usize, os: usize, fs: usize, ls: usize, k: char) -> ICode {
    ICode { c, hs: c.len(), ss, os, fs, ls, k }
}
pub const ICODES: [ICode; 19] = [
    ic("A", 1, 0, 88, 0, 'b'), ic("B", 1, 0, 88, 0, 'c'), ic("C", 1, 0, 88, 0, 'b'), ic("D", 1, 0, 88, 0, 'c'),
    ic("E", 1, 0, 88, 0, 'b'), ic("F", 1, 0, 88, 0, 'c'), ic("2A", 4, 2, 92, 0, 'b'), ic("2B", 4, 2, 92, 0, 'c'),
    ic("2C", 4, 2, 92, 0, 'b'), ic("2D", 4, 2, 92, 0, 'c'), ic("2E", 4, 2, 92, 0, 'b'), ic("2F", 4, 2, 92, 0, 'c'),
    ic("0A", 2, 1, 156, 0, 'b'), ic("0B", 2, 1, 156, 0, 'c'), ic("3A", 6, 3, 160, 0, 'b'), ic("3B", 6, 3, 160, 0, 'c'),
    ic("0z", 2, 0, 0, 0, '-'), ic("1z", 2, 1, 76, 1, '-'), ic("4z", 6, 3, 80, 1, '-'),
];
impl ICode {
    pub fn cs(&self) -> usize {
        self.hs + self.ss
    }
    pub fn ms(&self) -> usize {
        self.ss - self.os
    }
    pub fn raw(&self) -> usize {
        (self.fs - self.cs()) * 3 / 4 - self.ls
    }
}
pub fn icode(c: &str) -> Option<&'static ICode> {
    ICODES.iter().find(|k| k.c == c)
}
/// the text form
pub fn indexed_qb64(c: &ICode, index: u32, ondex: u32, raw: &[u8]) -> Vec<u8> {
    let mut o = c.c.as_bytes().to_vec();
    o.extend(int64(index as u64, c.ms()));
    o.extend(int64(ondex as u64, c.os));
    let ps = (3 - raw.len() % 3) % 3;
    let mut p = vec![0u8; ps];
    p.extend_from_slice(raw);
    o.extend_from_slice(&enc(&p)[ps - c.ls..]);
    o
}

/// counter codes: code, soft size
pub const CCODES: [(&str, usize); 15] = [
    ("-A", 2), ("-B", 2), ("-C", 2), ("-D", 2), ("-E", 2), ("-F", 2), ("-G", 2), ("-H", 2), ("-I", 2), ("-J", 2),
    ("-K", 2), ("-L", 2), ("-V", 2), ("-0V", 5), ("--AAA", 3),
];
pub fn ccode(c: &str) -> Option<&'static (&'static str, usize)> {
    CCODES.iter().find(|k| k.0 == c)
}
/// value of Base64 digits
pub fn val64(t: &[u8]) -> u64 {
    let mut n = 0;
    for c in t {
        n = n << 6 | UNB64[*c as usize] as u64 & 63;
    }
    n
}
