//! Ideal cryptography for symbolic execution: every primitive is an
//! uninterpreted *injective* function of (algorithm tag, input).  Injectivity
//! is the collision-resistance / unforgeability assumption of the properties.
extern "C" {
    fn sym_uf(alg: u32, i: *const u8, il: usize, o: *mut u8, ol: usize);
}
pub fn uf(family: u32, tag: &[u8], parts: &[&[u8]], out: &mut [u8]) {
    let mut v = Vec::with_capacity(tag.len() + parts.iter().map(|p| p.len()).sum::<usize>() + 8 * parts.len());
    v.extend_from_slice(tag);
    if parts.len() > 1 {
        for p in &parts[..parts.len() - 1] {
            v.extend_from_slice(&(p.len() as u64).to_le_bytes());
        }
    }
    for p in parts {
        v.extend_from_slice(p);
    }
    unsafe { sym_uf(family, v.as_ptr(), v.len(), out.as_mut_ptr(), out.len()) }
}
/// digest families are keyed by output length only, so digests of different
/// algorithms never collide either
pub fn hash(tag: &[u8], msg: &[u8], out: &mut [u8]) {
    uf(0x1000 + out.len() as u32, tag, &[msg], out)
}
pub fn public(tag: &[u8], sk: &[u8], out: &mut [u8]) {
    uf(0x2000 + out.len() as u32, tag, &[sk], out)
}
pub fn sign(tag: &[u8], pk: &[u8], msg: &[u8], out: &mut [u8; 64]) {
    uf(0x3000, tag, &[pk, msg], out)
}
pub fn same(a: &[u8], b: &[u8]) -> bool {
    extern "C" {
        fn sym_eq(a: *const u8, al: usize, b: *const u8, bl: usize) -> bool;
    }
    unsafe { sym_eq(a.as_ptr(), a.len(), b.as_ptr(), b.len()) }
}

/// an arbitrary function (not injective): an injective one projected by the caller
pub fn uf_any(tag: &[u8], input: &[u8], out: &mut [u8; 1]) {
    let mut o = [0u8; 40];
    uf(0x2200, tag, &[input], &mut o);
    out[0] = o[0];
}
