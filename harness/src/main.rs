pub mod sym;
pub mod tab;

use cesride::Matter;
/// the Matter trait with no type-specific restriction
#[derive(Default, Debug, Clone, PartialEq)]
pub struct M {
    code: String,
    size: u32,
    raw: Vec<u8>,
}
impl Matter for M {
    fn code(&self) -> String {
        self.code.clone()
    }
    fn size(&self) -> u32 {
        self.size
    }
    fn raw(&self) -> Vec<u8> {
        self.raw.clone()
    }
    fn set_code(&mut self, code: &str) {
        self.code = code.to_string();
    }
    fn set_size(&mut self, size: u32) {
        self.size = size;
    }
    fn set_raw(&mut self, raw: &[u8]) {
        self.raw = raw.to_vec();
    }
}

use cesride::Indexer;
/// the Indexer trait with no type-specific restriction
#[derive(Default, Debug, Clone, PartialEq)]
pub struct I {
    code: String,
    raw: Vec<u8>,
    index: u32,
    ondex: u32,
}
impl Indexer for I {
    fn code(&self) -> String {
        self.code.clone()
    }
    fn set_code(&mut self, code: &str) {
        self.code = code.to_string();
    }
    fn raw(&self) -> Vec<u8> {
        self.raw.clone()
    }
    fn set_raw(&mut self, raw: &[u8]) {
        self.raw = raw.to_vec();
    }
    fn index(&self) -> u32 {
        self.index
    }
    fn set_index(&mut self, index: u32) {
        self.index = index;
    }
    fn ondex(&self) -> u32 {
        self.ondex
    }
    fn set_ondex(&mut self, ondex: u32) {
        self.ondex = ondex;
    }
}

macro_rules! mods {
    ($f:ident: $($m:ident { $($h:ident),* $(,)? })*) => {
        $(mod $m;)*
        pub fn $f(n: &str) -> bool {
            match n {
                $($(stringify!($h) => $m::$h(),)*)*
                _ => return false,
            }
            true
        }
    };
}
// the WebAssembly bindings, only built where they are the subject
#[cfg(feature = "wasm")]
mods! {
    bindings:
    c20 { h_c20_u128, h_c20_verfer, h_c20_diger, h_c20_cigar, h_c20_siger, h_c20_bexter, h_c20_dater, h_c20_signer, h_c20_salter, h_c20_stretch, h_c20_stretch_far, h_c20_saider, h_c20_saidify, h_c20_prefixer, h_c20_serder, h_c20_tholder, h_c20_value, h_c20_codex, h_c20_number, h_c20_seqner }
}
#[cfg(not(feature = "wasm"))]
fn bindings(_: &str) -> bool {
    false
}
pub fn dispatch(n: &str) -> bool {
    native(n) || bindings(n)
}
mods! {
    native:
    c01 { h_c01_fixed, h_c01_var, h_c01_varbig }
    c03 { h_c03_m_text, h_c03_m_bin, h_c03_m_code, h_c03_i_text, h_c03_i_bin, h_c03_i_code, h_c03_c_text, h_c03_c_bin, h_c03_c_code, h_c03_short, h_c03_shortbin, h_c03_semver, h_c03_big }
    c04 { h_c04_build, h_c04_text, h_c04_bin, h_c04_siger, h_c04_big, h_c04_set }
    c05 { h_c05_build, h_c05_text, h_c05_bin, h_c05_b64, h_c05_semver, h_c05_semver_str }
    c06 { h_c06_num, h_c06_sn, h_c06_hex, h_c06_raw, h_c06_short, h_c06_wide }
    c07 { h_c07_matter, h_c07_made, h_c07_any, h_c07_siger }
    c08 { h_c08_bext, h_c08_bext_utf8, h_c08_bext_big, h_c08_bext_parsed, h_c08_dts, h_c08_dts_any, h_c08_dts_parsed }
    c09 { h_c09_numeric, h_c09_weighted, h_c09_subset, h_c09_weights, h_c09_large, h_c09_many }
    c10 { h_c10_int, h_c10_hex, h_c10_weight, h_c10_shape, h_c10_limen_short, h_c10_limen_num, h_c10_limen_text, h_c10_large, h_c10_digits, h_c10_clauses }
    c11 { h_c11_round, h_c11_names, h_c11_text, h_c11_long, h_c11_sniff, h_c11_any, h_c11_size, h_c11_unsized }
    c12 { h_c12_saidify, h_c12_exact, h_c12_change, h_c12_ignore, h_c12_refuse, h_c12_codes, h_c12_long }
    c13 { h_c13_load, h_c13_said, h_c13_cut, h_c13_size, h_c13_json, h_c13_utf8, h_c13_refuse, h_c13_event, h_c13_credential, h_c13_pretty, h_c13_big, h_c13_escape }
    c14 { h_c14_key, h_c14_codes, h_c14_bound, h_c14_digest, h_c14_altered, h_c14_refuse, h_c14_given }
    c15 { h_c15_signer, h_c15_unindexed, h_c15_other, h_c15_cross, h_c15_indexed, h_c15_any, h_c15_salted, h_c15_long }
    c16 { h_c16_digest, h_c16_other, h_c16_compare, h_c16_codes, h_c16_long }
    c17 { h_c17_stretch, h_c17_signer, h_c17_distinct, h_c17_signers, h_c17_passed, h_c17_salt, h_c17_long, h_c17_many, h_c17_utf8 }
    c18 { h_c18_text, h_c18_string, h_c18_int, h_c18_float, h_c18_shape, h_c18_set, h_c18_from, h_c18_wide, h_c18_large, h_c18_twice }
    c19 { h_c19_parts, h_c19_text, h_c19_resolve, h_c19_views, h_c19_tail }
    c02 { h_c02_text, h_c02_short, h_c02_bin, h_c02_shortbin, h_c02_big, h_c02_tail }
}

#[cfg(feature = "symbolic")]
fn main() {
    // keeps every harness alive through link-time optimisation
    dispatch(&std::env::args().nth(1).unwrap());
}
#[cfg(not(feature = "symbolic"))]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let t = std::fs::read_to_string(&a[4]).unwrap();
    let mut inputs = vec![];
    for l in t.lines().filter(|l| !l.trim().is_empty() && !l.starts_with('#')) {
        let mut p = l.split_whitespace();
        let id: u32 = p.next().unwrap().parse().unwrap();
        let h = p.next().unwrap_or("");
        inputs.push((id, (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()));
    }
    sym::ST.with(|s| {
        let mut s = s.borrow_mut();
        s.inputs = inputs;
        s.case = a[2].parse().unwrap();
        s.tier = a[3].parse().unwrap();
    });
    let name = a[1].clone();
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        println!("REPLAY panic {} {}", l, i);
    }));
    match std::panic::catch_unwind(move || dispatch(&name)) {
        Ok(true) => {
            println!("REPLAY ok");
            std::process::exit(0)
        }
        Ok(false) => {
            println!("REPLAY no such harness");
            std::process::exit(9)
        }
        Err(_) => std::process::exit(if sym::PANICS_OK.load(std::sync::atomic::Ordering::SeqCst) { 0 } else { 1 }),
    }
}
