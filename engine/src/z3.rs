//! Minimal FFI to libz3 and translation of the expression DAG.
#![allow(non_camel_case_types, non_snake_case)]
use crate::expr::*;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_uint));
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, o: *mut u64) -> bool;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_iff(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
}

extern "C" fn on_err(_c: P, e: c_uint) {
    eprintln!("z3 error {}", e);
    std::process::abort();
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

pub struct Z3 {
    c: P,
    s: P,
    bv: FxMap<E, P>,
    bo: FxMap<E, P>,
    bits: FxMap<(E, u32), P>,
    bdd: FxMap<(E, Vec<u64>, u16), P>,
    vars: Vec<P>,
    t: P,
    f: P,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
    pub dump: Option<String>,
    pub cross: Option<(String, u64, f64)>, // external cross-check command, count, time
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, on_err);
            let s = if std::env::var("SYMEX_SMT").is_ok() {
                Z3_mk_simple_solver(c)
            } else {
                let l = CString::new("QF_BV").unwrap();
                Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()))
            };
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Z3 {
                c,
                s,
                bv: Default::default(),
                bo: Default::default(),
                bits: Default::default(),
                bdd: Default::default(),
                vars: vec![],
                t: Z3_mk_true(c),
                f: Z3_mk_false(c),
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time: 0.0,
                max_time: 0.0,
                dump: None,
                cross: None,
            }
        }
    }
    fn var(&mut self, v: u32) -> P {
        while self.vars.len() <= v as usize {
            let n = CString::new(format!("v{}", self.vars.len())).unwrap();
            unsafe {
                let x = Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), Z3_mk_bv_sort(self.c, 8));
                self.vars.push(x);
            }
        }
        self.vars[v as usize]
    }
    fn num(&mut self, w: u16, v: u128) -> P {
        unsafe {
            if w <= 64 {
                Z3_mk_unsigned_int64(self.c, v as u64, Z3_mk_bv_sort(self.c, w as u32))
            } else {
                let l = Z3_mk_unsigned_int64(self.c, v as u64, Z3_mk_bv_sort(self.c, 64));
                let h = Z3_mk_unsigned_int64(self.c, (v >> 64) as u64, Z3_mk_bv_sort(self.c, w as u32 - 64));
                Z3_mk_concat(self.c, h, l)
            }
        }
    }
    fn idx_bit(&mut self, x: &Ctx, idx: E, bit: u32) -> P {
        if let Some(&p) = self.bits.get(&(idx, bit)) {
            return p;
        }
        let i = self.tbv(x, idx);
        let p = unsafe {
            let b = Z3_mk_extract(self.c, bit, bit, i);
            let one = self.num(1, 1);
            Z3_mk_eq(self.c, b, one)
        };
        self.bits.insert((idx, bit), p);
        p
    }
    /// reduced decision diagram over the index bits
    fn dd(&mut self, x: &Ctx, idx: E, bits: &[u64], lg: u16) -> P {
        // bits: packed truth table of 2^lg entries
        let n = 1usize << lg;
        let get = |i: usize| bits[i >> 6] >> (i & 63) & 1;
        let first = get(0);
        if (0..n).all(|i| get(i) == first) {
            return if first == 1 { self.t } else { self.f };
        }
        let key = (idx, bits.to_vec(), lg);
        if let Some(&p) = self.bdd.get(&key) {
            return p;
        }
        let h = n / 2;
        let mut lo = vec![0u64; h.div_ceil(64)];
        let mut hi = vec![0u64; h.div_ceil(64)];
        for i in 0..h {
            lo[i >> 6] |= get(i) << (i & 63);
            hi[i >> 6] |= get(i + h) << (i & 63);
        }
        let l = self.dd(x, idx, &lo, lg - 1);
        let r = self.dd(x, idx, &hi, lg - 1);
        let p = if l == r {
            l
        } else {
            let b = self.idx_bit(x, idx, lg as u32 - 1);
            unsafe { Z3_mk_ite(self.c, b, r, l) }
        };
        self.bdd.insert(key, p);
        p
    }
    fn lut_bit(&mut self, x: &Ctx, n: Node, bit: u16) -> P {
        let v = &x.tables[n.a as usize].v;
        let mut bits = vec![0u64; v.len().div_ceil(64)];
        for (i, &q) in v.iter().enumerate() {
            bits[i >> 6] |= (q >> bit & 1) << (i & 63);
        }
        let lg = v.len().trailing_zeros() as u16;
        self.dd(x, n.b, &bits, lg)
    }
    pub fn tbool(&mut self, x: &Ctx, e: E) -> P {
        if let Some(&p) = self.bo.get(&e) {
            return p;
        }
        let n = x.n(e);
        debug_assert_eq!(n.w, 1);
        let c = self.c;
        let p = unsafe {
            match n.op {
                Op::Const => {
                    if x.consts[n.a as usize] != 0 {
                        self.t
                    } else {
                        self.f
                    }
                }
                Op::Lut => self.lut_bit(x, n, 0),
                Op::Not => {
                    let a = self.tbool(x, n.a);
                    Z3_mk_not(c, a)
                }
                Op::And => {
                    let v = [self.tbool(x, n.a), self.tbool(x, n.b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                Op::Or => {
                    let v = [self.tbool(x, n.a), self.tbool(x, n.b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                Op::Xor | Op::Add => {
                    let (a, b) = (self.tbool(x, n.a), self.tbool(x, n.b));
                    Z3_mk_xor(c, a, b)
                }
                Op::Eq if x.w(n.a) == 1 => {
                    let (a, b) = (self.tbool(x, n.a), self.tbool(x, n.b));
                    Z3_mk_iff(c, a, b)
                }
                Op::Eq => {
                    let (a, b) = (self.tbv(x, n.a), self.tbv(x, n.b));
                    Z3_mk_eq(c, a, b)
                }
                Op::Ult => {
                    let (a, b) = (self.tbv(x, n.a), self.tbv(x, n.b));
                    Z3_mk_bvult(c, a, b)
                }
                Op::Slt => {
                    let (a, b) = (self.tbv(x, n.a), self.tbv(x, n.b));
                    Z3_mk_bvslt(c, a, b)
                }
                Op::Ite => {
                    let (k, a, b) = (self.tbool(x, n.a), self.tbool(x, n.b), self.tbool(x, n.c));
                    Z3_mk_ite(c, k, a, b)
                }
                _ => {
                    let b = self.tbv_raw(x, e, n);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, b, one)
                }
            }
        };
        self.bo.insert(e, p);
        p
    }
    pub fn tbv(&mut self, x: &Ctx, e: E) -> P {
        if let Some(&p) = self.bv.get(&e) {
            return p;
        }
        let n = x.n(e);
        let p = if n.w == 1 && !matches!(n.op, Op::Extract | Op::Var) {
            let b = self.tbool(x, e);
            let (o, z) = (self.num(1, 1), self.num(1, 0));
            unsafe { Z3_mk_ite(self.c, b, o, z) }
        } else {
            self.tbv_raw(x, e, n)
        };
        self.bv.insert(e, p);
        p
    }
    fn tbv_raw(&mut self, x: &Ctx, _e: E, n: Node) -> P {
        let c = self.c;
        unsafe {
            match n.op {
                Op::Const => self.num(n.w, x.consts[n.a as usize]),
                Op::Var => self.var(n.a),
                Op::Lut => {
                    let (o, z) = (self.num(1, 1), self.num(1, 0));
                    let mut r: P = std::ptr::null_mut();
                    for i in 0..n.w {
                        let b = self.lut_bit(x, n, i);
                        let v = Z3_mk_ite(c, b, o, z);
                        r = if i == 0 { v } else { Z3_mk_concat(c, v, r) };
                    }
                    r
                }
                Op::Concat => {
                    let (a, b) = (self.tbv(x, n.a), self.tbv(x, n.b));
                    Z3_mk_concat(c, a, b)
                }
                Op::Extract => {
                    let a = self.tbv(x, n.a);
                    Z3_mk_extract(c, n.b + n.w as u32 - 1, n.b, a)
                }
                Op::SExt => {
                    let a = self.tbv(x, n.a);
                    Z3_mk_sign_ext(c, (n.w - x.w(n.a)) as u32, a)
                }
                Op::Not => {
                    let a = self.tbv(x, n.a);
                    Z3_mk_bvnot(c, a)
                }
                Op::Ite => {
                    let (k, a, b) = (self.tbool(x, n.a), self.tbv(x, n.b), self.tbv(x, n.c));
                    Z3_mk_ite(c, k, a, b)
                }
                _ => {
                    let (a, b) = (self.tbv(x, n.a), self.tbv(x, n.b));
                    match n.op {
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        _ => unreachable!("{:?}", n.op),
                    }
                }
            }
        }
    }
    pub fn dom(&mut self, x: &Ctx, var: u32, set: &Bits256) -> P {
        self.dd(x, x.vars[var as usize], set, 8)
    }
    /// conjunction check; returns values for `vars` when satisfiable
    pub fn check(&mut self, asserts: &[P], vars: &[u32]) -> (Res, Vec<u8>) {
        let t0 = Instant::now();
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            for &a in asserts {
                Z3_solver_assert(self.c, self.s, a);
            }
            let mut text = None;
            if self.dump.is_some() || self.cross.is_some() {
                text = Some(std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned());
            }
            let r = match Z3_solver_check(self.c, self.s) {
                1 => Res::Sat,
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            let mut out = vec![];
            if r == Res::Sat {
                let m = Z3_solver_get_model(self.c, self.s);
                Z3_model_inc_ref(self.c, m);
                for &v in vars {
                    let p = self.var(v);
                    let mut o: P = std::ptr::null_mut();
                    Z3_model_eval(self.c, m, p, true, &mut o);
                    let mut n = 0u64;
                    Z3_get_numeral_uint64(self.c, o, &mut n);
                    out.push(n as u8);
                }
                Z3_model_dec_ref(self.c, m);
            }
            Z3_solver_pop(self.c, self.s, 1);
            if let (Some(t), Some(d)) = (&text, &self.dump) {
                let _ = std::fs::write(format!("{}/q{}.smt2", d, self.queries), format!("(set-logic QF_BV)\n{}\n(check-sat)\n", t));
            }
            if let (Some(t), Some(c)) = (text, self.cross.as_mut()) {
                crate::cross_check(c, &t, r);
            }
            (r, out)
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt
        }
        self.queries += 1;
        match r.0 {
            Res::Sat => self.sat += 1,
            Res::Unsat => self.unsat += 1,
            Res::Unknown => self.unknown += 1,
        }
        r
    }
}
