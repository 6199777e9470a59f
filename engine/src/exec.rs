//! Symbolic execution of a parsed LLVM module.
use crate::expr::*;
use crate::ir::*;
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Vec<E>>, // 0 = concrete
    pub live: bool,
}

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub body: Rc<Body>,
    pub regs: Vec<V>,
    pub blk: u32,
    pub pc: u32,
    pub prev: u32,
    pub allocas: Vec<u32>,
    pub ret: Option<u32>,
    pub normal: Option<u32>,
}

#[derive(Clone)]
pub struct Input {
    pub id: u32,
    pub start: u32,
    pub len: u32,
}

pub struct UfApp {
    alg: u32,
    inp: Vec<E>,
    out: Vec<E>,
}

#[derive(Clone)]
pub struct State {
    top: Frame,
    callers: Vec<Rc<Frame>>,
    gmem: Vec<Rc<Obj>>,
    mem: Vec<Option<Rc<Obj>>>,
    free: Vec<u32>,
    cons: Vec<(E, Rc<Vec<u32>>)>,
    dom: Vec<Option<Rc<Bits256>>>,
    invars: Vec<u64>,
    model: Rc<Vec<u8>>,
    inputs: Vec<Input>,
    ufs: Vec<Rc<UfApp>>,
    fixed: HashMap<E, u128>,
    panics_ok: bool,
    notes: Vec<String>,
    cov: Vec<String>,
    depth: u32,
}

pub enum Stop {
    Done,
    Assume,
    Panic(String, String),
    Unsupported(String),
    Forked, // the instruction was re-queued in every successor
}
type R<T> = Result<T, Stop>;

#[derive(Clone)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub loc: String,
    pub inputs: Vec<(u32, Vec<u8>)>,
    pub notes: Vec<String>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub completed: u64,
    pub assumed: u64,
    pub panics: u64,
    pub panics_ok: u64,
    pub forks: u64,
    pub merges: u64,
    pub instrs: u64,
    pub asserts: u64,
    pub asserts_trivial: u64,
    pub asserts_solver: u64,
    pub unary: u64,
    pub cached: u64,
    pub modelhits: u64,
    pub unknown: u64,
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Special {
    None,
    Panic,
    Ext(u8),
    Missing,
    /// Debug rendering of text or bytes: 0 (pointer, length), 1 a reference to that,
    /// 2 a vector, 3 a reference to one
    Debug(u8),
}

pub struct Limits {
    pub time: f64,
    pub paths: u64,
    pub max_enum: usize,
}

pub struct Engine<'m> {
    pub m: &'m Module,
    pub x: Ctx,
    pub z: Z3,
    ro: Vec<Option<Rc<Obj>>>,
    gslot: Vec<u32>, // index into gmem for mutable globals
    ginit: Vec<Rc<Obj>>,
    nglob: u64,
    special: Vec<Special>,
    work: Vec<State>,
    pub st: Stats,
    pub viol: Vec<Violation>,
    pub samples: Vec<(Vec<String>, Vec<(u32, Vec<u8>)>)>,
    pub incomplete: BTreeMap<String, u64>,
    pub covers: BTreeMap<String, u64>,
    pub visited: Vec<Option<Vec<bool>>>,
    cache: FxMap<Vec<u64>, Option<Vec<(u32, u8)>>>,
    recent: Vec<Rc<Vec<u8>>>,
    pub lim: Limits,
    pub case: u64,
    pub tier: u64,
    pub concrete: Option<Vec<(u32, Vec<u8>)>>,
    cpos: usize,
    pub verbose: bool,
    pub start: Instant,
    tdepth: u32,
    pub maxdepth: u32,
    pub profile: HashMap<(u32, u32, u32), u64>,
}

const EXT: &[&str] = &[
    "malloc",
    "calloc",
    "realloc",
    "free",
    "posix_memalign",
    "aligned_alloc",
    "memcmp",
    "bcmp",
    "strlen",
    "memchr",
    "syscall",
    "getrandom",
    "abort",
    "write",
    "getenv",
    "__errno_location",
    "clock_gettime",
    "sym_bytes",
    "sym_assume",
    "sym_assert",
    "sym_case",
    "sym_tier",
    "sym_conc",
    "sym_uf",
    "sym_eq",
    "sym_cover",
    "sym_note",
    "sym_panics_ok",
    "sym_fail",
    "memcpy",
    "memmove",
    "memset",
    "sym_ite",
    "sym_is_native",
];

fn ext_id(n: &str) -> Option<u8> {
    EXT.iter().position(|&e| e == n).map(|i| i as u8)
}

fn classify(name: &str, defined: bool) -> Special {
    if let Some(i) = ext_id(name) {
        if !defined || name.starts_with("sym_") || name == "memcmp" || name == "bcmp" || name == "memcpy" || name == "memmove" || name == "memset" {
            return Special::Ext(i);
        }
    }
    let pn = name.contains("4core9panicking") || name.contains("3std9panicking");
    let is = |s: &str| name.contains(s);
    if (pn
        && (is("9panic_fmt")
            || is("18panic_bounds_check")
            || is("9panicking5panic")
            || is("panic_const")
            || is("assert_failed")
            || is("panic_nounwind")
            || is("panic_cannot_unwind")
            || is("panic_in_cleanup")
            || is("panic_display")
            || is("panic_str")
            || is("panic_explicit")
            || is("unreachable_display")
            || is("panic_misaligned")
            || is("panic_null")
            || is("panic_with_hook")
            || is("11begin_panic")))
        && !is("panic_count")
        || is("16slice_index_fail")
        || is("16slice_error_fail")
        || is("13unwrap_failed")
        || is("13expect_failed")
        || is("18handle_alloc_error")
        || is("17capacity_overflow")
        || is("7raw_vec12handle_error")
        || is("len_mismatch_fail")
        || is("overflow_panic")
        || is("panic_on_ord_violation")
        || is("slice_start_index_len_fail")
        || is("slice_end_index_len_fail")
        || is("slice_index_order_fail")
        || is("end_after_start")
        || is("panic_already_borrowed")
        || is("panic_already_mutably_borrowed")
        || is("panic_access_error")
        || is("17rust_begin_unwind")
        || (is("panicking") && is("do_panic"))
        || (is("6option") && is("_failed"))
        || is("_assert_failed")
        || is("split_off4impl") && is("assert_failed")
    {
        return Special::Panic;
    }
    if !defined {
        return Special::Missing;
    }
    if is("5Debug3fmt") {
        for (t, k) in [
            ("4core3fmteNt", 0),
            ("4core3fmtShNt", 0),
            ("4core3fmtReNt", 1),
            ("4core3fmtRShNt", 1),
            ("3VechENt", 2),
            ("6stringNtB5_6StringNt", 2),
            ("4core3fmtRINtNtCsgFX3jaOk65H_5alloc3vec3VechENt", 3),
        ] {
            if is(t) {
                let k = if k == 2 && is("4core3fmtR") { 3 } else { k };
                return Special::Debug(k);
            }
        }
    }
    Special::None
}

/// conjuncts of an assertion that are decided in one query
const CHUNK: usize = 8;

/// what all jobs on a module share
pub struct Base {
    ro: Vec<Option<Rc<Obj>>>,
    gslot: Vec<u32>,
    ginit: Vec<Rc<Obj>>,
    special: Vec<Special>,
}
impl Base {
    pub fn new(m: &Module) -> Base {
        let mut ro = vec![];
        let mut gslot = vec![];
        let mut ginit = vec![];
        for g in &m.globals {
            let o = Rc::new(Obj { data: m.init_bytes(g), sym: None, live: true });
            if g.constant {
                ro.push(Some(o));
                gslot.push(u32::MAX);
            } else {
                ro.push(None);
                gslot.push(ginit.len() as u32);
                ginit.push(o);
            }
        }
        let special = m.funcs.iter().map(|f| classify(&f.name, f.text.is_some())).collect();
        Base { ro, gslot, ginit, special }
    }
}

impl<'m> Engine<'m> {
    pub fn new(m: &'m Module, base: &Base, timeout_ms: u32) -> Self {
        Engine {
            nglob: m.globals.len() as u64,
            visited: m.funcs.iter().map(|_| None).collect(),
            m,
            x: Ctx::new(),
            z: Z3::new(timeout_ms),
            ro: base.ro.clone(),
            gslot: base.gslot.clone(),
            ginit: base.ginit.clone(),
            special: base.special.clone(),
            work: vec![],
            st: Default::default(),
            samples: vec![],
            viol: vec![],
            incomplete: Default::default(),
            covers: Default::default(),
            cache: Default::default(),
            recent: vec![],
            lim: Limits { time: 1e9, paths: u64::MAX, max_enum: 300 },
            case: 0,
            tier: 0,
            concrete: None,
            cpos: 0,
            verbose: false,
            start: Instant::now(),
            tdepth: 0,
            maxdepth: 0,
            profile: HashMap::new(),
        }
    }

    fn frame(&self, f: u32, args: Vec<V>, ret: Option<u32>, normal: Option<u32>) -> R<Frame> {
        let body = match self.m.body(f) {
            Some(b) => b,
            None => return Err(Stop::Unsupported(format!("call to undefined {}", self.m.funcs[f as usize].name))),
        };
        let mut regs = vec![V::Undef; body.nregs as usize];
        for (p, a) in body.params.iter().zip(args) {
            regs[*p as usize] = a;
        }
        Ok(Frame { f, body, regs, blk: 0, pc: 0, prev: u32::MAX, allocas: vec![], ret, normal })
    }

    pub fn run(&mut self, f: u32) {
        let top = match self.frame(f, vec![], None, None) {
            Ok(t) => t,
            Err(_) => {
                *self.incomplete.entry("no entry".into()).or_insert(0) += 1;
                return;
            }
        };
        self.visit(f, 0);
        let st = State {
            top,
            callers: vec![],
            gmem: self.ginit.clone(),
            mem: vec![],
            free: vec![],
            cons: vec![],
            dom: vec![],
            invars: vec![],
            model: Rc::new(vec![]),
            inputs: vec![],
            ufs: vec![],
            fixed: HashMap::new(),
            panics_ok: false,
            notes: vec![],
            cov: vec![],
            depth: 0,
        };
        self.work.push(st);
        while let Some(mut s) = self.work.pop() {
            if self.start.elapsed().as_secs_f64() > self.lim.time || self.st.paths >= self.lim.paths {
                *self.incomplete.entry("time or path limit".into()).or_insert(0) += 1 + self.work.len() as u64;
                self.work.clear();
                break;
            }
            let r = self.run_state(&mut s);
            match r {
                Stop::Forked => continue,
                _ => {}
            }
            self.st.paths += 1;
            self.maxdepth = self.maxdepth.max(s.depth);
            match r {
                Stop::Done => {
                    self.st.completed += 1;
                    if self.samples.len() < 4 && !self.samples.iter().any(|x| x.0 == s.cov) {
                        let i = self.inputs_of(&s, &s.model.clone());
                        self.samples.push((s.cov.clone(), i));
                    }
                }
                Stop::Assume => self.st.assumed += 1,
                Stop::Panic(msg, loc) => {
                    self.st.panics += 1;
                    if s.panics_ok {
                        self.st.panics_ok += 1;
                    } else {
                        self.violation(&s, "panic", &msg, &loc, None);
                    }
                }
                Stop::Unsupported(u) => {
                    if self.verbose {
                        eprintln!("unsupported: {} at\n{}", u, self.trace(&s));
                    }
                    *self.incomplete.entry(u).or_insert(0) += 1;
                }
                Stop::Forked => unreachable!(),
            }
        }
    }

    pub fn trace(&self, s: &State) -> String {
        let mut out = String::new();
        let mut one = |f: &Frame| {
            let b = &f.body.blocks[f.blk as usize];
            let d = b.dbg.get(f.pc as usize).copied().unwrap_or(0);
            out.push_str(&format!("   {} blk{} pc{} !{}\n", self.m.funcs[f.f as usize].name, f.blk, f.pc, d));
        };
        one(&s.top);
        for c in s.callers.iter().rev() {
            one(c);
        }
        out
    }

    fn inputs_of(&self, s: &State, m: &Rc<Vec<u8>>) -> Vec<(u32, Vec<u8>)> {
        s.inputs
            .iter()
            .map(|i| (i.id, (i.start..i.start + i.len).map(|v| m.get(v as usize).copied().unwrap_or(0)).collect()))
            .collect()
    }

    fn violation(&mut self, s: &State, kind: &str, msg: &str, loc: &str, model: Option<Rc<Vec<u8>>>) {
        let same = self.viol.iter().filter(|v| v.kind == kind && v.msg == msg && v.loc == loc).count();
        if same >= 2 {
            return;
        }
        let m = model.unwrap_or(s.model.clone());
        let inputs = self.inputs_of(s, &m);
        if self.verbose {
            eprintln!("VIOLATION {} {} {}\n{}", kind, msg, loc, self.trace(s));
        }
        self.viol.push(Violation { kind: kind.into(), msg: msg.into(), loc: loc.into(), inputs, notes: s.notes.clone() });
    }

    fn visit(&mut self, f: u32, b: u32) {
        let m = self.m;
        let v = self.visited[f as usize].get_or_insert_with(|| {
            let n = m.body(f).map(|b| b.blocks.len()).unwrap_or(0);
            vec![false; n]
        });
        v[b as usize] = true;
    }

    // ---------------------------------------------------------------- values
    fn bits(&mut self, v: &V, w: u16) -> R<E> {
        match v {
            V::C(c) => Ok(self.x.cst(w, *c)),
            V::S(e) => Ok(*e),
            V::Undef => Ok(self.x.cst(w, 0)),
            V::F(n) => self.fbits(&n.clone()),
            V::A(_) => Err(Stop::Unsupported("aggregate used as bits".into())),
        }
    }
    fn vof(&self, e: E) -> V {
        match self.x.as_const(e) {
            Some(c) => V::C(c),
            None => V::S(e),
        }
    }
    #[inline]
    fn get(&self, s: &State, o: &Opnd) -> V {
        match o {
            Opnd::R(r) => {
                let v = &s.top.regs[*r as usize];
                if let V::S(e) = v {
                    if let Some(&c) = s.fixed.get(e) {
                        return V::C(c);
                    }
                }
                v.clone()
            }
            Opnd::K(v) => v.clone(),
        }
    }

    // ---------------------------------------------------------------- solver
    fn dom_of(&self, s: &State, v: u32) -> Option<Rc<Bits256>> {
        s.dom.get(v as usize).cloned().flatten()
    }
    fn in_multi(&self, s: &State, v: u32) -> bool {
        s.invars.get(v as usize / 64).map(|b| b >> (v % 64) & 1 == 1).unwrap_or(false)
    }

    /// Is `cond` satisfiable together with the path condition?  Returns a model.
    fn feasible(&mut self, s: &State, cond: E) -> Option<Rc<Vec<u8>>> {
        if let Some(c) = self.x.as_const(cond) {
            return if c != 0 { Some(s.model.clone()) } else { None };
        }
        if self.x.eval(cond, &s.model) != 0 {
            self.st.modelhits += 1;
            return Some(s.model.clone());
        }
        self.solve(s, cond, false)
    }

    fn single(s: &State, v: u32) -> bool {
        match s.dom.get(v as usize) {
            Some(Some(d)) => d.iter().map(|x| x.count_ones()).sum::<u32>() == 1,
            _ => false,
        }
    }
    /// after an equality was assumed: variables of `e` that now have one value only
    fn pin(&mut self, s: &mut State, e: E, max: usize) {
        let sup = self.x.support(e);
        if sup.len() < 2 || sup.len() > max {
            return;
        }
        for &v in sup.iter() {
            if Self::single(s, v) {
                continue;
            }
            let x = self.x.vars[v as usize];
            let b = s.model.get(v as usize).copied().unwrap_or(0);
            let k = self.x.cst(8, b as u128);
            let c = self.x.eq(x, k);
            let nc = self.x.not(c);
            if self.solve(s, nc, false).is_none() {
                self.constrain(s, c);
            }
        }
    }

    /// `e` has one value left on this path: remember it, and what it implies
    /// for the expressions it is built from
    fn fix(&mut self, s: &mut State, e: E, v: u128, d: u32) {
        if self.x.as_const(e).is_some() || s.fixed.insert(e, v).is_some() || d == 0 {
            return;
        }
        let n = self.x.n(e);
        let m = mask(n.w);
        match n.op {
            Op::Concat => {
                let lw = self.x.w(n.b);
                self.fix(s, n.a, v >> lw, d - 1);
                self.fix(s, n.b, v & mask(lw), d - 1);
            }
            Op::SExt => {
                let v = v & mask(self.x.w(n.a));
                self.fix(s, n.a, v, d - 1);
            }
            Op::Add | Op::Xor | Op::Mul => {
                let (k, o) = match (self.x.as_const(n.a), self.x.as_const(n.b)) {
                    (Some(k), None) => (k, n.b),
                    (None, Some(k)) => (k, n.a),
                    _ => return,
                };
                match n.op {
                    Op::Add => self.fix(s, o, v.wrapping_sub(k) & m, d - 1),
                    Op::Xor => self.fix(s, o, v ^ k, d - 1),
                    _ if k & 1 == 1 => {
                        let mut i: u128 = 1;
                        for _ in 0..7 {
                            i = i.wrapping_mul(2u128.wrapping_sub(k.wrapping_mul(i)));
                        }
                        self.fix(s, o, v.wrapping_mul(i) & m, d - 1)
                    }
                    _ => (),
                }
            }
            Op::Ite => {
                let can = |x: &Ctx, e: E| x.small_vals(e, 8).map_or(true, |l| l.contains(&v));
                let (a, b) = (can(&self.x, n.b), can(&self.x, n.c));
                if a && !b {
                    s.fixed.insert(n.a, 1);
                    self.constrain(s, n.a);
                    self.fix(s, n.b, v, d - 1);
                } else if b && !a {
                    s.fixed.insert(n.a, 0);
                    let c = self.x.not(n.a);
                    self.constrain(s, c);
                    self.fix(s, n.c, v, d - 1);
                }
            }
            _ => (),
        }
    }
    /// enumerate a value that has few possible values
    fn conc_small(&mut self, s: &mut State, v: V) -> R<V> {
        if let V::S(e) = &v {
            if self.x.small_vals(*e, 6).is_some() {
                return Ok(V::C(self.conc(s, &v)?));
            }
        }
        Ok(v)
    }

    fn solve(&mut self, s: &State, cond: E, force: bool) -> Option<Rc<Vec<u8>>> {
        let sup = self.x.support(cond);
        if !force && sup.iter().all(|&v| Self::single(s, v)) {
            // the condition is false under the only possible values
            return if self.x.eval(cond, &s.model) != 0 { Some(s.model.clone()) } else { None };
        }
        if sup.len() == 1 && !force {
            let v = sup[0];
            let set = self.x.unary_set(cond);
            let mut r = *set;
            if let Some(d) = self.dom_of(s, v) {
                for i in 0..4 {
                    r[i] &= d[i]
                }
            }
            if r == [0; 4] {
                self.st.unary += 1;
                return None;
            }
            if !self.in_multi(s, v) {
                self.st.unary += 1;
                let b = (0..256).find(|&i| r[i >> 6] >> (i & 63) & 1 == 1).unwrap();
                let mut m = (*s.model).clone();
                if m.len() <= v as usize {
                    m.resize(v as usize + 1, 0);
                }
                m[v as usize] = b as u8;
                return Some(Rc::new(m));
            }
        }
        // slice
        let mut vars: Vec<u32> = sup.to_vec();
        let mut inset: std::collections::HashSet<u32, Fx> = vars.iter().copied().collect();
        let mut cons: Vec<E> = vec![];
        let mut used = vec![false; s.cons.len()];
        loop {
            let mut ch = false;
            for (i, (c, sp)) in s.cons.iter().enumerate() {
                if used[i] {
                    continue;
                }
                if sp.iter().any(|v| inset.contains(v)) {
                    used[i] = true;
                    cons.push(*c);
                    for &v in sp.iter() {
                        if inset.insert(v) {
                            vars.push(v);
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        // recent models
        if !force {
            for k in (0..self.recent.len()).rev() {
                let m = self.recent[k].clone();
                if self.x.eval(cond, &m) == 0 {
                    continue;
                }
                let ok = vars.iter().all(|&v| {
                    let b = m.get(v as usize).copied().unwrap_or(0) as usize;
                    match s.dom.get(v as usize) {
                        Some(Some(d)) => d[b >> 6] >> (b & 63) & 1 == 1,
                        _ => true,
                    }
                }) && cons.iter().all(|&c| self.x.eval(c, &m) != 0);
                if ok {
                    self.st.modelhits += 1;
                    let mut nm = (*s.model).clone();
                    for &v in &vars {
                        if nm.len() <= v as usize {
                            nm.resize(v as usize + 1, 0);
                        }
                        nm[v as usize] = m.get(v as usize).copied().unwrap_or(0);
                    }
                    return Some(Rc::new(nm));
                }
            }
        }
        vars.sort_unstable();
        cons.sort_unstable();
        let mut key: Vec<u64> = vec![cond as u64];
        key.extend(cons.iter().map(|&c| c as u64));
        key.push(u64::MAX);
        for &v in &vars {
            if let Some(Some(d)) = s.dom.get(v as usize) {
                key.push(v as u64);
                key.extend_from_slice(&d[..]);
            }
        }
        let over = |m: &Vec<(u32, u8)>| {
            let mut nm = (*s.model).clone();
            for &(v, b) in m {
                if nm.len() <= v as usize {
                    nm.resize(v as usize + 1, 0);
                }
                nm[v as usize] = b;
            }
            Rc::new(nm)
        };
        if !force {
            if let Some(r) = self.cache.get(&key) {
                self.st.cached += 1;
                return r.as_ref().map(over);
            }
        }
        let mut asserts = vec![self.z.tbool(&self.x, cond)];
        for &c in &cons {
            let p = self.z.tbool(&self.x, c);
            asserts.push(p);
        }
        for &v in &vars {
            if let Some(Some(d)) = s.dom.get(v as usize) {
                let p = self.z.dom(&self.x, v, d);
                asserts.push(p);
            }
        }
        if self.verbose {
            eprintln!("QUERY {} || {}", self.x.show(cond, 6), cons.iter().map(|&c| self.x.show(c, 6)).collect::<Vec<_>>().join(" ; "));
        }
        let t0 = self.z.time;
        let (r, vals) = self.z.check(&asserts, &vars);
        if self.verbose {
            eprintln!("  TIME {:.3} {}", self.z.time - t0, matches!(r, Res::Sat));
        }
        match r {
            Res::Sat => {
                let mv: Vec<(u32, u8)> = vars.iter().copied().zip(vals).collect();
                let nm = over(&mv);
                debug_assert!(self.x.eval(cond, &nm) != 0);
                self.cache.insert(key, Some(mv));
                self.recent.push(nm.clone());
                if self.recent.len() > 12 {
                    self.recent.remove(0);
                }
                Some(nm)
            }
            Res::Unsat => {
                self.cache.insert(key, None);
                None
            }
            Res::Unknown => {
                self.st.unknown += 1;
                *self.incomplete.entry("solver gave no answer".into()).or_insert(0) += 1;
                None
            }
        }
    }

    /// a model of the path condition in which `e` is false; a conjunction is
    /// decided a few conjuncts at a time
    fn refute(&mut self, s: &State, e: E) -> Option<Rc<Vec<u8>>> {
        let (mut todo, mut parts) = (vec![e], vec![]);
        while let Some(e) = todo.pop() {
            let n = self.x.n(e);
            if n.op == Op::And && n.w == 1 {
                todo.push(n.b);
                todo.push(n.a);
            } else if !parts.contains(&e) {
                parts.push(e);
            }
        }
        if parts.len() <= CHUNK {
            let ne = self.x.not(e);
            return self.solve(s, ne, true);
        }
        for c in parts.chunks(CHUNK) {
            let mut ne = self.x.cst(1, 0);
            for &p in c {
                let n = self.x.not(p);
                ne = self.x.bin(Op::Or, ne, n);
            }
            if self.x.as_const(ne) == Some(0) {
                continue;
            }
            if let Some(m) = self.solve(s, ne, false) {
                return Some(m);
            }
        }
        None
    }

    fn constrain(&mut self, s: &mut State, cond: E) {
        if self.x.as_const(cond).is_some() {
            return;
        }
        let n = self.x.n(cond);
        if n.op == Op::And {
            self.constrain(s, n.a);
            self.constrain(s, n.b);
            return;
        }
        if n.op == Op::Not {
            let k = self.x.n(n.a);
            if k.op == Op::Or {
                let (a, b) = (self.x.not(k.a), self.x.not(k.b));
                self.constrain(s, a);
                self.constrain(s, b);
                return;
            }
        }
        let sup = self.x.support(cond);
        if sup.len() == 1 {
            let v = sup[0] as usize;
            let set = self.x.unary_set(cond);
            while s.dom.len() <= v {
                s.dom.push(None);
            }
            let mut r = *set;
            if let Some(d) = &s.dom[v] {
                for i in 0..4 {
                    r[i] &= d[i]
                }
            }
            s.dom[v] = Some(Rc::new(r));
            return;
        }
        if s.cons.iter().any(|c| c.0 == cond) {
            return;
        }
        for &v in sup.iter() {
            let k = v as usize / 64;
            while s.invars.len() <= k {
                s.invars.push(0);
            }
            s.invars[k] |= 1 << (v % 64);
        }
        s.cons.push((cond, sup));
    }

    /// decide a condition on the current path, forking when both sides are possible
    fn decide(&mut self, s: &mut State, cond: E) -> R<bool> {
        if let Some(c) = self.x.as_const(cond) {
            return Ok(c != 0);
        }
        if let Some(&c) = s.fixed.get(&cond) {
            return Ok(c != 0);
        }
        let nc = self.x.not(cond);
        let cur = self.x.eval(cond, &s.model) != 0;
        let other = if cur { nc } else { cond };
        let om = self.feasible(s, other);
        if let Some(m) = om {
            let mut o = s.clone();
            o.model = m;
            o.depth += 1;
            self.constrain(&mut o, other);
            o.fixed.insert(cond, !cur as u128);
            self.work.push(o);
            self.st.forks += 1;
            s.depth += 1;
            let mine = if cur { cond } else { nc };
            self.constrain(s, mine);
            s.fixed.insert(cond, cur as u128);
        }
        Ok(cur)
    }

    /// a function of one input byte or of one narrow expression: kept as a table
    fn cheap(&mut self, e: E) -> bool {
        if self.x.as_const(e).is_some() || self.x.unary(e) {
            return true;
        }
        let n = self.x.n(e);
        match n.op {
            Op::Lut => true,
            Op::Concat => self.x.as_const(n.a).is_some() && self.cheap(n.b),
            Op::Not => self.cheap(n.a),
            _ => false,
        }
    }

    /// A branch on a class of one character, say, whose sides compute values and meet again: follow
    /// the sides through blocks that only compute, and go on in one state per block where they
    /// end up, with the values that depend on the side taken merged into tables.  False when
    /// nothing can be merged; the branch is then an ordinary fork.
    fn merge_branch(&mut self, s: &mut State, e: E, ta: u32, tb: u32) -> R<bool> {
        if ta == tb || s.fixed.contains_key(&e) || !self.cheap(e) {
            return Ok(false);
        }
        let body = s.top.body.clone();
        let from = s.top.blk;
        let pure = |b: u32| -> bool {
            let bl = &body.blocks[b as usize];
            bl.phis.is_empty()
                && bl.ins.len() <= 12
                && bl.ins.iter().all(|i| match i {
                    Ins::Nop | Ins::Copy { .. } | Ins::Br(_) | Ins::CondBr(..) | Ins::Switch { .. } => true,
                    Ins::Bin { op, lanes, fp, .. } => {
                        *lanes == 0 && *fp == 0 && matches!(op, BinOp::Add | BinOp::Sub | BinOp::And | BinOp::Or | BinOp::Xor)
                    }
                    Ins::Icmp { lanes, .. } => *lanes == 0,
                    Ins::Cast { op, .. } => matches!(op, CastOp::Zext | CastOp::Sext | CastOp::Trunc),
                    Ins::Select { cv, .. } => !*cv,
                    _ => false,
                })
        };
        if !pure(ta) && !pure(tb) {
            return Ok(false);
        }
        struct P {
            to: u32,
            prev: u32,
            cond: E,
            d: u32,
        }
        let ne = self.x.not(e);
        let mut todo = vec![P { to: tb, prev: from, cond: ne, d: 0 }, P { to: ta, prev: from, cond: e, d: 0 }];
        let mut exits: Vec<P> = vec![];
        let mut seen: Vec<u32> = vec![];
        let mut visits = 0;
        // the blocks passed have no phis: what they compute does not depend on the way there
        let mut save: Vec<(u32, V)> = vec![];
        while let Some(p) = todo.pop() {
            if let Some(0) = self.x.as_const(p.cond) {
                continue;
            }
            visits += 1;
            if p.to == from || p.d >= 12 || visits > 64 || !pure(p.to) {
                exits.push(p);
                continue;
            }
            let bl = &body.blocks[p.to as usize];
            let first = !seen.contains(&p.to);
            let mut bad = false;
            if first {
                let (b0, p0, pc0) = (s.top.blk, s.top.prev, s.top.pc);
                for i in &bl.ins {
                    let dst = match i {
                        Ins::Copy { dst, .. } | Ins::Bin { dst, .. } | Ins::Icmp { dst, .. } | Ins::Cast { dst, .. } | Ins::Select { dst, .. } => *dst,
                        _ => continue,
                    };
                    // operands that are not numbers are left to the ordinary way
                    let mut plain = true;
                    crate::ir::reads(i, &mut |r| plain &= matches!(s.top.regs[r as usize], V::C(_) | V::S(_)));
                    if !plain {
                        bad = true;
                        break;
                    }
                    save.push((dst, s.top.regs[dst as usize].clone()));
                    if self.step(s, i).is_err() {
                        bad = true;
                        break;
                    }
                }
                (s.top.blk, s.top.prev, s.top.pc) = (b0, p0, pc0);
                if !bad {
                    seen.push(p.to);
                }
            }
            if bad {
                exits.push(p);
                continue;
            }
            match bl.ins.last() {
                Some(Ins::Br(t)) => todo.push(P { to: *t, prev: p.to, cond: p.cond, d: p.d + 1 }),
                Some(Ins::CondBr(c, x, y)) => match self.get(s, c) {
                    V::C(k) => todo.push(P { to: if k != 0 { *x } else { *y }, prev: p.to, cond: p.cond, d: p.d + 1 }),
                    V::S(c) if !s.fixed.contains_key(&c) && self.cheap(c) => {
                        let nc = self.x.not(c);
                        let (c1, c2) = (self.x.and(p.cond, c), self.x.and(p.cond, nc));
                        if self.cheap(c1) && self.cheap(c2) {
                            todo.push(P { to: *y, prev: p.to, cond: c2, d: p.d + 1 });
                            todo.push(P { to: *x, prev: p.to, cond: c1, d: p.d + 1 });
                        } else {
                            exits.push(p);
                        }
                    }
                    _ => exits.push(p),
                },
                Some(Ins::Switch { w, v, def, cases }) if cases.len() <= 16 => match self.get(s, v) {
                    V::C(k) => {
                        let t = cases.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(*def);
                        todo.push(P { to: t, prev: p.to, cond: p.cond, d: p.d + 1 })
                    }
                    V::S(v) if !s.fixed.contains_key(&v) && self.cheap(v) => {
                        let mut rest = p.cond;
                        let mut out = vec![];
                        for (k, t) in cases {
                            let k = self.x.cst(*w, *k);
                            let c = self.x.eq(v, k);
                            let n = self.x.not(c);
                            out.push((self.x.and(rest, c), *t));
                            rest = self.x.and(rest, n);
                        }
                        out.push((rest, *def));
                        if out.iter().all(|o| self.cheap(o.0)) {
                            for (cond, to) in out {
                                todo.push(P { to, prev: p.to, cond, d: p.d + 1 });
                            }
                        } else {
                            exits.push(p);
                        }
                    }
                    _ => exits.push(p),
                },
                _ => exits.push(p),
            }
        }
        struct G {
            to: u32,
            prev: u32,
            cond: E,
            n: u32,
            phis: Vec<V>,
        }
        let mut groups: Vec<G> = vec![];
        for p in exits {
            let b = &body.blocks[p.to as usize];
            let vals: Vec<V> = b
                .phis
                .iter()
                .map(|ph| match &ph.inc.iter().find(|i| i.0 == p.prev).expect("phi edge").1 {
                    Opnd::R(r) => s.top.regs[*r as usize].clone(),
                    Opnd::K(v) => v.clone(),
                })
                .collect();
            let mut done = false;
            for g in groups.iter_mut().filter(|g| g.to == p.to) {
                let mut out = vec![];
                for (i, ph) in b.phis.iter().enumerate() {
                    let v = match (&g.phis[i], &vals[i]) {
                        (V::C(a), V::C(c)) if a == c => V::C(*a),
                        (V::S(a), V::S(c)) if a == c => V::S(*a),
                        (V::Undef, V::Undef) => V::Undef,
                        (x @ (V::C(_) | V::S(_)), y @ (V::C(_) | V::S(_))) if ph.w > 0 && ph.w <= 64 => {
                            let (x, y) = (self.bits(x, ph.w)?, self.bits(y, ph.w)?);
                            let r = self.x.ite(p.cond, y, x);
                            if !self.cheap(r) {
                                break;
                            }
                            self.vof(r)
                        }
                        _ => break,
                    };
                    out.push(v);
                }
                let cond = self.x.or(g.cond, p.cond);
                if out.len() == b.phis.len() && self.cheap(cond) {
                    g.phis = out;
                    g.cond = cond;
                    g.n += 1;
                    done = true;
                    break;
                }
            }
            if !done {
                groups.push(G { to: p.to, prev: p.prev, cond: p.cond, n: 1, phis: vals });
            }
        }
        if groups.iter().all(|g| g.n == 1) {
            for (r, v) in save.into_iter().rev() {
                s.top.regs[r as usize] = v;
            }
            return Ok(false);
        }
        for b in seen {
            self.visit(s.top.f, b);
        }
        let cur = groups.iter().position(|g| self.x.eval(g.cond, &s.model) != 0).expect("branch");
        let mut others = vec![];
        for (i, g) in groups.iter().enumerate() {
            if i != cur {
                if let Some(m) = self.feasible(s, g.cond) {
                    others.push((i, m));
                }
            }
        }
        if !others.is_empty() {
            s.depth += 1;
        }
        let go = |eng: &mut Self, s: &mut State, g: &G| {
            eng.constrain(s, g.cond);
            s.top.prev = g.prev;
            s.top.blk = g.to;
            s.top.pc = 0;
            eng.visit(s.top.f, g.to);
            for (ph, v) in body.blocks[g.to as usize].phis.iter().zip(&g.phis) {
                s.top.regs[ph.dst as usize] = v.clone();
            }
        };
        for (i, m) in others {
            let mut o = s.clone();
            o.model = m;
            go(self, &mut o, &groups[i]);
            self.work.push(o);
            self.st.forks += 1;
        }
        go(self, s, &groups[cur]);
        self.st.merges += 1;
        Ok(true)
    }

    /// concretise an expression by forking over all its feasible values
    fn conc(&mut self, s: &mut State, v: &V) -> R<u128> {
        let e = match v {
            V::C(c) => return Ok(*c),
            V::Undef => return Ok(0),
            V::S(e) => *e,
            _ => return Err(Stop::Unsupported("concretise non-scalar".into())),
        };
        if let Some(&c) = s.fixed.get(&e) {
            return Ok(c);
        }
        let w = self.x.w(e);
        let cur = self.x.eval(e, &s.model);
        let k = self.x.cst(w, cur);
        let eqc = self.x.eq(e, k);
        // enumerate other values
        let mut excl = self.x.not(eqc);
        let mut n = 0;
        let base = s.clone();
        loop {
            let m = match self.feasible(&base, excl) {
                None => break,
                Some(m) => m,
            };
            n += 1;
            if n > self.lim.max_enum {
                return Err(Stop::Unsupported(format!("too many values to concretise ({})", self.x.show(e, 3))));
            }
            let val = self.x.eval(e, &m);
            let k = self.x.cst(w, val);
            let ec = self.x.eq(e, k);
            let mut o = base.clone();
            o.model = m;
            o.depth += 1;
            self.constrain(&mut o, ec);
            self.pin(&mut o, e, 8);
            self.fix(&mut o, e, val, 8);
            self.work.push(o);
            self.st.forks += 1;
            let ne = self.x.not(ec);
            excl = self.x.and(excl, ne);
        }
        if n > 0 {
            s.depth += 1;
        }
        self.constrain(s, eqc);
        self.pin(s, e, 8);
        self.fix(s, e, cur, 8);
        Ok(cur)
    }

    // ---------------------------------------------------------------- memory
    fn obj<'a>(&'a self, s: &'a State, addr: u64) -> R<&'a Rc<Obj>> {
        let id = addr >> 32;
        if id < OBJ_FIRST {
            return Err(Stop::Unsupported(format!("access to invalid address {:#x}", addr)));
        }
        let k = id - OBJ_FIRST;
        let r = if k < self.nglob {
            match &self.ro[k as usize] {
                Some(o) => Some(o),
                None => Some(&s.gmem[self.gslot[k as usize] as usize]),
            }
        } else {
            s.mem.get((k - self.nglob) as usize).and_then(|o| o.as_ref())
        };
        match r {
            Some(o) => Ok(o),
            None => Err(Stop::Unsupported(format!("access to dead object {:#x}", addr))),
        }
    }
    fn obj_mut<'a>(&'a self, s: &'a mut State, addr: u64) -> R<&'a mut Obj> {
        let id = addr >> 32;
        if id < OBJ_FIRST {
            return Err(Stop::Unsupported(format!("write to invalid address {:#x}", addr)));
        }
        let k = id - OBJ_FIRST;
        if k < self.nglob {
            if self.ro[k as usize].is_some() {
                return Err(Stop::Unsupported("write to constant".into()));
            }
            return Ok(Rc::make_mut(&mut s.gmem[self.gslot[k as usize] as usize]));
        }
        match s.mem.get_mut((k - self.nglob) as usize).and_then(|o| o.as_mut()) {
            Some(o) => Ok(Rc::make_mut(o)),
            None => Err(Stop::Unsupported(format!("write to dead object {:#x}", addr))),
        }
    }
    fn alloc(&mut self, s: &mut State, size: u64) -> u64 {
        let o = Some(Rc::new(Obj { data: vec![0; size as usize], sym: None, live: true }));
        let i = match s.free.pop() {
            Some(i) => {
                s.mem[i as usize] = o;
                i
            }
            None => {
                s.mem.push(o);
                s.mem.len() as u32 - 1
            }
        };
        (i as u64 + self.nglob + OBJ_FIRST) << 32
    }
    fn dealloc(&mut self, s: &mut State, addr: u64) {
        let k = (addr >> 32).wrapping_sub(OBJ_FIRST + self.nglob);
        if (k as usize) < s.mem.len() && s.mem[k as usize].is_some() {
            s.mem[k as usize] = None;
            s.free.push(k as u32);
        }
    }
    fn read(&mut self, s: &State, addr: u64, n: u64) -> R<V> {
        let o = self.obj(s, addr)?;
        let off = (addr & 0xffff_ffff) as usize;
        let n = n as usize;
        if off + n > o.data.len() {
            return Err(Stop::Unsupported(format!("read out of bounds {:#x}+{} of {}", off, n, o.data.len())));
        }
        if let Some(sy) = &o.sym {
            if sy[off..off + n].iter().any(|&e| e != 0) {
                let bytes: Vec<E> = sy[off..off + n].to_vec();
                let raw: Vec<u8> = o.data[off..off + n].to_vec();
                let mut r = 0;
                for i in 0..n {
                    let b = if bytes[i] != 0 { bytes[i] } else { self.x.cst(8, raw[i] as u128) };
                    r = if i == 0 { b } else { self.x.concat(b, r) };
                }
                return Ok(self.vof(r));
            }
        }
        let mut v = 0u128;
        for i in (0..n).rev() {
            v = v << 8 | o.data[off + i] as u128;
        }
        Ok(V::C(v))
    }
    fn bytes_e(&mut self, s: &State, addr: u64, n: u64) -> R<Vec<E>> {
        let mut v = Vec::with_capacity(n as usize);
        if n == 0 {
            return Ok(v);
        }
        let o = self.obj(s, addr)?.clone();
        let off = (addr & 0xffff_ffff) as usize;
        if off + n as usize > o.data.len() {
            return Err(Stop::Unsupported("read out of bounds".into()));
        }
        for i in off..off + n as usize {
            let e = o.sym.as_ref().map(|s| s[i]).unwrap_or(0);
            v.push(if e != 0 { e } else { self.x.cst(8, o.data[i] as u128) });
        }
        Ok(v)
    }
    fn write(&mut self, s: &mut State, addr: u64, n: u64, v: &V) -> R<()> {
        let mut parts: Vec<(u8, E)> = Vec::new();
        match v {
            V::C(c) => {
                let o = self.obj_mut(s, addr)?;
                let off = (addr & 0xffff_ffff) as usize;
                let n = n as usize;
                if off + n > o.data.len() {
                    return Err(Stop::Unsupported("write out of bounds".into()));
                }
                for i in 0..n {
                    o.data[off + i] = if i < 16 { (c >> (8 * i)) as u8 } else { 0 };
                }
                if let Some(sy) = &mut o.sym {
                    sy[off..off + n].fill(0);
                }
                return Ok(());
            }
            V::Undef => return Ok(()),
            V::S(e) => {
                let w = self.x.w(*e);
                let e = if (w as u64) < n * 8 { self.x.zext(*e, (n * 8) as u16) } else { *e };
                for i in 0..n {
                    let b = self.x.extract(e, (8 * i) as u16, 8);
                    match self.x.as_const(b) {
                        Some(c) => parts.push((c as u8, 0)),
                        None => parts.push((0, b)),
                    }
                }
            }
            V::F(f) => {
                let e = self.fbits(&f.clone())?;
                return self.write(s, addr, n, &V::S(e));
            }
            V::A(_) => return Err(Stop::Unsupported("store of aggregate".into())),
        }
        let o = self.obj_mut(s, addr)?;
        let off = (addr & 0xffff_ffff) as usize;
        if off + n as usize > o.data.len() {
            return Err(Stop::Unsupported("write out of bounds".into()));
        }
        let len = o.data.len();
        let sy = o.sym.get_or_insert_with(|| vec![0; len]);
        for (i, (c, e)) in parts.into_iter().enumerate() {
            o.data[off + i] = c;
            sy[off + i] = e;
        }
        Ok(())
    }
    fn copy(&mut self, s: &mut State, d: u64, src: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let so = self.obj(s, src)?.clone();
        let a = (src & 0xffff_ffff) as usize;
        let n = n as usize;
        if a + n > so.data.len() {
            return Err(Stop::Unsupported(format!("memcpy source out of bounds {}+{} of {}", a, n, so.data.len())));
        }
        let o = self.obj_mut(s, d)?;
        let b = (d & 0xffff_ffff) as usize;
        if b + n > o.data.len() {
            return Err(Stop::Unsupported("memcpy destination out of bounds".into()));
        }
        o.data[b..b + n].copy_from_slice(&so.data[a..a + n]);
        match &so.sym {
            Some(ss) if ss[a..a + n].iter().any(|&e| e != 0) => {
                let len = o.data.len();
                let sy = o.sym.get_or_insert_with(|| vec![0; len]);
                sy[b..b + n].copy_from_slice(&ss[a..a + n]);
            }
            _ => {
                if let Some(sy) = &mut o.sym {
                    sy[b..b + n].fill(0);
                }
            }
        }
        Ok(())
    }

    /// load of n bytes through a possibly symbolic address
    fn load(&mut self, s: &mut State, p: &V, n: u64) -> R<V> {
        let e = match p {
            V::C(a) => return self.read(s, *a as u64, n),
            V::S(e) => *e,
            _ => return Err(Stop::Unsupported("load through non-address".into())),
        };
        if let Some(&c) = s.fixed.get(&e) {
            return self.read(s, c as u64, n);
        }
        if n > 8 {
            // split
            let mut r = None;
            for i in (0..n).step_by(8) {
                let k = (n - i).min(8);
                let kk = self.x.cst(64, i as u128);
                let a = self.x.bin(Op::Add, e, kk);
                let av = self.vof(a);
                let part = self.load(s, &av, k)?;
                let pe = self.bits(&part, (k * 8) as u16)?;
                r = Some(match r {
                    None => pe,
                    Some(lo) => self.x.concat(pe, lo),
                });
            }
            let r = r.unwrap();
            return Ok(self.vof(r));
        }
        let w = (n * 8) as u16;
        let sup = self.x.support(e);
        if sup.len() == 1 {
            let vals = self.x.unary_values(e);
            let dom = self.dom_of(s, sup[0]).map(|d| *d).unwrap_or([u64::MAX; 4]);
            let mut distinct: BTreeMap<u64, Vec<usize>> = BTreeMap::new();
            for i in 0..256 {
                if dom[i >> 6] >> (i & 63) & 1 == 1 {
                    distinct.entry(vals[i]).or_default().push(i);
                }
            }
            let mut loaded: Vec<(V, Vec<usize>)> = vec![];
            let mut bad = false;
            for (a, is) in &distinct {
                match self.read(s, *a, n) {
                    Ok(v) => loaded.push((v, is.clone())),
                    Err(_) => {
                        bad = true;
                        break;
                    }
                }
            }
            if bad {
                let c = self.conc(s, p)?;
                return self.read(s, c as u64, n);
            }
            if loaded.iter().all(|(v, _)| matches!(v, V::C(_))) {
                let mut t = vec![0u64; 256];
                // values outside the domain: repeat a feasible one (helps folding)
                let fill = match &loaded[0].0 {
                    V::C(c) => *c as u64,
                    _ => 0,
                };
                t.fill(fill);
                for (v, is) in &loaded {
                    if let V::C(c) = v {
                        for &i in is {
                            t[i] = *c as u64;
                        }
                    }
                }
                let ve = self.x.vars[sup[0] as usize];
                let r = self.x.lut(w, t, ve);
                return Ok(self.vof(r));
            }
            // mux
            let ve = self.x.vars[sup[0] as usize];
            let mut r = self.bits(&loaded[0].0, w)?;
            for (v, is) in &loaded[1..] {
                let mut t = vec![0u64; 256];
                for &i in is {
                    t[i] = 1;
                }
                let c = self.x.lut(1, t, ve);
                let ve2 = self.bits(v, w)?;
                r = self.x.ite(c, ve2, r);
            }
            return Ok(self.vof(r));
        }
        // ite over constant addresses
        if self.x.const_tree(e, 8) {
            return self.load_tree(s, e, n);
        }
        let cur = self.x.eval(e, &s.model) as u64;
        let base = cur & !0xffff_ffff;
        let size = match self.obj(s, cur) {
            Ok(o) => o.data.len() as u64,
            Err(_) => {
                let c = self.conc(s, p)?;
                return self.read(s, c as u64, n);
            }
        };
        let nb = self.x.cst(64, (base as u128).wrapping_neg());
        let off = self.x.bin(Op::Add, e, nb);
        let inf = self.x.info[off as usize];
        let (mut lo, mut hi) = (inf.lo as u64, inf.hi as u64);
        if size < n || hi > size - n {
            // must be shown in bounds
            let k = self.x.cst(64, (size.saturating_sub(n)) as u128);
            let oob = self.x.ult(k, off);
            if size < n || self.feasible(s, oob).is_some() {
                let c = self.conc(s, p)?;
                return self.read(s, c as u64, n);
            }
            hi = size - n;
        }
        if lo > hi {
            lo = 0
        }
        let tz = (!(inf.kz) as u64).trailing_zeros().min(63) as u64;
        let nbits = 64 - hi.leading_zeros() as u64;
        if nbits <= tz {
            let v = self.read(s, base + lo, n)?;
            return Ok(v);
        }
        let iw = (nbits - tz) as u16;
        if iw > 12 {
            let c = self.conc(s, p)?;
            return self.read(s, c as u64, n);
        }
        let idx = self.x.extract(off, tz as u16, iw);
        let cnt = 1u64 << iw;
        let mut vs = Vec::with_capacity(cnt as usize);
        let mut allc = true;
        for i in 0..cnt {
            let o = i << tz;
            if o < lo || o > hi {
                vs.push(V::Undef);
                continue;
            }
            let v = self.read(s, base + o, n)?;
            allc &= matches!(v, V::C(_));
            vs.push(v);
        }
        if allc {
            let t: Vec<u64> = vs
                .iter()
                .map(|v| match v {
                    V::C(c) => *c as u64,
                    _ => 0,
                })
                .collect();
            let r = self.x.lut(w, t, idx);
            return Ok(self.vof(r));
        }
        if iw > 8 {
            let c = self.conc(s, p)?;
            return self.read(s, c as u64, n);
        }
        let es: Vec<Option<E>> = vs
            .iter()
            .map(|v| match v {
                V::Undef => None,
                v => self.bits(v, w).ok(),
            })
            .collect();
        let r = self.mux(&es, idx, iw).unwrap();
        Ok(self.vof(r))
    }
    fn mux(&mut self, es: &[Option<E>], idx: E, iw: u16) -> Option<E> {
        if iw == 0 {
            return es[0];
        }
        let h = es.len() / 2;
        let l = self.mux(&es[..h], idx, iw - 1);
        let r = self.mux(&es[h..], idx, iw - 1);
        match (l, r) {
            (None, x) => x,
            (x, None) => x,
            (Some(a), Some(b)) => {
                let c = self.x.extract(idx, iw - 1, 1);
                Some(self.x.ite(c, b, a))
            }
        }
    }
    fn load_tree(&mut self, s: &mut State, e: E, n: u64) -> R<V> {
        if let Some(c) = self.x.as_const(e) {
            return self.read(s, c as u64, n);
        }
        let nd = self.x.n(e);
        // prune infeasible sides
        let nc = self.x.not(nd.a);
        if self.feasible(s, nd.a).is_none() {
            return self.load_tree(s, nd.c, n);
        }
        if self.feasible(s, nc).is_none() {
            return self.load_tree(s, nd.b, n);
        }
        let a = self.load_tree(s, nd.b, n)?;
        let b = self.load_tree(s, nd.c, n)?;
        let (a, b) = (self.bits(&a, (n * 8) as u16)?, self.bits(&b, (n * 8) as u16)?);
        let r = self.x.ite(nd.a, a, b);
        Ok(self.vof(r))
    }

    fn load_ty(&mut self, s: &mut State, ty: TyId, p: &V) -> R<V> {
        let (t, size) = {
            let ts = self.m.types.borrow();
            let i = &ts.list[ty as usize];
            (i.ty.clone(), i.size)
        };
        match t {
            Ty::Int(w) => {
                let n = (w as u64).div_ceil(8);
                let v = self.load(s, p, n)?;
                Ok(match v {
                    V::C(c) => V::C(c & mask(w)),
                    V::S(e) => {
                        let r = self.x.extract(e, 0, w);
                        self.vof(r)
                    }
                    v => v,
                })
            }
            Ty::Ptr | Ty::F32 | Ty::F64 => self.load(s, p, size),
            Ty::Vec(n, e) | Ty::Arr(n, e) => {
                let es = self.m.types.borrow().size(e);
                let a = V::C(self.conc(s, p)?);
                let mut out = vec![];
                for i in 0..n {
                    let ai = match &a {
                        V::C(c) => V::C(c + (i * es) as u128),
                        _ => unreachable!(),
                    };
                    out.push(self.load_ty(s, e, &ai)?);
                }
                Ok(V::A(Rc::new(out)))
            }
            Ty::Struct(fs, _) => {
                let offs = self.m.types.borrow().list[ty as usize].offs.clone();
                let a = self.conc(s, p)?;
                let mut out = vec![];
                for (f, o) in fs.iter().zip(offs) {
                    out.push(self.load_ty(s, *f, &V::C(a + o as u128))?);
                }
                Ok(V::A(Rc::new(out)))
            }
            _ => Err(Stop::Unsupported("load type".into())),
        }
    }
    fn store_ty(&mut self, s: &mut State, ty: TyId, a: u64, v: &V) -> R<()> {
        let (t, size) = {
            let ts = self.m.types.borrow();
            let i = &ts.list[ty as usize];
            (i.ty.clone(), i.size)
        };
        match t {
            Ty::Int(w) => self.write(s, a, (w as u64).div_ceil(8), v),
            Ty::Ptr | Ty::F32 | Ty::F64 => self.write(s, a, size, v),
            Ty::Vec(n, e) | Ty::Arr(n, e) => {
                let es = self.m.types.borrow().size(e);
                for i in 0..n {
                    let x = elem(v, i as usize);
                    self.store_ty(s, e, a + i * es, &x)?;
                }
                Ok(())
            }
            Ty::Struct(fs, _) => {
                let offs = self.m.types.borrow().list[ty as usize].offs.clone();
                for (i, f) in fs.iter().enumerate() {
                    let x = elem(v, i);
                    self.store_ty(s, *f, a + offs[i], &x)?;
                }
                Ok(())
            }
            _ => Err(Stop::Unsupported("store type".into())),
        }
    }

    // ---------------------------------------------------------------- floats
    fn feval(n: &FNode, x: u128, w: u16) -> f64 {
        let x = if n.bias { x as i128 - (1i128 << (w - 1)) } else { x as i128 };
        if n.dbl {
            let mut f = x as f64;
            for o in &n.ops {
                f = match *o {
                    FOp::Log2 => f.log2(),
                    FOp::Ln => f.ln(),
                    FOp::Log10 => f.log10(),
                    FOp::Neg => -f,
                    FOp::AddK(k) => f + k,
                    FOp::SubK(k) => f - k,
                    FOp::RSubK(k) => k - f,
                    FOp::MulK(k) => f * k,
                    FOp::DivK(k) => f / k,
                    FOp::Floor => f.floor(),
                    FOp::Ceil => f.ceil(),
                    FOp::Trunc => f.trunc(),
                }
            }
            f
        } else {
            let mut f = x as f32;
            for o in &n.ops {
                f = match *o {
                    FOp::Log2 => f.log2(),
                    FOp::Ln => f.ln(),
                    FOp::Log10 => f.log10(),
                    FOp::Neg => -f,
                    FOp::AddK(k) => f + k as f32,
                    FOp::SubK(k) => f - k as f32,
                    FOp::RSubK(k) => k as f32 - f,
                    FOp::MulK(k) => f * k as f32,
                    FOp::DivK(k) => f / k as f32,
                    FOp::Floor => f.floor(),
                    FOp::Ceil => f.ceil(),
                    FOp::Trunc => f.trunc(),
                }
            }
            f as f64
        }
    }
    fn fpush(n: &Rc<FNode>, o: FOp) -> V {
        let mut ops = n.ops.clone();
        ops.push(o);
        V::F(Rc::new(FNode { src: n.src, dbl: n.dbl, bias: n.bias, ops }))
    }
    /// the bit pattern of a double converted from an integer (round to nearest, ties to even)
    fn fbits(&mut self, n: &FNode) -> R<E> {
        let w = self.x.w(n.src);
        if !n.dbl || w > 64 || n.ops.iter().any(|o| !matches!(o, FOp::Neg)) {
            return Err(Stop::Unsupported("symbolic float used as bits".into()));
        }
        let x = &mut self.x;
        let (mut sign, mut mag) = (x.fals(), n.src);
        if n.bias {
            let k = x.cst(w, 1u128 << (w - 1));
            let e = x.bin(Op::Xor, n.src, k);
            sign = x.extract(e, w - 1, 1);
            let neg = x.neg(e);
            mag = x.ite(sign, neg, e);
        }
        let mut r = self.u2f(mag, 0);
        let x = &mut self.x;
        if n.bias {
            let lo = x.extract(r, 0, 63);
            r = x.concat(sign, lo);
        }
        if n.ops.len() % 2 == 1 {
            let k = x.cst(64, 1 << 63);
            r = x.bin(Op::Xor, r, k);
        }
        Ok(r)
    }
    /// the double nearest to an unsigned integer of at most 64 bits, times 2^-scale
    fn u2f(&mut self, mag: E, scale: u16) -> E {
        let x = &mut self.x;
        let mut mag = x.zext(mag, 64);
        let zero = x.cst(64, 0);
        let isz = x.eq(mag, zero);
        let mut exp = x.cst(64, (1023 + 63 - scale) as u128);
        for sh in [32u16, 16, 8, 4, 2, 1] {
            let top = x.extract(mag, 64 - sh, sh);
            let z = x.cst(sh, 0);
            let c = x.eq(top, z);
            let k = x.cst(64, sh as u128);
            let m = x.bin(Op::Shl, mag, k);
            mag = x.ite(c, m, mag);
            let e = x.sub(exp, k);
            exp = x.ite(c, e, exp);
        }
        let mant = x.extract(mag, 11, 52); // without the leading bit
        let rest = x.extract(mag, 0, 11);
        let half = x.cst(11, 1 << 10);
        let odd = x.extract(mant, 0, 1);
        let (gt, tie) = (x.ult(half, rest), x.eq(half, rest));
        let t = x.and(tie, odd);
        let up = x.or(gt, t);
        let (k, m, up) = (x.cst(64, 52), x.zext(mant, 64), x.zext(up, 64));
        let e = x.bin(Op::Shl, exp, k);
        let b = x.bin(Op::Add, e, m);
        let b = x.bin(Op::Add, b, up);
        x.ite(isz, zero, b)
    }
    /// a double from the bits of a single
    fn fext(&mut self, e: E) -> E {
        let m23 = self.x.extract(e, 0, 23);
        let sub = self.u2f(m23, 149);
        let x = &mut self.x;
        let (s, ex) = (x.extract(e, 31, 1), x.extract(e, 23, 8));
        let sub = x.extract(sub, 0, 63);
        let (z8, ff, z23) = (x.cst(8, 0), x.cst(8, 0xff), x.cst(23, 0));
        let (is0, isf, mz) = (x.eq(ex, z8), x.eq(ex, ff), x.eq(m23, z23));
        let e11 = x.zext(ex, 11);
        let k = x.cst(11, 896);
        let (a, b) = (x.bin(Op::Add, e11, k), x.cst(11, 0x7ff));
        let e11 = x.ite(isf, b, a);
        let (z29, quiet) = (x.cst(29, 0), x.cst(52, 1 << 51));
        let m = x.concat(m23, z29);
        let q = x.bin(Op::Or, m, quiet);
        let nz = x.not(mz);
        let nan = x.and(isf, nz);
        let m = x.ite(nan, q, m);
        let r = x.concat(e11, m);
        let r = x.ite(is0, sub, r);
        x.concat(s, r)
    }
    /// saturating conversion of a double's bits to an integer of 64 bits
    fn ftoi(&mut self, e: E, signed: bool) -> E {
        let x = &mut self.x;
        let (s, ex, m) = (x.extract(e, 63, 1), x.extract(e, 52, 11), x.extract(e, 0, 52));
        let (m64, lead) = (x.zext(m, 64), x.cst(64, 1 << 52));
        let m64 = x.bin(Op::Or, m64, lead);
        let ex = x.zext(ex, 64);
        let bias = x.cst(64, 1023 + 52);
        let (l, r) = (x.sub(ex, bias), x.sub(bias, ex));
        let (shl, shr) = (x.bin(Op::Shl, m64, l), x.bin(Op::LShr, m64, r));
        let small = x.ult(ex, bias);
        let mag = x.ite(small, shr, shl);
        let (z, one) = (x.cst(64, 0), x.cst(64, 1023));
        let below = x.ult(ex, one);
        let mag = x.ite(below, z, mag);
        let top = x.cst(64, 1023 + if signed { 63 } else { 64 });
        let fits = x.ult(ex, top);
        let (inf, ml) = (x.cst(63, 0x7ff0_0000_0000_0000), x.extract(e, 0, 63));
        let nan = x.ult(inf, ml);
        let r = if signed {
            let neg = x.neg(mag);
            let v = x.ite(s, neg, mag);
            let (mn, mxv) = (x.cst(64, 1 << 63), x.cst(64, (1 << 63) - 1));
            let sat = x.ite(s, mn, mxv);
            x.ite(fits, v, sat)
        } else {
            let ones = x.cst(64, u64::MAX as u128);
            let v = x.ite(fits, mag, ones);
            x.ite(s, z, v)
        };
        x.ite(nan, z, r)
    }
    /// comparison of two IEEE bit patterns
    fn fcmp_bits(&mut self, a: E, b: E, t: &dyn Fn(f64, f64) -> bool) -> E {
        let x = &mut self.x;
        let w = x.w(a);
        let inf = if w == 64 { 0x7ff0_0000_0000_0000u128 } else { 0x7f80_0000 };
        let inf = x.cst(w - 1, inf);
        let mut nan = x.fals();
        let mut keys = vec![];
        for e in [a, b] {
            let (s, m) = (x.extract(e, w - 1, 1), x.extract(e, 0, w - 1));
            let n = x.ult(inf, m);
            nan = x.or(nan, n);
            // both zeros have one key; negative keys lie below it
            let (p, n) = (x.zext(m, w), x.zext(m, w));
            let n = x.neg(n);
            let k = x.ite(s, n, p);
            keys.push(k);
        }
        let (lt, eq) = (x.slt(keys[0], keys[1]), x.eq(keys[0], keys[1]));
        let c = [t(0.0, 1.0), t(0.0, 0.0), t(1.0, 0.0), t(f64::NAN, 0.0)].map(|b| x.cst(1, b as u128));
        let r = x.ite(lt, c[0], c[2]);
        let r = x.ite(eq, c[1], r);
        x.ite(nan, c[3], r)
    }
    /// expression for a monotone predicate over the float's integer source
    fn fthresh(&mut self, n: &FNode, t: &dyn Fn(f64) -> bool) -> E {
        let inf = self.x.info[n.src as usize];
        let (lo, hi) = (inf.lo, inf.hi);
        let sw = self.x.w(n.src);
        let (a, b) = (t(Self::feval(n, lo, sw)), t(Self::feval(n, hi, sw)));
        if a == b {
            return self.x.cst(1, a as u128);
        }
        let (mut l, mut h) = (lo, hi);
        while h - l > 1 {
            let m = l + (h - l) / 2;
            if t(Self::feval(n, m, sw)) == a {
                l = m
            } else {
                h = m
            }
        }
        // predicate has value `a` on [lo,l] and `b` on [h,hi]
        let w = self.x.w(n.src);
        let k = self.x.cst(w, h);
        let c = self.x.ult(n.src, k); // in the low part
        if a {
            c
        } else {
            self.x.not(c)
        }
    }
    fn f2i(&mut self, n: &FNode, w: u16, signed: bool) -> R<V> {
        let inf = self.x.info[n.src as usize];
        let conv = |f: f64| -> i128 {
            if signed {
                (f as i64) as i128
            } else {
                (f as u64) as i128
            }
        };
        let sw = self.x.w(n.src);
        let (a, b) = (conv(Self::feval(n, inf.lo, sw)), conv(Self::feval(n, inf.hi, sw)));
        let (mn, mx) = (a.min(b), a.max(b));
        if mx - mn > 256 {
            if w == 64 && n.dbl && n.ops.iter().all(|o| matches!(o, FOp::Neg)) {
                let b = self.fbits(n)?;
                let r = self.ftoi(b, signed);
                return Ok(self.vof(r));
            }
            return Err(Stop::Unsupported("float to int range too large".into()));
        }
        let mut r = self.x.cst(w, mn as u128);
        for k in mn + 1..=mx {
            let c = self.fthresh(n, &|f| conv(f) >= k);
            let v = self.x.cst(w, k as u128);
            r = self.x.ite(c, v, r);
        }
        Ok(self.vof(r))
    }

    // ---------------------------------------------------------------- scalar ops
    fn binop(&mut self, op: BinOp, w: u16, fp: u8, a: &V, b: &V) -> R<V> {
        if fp != 0 {
            return self.fbin(op, fp == 2, a, b);
        }
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = mask(w);
            let r = match op {
                BinOp::Add => x.wrapping_add(y) & m,
                BinOp::Sub => x.wrapping_sub(y) & m,
                BinOp::Mul => x.wrapping_mul(y) & m,
                BinOp::And => x & y,
                BinOp::Or => x | y,
                BinOp::Xor => x ^ y,
                BinOp::Shl => {
                    if y >= w as u128 {
                        0
                    } else {
                        (x << y) & m
                    }
                }
                BinOp::LShr => {
                    if y >= w as u128 {
                        0
                    } else {
                        x >> y
                    }
                }
                BinOp::AShr => ((sext(x, w) >> (y.min(w as u128 - 1))) as u128) & m,
                BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem if y == 0 => {
                    return Err(Stop::Unsupported("division by zero (UB)".into()));
                }
                BinOp::UDiv => x / y,
                BinOp::URem => x % y,
                BinOp::SDiv => (sext(x, w).wrapping_div(sext(y, w)) as u128) & m,
                BinOp::SRem => (sext(x, w).wrapping_rem(sext(y, w)) as u128) & m,
                _ => unreachable!(),
            };
            return Ok(V::C(r));
        }
        let (x, y) = (self.bits(a, w)?, self.bits(b, w)?);
        let r = match op_of(op) {
            Some(o) => self.x.bin(o, x, y),
            None => self.x.sub(x, y),
        };
        Ok(self.vof(r))
    }
    fn fbin(&mut self, op: BinOp, dbl: bool, a: &V, b: &V) -> R<V> {
        let tof = |c: u128| if dbl { f64::from_bits(c as u64) } else { f32::from_bits(c as u32) as f64 };
        match (a, b) {
            (V::C(x), V::C(y)) => {
                let r = if dbl {
                    let (x, y) = (f64::from_bits(*x as u64), f64::from_bits(*y as u64));
                    (match op {
                        BinOp::FAdd => x + y,
                        BinOp::FSub => x - y,
                        BinOp::FMul => x * y,
                        BinOp::FDiv => x / y,
                        _ => x % y,
                    })
                    .to_bits() as u128
                } else {
                    let (x, y) = (f32::from_bits(*x as u32), f32::from_bits(*y as u32));
                    (match op {
                        BinOp::FAdd => x + y,
                        BinOp::FSub => x - y,
                        BinOp::FMul => x * y,
                        BinOp::FDiv => x / y,
                        _ => x % y,
                    })
                    .to_bits() as u128
                };
                Ok(V::C(r))
            }
            (V::F(n), V::C(k)) => {
                let k = tof(*k);
                Ok(match op {
                    BinOp::FAdd => Self::fpush(n, FOp::AddK(k)),
                    BinOp::FSub => Self::fpush(n, FOp::SubK(k)),
                    BinOp::FMul => Self::fpush(n, FOp::MulK(k)),
                    BinOp::FDiv => Self::fpush(n, FOp::DivK(k)),
                    _ => return Err(Stop::Unsupported("frem".into())),
                })
            }
            (V::C(k), V::F(n)) => {
                let k = tof(*k);
                Ok(match op {
                    BinOp::FAdd => Self::fpush(n, FOp::AddK(k)),
                    BinOp::FSub => Self::fpush(n, FOp::RSubK(k)),
                    BinOp::FMul => Self::fpush(n, FOp::MulK(k)),
                    _ => return Err(Stop::Unsupported("float op".into())),
                })
            }
            _ => Err(Stop::Unsupported("float op on symbolic operands".into())),
        }
    }
    fn icmp(&mut self, p: Pred, w: u16, a: &V, b: &V) -> R<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sext(x, w) > sext(y, w),
                Pred::Sge => sext(x, w) >= sext(y, w),
                Pred::Slt => sext(x, w) < sext(y, w),
                Pred::Sle => sext(x, w) <= sext(y, w),
            };
            return Ok(V::C(r as u128));
        }
        let (x, y) = (self.bits(a, w)?, self.bits(b, w)?);
        let r = match p {
            Pred::Eq => self.x.eq(x, y),
            Pred::Ne => {
                let e = self.x.eq(x, y);
                self.x.not(e)
            }
            Pred::Ugt => self.x.ult(y, x),
            Pred::Uge => {
                let e = self.x.ult(x, y);
                self.x.not(e)
            }
            Pred::Ult => self.x.ult(x, y),
            Pred::Ule => {
                let e = self.x.ult(y, x);
                self.x.not(e)
            }
            Pred::Sgt => self.x.slt(y, x),
            Pred::Sge => {
                let e = self.x.slt(x, y);
                self.x.not(e)
            }
            Pred::Slt => self.x.slt(x, y),
            Pred::Sle => {
                let e = self.x.slt(y, x);
                self.x.not(e)
            }
        };
        Ok(self.vof(r))
    }
    fn sel(&mut self, c: E, a: &V, b: &V, w: u16) -> R<V> {
        match (a, b) {
            (V::A(x), V::A(y)) => {
                let mut out = vec![];
                for (p, q) in x.iter().zip(y.iter()) {
                    // element widths are implied by symbolic elements; constants need care
                    let w = self.guess_w(p, q, w);
                    out.push(self.sel(c, p, q, w)?);
                }
                Ok(V::A(Rc::new(out)))
            }
            _ => {
                let (x, y) = (self.bits(a, w)?, self.bits(b, w)?);
                let r = self.x.ite(c, x, y);
                Ok(self.vof(r))
            }
        }
    }
    fn guess_w(&self, a: &V, b: &V, d: u16) -> u16 {
        for v in [a, b] {
            if let V::S(e) = v {
                return self.x.w(*e);
            }
        }
        d
    }
    fn ty_w(&self, t: TyId) -> u16 {
        match self.m.types.borrow().ty(t) {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vec(_, e) | Ty::Arr(_, e) => {
                let e = *e;
                match self.m.types.borrow().ty(e) {
                    Ty::Int(w) => *w,
                    Ty::F32 => 32,
                    _ => 64,
                }
            }
            _ => 64,
        }
    }
    fn sel_ty(&mut self, c: E, ty: TyId, a: &V, b: &V) -> R<V> {
        let t = self.m.types.borrow().ty(ty).clone();
        match t {
            Ty::Struct(fs, _) => {
                let mut out = vec![];
                for (i, f) in fs.iter().enumerate() {
                    let (x, y) = (elem(a, i), elem(b, i));
                    out.push(self.sel_ty(c, *f, &x, &y)?);
                }
                Ok(V::A(Rc::new(out)))
            }
            Ty::Vec(n, e) | Ty::Arr(n, e) => {
                let mut out = vec![];
                for i in 0..n as usize {
                    let (x, y) = (elem(a, i), elem(b, i));
                    out.push(self.sel_ty(c, e, &x, &y)?);
                }
                Ok(V::A(Rc::new(out)))
            }
            _ => {
                let w = self.ty_w(ty);
                self.sel(c, a, b, w)
            }
        }
    }

    fn to_bits_vec(&mut self, v: &V, ty: TyId) -> R<(E, u16)> {
        let t = self.m.types.borrow().ty(ty).clone();
        match t {
            Ty::Vec(n, e) => {
                let w = self.ty_w(e);
                let mut r = 0;
                for i in 0..n as usize {
                    let x = elem(v, i);
                    let b = self.bits(&x, w)?;
                    r = if i == 0 { b } else { self.x.concat(b, r) };
                }
                Ok((r, w * n as u16))
            }
            _ => {
                let w = self.ty_w(ty);
                Ok((self.bits(v, w)?, w))
            }
        }
    }
    fn cast(&mut self, op: CastOp, from: TyId, to: TyId, a: &V) -> R<V> {
        let ft = self.m.types.borrow().ty(from).clone();
        let tt = self.m.types.borrow().ty(to).clone();
        if op == CastOp::Bitcast {
            if from == to {
                return Ok(a.clone());
            }
            if !matches!(ft, Ty::Vec(..)) && !matches!(tt, Ty::Vec(..)) {
                return Ok(a.clone());
            }
            let (e, _) = self.to_bits_vec(a, from)?;
            return match tt {
                Ty::Vec(n, et) => {
                    let w = self.ty_w(et);
                    let mut out = vec![];
                    for i in 0..n as u16 {
                        let x = self.x.extract(e, i * w, w);
                        out.push(self.vof(x));
                    }
                    Ok(V::A(Rc::new(out)))
                }
                _ => Ok(self.vof(e)),
            };
        }
        if let (Ty::Vec(n, fe), Ty::Vec(_, te)) = (&ft, &tt) {
            let mut out = vec![];
            for i in 0..*n as usize {
                let x = elem(a, i);
                out.push(self.cast(op, *fe, *te, &x)?);
            }
            return Ok(V::A(Rc::new(out)));
        }
        let (fw, tw) = (self.ty_w(from), self.ty_w(to));
        match op {
            CastOp::Zext | CastOp::PtrInt | CastOp::Trunc => match a {
                V::C(c) => Ok(V::C(c & mask(tw))),
                V::Undef => Ok(V::C(0)),
                _ => {
                    let e = self.bits(a, fw)?;
                    let r = self.x.resize(e, tw);
                    Ok(self.vof(r))
                }
            },
            CastOp::Sext => match a {
                V::C(c) => Ok(V::C(sext(*c, fw) as u128 & mask(tw))),
                _ => {
                    let e = self.bits(a, fw)?;
                    let r = self.x.sext(e, tw);
                    Ok(self.vof(r))
                }
            },
            CastOp::UiToFp | CastOp::SiToFp => {
                let dbl = tt == Ty::F64;
                match a {
                    V::C(c) => {
                        let v = if op == CastOp::UiToFp {
                            if dbl {
                                (*c as f64).to_bits() as u128
                            } else {
                                (*c as f32).to_bits() as u128
                            }
                        } else {
                            let i = sext(*c, fw);
                            if dbl {
                                (i as f64).to_bits() as u128
                            } else {
                                (i as f32).to_bits() as u128
                            }
                        };
                        Ok(V::C(v))
                    }
                    V::S(e) => {
                        let (mut src, bias) =
                            (*e, op == CastOp::SiToFp && self.x.info[*e as usize].kz >> (fw - 1) & 1 == 0);
                        if bias {
                            let k = self.x.cst(fw, 1u128 << (fw - 1));
                            src = self.x.bin(Op::Xor, src, k);
                        }
                        Ok(V::F(Rc::new(FNode { src, dbl, bias, ops: vec![] })))
                    }
                    _ => Err(Stop::Unsupported("itofp".into())),
                }
            }
            CastOp::FpToUi | CastOp::FpToSi => match a {
                V::C(c) => {
                    let f = if ft == Ty::F64 { f64::from_bits(*c as u64) } else { f32::from_bits(*c as u32) as f64 };
                    let v = if op == CastOp::FpToUi { f as u128 } else { (f as i128) as u128 };
                    Ok(V::C(v & mask(tw)))
                }
                V::F(n) => self.f2i(&n.clone(), tw, op == CastOp::FpToSi),
                _ => Err(Stop::Unsupported("fptoi".into())),
            },
            CastOp::FpExt | CastOp::FpTrunc => match a {
                V::C(c) => {
                    let f = if ft == Ty::F64 { f64::from_bits(*c as u64) } else { f32::from_bits(*c as u32) as f64 };
                    Ok(V::C(if tt == Ty::F64 { f.to_bits() as u128 } else { (f as f32).to_bits() as u128 }))
                }
                V::S(e) if ft != Ty::F64 && tt == Ty::F64 => {
                    let r = self.fext(*e);
                    Ok(self.vof(r))
                }
                _ => Err(Stop::Unsupported("fpext".into())),
            },
            CastOp::Bitcast => unreachable!(),
        }
    }

    fn jump(&mut self, s: &mut State, to: u32) {
        let from = s.top.blk;
        s.top.prev = from;
        s.top.blk = to;
        s.top.pc = 0;
        self.visit(s.top.f, to);
        let body = s.top.body.clone();
        let b = &body.blocks[to as usize];
        if !b.phis.is_empty() {
            let vals: Vec<V> = b
                .phis
                .iter()
                .map(|p| {
                    let o = p.inc.iter().find(|i| i.0 == from).expect("phi edge");
                    match &o.1 {
                        Opnd::R(r) => s.top.regs[*r as usize].clone(),
                        Opnd::K(v) => v.clone(),
                    }
                })
                .collect();
            for (p, v) in b.phis.iter().zip(vals) {
                s.top.regs[p.dst as usize] = v;
            }
        }
    }

    fn run_state(&mut self, s: &mut State) -> Stop {
        let mut n = 0u64;
        loop {
            let body = s.top.body.clone();
            // run within this frame until the frame changes
            let depth = s.callers.len();
            loop {
                n += 1;
                if n & 0xfff == 0 {
                    if self.start.elapsed().as_secs_f64() > self.lim.time {
                        self.st.instrs += n;
                        return Stop::Unsupported("time limit".into());
                    }
                }
                let ins = &body.blocks[s.top.blk as usize].ins[s.top.pc as usize];
                if !self.profile.is_empty() {
                    let k = (s.top.f, s.top.blk, s.top.pc);
                    let q = self.z.queries;
                    let r = self.step(s, ins);
                    if self.z.queries > q {
                        *self.profile.entry(k).or_insert(0) += self.z.queries - q;
                    }
                    match r {
                        Ok(false) => {}
                        Ok(true) => break,
                        Err(e) => {
                            self.st.instrs += n;
                            return e;
                        }
                    }
                    if s.callers.len() != depth {
                        break;
                    }
                    continue;
                }
                match self.step(s, ins) {
                    Ok(false) => {}
                    Ok(true) => break, // frame changed
                    Err(e) => {
                        self.st.instrs += n;
                        return e;
                    }
                }
                if s.callers.len() != depth {
                    break;
                }
            }
        }
    }

    fn step(&mut self, s: &mut State, ins: &Ins) -> R<bool> {
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let v = $v;
                s.top.regs[*$d as usize] = v;
                s.top.pc += 1;
            }};
        }
        match ins {
            Ins::Nop => s.top.pc += 1,
            Ins::Bin { op, w, lanes, fp, dst, a, b } => {
                let (mut x, mut y) = (self.get(s, a), self.get(s, b));
                if *lanes == 0 && *fp == 0 {
                    // sizes out of a code table: enumerate before they spread into shifts
                    match op {
                        BinOp::Mul => {
                            x = self.conc_small(s, x)?;
                            y = self.conc_small(s, y)?;
                        }
                        BinOp::Shl | BinOp::LShr | BinOp::AShr if matches!(x, V::S(_)) => y = self.conc_small(s, y)?,
                        _ => (),
                    }
                }
                if *lanes == 0 {
                    if matches!(op, BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem) {
                        // LLVM-level division by zero is UB; rustc guards it, so only check when symbolic
                        if let V::S(_) = y {}
                    }
                    let r = self.binop(*op, *w, *fp, &x, &y)?;
                    set!(dst, r);
                } else {
                    let mut out = Vec::with_capacity(*lanes as usize);
                    for i in 0..*lanes as usize {
                        let (p, q) = (elem(&x, i), elem(&y, i));
                        out.push(self.binop(*op, *w, *fp, &p, &q)?);
                    }
                    set!(dst, V::A(Rc::new(out)));
                }
            }
            Ins::Icmp { p, w, lanes, dst, a, b } => {
                let (x, y) = (self.get(s, a), self.get(s, b));
                if *lanes == 0 {
                    let r = self.icmp(*p, *w, &x, &y)?;
                    set!(dst, r);
                } else {
                    let mut out = Vec::with_capacity(*lanes as usize);
                    for i in 0..*lanes as usize {
                        let (u, v) = (elem(&x, i), elem(&y, i));
                        out.push(self.icmp(*p, *w, &u, &v)?);
                    }
                    set!(dst, V::A(Rc::new(out)));
                }
            }
            Ins::Fcmp { p, dbl, dst, a, b } => {
                let (x, y) = (self.get(s, a), self.get(s, b));
                let tof = |c: u128| if *dbl { f64::from_bits(c as u64) } else { f32::from_bits(c as u32) as f64 };
                let r = match (&x, &y) {
                    (V::C(u), V::C(v)) => V::C(fcmp(p, tof(*u), tof(*v)) as u128),
                    (V::F(n), V::C(k)) => {
                        let k = tof(*k);
                        let e = self.fthresh(n, &|f| fcmp(p, f, k));
                        self.vof(e)
                    }
                    (V::C(k), V::F(n)) => {
                        let k = tof(*k);
                        let e = self.fthresh(n, &|f| fcmp(p, k, f));
                        self.vof(e)
                    }
                    _ => {
                        let w = if *dbl { 64 } else { 32 };
                        let (u, v) = (self.bits(&x, w)?, self.bits(&y, w)?);
                        let e = self.fcmp_bits(u, v, &|f, g| fcmp(p, f, g));
                        self.vof(e)
                    }
                };
                set!(dst, r);
            }
            Ins::FNeg { dbl, dst, a } => {
                let x = self.get(s, a);
                let r = match &x {
                    V::C(c) => V::C(if *dbl { c ^ (1 << 63) } else { c ^ (1 << 31) }),
                    V::F(n) => Self::fpush(n, FOp::Neg),
                    V::S(e) => {
                        let w = self.x.w(*e);
                        let k = self.x.cst(w, 1u128 << (w - 1));
                        let r = self.x.bin(Op::Xor, *e, k);
                        self.vof(r)
                    }
                    _ => return Err(Stop::Unsupported("fneg".into())),
                };
                set!(dst, r);
            }
            Ins::Select { dst, c, cv, ty, a, b } => {
                let k = self.get(s, c);
                let (x, y) = (self.get(s, a), self.get(s, b));
                if *cv {
                    let n = match &k {
                        V::A(v) => v.len(),
                        _ => return Err(Stop::Unsupported("select vec".into())),
                    };
                    let w = self.ty_w(*ty);
                    let mut out = vec![];
                    for i in 0..n {
                        let (p, q) = (elem(&x, i), elem(&y, i));
                        out.push(match elem(&k, i) {
                            V::C(0) => q,
                            V::C(_) => p,
                            V::S(e) => self.sel(e, &p, &q, w)?,
                            _ => return Err(Stop::Unsupported("select".into())),
                        });
                    }
                    set!(dst, V::A(Rc::new(out)));
                } else {
                    let r = match &k {
                        V::C(0) | V::Undef => y,
                        V::C(_) => x,
                        V::S(e) => {
                            let mut e = *e;
                            if let Some(&f) = s.fixed.get(&e) {
                                e = self.x.cst(1, f);
                            }
                            if let Some(c) = self.x.as_const(e) {
                                if c != 0 {
                                    x
                                } else {
                                    y
                                }
                            } else if matches!(x, V::F(_)) || matches!(y, V::F(_)) {
                                if self.decide(s, e)? {
                                    x
                                } else {
                                    y
                                }
                            } else {
                                self.sel_ty(e, *ty, &x, &y)?
                            }
                        }
                        _ => return Err(Stop::Unsupported("select".into())),
                    };
                    set!(dst, r);
                }
            }
            Ins::Cast { op, from, to, dst, a } => {
                let x = self.get(s, a);
                let x = match (&x, *op) {
                    // few values: enumerate rather than carry a symbolic float
                    (V::S(e), CastOp::UiToFp | CastOp::SiToFp) if self.x.info[*e as usize].hi - self.x.info[*e as usize].lo <= 8 || self.x.const_tree(*e, 6) => V::C(self.conc(s, &x)?),
                    _ => x,
                };
                let r = self.cast(*op, *from, *to, &x)?;
                set!(dst, r);
            }
            Ins::Load { ty, dst, p } => {
                let a = self.get(s, p);
                let r = self.load_ty(s, *ty, &a)?;
                set!(dst, r);
            }
            Ins::Store { ty, v, p } => {
                let a = self.get(s, p);
                let a = self.conc(s, &a)? as u64;
                let x = self.get(s, v);
                self.store_ty(s, *ty, a, &x)?;
                s.top.pc += 1;
            }
            Ins::Gep { dst, base, off, idx } => {
                let b = self.get(s, base);
                let mut acc = match &b {
                    V::C(c) => V::C((*c as u64).wrapping_add(*off as u64) as u128),
                    V::S(e) => {
                        let k = self.x.cst(64, *off as u64 as u128);
                        let r = self.x.bin(Op::Add, *e, k);
                        self.vof(r)
                    }
                    _ => return Err(Stop::Unsupported("gep".into())),
                };
                for (o, w, sc) in idx {
                    let i = self.get(s, o);
                    acc = match (&acc, &i) {
                        (V::C(a), V::C(i)) => V::C((*a as u64).wrapping_add((sext(*i, *w) as i64).wrapping_mul(*sc) as u64) as u128),
                        (_, V::A(_)) => return Err(Stop::Unsupported("vector gep".into())),
                        _ => {
                            let ie = self.bits(&i, *w)?;
                            let ie = self.x.sext(ie, 64);
                            let k = self.x.cst(64, *sc as u64 as u128);
                            let m = self.x.bin(Op::Mul, ie, k);
                            let ae = self.bits(&acc, 64)?;
                            let r = self.x.bin(Op::Add, ae, m);
                            self.vof(r)
                        }
                    };
                }
                set!(dst, acc);
            }
            Ins::Alloca { dst, size, n, align: _ } => {
                let k = match n {
                    None => 1,
                    Some(o) => {
                        let v = self.get(s, o);
                        self.conc(s, &v)? as u64
                    }
                };
                let a = self.alloc(s, size * k);
                s.top.allocas.push(((a >> 32) - OBJ_FIRST - self.nglob) as u32);
                set!(dst, V::C(a as u128));
            }
            Ins::ExtractValue { dst, a, path } => {
                let mut v = self.get(s, a);
                for &i in path {
                    v = elem(&v, i as usize);
                }
                set!(dst, v);
            }
            Ins::InsertValue { dst, ty, a, v, path } => {
                let mut agg = self.get(s, a);
                if matches!(agg, V::Undef | V::C(_)) {
                    agg = self.m.zero(*ty);
                }
                let x = self.get(s, v);
                insert(&mut agg, path, x);
                set!(dst, agg);
            }
            Ins::ExtractElt { dst, a, i } => {
                let v = self.get(s, a);
                let i = self.get(s, i);
                let k = self.conc(s, &i)?;
                set!(dst, elem(&v, k as usize));
            }
            Ins::InsertElt { dst, n, a, v, i } => {
                let mut agg = self.get(s, a);
                let i = self.get(s, i);
                let k = self.conc(s, &i)?;
                if !matches!(agg, V::A(_)) {
                    agg = V::A(Rc::new(vec![V::C(0); *n as usize]));
                }
                let x = self.get(s, v);
                insert(&mut agg, &[k as u32], x);
                set!(dst, agg);
            }
            Ins::Shuffle { dst, n, a, b, m } => {
                let (x, y) = (self.get(s, a), self.get(s, b));
                let out = m
                    .iter()
                    .map(|&i| if i < 0 { V::C(0) } else if (i as u32) < *n { elem(&x, i as usize) } else { elem(&y, i as usize - *n as usize) })
                    .collect();
                set!(dst, V::A(Rc::new(out)));
            }
            Ins::Copy { dst, a } => {
                let x = self.get(s, a);
                set!(dst, x);
            }
            Ins::CmpXchg { dst, ty, p, c, n } => {
                let a = self.get(s, p);
                let a = self.conc(s, &a)? as u64;
                let cur = self.load_ty(s, *ty, &V::C(a as u128))?;
                let (c, n) = (self.get(s, c), self.get(s, n));
                let w = self.ty_w(*ty);
                let eq = self.icmp(Pred::Eq, w, &cur, &c)?;
                let ok = match eq {
                    V::C(k) => k != 0,
                    V::S(e) => self.decide(s, e)?,
                    _ => false,
                };
                if ok {
                    self.store_ty(s, *ty, a, &n)?;
                }
                set!(dst, V::A(Rc::new(vec![cur, V::C(ok as u128)])));
            }
            Ins::AtomicRmw { dst, op, ty, p, v } => {
                let a = self.get(s, p);
                let a = self.conc(s, &a)? as u64;
                let cur = self.load_ty(s, *ty, &V::C(a as u128))?;
                let x = self.get(s, v);
                let w = self.ty_w(*ty);
                let nv = match op.as_str() {
                    "xchg" => x,
                    "add" => self.binop(BinOp::Add, w, 0, &cur, &x)?,
                    "sub" => self.binop(BinOp::Sub, w, 0, &cur, &x)?,
                    "and" => self.binop(BinOp::And, w, 0, &cur, &x)?,
                    "or" => self.binop(BinOp::Or, w, 0, &cur, &x)?,
                    "xor" => self.binop(BinOp::Xor, w, 0, &cur, &x)?,
                    _ => return Err(Stop::Unsupported(format!("atomicrmw {}", op))),
                };
                self.store_ty(s, *ty, a, &nv)?;
                set!(dst, cur);
            }
            Ins::Br(l) => self.jump(s, *l),
            Ins::CondBr(c, a, b) => {
                let k = self.get(s, c);
                let t = match &k {
                    V::C(c) => *c != 0,
                    V::Undef => false,
                    V::S(e) => {
                        let e = *e;
                        if self.merge_branch(s, e, *a, *b)? {
                            return Ok(false);
                        }
                        self.decide(s, e)?
                    }
                    _ => return Err(Stop::Unsupported("br".into())),
                };
                self.jump(s, if t { *a } else { *b });
            }
            Ins::Switch { w, v, def, cases } => {
                let k = self.get(s, v);
                match &k {
                    V::C(c) => {
                        let t = cases.iter().find(|x| x.0 == *c).map(|x| x.1).unwrap_or(*def);
                        self.jump(s, t);
                    }
                    V::Undef => self.jump(s, *def),
                    V::S(e) => {
                        let e = *e;
                        if let Some(&c) = s.fixed.get(&e) {
                            let t = cases.iter().find(|x| x.0 == c).map(|x| x.1).unwrap_or(*def);
                            self.jump(s, t);
                            return Ok(false);
                        }
                        // group cases by effective target: blocks that only
                        // branch on are skipped and constant phi values merged
                        // into a function of the switch value
                        let from = s.top.blk;
                        let body = s.top.body.clone();
                        let eff = |to: u32| -> (u32, u32) {
                            let (mut p, mut t) = (from, to);
                            for _ in 0..4 {
                                let b = &body.blocks[t as usize];
                                if !b.phis.is_empty() || b.ins.len() != 1 {
                                    break;
                                }
                                match &b.ins[0] {
                                    Ins::Br(n) => {
                                        p = t;
                                        t = *n;
                                    }
                                    _ => break,
                                }
                            }
                            (p, t)
                        };
                        struct G {
                            to: u32,
                            keys: Vec<(Option<u128>, u32)>,
                        }
                        let mut groups: Vec<G> = vec![];
                        let mut add = |k: Option<u128>, t: u32| {
                            let (p, m) = eff(t);
                            match groups.iter_mut().find(|g| g.to == m) {
                                Some(g) => g.keys.push((k, p)),
                                None => groups.push(G { to: m, keys: vec![(k, p)] }),
                            }
                        };
                        for (k, t) in cases {
                            add(Some(*k), *t);
                        }
                        add(None, *def);
                        // split groups whose phis cannot be merged
                        let mut fin: Vec<G> = vec![];
                        for g in groups {
                            let b = &body.blocks[g.to as usize];
                            let val = |ph: &crate::ir::Phi, p: u32| -> V {
                                match &ph.inc.iter().find(|i| i.0 == p).expect("phi edge").1 {
                                    Opnd::R(r) => s.top.regs[*r as usize].clone(),
                                    Opnd::K(v) => v.clone(),
                                }
                            };
                            let mut ok = true;
                            'o: for ph in &b.phis {
                                let v0 = val(ph, g.keys[0].1);
                                for (_, p) in &g.keys {
                                    if *p == g.keys[0].1 {
                                        continue;
                                    }
                                    match (&v0, val(ph, *p)) {
                                        (V::C(a), V::C(c)) => {
                                            if *a != c && ph.w == 0 {
                                                ok = false;
                                                break 'o;
                                            }
                                        }
                                        (V::S(a), V::S(c)) if *a == c => {}
                                        (V::Undef, V::Undef) => {}
                                        _ => {
                                            ok = false;
                                            break 'o;
                                        }
                                    }
                                }
                            }
                            if ok {
                                fin.push(g);
                            } else {
                                for k in g.keys {
                                    match fin.iter_mut().find(|f| f.to == g.to && f.keys[0].1 == k.1) {
                                        Some(f) => f.keys.push(k),
                                        None => fin.push(G { to: g.to, keys: vec![k] }),
                                    }
                                }
                            }
                        }
                        let keycond = |x: &mut Ctx, k: u128| {
                            let kk = x.cst(*w, k);
                            x.eq(e, kk)
                        };
                        // condition of each group, the default group last
                        let mut conds: Vec<(usize, E)> = vec![];
                        let mut dg = 0;
                        for (i, g) in fin.iter().enumerate() {
                            if g.keys.iter().any(|k| k.0.is_none()) {
                                dg = i;
                                continue;
                            }
                            let c = if *w <= 8 {
                                let mut tab = vec![0u64; 1 << *w];
                                for k in &g.keys {
                                    tab[k.0.unwrap() as usize] = 1;
                                }
                                self.x.lut(1, tab, e)
                            } else {
                                let mut r = self.x.fals();
                                for k in &g.keys {
                                    let q = keycond(&mut self.x, k.0.unwrap());
                                    r = self.x.or(r, q);
                                }
                                r
                            };
                            conds.push((i, c));
                        }
                        let mut dcond = self.x.tru();
                        for (_, c) in &conds {
                            let n = self.x.not(*c);
                            dcond = self.x.and(dcond, n);
                        }
                        conds.push((dg, dcond));
                        // phi values of a group
                        let mut phiv: Vec<Vec<V>> = vec![];
                        for g in &fin {
                            let b = &body.blocks[g.to as usize];
                            let mut vs = vec![];
                            for ph in &b.phis {
                                let get = |p: u32| -> V {
                                    match &ph.inc.iter().find(|i| i.0 == p).expect("phi edge").1 {
                                        Opnd::R(r) => s.top.regs[*r as usize].clone(),
                                        Opnd::K(v) => v.clone(),
                                    }
                                };
                                let base = g.keys.iter().find(|k| k.0.is_none()).unwrap_or(g.keys.last().unwrap()).1;
                                let bv = get(base);
                                if let V::C(b0) = bv {
                                    if g.keys.iter().any(|k| !matches!(get(k.1), V::C(c) if c == b0)) {
                                        if *w <= 8 {
                                            let mut tab = vec![b0 as u64; 1 << *w];
                                            for k in &g.keys {
                                                if let (Some(kk), V::C(c)) = (k.0, get(k.1)) {
                                                    tab[kk as usize] = c as u64;
                                                }
                                            }
                                            let r = self.x.lut(ph.w, tab, e);
                                            vs.push(self.vof(r));
                                        } else {
                                            let mut acc = self.x.cst(ph.w, b0);
                                            for k in &g.keys {
                                                if let (Some(kk), V::C(c)) = (k.0, get(k.1)) {
                                                    if c != b0 {
                                                        let q = keycond(&mut self.x, kk);
                                                        let v = self.x.cst(ph.w, c);
                                                        acc = self.x.ite(q, v, acc);
                                                    }
                                                }
                                            }
                                            vs.push(self.vof(acc));
                                        }
                                        continue;
                                    }
                                }
                                vs.push(bv);
                            }
                            phiv.push(vs);
                        }
                        let go = |eng: &mut Self, s: &mut State, gi: usize| {
                            let g = &fin[gi];
                            s.top.prev = g.keys[0].1;
                            s.top.blk = g.to;
                            s.top.pc = 0;
                            eng.visit(s.top.f, g.to);
                            for (ph, v) in body.blocks[g.to as usize].phis.iter().zip(&phiv[gi]) {
                                s.top.regs[ph.dst as usize] = v.clone();
                            }
                        };
                        let cur = conds.iter().position(|c| self.x.eval(c.1, &s.model) != 0).expect("switch");
                        let mut others = vec![];
                        for (i, (t, c)) in conds.iter().enumerate() {
                            if i == cur {
                                continue;
                            }
                            if let Some(m) = self.feasible(s, *c) {
                                others.push((*t, *c, m));
                            }
                        }
                        if !others.is_empty() {
                            s.depth += 1;
                        }
                        for (t, c, m) in others {
                            let mut o = s.clone();
                            o.model = m;
                            self.constrain(&mut o, c);
                            go(self, &mut o, t);
                            self.work.push(o);
                            self.st.forks += 1;
                        }
                        let (t, c) = conds[cur];
                        self.constrain(s, c);
                        go(self, s, t);
                    }
                    _ => return Err(Stop::Unsupported("switch".into())),
                }
            }
            Ins::Ret(v) => {
                let r = v.as_ref().map(|o| self.get(s, o));
                let al = std::mem::take(&mut s.top.allocas);
                for k in al {
                    s.mem[k as usize] = None;
                    s.free.push(k);
                }
                match s.callers.pop() {
                    None => return Err(Stop::Done),
                    Some(c) => {
                        let f = Rc::try_unwrap(c).unwrap_or_else(|c| (*c).clone());
                        let old = std::mem::replace(&mut s.top, f);
                        if let (Some(d), Some(r)) = (old.ret, r) {
                            s.top.regs[d as usize] = r;
                        }
                        match old.normal {
                            Some(b) => self.jump(s, b),
                            None => s.top.pc += 1,
                        }
                        return Ok(true);
                    }
                }
            }
            Ins::Unreachable => return Err(Stop::Unsupported("reached unreachable".into())),
            Ins::Unsupported(t) => return Err(Stop::Unsupported(format!("instruction {}", t))),
            Ins::Call { dst, ret, f, args, tys, normal } => {
                return self.call(s, *dst, *ret, f, args, tys, *normal);
            }
        }
        Ok(false)
    }

    fn fin(&mut self, s: &mut State, dst: Option<u32>, v: V, normal: Option<u32>) -> R<bool> {
        if let Some(d) = dst {
            s.top.regs[d as usize] = v;
        }
        match normal {
            Some(b) => self.jump(s, b),
            None => s.top.pc += 1,
        }
        Ok(false)
    }

    fn call(&mut self, s: &mut State, dst: Option<u32>, ret: TyId, f: &Callee, args: &[Opnd], tys: &[TyId], normal: Option<u32>) -> R<bool> {
        let fid = match f {
            Callee::Fn(i) => *i,
            Callee::Asm(pass) => {
                let v = match args {
                    [a] if *pass => self.get(s, a),
                    _ => V::C(0),
                };
                return self.fin(s, dst, v, normal);
            }
            Callee::Intr(n) => {
                let a: Vec<V> = args.iter().map(|o| self.get(s, o)).collect();
                let v = self.intrinsic(s, n, &a, tys, ret)?;
                return self.fin(s, dst, v, normal);
            }
            Callee::Ind(o) => {
                let v = self.get(s, o);
                let a = self.conc(s, &v)? as u64;
                if a < FN_BASE || (a - FN_BASE) / 16 >= self.m.funcs.len() as u64 {
                    return Err(Stop::Unsupported(format!("indirect call to {:#x}", a)));
                }
                ((a - FN_BASE) / 16) as u32
            }
        };
        let mut sp = self.special[fid as usize];
        if let Special::Debug(k) = sp {
            // the quoted rendering of symbolic text (error messages) is left out instead of
            // exploring every way to escape it
            let a: Vec<V> = args.iter().map(|o| self.get(s, o)).collect();
            if self.symbolic_text(s, k, &a) {
                return self.fin(s, dst, V::C(0), normal);
            }
            sp = Special::None;
        }
        match sp {
            Special::Debug(_) => unreachable!(),
            Special::None => {
                let a: Vec<V> = args.iter().map(|o| self.get(s, o)).collect();
                if s.callers.len() > 400 {
                    return Err(Stop::Unsupported("call depth".into()));
                }
                let fr = self.frame(fid, a, dst, normal)?;
                self.visit(fid, 0);
                let old = std::mem::replace(&mut s.top, fr);
                s.callers.push(Rc::new(old));
                Ok(true)
            }
            Special::Panic => {
                let a: Vec<V> = args.iter().map(|o| self.get(s, o)).collect();
                let (msg, loc) = self.panic_info(s, fid, &a);
                Err(Stop::Panic(msg, loc))
            }
            Special::Missing => Err(Stop::Unsupported(format!("external function {}", self.m.funcs[fid as usize].name))),
            Special::Ext(i) => {
                let a: Vec<V> = args.iter().map(|o| self.get(s, o)).collect();
                let v = self.external(s, EXT[i as usize], &a)?;
                self.fin(s, dst, v, normal)
            }
        }
    }

    fn symbolic_text(&mut self, s: &mut State, k: u8, a: &[V]) -> bool {
        let c = |v: Option<&V>| match v {
            Some(V::C(p)) => Some(*p as u64),
            _ => None,
        };
        let Some(mut p) = c(a.first()) else { return true };
        let n;
        if k == 0 {
            match c(a.get(1)) {
                Some(x) => n = x,
                None => return true,
            }
        } else {
            let mut rd = |e: &mut Self, p: u64| match e.read(s, p, 8) {
                Ok(v) => c(Some(&v)),
                Err(_) => None,
            };
            if k == 3 {
                match rd(self, p) {
                    Some(q) => p = q,
                    None => return false,
                }
            }
            let o = if k == 1 { 0 } else { 8 };
            match (rd(self, p + o), rd(self, p + o + 8)) {
                (Some(q), Some(l)) => {
                    p = q;
                    n = l;
                }
                _ => return true,
            }
        }
        match self.bytes_e(s, p, n.min(1 << 20)) {
            Ok(b) => b.iter().any(|e| self.x.as_const(*e).is_none()),
            Err(_) => false,
        }
    }
    fn cstr(&self, s: &State, addr: u64, n: u64) -> String {
        match self.obj(s, addr) {
            Ok(o) => {
                let off = (addr & 0xffff_ffff) as usize;
                let e = (off + n as usize).min(o.data.len());
                String::from_utf8_lossy(&o.data[off.min(e)..e]).into_owned()
            }
            Err(_) => "?".into(),
        }
    }
    fn panic_info(&mut self, s: &State, f: u32, a: &[V]) -> (String, String) {
        let name = self.m.funcs[f as usize].name.clone();
        let mut msg = short_name(&name);
        let mut loc = String::from("?");
        for v in a.iter().rev() {
            if let V::C(p) = v {
                let p = *p as u64;
                let id = p >> 32;
                if id >= OBJ_FIRST && id - OBJ_FIRST < self.nglob {
                    if let Some(o) = &self.ro[(id - OBJ_FIRST) as usize] {
                        if o.data.len() == 24 && p & 0xffff_ffff == 0 {
                            let rd = |i: usize, n: usize| (0..n).rev().fold(0u64, |x, k| x << 8 | o.data[i + k] as u64);
                            let (fp, fl, line) = (rd(0, 8), rd(8, 8), rd(16, 4));
                            loc = format!("{}:{}", self.cstr(s, fp, fl), line);
                            break;
                        }
                    }
                }
            }
        }
        // literal message: (ptr, len) as the first two arguments of expect-like functions
        if let (Some(V::C(p)), Some(V::C(n))) = (a.first(), a.get(1)) {
            let (p, n) = (*p as u64, *n as u64);
            let id = p >> 32;
            if id >= OBJ_FIRST && id - OBJ_FIRST < self.nglob && self.ro[(id - OBJ_FIRST) as usize].is_some() {
                let n = if msg.contains("panic_fmt") { n >> 1 } else { n };
                if n < 200 {
                    let t: String = self.cstr(s, p, n).chars().filter(|c| !c.is_control() && *c != '\u{fffd}').collect();
                    msg = format!("{}: {}", msg, t);
                }
            }
        }
        (msg, loc)
    }

    fn intrinsic(&mut self, s: &mut State, n: &str, a: &[V], tys: &[TyId], ret: TyId) -> R<V> {
        let base = &n[5..];
        let st = |p: &str| base.starts_with(p);
        if st("memcpy") || st("memmove") {
            let len = self.conc(s, &a[2])? as u64;
            if len == 0 {
                return Ok(V::C(0));
            }
            let d = self.conc(s, &a[0])? as u64;
            let p = self.conc(s, &a[1])? as u64;
            self.copy(s, d, p, len)?;
            return Ok(V::C(0));
        }
        if st("memset") {
            let len = self.conc(s, &a[2])? as u64;
            if len == 0 {
                return Ok(V::C(0));
            }
            let d = self.conc(s, &a[0])? as u64;
            self.memset(s, d, &a[1], len)?;
            return Ok(V::C(0));
        }
        if st("assume") || st("prefetch") || st("donothing") || st("x86.sse2.pause") || st("invariant") || st("sideeffect") {
            return Ok(V::C(0));
        }
        if st("trap") || st("ubsantrap") {
            return Err(Stop::Panic("trap".into(), "?".into()));
        }
        if st("expect") || st("threadlocal.address") || st("launder") || st("strip.invariant") || st("ssa.copy") {
            return Ok(a[0].clone());
        }
        if st("is.constant") {
            return Ok(V::C(0));
        }
        if st("ptrmask") {
            return self.binop(BinOp::And, 64, 0, &a[0], &a[1]);
        }
        if st("load.relative") {
            let (p, o) = (self.conc(s, &a[0])? as u64, self.conc(s, &a[1])? as u64);
            let off = self.read(s, p.wrapping_add(o), 4)?;
            return match off {
                V::C(c) if c >> 30 == 2 => match self.m.rels.borrow().get((c & 0x3fff_ffff) as usize) {
                    Some(&d) => Ok(V::C(p.wrapping_add(d) as u128)),
                    None => Err(Stop::Unsupported("load.relative".into())),
                },
                V::C(c) => Ok(V::C(p.wrapping_add(sext(c, 32) as u64) as u128)),
                _ => Err(Stop::Unsupported("load.relative".into())),
            };
        }
        let ln = base.starts_with("log.f") || base.starts_with("llvm.log.f");
        if st("log2") || st("log10") || ln || st("floor") || st("ceil") || st("trunc.f") || st("fabs") || st("sqrt") {
            let dbl = base.ends_with("f64");
            let fo = if st("log2") {
                FOp::Log2
            } else if ln {
                FOp::Ln
            } else if st("log10") {
                FOp::Log10
            } else if st("floor") {
                FOp::Floor
            } else if st("ceil") {
                FOp::Ceil
            } else {
                FOp::Trunc
            };
            return match &a[0] {
                V::C(c) => {
                    if dbl {
                        let f = f64::from_bits(*c as u64);
                        let r = if st("log2") {
                            f.log2()
                        } else if ln {
                            f.ln()
                        } else if st("log10") {
                            f.log10()
                        } else if st("floor") {
                            f.floor()
                        } else if st("ceil") {
                            f.ceil()
                        } else if st("fabs") {
                            f.abs()
                        } else if st("sqrt") {
                            f.sqrt()
                        } else {
                            f.trunc()
                        };
                        Ok(V::C(r.to_bits() as u128))
                    } else {
                        let f = f32::from_bits(*c as u32);
                        let r = if st("log2") {
                            f.log2()
                        } else if ln {
                            f.ln()
                        } else if st("log10") {
                            f.log10()
                        } else if st("floor") {
                            f.floor()
                        } else if st("ceil") {
                            f.ceil()
                        } else if st("fabs") {
                            f.abs()
                        } else if st("sqrt") {
                            f.sqrt()
                        } else {
                            f.trunc()
                        };
                        Ok(V::C(r.to_bits() as u128))
                    }
                }
                V::S(e) if st("fabs") => {
                    let w = self.x.w(*e);
                    let (lo, z) = (self.x.extract(*e, 0, w - 1), self.x.cst(1, 0));
                    let r = self.x.concat(z, lo);
                    Ok(self.vof(r))
                }
                V::F(n) if !st("fabs") && !st("sqrt") && !(n.bias && (st("log") || ln)) => Ok(Self::fpush(n, fo)),
                _ => Err(Stop::Unsupported(n.to_string())),
            };
        }
        if st("fptoui.sat") || st("fptosi.sat") {
            let tw = self.ty_w(ret);
            let signed = st("fptosi.sat");
            let dbl = self.ty_w(tys[0]) == 64;
            return match &a[0] {
                V::C(c) => {
                    let f = if dbl { f64::from_bits(*c as u64) } else { f32::from_bits(*c as u32) as f64 };
                    let v = if signed {
                        let (mn, mx) = (-(1i128 << (tw - 1)), (1i128 << (tw - 1)) - 1);
                        (f as i128).clamp(mn, mx) as u128
                    } else {
                        (f as u128).min(mask(tw))
                    };
                    Ok(V::C(v & mask(tw)))
                }
                V::F(n) => self.f2i(&n.clone(), tw, signed),
                V::S(e) if tw == 64 && dbl => {
                    let r = self.ftoi(*e, signed);
                    Ok(self.vof(r))
                }
                _ => Err(Stop::Unsupported(n.to_string())),
            };
        }
        if st("vector.reduce.") {
            let lanes = match &a[0] {
                V::A(v) => v.clone(),
                _ => return Err(Stop::Unsupported(n.to_string())),
            };
            let w = self.ty_w(tys[0]);
            let op = if st("vector.reduce.or") {
                BinOp::Or
            } else if st("vector.reduce.and") {
                BinOp::And
            } else if st("vector.reduce.add") {
                BinOp::Add
            } else if st("vector.reduce.xor") {
                BinOp::Xor
            } else {
                return Err(Stop::Unsupported(n.to_string()));
            };
            let mut r = lanes[0].clone();
            for l in &lanes[1..] {
                r = self.binop(op, w, 0, &r, l)?;
            }
            return Ok(r);
        }
        // lane-wise on vectors
        if let V::A(v0) = &a[0] {
            let et = match self.m.types.borrow().ty(tys[0]) {
                Ty::Vec(_, e) => *e,
                _ => return Err(Stop::Unsupported(n.to_string())),
            };
            let rt = match self.m.types.borrow().ty(ret) {
                Ty::Vec(_, e) => *e,
                _ => return Err(Stop::Unsupported(n.to_string())),
            };
            let cnt = v0.len();
            let mut out = vec![];
            for i in 0..cnt {
                let ai: Vec<V> = a.iter().map(|x| if let V::A(_) = x { elem(x, i) } else { x.clone() }).collect();
                let ti: Vec<TyId> = tys.iter().map(|_| et).collect();
                out.push(self.intrinsic(s, n, &ai, &ti, rt)?);
            }
            return Ok(V::A(Rc::new(out)));
        }
        let w = if tys.is_empty() { 64 } else { self.ty_w(tys[0]) };
        if st("umax") || st("umin") || st("smax") || st("smin") {
            let p = if st("umax") {
                Pred::Ugt
            } else if st("umin") {
                Pred::Ult
            } else if st("smax") {
                Pred::Sgt
            } else {
                Pred::Slt
            };
            let c = self.icmp(p, w, &a[0], &a[1])?;
            return match c {
                V::C(0) => Ok(a[1].clone()),
                V::C(_) => Ok(a[0].clone()),
                V::S(e) => self.sel(e, &a[0], &a[1], w),
                _ => unreachable!(),
            };
        }
        if st("ctpop") || st("cttz") || st("ctlz") {
            return match &a[0] {
                V::C(c) => Ok(V::C(if st("ctpop") {
                    c.count_ones() as u128
                } else if st("cttz") {
                    (c.trailing_zeros() as u128).min(w as u128)
                } else if *c == 0 {
                    w as u128
                } else {
                    (c.leading_zeros() as u128) - (128 - w as u128)
                })),
                V::S(e) => {
                    let e = *e;
                    let mut r;
                    if st("ctpop") {
                        r = self.x.cst(w, 0);
                        for i in 0..w {
                            let b = self.x.extract(e, i, 1);
                            let z = self.x.zext(b, w);
                            r = self.x.bin(Op::Add, r, z);
                        }
                    } else {
                        r = self.x.cst(w, w as u128);
                        for k in 0..w {
                            let i = if st("cttz") { w - 1 - k } else { k };
                            let b = self.x.extract(e, i, 1);
                            let v = self.x.cst(w, if st("cttz") { i as u128 } else { (w - 1 - i) as u128 });
                            r = self.x.ite(b, v, r);
                        }
                    }
                    Ok(self.vof(r))
                }
                _ => Err(Stop::Unsupported(n.to_string())),
            };
        }
        if st("bswap") || st("bitreverse") {
            let step = if st("bswap") { 8 } else { 1 };
            return match &a[0] {
                V::C(c) => {
                    let mut r = 0u128;
                    let m = mask(step);
                    for i in 0..w / step {
                        r |= ((c >> (i * step)) & m) << (w - step - i * step);
                    }
                    Ok(V::C(r))
                }
                _ => {
                    let e = self.bits(&a[0], w)?;
                    let mut r = 0;
                    for i in 0..w / step {
                        // lowest piece of the result is the highest of the source
                        let p = self.x.extract(e, w - step - i * step, step);
                        r = if i == 0 { p } else { self.x.concat(p, r) };
                    }
                    Ok(self.vof(r))
                }
            };
        }
        if st("fshl") || st("fshr") {
            let k = match &a[2] {
                V::C(c) => (*c % w as u128) as u16,
                _ => {
                    let v = a[2].clone();
                    (self.conc(s, &v)? % w as u128) as u16
                }
            };
            let (x, y) = (self.bits(&a[0], w)?, self.bits(&a[1], w)?);
            let k = if st("fshr") { w - k } else { k };
            if k == 0 {
                return Ok(a[0].clone());
            }
            if k == w {
                return Ok(a[1].clone());
            }
            let hi = self.x.extract(x, 0, w - k);
            let lo = self.x.extract(y, w - k, k);
            let r = self.x.concat(hi, lo);
            return Ok(self.vof(r));
        }
        if st("abs") {
            let z = V::C(0);
            let neg = self.icmp(Pred::Slt, w, &a[0], &z)?;
            let m = self.binop(BinOp::Sub, w, 0, &z, &a[0])?;
            return match neg {
                V::C(0) => Ok(a[0].clone()),
                V::C(_) => Ok(m),
                V::S(e) => self.sel(e, &m, &a[0], w),
                _ => unreachable!(),
            };
        }
        if st("ucmp") || st("scmp") {
            let rw = self.ty_w(ret);
            let p = if st("ucmp") { Pred::Ult } else { Pred::Slt };
            let lt = self.icmp(p, w, &a[0], &a[1])?;
            let gt = self.icmp(p, w, &a[1], &a[0])?;
            let (lt, gt) = (self.bits(&lt, 1)?, self.bits(&gt, 1)?);
            let (m, o, z) = (self.x.cst(rw, mask(rw)), self.x.cst(rw, 1), self.x.cst(rw, 0));
            let t = self.x.ite(gt, o, z);
            let r = self.x.ite(lt, m, t);
            return Ok(self.vof(r));
        }
        for (pre, op, signed) in [
            ("uadd.", BinOp::Add, false),
            ("usub.", BinOp::Sub, false),
            ("umul.", BinOp::Mul, false),
            ("sadd.", BinOp::Add, true),
            ("ssub.", BinOp::Sub, true),
            ("smul.", BinOp::Mul, true),
        ] {
            if !st(pre) {
                continue;
            }
            let r = self.binop(op, w, 0, &a[0], &a[1])?;
            let ov = self.overflow(op, signed, w, &a[0], &a[1], &r)?;
            if base[pre.len()..].starts_with("with.overflow") {
                return Ok(V::A(Rc::new(vec![r, ov])));
            }
            // saturating
            let sat = if !signed {
                if op == BinOp::Sub {
                    V::C(0)
                } else {
                    V::C(mask(w))
                }
            } else {
                let neg = self.icmp(Pred::Slt, w, &a[0], &V::C(0))?;
                let (mx, mn) = (V::C(mask(w - 1)), V::C(1u128 << (w - 1)));
                match neg {
                    V::C(0) => mx,
                    V::C(_) => mn,
                    V::S(e) => self.sel(e, &mn, &mx, w)?,
                    _ => unreachable!(),
                }
            };
            return match ov {
                V::C(0) => Ok(r),
                V::C(_) => Ok(sat),
                V::S(e) => self.sel(e, &sat, &r, w),
                _ => unreachable!(),
            };
        }
        Err(Stop::Unsupported(format!("intrinsic {}", n)))
    }
    fn overflow(&mut self, op: BinOp, signed: bool, w: u16, a: &V, b: &V, r: &V) -> R<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            let o = if signed {
                let (x, y) = (sext(*x, w), sext(*y, w));
                let v = match op {
                    BinOp::Add => x.checked_add(y),
                    BinOp::Sub => x.checked_sub(y),
                    _ => x.checked_mul(y),
                };
                match v {
                    None => true,
                    Some(v) => sext(v as u128 & mask(w), w) != v,
                }
            } else {
                let v = match op {
                    BinOp::Add => x.checked_add(*y),
                    BinOp::Sub => x.checked_sub(*y),
                    _ => x.checked_mul(*y),
                };
                match v {
                    None => true,
                    Some(v) => v > mask(w),
                }
            };
            return Ok(V::C(o as u128));
        }
        match (op, signed) {
            (BinOp::Add, false) => self.icmp(Pred::Ult, w, r, a),
            (BinOp::Sub, false) => self.icmp(Pred::Ult, w, a, b),
            _ => {
                let (x, y) = (self.bits(a, w)?, self.bits(b, w)?);
                if w > 64 {
                    let (ia, ib) = (self.x.info[x as usize], self.x.info[y as usize]);
                    let top = mask(w - 1);
                    if signed && ia.hi <= top && ib.hi <= top {
                        // neither is negative
                        let h = match op {
                            BinOp::Add => ia.hi.checked_add(ib.hi),
                            BinOp::Sub => Some(0),
                            _ => ia.hi.checked_mul(ib.hi),
                        };
                        if h.map_or(false, |h| h <= top) {
                            return Ok(V::C(0));
                        }
                    }
                    if signed && op != BinOp::Mul {
                        // the sign of the result differs from what the operands allow
                        let r = self.bits(r, w)?;
                        let q = if op == BinOp::Add { self.x.bin(Op::Xor, y, r) } else { self.x.bin(Op::Xor, x, y) };
                        let p = self.x.bin(Op::Xor, x, r);
                        let o = self.x.bin(Op::And, p, q);
                        let o = self.x.extract(o, w - 1, 1);
                        return Ok(self.vof(o));
                    }
                    if op == BinOp::Mul && !signed {
                        // no overflow if the ranges rule it out
                        let (ia, ib) = (self.x.info[x as usize], self.x.info[y as usize]);
                        if let Some(p) = ia.hi.checked_mul(ib.hi) {
                            if p <= mask(w) {
                                return Ok(V::C(0));
                            }
                        }
                        // a > MAX / b   (b constant)
                        if let Some(k) = self.x.as_const(y) {
                            if k > 0 {
                                let lim = self.x.cst(w, mask(w) / k);
                                let c = self.x.ult(lim, x);
                                return Ok(self.vof(c));
                            }
                        }
                    }
                    return Err(Stop::Unsupported("wide overflow op".into()));
                }
                let w2 = w * 2;
                let (xe, ye) = if signed { (self.x.sext(x, w2), self.x.sext(y, w2)) } else { (self.x.zext(x, w2), self.x.zext(y, w2)) };
                let full = match op {
                    BinOp::Add => self.x.bin(Op::Add, xe, ye),
                    BinOp::Sub => self.x.sub(xe, ye),
                    _ => self.x.bin(Op::Mul, xe, ye),
                };
                let re = self.bits(r, w)?;
                let rx = if signed { self.x.sext(re, w2) } else { self.x.zext(re, w2) };
                let e = self.x.eq(full, rx);
                let o = self.x.not(e);
                Ok(self.vof(o))
            }
        }
    }
    fn memset(&mut self, s: &mut State, d: u64, v: &V, n: u64) -> R<()> {
        match v {
            V::C(c) => {
                let o = self.obj_mut(s, d)?;
                let off = (d & 0xffff_ffff) as usize;
                if off + n as usize > o.data.len() {
                    return Err(Stop::Unsupported("memset out of bounds".into()));
                }
                o.data[off..off + n as usize].fill(*c as u8);
                if let Some(sy) = &mut o.sym {
                    sy[off..off + n as usize].fill(0);
                }
            }
            _ => {
                for i in 0..n {
                    self.write(s, d + i, 1, v)?;
                }
            }
        }
        Ok(())
    }

    fn fresh(&mut self, s: &mut State, n: u32) -> (u32, Vec<E>) {
        // reuse of variable indices across sibling paths keeps expressions shared
        let start = s.model.len().max(s.dom.len()) as u32;
        let start = start.max(s.inputs.last().map(|i| i.start + i.len).unwrap_or(0));
        let start = start.max(s.ufs.last().map(|u| u.out.iter().map(|&e| self.x.n(e).a + 1).max().unwrap_or(0)).unwrap_or(0));
        while self.x.nvars < start + n {
            self.x.var();
        }
        let es: Vec<E> = (start..start + n).map(|v| self.x.vars[v as usize]).collect();
        let m = Rc::make_mut(&mut s.model);
        m.resize((start + n) as usize, 0);
        (start, es)
    }

    fn external(&mut self, s: &mut State, n: &str, a: &[V]) -> R<V> {
        match n {
            "malloc" => {
                let sz = self.conc(s, &a[0])? as u64;
                if sz > 1 << 28 {
                    return Ok(V::C(0));
                }
                Ok(V::C(self.alloc(s, sz) as u128))
            }
            "calloc" => {
                let (x, y) = (self.conc(s, &a[0])? as u64, self.conc(s, &a[1])? as u64);
                let sz = x * y;
                if sz > 1 << 28 {
                    return Ok(V::C(0));
                }
                Ok(V::C(self.alloc(s, sz) as u128))
            }
            "aligned_alloc" => {
                let sz = self.conc(s, &a[1])? as u64;
                Ok(V::C(self.alloc(s, sz) as u128))
            }
            "posix_memalign" => {
                let sz = self.conc(s, &a[2])? as u64;
                let p = self.conc(s, &a[0])? as u64;
                let q = self.alloc(s, sz);
                self.write(s, p, 8, &V::C(q as u128))?;
                Ok(V::C(0))
            }
            "realloc" => {
                let sz = self.conc(s, &a[1])? as u64;
                let p = self.conc(s, &a[0])? as u64;
                if sz > 1 << 28 {
                    return Ok(V::C(0));
                }
                let q = self.alloc(s, sz);
                if p != 0 {
                    let old = self.obj(s, p)?.data.len() as u64;
                    self.copy(s, q, p, old.min(sz))?;
                    self.dealloc(s, p);
                }
                Ok(V::C(q as u128))
            }
            "free" => {
                let p = self.conc(s, &a[0])? as u64;
                if p != 0 {
                    self.dealloc(s, p);
                }
                Ok(V::C(0))
            }
            "memcpy" | "memmove" => {
                let len = self.conc(s, &a[2])? as u64;
                let d = self.conc(s, &a[0])? as u64;
                let p = self.conc(s, &a[1])? as u64;
                self.copy(s, d, p, len)?;
                Ok(a[0].clone())
            }
            "memset" => {
                let len = self.conc(s, &a[2])? as u64;
                let d = self.conc(s, &a[0])? as u64;
                let b = match &a[1] {
                    V::C(c) => V::C(c & 0xff),
                    V::S(e) => {
                        let x = self.x.extract(*e, 0, 8);
                        self.vof(x)
                    }
                    v => v.clone(),
                };
                self.memset(s, d, &b, len)?;
                Ok(a[0].clone())
            }
            "bcmp" | "memcmp" => {
                let len = self.conc(s, &a[2])? as u64;
                if len == 0 {
                    return Ok(V::C(0));
                }
                let p = self.addr_bytes(s, &a[0], len)?;
                let q = self.addr_bytes(s, &a[1], len)?;
                if n == "bcmp" {
                    let mut r = self.x.tru();
                    for i in (0..len as usize).rev() {
                        let e = self.x.eq(p[i], q[i]);
                        r = self.x.and(r, e);
                        if self.x.as_const(r) == Some(0) {
                            break;
                        }
                    }
                    let nr = self.x.not(r);
                    let z = self.x.zext(nr, 32);
                    return Ok(self.vof(z));
                }
                let mut r = self.x.cst(32, 0);
                for i in (0..len as usize).rev() {
                    let e = self.x.eq(p[i], q[i]);
                    let lt = self.x.ult(p[i], q[i]);
                    let (m, o) = (self.x.cst(32, 0xffff_ffff), self.x.cst(32, 1));
                    let d = self.x.ite(lt, m, o);
                    r = self.x.ite(e, r, d);
                }
                Ok(self.vof(r))
            }
            "strlen" => {
                let p = self.conc(s, &a[0])? as u64;
                let mut i = 0;
                loop {
                    match self.read(s, p + i, 1)? {
                        V::C(0) => return Ok(V::C(i as u128)),
                        V::C(_) => i += 1,
                        _ => return Err(Stop::Unsupported("strlen on symbolic".into())),
                    }
                }
            }
            "memchr" => {
                let p = self.conc(s, &a[0])? as u64;
                let len = self.conc(s, &a[2])? as u64;
                let c = self.bits(&a[1], 32)?;
                let c = self.x.extract(c, 0, 8);
                let b = self.bytes_e(s, p, len)?;
                let mut r = self.x.cst(64, 0);
                for i in (0..len).rev() {
                    let e = self.x.eq(b[i as usize], c);
                    let v = self.x.cst(64, (p + i) as u128);
                    r = self.x.ite(e, v, r);
                }
                Ok(self.vof(r))
            }
            "syscall" => {
                let num = self.conc(s, &a[0])?;
                if num == 318 {
                    // getrandom(buf, len, flags): the map-hashing seed; a fixed value
                    let p = self.conc(s, &a[1])? as u64;
                    let len = self.conc(s, &a[2])? as u64;
                    for i in 0..len {
                        self.write(s, p + i, 1, &V::C((i * 37 + 11) as u128 & 0xff))?;
                    }
                    return Ok(V::C(len as u128));
                }
                Err(Stop::Unsupported(format!("syscall {}", num)))
            }
            "getrandom" => {
                let p = self.conc(s, &a[0])? as u64;
                let len = self.conc(s, &a[1])? as u64;
                for i in 0..len {
                    self.write(s, p + i, 1, &V::C((i * 37 + 11) as u128 & 0xff))?;
                }
                Ok(V::C(len as u128))
            }
            "abort" => Err(Stop::Panic("abort".into(), "?".into())),
            "write" => Ok(a[2].clone()),
            "getenv" => Ok(V::C(0)),
            "__errno_location" => {
                let p = self.alloc(s, 8);
                Ok(V::C(p as u128))
            }
            "clock_gettime" => {
                let p = self.conc(s, &a[1])? as u64;
                self.write(s, p, 8, &V::C(1_600_000_000))?;
                self.write(s, p + 8, 8, &V::C(123_456_789))?;
                Ok(V::C(0))
            }
            // ------------------------------------------------ harness interface
            "sym_bytes" => {
                let p = self.conc(s, &a[0])? as u64;
                let len = self.conc(s, &a[1])? as u64;
                let id = self.conc(s, &a[2])? as u32;
                if len == 0 {
                    return Ok(V::C(0));
                }
                if let Some(c) = &self.concrete {
                    let (cid, bytes) = match c.get(self.cpos) {
                        Some(x) => x.clone(),
                        None => (id, vec![0; len as usize]),
                    };
                    self.cpos += 1;
                    if cid != id {
                        return Err(Stop::Unsupported("concrete inputs do not match".into()));
                    }
                    for (i, b) in bytes.iter().enumerate() {
                        self.write(s, p + i as u64, 1, &V::C(*b as u128))?;
                    }
                    return Ok(V::C(0));
                }
                let (start, es) = self.fresh(s, len as u32);
                s.inputs.push(Input { id, start, len: len as u32 });
                for (i, e) in es.iter().enumerate() {
                    self.write(s, p + i as u64, 1, &V::S(*e))?;
                }
                Ok(V::C(0))
            }
            "sym_assume" => {
                let e = self.bits(&a[0], 1)?;
                let e = self.x.extract(e, 0, 1);
                match self.feasible(s, e) {
                    None => Err(Stop::Assume),
                    Some(m) => {
                        s.model = m;
                        self.constrain(s, e);
                        Ok(V::C(0))
                    }
                }
            }
            "sym_assert" => {
                let e = self.bits(&a[0], 1)?;
                let e = self.x.extract(e, 0, 1);
                let (p, l) = (self.conc(s, &a[1])? as u64, self.conc(s, &a[2])? as u64);
                self.st.asserts += 1;
                if self.x.as_const(e) == Some(1) {
                    self.st.asserts_trivial += 1;
                    return Ok(V::C(0));
                }
                let msg = self.cstr(s, p, l);
                let ne = self.x.not(e);
                self.st.asserts_solver += 1;
                let bad = if self.x.eval(ne, &s.model) != 0 { Some(s.model.clone()) } else { self.refute(s, e) };
                if let Some(m) = bad {
                    self.violation(s, "assert", &msg, "", Some(m));
                    match self.feasible(s, e) {
                        None => return Err(Stop::Assume),
                        Some(m) => s.model = m,
                    }
                    self.constrain(s, e);
                }
                Ok(V::C(0))
            }
            "sym_fail" => {
                let (p, l) = (self.conc(s, &a[0])? as u64, self.conc(s, &a[1])? as u64);
                let msg = self.cstr(s, p, l);
                self.st.asserts += 1;
                self.violation(s, "assert", &msg, "", None);
                Err(Stop::Assume)
            }
            "sym_case" => Ok(V::C(self.case as u128)),
            "sym_tier" => Ok(V::C(self.tier as u128)),
            "sym_is_native" => Ok(V::C(0)),
            "sym_conc" => Ok(V::C(self.conc(s, &a[0])?)),
            "sym_ite" => {
                // sym_ite(cond, a: u64, b: u64) -> u64 without forking
                let e = self.bits(&a[0], 1)?;
                let e = self.x.extract(e, 0, 1);
                self.sel(e, &a[1], &a[2], 64)
            }
            "sym_cover" => {
                let (p, l) = (self.conc(s, &a[0])? as u64, self.conc(s, &a[1])? as u64);
                let msg = self.cstr(s, p, l);
                s.cov.push(msg.clone());
                *self.covers.entry(msg).or_insert(0) += 1;
                Ok(V::C(0))
            }
            "sym_note" => {
                let (p, l) = (self.conc(s, &a[0])? as u64, self.conc(s, &a[1])? as u64);
                let b = self.bytes_e(s, p, l)?;
                let t: String = b
                    .iter()
                    .map(|&e| match self.x.as_const(e) {
                        Some(c) if (32..127).contains(&c) => (c as u8 as char).to_string(),
                        Some(c) => format!("\\x{:02x}", c),
                        None => {
                            let c = self.x.eval(e, &s.model) as u8;
                            format!("<{}>", if (32..127).contains(&c) { (c as char).to_string() } else { format!("{:02x}", c) })
                        }
                    })
                    .collect();
                if self.verbose {
                    eprintln!("note: {}", t);
                }
                s.notes.push(t);
                Ok(V::C(0))
            }
            "sym_panics_ok" => {
                s.panics_ok = self.conc(s, &a[0])? & 1 != 0;
                Ok(V::C(0))
            }
            "sym_eq" => {
                let (la, lb) = (self.conc(s, &a[1])? as u64, self.conc(s, &a[3])? as u64);
                if la != lb {
                    return Ok(V::C(0));
                }
                if la == 0 {
                    return Ok(V::C(1));
                }
                let (pa, pb) = (self.conc(s, &a[0])? as u64, self.conc(s, &a[2])? as u64);
                let x = self.bytes_e(s, pa, la)?;
                let y = self.bytes_e(s, pb, lb)?;
                let mut r = self.x.tru();
                for i in (0..la as usize).rev() {
                    let e = self.x.eq(x[i], y[i]);
                    r = self.x.and(r, e);
                }
                Ok(self.vof(r))
            }
            "sym_uf" => {
                // sym_uf(alg, in, in_len, out, out_len): injective uninterpreted function
                let alg = self.conc(s, &a[0])? as u32;
                let ilen = self.conc(s, &a[2])? as u64;
                let olen = self.conc(s, &a[4])? as u64;
                let ip = if ilen > 0 { self.conc(s, &a[1])? as u64 } else { 0 };
                let op = self.conc(s, &a[3])? as u64;
                let inp = self.bytes_e(s, ip, ilen)?;
                let mut out: Option<Vec<E>> = None;
                for u in &s.ufs {
                    if u.alg == alg && u.inp == inp && u.out.len() == olen as usize {
                        out = Some(u.out.clone());
                    }
                }
                let out = match out {
                    Some(o) => o,
                    None => {
                        let idx = s.ufs.len();
                        let (start, o) = self.fresh(s, olen as u32);
                        // a model value: equal to an earlier application iff the inputs are equal in the model
                        let mut vals: Vec<u8> = (0..olen).map(|i| (17 + 31 * idx as u64 + 7 * i + (i * i + 3) * (alg as u64 + 1)) as u8).collect();
                        if olen >= 4 {
                            vals[0] = idx as u8;
                            vals[1] = (idx >> 8) as u8;
                            vals[2] = alg as u8 ^ 0x5a;
                        }
                        let prev: Vec<Rc<UfApp>> = s.ufs.iter().filter(|u| u.alg == alg && u.out.len() == o.len()).cloned().collect();
                        let mut cs = vec![];
                        for u in &prev {
                            let mut eo = self.x.tru();
                            for i in (0..o.len()).rev() {
                                let e = self.x.eq(u.out[i], o[i]);
                                eo = self.x.and(eo, e);
                            }
                            if u.inp.len() == inp.len() {
                                let mut ei = self.x.tru();
                                for i in (0..inp.len()).rev() {
                                    let e = self.x.eq(u.inp[i], inp[i]);
                                    ei = self.x.and(ei, e);
                                }
                                if self.x.eval(ei, &s.model) != 0 {
                                    let m = s.model.clone();
                                    for i in 0..o.len() {
                                        vals[i] = self.x.eval(u.out[i], &m) as u8;
                                    }
                                }
                                cs.push(match self.x.as_const(ei) {
                                    Some(0) => self.x.not(eo),
                                    _ => self.x.eq(ei, eo),
                                });
                            } else {
                                cs.push(self.x.not(eo));
                            }
                        }
                        {
                            let m = Rc::make_mut(&mut s.model);
                            for i in 0..o.len() {
                                m[start as usize + i] = vals[i];
                            }
                        }
                        for c in cs {
                            if self.x.eval(c, &s.model) == 0 {
                                // fall back to the solver for a consistent model
                                match self.feasible(s, c) {
                                    Some(m) => s.model = m,
                                    None => return Err(Stop::Unsupported("inconsistent uninterpreted function".into())),
                                }
                            }
                            self.constrain(s, c);
                        }
                        s.ufs.push(Rc::new(UfApp { alg, inp, out: o.clone() }));
                        o
                    }
                };
                for (i, e) in out.iter().enumerate() {
                    let v = self.vof(*e);
                    self.write(s, op + i as u64, 1, &v)?;
                }
                Ok(V::C(0))
            }
            _ => Err(Stop::Unsupported(format!("external {}", n))),
        }
    }
    /// bytes at a possibly symbolic address (ite over a few constants)
    fn addr_bytes(&mut self, s: &mut State, p: &V, n: u64) -> R<Vec<E>> {
        if let V::C(a) = p {
            return self.bytes_e(s, *a as u64, n);
        }
        let mut v = vec![];
        if let V::S(e) = p {
            if self.x.const_tree(*e, 8) && !s.fixed.contains_key(e) {
                for i in 0..n {
                    let k = self.x.cst(64, i as u128);
                    let a = self.x.bin(Op::Add, *e, k);
                    let av = self.vof(a);
                    match self.load(s, &av, 1) {
                        Ok(b) => v.push(self.bits(&b, 8)?),
                        Err(_) => {
                            v.clear();
                            break;
                        }
                    }
                }
                if v.len() == n as usize {
                    return Ok(v);
                }
            }
        }
        let a = self.conc(s, p)? as u64;
        self.bytes_e(s, a, n)
    }
}

fn elem(v: &V, i: usize) -> V {
    match v {
        V::A(x) => x[i].clone(),
        _ => V::C(0),
    }
}
fn insert(agg: &mut V, path: &[u32], x: V) {
    if path.is_empty() {
        *agg = x;
        return;
    }
    if let V::A(v) = agg {
        insert(&mut Rc::make_mut(v)[path[0] as usize], &path[1..], x);
    } else {
        panic!("insert into non-aggregate");
    }
}
fn fcmp(p: &str, a: f64, b: f64) -> bool {
    let un = a.is_nan() || b.is_nan();
    match p {
        "oeq" => a == b,
        "ogt" => a > b,
        "oge" => a >= b,
        "olt" => a < b,
        "ole" => a <= b,
        "one" => !un && a != b,
        "ord" => !un,
        "ueq" => un || a == b,
        "ugt" => un || a > b,
        "uge" => un || a >= b,
        "ult" => un || a < b,
        "ule" => un || a <= b,
        "une" => a != b,
        "uno" => un,
        "true" => true,
        _ => false,
    }
}
fn short_name(n: &str) -> String {
    for k in [
        "panic_fmt",
        "panic_bounds_check",
        "slice_index_fail",
        "slice_error_fail",
        "unwrap_failed",
        "expect_failed",
        "panic_const_add_overflow",
        "panic_const_sub_overflow",
        "panic_const_mul_overflow",
        "panic_const_shl_overflow",
        "panic_const_div_by_zero",
        "panic_const_rem_by_zero",
        "panic_const",
        "len_mismatch_fail",
        "handle_alloc_error",
        "capacity_overflow",
        "handle_error",
        "overflow_panic",
        "assert_failed",
    ] {
        if n.contains(k) {
            return k.to_string();
        }
    }
    if n.contains("panicking5panic") {
        return "panic".into();
    }
    n.to_string()
}
