//! Hash-consed bit-vector expression DAG with aggressive local simplification.
//!
//! All symbolic inputs are byte variables.  Every expression that depends on a
//! single byte variable is kept in the canonical form `Lut(table, Var)`, so unary
//! reasoning is exact; expressions over several variables keep their structure.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Lut,     // a = table, b = index expression
    Concat,  // a = hi, b = lo
    Extract, // a = expr, b = lo bit
    SExt,
    Not,
    And,
    Or,
    Xor,
    Add,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Ite,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

pub struct Table {
    pub w: u16,
    pub v: Vec<u64>,
    pub kz: u64,
    pub ko: u64,
    pub lo: u64,
    pub hi: u64,
}

#[derive(Clone, Copy)]
pub struct Info {
    pub kz: u128,
    pub ko: u128,
    pub lo: u128,
    pub hi: u128,
    pub sup: u32, // NOVAR, var id, or MULTI
}

pub const NOVAR: u32 = u32::MAX;
pub const MULTI: u32 = u32::MAX - 1;

pub type Bits256 = [u64; 4];

#[derive(Default)]
pub struct FxHasher(u64);
impl std::hash::Hasher for FxHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.write_u64(*b as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x9E3779B97F4A7C15);
        self.0 ^= self.0 >> 29;
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type Fx = std::hash::BuildHasherDefault<FxHasher>;
pub type FxMap<K, V> = HashMap<K, V, Fx>;

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub info: Vec<Info>,
    pub consts: Vec<u128>,
    pub tables: Vec<Table>,
    map: FxMap<Node, E>,
    cmap: FxMap<(u16, u128), E>,
    tmap: FxMap<(u16, Vec<u64>), u32>,
    pub nvars: u32,
    pub vars: Vec<E>,
    supc: FxMap<E, Rc<Vec<u32>>>,
    // model evaluation cache
    stamp: Vec<u32>,
    val: Vec<u128>,
    gen: u32,
    gen_model: *const Vec<u8>,
    keep_model: Option<Rc<Vec<u8>>>,
    setc: FxMap<E, Rc<Bits256>>,
    atomc: FxMap<E, E>,
}

#[inline]
pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

fn apply(op: Op, w: u16, aw: u16, x: u128, y: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Add => x.wrapping_add(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            let (a, b) = (sext(x, w), sext(y, w));
            if b == 0 {
                if a >= 0 {
                    m
                } else {
                    1
                }
            } else {
                (a.wrapping_div(b)) as u128 & m
            }
        }
        Op::SRem => {
            let (a, b) = (sext(x, w), sext(y, w));
            if b == 0 {
                x
            } else {
                (a.wrapping_rem(b)) as u128 & m
            }
        }
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                (x << y) & m
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let a = sext(x, w);
            let s = if y >= w as u128 { w as u32 - 1 } else { y as u32 };
            ((a >> s) as u128) & m
        }
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Slt => (sext(x, aw) < sext(y, aw)) as u128,
        _ => unreachable!(),
    }
}

impl Ctx {
    pub fn new() -> Ctx {
        let mut c = Ctx {
            nodes: vec![],
            info: vec![],
            consts: vec![],
            tables: vec![],
            map: Default::default(),
            cmap: Default::default(),
            tmap: Default::default(),
            nvars: 0,
            vars: vec![],
            supc: Default::default(),
            stamp: vec![],
            val: vec![],
            gen: 0,
            gen_model: std::ptr::null(),
            keep_model: None,
            setc: Default::default(),
            atomc: Default::default(),
        };
        c.cst(8, 0); // id 0 is reserved (memory uses 0 for "concrete")
        c
    }
    #[inline]
    pub fn w(&self, e: E) -> u16 {
        self.nodes[e as usize].w
    }
    #[inline]
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    #[inline]
    pub fn as_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(self.consts[n.a as usize])
        } else {
            None
        }
    }
    pub fn cst(&mut self, w: u16, v: u128) -> E {
        let v = v & mask(w);
        if let Some(&e) = self.cmap.get(&(w, v)) {
            return e;
        }
        let k = self.consts.len() as u32;
        self.consts.push(v);
        let e = self.nodes.len() as E;
        self.nodes.push(Node { op: Op::Const, w, a: k, b: 0, c: 0 });
        self.info.push(Info { kz: !v & mask(w), ko: v, lo: v, hi: v, sup: NOVAR });
        self.cmap.insert((w, v), e);
        e
    }
    pub fn tru(&mut self) -> E {
        self.cst(1, 1)
    }
    pub fn fals(&mut self) -> E {
        self.cst(1, 0)
    }
    pub fn var(&mut self) -> E {
        let v = self.nvars;
        self.nvars += 1;
        let e = self.nodes.len() as E;
        self.nodes.push(Node { op: Op::Var, w: 8, a: v, b: 0, c: 0 });
        self.info.push(Info { kz: 0, ko: 0, lo: 0, hi: 255, sup: v });
        self.vars.push(e);
        e
    }

    fn table(&mut self, w: u16, v: Vec<u64>) -> u32 {
        let key = (w, v);
        if let Some(&t) = self.tmap.get(&key) {
            return t;
        }
        let m = mask(w) as u64;
        let (mut o, mut z, mut lo, mut hi) = (m, m, u64::MAX, 0);
        for &x in &key.1 {
            o &= x;
            z &= !x;
            lo = lo.min(x);
            hi = hi.max(x);
        }
        let id = self.tables.len() as u32;
        self.tables.push(Table { w, v: key.1.clone(), kz: z & m, ko: o, lo, hi });
        self.tmap.insert(key, id);
        id
    }

    /// Table lookup: `v[idx]`, `v.len() == 2^width(idx)`, width(idx) <= 12, w <= 64
    pub fn lut(&mut self, w: u16, v: Vec<u64>, idx: E) -> E {
        let iw = self.w(idx);
        debug_assert_eq!(v.len(), 1usize << iw);
        if let Some(c) = self.as_const(idx) {
            return self.cst(w, v[c as usize] as u128);
        }
        let n = self.n(idx);
        if n.op == Op::Lut {
            // compose
            let t: Vec<u64> = self.tables[n.a as usize].v.iter().map(|&i| v[i as usize]).collect();
            return self.lut(w, t, n.b);
        }
        // strip constant-zero high bits of the index
        if n.op == Op::Concat {
            if let Some(0) = self.as_const(n.a) {
                let lw = self.w(n.b);
                return self.lut(w, v[..1usize << lw].to_vec(), n.b);
            }
        }
        let s = self.info[idx as usize].sup;
        if s < MULTI && n.op != Op::Var {
            // unary index: tabulate over the variable
            let iv = self.unary_vals(idx);
            let t: Vec<u64> = iv.iter().map(|&i| v[i as usize]).collect();
            let ve = self.vars[s as usize];
            return self.lut(w, t, ve);
        }
        if s == MULTI {
            let x = self.atom(idx, 6);
            if Self::is_atom(x) && x != idx {
                let xw = self.w(x);
                let t: Vec<u64> = (0..1u128 << xw).map(|i| v[self.eval_atom(idx, x, i) as usize]).collect();
                return self.lut(w, t, x);
            }
        }
        // only values within the known range of the index matter
        let inf = self.info[idx as usize];
        let mut f = None;
        let mut same = true;
        let mut tmax = 0;
        let mut ident = w >= iw;
        for (i, &x) in v.iter().enumerate() {
            let iu = i as u128;
            if iu & inf.kz != 0 || !iu & inf.ko != 0 {
                continue;
            }
            if *f.get_or_insert(x) != x {
                same = false
            }
            tmax = tmax.max(x);
            if x != i as u64 {
                ident = false
            }
        }
        if same {
            return self.cst(w, f.unwrap_or(0) as u128);
        }
        if ident {
            return self.zext(idx, w);
        }
        let need = 64 - tmax.leading_zeros() as u16;
        if need < w {
            let m = mask(need) as u64;
            let l = self.lut(need, v.iter().map(|&x| x & m).collect(), idx);
            let z = self.cst(w - need, 0);
            return self.mkconcat(z, l);
        }
        let t = self.table(w, v);
        let tb = &self.tables[t as usize];
        let info = Info { kz: tb.kz as u128, ko: tb.ko as u128, lo: tb.lo as u128, hi: tb.hi as u128, sup: s };
        if info.lo == info.hi {
            return self.cst(w, info.lo);
        }
        self.mk(Node { op: Op::Lut, w, a: t, b: idx, c: 0 }, info)
    }

    /// the narrow expression (at most 8 bits, several variables) that `e` is a
    /// function of; NOATOM for constants, BADATOM when there is none
    fn atom(&mut self, e: E, d: u32) -> E {
        const NO: E = E::MAX - 1;
        const BAD: E = E::MAX;
        let n = self.n(e);
        if n.op == Op::Const {
            return NO;
        }
        if n.op == Op::Var || self.info[e as usize].sup < MULTI {
            return BAD;
        }
        if let Some(&a) = self.atomc.get(&e) {
            return a;
        }
        if d == 0 {
            return if n.w <= 8 { e } else { BAD };
        }
        let kids: &[E] = match n.op {
            Op::Lut => &[n.b],
            Op::Extract | Op::SExt | Op::Not => &[n.a],
            Op::Ite => &[n.a, n.b, n.c],
            _ => &[n.a, n.b],
        };
        let mut r = NO;
        for &k in kids {
            let a = self.atom(k, d - 1);
            r = match (r, a) {
                (BAD, _) | (_, BAD) => BAD,
                (r, NO) => r,
                (NO, a) => a,
                (r, a) if r == a => r,
                _ => BAD,
            };
            if r == BAD {
                break;
            }
        }
        if r == BAD && n.w <= 8 {
            r = e;
        }
        self.atomc.insert(e, r);
        r
    }
    fn eval_atom(&self, e: E, x: E, v: u128) -> u128 {
        if e == x {
            return v;
        }
        let n = self.n(e);
        match n.op {
            Op::Const => self.consts[n.a as usize],
            Op::Var => unreachable!(),
            Op::Lut => self.tables[n.a as usize].v[self.eval_atom(n.b, x, v) as usize] as u128,
            Op::Concat => (self.eval_atom(n.a, x, v) << self.w(n.b)) | self.eval_atom(n.b, x, v),
            Op::Extract => (self.eval_atom(n.a, x, v) >> n.b) & mask(n.w),
            Op::SExt => sext(self.eval_atom(n.a, x, v), self.w(n.a)) as u128 & mask(n.w),
            Op::Not => !self.eval_atom(n.a, x, v) & mask(n.w),
            Op::Ite => {
                if self.eval_atom(n.a, x, v) != 0 {
                    self.eval_atom(n.b, x, v)
                } else {
                    self.eval_atom(n.c, x, v)
                }
            }
            _ => {
                let a = self.eval_atom(n.a, x, v);
                let b = self.eval_atom(n.b, x, v);
                apply(n.op, n.w, self.w(n.a), a, b)
            }
        }
    }
    fn is_atom(a: E) -> bool {
        a < E::MAX - 1
    }

    fn mk(&mut self, n: Node, info: Info) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let e = self.nodes.len() as E;
        self.nodes.push(n);
        self.info.push(info);
        self.map.insert(n, e);
        e
    }

    /// 256 values of a unary expression (w <= 64)
    fn unary_vals(&mut self, e: E) -> Vec<u64> {
        let n = self.n(e);
        match n.op {
            Op::Const => vec![self.consts[n.a as usize] as u64; 256],
            Op::Var => (0..256).collect(),
            Op::Lut if self.n(n.b).op == Op::Var => self.tables[n.a as usize].v.clone(),
            _ => {
                // generic evaluation
                let s = self.info[e as usize].sup;
                (0..256u32).map(|x| self.eval_unary(e, s, x as u8) as u64).collect()
            }
        }
    }
    fn eval_unary(&mut self, e: E, var: u32, x: u8) -> u128 {
        let n = self.n(e);
        match n.op {
            Op::Const => self.consts[n.a as usize],
            Op::Var => {
                debug_assert_eq!(n.a, var);
                x as u128
            }
            Op::Lut => {
                let i = self.eval_unary(n.b, var, x);
                self.tables[n.a as usize].v[i as usize] as u128
            }
            Op::Concat => {
                let lw = self.w(n.b);
                (self.eval_unary(n.a, var, x) << lw) | self.eval_unary(n.b, var, x)
            }
            Op::Extract => (self.eval_unary(n.a, var, x) >> n.b) & mask(n.w),
            Op::SExt => sext(self.eval_unary(n.a, var, x), self.w(n.a)) as u128 & mask(n.w),
            Op::Not => !self.eval_unary(n.a, var, x) & mask(n.w),
            Op::Ite => {
                if self.eval_unary(n.a, var, x) != 0 {
                    self.eval_unary(n.b, var, x)
                } else {
                    self.eval_unary(n.c, var, x)
                }
            }
            _ => {
                let a = self.eval_unary(n.a, var, x);
                let b = self.eval_unary(n.b, var, x);
                apply(n.op, n.w, self.w(n.a), a, b)
            }
        }
    }

    fn join(&self, a: u32, b: u32) -> u32 {
        if a == NOVAR {
            b
        } else if b == NOVAR || a == b {
            a
        } else {
            MULTI
        }
    }
    #[inline]
    /// depends on exactly one input byte
    pub fn unary(&self, e: E) -> bool {
        self.info[e as usize].sup < MULTI
    }
    fn sup(&self, e: E) -> u32 {
        self.info[e as usize].sup
    }

    /// same-index LUT fusion for binary operators.
    fn fuse2(&mut self, op: Op, w: u16, a: E, b: E) -> Option<E> {
        let (sa, sb) = (self.sup(a), self.sup(b));
        let aw = self.w(a);
        if aw > 64 || w > 64 {
            return None;
        }
        let s = self.join(sa, sb);
        if s == NOVAR {
            return None;
        }
        if s < MULTI {
            let x = self.unary_vals(a);
            let y = self.unary_vals(b);
            let t: Vec<u64> = (0..256).map(|i| apply(op, w, aw, x[i] as u128, y[i] as u128) as u64).collect();
            let ve = self.vars[s as usize];
            return Some(self.lut(w, t, ve));
        }
        // multi-variable index luts
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Lut && nb.op != Op::Const || nb.op == Op::Lut && na.op != Op::Const {
            let (x, y) = (self.atom(a, 6), self.atom(b, 6));
            if Self::is_atom(x) && x == y && x != a && x != b {
                let xw = self.w(x);
                let t: Vec<u64> = (0..1u128 << xw).map(|i| apply(op, w, aw, self.eval_atom(a, x, i), self.eval_atom(b, x, i)) as u64).collect();
                return Some(self.lut(w, t, x));
            }
        }
        // a zero-extended table and a constant
        if w <= 32 && na.op == Op::Concat && nb.op == Op::Const && self.as_const(na.a) == Some(0) {
            let nl = self.n(na.b);
            if nl.op == Op::Lut && self.info[na.b as usize].sup == MULTI {
                let k = self.consts[nb.a as usize];
                let t: Vec<u64> = self.tables[nl.a as usize].v.iter().map(|&x| apply(op, w, aw, x as u128, k) as u64).collect();
                return Some(self.lut(w, t, nl.b));
            }
        }
        if na.op == Op::Lut && nb.op == Op::Const {
            let k = self.consts[nb.a as usize];
            let t: Vec<u64> = self.tables[na.a as usize].v.iter().map(|&x| apply(op, w, aw, x as u128, k) as u64).collect();
            return Some(self.lut(w, t, na.b));
        }
        if nb.op == Op::Lut && na.op == Op::Const {
            let k = self.consts[na.a as usize];
            let t: Vec<u64> = self.tables[nb.a as usize].v.iter().map(|&x| apply(op, w, aw, k, x as u128) as u64).collect();
            return Some(self.lut(w, t, nb.b));
        }
        if na.op == Op::Lut && nb.op == Op::Lut && na.b == nb.b {
            let t: Vec<u64> = self.tables[na.a as usize]
                .v
                .iter()
                .zip(self.tables[nb.a as usize].v.iter())
                .map(|(&x, &y)| apply(op, w, aw, x as u128, y as u128) as u64)
                .collect();
            return Some(self.lut(w, t, na.b));
        }
        None
    }
    fn fuse1<F: Fn(u64) -> u64>(&mut self, w: u16, a: E, f: F) -> Option<E> {
        let s = self.sup(a);
        if self.w(a) > 64 || w > 64 || s == NOVAR {
            return None;
        }
        let n = self.n(a);
        if n.op == Op::Lut {
            let t: Vec<u64> = self.tables[n.a as usize].v.iter().map(|&x| f(x)).collect();
            return Some(self.lut(w, t, n.b));
        }
        if s < MULTI {
            let x = self.unary_vals(a);
            let t: Vec<u64> = x.iter().map(|&x| f(x)).collect();
            let ve = self.vars[s as usize];
            return Some(self.lut(w, t, ve));
        }
        None
    }

    pub fn zext(&mut self, a: E, w: u16) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        let z = self.cst(w - aw, 0);
        self.concat(z, a)
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(c) = self.as_const(a) {
            return self.cst(w, sext(c, aw) as u128);
        }
        let inf = self.info[a as usize];
        if inf.kz >> (aw - 1) & 1 == 1 {
            return self.zext(a, w);
        }
        if w <= 64 {
            let m = mask(w) as u64;
            if let Some(e) = self.fuse1(w, a, |x| sext(x as u128, aw) as u64 & m) {
                return e;
            }
        }
        let n = self.n(a);
        if n.op == Op::Ite {
            let (b, c) = (self.sext(n.b, w), self.sext(n.c, w));
            return self.ite(n.a, b, c);
        }
        let sup = self.sup(a);
        self.mk(Node { op: Op::SExt, w, a, b: 0, c: 0 }, Info { kz: 0, ko: 0, lo: 0, hi: mask(w), sup })
    }
    /// extend or truncate (unsigned)
    pub fn resize(&mut self, a: E, w: u16) -> E {
        let aw = self.w(a);
        if aw >= w {
            self.extract(a, 0, w)
        } else {
            self.zext(a, w)
        }
    }

    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (hw, lw) = (self.w(hi), self.w(lo));
        let w = hw + lw;
        assert!(w <= 128, "concat too wide: {}", w);
        let (ch, cl) = (self.as_const(hi), self.as_const(lo));
        if let (Some(h), Some(l)) = (ch, cl) {
            return self.cst(w, (h << lw) | l);
        }
        let nh = self.n(hi);
        if nh.op == Op::Concat {
            // right associate
            let l2 = self.concat(nh.b, lo);
            return self.concat(nh.a, l2);
        }
        let (sh, sl) = (self.sup(hi), self.sup(lo));
        if w <= 64 {
            if sh == sl || (ch.is_some() && sl < MULTI) || (cl.is_some() && sh < MULTI) {
                let s = if ch.is_some() { sl } else { sh };
                if s < MULTI {
                    let x = self.unary_vals(hi);
                    let y = self.unary_vals(lo);
                    let t: Vec<u64> = (0..256).map(|i| (x[i] << lw) | y[i]).collect();
                    let ve = self.vars[s as usize];
                    // identity / narrow forms keep the concat representation
                    if let Some(0) = ch {
                        // zext: keep as Concat(0, lo) so that widths stay visible
                        return self.mkconcat(hi, lo);
                    }
                    return self.lut(w, t, ve);
                }
            }
        }
        let nl = self.n(lo);
        if nl.op == Op::Concat {
            // merge hi with the leading piece of lo when possible
            let p = nl.a;
            let pw = self.w(p);
            if let (Some(h), Some(l)) = (ch, self.as_const(p)) {
                let k = self.cst(hw + pw, (h << pw) | l);
                return self.concat(k, nl.b);
            }
            let sp = self.sup(p);
            if sh < MULTI && sh == sp && hw + pw <= 64 {
                let m = self.concat(hi, p);
                return self.concat(m, nl.b);
            }
            if let Some(m) = self.merge_extract(hi, p) {
                return self.concat(m, nl.b);
            }
        }
        if let Some(m) = self.merge_extract(hi, lo) {
            return m;
        }
        self.mkconcat(hi, lo)
    }
    fn merge_extract(&mut self, hi: E, lo: E) -> Option<E> {
        let (nh, nl) = (self.n(hi), self.n(lo));
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.b == nl.b + nl.w as u32 {
            return Some(self.extract(nh.a, nl.b as u16, nh.w + nl.w));
        }
        if nh.op == Op::Extract && nh.a == lo && nh.b == self.w(lo) as u32 {
            return None;
        }
        // same-condition ite
        if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a {
            let b = self.concat(nh.b, nl.b);
            let c = self.concat(nh.c, nl.c);
            return Some(self.ite(nh.a, b, c));
        }
        if nh.op == Op::Lut && nl.op == Op::Lut && nh.b == nl.b && nh.w + nl.w <= 64 {
            let lw = nl.w;
            let t: Vec<u64> = self.tables[nh.a as usize]
                .v
                .iter()
                .zip(self.tables[nl.a as usize].v.iter())
                .map(|(&x, &y)| (x << lw) | y)
                .collect();
            return Some(self.lut(nh.w + nl.w, t, nh.b));
        }
        None
    }
    fn mkconcat(&mut self, hi: E, lo: E) -> E {
        let (hw, lw) = (self.w(hi), self.w(lo));
        let w = hw + lw;
        let (ih, il) = (self.info[hi as usize], self.info[lo as usize]);
        let info = Info {
            kz: (ih.kz << lw) | il.kz,
            ko: (ih.ko << lw) | il.ko,
            lo: (ih.lo << lw) | il.lo,
            hi: (ih.hi << lw) | il.hi,
            sup: self.join(ih.sup, il.sup),
        };
        self.mk(Node { op: Op::Concat, w, a: hi, b: lo, c: 0 }, info)
    }

    pub fn extract(&mut self, a: E, lo: u16, w: u16) -> E {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw, "extract {} {} of {}", lo, w, aw);
        if lo == 0 && w == aw {
            return a;
        }
        let n = self.n(a);
        if n.op == Op::Const {
            let v = self.consts[n.a as usize];
            return self.cst(w, v >> lo);
        }
        let inf = self.info[a as usize];
        let m = mask(w);
        let (kz, ko) = ((inf.kz >> lo) & m, (inf.ko >> lo) & m);
        if kz | ko == m {
            return self.cst(w, ko);
        }
        match n.op {
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, lo + w - lw);
                return self.concat(h, l);
            }
            Op::Extract => return self.extract(n.a, n.b as u16 + lo, w),
            Op::Not => {
                let x = self.extract(n.a, lo, w);
                return self.not(x);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Add | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::SExt => {
                let sw = self.w(n.a);
                if lo + w <= sw {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
                if lo < sw {
                    let t = self.extract(n.a, lo, sw - lo);
                    return self.sext(t, w);
                }
                let t = self.extract(n.a, sw - 1, 1);
                return self.sext(t, w);
            }
            Op::Ite => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        if aw <= 64 {
            let mm = m as u64;
            if let Some(e) = self.fuse1(w, a, |x| (x >> lo) & mm) {
                return e;
            }
        }
        let full_hi = if lo + w >= aw { inf.hi >> lo } else if inf.hi < (1u128 << (lo + w)) { inf.hi >> lo } else { m };
        let info = Info { kz, ko, lo: ko, hi: full_hi.min(m & !kz), sup: inf.sup };
        self.mk(Node { op: Op::Extract, w, a, b: lo as u32, c: 0 }, info)
    }

    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        let n = self.n(a);
        let m = mask(w);
        if n.op == Op::Const {
            let v = self.consts[n.a as usize];
            return self.cst(w, !v);
        }
        if n.op == Op::Not {
            return n.a;
        }
        if w <= 64 {
            let mm = m as u64;
            if let Some(e) = self.fuse1(w, a, |x| !x & mm) {
                return e;
            }
        }
        if n.op == Op::Concat {
            let h = self.not(n.a);
            let l = self.not(n.b);
            return self.concat(h, l);
        }
        if n.op == Op::Ite && (self.as_const(n.b).is_some() || self.as_const(n.c).is_some()) {
            let b = self.not(n.b);
            let c = self.not(n.c);
            return self.ite(n.a, b, c);
        }
        let inf = self.info[a as usize];
        let info = Info { kz: inf.ko, ko: inf.kz, lo: m - inf.hi, hi: m - inf.lo, sup: inf.sup };
        self.mk(Node { op: Op::Not, w, a, b: 0, c: 0 }, info)
    }
    pub fn neg(&mut self, a: E) -> E {
        let w = self.w(a);
        if let Some(c) = self.as_const(a) {
            return self.cst(w, (c as i128).wrapping_neg() as u128);
        }
        let n = self.not(a);
        let one = self.cst(w, 1);
        self.bin(Op::Add, n, one)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        if a == b {
            let w = self.w(a);
            return self.cst(w, 0);
        }
        if let Some(e) = self.fuse_sub(a, b) {
            return e;
        }
        // (x + y) - y
        let na = self.n(a);
        if na.op == Op::Add {
            if na.a == b {
                return na.b;
            }
            if na.b == b {
                return na.a;
            }
        }
        let nb = self.neg(b);
        self.bin(Op::Add, a, nb)
    }
    fn fuse_sub(&mut self, a: E, b: E) -> Option<E> {
        let s = self.join(self.sup(a), self.sup(b));
        let w = self.w(a);
        if s < MULTI && w <= 64 {
            let x = self.unary_vals(a);
            let y = self.unary_vals(b);
            let m = mask(w) as u64;
            let t: Vec<u64> = (0..256).map(|i| x[i].wrapping_sub(y[i]) & m).collect();
            let ve = self.vars[s as usize];
            return Some(self.lut(w, t, ve));
        }
        None
    }

    fn pieces(&self, e: E, out: &mut Vec<E>) {
        // low to high
        let n = self.n(e);
        if n.op == Op::Concat {
            self.pieces(n.b, out);
            self.pieces(n.a, out);
        } else {
            out.push(e)
        }
    }

    /// split both operands at the union of their concat boundaries (low to high)
    fn align(&mut self, a: E, b: E) -> Vec<(E, E)> {
        let (mut pa, mut pb) = (vec![], vec![]);
        self.pieces(a, &mut pa);
        self.pieces(b, &mut pb);
        let mut cuts: Vec<u16> = vec![];
        let mut o = 0;
        for &p in &pa {
            o += self.w(p);
            cuts.push(o);
        }
        o = 0;
        for &p in &pb {
            o += self.w(p);
            cuts.push(o);
        }
        cuts.sort_unstable();
        cuts.dedup();
        let mut out = vec![];
        let mut lo = 0;
        for c in cuts {
            let x = self.extract(a, lo, c - lo);
            let y = self.extract(b, lo, c - lo);
            out.push((x, y));
            lo = c;
        }
        out
    }
    fn rebuild(&mut self, ps: &[E]) -> E {
        let mut r = ps[0];
        for &p in &ps[1..] {
            r = self.concat(p, r);
        }
        r
    }

    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(Op::And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bin(Op::Or, a, b)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.bin(Op::Eq, a, b)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        self.bin(Op::Ult, a, b)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        self.bin(Op::Slt, a, b)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        let x = self.bin(Op::Ult, b, a);
        self.not(x)
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let aw = self.w(a);
        debug_assert_eq!(aw, self.w(b), "{:?}", op);
        let w = match op {
            Op::Eq | Op::Ult | Op::Slt => 1,
            _ => aw,
        };
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = apply(op, w, aw, x, y);
            return self.cst(w, v);
        }
        // canonical operand order: constant on the right
        let comm = matches!(op, Op::And | Op::Or | Op::Xor | Op::Add | Op::Mul | Op::Eq);
        let (a, b, ca, cb) = if comm && (ca.is_some() || (cb.is_none() && a > b)) { (b, a, cb, ca) } else { (a, b, ca, cb) };
        let m = mask(aw);
        // identities
        match op {
            Op::And => {
                if a == b {
                    return a;
                }
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(m) {
                    return a;
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if cb == Some(0) {
                    return a;
                }
                if cb == Some(m) {
                    return b;
                }
            }
            Op::Xor => {
                if a == b {
                    return self.cst(w, 0);
                }
                if cb == Some(0) {
                    return a;
                }
                if cb == Some(m) {
                    return self.not(a);
                }
            }
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
            }
            Op::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = k.trailing_zeros() as u16;
                        return self.shl_const(a, s);
                    }
                }
            }
            Op::UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        return self.lshr_const(a, k.trailing_zeros() as u16);
                    }
                    if self.info[a as usize].hi < k {
                        return self.cst(w, 0);
                    }
                }
            }
            Op::URem => {
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = k.trailing_zeros() as u16;
                        if s == 0 {
                            return self.cst(w, 0);
                        }
                        let x = self.extract(a, 0, s);
                        return self.zext(x, w);
                    }
                    if k != 0 && self.info[a as usize].hi < k {
                        return a;
                    }
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if ca == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    if k >= w as u128 && op != Op::AShr {
                        return self.cst(w, 0);
                    }
                    let k = k.min(w as u128 - 1) as u16;
                    return match op {
                        Op::Shl => self.shl_const(a, k),
                        Op::LShr => self.lshr_const(a, k),
                        _ => {
                            if k == 0 {
                                return a;
                            }
                            let t = self.extract(a, k, w - k);
                            self.sext(t, w)
                        }
                    };
                }
            }
            Op::Eq => {
                if a == b {
                    return self.tru();
                }
                let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
                if ia.kz & ib.ko != 0 || ia.ko & ib.kz != 0 || ia.lo > ib.hi || ib.lo > ia.hi {
                    return self.fals();
                }
                if aw == 1 {
                    match cb {
                        Some(1) => return a,
                        Some(0) => return self.not(a),
                        _ => {}
                    }
                }
            }
            Op::Ult => {
                if a == b {
                    return self.fals();
                }
                let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
                if ia.hi < ib.lo {
                    return self.tru();
                }
                if ia.lo >= ib.hi {
                    return self.fals();
                }
                if cb == Some(1) {
                    let z = self.cst(aw, 0);
                    return self.eq(a, z);
                }
                if ca == Some(0) {
                    let z = self.cst(aw, 0);
                    let e = self.eq(b, z);
                    return self.not(e);
                }
                if let Some(k) = cb {
                    if k == m {
                        let e = self.eq(a, b);
                        return self.not(e);
                    }
                    // a < 2^s  <=> high bits are zero
                    if k.is_power_of_two() {
                        let s = k.trailing_zeros() as u16;
                        let h = self.extract(a, s, aw - s);
                        let z = self.cst(aw - s, 0);
                        return self.eq(h, z);
                    }
                }
                if let Some(k) = ca {
                    // 2^s-1 < b  <=> high bits nonzero
                    if (k + 1).is_power_of_two() && k + 1 <= m {
                        let s = (k + 1).trailing_zeros() as u16;
                        let h = self.extract(b, s, aw - s);
                        let z = self.cst(aw - s, 0);
                        let e = self.eq(h, z);
                        return self.not(e);
                    }
                }
            }
            Op::Slt => {
                if a == b {
                    return self.fals();
                }
                let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
                let s = aw - 1;
                let (za, oa) = (ia.kz >> s & 1 == 1, ia.ko >> s & 1 == 1);
                let (zb, ob) = (ib.kz >> s & 1 == 1, ib.ko >> s & 1 == 1);
                if (za && zb) || (oa && ob) {
                    return self.ult(a, b);
                }
                if za && ob {
                    return self.fals();
                }
                if oa && zb {
                    return self.tru();
                }
                if cb == Some(0) {
                    return self.extract(a, s, 1);
                }
                if ca == Some(m) {
                    // -1 < b  <=> b >= 0
                    let t = self.extract(b, s, 1);
                    return self.not(t);
                }
            }
            _ => {}
        }
        if let Some(e) = self.fuse2(op, w, a, b) {
            return e;
        }
        // ite with constant leaves
        if let Some(e) = self.ite_lift(op, a, b, ca, cb) {
            return e;
        }
        let (na, nb) = (self.n(a), self.n(b));
        match op {
            Op::And | Op::Or | Op::Xor => {
                if aw == 1 {
                    // x & !x etc.
                    if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                        let v = if op == Op::And { 0 } else { 1 };
                        return self.cst(1, v);
                    }
                    if op == Op::And || op == Op::Or {
                        // absorption
                        if na.op == op && (na.a == b || na.b == b) {
                            return a;
                        }
                        if nb.op == op && (nb.a == a || nb.b == a) {
                            return b;
                        }
                    }
                }
                if let (Some(k), true) = (cb, op != Op::Xor) {
                    // mask with a constant: split at runs
                    let runs = const_runs(k, aw);
                    if runs.len() <= 9 && runs.len() > 1 {
                        let mut ps = vec![];
                        let mut lo = 0;
                        for (bit, len) in runs {
                            let p = if op == Op::And {
                                if bit == 0 {
                                    self.cst(len, 0)
                                } else {
                                    self.extract(a, lo, len)
                                }
                            } else if bit == 1 {
                                self.cst(len, mask(len))
                            } else {
                                self.extract(a, lo, len)
                            };
                            ps.push(p);
                            lo += len;
                        }
                        return self.rebuild(&ps);
                    }
                }
                if aw > 1 && (na.op == Op::Concat || nb.op == Op::Concat) {
                    let al = self.align(a, b);
                    let ps: Vec<E> = al.iter().map(|&(x, y)| self.bin(op, x, y)).collect();
                    return self.rebuild(&ps);
                }
                if let Some(k) = cb {
                    if na.op == op {
                        if let Some(k2) = self.as_const(na.b) {
                            let c = self.cst(w, apply(op, w, w, k, k2));
                            return self.bin(op, na.a, c);
                        }
                    }
                }
            }
            Op::Add => {
                let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
                if ia.kz | ib.kz == m {
                    return self.bin(Op::Or, a, b);
                }
                if let Some(k) = cb {
                    if na.op == Op::Add {
                        if let Some(k2) = self.as_const(na.b) {
                            let c = self.cst(w, k.wrapping_add(k2));
                            return self.bin(Op::Add, na.a, c);
                        }
                    }
                } else {
                    // pull constants outwards
                    if na.op == Op::Add && self.as_const(na.b).is_some() {
                        let t = self.bin(Op::Add, na.a, b);
                        return self.bin(Op::Add, t, na.b);
                    }
                    if nb.op == Op::Add && self.as_const(nb.b).is_some() {
                        let t = self.bin(Op::Add, a, nb.a);
                        return self.bin(Op::Add, t, nb.b);
                    }
                }
                if let Some(k) = cb {
                    // (hi ++ lo) + (k ++ 0)
                    let tz = k.trailing_zeros() as u16;
                    if tz > 0 && na.op == Op::Concat {
                        let lw = self.w(na.b);
                        if lw <= tz {
                            let h = self.extract(b, lw, w - lw);
                            let h = self.bin(Op::Add, na.a, h);
                            return self.concat(h, na.b);
                        }
                    }
                    // the carry out of the low part is known: add the parts
                    if na.op == Op::Concat {
                        let lw = self.w(na.b);
                        let (il, ml) = (self.info[na.b as usize], mask(lw));
                        let (c0, c1) = (il.lo + (k & ml) > ml, il.hi + (k & ml) > ml);
                        if c0 == c1 {
                            let kl = self.cst(lw, k & ml);
                            let kh = self.cst(w - lw, ((k >> lw) + c0 as u128) & mask(w - lw));
                            let l = self.bin(Op::Add, na.b, kl);
                            let h = self.bin(Op::Add, na.a, kh);
                            return self.concat(h, l);
                        }
                    }
                }
                // common low zero bits: split off
                let tz = (!(ia.kz) & m).trailing_zeros().min(128) as u16;
                let tz2 = (!(ib.kz) & m).trailing_zeros().min(128) as u16;
                if cb.is_none() {
                    let (zlo, other) = if tz > 0 && tz >= tz2 { (tz, b) } else { (tz2, a) };
                    if zlo > 0 && zlo < w {
                        let l = self.extract(other, 0, zlo);
                        let ha = self.extract(a, zlo, w - zlo);
                        let hb = self.extract(b, zlo, w - zlo);
                        let h = self.bin(Op::Add, ha, hb);
                        return self.concat(h, l);
                    }
                }
                // narrow when no overflow into the high bits is possible
                if cb.is_none() {
                    if let Some(e) = self.narrow_add(a, b, w, ia, ib) {
                        return e;
                    }
                }
            }
            Op::Mul => {
                let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
                // narrow
                if let Some(p) = ia.hi.checked_mul(ib.hi) {
                    let need = 128 - p.leading_zeros() as u16;
                    if need < w && need > 0 {
                        let x = self.extract(a, 0, need);
                        let y = self.extract(b, 0, need);
                        let r = self.bin(Op::Mul, x, y);
                        return self.zext(r, w);
                    }
                }
            }
            Op::UDiv | Op::URem => {
                let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
                let need = 128 - (ia.hi | ib.hi).leading_zeros() as u16;
                if need < w && need > 0 && ib.lo > 0 {
                    let x = self.extract(a, 0, need);
                    let y = self.extract(b, 0, need);
                    let r = self.bin(op, x, y);
                    return self.zext(r, w);
                }
            }
            Op::Eq => {
                if let Some(k) = cb {
                    if na.op == Op::Add {
                        if let Some(k2) = self.as_const(na.b) {
                            let c = self.cst(aw, k.wrapping_sub(k2));
                            return self.eq(na.a, c);
                        }
                    }
                    if na.op == Op::Not {
                        let c = self.cst(aw, !k);
                        return self.eq(na.a, c);
                    }
                    if na.op == Op::SExt {
                        let sw = self.w(na.a);
                        let t = k & mask(sw);
                        if sext(t, sw) as u128 & m != k {
                            return self.fals();
                        }
                        let c = self.cst(sw, t);
                        return self.eq(na.a, c);
                    }
                }
                if na.op == Op::Concat || nb.op == Op::Concat {
                    let al = self.align(a, b);
                    // conjunction of piecewise equalities
                    let mut r = self.tru();
                    for (x, y) in al.into_iter().rev() {
                        let e = self.eq(x, y);
                        r = self.and(r, e);
                        if self.as_const(r) == Some(0) {
                            return r;
                        }
                    }
                    return r;
                }
            }
            Op::Ult | Op::Slt => {
                // drop common constant-zero high bits
                if op == Op::Ult {
                    let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
                    let z = ia.kz & ib.kz;
                    let top = (!(z) & m).leading_zeros() as i32 - (128 - aw as i32);
                    if top > 0 && (top as u16) < aw {
                        let nw = aw - top as u16;
                        let x = self.extract(a, 0, nw);
                        let y = self.extract(b, 0, nw);
                        return self.ult(x, y);
                    }
                }
            }
            _ => {}
        }
        let info = self.bin_info(op, w, a, b);
        if info.kz | info.ko == mask(w) {
            return self.cst(w, info.ko);
        }
        self.mk(Node { op, w, a, b, c: 0 }, info)
    }

    fn narrow_add(&mut self, a: E, b: E, w: u16, ia: Info, ib: Info) -> Option<E> {
        let s = ia.hi.checked_add(ib.hi)?;
        let need = 128 - s.leading_zeros() as u16;
        if need < w && need > 0 {
            let x = self.extract(a, 0, need);
            let y = self.extract(b, 0, need);
            let r = self.bin(Op::Add, x, y);
            return Some(self.zext(r, w));
        }
        None
    }

    fn bin_info(&self, op: Op, w: u16, a: E, b: E) -> Info {
        let (x, y) = (self.info[a as usize], self.info[b as usize]);
        let m = mask(w);
        let sup = self.join(x.sup, y.sup);
        let (kz, ko, lo, hi) = match op {
            Op::And => {
                let (kz, ko) = (x.kz | y.kz, x.ko & y.ko);
                (kz, ko, ko, x.hi.min(y.hi).min(!kz & m))
            }
            Op::Or => {
                let (kz, ko) = (x.kz & y.kz, x.ko | y.ko);
                (kz, ko, x.lo.max(y.lo).max(ko), !kz & m)
            }
            Op::Xor => {
                let kz = (x.kz & y.kz) | (x.ko & y.ko);
                let ko = (x.kz & y.ko) | (x.ko & y.kz);
                (kz, ko, ko, !kz & m)
            }
            Op::Add => match x.hi.checked_add(y.hi) {
                Some(h) if h <= m => {
                    let kz = if h == 0 { m } else { !(mask(128 - h.leading_zeros() as u16)) & m };
                    (kz, 0, x.lo + y.lo, h)
                }
                _ => (0, 0, 0, m),
            },
            Op::Mul => match x.hi.checked_mul(y.hi) {
                Some(h) if h <= m => {
                    let kz = if h == 0 { m } else { !(mask(128 - h.leading_zeros() as u16)) & m };
                    (kz, 0, x.lo * y.lo, h)
                }
                _ => (0, 0, 0, m),
            },
            Op::UDiv => {
                if y.lo > 0 {
                    let h = x.hi / y.lo;
                    let kz = if h == 0 { m } else { !(mask(128 - h.leading_zeros() as u16)) & m };
                    (kz, 0, x.lo / y.hi, h)
                } else {
                    (0, 0, 0, m)
                }
            }
            Op::URem => {
                let h = if y.lo > 0 { x.hi.min(y.hi - 1) } else { x.hi };
                let kz = if h == 0 { m } else { !(mask(128 - h.leading_zeros() as u16)) & m };
                (kz, 0, 0, h)
            }
            Op::LShr => (0, 0, 0, x.hi),
            _ => (0, 0, 0, m),
        };
        Info { kz, ko, lo, hi, sup }
    }

    fn ite_lift(&mut self, op: Op, a: E, b: E, ca: Option<u128>, cb: Option<u128>) -> Option<E> {
        let (na, nb) = (self.n(a), self.n(b));
        if cb.is_some() && na.op == Op::Ite && self.const_tree(a, 6) {
            let x = self.bin(op, na.b, b);
            let y = self.bin(op, na.c, b);
            return Some(self.ite(na.a, x, y));
        }
        if ca.is_some() && nb.op == Op::Ite && self.const_tree(b, 6) {
            let x = self.bin(op, a, nb.b);
            let y = self.bin(op, a, nb.c);
            return Some(self.ite(nb.a, x, y));
        }
        if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a && self.const_tree(a, 6) && self.const_tree(b, 6) {
            let x = self.bin(op, na.b, nb.b);
            let y = self.bin(op, na.c, nb.c);
            return Some(self.ite(na.a, x, y));
        }
        None
    }
    /// the possible values of an expression built from a choice between few constants
    pub fn small_vals(&self, e: E, max: usize) -> Option<Vec<u128>> {
        let n = self.n(e);
        if n.w < 3 {
            return None;
        }
        let mut out: Vec<u128> = match n.op {
            Op::Const => vec![self.consts[n.a as usize]],
            Op::Ite => {
                let mut a = self.small_vals(n.b, max)?;
                a.extend(self.small_vals(n.c, max)?);
                a
            }
            Op::Lut => {
                let t = &self.tables[n.a as usize].v;
                let mut o: Vec<u128> = vec![];
                for x in t.iter() {
                    let x = *x as u128;
                    if !o.contains(&x) {
                        if o.len() >= max {
                            return None;
                        }
                        o.push(x);
                    }
                }
                o
            }
            Op::Concat => {
                let h = self.as_const(n.a)?;
                let lw = self.w(n.b);
                self.small_vals(n.b, max)?.iter().map(|l| h << lw | l).collect()
            }
            Op::Add | Op::Mul | Op::Xor => {
                let (k, o) = match (self.as_const(n.a), self.as_const(n.b)) {
                    (Some(k), None) => (k, n.b),
                    (None, Some(k)) => (k, n.a),
                    _ => return None,
                };
                self.small_vals(o, max)?.iter().map(|&v| apply(n.op, n.w, n.w, v, k)).collect()
            }
            _ => return None,
        };
        out.sort_unstable();
        out.dedup();
        if out.len() > max {
            return None;
        }
        Some(out)
    }
    /// nested ite (depth limited) whose leaves are constants
    pub fn const_tree(&self, e: E, d: u32) -> bool {
        let n = self.n(e);
        match n.op {
            Op::Const => true,
            Op::Ite if d > 0 => self.const_tree(n.b, d - 1) && self.const_tree(n.c, d - 1),
            _ => false,
        }
    }

    fn shl_const(&mut self, a: E, k: u16) -> E {
        if k == 0 {
            return a;
        }
        let w = self.w(a);
        if k >= w {
            return self.cst(w, 0);
        }
        let h = self.extract(a, 0, w - k);
        let z = self.cst(k, 0);
        self.concat(h, z)
    }
    fn lshr_const(&mut self, a: E, k: u16) -> E {
        if k == 0 {
            return a;
        }
        let w = self.w(a);
        if k >= w {
            return self.cst(w, 0);
        }
        let h = self.extract(a, k, w - k);
        self.zext(h, w)
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        if let Some(k) = self.as_const(c) {
            return if k != 0 { a } else { b };
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let nc = self.n(c);
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if w == 1 {
            match (ca, cb) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.or(c, b),
                (Some(0), _) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (_, Some(0)) => return self.and(c, a),
                (_, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        // fuse
        if w <= 64 {
            let s = self.join(self.sup(c), self.join(self.sup(a), self.sup(b)));
            if s < MULTI {
                let x = self.unary_vals(c);
                let y = self.unary_vals(a);
                let z = self.unary_vals(b);
                let t: Vec<u64> = (0..256).map(|i| if x[i] != 0 { y[i] } else { z[i] }).collect();
                let ve = self.vars[s as usize];
                return self.lut(w, t, ve);
            }
            if nc.op == Op::Lut && (ca.is_some() || self.is_lut_on(a, nc.b)) && (cb.is_some() || self.is_lut_on(b, nc.b)) {
                let l = self.tables[nc.a as usize].v.len();
                let g = |s: &Self, e: E, i: usize| -> u64 {
                    match s.as_const(e) {
                        Some(k) => k as u64,
                        None => s.tables[s.n(e).a as usize].v[i],
                    }
                };
                let t: Vec<u64> = (0..l)
                    .map(|i| if self.tables[nc.a as usize].v[i] != 0 { g(self, a, i) } else { g(self, b, i) })
                    .collect();
                return self.lut(w, t, nc.b);
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        // common concat structure
        if na.op == Op::Concat || nb.op == Op::Concat {
            let al = self.align(a, b);
            if al.iter().any(|&(x, y)| x == y) {
                let ps: Vec<E> = al.iter().map(|&(x, y)| self.ite(c, x, y)).collect();
                return self.rebuild(&ps);
            }
        }
        let (x, y) = (self.info[a as usize], self.info[b as usize]);
        let sup = self.join(self.sup(c), self.join(x.sup, y.sup));
        let info = Info { kz: x.kz & y.kz, ko: x.ko & y.ko, lo: x.lo.min(y.lo), hi: x.hi.max(y.hi), sup };
        self.mk(Node { op: Op::Ite, w, a: c, b: a, c: b }, info)
    }
    fn is_lut_on(&self, e: E, idx: E) -> bool {
        let n = self.n(e);
        n.op == Op::Lut && n.b == idx
    }

    /// sorted list of variables an expression depends on
    pub fn support(&mut self, e: E) -> Rc<Vec<u32>> {
        let s = self.sup(e);
        if s == NOVAR {
            return Rc::new(vec![]);
        }
        if s != MULTI {
            return Rc::new(vec![s]);
        }
        if let Some(r) = self.supc.get(&e) {
            return r.clone();
        }
        let mut seen: std::collections::HashSet<E, Fx> = Default::default();
        let mut out = vec![];
        let mut st = vec![e];
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            let s = self.sup(x);
            if s == NOVAR {
                continue;
            }
            if s != MULTI {
                out.push(s);
                continue;
            }
            if let Some(r) = self.supc.get(&x) {
                out.extend_from_slice(r);
                continue;
            }
            let n = self.n(x);
            match n.op {
                Op::Lut => st.push(n.b),
                Op::Extract | Op::SExt | Op::Not => st.push(n.a),
                Op::Ite => {
                    st.push(n.a);
                    st.push(n.b);
                    st.push(n.c)
                }
                _ => {
                    st.push(n.a);
                    st.push(n.b)
                }
            }
        }
        out.sort_unstable();
        out.dedup();
        let r = Rc::new(out);
        self.supc.insert(e, r.clone());
        r
    }

    /// set of variable values that satisfy a unary 1-bit expression
    pub fn unary_set(&mut self, e: E) -> Rc<Bits256> {
        if let Some(s) = self.setc.get(&e) {
            return s.clone();
        }
        let v = self.unary_vals(e);
        let mut b = [0u64; 4];
        for i in 0..256 {
            if v[i] != 0 {
                b[i >> 6] |= 1 << (i & 63);
            }
        }
        let r = Rc::new(b);
        self.setc.insert(e, r.clone());
        r
    }
    pub fn unary_values(&mut self, e: E) -> Vec<u64> {
        self.unary_vals(e)
    }

    pub fn eval(&mut self, e: E, model: &Rc<Vec<u8>>) -> u128 {
        let p = Rc::as_ptr(model);
        if p != self.gen_model {
            self.gen_model = p;
            self.keep_model = Some(model.clone());
            self.gen += 1;
        }
        if self.stamp.len() < self.nodes.len() {
            let n = self.nodes.len() + self.nodes.len() / 2 + 1024;
            self.stamp.resize(n, 0);
            self.val.resize(n, 0);
        }
        self.ev(e, model)
    }
    fn ev(&mut self, e: E, m: &Vec<u8>) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return self.consts[n.a as usize],
            Op::Var => return m.get(n.a as usize).copied().unwrap_or(0) as u128,
            _ => {}
        }
        if self.stamp[e as usize] == self.gen {
            return self.val[e as usize];
        }
        let r = match n.op {
            Op::Lut => {
                let i = self.ev(n.b, m);
                self.tables[n.a as usize].v[i as usize] as u128
            }
            Op::Concat => {
                let lw = self.w(n.b);
                (self.ev(n.a, m) << lw) | self.ev(n.b, m)
            }
            Op::Extract => (self.ev(n.a, m) >> n.b) & mask(n.w),
            Op::SExt => sext(self.ev(n.a, m), self.w(n.a)) as u128 & mask(n.w),
            Op::Not => !self.ev(n.a, m) & mask(n.w),
            Op::Ite => {
                if self.ev(n.a, m) != 0 {
                    self.ev(n.b, m)
                } else {
                    self.ev(n.c, m)
                }
            }
            _ => {
                let a = self.ev(n.a, m);
                let b = self.ev(n.b, m);
                apply(n.op, n.w, self.w(n.a), a, b)
            }
        };
        self.stamp[e as usize] = self.gen;
        self.val[e as usize] = r;
        r
    }

    #[allow(dead_code)]
    pub fn show(&self, e: E, d: u32) -> String {
        let n = self.n(e);
        match n.op {
            Op::Const => format!("{:#x}:{}", self.consts[n.a as usize], n.w),
            Op::Var => format!("v{}", n.a),
            _ if d == 0 => "..".into(),
            Op::Lut => format!("Lut{}:{}({})", n.a, n.w, self.show(n.b, d - 1)),
            Op::Extract => format!("{}[{}+:{}]", self.show(n.a, d - 1), n.b, n.w),
            Op::Not | Op::SExt => format!("{:?}:{}({})", n.op, n.w, self.show(n.a, d - 1)),
            Op::Ite => format!("Ite({},{},{})", self.show(n.a, d - 1), self.show(n.b, d - 1), self.show(n.c, d - 1)),
            _ => format!("{:?}:{}({},{})", n.op, n.w, self.show(n.a, d - 1), self.show(n.b, d - 1)),
        }
    }
}

fn const_runs(k: u128, w: u16) -> Vec<(u8, u16)> {
    let mut out: Vec<(u8, u16)> = vec![];
    for i in 0..w {
        let b = (k >> i & 1) as u8;
        match out.last_mut() {
            Some(l) if l.0 == b => l.1 += 1,
            _ => out.push((b, 1)),
        }
    }
    out
}
