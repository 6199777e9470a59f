//! Textual LLVM IR parser (the subset rustc emits) producing a compact executable form.
use crate::expr::{mask, sext, Op, E};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    F32,
    F64,
    Arr(u64, TyId),
    Vec(u64, TyId),
    Struct(Vec<TyId>, bool),
    Other,
}

#[derive(Clone)]
pub struct TyInfo {
    pub ty: Ty,
    pub size: u64,
    pub align: u64,
    pub offs: Vec<u64>,
}

#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    S(E),
    A(Rc<Vec<V>>),
    F(Rc<FNode>),
    Undef,
}

/// symbolic float: a monotone function of one unsigned integer expression
#[derive(Debug)]
pub struct FNode {
    pub src: E,         // unsigned integer source
    pub dbl: bool,      // f64 arithmetic
    pub bias: bool,     // src is a signed integer with its sign bit inverted
    pub ops: Vec<FOp>,  // applied to (src as float)
}
#[derive(Debug, Clone, Copy)]
pub enum FOp {
    Log2,
    Ln,
    Log10,
    Neg,
    AddK(f64),
    SubK(f64),  // x - k
    RSubK(f64), // k - x
    MulK(f64),
    DivK(f64), // x / k
    Floor,
    Ceil,
    Trunc,
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CastOp {
    Zext,
    Sext,
    Trunc,
    Bitcast,
    PtrInt,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    FpExt,
    FpTrunc,
}

#[derive(Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Opnd),
    Intr(String),
    Asm(bool),
}

#[derive(Debug)]
pub enum Ins {
    Bin { op: BinOp, w: u16, lanes: u32, fp: u8, dst: u32, a: Opnd, b: Opnd },
    Icmp { p: Pred, w: u16, lanes: u32, dst: u32, a: Opnd, b: Opnd },
    Fcmp { p: String, dbl: bool, dst: u32, a: Opnd, b: Opnd },
    FNeg { dbl: bool, dst: u32, a: Opnd },
    Select { dst: u32, c: Opnd, cv: bool, ty: TyId, a: Opnd, b: Opnd },
    Cast { op: CastOp, from: TyId, to: TyId, dst: u32, a: Opnd },
    Load { ty: TyId, dst: u32, p: Opnd },
    Store { ty: TyId, v: Opnd, p: Opnd },
    Gep { dst: u32, base: Opnd, off: i64, idx: Vec<(Opnd, u16, i64)> },
    Alloca { dst: u32, size: u64, n: Option<Opnd>, align: u64 },
    Call { dst: Option<u32>, ret: TyId, f: Callee, args: Vec<Opnd>, tys: Vec<TyId>, normal: Option<u32> },
    ExtractValue { dst: u32, a: Opnd, path: Vec<u32> },
    InsertValue { dst: u32, ty: TyId, a: Opnd, v: Opnd, path: Vec<u32> },
    ExtractElt { dst: u32, a: Opnd, i: Opnd },
    InsertElt { dst: u32, n: u32, a: Opnd, v: Opnd, i: Opnd },
    Shuffle { dst: u32, n: u32, a: Opnd, b: Opnd, m: Vec<i64> },
    Copy { dst: u32, a: Opnd },
    CmpXchg { dst: u32, ty: TyId, p: Opnd, c: Opnd, n: Opnd },
    AtomicRmw { dst: u32, op: String, ty: TyId, p: Opnd, v: Opnd },
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch { w: u16, v: Opnd, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Opnd>),
    Unreachable,
    Nop,
    Unsupported(String),
}

pub struct Phi {
    pub dst: u32,
    /// width of an integer phi, 0 for other types
    pub w: u16,
    pub inc: Vec<(u32, Opnd)>,
}

#[derive(Default)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub ins: Vec<Ins>,
    pub dbg: Vec<u32>,
}

pub struct Body {
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
}

pub struct Func {
    pub name: String,
    pub text: Option<(usize, usize)>,
    pub dbg: u32,
    pub body: RefCell<Option<Rc<Body>>>,
}

pub struct Global {
    pub name: String,
    pub constant: bool,
    pub external: bool,
    pub size: u64,
    pub ty: TyId,
    pub init: (usize, usize),
    pub addr: u64,
}

pub struct Module {
    pub text: String,
    pub types: RefCell<Types>,
    pub funcs: Vec<Func>,
    pub fmap: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub syms: HashMap<String, u64>,
    /// address differences that do not fit the 32 bits of a relative table
    pub rels: RefCell<Vec<u64>>,
}

#[derive(Default)]
pub struct Types {
    pub list: Vec<TyInfo>,
    map: HashMap<Ty, TyId>,
    pub named: HashMap<String, TyId>,
}

pub const FN_BASE: u64 = 1 << 32;
pub const OBJ_FIRST: u64 = 16;

impl Types {
    pub fn get(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.map.get(&t) {
            return i;
        }
        let (size, align, offs) = match &t {
            Ty::Void | Ty::Other => (0, 1, vec![]),
            Ty::Int(w) => {
                let b = (*w as u64).div_ceil(8).next_power_of_two();
                (b, b.min(16), vec![])
            }
            Ty::Ptr | Ty::F64 => (8, 8, vec![]),
            Ty::F32 => (4, 4, vec![]),
            Ty::Arr(n, e) => {
                let i = &self.list[*e as usize];
                (i.size * n, i.align, vec![])
            }
            Ty::Vec(n, e) => {
                let i = &self.list[*e as usize];
                let bits = match i.ty {
                    Ty::Int(w) => w as u64 * n,
                    _ => i.size * 8 * n,
                };
                let s = bits.div_ceil(8);
                (s, s.next_power_of_two(), vec![])
            }
            Ty::Struct(fs, packed) => {
                let mut o = 0u64;
                let mut al = 1;
                let mut offs = vec![];
                for f in fs {
                    let i = &self.list[*f as usize];
                    let a = if *packed { 1 } else { i.align };
                    al = al.max(a);
                    o = o.div_ceil(a) * a;
                    offs.push(o);
                    o += i.size;
                }
                (o.div_ceil(al) * al, al, offs)
            }
        };
        let id = self.list.len() as TyId;
        self.list.push(TyInfo { ty: t.clone(), size, align, offs });
        self.map.insert(t, id);
        id
    }
    pub fn size(&self, t: TyId) -> u64 {
        self.list[t as usize].size
    }
    pub fn ty(&self, t: TyId) -> &Ty {
        &self.list[t as usize].ty
    }
}

struct Cur<'a> {
    s: &'a [u8],
    p: usize,
}

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$'
}

impl<'a> Cur<'a> {
    fn ws(&mut self) {
        while self.p < self.s.len() {
            match self.s[self.p] {
                b' ' | b'\t' | b'\n' | b'\r' => self.p += 1,
                b';' => {
                    while self.p < self.s.len() && self.s[self.p] != b'\n' {
                        self.p += 1
                    }
                }
                _ => break,
            }
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        self.s.get(self.p).copied().unwrap_or(0)
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.p..].starts_with(t.as_bytes()) {
            // word boundary for alphabetic tokens
            let e = self.p + t.len();
            if t.as_bytes()[t.len() - 1].is_ascii_alphanumeric() && e < self.s.len() && is_word(self.s[e]) {
                return false;
            }
            self.p = e;
            return true;
        }
        false
    }
    fn exp(&mut self, t: &str) {
        if !self.eat(t) {
            panic!("expected {:?} at {:?}", t, self.ctx());
        }
    }
    fn ctx(&self) -> String {
        let e = (self.p + 80).min(self.s.len());
        String::from_utf8_lossy(&self.s[self.p.min(e)..e]).into_owned()
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.p;
        while self.p < self.s.len() && is_word(self.s[self.p]) {
            self.p += 1
        }
        std::str::from_utf8(&self.s[st..self.p]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str {
        let p = self.p;
        let w = self.word();
        self.p = p;
        w
    }
    /// name after a sigil, possibly quoted
    fn name(&mut self) -> &'a str {
        if self.s[self.p] == b'"' {
            let st = self.p + 1;
            self.p += 1;
            while self.s[self.p] != b'"' {
                self.p += 1
            }
            self.p += 1;
            return std::str::from_utf8(&self.s[st..self.p - 1]).unwrap();
        }
        let st = self.p;
        while self.p < self.s.len() && is_word(self.s[self.p]) {
            self.p += 1
        }
        std::str::from_utf8(&self.s[st..self.p]).unwrap()
    }
    fn group(&mut self) {
        // skip a balanced () [] {} group
        let mut d = 0;
        loop {
            match self.s[self.p] {
                b'(' | b'[' | b'{' => d += 1,
                b')' | b']' | b'}' => {
                    d -= 1;
                    if d == 0 {
                        self.p += 1;
                        return;
                    }
                }
                b'"' => {
                    self.p += 1;
                    while self.s[self.p] != b'"' {
                        self.p += 1
                    }
                }
                _ => {}
            }
            self.p += 1;
        }
    }
    fn eol(&mut self) -> u32 {
        // to end of line, returning the !dbg id if there is one
        let st = self.p;
        while self.p < self.s.len() && self.s[self.p] != b'\n' {
            self.p += 1
        }
        find_dbg(&self.s[st..self.p])
    }
    fn int(&mut self) -> i128 {
        let w = self.word();
        w.parse::<i128>().unwrap_or_else(|_| panic!("int {:?} at {}", w, self.ctx()))
    }
    fn at_type(&mut self) -> bool {
        match self.peek() {
            b'{' | b'[' | b'<' | b'%' => true,
            _ => {
                let w = self.peek_word();
                match w {
                    "ptr" | "void" | "float" | "double" | "metadata" | "label" | "half" | "fp128" | "x86_fp80" | "token" => true,
                    _ => w.len() > 1 && w.as_bytes()[0] == b'i' && w[1..].bytes().all(|c| c.is_ascii_digit()),
                }
            }
        }
    }
    fn attrs(&mut self) {
        // skip attribute words up to a type
        loop {
            if self.at_type() {
                return;
            }
            let c = self.peek();
            if c == b'"' {
                self.name();
                if self.peek() == b'=' {
                    self.p += 1;
                    self.name();
                }
                continue;
            }
            if c == b'#' {
                self.p += 1;
                self.word();
                continue;
            }
            let w = self.word();
            if w.is_empty() {
                panic!("attrs at {}", self.ctx());
            }
            if w == "align" && self.s[self.p] == b' ' {
                self.word();
                continue;
            }
            if self.s[self.p] == b'(' {
                self.group();
            }
        }
    }
    /// attribute words between a parameter type and its value
    fn vattrs(&mut self) {
        loop {
            let c = self.peek();
            if c == b'"' {
                self.name();
                if self.peek() == b'=' {
                    self.p += 1;
                    self.name();
                }
                continue;
            }
            if !c.is_ascii_alphabetic() {
                return;
            }
            let w = self.peek_word();
            match w {
                "null" | "true" | "false" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "ptrtoint" | "inttoptr"
                | "bitcast" | "splat" | "sub" | "add" | "trunc" | "c" | "xor" | "asm" | "none" | "and" | "mul" | "shl" => return,
                _ => {}
            }
            self.word();
            if w == "align" && self.s[self.p] == b' ' {
                self.word();
                continue;
            }
            if self.s[self.p] == b'(' {
                self.group();
            }
        }
    }
}

fn find_dbg(s: &[u8]) -> u32 {
    let pat = b"!dbg !";
    if s.len() < 7 {
        return 0;
    }
    let mut i = s.len() - 6;
    loop {
        if &s[i..i + 6] == pat {
            let mut n = 0u32;
            for &c in &s[i + 6..] {
                if !c.is_ascii_digit() {
                    break;
                }
                n = n * 10 + (c - b'0') as u32;
            }
            return n;
        }
        if i == 0 {
            return 0;
        }
        i -= 1;
    }
}

impl Module {
    fn ptype(&self, c: &mut Cur) -> TyId {
        let t = self.ptype0(c);
        // function types / old-style pointers do not occur with opaque pointers
        t
    }
    fn ptype0(&self, c: &mut Cur) -> TyId {
        match c.peek() {
            b'{' => {
                c.p += 1;
                let fs = self.tlist(c, "}");
                self.types.borrow_mut().get(Ty::Struct(fs, false))
            }
            b'[' => {
                c.p += 1;
                let n = c.int() as u64;
                c.exp("x");
                let e = self.ptype(c);
                c.exp("]");
                self.types.borrow_mut().get(Ty::Arr(n, e))
            }
            b'<' => {
                c.p += 1;
                if c.peek() == b'{' {
                    c.p += 1;
                    let fs = self.tlist(c, "}");
                    c.exp(">");
                    return self.types.borrow_mut().get(Ty::Struct(fs, true));
                }
                let n = c.int() as u64;
                c.exp("x");
                let e = self.ptype(c);
                c.exp(">");
                self.types.borrow_mut().get(Ty::Vec(n, e))
            }
            b'%' => {
                c.p += 1;
                let n = c.name();
                *self.types.borrow().named.get(n).unwrap_or_else(|| panic!("named type {}", n))
            }
            _ => {
                let w = c.word();
                let t = match w {
                    "ptr" => Ty::Ptr,
                    "void" => Ty::Void,
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "metadata" | "label" | "half" | "fp128" | "x86_fp80" | "token" => Ty::Other,
                    _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {} at {}", w, c.ctx()))),
                    _ => panic!("type {:?} at {}", w, c.ctx()),
                };
                let r = self.types.borrow_mut().get(t);
                if w == "ptr" && c.eat("addrspace") {
                    c.group();
                }
                r
            }
        }
    }
    fn tlist(&self, c: &mut Cur, end: &str) -> Vec<TyId> {
        let mut v = vec![];
        if c.eat(end) {
            return v;
        }
        loop {
            v.push(self.ptype(c));
            if c.eat(",") {
                continue;
            }
            c.exp(end);
            return v;
        }
    }
    pub fn zero(&self, t: TyId) -> V {
        let ti = self.types.borrow().list[t as usize].ty.clone();
        match ti {
            Ty::Arr(n, e) | Ty::Vec(n, e) => V::A(Rc::new(vec![self.zero(e); n as usize])),
            Ty::Struct(fs, _) => V::A(Rc::new(fs.iter().map(|&f| self.zero(f)).collect())),
            _ => V::C(0),
        }
    }
    fn tyof(&self, t: TyId) -> Ty {
        self.types.borrow().list[t as usize].ty.clone()
    }
    /// typed constant
    fn pconst(&self, c: &mut Cur, t: TyId) -> V {
        match c.peek() {
            b'@' => {
                c.p += 1;
                let n = c.name();
                return V::C(*self.syms.get(n).unwrap_or_else(|| panic!("symbol {}", n)) as u128);
            }
            b'[' | b'{' => {
                let end = if c.s[c.p] == b'[' { "]" } else { "}" };
                c.p += 1;
                return V::A(Rc::new(self.pconsts(c, end)));
            }
            b'<' => {
                c.p += 1;
                if c.peek() == b'{' {
                    c.p += 1;
                    let v = self.pconsts(c, "}");
                    c.exp(">");
                    return V::A(Rc::new(v));
                }
                return V::A(Rc::new(self.pconsts(c, ">")));
            }
            b'c' if c.s.get(c.p + 1) == Some(&b'"') => {
                c.p += 2;
                let mut out = vec![];
                while c.s[c.p] != b'"' {
                    let ch = c.s[c.p];
                    if ch == b'\\' && c.s[c.p + 1] == b'\\' {
                        out.push(V::C(b'\\' as u128));
                        c.p += 2;
                    } else if ch == b'\\' {
                        let h = std::str::from_utf8(&c.s[c.p + 1..c.p + 3]).unwrap();
                        out.push(V::C(u8::from_str_radix(h, 16).unwrap() as u128));
                        c.p += 3;
                    } else {
                        out.push(V::C(ch as u128));
                        c.p += 1;
                    }
                }
                c.p += 1;
                return V::A(Rc::new(out));
            }
            _ => {}
        }
        let w = c.word();
        match w {
            "null" | "none" | "false" => V::C(0),
            "true" => V::C(1),
            "undef" | "poison" | "zeroinitializer" => self.zero(t),
            "splat" => {
                c.exp("(");
                let et = self.ptype(c);
                let v = self.pconst(c, et);
                c.exp(")");
                match self.tyof(t) {
                    Ty::Vec(n, _) | Ty::Arr(n, _) => V::A(Rc::new(vec![v; n as usize])),
                    _ => panic!("splat"),
                }
            }
            "getelementptr" => {
                while c.peek() != b'(' {
                    let w = c.word();
                    if w == "inrange" {
                        c.group();
                    }
                }
                c.p += 1;
                let st = self.ptype(c);
                c.exp(",");
                let pt = self.ptype(c);
                let base = self.pconst(c, pt);
                let mut idx = vec![];
                while c.eat(",") {
                    let it = self.ptype(c);
                    let w = match self.tyof(it) {
                        Ty::Int(w) => w,
                        _ => panic!("gep index"),
                    };
                    let v = self.pconst(c, it);
                    if let V::C(x) = v {
                        idx.push(Opnd::K(V::C(sext(x, w) as u128)));
                    } else {
                        panic!("gep const")
                    }
                }
                c.exp(")");
                let (off, rest) = self.gep_layout(st, &idx.iter().map(|o| (o.clone(), 64)).collect::<Vec<_>>());
                assert!(rest.is_empty());
                match base {
                    V::C(b) => V::C((b as u64).wrapping_add(off as u64) as u128),
                    _ => panic!(),
                }
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" => {
                c.exp("(");
                let ft = self.ptype(c);
                let v = self.pconst(c, ft);
                c.exp("to");
                let tt = self.ptype(c);
                c.exp(")");
                match (v, self.tyof(tt)) {
                    (V::C(x), Ty::Int(32)) if w == "trunc" && sext(x, 64) != sext(x, 32) => {
                        let mut r = self.rels.borrow_mut();
                        let k = r.iter().position(|&y| y == x as u64).unwrap_or(r.len());
                        if k == r.len() {
                            r.push(x as u64);
                        }
                        V::C(1 << 31 | k as u128)
                    }
                    (V::C(x), Ty::Int(w)) => V::C(x & mask(w)),
                    (v, _) => v,
                }
            }
            "sub" | "add" | "xor" | "and" | "mul" | "shl" => {
                while c.peek() != b'(' {
                    c.word();
                }
                c.p += 1;
                let ft = self.ptype(c);
                let a = self.pconst(c, ft);
                c.exp(",");
                let ft2 = self.ptype(c);
                let b = self.pconst(c, ft2);
                c.exp(")");
                let w2 = match self.tyof(ft) {
                    Ty::Int(w) => w,
                    _ => 64,
                };
                match (a, b) {
                    (V::C(x), V::C(y)) => V::C(
                        match w {
                            "sub" => x.wrapping_sub(y),
                            "add" => x.wrapping_add(y),
                            "xor" => x ^ y,
                            "and" => x & y,
                            "mul" => x.wrapping_mul(y),
                            _ => x << y,
                        } & mask(w2),
                    ),
                    _ => panic!("const expr"),
                }
            }
            _ => match self.tyof(t) {
                Ty::Int(bits) => {
                    let v: i128 = match w.parse::<i128>() {
                        Ok(v) => v,
                        Err(_) => w.parse::<u128>().unwrap_or_else(|_| panic!("int const {:?} {}", w, c.ctx())) as i128,
                    };
                    V::C(v as u128 & mask(bits))
                }
                Ty::F64 | Ty::F32 => {
                    // `word` stops at '+', as in 1.0e+00
                    let mut s = w.to_string();
                    if c.p < c.s.len() && c.s[c.p] == b'+' {
                        c.p += 1;
                        s.push('+');
                        s.push_str(c.word());
                    }
                    let d = if let Some(h) = s.strip_prefix("0x") {
                        f64::from_bits(u64::from_str_radix(h, 16).unwrap())
                    } else if let Some(h) = s.strip_prefix("f0x") {
                        let b = u64::from_str_radix(h, 16).unwrap();
                        if h.len() <= 8 {
                            f32::from_bits(b as u32) as f64
                        } else {
                            f64::from_bits(b)
                        }
                    } else {
                        match s.as_str() {
                            "+inf" | "inf" => f64::INFINITY,
                            "-inf" => f64::NEG_INFINITY,
                            "qnan" | "+qnan" | "-qnan" => f64::NAN,
                            _ => s.parse::<f64>().unwrap_or_else(|_| panic!("float {:?} {}", s, c.ctx())),
                        }
                    };
                    if self.tyof(t) == Ty::F32 {
                        V::C((d as f32).to_bits() as u128)
                    } else {
                        V::C(d.to_bits() as u128)
                    }
                }
                _ => panic!("const {:?} at {}", w, c.ctx()),
            },
        }
    }
    fn pconsts(&self, c: &mut Cur, end: &str) -> Vec<V> {
        let mut v = vec![];
        if c.eat(end) {
            return v;
        }
        loop {
            let t = self.ptype(c);
            v.push(self.pconst(c, t));
            if c.eat(",") {
                continue;
            }
            c.exp(end);
            return v;
        }
    }

    fn gep_layout(&self, st: TyId, idx: &[(Opnd, u16)]) -> (i64, Vec<(Opnd, u16, i64)>) {
        let ts = self.types.borrow();
        let mut off = 0i64;
        let mut rest = vec![];
        let mut cur = st;
        for (k, (o, w)) in idx.iter().enumerate() {
            let scale;
            if k == 0 {
                scale = ts.size(cur) as i64;
            } else {
                match ts.ty(cur).clone() {
                    Ty::Struct(fs, _) => {
                        let i = match o {
                            Opnd::K(V::C(i)) => *i as usize,
                            _ => panic!("struct gep"),
                        };
                        off += ts.list[cur as usize].offs[i] as i64;
                        cur = fs[i];
                        continue;
                    }
                    Ty::Arr(_, e) | Ty::Vec(_, e) => {
                        cur = e;
                        scale = ts.size(e) as i64;
                    }
                    t => panic!("gep into {:?}", t),
                }
            }
            match o {
                Opnd::K(V::C(i)) => off = off.wrapping_add((sext(*i, *w) as i64).wrapping_mul(scale)),
                _ => rest.push((o.clone(), *w, scale)),
            }
        }
        (off, rest)
    }

    pub fn load(path: &str) -> Module {
        let text = std::fs::read_to_string(path).expect("read ll");
        let mut m = Module {
            text,
            types: Default::default(),
            funcs: vec![],
            fmap: Default::default(),
            globals: vec![],
            syms: Default::default(),
            rels: Default::default(),
        };
        let text = std::mem::take(&mut m.text);
        let b = text.as_bytes();
        let mut p = 0;
        let mut glines = vec![];
        // pass 1: find entities
        while p < b.len() {
            let e = memchr(b, b'\n', p);
            let l = &b[p..e];
            if l.starts_with(b"@") {
                glines.push((p, e));
            } else if l.starts_with(b"%") {
                let mut c = Cur { s: l, p: 1 };
                let n = c.name().to_string();
                c.exp("=");
                c.exp("type");
                let t = if c.eat("opaque") { m.types.borrow_mut().get(Ty::Other) } else { m.ptype(&mut c) };
                m.types.borrow_mut().named.insert(n, t);
            } else if l.starts_with(b"define") || l.starts_with(b"declare") {
                let def = l.starts_with(b"define");
                let at = fname_pos(l);
                let mut c = Cur { s: l, p: at + 1 };
                let n = c.name().to_string();
                let mut end = e;
                if def {
                    // body ends at a line "}"
                    let mut q = e + 1;
                    loop {
                        let f = memchr(b, b'\n', q);
                        if &b[q..f] == b"}" {
                            end = f;
                            break;
                        }
                        q = f + 1;
                    }
                }
                let id = m.funcs.len() as u32;
                m.fmap.insert(n.clone(), id);
                m.syms.insert(n.clone(), FN_BASE + 16 * id as u64);
                m.funcs.push(Func {
                    name: n,
                    text: if def { Some((p, end)) } else { None },
                    dbg: if def { find_dbg(l) } else { 0 },
                    body: RefCell::new(None),
                });
                if def {
                    p = end + 1;
                    continue;
                }
            }
            p = e + 1;
        }
        let mut next = OBJ_FIRST;
        for (s, e) in &glines {
            let l = &b[*s..*e];
            let mut c = Cur { s: l, p: 1 };
            let n = c.name().to_string();
            c.exp("=");
            let mut external = false;
            let mut alias = false;
            let constant;
            loop {
                if c.peek() == b'"' {
                    c.name();
                    continue;
                }
                let w = c.word();
                match w {
                    "constant" => {
                        constant = true;
                        break;
                    }
                    "global" => {
                        constant = false;
                        break;
                    }
                    "external" | "extern_weak" => external = true,
                    "alias" | "ifunc" => {
                        alias = true;
                        constant = true;
                        break;
                    }
                    _ => {
                        if c.s[c.p] == b'(' {
                            c.group();
                        }
                    }
                }
            }
            if alias {
                continue;
            }
            let ty = m.ptype(&mut c);
            let size = m.types.borrow().size(ty);
            c.ws();
            let addr = next << 32;
            next += 1;
            m.syms.insert(n.clone(), addr);
            m.globals.push(Global { name: n, constant, external, size, ty, init: (s + c.p, *e), addr });
        }
        // aliases (second pass: target may be a function or global)
        for (s, e) in &glines {
            let l = &b[*s..*e];
            let mut c = Cur { s: l, p: 1 };
            let n = c.name().to_string();
            if m.syms.contains_key(&n) {
                continue;
            }
            if let Some(i) = l.iter().rposition(|&x| x == b'@') {
                let mut c = Cur { s: l, p: i + 1 };
                let t = c.name();
                if let Some(&a) = m.syms.get(t) {
                    m.syms.insert(n.clone(), a);
                    if let Some(&f) = m.fmap.get(t) {
                        m.fmap.insert(n, f);
                    }
                }
            }
        }
        m.text = text;
        m
    }

    /// initial bytes of a global
    pub fn init_bytes(&self, g: &Global) -> Vec<u8> {
        let mut out = vec![0u8; g.size as usize];
        if !g.external {
            let mut c = Cur { s: &self.text.as_bytes()[g.init.0..g.init.1], p: 0 };
            let v = self.pconst(&mut c, g.ty);
            self.flatten(&v, g.ty, &mut out, 0);
        }
        out
    }
    fn flatten(&self, v: &V, t: TyId, out: &mut [u8], o: usize) {
        let ty = self.tyof(t);
        match (v, ty) {
            (V::C(x), Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..)) => assert_eq!(*x, 0),
            (V::C(x), _) => {
                let n = self.types.borrow().size(t) as usize;
                for i in 0..n {
                    out[o + i] = (x >> (8 * i)) as u8;
                }
            }
            (V::A(vs), Ty::Arr(_, e) | Ty::Vec(_, e)) => {
                let s = self.types.borrow().size(e) as usize;
                for (i, x) in vs.iter().enumerate() {
                    self.flatten(x, e, out, o + i * s);
                }
            }
            (V::A(vs), Ty::Struct(fs, _)) => {
                let offs = self.types.borrow().list[t as usize].offs.clone();
                for (i, x) in vs.iter().enumerate() {
                    self.flatten(x, fs[i], out, o + offs[i] as usize);
                }
            }
            _ => panic!("flatten"),
        }
    }

    pub fn body(&self, f: u32) -> Option<Rc<Body>> {
        let fu = &self.funcs[f as usize];
        if let Some(b) = &*fu.body.borrow() {
            return Some(b.clone());
        }
        let (s, e) = fu.text?;
        let b = Rc::new(self.parse_body(s, e));
        *fu.body.borrow_mut() = Some(b.clone());
        Some(b)
    }

    fn parse_body(&self, s: usize, e: usize) -> Body {
        let text = &self.text.as_bytes()[s..e];
        let l = memchr(text, b'\n', 0);
        let head = &text[..l];
        let mut fp = FnParser { m: self, regs: HashMap::new(), blocks: HashMap::new(), nregs: 0, nblocks: 0 };
        let mut c = Cur { s: head, p: fname_pos(head) + 1 };
        c.name();
        assert_eq!(c.s[c.p], b'(');
        c.p += 1;
        let mut params = vec![];
        let mut unnamed = 0;
        if !c.eat(")") {
            loop {
                if c.eat("...") {
                    c.exp(")");
                    break;
                }
                self.ptype(&mut c);
                // attributes until %name
                loop {
                    let ch = c.peek();
                    if ch == b'%' {
                        break;
                    }
                    if ch == b'"' {
                        c.name();
                        if c.peek() == b'=' {
                            c.p += 1;
                            c.name();
                        }
                        continue;
                    }
                    if ch == b',' || ch == b')' {
                        break;
                    }
                    let w = c.word();
                    if w == "align" && c.s[c.p] == b' ' {
                        c.word();
                    } else if c.s[c.p] == b'(' {
                        c.group();
                    } else if w.is_empty() {
                        panic!("param attrs {}", c.ctx());
                    }
                }
                if c.peek() == b'%' {
                    c.p += 1;
                    let n = c.name();
                    if n.bytes().all(|x| x.is_ascii_digit()) {
                        unnamed += 1;
                    }
                    params.push(fp.reg(n));
                } else {
                    // unnamed parameter
                    let n = format!("{}", unnamed);
                    unnamed += 1;
                    params.push(fp.reg(&n));
                }
                if c.eat(",") {
                    continue;
                }
                c.exp(")");
                break;
            }
        }
        let mut blocks: Vec<Block> = vec![];
        let mut cur: Option<u32> = None;
        let mut c = Cur { s: text, p: l + 1 };
        loop {
            // start of a line
            while c.p < c.s.len() && c.s[c.p] == b'\n' {
                c.p += 1
            }
            if c.p >= c.s.len() {
                break;
            }
            let ch = c.s[c.p];
            if ch == b';' || ch == b'}' {
                c.eol();
                continue;
            }
            if ch != b' ' {
                // label
                let n = c.name().to_string();
                assert_eq!(c.s[c.p], b':', "label at {}", c.ctx());
                let b = fp.block(&n);
                while blocks.len() <= b as usize {
                    blocks.push(Block::default());
                }
                cur = Some(b);
                c.eol();
                continue;
            }
            // comment inside or debug record
            {
                let mut q = c.p;
                while c.s[q] == b' ' {
                    q += 1;
                }
                if c.s[q] == b'#' || c.s[q] == b';' {
                    c.eol();
                    continue;
                }
            }
            let b = match cur {
                Some(b) => b,
                None => {
                    let b = fp.block(&format!("{}", unnamed));
                    cur = Some(b);
                    b
                }
            };
            while blocks.len() <= b as usize {
                blocks.push(Block::default());
            }
            let bl = &mut blocks[b as usize];
            fp.ins(&mut c, bl);
            // optional-token lookahead may have skipped past the end of the line
            while c.s[c.p - 1] == b' ' || c.s[c.p - 1] == b'\n' {
                c.p -= 1;
            }
            let d = c.eol();
            if bl.dbg.len() < bl.ins.len() {
                bl.dbg.push(d);
            }
        }
        while blocks.len() < fp.nblocks as usize {
            blocks.push(Block::default());
        }
        let mut b = Body { nregs: fp.nregs, params, blocks };
        constant_hash(&mut b, &|f| {
            let n = &self.funcs[f as usize].name;
            (n.contains("4core4hash3sip") || n.contains("13DefaultHasher")) && n.contains("6Hasher") && (n.contains("5write") || n.contains("9write_str"))
        });
        b
    }
}

/// registers an instruction reads
pub fn reads(i: &Ins, f: &mut dyn FnMut(u32)) {
    let mut o = |x: &Opnd| {
        if let Opnd::R(r) = x {
            f(*r)
        }
    };
    match i {
        Ins::Bin { a, b, .. } | Ins::Icmp { a, b, .. } | Ins::Fcmp { a, b, .. } | Ins::Shuffle { a, b, .. } => {
            o(a);
            o(b)
        }
        Ins::FNeg { a, .. } | Ins::Cast { a, .. } | Ins::ExtractValue { a, .. } | Ins::Copy { a, .. } => o(a),
        Ins::Select { c, a, b, .. } => {
            o(c);
            o(a);
            o(b)
        }
        Ins::Load { p, .. } => o(p),
        Ins::Store { v, p, .. } => {
            o(v);
            o(p)
        }
        Ins::Gep { base, idx, .. } => {
            o(base);
            idx.iter().for_each(|x| o(&x.0))
        }
        Ins::Alloca { n, .. } => n.iter().for_each(o),
        Ins::Call { f: callee, args, .. } => {
            if let Callee::Ind(x) = callee {
                o(x)
            }
            args.iter().for_each(o)
        }
        Ins::InsertValue { a, v, .. } => {
            o(a);
            o(v)
        }
        Ins::ExtractElt { a, i, .. } => {
            o(a);
            o(i)
        }
        Ins::InsertElt { a, v, i, .. } => {
            o(a);
            o(v);
            o(i)
        }
        Ins::CmpXchg { p, c, n, .. } => {
            o(p);
            o(c);
            o(n)
        }
        Ins::AtomicRmw { p, v, .. } => {
            o(p);
            o(v)
        }
        Ins::CondBr(c, _, _) => o(c),
        Ins::Switch { v, .. } => o(v),
        Ins::Ret(Some(v)) => o(v),
        Ins::Br(_) | Ins::Ret(None) | Ins::Unreachable | Ins::Nop | Ins::Unsupported(_) => {}
    }
}

/// A hash map behaves the same, up to its order of iteration, whichever hash function it
/// uses.  The result of SipHash (the standard library's) is therefore replaced by a constant:
/// keys that vary freely are then told apart by comparison alone.  The result is the exclusive or of a
/// sum X and rotations of X by 32 and of other values by 17 and 21 bits; the instructions that only
/// serve to compute it are dropped.  Only for keys of a fixed size, which are hashed in place: the hash of a text
/// (by a call of `write`) stays, for large maps of concrete keys would otherwise be searched from end to end.
fn constant_hash(body: &mut Body, text: &dyn Fn(u32) -> bool) {
    let calls = |i: &Ins| matches!(i, Ins::Call { f: Callee::Fn(f), .. } if text(*f));
    let rot = |i: &Ins| -> Option<(u32, Opnd)> {
        match i {
            Ins::Call { dst: Some(d), f: Callee::Intr(n), args, .. } if n.contains("fshl.i64") => match (&args[0], &args[1], &args[2]) {
                (Opnd::R(a), Opnd::R(b), k @ Opnd::K(_)) if a == b => Some((*d, k.clone())),
                _ => None,
            },
            _ => None,
        }
    };
    if !body.blocks.iter().any(|b| b.ins.iter().any(|i| matches!(rot(i), Some((_, Opnd::K(V::C(21)))))))
        || body.blocks.iter().any(|b| b.ins.iter().any(calls))
    {
        return;
    }
    let mut xors: HashMap<u32, (Opnd, Opnd)> = HashMap::new();
    let mut rots: HashMap<u32, (u32, u128)> = HashMap::new();
    let mut place: HashMap<u32, (usize, usize)> = HashMap::new();
    for (bi, b) in body.blocks.iter().enumerate() {
        for (k, i) in b.ins.iter().enumerate() {
            if let Ins::Bin { op: BinOp::Xor, w: 64, lanes, dst, a, b, .. } = i {
                if *lanes <= 1 {
                    xors.insert(*dst, (a.clone(), b.clone()));
                    place.insert(*dst, (bi, k));
                }
            }
            if let Ins::Call { dst: Some(d), args, .. } = i {
                if let (Some((_, Opnd::K(V::C(n)))), Opnd::R(x)) = (rot(i), args.first().unwrap_or(&Opnd::K(V::Undef))) {
                    rots.insert(*d, (*x, n));
                }
            }
        }
    }
    let inner: Vec<u32> = xors.values().flat_map(|(a, b)| [a.clone(), b.clone()]).filter_map(|o| if let Opnd::R(r) = o { Some(r) } else { None }).filter(|r| xors.contains_key(r)).collect();
    let mut found = false;
    for root in xors.keys().filter(|r| !inner.contains(r)) {
        let mut leaves: Vec<Opnd> = vec![];
        let mut todo = vec![Opnd::R(*root)];
        while let Some(o) = todo.pop() {
            match &o {
                Opnd::R(r) if xors.contains_key(r) => {
                    let (a, b) = &xors[r];
                    todo.push(a.clone());
                    todo.push(b.clone());
                }
                _ => leaves.push(o),
            }
        }
        let by = |n: u128| leaves.iter().position(|o| matches!(o, Opnd::R(r) if matches!(rots.get(r), Some((_, k)) if *k == n)));
        let (r17, r21, r32) = (by(17), by(21), by(32));
        if let (Some(r17), Some(r21)) = (r17, r21) {
            let x = r32.and_then(|k| if let Opnd::R(r) = &leaves[k] { Some(rots[r].0) } else { None });
            let x = x.and_then(|x| leaves.iter().position(|o| matches!(o, Opnd::R(r) if *r == x)));
            let rest: Vec<Opnd> = leaves.iter().enumerate().filter(|(k, _)| *k != r17 && *k != r21 && Some(*k) != r32 && Some(*k) != x).map(|(_, o)| o.clone()).collect();
            let (bi, k) = place[root];
            body.blocks[bi].ins[k] = match (x, rest.len()) {
                (Some(_), 0) => Ins::Copy { dst: *root, a: Opnd::K(V::C(0)) },
                (Some(_), 1) => Ins::Copy { dst: *root, a: rest[0].clone() },
                _ => Ins::Unsupported("form of a hash function".into()),
            };
            found = true;
        }
    }
    if !found {
        return;
    }
    // drop what is no longer read
    loop {
        let mut used = vec![false; body.nregs as usize];
        for b in &body.blocks {
            for p in &b.phis {
                p.inc.iter().for_each(|x| {
                    if let Opnd::R(r) = x.1 {
                        used[r as usize] = true
                    }
                })
            }
            b.ins.iter().for_each(|i| reads(i, &mut |r| used[r as usize] = true));
        }
        let mut dropped = false;
        for b in &mut body.blocks {
            for i in &mut b.ins {
                let d = match &*i {
                    Ins::Bin { op: BinOp::Xor | BinOp::Add | BinOp::Or | BinOp::Shl, dst, .. } => *dst,
                    other => match rot(other) {
                        Some((d, _)) => d,
                        None => continue,
                    },
                };
                if !used[d as usize] {
                    *i = Ins::Nop;
                    dropped = true;
                }
            }
        }
        if !dropped {
            break;
        }
    }
}

fn memchr(b: &[u8], c: u8, p: usize) -> usize {
    b[p..].iter().position(|&x| x == c).map(|i| i + p).unwrap_or(b.len())
}
fn fname_pos(l: &[u8]) -> usize {
    // first '@' followed by a name and '('
    let mut i = 0;
    let mut q = false;
    while i < l.len() {
        match l[i] {
            b'"' => q = !q,
            b'@' if !q => return i,
            _ => {}
        }
        i += 1;
    }
    panic!("no function name in {}", String::from_utf8_lossy(l))
}

struct FnParser<'a> {
    m: &'a Module,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
    nregs: u32,
    nblocks: u32,
}

impl<'a> FnParser<'a> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn block(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.blocks.get(n) {
            return r;
        }
        let r = self.nblocks;
        self.nblocks += 1;
        self.blocks.insert(n.to_string(), r);
        r
    }
    fn opnd(&mut self, c: &mut Cur, t: TyId) -> Opnd {
        if c.peek() == b'%' {
            c.p += 1;
            let n = c.name();
            return Opnd::R(self.reg(n));
        }
        Opnd::K(self.m.pconst(c, t))
    }
    fn label(&mut self, c: &mut Cur) -> u32 {
        c.exp("label");
        assert_eq!(c.peek(), b'%');
        c.p += 1;
        let n = c.name();
        self.block(n)
    }
    fn int_lanes(&self, t: TyId) -> (u16, u32, u8) {
        match self.m.tyof(t) {
            Ty::Int(w) => (w, 0, 0),
            Ty::Ptr => (64, 0, 0),
            Ty::F32 => (32, 0, 1),
            Ty::F64 => (64, 0, 2),
            Ty::Vec(n, e) => {
                let (w, _, f) = self.int_lanes(e);
                (w, n as u32, f)
            }
            _ => (0, 0, 0),
        }
    }
    fn ins(&mut self, c: &mut Cur, bl: &mut Block) {
        let mut dst = None;
        if c.peek() == b'%' {
            c.p += 1;
            let n = c.name();
            let r = self.reg(n);
            c.exp("=");
            dst = Some(r);
        }
        let d = dst.unwrap_or(u32::MAX);
        let op = c.word();
        let bop = match op {
            "add" => Some(BinOp::Add),
            "sub" => Some(BinOp::Sub),
            "mul" => Some(BinOp::Mul),
            "udiv" => Some(BinOp::UDiv),
            "sdiv" => Some(BinOp::SDiv),
            "urem" => Some(BinOp::URem),
            "srem" => Some(BinOp::SRem),
            "shl" => Some(BinOp::Shl),
            "lshr" => Some(BinOp::LShr),
            "ashr" => Some(BinOp::AShr),
            "and" => Some(BinOp::And),
            "or" => Some(BinOp::Or),
            "xor" => Some(BinOp::Xor),
            "fadd" => Some(BinOp::FAdd),
            "fsub" => Some(BinOp::FSub),
            "fmul" => Some(BinOp::FMul),
            "fdiv" => Some(BinOp::FDiv),
            "frem" => Some(BinOp::FRem),
            _ => None,
        };
        if let Some(o) = bop {
            while !c.at_type() {
                c.word();
            }
            let t = self.m.ptype(c);
            let a = self.opnd(c, t);
            c.exp(",");
            let b = self.opnd(c, t);
            let (w, lanes, fp) = self.int_lanes(t);
            bl.ins.push(Ins::Bin { op: o, w, lanes, fp, dst: d, a, b });
            return;
        }
        let cop = match op {
            "zext" => Some(CastOp::Zext),
            "sext" => Some(CastOp::Sext),
            "trunc" => Some(CastOp::Trunc),
            "bitcast" => Some(CastOp::Bitcast),
            "ptrtoint" | "inttoptr" | "ptrtoaddr" => Some(CastOp::PtrInt),
            "uitofp" => Some(CastOp::UiToFp),
            "sitofp" => Some(CastOp::SiToFp),
            "fptoui" => Some(CastOp::FpToUi),
            "fptosi" => Some(CastOp::FpToSi),
            "fpext" => Some(CastOp::FpExt),
            "fptrunc" => Some(CastOp::FpTrunc),
            _ => None,
        };
        if let Some(o) = cop {
            while !c.at_type() {
                c.word();
            }
            let from = self.m.ptype(c);
            let a = self.opnd(c, from);
            c.exp("to");
            let to = self.m.ptype(c);
            bl.ins.push(Ins::Cast { op: o, from, to, dst: d, a });
            return;
        }
        match op {
            "icmp" => {
                let mut w = c.word();
                if w == "samesign" {
                    w = c.word();
                }
                let p = match w {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => panic!("icmp {}", w),
                };
                let t = self.m.ptype(c);
                let a = self.opnd(c, t);
                c.exp(",");
                let b = self.opnd(c, t);
                let (w, lanes, _) = self.int_lanes(t);
                bl.ins.push(Ins::Icmp { p, w, lanes, dst: d, a, b });
            }
            "fcmp" => {
                let mut w = c.word();
                while ["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"].contains(&w) {
                    w = c.word();
                }
                let p = w.to_string();
                let t = self.m.ptype(c);
                let a = self.opnd(c, t);
                c.exp(",");
                let b = self.opnd(c, t);
                bl.ins.push(Ins::Fcmp { p, dbl: self.m.tyof(t) == Ty::F64, dst: d, a, b });
            }
            "fneg" => {
                while !c.at_type() {
                    c.word();
                }
                let t = self.m.ptype(c);
                let a = self.opnd(c, t);
                bl.ins.push(Ins::FNeg { dbl: self.m.tyof(t) == Ty::F64, dst: d, a });
            }
            "load" => {
                c.eat("atomic");
                c.eat("volatile");
                let t = self.m.ptype(c);
                c.exp(",");
                let pt = self.m.ptype(c);
                let p = self.opnd(c, pt);
                bl.ins.push(Ins::Load { ty: t, dst: d, p });
            }
            "store" => {
                c.eat("atomic");
                c.eat("volatile");
                let t = self.m.ptype(c);
                let v = self.opnd(c, t);
                c.exp(",");
                let pt = self.m.ptype(c);
                let p = self.opnd(c, pt);
                bl.ins.push(Ins::Store { ty: t, v, p });
            }
            "getelementptr" => {
                while !c.at_type() {
                    let w = c.word();
                    if w == "inrange" {
                        c.group();
                    }
                }
                let st = self.m.ptype(c);
                c.exp(",");
                let pt = self.m.ptype(c);
                let base = self.opnd(c, pt);
                let mut idx = vec![];
                while c.peek() == b',' {
                    c.p += 1;
                    if c.peek() == b'!' {
                        break;
                    }
                    let it = self.m.ptype(c);
                    let (w, _, _) = self.int_lanes(it);
                    let o = self.opnd(c, it);
                    idx.push((o, w));
                }
                let (off, rest) = self.m.gep_layout(st, &idx);
                bl.ins.push(Ins::Gep { dst: d, base, off, idx: rest });
            }
            "alloca" => {
                let t = self.m.ptype(c);
                let size = self.m.types.borrow().size(t);
                let mut n = None;
                let mut align = 8;
                while c.peek() == b',' {
                    c.p += 1;
                    if c.peek() == b'!' {
                        break;
                    }
                    if c.eat("align") {
                        align = c.int() as u64;
                        continue;
                    }
                    let it = self.m.ptype(c);
                    n = Some(self.opnd(c, it));
                }
                bl.ins.push(Ins::Alloca { dst: d, size, n, align });
            }
            "select" => {
                while !c.at_type() {
                    c.word();
                }
                let ct = self.m.ptype(c);
                let cv = matches!(self.m.tyof(ct), Ty::Vec(..));
                let k = self.opnd(c, ct);
                c.exp(",");
                let t = self.m.ptype(c);
                let a = self.opnd(c, t);
                c.exp(",");
                let t2 = self.m.ptype(c);
                let b = self.opnd(c, t2);
                bl.ins.push(Ins::Select { dst: d, c: k, cv, ty: t, a, b });
            }
            "phi" => {
                while !c.at_type() {
                    c.word();
                }
                let t = self.m.ptype(c);
                let mut inc = vec![];
                loop {
                    c.exp("[");
                    let v = self.opnd(c, t);
                    c.exp(",");
                    assert_eq!(c.peek(), b'%');
                    c.p += 1;
                    let n = c.name();
                    let b = self.block(n);
                    c.exp("]");
                    inc.push((b, v));
                    if c.peek() == b',' {
                        let save = c.p;
                        c.p += 1;
                        if c.peek() == b'[' {
                            continue;
                        }
                        c.p = save;
                    }
                    break;
                }
                let w = match self.m.tyof(t) {
                    Ty::Int(w) if w <= 64 => w,
                    _ => 0,
                };
                bl.phis.push(Phi { dst: d, w, inc });
            }
            "br" => {
                if c.peek_word() == "label" {
                    let l = self.label(c);
                    bl.ins.push(Ins::Br(l));
                } else {
                    let t = self.m.ptype(c);
                    let k = self.opnd(c, t);
                    c.exp(",");
                    let a = self.label(c);
                    c.exp(",");
                    let b = self.label(c);
                    bl.ins.push(Ins::CondBr(k, a, b));
                }
            }
            "switch" => {
                let t = self.m.ptype(c);
                let (w, _, _) = self.int_lanes(t);
                let v = self.opnd(c, t);
                c.exp(",");
                let def = self.label(c);
                c.exp("[");
                let mut cases = vec![];
                while c.peek() != b']' {
                    let t = self.m.ptype(c);
                    let k = match self.m.pconst(c, t) {
                        V::C(x) => x,
                        _ => panic!(),
                    };
                    c.exp(",");
                    let l = self.label(c);
                    cases.push((k, l));
                }
                c.p += 1;
                bl.ins.push(Ins::Switch { w, v, def, cases });
            }
            "ret" => {
                let t = self.m.ptype(c);
                if self.m.tyof(t) == Ty::Void {
                    bl.ins.push(Ins::Ret(None));
                } else {
                    let v = self.opnd(c, t);
                    bl.ins.push(Ins::Ret(Some(v)));
                }
            }
            "unreachable" => bl.ins.push(Ins::Unreachable),
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                let inv = op == "invoke";
                if op != "call" && op != "invoke" {
                    c.exp("call");
                }
                c.attrs();
                let ret = self.m.ptype(c);
                c.ws();
                if c.s[c.p] == b'(' {
                    c.group(); // function type of a varargs callee
                }
                let f = match c.peek() {
                    b'@' => {
                        c.p += 1;
                        let n = c.name();
                        if n.starts_with("llvm.") {
                            Callee::Intr(n.to_string())
                        } else if let Some(&f) = self.m.fmap.get(n) {
                            Callee::Fn(f)
                        } else {
                            panic!("callee {}", n)
                        }
                    }
                    b'%' => {
                        c.p += 1;
                        let n = c.name();
                        Callee::Ind(Opnd::R(self.reg(n)))
                    }
                    _ => {
                        if c.eat("asm") {
                            while c.peek() != b'"' {
                                c.word();
                            }
                            // a template that is only a comment passes its operand through
                            let t = c.name().trim().to_string();
                            c.exp(",");
                            c.peek();
                            c.name();
                            Callee::Asm(
                                t.is_empty()
                                    || (t.starts_with("/*")
                                        && t.find("*/") == Some(t.len() - 2)),
                            )
                        } else {
                            let pt = self.m.types.borrow_mut().get(Ty::Ptr);
                            Callee::Ind(self.opnd(c, pt))
                        }
                    }
                };
                c.exp("(");
                let mut args = vec![];
                let mut tys = vec![];
                if !c.eat(")") {
                    loop {
                        let t = self.m.ptype(c);
                        if self.m.tyof(t) == Ty::Other {
                            // metadata argument
                            let mut depth = 0;
                            loop {
                                match c.s[c.p] {
                                    b'(' => depth += 1,
                                    b')' if depth == 0 => break,
                                    b')' => depth -= 1,
                                    b',' if depth == 0 => break,
                                    _ => {}
                                }
                                c.p += 1;
                            }
                            args.push(Opnd::K(V::C(0)));
                        } else {
                            c.vattrs();
                            let o = self.opnd(c, t);
                            args.push(o);
                        }
                        tys.push(t);
                        if c.eat(",") {
                            continue;
                        }
                        c.exp(")");
                        break;
                    }
                }
                let mut normal = None;
                if inv {
                    // "to label %x unwind label %y"
                    loop {
                        let ch = c.peek();
                        if ch == b'#' {
                            c.p += 1;
                            c.word();
                            continue;
                        }
                        if ch == b'[' {
                            c.group();
                            continue;
                        }
                        if c.eat("to") {
                            break;
                        }
                        let w = c.word();
                        if w.is_empty() {
                            panic!("invoke {}", c.ctx());
                        }
                        if c.s[c.p] == b'(' {
                            c.group();
                        }
                    }
                    normal = Some(self.label(c));
                    c.exp("unwind");
                    self.label(c);
                }
                let skip = matches!(&f, Callee::Intr(n) if n.starts_with("llvm.dbg.") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.lifetime"));
                if !skip {
                    bl.ins.push(Ins::Call { dst, ret, f, args, tys, normal });
                } else {
                    bl.ins.push(Ins::Nop);
                }
            }
            "extractvalue" => {
                let t = self.m.ptype(c);
                let a = self.opnd(c, t);
                let path = self.path(c);
                bl.ins.push(Ins::ExtractValue { dst: d, a, path });
            }
            "insertvalue" => {
                let t = self.m.ptype(c);
                let a = self.opnd(c, t);
                c.exp(",");
                let vt = self.m.ptype(c);
                let v = self.opnd(c, vt);
                let path = self.path(c);
                bl.ins.push(Ins::InsertValue { dst: d, ty: t, a, v, path });
            }
            "extractelement" => {
                let t = self.m.ptype(c);
                let a = self.opnd(c, t);
                c.exp(",");
                let it = self.m.ptype(c);
                let i = self.opnd(c, it);
                bl.ins.push(Ins::ExtractElt { dst: d, a, i });
            }
            "insertelement" => {
                let t = self.m.ptype(c);
                let n = match self.m.tyof(t) {
                    Ty::Vec(n, _) => n as u32,
                    _ => 0,
                };
                let a = self.opnd(c, t);
                c.exp(",");
                let vt = self.m.ptype(c);
                let v = self.opnd(c, vt);
                c.exp(",");
                let it = self.m.ptype(c);
                let i = self.opnd(c, it);
                bl.ins.push(Ins::InsertElt { dst: d, n, a, v, i });
            }
            "shufflevector" => {
                let t = self.m.ptype(c);
                let n = match self.m.tyof(t) {
                    Ty::Vec(n, _) => n as u32,
                    _ => 0,
                };
                let a = self.opnd(c, t);
                c.exp(",");
                let t2 = self.m.ptype(c);
                let b = self.opnd(c, t2);
                c.exp(",");
                let mt = self.m.ptype(c);
                let m = match self.m.pconst(c, mt) {
                    V::A(v) => v
                        .iter()
                        .map(|x| match x {
                            V::C(k) => sext(*k, 32) as i64,
                            _ => -1,
                        })
                        .collect(),
                    _ => panic!(),
                };
                bl.ins.push(Ins::Shuffle { dst: d, n, a, b, m });
            }
            "freeze" => {
                let t = self.m.ptype(c);
                let a = self.opnd(c, t);
                bl.ins.push(Ins::Copy { dst: d, a });
            }
            "cmpxchg" => {
                c.eat("weak");
                c.eat("volatile");
                let pt = self.m.ptype(c);
                let p = self.opnd(c, pt);
                c.exp(",");
                let t = self.m.ptype(c);
                let k = self.opnd(c, t);
                c.exp(",");
                let t2 = self.m.ptype(c);
                let n = self.opnd(c, t2);
                bl.ins.push(Ins::CmpXchg { dst: d, ty: t, p, c: k, n });
            }
            "atomicrmw" => {
                c.eat("volatile");
                let o = c.word().to_string();
                let pt = self.m.ptype(c);
                let p = self.opnd(c, pt);
                c.exp(",");
                let t = self.m.ptype(c);
                let v = self.opnd(c, t);
                bl.ins.push(Ins::AtomicRmw { dst: d, op: o, ty: t, p, v });
            }
            "fence" => bl.ins.push(Ins::Nop),
            "landingpad" => {
                // never reached (panics end the path); skip its clause lines
                c.eol();
                loop {
                    let save = c.p;
                    let w = c.peek_word();
                    if w == "cleanup" || w == "catch" || w == "filter" {
                        c.word();
                        c.eol();
                    } else {
                        c.p = save;
                        break;
                    }
                }
                bl.ins.push(Ins::Unsupported("landingpad".into()));
            }
            _ => {
                bl.ins.push(Ins::Unsupported(format!("{} {}", op, c.ctx())));
            }
        }
    }
    fn path(&mut self, c: &mut Cur) -> Vec<u32> {
        let mut v = vec![];
        while c.peek() == b',' {
            let save = c.p;
            c.p += 1;
            if c.peek() == b'!' {
                c.p = save;
                break;
            }
            v.push(c.int() as u32);
        }
        v
    }
}

pub fn op_of(b: BinOp) -> Option<Op> {
    Some(match b {
        BinOp::Add => Op::Add,
        BinOp::Mul => Op::Mul,
        BinOp::UDiv => Op::UDiv,
        BinOp::SDiv => Op::SDiv,
        BinOp::URem => Op::URem,
        BinOp::SRem => Op::SRem,
        BinOp::Shl => Op::Shl,
        BinOp::LShr => Op::LShr,
        BinOp::AShr => Op::AShr,
        BinOp::And => Op::And,
        BinOp::Or => Op::Or,
        BinOp::Xor => Op::Xor,
        _ => return None,
    })
}
