//! A small backtracking matcher with the leftmost-first semantics of the
//! regex crate for the syntax the repository uses (literals, classes, groups,
//! repetition, alternation, anchors), in place of the crate's lazily built
//! automata, which are out of reach of symbolic execution.
use std::borrow::Cow;
use std::collections::HashMap;
use std::fmt;

#[derive(Clone, PartialEq, Eq)]
pub enum Error {
    Syntax(String),
    CompiledTooBig(usize),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("regex error")
    }
}
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("regex error")
    }
}
impl std::error::Error for Error {}

#[derive(Clone)]
struct Class {
    /// members among single bytes (ASCII)
    ascii: [bool; 256],
    ranges: Vec<(u32, u32)>,
    neg: bool,
}
#[derive(Clone)]
enum Node {
    Empty,
    Class(Box<Class>),
    Start,
    End,
    Cat(Vec<Node>),
    Alt(Vec<Node>),
    Group(Box<Node>, Option<usize>),
    Rep(Box<Node>, usize, usize, bool),
}
#[derive(Clone)]
pub struct Regex {
    pat: String,
    root: Node,
    fixed: Option<Fixed>,
    ngroups: usize,
    names: HashMap<String, usize>,
}

/// a pattern of a fixed number of ASCII characters: the class of each and the spans of
/// the groups (matched without branching on every character)
#[derive(Clone)]
struct Fixed {
    classes: Vec<Box<Class>>,
    groups: Vec<Option<(usize, usize)>>,
    start: bool,
    end: bool,
}
impl Fixed {
    fn of(root: &Node, ngroups: usize) -> Option<Fixed> {
        let mut f = Fixed { classes: vec![], groups: vec![None; ngroups], start: false, end: false };
        if f.add(root) {
            Some(f)
        } else {
            None
        }
    }
    fn add(&mut self, n: &Node) -> bool {
        if self.end {
            return false;
        }
        match n {
            Node::Empty => true,
            Node::Start => {
                self.start = true;
                self.classes.is_empty()
            }
            Node::End => {
                self.end = true;
                true
            }
            Node::Class(c) => {
                self.classes.push(c.clone());
                !c.neg && c.ranges.iter().all(|r| r.1 < 0x80)
            }
            Node::Cat(v) => v.iter().all(|n| self.add(n)),
            Node::Alt(_) => false,
            Node::Group(n, i) => {
                let s = self.classes.len();
                if !self.add(n) {
                    return false;
                }
                if let Some(i) = i {
                    self.groups[*i] = Some((s, self.classes.len()));
                }
                true
            }
            Node::Rep(n, lo, hi, _) => lo == hi && *lo < 64 && (0..*lo).all(|_| self.add(n)),
        }
    }
    fn at(&self, t: &str, from: usize) -> Option<Caps> {
        let b = t.as_bytes();
        let n = self.classes.len();
        let mut s = from;
        while s + n <= b.len() {
            if self.start && s > 0 {
                return None;
            }
            let mut hit = 1u8;
            for i in 0..n {
                hit &= self.classes[i].ascii[b[s + i] as usize] as u8;
            }
            if hit == 1 && (!self.end || s + n == b.len()) && t.is_char_boundary(s) {
                let mut c: Caps = self.groups.iter().map(|g| g.map(|(x, y)| (s + x, s + y))).collect();
                c[0] = Some((s, s + n));
                return Some(c);
            }
            s += 1;
        }
        None
    }
}

struct Parser<'a> {
    c: Vec<char>,
    p: usize,
    ng: usize,
    ci: bool,
    dot: bool,
    names: HashMap<String, usize>,
    _s: &'a str,
}
type R<T> = Result<T, Error>;
fn bad<T>(m: &str) -> R<T> {
    Err(Error::Syntax(m.to_string()))
}
/// ends the path as out of reach instead of inventing a behaviour
fn unmodelled<T>(_m: &str) -> R<T> {
    extern "C" {
        fn sym_regex_feature_not_modelled() -> !;
    }
    unsafe { sym_regex_feature_not_modelled() }
}
/// a class extended by the other case of its letters
fn fold(mut ranges: Vec<(u32, u32)>) -> Vec<(u32, u32)> {
    for k in 0..ranges.len() {
        let (lo, hi) = ranges[k];
        for (a, b, d) in [(65i64, 90i64, 32i64), (97, 122, -32)] {
            let (l, h) = (a.max(lo as i64), b.min(hi as i64));
            if l <= h {
                ranges.push(((l + d) as u32, (h + d) as u32));
            }
        }
        let has = |c: u8| lo <= c as u32 && c as u32 <= hi;
        if has(b'k') || has(b'K') {
            ranges.push((0x212a, 0x212a));
        }
        if has(b's') || has(b'S') {
            ranges.push((0x17f, 0x17f));
        }
    }
    ranges
}
fn class(ranges: Vec<(u32, u32)>, neg: bool) -> Node {
    let mut ascii = [false; 256];
    for b in 0..128u32 {
        ascii[b as usize] = ranges.iter().any(|r| r.0 <= b && b <= r.1) != neg;
    }
    Node::Class(Box::new(Class { ascii, ranges, neg }))
}
fn escape_class(c: char) -> Option<(Vec<(u32, u32)>, bool)> {
    // ASCII approximations of the Unicode classes; non-ASCII members are not modelled
    let (v, n): (&[(char, char)], bool) = match c {
        'd' => (&[('0', '9')], false),
        'D' => (&[('0', '9')], true),
        'w' => (&[('0', '9'), ('A', 'Z'), ('a', 'z'), ('_', '_')], false),
        'W' => (&[('0', '9'), ('A', 'Z'), ('a', 'z'), ('_', '_')], true),
        's' => (&[('\t', '\r'), (' ', ' ')], false),
        'S' => (&[('\t', '\r'), (' ', ' ')], true),
        _ => return None,
    };
    Some((v.iter().map(|r| (r.0 as u32, r.1 as u32)).collect(), n))
}
fn escape_char(c: char) -> char {
    match c {
        'n' => '\n',
        't' => '\t',
        'r' => '\r',
        'f' => '\x0c',
        'v' => '\x0b',
        'a' => '\x07',
        c => c,
    }
}
impl Parser<'_> {
    fn peek(&self) -> Option<char> {
        self.c.get(self.p).copied()
    }
    fn eat(&mut self, c: char) -> bool {
        if self.peek() == Some(c) {
            self.p += 1;
            true
        } else {
            false
        }
    }
    fn alt(&mut self) -> R<Node> {
        let mut v = vec![self.cat()?];
        while self.eat('|') {
            v.push(self.cat()?);
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { Node::Alt(v) })
    }
    fn cat(&mut self) -> R<Node> {
        let mut v = vec![];
        while let Some(c) = self.peek() {
            if c == '|' || c == ')' {
                break;
            }
            let mut n = self.atom()?;
            loop {
                let (lo, hi) = match self.peek() {
                    Some('*') => (0, usize::MAX),
                    Some('+') => (1, usize::MAX),
                    Some('?') => (0, 1),
                    Some('{') => {
                        self.p += 1;
                        let lo = self.num()?;
                        let hi = if self.eat(',') {
                            if self.peek() == Some('}') {
                                usize::MAX
                            } else {
                                self.num()?
                            }
                        } else {
                            lo
                        };
                        if self.peek() != Some('}') {
                            return bad("repetition");
                        }
                        (lo, hi)
                    }
                    _ => break,
                };
                self.p += 1;
                let greedy = !self.eat('?');
                n = Node::Rep(Box::new(n), lo, hi, greedy);
            }
            v.push(n);
        }
        Ok(match v.len() {
            0 => Node::Empty,
            1 => v.pop().unwrap(),
            _ => Node::Cat(v),
        })
    }
    fn num(&mut self) -> R<usize> {
        let mut n = 0;
        let mut any = false;
        while let Some(c) = self.peek() {
            if let Some(d) = c.to_digit(10) {
                n = n * 10 + d as usize;
                any = true;
                self.p += 1;
            } else {
                break;
            }
        }
        if any {
            Ok(n)
        } else {
            bad("number")
        }
    }
    fn atom(&mut self) -> R<Node> {
        let c = self.peek().unwrap();
        self.p += 1;
        Ok(match c {
            '^' => Node::Start,
            '$' => Node::End,
            '.' if self.dot => class(vec![(0, 0x10ffff)], false),
            '.' => class(vec![('\n' as u32, '\n' as u32)], true),
            '(' => {
                let mut idx = None;
                let outer = (self.ci, self.dot);
                if self.eat('?') {
                    let mut on = true;
                    let mut flags = false;
                    loop {
                        match self.peek() {
                            Some('i') => self.ci = on,
                            Some('s') => self.dot = on,
                            Some('-') => on = false,
                            _ => break,
                        }
                        flags = true;
                        self.p += 1;
                    }
                    if flags && self.eat(')') {
                        // for the rest of the enclosing group
                        return Ok(Node::Empty);
                    }
                    if self.eat(':') {
                    } else {
                        self.eat('P');
                        if !self.eat('<') {
                            return unmodelled("group flags are not modelled");
                        }
                        let mut n = String::new();
                        loop {
                            match self.peek() {
                                Some('>') => {
                                    self.p += 1;
                                    break;
                                }
                                Some(c) => {
                                    n.push(c);
                                    self.p += 1;
                                }
                                None => return bad("group name"),
                            }
                        }
                        self.ng += 1;
                        idx = Some(self.ng);
                        self.names.insert(n, self.ng);
                    }
                } else {
                    self.ng += 1;
                    idx = Some(self.ng);
                }
                let n = self.alt()?;
                if !self.eat(')') {
                    return bad("unclosed group");
                }
                (self.ci, self.dot) = outer;
                Node::Group(Box::new(n), idx)
            }
            '[' => {
                let neg = self.eat('^');
                let mut v = vec![];
                let mut first = true;
                loop {
                    let c = match self.peek() {
                        None => return bad("unclosed class"),
                        Some(c) => c,
                    };
                    self.p += 1;
                    if c == ']' && !first {
                        break;
                    }
                    first = false;
                    let lo = if c == '\\' {
                        let e = match self.peek() {
                            None => return bad("escape"),
                            Some(e) => e,
                        };
                        self.p += 1;
                        if let Some((r, n)) = escape_class(e) {
                            if n {
                                return unmodelled("negated class in class is not modelled");
                            }
                            v.extend(r);
                            continue;
                        }
                        escape_char(e)
                    } else {
                        if c == '[' {
                            return unmodelled("nested class is not modelled");
                        }
                        c
                    };
                    if self.peek() == Some('-') && self.c.get(self.p + 1).map_or(false, |c| *c != ']') {
                        self.p += 1;
                        let mut h = self.peek().unwrap();
                        self.p += 1;
                        if h == '\\' {
                            h = match self.peek() {
                                None => return bad("escape"),
                                Some(e) => escape_char(e),
                            };
                            self.p += 1;
                        }
                        if (h as u32) < (lo as u32) {
                            return bad("range");
                        }
                        v.push((lo as u32, h as u32));
                    } else {
                        v.push((lo as u32, lo as u32));
                    }
                }
                class(if self.ci { fold(v) } else { v }, neg)
            }
            '\\' => {
                let e = match self.peek() {
                    None => return bad("escape"),
                    Some(e) => e,
                };
                self.p += 1;
                match e {
                    'A' => Node::Start,
                    'z' => Node::End,
                    'b' | 'B' => return unmodelled("word boundary is not modelled"),
                    _ => {
                        if let Some((r, n)) = escape_class(e) {
                            class(r, n)
                        } else {
                            let c = escape_char(e) as u32;
                            let v = vec![(c, c)];
                            class(if self.ci { fold(v) } else { v }, false)
                        }
                    }
                }
            }
            '*' | '+' | '?' => return bad("repetition of nothing"),
            c => {
                let v = vec![(c as u32, c as u32)];
                class(if self.ci { fold(v) } else { v }, false)
            }
        })
    }
}

type Caps = Vec<Option<(usize, usize)>>;
impl Node {
    /// tries to match at `p`; `k` is the continuation
    fn m(&self, t: &str, p: usize, caps: &mut Caps, k: &mut dyn FnMut(usize, &mut Caps) -> bool) -> bool {
        match self {
            Node::Empty => k(p, caps),
            Node::Start => p == 0 && k(p, caps),
            Node::End => p == t.len() && k(p, caps),
            Node::Class(c) => {
                let b = t.as_bytes();
                if p >= b.len() {
                    return false;
                }
                if c.ascii[b[p] as usize] {
                    return k(p + 1, caps);
                }
                if !c.neg && c.ranges.iter().all(|r| r.1 < 0x80) {
                    return false;
                }
                if b[p] < 0x80 {
                    return false;
                }
                let ch = t[p..].chars().next().unwrap();
                let u = ch as u32;
                if c.ranges.iter().any(|r| r.0 <= u && u <= r.1) != c.neg {
                    k(p + ch.len_utf8(), caps)
                } else {
                    false
                }
            }
            Node::Cat(v) => cat(v, t, p, caps, k),
            Node::Alt(v) => {
                for n in v {
                    if n.m(t, p, caps, k) {
                        return true;
                    }
                }
                false
            }
            Node::Group(n, None) => n.m(t, p, caps, k),
            Node::Group(n, Some(i)) => {
                let old = caps[*i];
                let i = *i;
                if n.m(t, p, caps, &mut |q, c| {
                    let o = c[i];
                    c[i] = Some((p, q));
                    if k(q, c) {
                        return true;
                    }
                    c[i] = o;
                    false
                }) {
                    return true;
                }
                caps[i] = old;
                false
            }
            Node::Rep(n, lo, hi, greedy) => rep(n, *lo, *hi, *greedy, t, p, caps, k),
        }
    }
}
fn cat(v: &[Node], t: &str, p: usize, caps: &mut Caps, k: &mut dyn FnMut(usize, &mut Caps) -> bool) -> bool {
    match v.split_first() {
        None => k(p, caps),
        Some((n, rest)) => n.m(t, p, caps, &mut |q, c| cat(rest, t, q, c, k)),
    }
}
#[allow(clippy::too_many_arguments)]
fn rep(n: &Node, lo: usize, hi: usize, greedy: bool, t: &str, p: usize, caps: &mut Caps, k: &mut dyn FnMut(usize, &mut Caps) -> bool) -> bool {
    // a repeated single-character class is the common case: no recursion
    if let (Node::Class(_), true) = (n, greedy) {
        let mut ends = vec![p];
        let mut q = p;
        while ends.len() - 1 < hi {
            let mut e = None;
            if !n.m(t, q, caps, &mut |x, _| {
                e = Some(x);
                true
            }) {
                break;
            }
            q = e.unwrap();
            ends.push(q);
        }
        while ends.len() > lo {
            let e = ends.pop().unwrap();
            if k(e, caps) {
                return true;
            }
        }
        return false;
    }
    if lo > 0 {
        return n.m(t, p, caps, &mut |q, c| rep(n, lo - 1, if hi == usize::MAX { hi } else { hi - 1 }, greedy, t, q, c, k));
    }
    if hi == 0 {
        return k(p, caps);
    }
    if !greedy && k(p, caps) {
        return true;
    }
    if n.m(t, p, caps, &mut |q, c| q != p && rep(n, 0, if hi == usize::MAX { hi } else { hi - 1 }, greedy, t, q, c, k)) {
        return true;
    }
    greedy && k(p, caps)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Match<'t> {
    t: &'t str,
    s: usize,
    e: usize,
}
impl<'t> Match<'t> {
    pub fn start(&self) -> usize {
        self.s
    }
    pub fn end(&self) -> usize {
        self.e
    }
    pub fn range(&self) -> std::ops::Range<usize> {
        self.s..self.e
    }
    pub fn len(&self) -> usize {
        self.e - self.s
    }
    pub fn is_empty(&self) -> bool {
        self.e == self.s
    }
    pub fn as_str(&self) -> &'t str {
        &self.t[self.s..self.e]
    }
}
pub struct Captures<'t> {
    t: &'t str,
    caps: Caps,
    names: HashMap<String, usize>,
}
impl<'t> Captures<'t> {
    pub fn get(&self, i: usize) -> Option<Match<'t>> {
        self.caps.get(i).copied().flatten().map(|(s, e)| Match { t: self.t, s, e })
    }
    pub fn name(&self, n: &str) -> Option<Match<'t>> {
        self.names.get(n).and_then(|i| self.get(*i))
    }
    pub fn len(&self) -> usize {
        self.caps.len()
    }
    pub fn iter(&self) -> std::vec::IntoIter<Option<Match<'t>>> {
        (0..self.caps.len()).map(|i| self.get(i)).collect::<Vec<_>>().into_iter()
    }
    pub fn extract<const N: usize>(&self) -> (&'t str, [&'t str; N]) {
        assert_eq!(N + 1, self.caps.len());
        (self.get(0).unwrap().as_str(), std::array::from_fn(|i| self.get(i + 1).expect("too few matching groups").as_str()))
    }
    pub fn expand(&self, r: &str, out: &mut String) {
        let c: Vec<char> = r.chars().collect();
        let mut i = 0;
        while i < c.len() {
            if c[i] != '$' {
                out.push(c[i]);
                i += 1;
                continue;
            }
            if i + 1 < c.len() && c[i + 1] == '$' {
                out.push('$');
                i += 2;
                continue;
            }
            let mut j = i + 1;
            let mut n = String::new();
            if j < c.len() && c[j] == '{' {
                j += 1;
                while j < c.len() && c[j] != '}' {
                    n.push(c[j]);
                    j += 1;
                }
                j += 1;
            } else {
                while j < c.len() && (c[j].is_ascii_alphanumeric() || c[j] == '_') {
                    n.push(c[j]);
                    j += 1;
                }
            }
            if n.is_empty() {
                out.push('$');
                i += 1;
                continue;
            }
            let m = match n.parse::<usize>() {
                Ok(k) => self.get(k),
                Err(_) => self.name(&n),
            };
            if let Some(m) = m {
                out.push_str(m.as_str());
            }
            i = j;
        }
    }
}
impl std::ops::Index<usize> for Captures<'_> {
    type Output = str;
    fn index(&self, i: usize) -> &str {
        self.get(i).map(|m| m.as_str()).unwrap_or_else(|| panic!("no group at index '{}'", i))
    }
}
impl std::ops::Index<&str> for Captures<'_> {
    type Output = str;
    fn index(&self, i: &str) -> &str {
        self.name(i).map(|m| m.as_str()).unwrap_or_else(|| panic!("no group named '{}'", i))
    }
}
pub trait Replacer {
    fn replace_append(&mut self, caps: &Captures<'_>, dst: &mut String);
}
impl Replacer for &str {
    fn replace_append(&mut self, caps: &Captures<'_>, dst: &mut String) {
        caps.expand(self, dst)
    }
}
impl Replacer for String {
    fn replace_append(&mut self, caps: &Captures<'_>, dst: &mut String) {
        caps.expand(self, dst)
    }
}
impl Replacer for &String {
    fn replace_append(&mut self, caps: &Captures<'_>, dst: &mut String) {
        caps.expand(self, dst)
    }
}
impl<F: FnMut(&Captures<'_>) -> T, T: AsRef<str>> Replacer for F {
    fn replace_append(&mut self, caps: &Captures<'_>, dst: &mut String) {
        dst.push_str((*self)(caps).as_ref())
    }
}

impl Regex {
    pub fn new(p: &str) -> Result<Regex, Error> {
        let mut q = Parser { c: p.chars().collect(), p: 0, ng: 0, ci: false, dot: false, names: HashMap::new(), _s: p };
        let root = q.alt()?;
        if q.p != q.c.len() {
            return bad("unopened group");
        }
        let fixed = Fixed::of(&root, q.ng + 1);
        Ok(Regex { pat: p.to_string(), root, fixed, ngroups: q.ng + 1, names: q.names })
    }
    pub fn as_str(&self) -> &str {
        &self.pat
    }
    fn at(&self, t: &str, from: usize) -> Option<Caps> {
        if let Some(f) = &self.fixed {
            return f.at(t, from);
        }
        let mut s = from;
        loop {
            let mut caps: Caps = vec![None; self.ngroups];
            let mut end = 0;
            if self.root.m(t, s, &mut caps, &mut |q, _| {
                end = q;
                true
            }) {
                caps[0] = Some((s, end));
                return Some(caps);
            }
            // an anchored pattern can only match at the start
            if let Node::Start = self.root {
                return None;
            }
            if let Node::Cat(v) = &self.root {
                if let Node::Start = v[0] {
                    return None;
                }
            }
            s += 1;
            while s < t.len() && !t.is_char_boundary(s) {
                s += 1;
            }
            if s > t.len() {
                return None;
            }
        }
    }
    pub fn is_match(&self, t: &str) -> bool {
        self.at(t, 0).is_some()
    }
    pub fn is_match_at(&self, t: &str, s: usize) -> bool {
        self.at(t, s).is_some()
    }
    pub fn find<'t>(&self, t: &'t str) -> Option<Match<'t>> {
        self.find_at(t, 0)
    }
    pub fn find_at<'t>(&self, t: &'t str, s: usize) -> Option<Match<'t>> {
        self.at(t, s).map(|c| Match { t, s: c[0].unwrap().0, e: c[0].unwrap().1 })
    }
    /// for patterns whose matches all have one length (the only use in the
    /// repository) the earliest end is the end of the leftmost match
    pub fn shortest_match(&self, t: &str) -> Option<usize> {
        self.find(t).map(|m| m.e)
    }
    pub fn captures<'t>(&self, t: &'t str) -> Option<Captures<'t>> {
        self.at(t, 0).map(|caps| Captures { t, caps, names: self.names.clone() })
    }
    pub fn captures_iter<'t>(&self, t: &'t str) -> std::vec::IntoIter<Captures<'t>> {
        let mut v = vec![];
        let mut p = 0;
        while p <= t.len() {
            match self.at(t, p) {
                None => break,
                Some(caps) => {
                    let (s, e) = caps[0].unwrap();
                    v.push(Captures { t, caps, names: self.names.clone() });
                    p = if e == s { e + 1 } else { e };
                    while p < t.len() && !t.is_char_boundary(p) {
                        p += 1;
                    }
                }
            }
        }
        v.into_iter()
    }
    pub fn find_iter<'t>(&self, t: &'t str) -> std::vec::IntoIter<Match<'t>> {
        self.captures_iter(t).map(|c| c.get(0).unwrap()).collect::<Vec<_>>().into_iter()
    }
    pub fn split<'t>(&self, t: &'t str) -> std::vec::IntoIter<&'t str> {
        let mut v = vec![];
        let mut p = 0;
        for m in self.find_iter(t) {
            v.push(&t[p..m.s]);
            p = m.e;
        }
        v.push(&t[p..]);
        v.into_iter()
    }
    pub fn replacen<'t, P: Replacer>(&self, t: &'t str, limit: usize, mut r: P) -> Cow<'t, str> {
        let mut out = String::new();
        let mut p = 0;
        let mut n = 0;
        for c in self.captures_iter(t) {
            if limit > 0 && n >= limit {
                break;
            }
            n += 1;
            let m = c.get(0).unwrap();
            out.push_str(&t[p..m.s]);
            r.replace_append(&c, &mut out);
            p = m.e;
        }
        if n == 0 {
            return Cow::Borrowed(t);
        }
        out.push_str(&t[p..]);
        Cow::Owned(out)
    }
    pub fn replace<'t, P: Replacer>(&self, t: &'t str, r: P) -> Cow<'t, str> {
        self.replacen(t, 1, r)
    }
    pub fn replace_all<'t, P: Replacer>(&self, t: &'t str, r: P) -> Cow<'t, str> {
        self.replacen(t, 0, r)
    }
    pub fn capture_names(&self) -> std::vec::IntoIter<Option<&str>> {
        let mut v = vec![None; self.ngroups];
        for (n, i) in &self.names {
            v[*i] = Some(n.as_str());
        }
        v.into_iter()
    }
    pub fn shortest_match_at(&self, t: &str, s: usize) -> Option<usize> {
        self.find_at(t, s).map(|m| m.e)
    }
    pub fn captures_at<'t>(&self, t: &'t str, s: usize) -> Option<Captures<'t>> {
        self.at(t, s).map(|caps| Captures { t, caps, names: self.names.clone() })
    }
    pub fn captures_len(&self) -> usize {
        self.ngroups
    }
}
impl fmt::Debug for Regex {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.pat)
    }
}
impl fmt::Display for Regex {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.pat)
    }
}
impl std::str::FromStr for Regex {
    type Err = Error;
    fn from_str(s: &str) -> Result<Regex, Error> {
        Regex::new(s)
    }
}
impl TryFrom<&str> for Regex {
    type Error = Error;
    fn try_from(s: &str) -> Result<Regex, Error> {
        Regex::new(s)
    }
}
pub struct NoExpand<'s>(pub &'s str);
impl Replacer for NoExpand<'_> {
    fn replace_append(&mut self, _c: &Captures<'_>, dst: &mut String) {
        dst.push_str(self.0)
    }
}
impl Replacer for Cow<'_, str> {
    fn replace_append(&mut self, caps: &Captures<'_>, dst: &mut String) {
        caps.expand(self, dst)
    }
}
pub fn escape(t: &str) -> String {
    let mut s = String::new();
    for c in t.chars() {
        if r"\.+*?()|[]{}^$#&-~".contains(c) {
            s.push('\\');
        }
        s.push(c);
    }
    s
}
pub struct RegexBuilder {
    pat: String,
    flags: String,
}
impl RegexBuilder {
    pub fn new(p: &str) -> Self {
        RegexBuilder { pat: p.to_string(), flags: String::new() }
    }
    pub fn case_insensitive(&mut self, yes: bool) -> &mut Self {
        self.flags.push_str(if yes { "(?i)" } else { "(?-i)" });
        self
    }
    pub fn dot_matches_new_line(&mut self, yes: bool) -> &mut Self {
        self.flags.push_str(if yes { "(?s)" } else { "(?-s)" });
        self
    }
    pub fn size_limit(&mut self, _n: usize) -> &mut Self {
        self
    }
    pub fn build(&self) -> Result<Regex, Error> {
        Regex::new(&format!("{}{}", self.flags, self.pat))
    }
}
