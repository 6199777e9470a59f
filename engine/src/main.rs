mod exec;
mod expr;
mod ir;
mod z3;

use std::collections::BTreeMap;
use std::fmt::Write as _;

pub fn cross_check(c: &mut (String, u64, f64), text: &str, r: z3::Res) {
    use std::io::Write;
    let t0 = std::time::Instant::now();
    let f = format!("{}/x{}.smt2", std::env::temp_dir().display(), std::process::id());
    std::fs::write(&f, format!("(set-logic QF_BV)\n{}\n(check-sat)\n", text)).unwrap();
    let mut parts = c.0.split_whitespace();
    let o = std::process::Command::new(parts.next().unwrap()).args(parts).arg(&f).output();
    let _ = std::fs::remove_file(&f);
    if let Ok(o) = o {
        let s = String::from_utf8_lossy(&o.stdout);
        let a = s.lines().next().unwrap_or("");
        let bad = match r {
            z3::Res::Sat => a == "unsat",
            z3::Res::Unsat => a == "sat",
            _ => false,
        };
        if bad {
            let _ = writeln!(std::io::stderr(), "SOLVER DISAGREEMENT: {:?} vs {}", r, a);
            std::process::exit(77);
        }
    }
    c.1 += 1;
    c.2 += t0.elapsed().as_secs_f64();
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
}

struct Opts {
    ll: String,
    jobs: Vec<(String, u64)>,
    out: String,
    par: usize,
    time: f64,
    tier: u64,
    verbose: bool,
    timeout: u32,
    concrete: Option<String>,
    src: String,
    dump: Option<String>,
    cross: Option<String>,
    profile: bool,
}

fn main() {
    // deep expression recursion needs a large stack
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    let c = h.join().unwrap_or(3);
    std::process::exit(c);
}

fn real_main() -> i32 {
    let mut o = Opts {
        ll: String::new(),
        jobs: vec![],
        out: String::new(),
        par: 8,
        time: 600.0,
        tier: 0,
        verbose: false,
        timeout: 60000,
        concrete: None,
        src: "/repo/".into(),
        dump: None,
        cross: None,
        profile: false,
    };
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut v = || it.next().expect("argument value");
        match a.as_str() {
            "--ll" => o.ll = v(),
            "--job" => {
                // name or name:a..b or name:k
                let s = v();
                match s.split_once(':') {
                    None => o.jobs.push((s, 0)),
                    Some((n, r)) => {
                        if let Some((a, b)) = r.split_once("..") {
                            for k in a.parse::<u64>().unwrap()..b.parse().unwrap() {
                                o.jobs.push((n.to_string(), k));
                            }
                        } else {
                            o.jobs.push((n.to_string(), r.parse().unwrap()));
                        }
                    }
                }
            }
            "--out" => o.out = v(),
            "--par" => o.par = v().parse().unwrap(),
            "--time" => o.time = v().parse().unwrap(),
            "--tier" => o.tier = v().parse().unwrap(),
            "--solver-timeout" => o.timeout = v().parse().unwrap(),
            "--concrete" => o.concrete = Some(v()),
            "--src" => o.src = v(),
            "--dump" => o.dump = Some(v()),
            "--cross" => o.cross = Some(v()),
            "-v" => o.verbose = true,
            "--profile" => o.profile = true,
            _ => {
                eprintln!("unknown argument {}", a);
                return 2;
            }
        }
    }
    let m = ir::Module::load(&o.ll);
    let start = std::time::Instant::now();
    // what every job needs is done once, before forking
    let meta = Meta::new(&m.text);
    let base = exec::Base::new(&m);
    if o.jobs.len() > 2 {
        std::panic::set_hook(Box::new(|_| ()));
        for i in 0..m.funcs.len() {
            // what cannot be parsed is reported by the job that needs it
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.body(i as u32)));
        }
        let _ = std::panic::take_hook();
    }
    std::fs::create_dir_all(&o.out).unwrap();
    if o.par <= 1 {
        for (i, (n, c)) in o.jobs.iter().enumerate() {
            let left = o.time - start.elapsed().as_secs_f64();
            let t = run_job(&m, &base, &meta, n, *c, &o, left);
            std::fs::write(format!("{}/{}.json", o.out, i), &t).unwrap();
        }
        return 0;
    }
    let stop = std::env::var_os("SYMEX_STOP").is_some();
    let mut next = 0;
    let mut running: BTreeMap<i32, usize> = BTreeMap::new();
    let mut failed = 0;
    while next < o.jobs.len() || !running.is_empty() {
        while next < o.jobs.len() && running.len() < o.par {
            let left = o.time - start.elapsed().as_secs_f64();
            let pid = unsafe { fork() };
            if pid == 0 {
                let (n, c) = &o.jobs[next];
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let t = run_job(&m, &base, &meta, n, *c, &o, left);
                    std::fs::write(format!("{}/{}.json", o.out, next), &t).unwrap();
                }));
                unsafe { _exit(if r.is_ok() { 0 } else { 3 }) }
            }
            running.insert(pid, next);
            next += 1;
        }
        let mut st = 0;
        let pid = unsafe { waitpid(-1, &mut st, 0) };
        if let Some(j) = running.remove(&pid) {
            if st != 0 {
                failed += 1;
                let (n, c) = &o.jobs[j];
                eprintln!("job {}:{} died with status {:#x}", n, c, st);
                let t = format!("{{\"harness\":{},\"case\":{},\"crashed\":{}}}", js(n), c, st);
                std::fs::write(format!("{}/{}.json", o.out, j), t).unwrap();
            } else if stop && std::fs::read_to_string(format!("{}/{}.json", o.out, j)).is_ok_and(|t| t.contains("\"violations\":[{")) {
                next = o.jobs.len(); // development aid: the first violation suffices
            }
        }
    }
    if failed > 0 {
        4
    } else {
        0
    }
}

fn run_job(m: &ir::Module, base: &exec::Base, meta: &Meta, name: &str, case: u64, o: &Opts, left: f64) -> String {
    let t0 = std::time::Instant::now();
    let mut e = exec::Engine::new(m, base, o.timeout);
    e.case = case;
    e.tier = o.tier;
    e.verbose = o.verbose;
    e.lim.time = left;
    e.z.dump = o.dump.clone();
    e.z.cross = o.cross.clone().map(|c| (c, 0, 0.0));
    if o.profile {
        e.profile.insert((0, 0, 0), 0);
    }
    if let Some(c) = &o.concrete {
        e.concrete = Some(parse_inputs(&std::fs::read_to_string(c).unwrap()));
    }
    let f = match m.fmap.get(name) {
        Some(f) => *f,
        None => return format!("{{\"harness\":{},\"case\":{},\"crashed\":\"no such harness\"}}", js(name), case),
    };
    e.run(f);
    // source functions covered
    let (funcs, ir_funcs) = coverage(m, meta, &e, &o.src);
    if o.profile {
        let mut v: Vec<_> = e.profile.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for ((f, b, p), n) in v.iter().take(25) {
            let body = m.body(*f).unwrap();
            let d = body.blocks[*b as usize].dbg.get(*p as usize).copied().unwrap_or(0);
            eprintln!("{:8} {} blk{} {}", n, m.funcs[*f as usize].name, b, dbg_where(m, d));
        }
    }
    let mut s = String::new();
    let _ = write!(s, "{{\"harness\":{},\"case\":{}", js(name), case);
    let st = &e.st;
    let _ = write!(
        s,
        ",\"paths\":{},\"completed\":{},\"assumed\":{},\"panics\":{},\"panics_ok\":{},\"forks\":{},\"merges\":{},\"instrs\":{},\"asserts\":{},\"asserts_trivial\":{},\"asserts_solver\":{},\"unary\":{},\"cached\":{},\"modelhits\":{},\"unknown\":{},\"maxdepth\":{}",
        st.paths, st.completed, st.assumed, st.panics, st.panics_ok, st.forks, st.merges, st.instrs, st.asserts, st.asserts_trivial, st.asserts_solver, st.unary, st.cached, st.modelhits, st.unknown, e.maxdepth
    );
    let _ = write!(
        s,
        ",\"queries\":{},\"sat\":{},\"unsat\":{},\"solver_time\":{:.4},\"max_query\":{:.4},\"nodes\":{},\"time\":{:.3}",
        e.z.queries,
        e.z.sat,
        e.z.unsat,
        e.z.time,
        e.z.max_time,
        e.x.nodes.len(),
        t0.elapsed().as_secs_f64()
    );
    if let Some(c) = &e.z.cross {
        let _ = write!(s, ",\"cross_checked\":{},\"cross_time\":{:.3}", c.1, c.2);
    }
    let _ = write!(s, ",\"incomplete\":{{");
    for (i, (k, v)) in e.incomplete.iter().enumerate() {
        let _ = write!(s, "{}{}:{}", if i > 0 { "," } else { "" }, js(k), v);
    }
    let _ = write!(s, "}},\"covers\":{{");
    for (i, (k, v)) in e.covers.iter().enumerate() {
        let _ = write!(s, "{}{}:{}", if i > 0 { "," } else { "" }, js(k), v);
    }
    let _ = write!(s, "}},\"violations\":[");
    for (i, v) in e.viol.iter().enumerate() {
        let _ = write!(s, "{}{{\"kind\":{},\"msg\":{},\"loc\":{},\"notes\":[", if i > 0 { "," } else { "" }, js(&v.kind), js(&v.msg), js(&v.loc));
        for (j, n) in v.notes.iter().enumerate() {
            let _ = write!(s, "{}{}", if j > 0 { "," } else { "" }, js(n));
        }
        let _ = write!(s, "],\"inputs\":[");
        for (j, (id, b)) in v.inputs.iter().enumerate() {
            let h: String = b.iter().map(|x| format!("{:02x}", x)).collect();
            let _ = write!(s, "{}[{},\"{}\"]", if j > 0 { "," } else { "" }, id, h);
        }
        let _ = write!(s, "]}}");
    }
    let _ = write!(s, "],\"samples\":[");
    for (i, (cov, ins)) in e.samples.iter().enumerate() {
        let _ = write!(s, "{}{{\"covers\":[", if i > 0 { "," } else { "" });
        for (j, n) in cov.iter().enumerate() {
            let _ = write!(s, "{}{}", if j > 0 { "," } else { "" }, js(n));
        }
        let _ = write!(s, "],\"inputs\":[");
        for (j, (id, b)) in ins.iter().enumerate() {
            let h: String = b.iter().map(|x| format!("{:02x}", x)).collect();
            let _ = write!(s, "{}[{},\"{}\"]", if j > 0 { "," } else { "" }, id, h);
        }
        let _ = write!(s, "]}}");
    }
    let _ = write!(s, "],\"functions\":[");
    for (i, f) in funcs.iter().enumerate() {
        let _ = write!(s, "{}{}", if i > 0 { "," } else { "" }, js(f));
    }
    let _ = write!(s, "],\"ir_functions\":{}}}", ir_funcs);
    s
}

fn parse_inputs(t: &str) -> Vec<(u32, Vec<u8>)> {
    // lines: id hex
    t.lines()
        .filter(|l| !l.trim().is_empty() && !l.starts_with('#'))
        .map(|l| {
            let mut p = l.split_whitespace();
            let id = p.next().unwrap().parse().unwrap();
            let h = p.next().unwrap_or("");
            let b = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
            (id, b)
        })
        .collect()
}

/// metadata lookups for coverage reports: only the few node kinds needed
struct Meta<'a> {
    lines: Vec<&'a str>,
}
impl<'a> Meta<'a> {
    fn new(text: &'a str) -> Meta<'a> {
        let mut lines: Vec<&str> = vec![];
        let st = match text.find("\n!0 = ") {
            Some(p) => p,
            None => text.len(),
        };
        for l in text[st..].lines() {
            if l.starts_with('!') {
                if let Some((n, r)) = l[1..].split_once(" = ") {
                    if let Ok(n) = n.parse::<usize>() {
                        if lines.len() <= n {
                            lines.resize(n + 1, "");
                        }
                        lines[n] = r;
                    }
                }
            }
        }
        Meta { lines }
    }
    fn field(&self, n: u32, k: &str) -> Option<u32> {
        let l = self.lines.get(n as usize)?;
        let p = l.find(&format!("{}: !", k))?;
        let r = &l[p + k.len() + 3..];
        let e = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
        r[..e].parse().ok()
    }
    fn text(&self, n: u32, k: &str) -> Option<String> {
        let l = self.lines.get(n as usize)?;
        let p = l.find(&format!("{}: \"", k))?;
        let r = &l[p + k.len() + 3..];
        let e = r.find('"')?;
        Some(r[..e].to_string())
    }
    fn num(&self, n: u32, k: &str) -> Option<u32> {
        let l = self.lines.get(n as usize)?;
        let p = l.find(&format!("{}: ", k))?;
        let r = &l[p + k.len() + 2..];
        let e = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
        r[..e].parse().ok()
    }
    fn subprogram(&self, scope: u32) -> Option<u32> {
        let mut s = scope;
        for _ in 0..64 {
            let l = self.lines.get(s as usize)?;
            if l.contains("DISubprogram(") {
                return Some(s);
            }
            s = self.field(s, "scope")?;
        }
        None
    }
    fn name(&self, sp: u32) -> String {
        let mut n = self.text(sp, "name").unwrap_or_default();
        let mut s = self.field(sp, "scope");
        let mut k = 0;
        while let Some(x) = s {
            k += 1;
            if k > 8 {
                break;
            }
            match self.lines.get(x as usize) {
                Some(l) if l.contains("DINamespace(") || l.contains("DICompositeType(") => {
                    if let Some(t) = self.text(x, "name") {
                        n = format!("{}::{}", t, n);
                    }
                    s = self.field(x, "scope");
                }
                _ => break,
            }
        }
        n
    }
}

fn dbg_where(m: &ir::Module, d: u32) -> String {
    let meta = Meta::new(&m.text);
    let mut out = String::new();
    let mut d = d;
    for _ in 0..6 {
        let line = meta.num(d, "line").unwrap_or(0);
        let sc = match meta.field(d, "scope") {
            Some(s) => s,
            None => break,
        };
        if let Some(sp) = meta.subprogram(sc) {
            let _ = write!(out, "{}:{} < ", meta.name(sp), line);
        }
        match meta.field(d, "inlinedAt") {
            Some(i) => d = i,
            None => break,
        }
    }
    out
}

fn coverage(m: &ir::Module, meta: &Meta, e: &exec::Engine, src: &str) -> (Vec<String>, usize) {
    let mut ids: std::collections::BTreeSet<u32> = Default::default();
    let mut nf = 0;
    for (i, v) in e.visited.iter().enumerate() {
        if let Some(v) = v {
            nf += 1;
            let b = match m.body(i as u32) {
                Some(b) => b,
                None => continue,
            };
            for (k, seen) in v.iter().enumerate() {
                if *seen {
                    for &d in &b.blocks[k].dbg {
                        if d != 0 {
                            ids.insert(d);
                        }
                    }
                }
            }
        }
    }
    let mut sps: std::collections::BTreeSet<u32> = Default::default();
    let mut seen: std::collections::HashSet<u32> = Default::default();
    let mut stack: Vec<u32> = ids.into_iter().collect();
    let mut scopes: std::collections::HashSet<u32> = Default::default();
    while let Some(d) = stack.pop() {
        if !seen.insert(d) {
            continue;
        }
        if let Some(s) = meta.field(d, "scope") {
            if scopes.insert(s) {
                if let Some(sp) = meta.subprogram(s) {
                    sps.insert(sp);
                }
            }
        }
        if let Some(i) = meta.field(d, "inlinedAt") {
            stack.push(i);
        }
    }
    let mut out: std::collections::BTreeSet<String> = Default::default();
    for sp in sps {
        if let Some(f) = meta.field(sp, "file") {
            let fname = meta.text(f, "filename").unwrap_or_default();
            let dir = meta.text(f, "directory").unwrap_or_default();
            let full = if fname.starts_with('/') { fname.clone() } else { format!("{}/{}", dir, fname) };
            if full.starts_with(src) {
                let line = meta.num(sp, "line").unwrap_or(0);
                let nm = meta.name(sp);
                let nm = nm.split('<').next().unwrap_or(&nm).to_string();
                out.insert(format!("{} ({}:{})", nm, &full[src.len()..].trim_start_matches('/'), line));
            }
        }
    }
    (out.into_iter().collect(), nf)
}
