//! SMT / SAT back ends. Queries are conjunctions of bits; definitions of cut variables in the cone
//! are always included.

use crate::poly::*;
use std::collections::BTreeSet;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::rc::Rc;
use std::time::{Duration, Instant};

pub enum Answer {
    Sat(Model),
    Unsat,
    Unknown(String),
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub z3_queries: u64,
    pub z3_unsat: u64,
    pub z3_sat: u64,
    pub z3_unknown: u64,
    pub sat_queries: u64,
    pub sat_unsat: u64,
    pub sat_sat: u64,
    pub sat_unknown: u64,
    pub solver_time: f64,
    pub max_query: f64,
}

unsafe extern "C" {
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn poll(fds: *mut PollFd, n: u64, ms: i32) -> i32;
}
#[repr(C)]
struct PollFd {
    fd: i32,
    events: i16,
    revents: i16,
}
/// a child process that dies with us
fn tied(bin: &str) -> Command {
    use std::os::unix::process::CommandExt;
    let mut c = Command::new(bin);
    unsafe {
        c.pre_exec(|| {
            prctl(1, 9, 0, 0, 0);
            Ok(())
        });
    }
    c
}

struct Z3 {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    emitted: FxSet<Var>,
    names: FxMap<Rc<Poly>, u32>,
    nnames: u32,
}

impl Drop for Z3 {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

pub struct Solver {
    z3: Option<Z3>,
    pub stats: Stats,
    pub z3_ms: u64,
    pub sat_s: u64,
    pub dump: Option<String>,
    qn: u64,
}

/// All variables in the cone of the given bits (topological = index order).
pub fn cone(bits: &[&Bit]) -> Vec<Var> {
    CTX.with(|c| {
        let c = c.borrow();
        let mut seen: FxSet<Var> = FxSet::default();
        let mut seen_m: FxSet<Mono> = FxSet::default();
        let mut st: Vec<Var> = vec![];
        let push_poly = |p: &Poly, seen: &mut FxSet<Var>, seen_m: &mut FxSet<Mono>, st: &mut Vec<Var>| {
            for &m in p.t.iter() {
                if seen_m.insert(m) {
                    for &v in c.monos[m as usize].iter() {
                        if seen.insert(v) {
                            st.push(v);
                        }
                    }
                }
            }
        };
        for b in bits {
            if let Bit::P(p) = b {
                push_poly(p, &mut seen, &mut seen_m, &mut st);
            }
        }
        while let Some(v) = st.pop() {
            match &c.vars[v as usize] {
                VarDef::Poly(p) => push_poly(p, &mut seen, &mut seen_m, &mut st),
                VarDef::Tt(t) => {
                    for &x in &t.vars {
                        if seen.insert(x) {
                            st.push(x);
                        }
                    }
                }
                VarDef::Conj(bs) => {
                    for b in bs.iter() {
                        if let Bit::P(p) = b {
                            push_poly(p, &mut seen, &mut seen_m, &mut st)
                        }
                    }
                }
                _ => {}
            }
        }
        let s: BTreeSet<Var> = seen.into_iter().collect();
        s.into_iter().collect()
    })
}

fn smt_mono(c: &Ctx, m: Mono, out: &mut String) {
    use std::fmt::Write;
    let v = &c.monos[m as usize];
    match v.len() {
        0 => out.push_str("true"),
        1 => {
            let _ = write!(out, "x{}", v[0]);
        }
        _ => {
            out.push_str("(and");
            for x in v.iter() {
                let _ = write!(out, " x{x}");
            }
            out.push(')');
        }
    }
}
fn smt_poly(c: &Ctx, p: &Poly, out: &mut String) {
    // balanced xor tree to avoid deep nesting
    fn rec(c: &Ctx, t: &[Mono], out: &mut String) {
        if t.len() == 1 {
            smt_mono(c, t[0], out);
            return;
        }
        let h = t.len() / 2;
        out.push_str("(xor ");
        rec(c, &t[..h], out);
        out.push(' ');
        rec(c, &t[h..], out);
        out.push(')');
    }
    rec(c, &p.t, out)
}
fn smt_bit(c: &Ctx, b: &Bit, out: &mut String) {
    match b {
        Bit::C(x) => out.push_str(if *x { "true" } else { "false" }),
        Bit::P(p) => smt_poly(c, p, out),
    }
}

impl Z3 {
    fn start() -> Z3 {
        let bin = if std::path::Path::new("/usr/local/bin/z3-new").exists() { "z3-new" } else { "z3" };
        let mut child = tied(bin)
            .arg("-in")
            .arg("-smt2")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("z3");
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        let mut z = Z3 { child, inp, out, emitted: FxSet::default(), names: FxMap::default(), nnames: 0 };
        writeln!(z.inp, "(set-option :print-success false)\n(set-logic QF_BV)").unwrap();
        z
    }
    fn define(&mut self, vars: &[Var]) {
        CTX.with(|c| {
            let c = c.borrow();
            let mut s = String::new();
            use std::fmt::Write;
            for &v in vars {
                if !self.emitted.insert(v) {
                    continue;
                }
                let _ = writeln!(s, "(declare-const x{v} Bool)");
                match &c.vars[v as usize] {
                    VarDef::Poly(p) => {
                        let _ = write!(s, "(assert (= x{v} ");
                        smt_poly(&c, p, &mut s);
                        s.push_str("))\n");
                    }
                    VarDef::Tt(t) => {
                        let (nodes, root) = bdd(t);
                        for (i, (x, lo, hi)) in nodes.iter().enumerate() {
                            let r = |k: &usize| match k {
                                0 => "false".to_string(),
                                1 => "true".to_string(),
                                k => format!("b{v}_{}", k - 2),
                            };
                            let _ = writeln!(s, "(define-fun b{v}_{i} () Bool (ite x{x} {} {}))", r(hi), r(lo));
                        }
                        let _ = writeln!(s, "(assert (= x{v} b{v}_{}))", root - 2);
                    }
                    VarDef::Conj(bs) => {
                        let _ = write!(s, "(assert (= x{v} (and");
                        for b in bs.iter() {
                            s.push(' ');
                            smt_bit(&c, b, &mut s);
                        }
                        s.push_str(")))\n");
                    }
                    _ => {}
                }
            }
            self.inp.write_all(s.as_bytes()).unwrap();
        })
    }
    fn lit(&mut self, b: &Bit) -> String {
        match b {
            Bit::C(true) => "true".into(),
            Bit::C(false) => "false".into(),
            Bit::P(p) => {
                let (key, neg) = if p.t[0] == 0 {
                    (Rc::new(Poly { t: p.t[1..].to_vec().into_boxed_slice() }), true)
                } else {
                    (p.clone(), false)
                };
                let id = match self.names.get(&key) {
                    Some(&i) => i,
                    None => {
                        let i = self.nnames;
                        self.nnames += 1;
                        let mut s = format!("(declare-const q{i} Bool)\n(assert (= q{i} ");
                        CTX.with(|c| smt_poly(&c.borrow(), &key, &mut s));
                        s.push_str("))\n");
                        self.inp.write_all(s.as_bytes()).unwrap();
                        self.names.insert(key, i);
                        i
                    }
                };
                if neg {
                    format!("(not q{id})")
                } else {
                    format!("q{id}")
                }
            }
        }
    }
    /// is there output within the time limit?
    fn wait(&mut self, ms: u64) -> bool {
        use std::os::fd::AsRawFd;
        if !self.out.buffer().is_empty() {
            return true;
        }
        let mut p = PollFd { fd: self.out.get_ref().as_raw_fd(), events: 1, revents: 0 };
        unsafe { poll(&mut p, 1, ms as i32) > 0 }
    }
    fn line(&mut self) -> Option<String> {
        let mut s = String::new();
        match self.out.read_line(&mut s) {
            Ok(0) | Err(_) => None,
            Ok(_) => Some(s.trim().to_string()),
        }
    }
}

impl Solver {
    pub fn new() -> Self {
        Solver { z3: None, stats: Stats::default(), z3_ms: 3000, sat_s: 300, dump: None, qn: 0 }
    }

    /// As `check`, with a short time limit and no fall back.
    pub fn quick(&mut self, bits: &[Bit]) -> Answer {
        let mut lits: Vec<&Bit> = vec![];
        for b in bits {
            match b {
                Bit::C(false) => return Answer::Unsat,
                Bit::C(true) => {}
                p => lits.push(p),
            }
        }
        let t0 = Instant::now();
        let vars = cone(&lits);
        let old = self.z3_ms;
        self.z3_ms = 300;
        let ans = self.check_z3(&lits, &vars);
        self.z3_ms = old;
        self.stats.solver_time += t0.elapsed().as_secs_f64();
        if let Answer::Sat(m) = &ans {
            for b in &lits {
                assert!(m.eval(b), "solver model does not satisfy the query");
            }
        }
        ans
    }

    /// Is the conjunction satisfiable?
    pub fn check(&mut self, bits: &[Bit]) -> Answer {
        let mut lits: Vec<&Bit> = vec![];
        for b in bits {
            match b {
                Bit::C(false) => return Answer::Unsat,
                Bit::C(true) => {}
                p => lits.push(p),
            }
        }
        let t0 = Instant::now();
        let vars = cone(&lits);
        let soft: Vec<Var> = CTX.with(|c| vars.iter().copied().filter(|v| c.borrow().soft.contains(v)).collect());
        if !soft.is_empty() {
            // unsatisfiable without the definitions of the products: unsatisfiable
            let mut defs: Vec<VarDef> = vec![];
            CTX.with(|c| {
                let mut c = c.borrow_mut();
                for &v in &soft {
                    defs.push(std::mem::replace(&mut c.vars[v as usize], VarDef::Uninit));
                }
            });
            let vs = cone(&lits);
            let old = std::mem::replace(&mut self.sat_s, 60);
            let ans = self.check_sat(&lits, &vs);
            self.sat_s = old;
            CTX.with(|c| {
                let mut c = c.borrow_mut();
                for (&v, d) in soft.iter().zip(defs) {
                    c.vars[v as usize] = d;
                }
            });
            if let Answer::Unsat = ans {
                self.stats.solver_time += t0.elapsed().as_secs_f64();
                return ans;
            }
        }
        let size: usize = lits.iter().map(|b| b.nterms()).sum::<usize>()
            + CTX.with(|c| {
                let c = c.borrow();
                vars.iter()
                    .map(|&v| match &c.vars[v as usize] {
                        VarDef::Poly(p) => p.t.len(),
                        VarDef::Conj(b) => b.iter().map(|b| b.nterms()).sum(),
                        VarDef::Tt(t) => 4 << (t.vars.len() * 3 / 4),
                        _ => 0,
                    })
                    .sum::<usize>()
            });
        let mut ans = if size < 200_000 { self.check_z3(&lits, &vars) } else { Answer::Unknown("size".into()) };
        if let Answer::Unknown(_) = ans {
            ans = self.check_sat(&lits, &vars);
        }
        let dt = t0.elapsed().as_secs_f64();
        self.stats.solver_time += dt;
        if dt > self.stats.max_query {
            self.stats.max_query = dt;
        }
        if let Answer::Sat(m) = &ans {
            // the model must satisfy the query: guards against encoder bugs
            for b in &lits {
                assert!(m.eval(b), "solver model does not satisfy the query");
            }
        }
        ans
    }

    fn check_z3(&mut self, lits: &[&Bit], vars: &[Var]) -> Answer {
        if self.z3.is_none() {
            self.z3 = Some(Z3::start());
        }
        self.stats.z3_queries += 1;
        let ms = self.z3_ms;
        let z = self.z3.as_mut().unwrap();
        z.define(vars);
        let ls: Vec<String> = lits.iter().map(|b| z.lit(b)).collect();
        writeln!(z.inp, "(set-option :timeout {ms})\n(check-sat-assuming ({}))", ls.join(" ")).unwrap();
        z.inp.flush().unwrap();
        // z3 does not always honour its time limit
        if !z.wait(ms + 2000) {
            self.stats.z3_unknown += 1;
            self.z3 = None;
            return Answer::Unknown("z3 timeout".into());
        }
        let l = z.line();
        match l.as_deref() {
            Some("unsat") => {
                self.stats.z3_unsat += 1;
                Answer::Unsat
            }
            Some("sat") => {
                self.stats.z3_sat += 1;
                let free: Vec<Var> = CTX.with(|c| {
                    let c = c.borrow();
                    vars.iter()
                        .copied()
                        .filter(|&v| !matches!(c.vars[v as usize], VarDef::Poly(_) | VarDef::Conj(_) | VarDef::Tt(_)))
                        .collect()
                });
                let mut m: FxMap<Var, bool> = FxMap::default();
                for ch in free.chunks(500) {
                    let names: Vec<String> = ch.iter().map(|v| format!("x{v}")).collect();
                    writeln!(z.inp, "(get-value ({}))\n(echo \"END\")", names.join(" ")).unwrap();
                    z.inp.flush().unwrap();
                    let mut txt = String::new();
                    loop {
                        match z.line() {
                            Some(l) => {
                                if l.contains("END") {
                                    break;
                                }
                                txt.push_str(&l);
                                txt.push(' ');
                            }
                            None => return Answer::Unknown("z3 died".into()),
                        }
                    }
                    for part in txt.split('(') {
                        let w: Vec<&str> = part.trim_end_matches(|c| c == ')' || c == ' ').split_whitespace().collect();
                        if w.len() == 2 && w[0].starts_with('x') {
                            if let Ok(v) = w[0][1..].parse::<u32>() {
                                m.insert(v, w[1] == "true");
                            }
                        }
                    }
                }
                Answer::Sat(Model::new(m))
            }
            Some("unknown") => {
                self.stats.z3_unknown += 1;
                Answer::Unknown("z3 timeout".into())
            }
            o => {
                self.stats.z3_unknown += 1;
                eprintln!("z3: unexpected {:?}", o);
                self.z3 = None;
                Answer::Unknown("z3 error".into())
            }
        }
    }

    fn check_sat(&mut self, lits: &[&Bit], vars: &[Var]) -> Answer {
        self.stats.sat_queries += 1;
        self.qn += 1;
        let cnf = Cnf::build(lits, vars);
        let dir = std::env::var("GFSYM_TMP").unwrap_or_else(|_| std::env::temp_dir().to_string_lossy().into_owned());
        let path = format!("{dir}/gfsym_{}_{}.cnf", std::process::id(), self.qn);
        cnf.write(&path);
        if let Some(d) = &self.dump {
            let _ = std::fs::copy(&path, format!("{d}_{}.cnf", self.qn));
        }
        let mut kids: Vec<(Child, String)> = vec![];
        let out1 = format!("{path}.o1");
        let out2 = format!("{path}.o2");
        let f1 = std::fs::File::create(&out1).unwrap();
        if let Ok(c) = tied("kissat").args(["-q", &path]).stdout(f1).stderr(Stdio::null()).spawn() {
            kids.push((c, out1.clone()));
        }
        for cad in ["cadical", "/app/lean4-4.33.0/build/release/stage1/bin/cadical"] {
            let f2 = std::fs::File::create(&out2).unwrap();
            if let Ok(c) = tied(cad).args(["-q", &path]).stdout(f2).stderr(Stdio::null()).spawn() {
                kids.push((c, out2.clone()));
                break;
            }
        }
        let t0 = Instant::now();
        let mut res = Answer::Unknown("sat timeout".into());
        'o: loop {
            let mut alive = false;
            for (c, o) in kids.iter_mut() {
                match c.try_wait() {
                    Ok(Some(st)) => match st.code() {
                        Some(10) => {
                            let txt = std::fs::read_to_string(&*o).unwrap();
                            let mut sat_m: FxMap<i32, bool> = FxMap::default();
                            for l in txt.lines() {
                                if let Some(r) = l.strip_prefix("v ") {
                                    for w in r.split_whitespace() {
                                        if let Ok(x) = w.parse::<i32>() {
                                            sat_m.insert(x.abs(), x > 0);
                                        }
                                    }
                                }
                            }
                            let mut m: FxMap<Var, bool> = FxMap::default();
                            CTX.with(|cx| {
                                let cx = cx.borrow();
                                for &v in vars {
                                    if !matches!(cx.vars[v as usize], VarDef::Poly(_) | VarDef::Conj(_) | VarDef::Tt(_)) {
                                        m.insert(v, *sat_m.get(&cnf.var[&v]).unwrap_or(&false));
                                    }
                                }
                            });
                            res = Answer::Sat(Model::new(m));
                            self.stats.sat_sat += 1;
                            break 'o;
                        }
                        Some(20) => {
                            res = Answer::Unsat;
                            self.stats.sat_unsat += 1;
                            break 'o;
                        }
                        _ => {}
                    },
                    Ok(None) => alive = true,
                    _ => {}
                }
            }
            if !alive || t0.elapsed() > Duration::from_secs(self.sat_s) {
                self.stats.sat_unknown += 1;
                break;
            }
            std::thread::sleep(Duration::from_millis(5));
        }
        for (c, _) in kids.iter_mut() {
            let _ = c.kill();
            let _ = c.wait();
        }
        for p in [&path, &out1, &out2] {
            let _ = std::fs::remove_file(p);
        }
        res
    }
}

/// Reduced ordered decision diagram of a truth table: nodes (var, lo, hi), children 0/1 constants
/// or node index + 2.
fn bdd(t: &crate::tt::Tt) -> (Vec<(Var, usize, usize)>, usize) {
    let mut nodes = vec![];
    let mut uniq: FxMap<(Var, usize, usize), usize> = FxMap::default();
    // level 0: constants by index; fold variables from the lowest position
    let mut cur: Vec<usize> = (0..1usize << t.vars.len()).map(|i| t.get(i) as usize).collect();
    for &v in &t.vars {
        cur = cur
            .chunks(2)
            .map(|c| {
                if c[0] == c[1] {
                    return c[0];
                }
                *uniq.entry((v, c[0], c[1])).or_insert_with(|| {
                    nodes.push((v, c[0], c[1]));
                    nodes.len() + 1
                })
            })
            .collect();
    }
    (nodes, cur[0])
}

struct Cnf {
    n: i32,
    cls: Vec<Vec<i32>>,
    var: FxMap<Var, i32>,
    mono: FxMap<Mono, i32>,
    poly: FxMap<Rc<Poly>, i32>,
    pair: FxMap<Vec<i32>, i32>,
}

impl Cnf {
    fn new_var(&mut self) -> i32 {
        self.n += 1;
        self.n
    }
    fn build(lits: &[&Bit], vars: &[Var]) -> Cnf {
        let mut k = Cnf {
            n: 0,
            cls: vec![],
            var: FxMap::default(),
            mono: FxMap::default(),
            poly: FxMap::default(),
            pair: FxMap::default(),
        };
        for &v in vars {
            let x = k.new_var();
            k.var.insert(v, x);
        }
        CTX.with(|c| {
            let c = c.borrow();
            for &v in vars {
                match &c.vars[v as usize] {
                    VarDef::Poly(p) => {
                        let x = k.var[&v];
                        let l = k.enc_poly(&c, p);
                        k.cls.push(vec![-x, l]);
                        k.cls.push(vec![x, -l]);
                    }
                    VarDef::Tt(t) => {
                        let (nodes, root) = bdd(t);
                        let mut lits: Vec<i32> = vec![];
                        for (x, lo, hi) in &nodes {
                            let n = k.new_var();
                            let c = k.var[x];
                            for (g, ch) in [(-c, *hi), (c, *lo)] {
                                match ch {
                                    0 => k.cls.push(vec![g, -n]),
                                    1 => k.cls.push(vec![g, n]),
                                    j => {
                                        let l = lits[j - 2];
                                        k.cls.push(vec![g, -n, l]);
                                        k.cls.push(vec![g, n, -l]);
                                    }
                                }
                            }
                            lits.push(n);
                        }
                        let x = k.var[&v];
                        let l = lits[root - 2];
                        k.cls.push(vec![-x, l]);
                        k.cls.push(vec![x, -l]);
                    }
                    VarDef::Conj(bs) => {
                        let x = k.var[&v];
                        let mut big = vec![x];
                        for b in bs.iter() {
                            if let Bit::P(p) = b {
                                let l = k.enc_poly(&c, p);
                                k.cls.push(vec![-x, l]);
                                big.push(-l);
                            }
                        }
                        k.cls.push(big);
                    }
                    _ => {}
                }
            }
            for b in lits {
                if let Bit::P(p) = b {
                    // conjunctions asserted directly: assert each conjunct
                    let l = k.enc_poly(&c, p);
                    k.cls.push(vec![l]);
                }
            }
        });
        k
    }
    fn enc_mono(&mut self, c: &Ctx, m: Mono) -> i32 {
        let vs = &c.monos[m as usize];
        if vs.len() == 1 {
            return self.var[&vs[0]];
        }
        if let Some(&x) = self.mono.get(&m) {
            return x;
        }
        let x = self.new_var();
        let mut big = vec![x];
        for v in vs.iter() {
            let y = self.var[v];
            self.cls.push(vec![-x, y]);
            big.push(-y);
        }
        self.cls.push(big);
        self.mono.insert(m, x);
        x
    }
    fn enc_poly(&mut self, c: &Ctx, p: &Rc<Poly>) -> i32 {
        if let Some(&x) = self.poly.get(p) {
            return x;
        }
        let neg = p.t[0] == 0;
        let mut q: Vec<i32> = p.t.iter().filter(|&&m| m != 0).map(|&m| self.enc_mono(c, m)).collect();
        // chain in groups of 3
        while q.len() > 1 {
            let mut nq = vec![];
            for ch in q.chunks(3) {
                if ch.len() == 1 {
                    nq.push(ch[0]);
                } else {
                    let key = ch.to_vec();
                    let x = match self.pair.get(&key) {
                        Some(&x) => x,
                        None => {
                            let x = self.new_var();
                            let mut all = ch.to_vec();
                            all.push(x);
                            // xor of all = 0
                            let n = all.len();
                            for bits in 0..(1u32 << n) {
                                if bits.count_ones() % 2 == 1 {
                                    // forbid assignments with odd parity
                                    let cl: Vec<i32> =
                                        (0..n).map(|i| if bits >> i & 1 == 1 { -all[i] } else { all[i] }).collect();
                                    self.cls.push(cl);
                                }
                            }
                            self.pair.insert(key, x);
                            x
                        }
                    };
                    nq.push(x);
                }
            }
            q = nq;
        }
        let r = if neg { -q[0] } else { q[0] };
        self.poly.insert(p.clone(), r);
        r
    }
    fn write(&self, path: &str) {
        let mut s = String::with_capacity(self.cls.len() * 16);
        use std::fmt::Write;
        let _ = writeln!(s, "p cnf {} {}", self.n, self.cls.len());
        for c in &self.cls {
            for l in c {
                let _ = write!(s, "{l} ");
            }
            s.push_str("0\n");
        }
        std::fs::write(path, s).unwrap();
    }
}
