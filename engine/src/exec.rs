//! The symbolic executor.

use crate::ir::*;
use crate::mem::*;
use crate::ops::*;
use crate::poly::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub block: u32,
    pub ip: usize,
    pub regs: Vec<Val>,
    pub allocas: Vec<u64>,
    pub ret: Option<u32>,
    pub norm: Option<u32>,
}

#[derive(Clone)]
pub struct UfCall {
    pub tag: u64,
    pub inj: bool,
    pub inp: Vec<Bit>,
    pub out: Vec<Bit>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub pc: Vec<Bit>,
    pub pcset: FxSet<Bit>,
    pub models: Vec<Rc<Model>>,
    pub inputs: Vec<Vec<Bit>>,
    pub ufs: Vec<UfCall>,
    pub panic_ok: bool,
    pub depth: u32,
    pub asserts: u32,
    /// axioms of uninterpreted functions (part of every query)
    pub ax: Vec<Bit>,
    pub axset: FxSet<Bit>,
    pub nassume: u32,
    pub merge_off: bool,
    /// merge points of the arms being executed: (frame depth, block or EXIT)
    pub stop: Vec<(usize, u32)>,
    pub join_vals: Vec<Val>,
    pub spec: u32,
}

impl State {
    #[inline]
    fn top(&mut self) -> &mut Frame {
        Rc::make_mut(self.frames.last_mut().unwrap())
    }
}

#[derive(Debug)]
pub enum Stop {
    Done,
    Assume,
    PanicOk,
    Violation(String),
    Error(String),
    /// internal: arm reached its merge point
    Joined,
    /// internal: arm cannot be merged
    NoMerge,
}

type R<T> = Result<T, Stop>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Spec {
    Unknown,
    Normal,
    Panic,
    Builtin,
}

#[derive(Default)]
pub struct Report {
    pub paths: u64,
    pub paths_assume_ended: u64,
    pub paths_panic_ok: u64,
    pub steps: u64,
    pub forks: u64,
    pub merges: u64,
    pub merge_fails: u64,
    pub asserts: u64,
    pub asserts_trivial: u64,
    pub asserts_solver: u64,
    pub assumes: u64,
    pub covers: BTreeMap<u64, u64>,
    pub violation: Option<(String, Vec<u8>, Vec<String>)>,
    pub uf_table: Vec<(u64, Vec<u8>, Vec<u8>)>,
    pub error: Option<String>,
    pub sym_bytes: u64,
    pub uf_calls: u64,
    pub observed: Vec<String>,
    pub table_loads: u64,
    pub assert_on_path: bool,
}

pub struct Exec<'m> {
    pub m: &'m Module,
    pub solver: Solver,
    pub rep: Report,
    work: Vec<State>,
    spec: Vec<Spec>,
    pub executed: BTreeSet<u32>,
    pub deadline: Instant,
    pub max_steps: u64,
    pub max_paths: u64,
    pub concrete_inputs: Option<Vec<u8>>,
    cin_pos: usize,
    pub next_input_byte: u32,
    uf_memo: FxMap<(u64, Vec<Bit>), Vec<Bit>>,
    n_uf: u32,
    pub trace: bool,
    pub eager_prove: bool,
    nomerge: FxMap<(u32, u32), u32>,
    arm_budget: u64,
}

/// stand-in value of an uninterpreted function when no model fixes it
pub fn uf_default(tag: u64, inp: &[u8], n: usize) -> Vec<u8> {
    let mut h = 0xcbf29ce484222325u64 ^ tag.wrapping_mul(0x9E3779B97F4A7C15);
    for &b in inp {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    let mut o = vec![];
    while o.len() < n {
        h = h.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = h;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^= z >> 31;
        o.extend_from_slice(&z.to_le_bytes());
    }
    o.truncate(n);
    o
}

pub fn demangle(n: &str) -> String {
    // legacy mangling
    if let Some(r) = n.strip_prefix("_ZN") {
        let mut out: Vec<String> = vec![];
        let b = r.as_bytes();
        let mut i = 0;
        while i < b.len() && b[i].is_ascii_digit() {
            let mut k = 0usize;
            while i < b.len() && b[i].is_ascii_digit() {
                k = k * 10 + (b[i] - b'0') as usize;
                i += 1;
            }
            if i + k > b.len() {
                break;
            }
            out.push(r[i..i + k].to_string());
            i += k;
        }
        if let Some(l) = out.last() {
            if l.len() == 17 && l.starts_with('h') {
                out.pop();
            }
        }
        let mut s = out.join("::");
        for (a, b) in [
            ("$LT$", "<"),
            ("$GT$", ">"),
            ("$RF$", "&"),
            ("$C$", ","),
            ("$u20$", " "),
            ("$u5b$", "["),
            ("$u5d$", "]"),
            ("$u7b$", "{"),
            ("$u7d$", "}"),
            ("$u3b$", ";"),
            ("$LP$", "("),
            ("$RP$", ")"),
            ("$BP$", "*"),
            ("$u27$", "'"),
            ("..", "::"),
        ] {
            s = s.replace(a, b);
        }
        return s;
    }
    n.to_string()
}

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module) -> Self {
        Exec {
            m,
            solver: Solver::new(),
            rep: Report::default(),
            work: vec![],
            spec: vec![Spec::Unknown; m.funcs.len()],
            executed: BTreeSet::new(),
            deadline: Instant::now() + std::time::Duration::from_secs(3600),
            max_steps: u64::MAX,
            max_paths: u64::MAX,
            concrete_inputs: None,
            cin_pos: 0,
            next_input_byte: 0,
            uf_memo: FxMap::default(),
            n_uf: 0,
            trace: false,
            eager_prove: true,
            nomerge: FxMap::default(),
            arm_budget: 0,
        }
    }

    pub fn run(&mut self, entry: &str) {
        let id = match self.m.fmap.get(entry) {
            Some(&i) => i,
            None => {
                self.rep.error = Some(format!("no such harness: {entry}"));
                return;
            }
        };
        let f = self.m.func(id);
        let mut objs = vec![Slot::Dead; FIRST_GLOBAL_OBJ as usize];
        for _ in &self.m.globals {
            objs.push(Slot::Lazy);
        }
        let mut st = State {
            frames: vec![Rc::new(Frame {
                regs: vec![Val::U; f.nregs as usize],
                f,
                block: 0,
                ip: 0,
                allocas: vec![],
                ret: None,
                norm: None,
            })],
            mem: Mem { objs },
            pc: vec![],
            pcset: FxSet::default(),
            models: vec![
                Rc::new(Model::new(FxMap::default())),
                Rc::new(Model::random(1)),
                Rc::new(Model::random(2)),
                Rc::new(Model::random(3)),
            ],
            inputs: vec![],
            ufs: vec![],
            panic_ok: false,
            depth: 0,
            asserts: 0,
            ax: vec![],
            axset: FxSet::default(),
            nassume: 0,
            merge_off: self.concrete_inputs.is_some(),
            stop: vec![],
            join_vals: vec![],
            spec: 0,
        };
        self.executed.insert(id);
        // constructors that run before main (the registrations of the inventory crate); returning from one
        // (re)starts the frame below it at its entry block
        for name in self.m.ctors() {
            if let Some(&c) = self.m.fmap.get(&name) {
                let f = self.m.func(c);
                let regs = vec![Val::U; f.nregs as usize];
                st.frames.push(Rc::new(Frame { f, block: 0, ip: 0, regs, allocas: vec![], ret: None, norm: Some(0) }));
            }
        }
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            let r = self.run_path(&mut st);
            self.rep.paths += 1;
            match r {
                Stop::Done => {
                    if st.asserts > 0 {
                        self.rep.assert_on_path = true;
                    }
                }
                Stop::Assume => self.rep.paths_assume_ended += 1,
                Stop::PanicOk => {
                    self.rep.paths_panic_ok += 1;
                    if st.asserts > 0 {
                        self.rep.assert_on_path = true;
                    }
                }
                Stop::Violation(msg) => {
                    let bytes = self.model_bytes(&mut st);
                    match bytes {
                        Some(b) => {
                            let stack = self.stack(&st);
                            self.rep.violation = Some((msg, b, stack));
                        }
                        None => self.rep.error = Some(format!("violation without model: {msg}")),
                    }
                    return;
                }
                Stop::Joined | Stop::NoMerge => {
                    self.rep.error = Some("internal: arm signal at top level".into());
                    return;
                }
                Stop::Error(e) => {
                    self.rep.error = Some(format!("{e}\n  at {}", self.stack(&st).join("\n     ")));
                    return;
                }
            }
            if self.rep.paths >= self.max_paths {
                self.rep.error = Some("path limit".into());
                return;
            }
        }
    }

    fn stack(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(12).map(|f| demangle(&self.m.funcs[f.f.id as usize].name)).collect()
    }

    fn model_bytes(&mut self, st: &mut State) -> Option<Vec<u8>> {
        let m = match st.models.first() {
            Some(m) => m.clone(),
            None => match self.check_pc(st) {
                Answer::Sat(m) => Rc::new(m),
                _ => return None,
            },
        };
        let mut out = vec![];
        for i in &st.inputs {
            for ch in i.chunks(8) {
                let mut b = 0u8;
                for (k, x) in ch.iter().enumerate() {
                    if m.eval(x) {
                        b |= 1 << k;
                    }
                }
                out.push(b);
            }
        }
        let ev = |bits: &[Bit]| -> Vec<u8> {
            bits.chunks(8)
                .map(|ch| ch.iter().enumerate().fold(0u8, |b, (k, x)| if m.eval(x) { b | 1 << k } else { b }))
                .collect()
        };
        self.rep.uf_table = st.ufs.iter().map(|u| (u.tag, ev(&u.inp), ev(&u.out))).collect();
        Some(out)
    }

    // ----- path condition -----

    fn add_pc(&mut self, st: &mut State, b: &Bit) {
        if let Bit::C(_) = b {
            return;
        }
        // split conjunctions
        if let Bit::P(p) = b {
            if p.t.len() == 1 {
                let parts: Option<Rc<Vec<Bit>>> = with(|c| {
                    let vs = &c.monos[p.t[0] as usize];
                    if vs.len() == 1 {
                        if let VarDef::Conj(bs) = &c.vars[vs[0] as usize] {
                            return Some(bs.clone());
                        }
                    }
                    None
                });
                if let Some(bs) = parts {
                    for x in bs.iter() {
                        self.add_pc(st, x);
                    }
                    st.pcset.insert(b.clone());
                    return;
                }
            }
        }
        if st.pcset.insert(b.clone()) {
            st.pc.push(b.clone());
        }
    }

    fn feasible(&mut self, st: &mut State, b: &Bit) -> R<Option<Rc<Model>>> {
        for m in &st.models {
            if m.eval(b) {
                return Ok(Some(m.clone()));
            }
        }
        let sb = simplify(b, 1 << 16);
        if let Bit::C(false) = sb {
            return Ok(None);
        }
        if let Bit::C(false) = crate::poly::simplify_with(&sb, 1 << 22, true) {
            return Ok(None);
        }
        match crate::poly::small_sat(&sb) {
            Some(None) => return Ok(None),
            Some(Some(vals)) => {
                let m = Model::new(vals);
                if st.pc.iter().all(|x| m.eval(x)) && st.ax.iter().all(|x| m.eval(x)) && m.eval(b) {
                    let m = Rc::new(m);
                    st.models.push(m.clone());
                    if st.models.len() > 24 {
                        st.models.remove(0);
                    }
                    return Ok(Some(m));
                }
            }
            None => {}
        }
        if std::env::var("GFSYM_DBG").is_ok() {
            eprintln!("UNSIMPLIFIED {}", crate::poly::show(&sb, 3).chars().take(3000).collect::<String>());
        }
        let mut q = st.pc.clone();
        q.extend(st.ax.iter().cloned());
        q.push(b.clone());
        match self.solver.check(&q) {
            Answer::Sat(m) => {
                let m = Rc::new(m);
                st.models.push(m.clone());
                if st.models.len() > 24 {
                    st.models.remove(0);
                }
                Ok(Some(m))
            }
            Answer::Unsat => Ok(None),
            Answer::Unknown(e) => Err(Stop::Error(format!("solver gave no answer ({e})"))),
        }
    }

    fn check_pc(&mut self, st: &State) -> Answer {
        let mut q = st.pc.clone();
        q.extend(st.ax.iter().cloned());
        self.solver.check(&q)
    }

    /// Quick, incomplete feasibility test: Some(false) only when infeasible.
    fn maybe_feasible(&mut self, st: &mut State, b: &Bit) -> bool {
        for m in &st.models {
            if m.eval(b) {
                return true;
            }
        }
        let sb = simplify(b, 1 << 12);
        if let Bit::C(false) = sb {
            return false;
        }
        match crate::poly::small_sat(&sb) {
            Some(None) => return false,
            Some(Some(vals)) => {
                let m = Model::new(vals);
                if st.pc.iter().all(|x| m.eval(x)) && st.ax.iter().all(|x| m.eval(x)) {
                    st.models.push(Rc::new(m));
                    if st.models.len() > 24 {
                        st.models.remove(0);
                    }
                    return true;
                }
            }
            None => {}
        }
        let mut q = st.pc.clone();
        q.extend(st.ax.iter().cloned());
        q.push(b.clone());
        match self.solver.quick(&q) {
            Answer::Sat(m) => {
                st.models.push(Rc::new(m));
                if st.models.len() > 24 {
                    st.models.remove(0);
                }
                true
            }
            Answer::Unsat => false,
            Answer::Unknown(_) => true,
        }
    }

    fn known(&self, st: &State, b: &Bit) -> Option<bool> {
        match b {
            Bit::C(x) => Some(*x),
            _ => {
                if st.pcset.contains(b) {
                    Some(true)
                } else if st.pcset.contains(&b.not()) {
                    Some(false)
                } else {
                    None
                }
            }
        }
    }

    /// Decide a symbolic condition on this path; forks the state when both values are feasible.
    /// Must be called before the current instruction has had any effect.
    fn decide(&mut self, st: &mut State, b: &Bit) -> R<bool> {
        if let Some(x) = self.known(st, b) {
            return Ok(x);
        }
        let t = self.feasible(st, b)?.is_some();
        let nb = b.not();
        let f = self.feasible(st, &nb)?.is_some();
        match (t, f) {
            (true, true) => {
                if !st.stop.is_empty() {
                    return Err(Stop::NoMerge);
                }
                self.rep.forks += 1;
                let mut other = st.clone();
                other.depth += 1;
                other.models.retain(|m| m.eval(&nb));
                self.add_pc(&mut other, &nb);
                self.work.push(other);
                st.depth += 1;
                st.models.retain(|m| m.eval(b));
                self.add_pc(st, b);
                Ok(true)
            }
            (true, false) => {
                self.add_pc(st, b);
                Ok(true)
            }
            (false, true) => {
                self.add_pc(st, &nb);
                Ok(false)
            }
            (false, false) => {
                if st.spec > 0 {
                    return Err(Stop::Assume);
                }
                Err(Stop::Error("infeasible path".into()))
            }
        }
    }

    fn concretize(&mut self, st: &mut State, v: &Val, w: u32) -> R<u128> {
        match v {
            Val::I(x) => return Ok(*x),
            Val::V(_) => return Err(Stop::Error("concretize aggregate".into())),
            _ => {}
        }
        let bits = sbits(v, w);
        loop {
            let mut x = 0u128;
            let m = match st.models.first() {
                Some(m) => m.clone(),
                None => match self.check_pc(st) {
                    Answer::Sat(m) => {
                        let m = Rc::new(m);
                        st.models.push(m.clone());
                        m
                    }
                    _ => return Err(Stop::Error("no model".into())),
                },
            };
            for (i, b) in bits.iter().enumerate() {
                if m.eval(b) {
                    x |= 1 << i;
                }
            }
            let c = eq_bits(&bits, &sbits(&Val::I(x), w));
            if self.decide(st, &c)? {
                return Ok(x);
            }
        }
    }

    // ----- memory -----

    fn materialize(&mut self, st: &mut State, addr: u64) {
        let id = (addr >> 32) as usize;
        if let Some(Slot::Lazy) = st.mem.objs.get(id) {
            let gi = id - FIRST_GLOBAL_OBJ as usize;
            let ty = self.m.globals[gi].ty.clone().unwrap();
            let mut o = Obj::new(ty.size(), false, ty.align());
            for i in 0..o.data.len() {
                o.set_conc(i, true);
            }
            if let Some(v) = self.m.global_init(gi) {
                write_val(&mut o, 0, &v, &ty);
            }
            st.mem.objs[id] = Slot::Live(Rc::new(o));
        }
    }

    fn check(&mut self, st: &mut State, addr: u64, n: u64) -> R<()> {
        self.materialize(st, addr);
        match st.mem.obj(addr) {
            Some(o) if (addr & 0xffff_ffff) + n <= o.size => Ok(()),
            Some(o) => Err(Stop::Violation(format!(
                "memory: out-of-bounds access of {n} bytes at offset {} of an object of {} bytes",
                addr & 0xffff_ffff,
                o.size
            ))),
            None => Err(Stop::Violation(format!("memory: access of {n} bytes at invalid address {addr:#x}"))),
        }
    }

    fn valid(&mut self, st: &mut State, addr: u64, n: u64) -> bool {
        if (addr >> 32) as usize >= st.mem.objs.len() {
            return false;
        }
        self.materialize(st, addr);
        match st.mem.obj(addr) {
            Some(o) => (addr & 0xffff_ffff) + n <= o.size,
            None => false,
        }
    }

    fn load_at(&mut self, st: &mut State, addr: u64, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Struct(f, _, offs, _, _) => {
                let mut v = vec![];
                for (i, t) in f.iter().enumerate() {
                    v.push(self.load_at(st, addr + offs[i], t)?);
                }
                Ok(Val::V(Rc::new(v)))
            }
            Ty::Arr(n, t) => {
                let s = t.size();
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load_at(st, addr + i * s, t)?);
                }
                Ok(Val::V(Rc::new(v)))
            }
            Ty::Vec(n, t) if t.bits() % 8 == 0 => {
                let s = t.size();
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n as u64 {
                    v.push(self.load_at(st, addr + i * s, t)?);
                }
                Ok(Val::V(Rc::new(v)))
            }
            _ => {
                let n = ty.store_size();
                if n == 0 {
                    return Ok(Val::U);
                }
                self.check(st, addr, n)?;
                let off = (addr & 0xffff_ffff) as usize;
                let o = st.mem.obj(addr).unwrap();
                let n = n as usize;
                if n <= 16 && o.all_conc(off, n) && !matches!(ty, Ty::Vec(..)) {
                    let mut b = [0u8; 16];
                    b[..n].copy_from_slice(&o.data[off..off + n]);
                    return Ok(Val::I(u128::from_le_bytes(b) & mask(ty.bits())));
                }
                let mut any_init = false;
                let bs: Vec<B> = (off..off + n).map(|i| o.get(i)).collect();
                for b in &bs {
                    if !matches!(b, B::U) {
                        any_init = true;
                    }
                }
                if !any_init {
                    return Ok(match ty {
                        Ty::Vec(..) => self.m.undef(ty),
                        _ => Val::U,
                    });
                }
                let mut bits: Vec<Bit> = Vec::with_capacity(n * 8);
                for (i, b) in bs.into_iter().enumerate() {
                    match b {
                        B::C(x) => bits.extend((0..8).map(|k| Bit::C(x >> k & 1 == 1))),
                        B::S(s) => bits.extend(s.iter().cloned()),
                        B::U => {
                            let s: [Bit; 8] = std::array::from_fn(|_| fresh(VarDef::Uninit));
                            bits.extend(s.iter().cloned());
                            st.mem.obj_mut(addr).unwrap().put(off + i, B::S(Rc::new(s)));
                        }
                    }
                }
                bits.truncate(ty.bits() as usize);
                Ok(unflat(&bits, ty))
            }
        }
    }

    fn store_at(&mut self, st: &mut State, addr: u64, v: &Val, ty: &Ty) -> R<()> {
        let n = ty.store_size();
        if n == 0 {
            return Ok(());
        }
        self.check(st, addr, n)?;
        let off = (addr & 0xffff_ffff) as usize;
        let o = st.mem.obj_mut(addr).unwrap();
        write_val(o, off, v, ty);
        Ok(())
    }

    /// Decompose a symbolic address into atoms: (atoms, per-bit (atom, neg) or const)
    fn addr_atoms(&self, bits: &[Bit]) -> (Vec<Bit>, Vec<Result<bool, (usize, bool)>>) {
        let mut atoms: Vec<Bit> = vec![];
        let mut idx: FxMap<Bit, usize> = FxMap::default();
        let mut out = vec![];
        for b in bits {
            match b {
                Bit::C(x) => out.push(Ok(*x)),
                Bit::P(p) => {
                    let (key, neg) = if p.t[0] == 0 { (b.not(), true) } else { (b.clone(), false) };
                    let k = *idx.entry(key.clone()).or_insert_with(|| {
                        atoms.push(key);
                        atoms.len() - 1
                    });
                    out.push(Err((k, neg)));
                }
            }
        }
        (atoms, out)
    }

    fn addr_of_combo(map: &[Result<bool, (usize, bool)>], c: usize) -> u64 {
        let mut a = 0u64;
        for (i, m) in map.iter().enumerate() {
            let b = match m {
                Ok(x) => *x,
                Err((k, n)) => (c >> k & 1 == 1) ^ n,
            };
            if b {
                a |= 1 << i;
            }
        }
        a
    }

    fn load(&mut self, st: &mut State, p: &Val, ty: &Ty) -> R<Val> {
        if let Val::I(a) = p {
            return self.load_at(st, *a as u64, ty);
        }
        let bits = sbits(p, 64);
        let (atoms, map) = self.addr_atoms(&bits);
        if atoms.len() > 16 || matches!(ty, Ty::Struct(..) | Ty::Arr(..)) {
            let a = self.concretize(st, p, 64)? as u64;
            return self.load_at(st, a, ty);
        }
        self.rep.table_loads += 1;
        let n = ty.store_size();
        let combos = 1usize << atoms.len();
        let mut addrs = vec![];
        let mut valid_t = vec![];
        let mut all_valid = true;
        for c in 0..combos {
            let a = Self::addr_of_combo(&map, c);
            let v = self.valid(st, a, n);
            all_valid &= v;
            valid_t.push(Bit::C(v));
            addrs.push(v.then_some(a));
        }
        if !all_valid {
            let v = table_lookup(&atoms, vec![valid_t]).pop().unwrap();
            self.require(st, &v, "memory: symbolic address out of bounds")?;
        }
        let w = ty.bits() as usize;
        let mut tables: Vec<Vec<Bit>> = vec![Vec::with_capacity(combos); w];
        for a in addrs {
            match a {
                Some(a) => {
                    let v = self.load_at(st, a, ty)?;
                    let b = flat_bits(&v, ty);
                    for (i, x) in b.into_iter().enumerate() {
                        tables[i].push(x);
                    }
                }
                None => {
                    for t in tables.iter_mut() {
                        t.push(ZERO);
                    }
                }
            }
        }
        let r = table_lookup(&atoms, tables);
        Ok(unflat(&r, ty))
    }

    fn store(&mut self, st: &mut State, p: &Val, v: &Val, ty: &Ty) -> R<()> {
        if let Val::I(a) = p {
            return self.store_at(st, *a as u64, v, ty);
        }
        let bits = sbits(p, 64);
        let (atoms, map) = self.addr_atoms(&bits);
        if atoms.len() > 8 || matches!(ty, Ty::Struct(..) | Ty::Arr(..)) {
            let a = self.concretize(st, p, 64)? as u64;
            return self.store_at(st, a, v, ty);
        }
        let n = ty.store_size();
        let combos = 1usize << atoms.len();
        let mut addrs = vec![];
        let mut valid_t = vec![];
        let mut all_valid = true;
        for c in 0..combos {
            let a = Self::addr_of_combo(&map, c);
            let ok = self.valid(st, a, n);
            all_valid &= ok;
            valid_t.push(Bit::C(ok));
            addrs.push(ok.then_some(a));
        }
        if !all_valid {
            let ok = table_lookup(&atoms, vec![valid_t]).pop().unwrap();
            self.require(st, &ok, "memory: symbolic store address out of bounds")?;
        }
        let nb = flat_bits(v, ty);
        for (c, a) in addrs.into_iter().enumerate() {
            if let Some(a) = a {
                let cond =
                    conj(atoms.iter().enumerate().map(|(k, x)| if c >> k & 1 == 1 { x.clone() } else { x.not() }).collect());
                let old = self.load_at(st, a, ty)?;
                let ob = flat_bits(&old, ty);
                let r: Vec<Bit> = nb.iter().zip(&ob).map(|(x, y)| cond.ite(x, y)).collect();
                let rv = unflat(&r, ty);
                self.store_at(st, a, &rv, ty)?;
            }
        }
        Ok(())
    }

    /// A safety condition that must hold on this path.
    fn require(&mut self, st: &mut State, b: &Bit, msg: &str) -> R<()> {
        match self.known(st, b) {
            Some(true) => return Ok(()),
            Some(false) => return Err(Stop::Violation(msg.into())),
            None => {}
        }
        let nb = b.not();
        match self.feasible(st, &nb)? {
            None => {
                self.add_pc(st, b);
                Ok(())
            }
            Some(m) => {
                st.models = vec![m];
                self.add_pc(st, &nb);
                Err(Stop::Violation(msg.into()))
            }
        }
    }

    fn read_bytes(&mut self, st: &mut State, addr: u64, n: u64) -> R<Vec<B>> {
        if n == 0 {
            return Ok(vec![]);
        }
        self.check(st, addr, n)?;
        let o = st.mem.obj(addr).unwrap();
        let off = (addr & 0xffff_ffff) as usize;
        Ok((off..off + n as usize).map(|i| o.get(i)).collect())
    }
    fn write_bytes(&mut self, st: &mut State, addr: u64, b: Vec<B>) -> R<()> {
        if b.is_empty() {
            return Ok(());
        }
        self.check(st, addr, b.len() as u64)?;
        let o = st.mem.obj_mut(addr).unwrap();
        let off = (addr & 0xffff_ffff) as usize;
        for (i, x) in b.into_iter().enumerate() {
            o.put(off + i, x);
        }
        Ok(())
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        self.check(st, s, n)?;
        self.check(st, d, n)?;
        let so = st.mem.obj(s).unwrap().clone();
        let off = (s & 0xffff_ffff) as usize;
        let doff = (d & 0xffff_ffff) as usize;
        if so.all_conc(off, n as usize) {
            let dst = st.mem.obj_mut(d).unwrap();
            dst.put_conc(doff, &so.data[off..off + n as usize]);
        } else {
            let dst = st.mem.obj_mut(d).unwrap();
            for i in 0..n as usize {
                dst.put(doff + i, so.get(off + i));
            }
        }
        Ok(())
    }
    fn bytes_bits(&self, b: &[B]) -> Vec<Bit> {
        let mut o = Vec::with_capacity(b.len() * 8);
        for x in b {
            match x {
                B::C(c) => o.extend((0..8).map(|k| Bit::C(c >> k & 1 == 1))),
                B::S(s) => o.extend(s.iter().cloned()),
                B::U => o.extend((0..8).map(|_| fresh(VarDef::Uninit))),
            }
        }
        o
    }
    fn bits_bytes(&self, b: &[Bit]) -> Vec<B> {
        b.chunks(8)
            .map(|ch| {
                let mut x = 0u8;
                let mut c = true;
                for (k, v) in ch.iter().enumerate() {
                    match v {
                        Bit::C(true) => x |= 1 << k,
                        Bit::C(false) => {}
                        _ => c = false,
                    }
                }
                if c {
                    B::C(x)
                } else {
                    B::S(Rc::new(std::array::from_fn(|i| ch[i].clone())))
                }
            })
            .collect()
    }

    // ----- interpreter -----

    #[inline]
    fn op(&self, fr: &Frame, o: &Op) -> Val {
        match o {
            Op::R(r) => fr.regs[*r as usize].clone(),
            Op::K(v) => v.clone(),
        }
    }

    fn goto(&self, st: &mut State, b: u32) -> R<()> {
        let at_join = matches!(st.stop.last(), Some(&(d, j)) if d == st.frames.len() && j == b);
        let fr = st.top();
        let f = fr.f.clone();
        let from = fr.block;
        let blk = &f.blocks[b as usize];
        let get = |fr: &Frame, o: &Op| match o {
            Op::R(r) => fr.regs[*r as usize].clone(),
            Op::K(v) => v.clone(),
        };
        if at_join {
            let vals = blk.phis.iter().map(|(_, m, _)| get(fr, &m[&from])).collect();
            st.join_vals = vals;
            return Err(Stop::Joined);
        }
        match blk.phis.len() {
            0 => {}
            1 => {
                let (d, m, _) = &blk.phis[0];
                let v = get(fr, &m[&from]);
                fr.regs[*d as usize] = v;
            }
            _ => {
                let vals: Vec<Val> = blk.phis.iter().map(|(_, m, _)| get(fr, &m[&from])).collect();
                for ((d, ..), v) in blk.phis.iter().zip(vals) {
                    fr.regs[*d as usize] = v;
                }
            }
        }
        fr.block = b;
        fr.ip = 0;
        Ok(())
    }

    /// Continue at a merge point with the phi (or return) values in `join_vals`.
    fn enter_join(&mut self, st: &mut State, join: u32) -> R<()> {
        if matches!(st.stop.last(), Some(&(d, j)) if d == st.frames.len() && j == join) {
            return Err(Stop::Joined);
        }
        let vals = std::mem::take(&mut st.join_vals);
        if join == EXIT {
            return self.do_ret(st, vals.into_iter().next());
        }
        let fr = st.top();
        let f = fr.f.clone();
        for ((d, ..), v) in f.blocks[join as usize].phis.iter().zip(vals) {
            fr.regs[*d as usize] = v;
        }
        fr.block = join;
        fr.ip = 0;
        Ok(())
    }

    fn do_ret(&mut self, st: &mut State, v: Option<Val>) -> R<()> {
        let fr = st.frames.pop().unwrap();
        for a in &fr.allocas {
            st.mem.objs[(*a >> 32) as usize] = Slot::Dead;
        }
        if st.frames.is_empty() {
            return Err(Stop::Done);
        }
        let up = st.top();
        if let (Some(d), Some(v)) = (fr.ret, v) {
            up.regs[d as usize] = v;
        }
        match fr.norm {
            Some(b) => self.goto(st, b),
            None => {
                up.ip += 1;
                Ok(())
            }
        }
    }

    fn run_arm(&mut self, st: &mut State, to: u32) -> Stop {
        if let Err(s) = self.goto(st, to) {
            return s;
        }
        loop {
            if self.arm_budget == 0 {
                return Stop::NoMerge;
            }
            self.arm_budget -= 1;
            self.rep.steps += 1;
            if self.arm_budget & 0xfff == 0 && Instant::now() > self.deadline {
                return Stop::Error("time limit".into());
            }
            if let Err(s) = self.step(st) {
                return s;
            }
        }
    }

    /// Execute both sides of a branch up to the post-dominator and merge the two states.
    /// Ok(false): not merged, state untouched.
    fn try_merge(&mut self, st: &mut State, c: &Bit, a: u32, b: u32) -> R<bool> {
        if st.merge_off {
            return Ok(false);
        }
        let depth = st.frames.len();
        let (f, block) = {
            let fr = st.frames.last().unwrap();
            (fr.f.clone(), fr.block)
        };
        let join = f.ipdom(block);
        if join == NOPD || self.nomerge.get(&(f.id, block)).copied().unwrap_or(0) >= 2 {
            return Ok(false);
        }
        let nc = c.not();
        let top = st.stop.is_empty();
        if top {
            self.arm_budget = 40_000;
        }
        let mut ends: Vec<(State, bool)> = vec![];
        let mut pad = st.mem.objs.len();
        for (cond, to) in [(c, a), (&nc, b)] {
            let mut s = st.clone();
            s.stop.push((depth, join));
            s.spec += 1;
            s.models.retain(|m| m.eval(cond));
            self.add_pc(&mut s, cond);
            while s.mem.objs.len() < pad {
                s.mem.objs.push(Slot::Dead);
            }
            let r = self.run_arm(&mut s, to);
            pad = s.mem.objs.len();
            match r {
                Stop::Joined => ends.push((s, true)),
                Stop::Assume => {}
                Stop::PanicOk => {
                    self.rep.paths_panic_ok += 1;
                }
                Stop::Violation(msg) => {
                    let ok = match s.models.first() {
                        Some(m) => Some(m.clone()),
                        None => match self.check_pc(&s) {
                            Answer::Sat(m) => Some(Rc::new(m)),
                            Answer::Unsat => None,
                            Answer::Unknown(e) => {
                                return Err(Stop::Error(format!("solver gave no answer ({e}) on: {msg}")))
                            }
                        },
                    };
                    if let Some(m) = ok {
                        s.models = vec![m];
                        *st = s;
                        return Err(Stop::Violation(msg));
                    }
                }
                Stop::Error(e) if e == "time limit" => return Err(Stop::Error(e)),
                Stop::NoMerge | Stop::Error(_) | Stop::Done => {
                    *self.nomerge.entry((f.id, block)).or_insert(0) += 1;
                    self.rep.merge_fails += 1;
                    return Ok(false);
                }
            }
        }
        let n = ends.len();
        if n == 0 {
            return Err(Stop::Assume);
        }
        let (mut s1, _) = ends.remove(0);
        s1.stop.pop();
        s1.spec -= 1;
        if n == 1 {
            *st = s1;
            self.enter_join(st, join)?;
            return Ok(true);
        }
        let (mut s2, _) = ends.pop().unwrap();
        s2.stop.pop();
        s2.spec -= 1;
        if s1.nassume != st.nassume
            || s2.nassume != st.nassume
            || s1.inputs.len() != st.inputs.len()
            || s2.inputs.len() != st.inputs.len()
            || s1.panic_ok != s2.panic_ok
            || !self.merge_into(st, &mut s1, s2, c, join, &f)
        {
            *self.nomerge.entry((f.id, block)).or_insert(0) += 1;
            self.rep.merge_fails += 1;
            return Ok(false);
        }
        self.rep.merges += 1;
        // path condition: back to the common prefix
        s1.pc = st.pc.clone();
        s1.pcset = st.pcset.clone();
        s1.models = st.models.iter().filter(|m| s1.ax.iter().all(|a| m.eval(a))).cloned().collect();
        *st = s1;
        self.enter_join(st, join)?;
        Ok(true)
    }

    fn merge_into(&mut self, base: &State, s1: &mut State, s2: State, c: &Bit, join: u32, f: &Rc<Func>) -> bool {
        // memory
        let n = s1.mem.objs.len().max(s2.mem.objs.len());
        let mut diff = 0usize;
        let mut todo = vec![];
        for i in 0..n {
            let d = Slot::Dead;
            let (x, y) = (s1.mem.objs.get(i).unwrap_or(&d), s2.mem.objs.get(i).unwrap_or(&d));
            match (x, y) {
                (Slot::Live(a), Slot::Live(b)) => {
                    if !Rc::ptr_eq(a, b) {
                        if a.size != b.size {
                            return false;
                        }
                        let mut ds = vec![];
                        for k in 0..a.size as usize {
                            if !a.same(b, k) {
                                ds.push(k);
                            }
                        }
                        diff += ds.len();
                        if diff > 2048 {
                            return false;
                        }
                        if !ds.is_empty() {
                            todo.push((i, ds));
                        }
                    }
                }
                (Slot::Lazy, Slot::Live(_)) | (Slot::Dead, Slot::Live(_)) => todo.push((i, vec![])),
                _ => {}
            }
        }
        while s1.mem.objs.len() < n {
            s1.mem.objs.push(Slot::Dead);
        }
        for (i, ds) in todo {
            if ds.is_empty() {
                s1.mem.objs[i] = s2.mem.objs[i].clone();
                continue;
            }
            let b = match &s2.mem.objs[i] {
                Slot::Live(b) => b.clone(),
                _ => unreachable!(),
            };
            if let Slot::Live(a) = &mut s1.mem.objs[i] {
                let a = Rc::make_mut(a);
                for k in ds {
                    let (x, y) = (a.get(k), b.get(k));
                    let m = match (&x, &y) {
                        (B::U, B::U) => B::U,
                        // one side leaves it uninitialised: any value may be used there
                        (B::U, v) | (v, B::U) => v.clone(),
                        _ => {
                            let xb = self.bytes_bits(&[x]);
                            let yb = self.bytes_bits(&[y]);
                            let r: Vec<Bit> = xb.iter().zip(&yb).map(|(p, q)| c.ite(p, q)).collect();
                            self.bits_bytes(&r).pop().unwrap()
                        }
                    };
                    a.put(k, m);
                }
            }
        }
        // phi / return values
        let tys: Vec<TyRef> = if join == EXIT {
            match f.blocks.iter().find_map(|b| match b.insts.last() {
                Some(Inst::Ret(Some((t, _)))) => Some(t.clone()),
                _ => None,
            }) {
                Some(t) => vec![t],
                None => vec![],
            }
        } else {
            f.blocks[join as usize].phis.iter().map(|p| p.2.clone()).collect()
        };
        let v1 = std::mem::take(&mut s1.join_vals);
        s1.join_vals = v1.iter().zip(&s2.join_vals).zip(&tys).map(|((x, y), t)| select(c, x, y, t)).collect();
        // allocas made inside the arms (same frame)
        let extra: Vec<u64> = {
            let (a1, a2) = (&s1.frames.last().unwrap().allocas, &s2.frames.last().unwrap().allocas);
            a2.iter().filter(|x| !a1.contains(x)).copied().collect()
        };
        if !extra.is_empty() {
            s1.top().allocas.extend(extra);
        }
        // uninterpreted functions
        let new2: Vec<UfCall> = s2.ufs[base.ufs.len()..].to_vec();
        for a in s2.ax[base.ax.len()..].to_vec() {
            if s1.axset.insert(a.clone()) {
                s1.ax.push(a);
            }
        }
        for u in new2 {
            self.add_uf(s1, u);
        }
        s1.asserts = s1.asserts.max(s2.asserts);
        true
    }

    fn run_path(&mut self, st: &mut State) -> Stop {
        let mut cnt = 0u32;
        loop {
            cnt += 1;
            if cnt & 0xfff == 0 {
                if Instant::now() > self.deadline {
                    return Stop::Error("time limit".into());
                }
                if self.rep.steps > self.max_steps {
                    return Stop::Error("step limit".into());
                }
            }
            self.rep.steps += 1;
            match self.step(st) {
                Ok(()) => {}
                Err(s) => return s,
            }
        }
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let fr = st.top();
        let f = fr.f.clone();
        let inst = &f.blocks[fr.block as usize].insts[fr.ip];
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let v = $v;
                let fr = st.top();
                fr.regs[*$d as usize] = v;
                fr.ip += 1;
                Ok(())
            }};
        }
        match inst {
            Inst::Bin(op, t, d, a, b) => {
                let (a, b) = (self.op(fr, a), self.op(fr, b));
                set!(d, vbin(*op, t, &a, &b))
            }
            Inst::ICmp(p, t, d, a, b) => {
                let (a, b) = (self.op(fr, a), self.op(fr, b));
                set!(d, vicmp(*p, t, &a, &b))
            }
            Inst::FCmp(p, t, d, a, b) => {
                let (a, b) = (self.op(fr, a), self.op(fr, b));
                let (x, y) = match (&a, &b) {
                    (Val::I(x), Val::I(y)) => {
                        if **t == Ty::F32 {
                            (f32::from_bits(*x as u32) as f64, f32::from_bits(*y as u32) as f64)
                        } else {
                            (f64::from_bits(*x as u64), f64::from_bits(*y as u64))
                        }
                    }
                    _ => return Err(Stop::Error("symbolic float".into())),
                };
                let un = x.is_nan() || y.is_nan();
                let r = match p.as_str() {
                    "oeq" => x == y,
                    "ogt" => x > y,
                    "oge" => x >= y,
                    "olt" => x < y,
                    "ole" => x <= y,
                    "one" => !un && x != y,
                    "ord" => !un,
                    "uno" => un,
                    "ueq" => un || x == y,
                    "ugt" => un || x > y,
                    "uge" => un || x >= y,
                    "ult" => un || x < y,
                    "ule" => un || x <= y,
                    "une" => x != y,
                    _ => return Err(Stop::Error("fcmp".into())),
                };
                set!(d, Val::I(r as u128))
            }
            Inst::Select(t, d, c, a, b, vecc) => {
                let (c, a, b) = (self.op(fr, c), self.op(fr, a), self.op(fr, b));
                if *vecc {
                    let et = match &**t {
                        Ty::Vec(_, e) => e.clone(),
                        _ => return Err(Stop::Error("vector select".into())),
                    };
                    let n = match &**t {
                        Ty::Vec(n, _) => *n as usize,
                        _ => 0,
                    };
                    let (cs, xs, ys) = (lanes(&c, n), lanes(&a, n), lanes(&b, n));
                    let r = (0..n)
                        .map(|i| {
                            let cb = sbits(&cs[i], 1).pop().unwrap();
                            select(&cb, &xs[i], &ys[i], &et)
                        })
                        .collect();
                    return set!(d, Val::V(Rc::new(r)));
                }
                let cb = match &c {
                    Val::I(x) => Bit::C(x & 1 == 1),
                    o => sbits(o, 1).pop().unwrap(),
                };
                let cb = match self.known(st, &cb) {
                    Some(x) => Bit::C(x),
                    None => cb,
                };
                set!(d, select(&cb, &a, &b, t))
            }
            Inst::Cast(op, ft, tt, d, a) => {
                let a = self.op(fr, a);
                set!(d, cast(*op, ft, tt, &a))
            }
            Inst::Gep(d, base, c, idx) => {
                let b = self.op(fr, base);
                let mut acc = b;
                if *c != 0 {
                    acc = bin(BinOp::Add, 64, &acc, &Val::I(*c as u64 as u128));
                }
                for (o, s, w) in idx {
                    let i = self.op(fr, o);
                    let i = match (&i, *w) {
                        (_, 64) => i,
                        (Val::I(x), w) => Val::I(sext128(*x, w) as u64 as u128),
                        (_, w) if w < 64 => cast(CastOp::SExt, &Ty::Int(w), &Ty::Int(64), &i),
                        (_, w) => cast(CastOp::Trunc, &Ty::Int(w), &Ty::Int(64), &i),
                    };
                    let sc = if *s == 1 { i } else { bin(BinOp::Mul, 64, &i, &Val::I(*s as u64 as u128)) };
                    acc = bin(BinOp::Add, 64, &acc, &sc);
                }
                set!(d, acc)
            }
            Inst::Load(t, d, p) => {
                let p = self.op(fr, p);
                let v = self.load(st, &p, t)?;
                set!(d, v)
            }
            Inst::Store(t, v, p) => {
                let (v, p) = (self.op(fr, v), self.op(fr, p));
                self.store(st, &p, &v, t)?;
                st.top().ip += 1;
                Ok(())
            }
            Inst::Alloca(d, size, n, al) => {
                let n = self.op(fr, n);
                let n = self.concretize(st, &n, 64)? as u64;
                let a = st.mem.alloc(size * n, false, *al);
                st.top().allocas.push(a);
                set!(d, Val::I(a as u128))
            }
            Inst::Br(b) => self.goto(st, *b),
            Inst::CondBr(c, a, b) => {
                let c = self.op(fr, c);
                let cb = match &c {
                    Val::I(x) => Bit::C(x & 1 == 1),
                    o => {
                        let b = sbits(o, 1).pop().unwrap();
                        if let Val::U = o {
                            return Err(Stop::Violation("branch on uninitialised value".into()));
                        }
                        b
                    }
                };
                if let Some(x) = self.known(st, &cb) {
                    return self.goto(st, if x { *a } else { *b });
                }
                let (a, b) = (*a, *b);
                if !st.merge_off {
                    if !self.maybe_feasible(st, &cb) {
                        let nb = cb.not();
                        self.add_pc(st, &nb);
                        return self.goto(st, b);
                    }
                    let nb = cb.not();
                    if !self.maybe_feasible(st, &nb) {
                        self.add_pc(st, &cb);
                        return self.goto(st, a);
                    }
                    if self.try_merge(st, &cb, a, b)? {
                        return Ok(());
                    }
                    if !st.stop.is_empty() {
                        return Err(Stop::NoMerge);
                    }
                }
                let t = self.decide(st, &cb)?;
                self.goto(st, if t { a } else { b })
            }
            Inst::Switch(w, v, d, cases) => {
                let v = self.op(fr, v);
                match &v {
                    Val::I(x) => {
                        for (k, b) in cases {
                            if k == x {
                                return self.goto(st, *b);
                            }
                        }
                        self.goto(st, *d)
                    }
                    Val::U => Err(Stop::Violation("switch on uninitialised value".into())),
                    _ => {
                        let bits = sbits(&v, *w);
                        for (k, b) in cases {
                            let c = eq_bits(&bits, &sbits(&Val::I(*k), *w));
                            if self.decide(st, &c)? {
                                return self.goto(st, *b);
                            }
                        }
                        self.goto(st, *d)
                    }
                }
            }
            Inst::Ret(v) => {
                let v = v.as_ref().map(|(_, v)| self.op(fr, v));
                if matches!(st.stop.last(), Some(&(d, j)) if d == st.frames.len() && j == EXIT) {
                    st.join_vals = v.into_iter().collect();
                    return Err(Stop::Joined);
                }
                self.do_ret(st, v)
            }
            Inst::Unreachable => Err(Stop::Violation("reached unreachable code (undefined behaviour)".into())),
            Inst::ExtractValue(d, v, ix, _) => {
                let mut v = self.op(fr, v);
                for i in ix {
                    v = match &v {
                        Val::V(x) => x[*i as usize].clone(),
                        _ => Val::U,
                    };
                }
                set!(d, v)
            }
            Inst::InsertValue(d, v, e, ix, t) => {
                let v = self.op(fr, v);
                let e = self.op(fr, e);
                let r = insert_val(self.m, &v, &e, ix, t);
                set!(d, r)
            }
            Inst::ExtractElement(d, t, v, i) => {
                let (v, i) = (self.op(fr, v), self.op(fr, i));
                let n = match &**t {
                    Ty::Vec(n, _) => *n as usize,
                    _ => 0,
                };
                let k = self.concretize(st, &i, 64)? as usize;
                let l = lanes(&v, n);
                set!(d, if k < n { l[k].clone() } else { Val::U })
            }
            Inst::InsertElement(d, t, v, e, i) => {
                let (v, e, i) = (self.op(fr, v), self.op(fr, e), self.op(fr, i));
                let n = match &**t {
                    Ty::Vec(n, _) => *n as usize,
                    _ => 0,
                };
                let k = self.concretize(st, &i, 64)? as usize;
                let mut l = lanes(&v, n);
                if k < n {
                    l[k] = e;
                }
                set!(d, Val::V(Rc::new(l)))
            }
            Inst::Shuffle(d, t, a, b, m) => {
                let n = match &**t {
                    Ty::Vec(n, _) => *n as usize,
                    _ => 0,
                };
                let (a, b) = (lanes(&self.op(fr, a), n), lanes(&self.op(fr, b), n));
                let r = m
                    .iter()
                    .map(|x| match x {
                        None => Val::U,
                        Some(k) => {
                            let k = *k as usize;
                            if k < n {
                                a[k].clone()
                            } else {
                                b[k - n].clone()
                            }
                        }
                    })
                    .collect();
                set!(d, Val::V(Rc::new(r)))
            }
            Inst::Rmw(d, op, t, p, v) => {
                let (p, v) = (self.op(fr, p), self.op(fr, v));
                let old = self.load(st, &p, t)?;
                let w = t.bits();
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => bin(BinOp::Add, w, &old, &v),
                    "sub" => bin(BinOp::Sub, w, &old, &v),
                    "and" => bin(BinOp::And, w, &old, &v),
                    "or" => bin(BinOp::Or, w, &old, &v),
                    "xor" => bin(BinOp::Xor, w, &old, &v),
                    "umax" => select(&icmp(Pred::Ugt, w, &old, &v), &old, &v, t),
                    "umin" => select(&icmp(Pred::Ult, w, &old, &v), &old, &v, t),
                    "max" => select(&icmp(Pred::Sgt, w, &old, &v), &old, &v, t),
                    "min" => select(&icmp(Pred::Slt, w, &old, &v), &old, &v, t),
                    _ => return Err(Stop::Error(format!("atomicrmw {op}"))),
                };
                self.store(st, &p, &new, t)?;
                set!(d, old)
            }
            Inst::CmpXchg(d, t, p, a, b) => {
                let (p, a, b) = (self.op(fr, p), self.op(fr, a), self.op(fr, b));
                let old = self.load(st, &p, t)?;
                let c = icmp(Pred::Eq, t.bits(), &old, &a);
                let ok = self.decide(st, &c)?;
                if ok {
                    self.store(st, &p, &b, t)?;
                }
                set!(d, Val::V(Rc::new(vec![old, Val::I(ok as u128)])))
            }
            Inst::Copy(d, v) => {
                let v = self.op(fr, v);
                set!(d, v)
            }
            Inst::Nop => {
                fr.ip += 1;
                Ok(())
            }
            Inst::Call(d, callee, args, rt, norm) => {
                let fid = match callee {
                    Callee::F(f) => *f,
                    Callee::Ind(o) => {
                        let v = self.op(fr, o);
                        if let (Op::K(Val::U), Val::U) = (o, &v) {
                            // inline asm
                            let z = self.m.zero(rt);
                            let fr = st.top();
                            if let Some(d) = d {
                                fr.regs[*d as usize] = z;
                            }
                            fr.ip += 1;
                            return Ok(());
                        }
                        let a = self.concretize(st, &v, 64)? as u64;
                        if a >> 32 != FUNC_OBJ || a & 15 != 0 {
                            return Err(Stop::Violation(format!("call of invalid function pointer {a:#x}")));
                        }
                        ((a & 0xffff_ffff) / 16 - 1) as u32
                    }
                };
                let fr = st.frames.last().unwrap();
                let argv: Vec<Val> = args.iter().map(|(_, o)| self.op(fr, o)).collect();
                if self.m.funcs[fid as usize].name == "_alloca_trampoline" {
                    // C helper of the stackalloc crate: calls back with a block that lives for the call
                    let n = self.concretize(st, &argv[0], 64)? as u64;
                    let cb = self.concretize(st, &argv[1], 64)? as u64;
                    if cb >> 32 != FUNC_OBJ || cb & 15 != 0 {
                        return Err(Stop::Violation(format!("call of invalid function pointer {cb:#x}")));
                    }
                    let p = st.mem.alloc(n, false, 16);
                    let cb = ((cb & 0xffff_ffff) / 16 - 1) as u32;
                    let r = self.call(st, cb, vec![Val::I(p as u128), argv[2].clone()], args, *d, rt, *norm);
                    st.top().allocas.push(p);
                    return r;
                }
                self.call(st, fid, argv, args, *d, rt, *norm)
            }
        }
    }

    fn classify(&mut self, fid: u32) -> Spec {
        let s = self.spec[fid as usize];
        if s != Spec::Unknown {
            return s;
        }
        let fd = &self.m.funcs[fid as usize];
        let n = &fd.name;
        let s = if n.contains("4core9panicking")
            || n.contains("3std9panicking")
            || n.contains("18handle_alloc_error")
            || n.contains("17capacity_overflow")
            || n.contains("12handle_error")
            || n.contains("13unwrap_failed")
            || n.contains("13expect_failed")
            || n.contains("begin_panic")
            || n.contains("rust_begin_unwind")
            || n.contains("slice_start_index_len_fail")
            || n.contains("slice_end_index_len_fail")
            || n.contains("slice_index_order_fail")
            || n.contains("len_mismatch_fail")
            || n.contains("16slice_error_fail")
        {
            // panic_count helpers are not panics
            if n.contains("panic_count") || n.contains("9panicking9panicking") {
                Spec::Normal
            } else {
                Spec::Panic
            }
        } else if fd.body.is_none() {
            Spec::Builtin
        } else if matches!(n.as_str(), "memcpy" | "memmove" | "memset" | "memcmp" | "bcmp" | "strlen")
            || n.contains("17compiler_builtins")
        {
            if matches!(n.as_str(), "memcpy" | "memmove" | "memset" | "memcmp" | "bcmp" | "strlen") {
                Spec::Builtin
            } else {
                Spec::Normal
            }
        } else {
            Spec::Normal
        };
        self.spec[fid as usize] = s;
        s
    }

    fn panic_msg(&mut self, st: &mut State, fid: u32, args: &[Val]) -> String {
        let name = demangle(&self.m.funcs[fid as usize].name);
        let mut s = format!("panic in {name}");
        // Arguments { pieces: &[&str], .. } behind the first pointer, or (&str ptr, len)
        let mut try_str = |me: &mut Self, st: &mut State, p: u64, l: u64| -> Option<String> {
            if l == 0 || l > 300 || !me.valid(st, p, l) {
                return None;
            }
            let b = me.read_bytes(st, p, l).ok()?;
            let v: Vec<u8> = b.iter().map(|x| if let B::C(c) = x { *c } else { b'?' }).collect();
            if v.iter().all(|c| *c >= 32 && *c < 127) {
                Some(String::from_utf8_lossy(&v).into_owned())
            } else {
                None
            }
        };
        if let (Some(Val::I(p)), Some(Val::I(l))) = (args.first(), args.get(1)) {
            if let Some(x) = try_str(self, st, *p as u64, *l as u64) {
                s += &format!(": {x}");
                return s;
            }
        }
        if let Some(Val::I(p)) = args.first() {
            if self.valid(st, *p as u64, 16) {
                if let (Ok(Val::I(pp)), Ok(Val::I(np))) =
                    (self.load_at(st, *p as u64, &Ty::Ptr), self.load_at(st, *p as u64 + 8, &Ty::Int(64)))
                {
                    for i in 0..(np as u64).min(4) {
                        if self.valid(st, pp as u64 + 16 * i, 16) {
                            if let (Ok(Val::I(sp)), Ok(Val::I(sl))) = (
                                self.load_at(st, pp as u64 + 16 * i, &Ty::Ptr),
                                self.load_at(st, pp as u64 + 16 * i + 8, &Ty::Int(64)),
                            ) {
                                if let Some(x) = try_str(self, st, sp as u64, sl as u64) {
                                    s += &format!(": {x}");
                                }
                            }
                        }
                    }
                }
            }
        }
        s
    }

    fn call(
        &mut self,
        st: &mut State,
        fid: u32,
        argv: Vec<Val>,
        args: &[(TyRef, Op)],
        d: Option<u32>,
        rt: &TyRef,
        norm: Option<u32>,
    ) -> R<()> {
        match self.classify(fid) {
            Spec::Panic => {
                if st.panic_ok {
                    return Err(Stop::PanicOk);
                }
                let msg = self.panic_msg(st, fid, &argv);
                Err(Stop::Violation(msg))
            }
            Spec::Normal => {
                if self.executed.insert(fid) && self.trace {
                    eprintln!("call {}", demangle(&self.m.funcs[fid as usize].name));
                }
                if st.frames.len() > 4000 {
                    return Err(Stop::Error("call depth".into()));
                }
                let f = self.m.func(fid);
                let mut regs = vec![Val::U; f.nregs as usize];
                for (p, v) in f.params.iter().zip(argv) {
                    regs[*p as usize] = v;
                }
                st.frames.push(Rc::new(Frame { f, block: 0, ip: 0, regs, allocas: vec![], ret: d, norm }));
                Ok(())
            }
            _ => {
                let m = self.m;
                let name = m.funcs[fid as usize].name.as_str();
                let r = self.builtin(st, name, &argv, args, rt)?;
                let fr = st.top();
                if let Some(d) = d {
                    fr.regs[d as usize] = r;
                }
                match norm {
                    Some(b) => self.goto(st, b),
                    None => {
                        fr.ip += 1;
                        Ok(())
                    }
                }
            }
        }
    }

    fn new_input(&mut self, n: u64) -> Vec<Bit> {
        let mut out = Vec::with_capacity(n as usize * 8);
        for _ in 0..n {
            if let Some(ci) = &self.concrete_inputs {
                let b = ci.get(self.cin_pos).copied().unwrap_or(0);
                self.cin_pos += 1;
                out.extend((0..8).map(|k| Bit::C(b >> k & 1 == 1)));
            } else {
                let byte = self.next_input_byte;
                self.next_input_byte += 1;
                for bit in 0..8 {
                    out.push(fresh(VarDef::Input { byte, bit }));
                }
            }
        }
        self.rep.sym_bytes += n;
        out
    }

    fn builtin(&mut self, st: &mut State, name: &str, a: &[Val], at: &[(TyRef, Op)], rt: &TyRef) -> R<Val> {
        if let Some(r) = name.strip_prefix("llvm.") {
            return self.intrinsic(st, r, a, at, rt);
        }
        macro_rules! cz {
            ($i:expr) => {{
                let v = a[$i].clone();
                self.concretize(st, &v, 64)? as u64
            }};
        }
        match name {
            "sym_bytes" => {
                let (p, n) = (cz!(0), cz!(1));
                let bits = self.new_input(n);
                st.inputs.push(bits.clone());
                let b = self.bits_bytes(&bits);
                self.write_bytes(st, p, b)?;
                Ok(Val::U)
            }
            "sym_assume" => {
                self.rep.assumes += 1;
                st.nassume += 1;
                let b = sbits(&a[0], 1).pop().unwrap();
                match self.known(st, &b) {
                    Some(true) => return Ok(Val::U),
                    Some(false) => return Err(Stop::Assume),
                    None => {}
                }
                match self.feasible(st, &b)? {
                    None => Err(Stop::Assume),
                    Some(_) => {
                        st.models.retain(|m| m.eval(&b));
                        self.add_pc(st, &b);
                        Ok(Val::U)
                    }
                }
            }
            "sym_assert" => {
                self.rep.asserts += 1;
                st.asserts += 1;
                let b = sbits(&a[0], 1).pop().unwrap();
                let id = match a.get(1) {
                    Some(Val::I(x)) => *x as u64,
                    _ => 0,
                };
                let msg = format!("assertion {id} fails");
                match self.known(st, &b) {
                    Some(true) => {
                        self.rep.asserts_trivial += 1;
                        return Ok(Val::U);
                    }
                    Some(false) => return Err(Stop::Violation(msg)),
                    None => {}
                }
                self.rep.asserts_solver += 1;
                if self.trace {
                    eprintln!("assert {id} to solver: {}", show(&b, 3));
                }
                self.require(st, &b, &msg)?;
                Ok(Val::U)
            }
            "sym_cover" => {
                let id = cz!(0);
                *self.rep.covers.entry(id).or_insert(0) += 1;
                Ok(Val::U)
            }
            "sym_expect" => {
                let id = cz!(0);
                self.rep.covers.entry(id).or_insert(0);
                Ok(Val::U)
            }
            "sym_panic_ok" => {
                st.panic_ok = cz!(0) & 1 == 1;
                Ok(Val::U)
            }
            "sym_cap" => {
                crate::poly::set_cap(cz!(0) as usize);
                Ok(Val::U)
            }
            "sym_exact" => {
                crate::poly::set_exact(cz!(0) & 1 == 1);
                Ok(Val::U)
            }
            "sym_merge" => {
                st.merge_off = self.concrete_inputs.is_some() || cz!(0) & 1 == 0;
                Ok(Val::U)
            }
            "sym_decide" => {
                let b = sbits(&a[0], 1).pop().unwrap();
                let r = self.decide(st, &b)?;
                Ok(Val::I(r as u128))
            }
            "sym_concretize" => {
                let v = a[0].clone();
                let r = self.concretize(st, &v, 64)?;
                Ok(Val::I(r))
            }
            // x: a fresh input byte, one path per value below n (all feasible by construction)
            "sym_choice" => {
                let v = a[0].clone();
                let n = cz!(1) as u128;
                let bits = sbits(&v, 64);
                for k in 0..n {
                    let c = eq_bits(&bits, &sbits(&Val::I(k), 64));
                    match self.known(st, &c) {
                        Some(true) => return Ok(Val::I(k)),
                        Some(false) => continue,
                        None => {}
                    }
                    let nb = c.not();
                    if k + 1 < n {
                        if !st.stop.is_empty() {
                            return Err(Stop::NoMerge);
                        }
                        self.rep.forks += 1;
                        let mut other = st.clone();
                        other.depth += 1;
                        other.models = st.models.iter().take(4).map(|m| Rc::new(m.with(&bits, k + 1))).collect();
                        self.add_pc(&mut other, &nb);
                        self.work.push(other);
                    }
                    st.depth += 1;
                    st.models = st.models.iter().take(4).map(|m| Rc::new(m.with(&bits, k))).collect();
                    self.add_pc(st, &c);
                    return Ok(Val::I(k));
                }
                Err(Stop::Error("empty choice".into()))
            }
            "sym_cut" => {
                // replace bytes by definitional variables
                let (p, n) = (cz!(0), cz!(1));
                let b = self.read_bytes(st, p, n)?;
                let bits: Vec<Bit> = self.bytes_bits(&b).iter().map(|x| x.cut(1)).collect();
                let b = self.bits_bytes(&bits);
                self.write_bytes(st, p, b)?;
                Ok(Val::U)
            }
            "sym_observe" => {
                let (p, n) = (cz!(0), cz!(1));
                let b = self.read_bytes(st, p, n)?;
                let mut s = String::new();
                for x in b {
                    match x {
                        B::C(c) => s.push_str(&format!("{c:02x}")),
                        B::S(_) => s.push_str("**"),
                        B::U => s.push_str("uu"),
                    }
                }
                self.rep.observed.push(s);
                Ok(Val::U)
            }
            // sym_uf(tag, injective, in, inlen, out, outlen)
            "sym_uf" => {
                let (tag, inj, ip, il, op, ol) = (cz!(0), cz!(1), cz!(2), cz!(3), cz!(4), cz!(5));
                self.rep.uf_calls += 1;
                let ib = self.read_bytes(st, ip, il)?;
                let ibits = self.bytes_bits(&ib);
                let out = if let Some(o) = self.uf_memo.get(&(tag ^ (ol << 32), ibits.clone())) {
                    o.clone()
                } else if self.concrete_inputs.is_some() {
                    // deterministic stand-in, also used by the native runner
                    let inb: Vec<u8> = ib.iter().map(|x| if let B::C(c) = x { *c } else { 0 }).collect();
                    let o = uf_default(tag, &inb, ol as usize);
                    o.iter().flat_map(|b| (0..8).map(move |k| Bit::C(b >> k & 1 == 1))).collect()
                } else {
                    let call = self.n_uf;
                    self.n_uf += 1;
                    let o: Vec<Bit> = (0..ol * 8).map(|k| fresh(VarDef::Uf { call, bit: k as u32 })).collect();
                    self.uf_memo.insert((tag ^ (ol << 32), ibits.clone()), o.clone());
                    o
                };
                self.add_uf(st, UfCall { tag, inj: inj & 1 == 1, inp: ibits, out: out.clone() });
                let b = self.bits_bytes(&out);
                self.write_bytes(st, op, b)?;
                Ok(Val::U)
            }
            "malloc" | "__rust_alloc" => {
                let n = cz!(0);
                if n > 1 << 31 {
                    return Ok(Val::I(0));
                }
                Ok(Val::I(st.mem.alloc(n, true, 16) as u128))
            }
            "calloc" | "__rust_alloc_zeroed" => {
                let n = if name == "calloc" { cz!(0) * cz!(1) } else { cz!(0) };
                if n > 1 << 31 {
                    return Ok(Val::I(0));
                }
                let p = st.mem.alloc(n, true, 16);
                let o = st.mem.obj_mut(p).unwrap();
                for w in o.conc.iter_mut() {
                    *w = !0;
                }
                Ok(Val::I(p as u128))
            }
            "realloc" => {
                let (p, n) = (cz!(0), cz!(1));
                let np = st.mem.alloc(n, true, 16);
                if p != 0 {
                    self.check(st, p, 0)?;
                    let on = st.mem.obj(p).unwrap().size;
                    self.copy(st, np, p, on.min(n))?;
                    st.mem.objs[(p >> 32) as usize] = Slot::Dead;
                }
                Ok(Val::I(np as u128))
            }
            "free" | "__rust_dealloc" => {
                let p = cz!(0);
                if p != 0 {
                    match st.mem.obj(p) {
                        Some(o) if o.heap && p & 0xffff_ffff == 0 => {}
                        _ => return Err(Stop::Violation(format!("free of invalid pointer {p:#x}"))),
                    }
                    st.mem.objs[(p >> 32) as usize] = Slot::Dead;
                }
                Ok(Val::U)
            }
            "posix_memalign" => {
                let (pp, al, n) = (cz!(0), cz!(1), cz!(2));
                let p = st.mem.alloc(n, true, al);
                self.store_at(st, pp, &Val::I(p as u128), &Ty::Ptr)?;
                Ok(Val::I(0))
            }
            "aligned_alloc" => {
                let (al, n) = (cz!(0), cz!(1));
                Ok(Val::I(st.mem.alloc(n, true, al) as u128))
            }
            "memcpy" | "memmove" => {
                let (d, s, n) = (cz!(0), cz!(1), cz!(2));
                self.copy(st, d, s, n)?;
                Ok(Val::I(d as u128))
            }
            "memset" => {
                let (d, n) = (cz!(0), cz!(2));
                self.memset(st, d, &a[1], n, at[1].0.bits())?;
                Ok(Val::I(d as u128))
            }
            "bcmp" | "memcmp" => {
                let n = cz!(2);
                if n == 0 {
                    return Ok(Val::I(0));
                }
                let (p, q) = (cz!(0), cz!(1));
                let (x, y) = (self.read_bytes(st, p, n)?, self.read_bytes(st, q, n)?);
                let xb = self.bytes_bits(&x);
                let yb = self.bytes_bits(&y);
                let eq = eq_bits(&xb, &yb);
                if name == "bcmp" {
                    let mut r = vec![ZERO; 32];
                    r[0] = eq.not();
                    return Ok(from_bits(r));
                }
                // memcmp: big-endian order on bytes
                let mut lt = ZERO;
                for i in (0..n as usize).rev() {
                    let (p, q) = (&xb[i * 8..i * 8 + 8], &yb[i * 8..i * 8 + 8]);
                    let e = eq_bits(p, q);
                    let l = ult_bits(p, q);
                    lt = e.ite(&lt, &l).carry_cut(CARRY_CUT);
                }
                // eq -> 0, lt -> -1, else 1
                let mut r = vec![lt.clone(); 32];
                r[0] = eq.not();
                Ok(from_bits(r))
            }
            "strlen" => {
                let p = cz!(0);
                let mut n = 0;
                loop {
                    match self.load_at(st, p + n, &Ty::Int(8))? {
                        Val::I(0) => break,
                        _ => n += 1,
                    }
                }
                Ok(Val::I(n as u128))
            }
            "write" => Ok(a[2].clone()),
            "writev" => Ok(Val::I(0)),
            "getenv" | "secure_getenv" => Ok(Val::I(0)),
            "syscall" => {
                let nr = cz!(0);
                if nr == 318 {
                    let (p, n) = (cz!(1), cz!(2));
                    let b = (0..n).map(|i| B::C((i * 37 + 11) as u8)).collect();
                    self.write_bytes(st, p, b)?;
                    return Ok(Val::I(n as u128));
                }
                Err(Stop::Error(format!("syscall {nr}")))
            }
            "getrandom" => {
                let (p, n) = (cz!(0), cz!(1));
                let b = (0..n).map(|i| B::C((i * 37 + 11) as u8)).collect();
                self.write_bytes(st, p, b)?;
                Ok(Val::I(n as u128))
            }
            "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" | "pthread_mutex_lock"
            | "pthread_mutex_unlock" | "sched_yield" | "pthread_getaffinity_np" => Ok(Val::I(0)),
            "pthread_self" => Ok(Val::I(1)),
            "sysconf" => Ok(Val::I(1)),
            "abort" | "exit" | "_exit" => {
                if st.panic_ok {
                    return Err(Stop::PanicOk);
                }
                Err(Stop::Violation("abort".into()))
            }
            _ => Err(Stop::Error(format!("unsupported external function {name}"))),
        }
    }

    fn add_uf(&mut self, st: &mut State, u: UfCall) {
        if st.ufs.iter().any(|v| v.tag == u.tag && v.inp == u.inp && v.out == u.out) {
            return;
        }
        let mut added = false;
        for i in 0..st.ufs.len() {
            let v = &st.ufs[i];
            if v.tag != u.tag || v.out.len() != u.out.len() {
                continue;
            }
            let oe = eq_bits(&v.out, &u.out);
            let ie = if v.inp.len() == u.inp.len() { eq_bits(&v.inp, &u.inp) } else { ZERO };
            // functional consistency: ie -> oe ; injectivity: oe -> ie
            let c = if u.inj { ie.xor(&oe).not() } else { ie.and(&oe.not()).not() };
            if c != ONE && st.axset.insert(c.clone()) {
                st.ax.push(c);
                added = true;
            }
        }
        if added {
            let ms: Vec<Rc<Model>> = st.models.iter().filter(|m| st.ax.iter().all(|a| m.eval(a))).cloned().collect();
            st.models = ms;
        }
        st.ufs.push(u);
    }

    fn memset(&mut self, st: &mut State, d: u64, v: &Val, n: u64, w: u32) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let b = match v {
            Val::I(x) => B::C(*x as u8),
            Val::U => B::U,
            v => {
                let bits = sbits(v, w);
                B::S(Rc::new(std::array::from_fn(|i| bits[i].clone())))
            }
        };
        self.write_bytes(st, d, vec![b; n as usize])
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, a: &[Val], at: &[(TyRef, Op)], rt: &TyRef) -> R<Val> {
        macro_rules! cz {
            ($i:expr) => {{
                let v = a[$i].clone();
                self.concretize(st, &v, 64)? as u64
            }};
        }
        let base = n.split('.').next().unwrap();
        if let Some(r) = n.strip_prefix("x86.") {
            return crate::x86::x86(r, a, at, rt).map_err(Stop::Error);
        }
        match base {
            "lifetime" | "assume" | "dbg" | "prefetch" | "donothing" | "sideeffect" | "invariant" | "var" => return Ok(Val::U),
            "experimental" if n.starts_with("experimental.noalias") => return Ok(Val::U),
            "memcpy" | "memmove" => {
                let (d, s, l) = (cz!(0), cz!(1), cz!(2));
                self.copy(st, d, s, l)?;
                return Ok(Val::U);
            }
            "memset" => {
                let (d, l) = (cz!(0), cz!(2));
                self.memset(st, d, &a[1], l, 8)?;
                return Ok(Val::U);
            }
            "trap" | "ubsantrap" | "debugtrap" => {
                if st.panic_ok {
                    return Err(Stop::PanicOk);
                }
                return Err(Stop::Violation("trap".into()));
            }
            "expect" | "threadlocal" | "launder" | "strip" => return Ok(a[0].clone()),
            "is" if n.starts_with("is.constant") => {
                return Ok(Val::I(matches!(a[0], Val::I(_)) as u128));
            }
            "objectsize" => return Ok(Val::I(u64::MAX as u128)),
            "load" if n.starts_with("load.relative") => {
                let (p, o) = (cz!(0), cz!(1));
                let v = self.load_at(st, p.wrapping_add(o), &Ty::Int(32))?;
                let x = self.concretize(st, &v, 32)?;
                let r = p.wrapping_add(sext128(x, 32) as u64);
                // 32-bit relative tables cannot hold object-id addresses
                let _ = r;
                return Err(Stop::Error("load.relative".into()));
            }
            "ptrmask" => return Ok(bin(BinOp::And, 64, &a[0], &a[1])),
            "stacksave" => return Ok(Val::I(0)),
            "stackrestore" => return Ok(Val::U),
            "vector" if n.starts_with("vector.reduce.") => {
                let op = n.split('.').nth(2).unwrap();
                let (nl, e) = match &*at[0].0 {
                    Ty::Vec(n, e) => (*n as usize, e.clone()),
                    _ => return Err(Stop::Error(n.into())),
                };
                let w = e.bits();
                let l = lanes(&a[0], nl);
                let mut r = l[0].clone();
                for x in &l[1..] {
                    r = match op {
                        "add" => bin(BinOp::Add, w, &r, x),
                        "mul" => bin(BinOp::Mul, w, &r, x),
                        "and" => bin(BinOp::And, w, &r, x),
                        "or" => bin(BinOp::Or, w, &r, x),
                        "xor" => bin(BinOp::Xor, w, &r, x),
                        "umax" => select(&icmp(Pred::Ugt, w, &r, x), &r, x, &e),
                        "umin" => select(&icmp(Pred::Ult, w, &r, x), &r, x, &e),
                        _ => return Err(Stop::Error(n.into())),
                    };
                }
                return Ok(r);
            }
            _ => {}
        }
        // lane-wise intrinsics
        if let Ty::Vec(nl, e) = &**rt {
            let nl = *nl as usize;
            let ls: Vec<Vec<Val>> = a
                .iter()
                .zip(at)
                .map(|(v, (t, _))| if matches!(&**t, Ty::Vec(..)) { lanes(v, nl) } else { vec![v.clone(); nl] })
                .collect();
            let mut out = vec![];
            for i in 0..nl {
                let la: Vec<Val> = ls.iter().map(|l| l[i].clone()).collect();
                out.push(self.scalar_intrinsic(base, n, &la, e.bits(), e)?);
            }
            return Ok(Val::V(Rc::new(out)));
        }
        let w = match at.first() {
            Some((t, _)) => t.bits(),
            None => 0,
        };
        self.scalar_intrinsic(base, n, a, w, rt)
    }

    fn scalar_intrinsic(&mut self, base: &str, n: &str, a: &[Val], w: u32, rt: &TyRef) -> R<Val> {
        let it = Ty::Int(w);
        if a.iter().any(|x| matches!(x, Val::U)) && base != "fshl" {
            return Ok(match &**rt {
                Ty::Struct(..) => self.m.undef(rt),
                _ => Val::U,
            });
        }
        Ok(match base {
            "umin" => select(&icmp(Pred::Ult, w, &a[0], &a[1]), &a[0], &a[1], &it),
            "umax" => select(&icmp(Pred::Ugt, w, &a[0], &a[1]), &a[0], &a[1], &it),
            "smin" => select(&icmp(Pred::Slt, w, &a[0], &a[1]), &a[0], &a[1], &it),
            "smax" => select(&icmp(Pred::Sgt, w, &a[0], &a[1]), &a[0], &a[1], &it),
            "abs" => {
                let neg = bin(BinOp::Sub, w, &Val::I(0), &a[0]);
                select(&icmp(Pred::Slt, w, &a[0], &Val::I(0)), &neg, &a[0], &it)
            }
            "usub" | "uadd" | "ssub" | "sadd" | "umul" | "smul" => {
                let sat = n.contains(".sat");
                let (r, ov): (Val, Bit) = match base {
                    "uadd" => {
                        let (s, c) = add_with_carry(&a[0], &a[1], w);
                        (from_bits(s), c)
                    }
                    "usub" => {
                        let (s, c) = sub_with_borrow(&a[0], &a[1], w);
                        (from_bits(s), c)
                    }
                    "sadd" | "ssub" => {
                        let op = if base == "sadd" { BinOp::Add } else { BinOp::Sub };
                        let r = bin(op, w, &a[0], &a[1]);
                        let k = w as usize - 1;
                        let (x, mut y, z) =
                            (sbits(&a[0], w)[k].clone(), sbits(&a[1], w)[k].clone(), sbits(&r, w)[k].clone());
                        if base == "ssub" {
                            y = y.not();
                        }
                        (r, x.xor(&z).and(&y.xor(&z)))
                    }
                    "umul" => {
                        if let (Val::I(x), Val::I(y)) = (&a[0], &a[1]) {
                            let (p, o) = x.overflowing_mul(*y);
                            (Val::I(p & mask(w)), Bit::C(o || p & !mask(w) != 0))
                        } else {
                            let mut x = sbits(&a[0], w);
                            let mut y = sbits(&a[1], w);
                            x.resize(2 * w as usize, ZERO);
                            y.resize(2 * w as usize, ZERO);
                            let p = mul_full(&x, &y, 2 * w as usize);
                            let hi = conj(p[w as usize..].iter().map(|b| b.not()).collect()).not();
                            (from_bits(p[..w as usize].to_vec()), hi)
                        }
                    }
                    _ => {
                        if let (Val::I(x), Val::I(y)) = (&a[0], &a[1]) {
                            let (x, y) = (sext128(*x, w), sext128(*y, w));
                            match x.checked_mul(y) {
                                Some(p) => {
                                    let ok = sext128(p as u128 & mask(w), w) == p;
                                    (Val::I(p as u128 & mask(w)), Bit::C(!ok))
                                }
                                None => (Val::I(x.wrapping_mul(y) as u128 & mask(w)), ONE),
                            }
                        } else {
                            return Err(Stop::Error("symbolic smul.with.overflow".into()));
                        }
                    }
                };
                if sat {
                    let s = match base {
                        "uadd" => Val::I(mask(w)),
                        "usub" => Val::I(0),
                        _ => return Err(Stop::Error(n.into())),
                    };
                    select(&ov, &s, &r, &it)
                } else {
                    Val::V(Rc::new(vec![r, from_bits(vec![ov])]))
                }
            }
            "ctpop" => match &a[0] {
                Val::I(x) => Val::I(x.count_ones() as u128),
                v => {
                    let mut acc = Val::I(0);
                    for b in sbits(v, w) {
                        let mut e = vec![ZERO; w as usize];
                        e[0] = b;
                        acc = bin(BinOp::Add, w, &acc, &from_bits(e));
                    }
                    acc
                }
            },
            "ctlz" | "cttz" => match &a[0] {
                Val::I(x) => {
                    let r = if base == "ctlz" { (*x << (128 - w)).leading_zeros() } else { x.trailing_zeros() };
                    Val::I(r.min(w) as u128)
                }
                v => {
                    let bits = sbits(v, w);
                    let order: Vec<usize> = if base == "cttz" { (0..w as usize).rev().collect() } else { (0..w as usize).collect() };
                    let mut r = Val::I(w as u128);
                    for i in order {
                        let k = if base == "cttz" { i } else { w as usize - 1 - i };
                        r = select(&bits[i], &Val::I(k as u128), &r, &it);
                        if let Val::S(b) = &r {
                            r = from_bits(b.iter().map(|x| x.cut(16)).collect());
                        }
                    }
                    r
                }
            },
            "bswap" => {
                let b = sbits(&a[0], w);
                let mut o = vec![];
                for ch in b.chunks(8).rev() {
                    o.extend_from_slice(ch);
                }
                from_bits(o)
            }
            "bitreverse" => {
                let mut b = sbits(&a[0], w);
                b.reverse();
                from_bits(b)
            }
            "fshl" | "fshr" => {
                // concat(a, b) shifted
                if let Val::I(s) = &a[2] {
                    let s = (*s % w as u128) as usize;
                    if let (Val::I(x), Val::I(y)) = (&a[0], &a[1]) {
                        if w <= 128 {
                            let r = if s == 0 {
                                if base == "fshl" {
                                    *x
                                } else {
                                    *y
                                }
                            } else if base == "fshl" {
                                (x << s) | (y >> (w as usize - s))
                            } else {
                                (x << (w as usize - s)) | (y >> s)
                            };
                            return Ok(Val::I(r & mask(w)));
                        }
                    }
                    let mut cat = sbits(&a[1], w);
                    cat.extend(sbits(&a[0], w));
                    let wu = w as usize;
                    let st = if base == "fshl" { wu - s } else { s };
                    let st = if base == "fshl" && s == 0 { wu } else { st };
                    from_bits(cat[st..st + wu].to_vec())
                } else {
                    let sb = sbits(&a[2], w);
                    if !w.is_power_of_two() {
                        return Err(Stop::Error("fsh width".into()));
                    }
                    let lg = w.trailing_zeros() as usize;
                    let mut cat = sbits(&a[1], w);
                    cat.extend(sbits(&a[0], w));
                    if base == "fshr" {
                        let r = shift_bits(BinOp::LShr, &cat, &sb[..lg]);
                        from_bits(r[..w as usize].to_vec())
                    } else {
                        let r = shift_bits(BinOp::Shl, &cat, &sb[..lg]);
                        from_bits(r[w as usize..].to_vec())
                    }
                }
            }
            "ucmp" | "scmp" => {
                let (lt, gt) = if base == "ucmp" {
                    (icmp(Pred::Ult, w, &a[0], &a[1]), icmp(Pred::Ugt, w, &a[0], &a[1]))
                } else {
                    (icmp(Pred::Slt, w, &a[0], &a[1]), icmp(Pred::Sgt, w, &a[0], &a[1]))
                };
                let rw = rt.bits() as usize;
                let mut r = vec![lt.clone(); rw];
                r[0] = lt.or(&gt);
                from_bits(r)
            }
            _ => return Err(Stop::Error(format!("unsupported intrinsic llvm.{n}"))),
        })
    }
}

pub fn lanes(v: &Val, n: usize) -> Vec<Val> {
    match v {
        Val::V(x) => x.to_vec(),
        _ => vec![Val::U; n],
    }
}

fn vbin(op: BinOp, t: &Ty, a: &Val, b: &Val) -> Val {
    match t {
        Ty::Vec(n, e) => {
            let w = e.bits();
            let (x, y) = (lanes(a, *n as usize), lanes(b, *n as usize));
            Val::V(Rc::new((0..*n as usize).map(|i| bin(op, w, &x[i], &y[i])).collect()))
        }
        _ => {
            // scalars: keep track of the defined bits of a partly undefined word
            let w = t.bits();
            if w <= 64 && matches!(op, BinOp::And | BinOp::Or | BinOp::Shl | BinOp::LShr) {
                let shift = matches!(op, BinOp::Shl | BinOp::LShr);
                match (a, b) {
                    (Val::U, Val::I(_)) => return bin(op, w, &Val::S(sbits(a, w).into()), b),
                    (Val::U, Val::S(_)) if !shift => return bin(op, w, &Val::S(sbits(a, w).into()), b),
                    (_, Val::U) if !shift && !matches!(a, Val::U) => return bin(op, w, a, &Val::S(sbits(b, w).into())),
                    _ => {}
                }
            }
            bin(op, w, a, b)
        }
    }
}

fn vicmp(p: Pred, t: &Ty, a: &Val, b: &Val) -> Val {
    let one = |w: u32, x: &Val, y: &Val| -> Val {
        if matches!(x, Val::U) || matches!(y, Val::U) {
            return Val::U;
        }
        from_bits(vec![icmp(p, w, x, y)])
    };
    match t {
        Ty::Vec(n, e) => {
            let (x, y) = (lanes(a, *n as usize), lanes(b, *n as usize));
            Val::V(Rc::new((0..*n as usize).map(|i| one(e.bits(), &x[i], &y[i])).collect()))
        }
        _ => one(t.bits(), a, b),
    }
}

fn insert_val(m: &Module, v: &Val, e: &Val, ix: &[u32], t: &Ty) -> Val {
    if ix.is_empty() {
        return e.clone();
    }
    let mut l = match v {
        Val::V(x) => x.to_vec(),
        _ => match m.undef(t) {
            Val::V(x) => x.to_vec(),
            _ => panic!("insertvalue"),
        },
    };
    let k = ix[0] as usize;
    let et = match t {
        Ty::Struct(f, ..) => f[k].clone(),
        Ty::Arr(_, e) => e.clone(),
        _ => panic!("insertvalue"),
    };
    l[k] = insert_val(m, &l[k].clone(), e, &ix[1..], &et);
    Val::V(Rc::new(l))
}

pub fn write_val(o: &mut Obj, off: usize, v: &Val, ty: &Ty) {
    match ty {
        Ty::Struct(f, _, offs, _, _) => match v {
            Val::V(vs) => {
                for (i, t) in f.iter().enumerate() {
                    write_val(o, off + offs[i] as usize, &vs[i], t);
                }
            }
            _ => {
                for i in 0..ty.size() as usize {
                    o.put(off + i, B::U);
                }
            }
        },
        Ty::Arr(n, t) => match v {
            Val::V(vs) => {
                let s = t.size() as usize;
                for i in 0..*n as usize {
                    write_val(o, off + i * s, &vs[i], t);
                }
            }
            _ => {
                for i in 0..ty.size() as usize {
                    o.put(off + i, B::U);
                }
            }
        },
        Ty::Vec(n, t) if t.bits() % 8 == 0 => {
            let s = t.size() as usize;
            let l = lanes(v, *n as usize);
            for i in 0..*n as usize {
                write_val(o, off + i * s, &l[i], t);
            }
        }
        _ => {
            let n = ty.store_size() as usize;
            match v {
                Val::I(x) if n <= 16 => {
                    let b = x.to_le_bytes();
                    o.put_conc(off, &b[..n]);
                }
                Val::U => {
                    for i in 0..n {
                        o.put(off + i, B::U);
                    }
                }
                _ => {
                    let mut bits = flat_bits(v, ty);
                    bits.resize(n * 8, ZERO);
                    for i in 0..n {
                        let ch = &bits[i * 8..i * 8 + 8];
                        let mut c = 0u8;
                        let mut conc = true;
                        for (k, x) in ch.iter().enumerate() {
                            match x {
                                Bit::C(true) => c |= 1 << k,
                                Bit::C(false) => {}
                                _ => conc = false,
                            }
                        }
                        if conc {
                            o.put(off + i, B::C(c));
                        } else {
                            o.put(off + i, B::S(Rc::new(std::array::from_fn(|k| ch[k].clone()))));
                        }
                    }
                }
            }
        }
    }
}
