//! Symbolic bits: polynomials over GF(2) in algebraic normal form (XOR of monomials), with
//! definitional cut variables where full expansion would be too large.
//!
//! A bit is a constant or a sorted list of interned monomials. Monomial 0 is the constant 1.
//! Variables are either free inputs, uninitialised memory, outputs of uninterpreted functions, or
//! defined (by a polynomial or by a conjunction of bits). Definitions are part of every query.

use std::cell::RefCell;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;
use crate::tt::{self, Tt, MAXTT};

#[derive(Default, Clone, Copy)]
pub struct FxHasher {
    h: u64,
}
const K: u64 = 0x517cc1b727220a95;
impl FxHasher {
    #[inline]
    fn add(&mut self, x: u64) {
        self.h = (self.h.rotate_left(5) ^ x).wrapping_mul(K);
    }
}
impl Hasher for FxHasher {
    fn finish(&self) -> u64 {
        let mut x = self.h;
        x ^= x >> 32;
        x = x.wrapping_mul(0x9E3779B97F4A7C15);
        x ^ (x >> 29)
    }
    fn write(&mut self, bytes: &[u8]) {
        for &b in bytes {
            self.add(b as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.add(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.add(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.add(i)
    }
    fn write_usize(&mut self, i: usize) {
        self.add(i as u64)
    }
}
pub type Fx = BuildHasherDefault<FxHasher>;
pub type FxMap<K, V> = HashMap<K, V, Fx>;
pub type FxSet<K> = std::collections::HashSet<K, Fx>;

pub type Mono = u32;
pub type Var = u32;

#[derive(Debug, PartialEq, Eq, Hash)]
pub struct Poly {
    pub t: Box<[Mono]>,
}

/// A symbolic bit.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Bit {
    C(bool),
    P(Rc<Poly>),
}

#[derive(Clone, Debug)]
pub enum VarDef {
    /// free input: byte number in the order of sym_bytes calls, bit in byte
    Input { byte: u32, bit: u8 },
    /// uninitialised memory / undef
    Uninit,
    /// output bit of an uninterpreted function call (free, constrained by side axioms)
    Uf { call: u32, bit: u32 },
    Poly(Rc<Poly>),
    Conj(Rc<Vec<Bit>>),
    /// boolean function of a few other variables
    Tt(Rc<Tt>),
}

pub struct Ctx {
    pub monos: Vec<Box<[Var]>>,
    mono_map: FxMap<Box<[Var]>, Mono>,
    mul_memo: FxMap<(Mono, Mono), Mono>,
    pub vars: Vec<VarDef>,
    var_mono: Vec<Mono>,
    def_poly: FxMap<Rc<Poly>, Var>,
    def_conj: FxMap<Rc<Vec<Bit>>, Var>,
    def_tt: FxMap<Rc<Tt>, Var>,
    conj_tt: FxMap<Var, Option<Rc<Tt>>>,
    /// truth-table variables treated as atoms for the moment
    opaque: FxSet<Var>,
    /// echelon basis of the nonlinear cut polynomials: leading monomial -> (row, cut variables)
    nl_basis: FxMap<Mono, (Vec<Mono>, Vec<Mono>)>,
    /// short normal forms of truth-table variables
    tt_anf: FxMap<Var, Option<Rc<Poly>>>,
    pub n_tt: u64,
    pub n_cuts: u64,
    pub n_ands: u64,
    pub n_xors: u64,
    pub lim: [usize; 9],
    pub max_terms: usize,
    pub exact: bool,
    /// bits of wide products: first tried as if nothing was known about them
    pub soft: FxSet<Var>,
    /// most work an expansion of definitions may take
    pub cap: usize,
}

impl Ctx {
    fn new() -> Self {
        let mut c = Ctx {
            monos: vec![],
            mono_map: FxMap::default(),
            mul_memo: FxMap::default(),
            vars: vec![],
            var_mono: vec![],
            def_poly: FxMap::default(),
            def_conj: FxMap::default(),
            def_tt: FxMap::default(),
            conj_tt: FxMap::default(),
            opaque: FxSet::default(),
            nl_basis: FxMap::default(),
            tt_anf: FxMap::default(),
            n_tt: 0,
            n_cuts: 0,
            n_ands: 0,
            n_xors: 0,
            // product-size limits by resulting degree bound (index = degree)
            lim: [
                1 << 20,
                1 << 20,
                1 << 18,
                1 << 14,
                1 << 10,
                256,
                256,
                256,
                128,
            ],
            max_terms: 0,
            exact: false,
            soft: FxSet::default(),
            cap: usize::MAX,
        };
        c.monos.push(Box::new([]));
        c.mono_map.insert(Box::new([]), 0);
        c
    }
    fn intern(&mut self, m: Box<[Var]>) -> Mono {
        if let Some(&i) = self.mono_map.get(&m) {
            return i;
        }
        let i = self.monos.len() as Mono;
        self.monos.push(m.clone());
        self.mono_map.insert(m, i);
        i
    }
    #[inline]
    fn mono_mul(&mut self, a: Mono, b: Mono) -> Mono {
        if a == 0 || a == b {
            return b;
        }
        if b == 0 {
            return a;
        }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(&r) = self.mul_memo.get(&k) {
            return r;
        }
        let (x, y) = (&self.monos[a as usize], &self.monos[b as usize]);
        let mut v = Vec::with_capacity(x.len() + y.len());
        let (mut i, mut j) = (0, 0);
        while i < x.len() && j < y.len() {
            match x[i].cmp(&y[j]) {
                std::cmp::Ordering::Less => {
                    v.push(x[i]);
                    i += 1
                }
                std::cmp::Ordering::Greater => {
                    v.push(y[j]);
                    j += 1
                }
                _ => {
                    v.push(x[i]);
                    i += 1;
                    j += 1
                }
            }
        }
        v.extend_from_slice(&x[i..]);
        v.extend_from_slice(&y[j..]);
        let r = self.intern(v.into_boxed_slice());
        self.mul_memo.insert(k, r);
        r
    }
    fn new_var(&mut self, d: VarDef) -> Var {
        let v = self.vars.len() as Var;
        self.vars.push(d);
        let m = self.intern(Box::new([v]));
        self.var_mono.push(m);
        v
    }
    fn deg(&self, p: &Poly) -> usize {
        p.t.iter().map(|&m| self.monos[m as usize].len()).max().unwrap_or(0)
    }
}

thread_local! {
    pub static CTX: RefCell<Ctx> = RefCell::new(Ctx::new());
}

pub fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    CTX.with(|c| f(&mut c.borrow_mut()))
}

pub const ZERO: Bit = Bit::C(false);
pub const ONE: Bit = Bit::C(true);

pub fn fresh(d: VarDef) -> Bit {
    with(|c| {
        let v = c.new_var(d);
        var_bit(c, v)
    })
}

fn var_bit(c: &Ctx, v: Var) -> Bit {
    Bit::P(Rc::new(Poly { t: Box::new([c.var_mono[v as usize]]) }))
}

fn mk(t: Vec<Mono>) -> Bit {
    if t.is_empty() {
        ZERO
    } else if t.len() == 1 && t[0] == 0 {
        ONE
    } else {
        Bit::P(Rc::new(Poly { t: t.into_boxed_slice() }))
    }
}

fn xor_terms(x: &[Mono], y: &[Mono]) -> Vec<Mono> {
    let mut v = Vec::with_capacity(x.len() + y.len());
    let (mut i, mut j) = (0, 0);
    while i < x.len() && j < y.len() {
        let (a, b) = (x[i], y[j]);
        if a < b {
            v.push(a);
            i += 1;
        } else if b < a {
            v.push(b);
            j += 1;
        } else {
            i += 1;
            j += 1;
        }
    }
    v.extend_from_slice(&x[i..]);
    v.extend_from_slice(&y[j..]);
    v
}

impl Bit {
    #[inline]
    pub fn is_const(&self) -> Option<bool> {
        match self {
            Bit::C(b) => Some(*b),
            _ => None,
        }
    }
    pub fn not(&self) -> Bit {
        match self {
            Bit::C(b) => Bit::C(!b),
            Bit::P(p) => {
                if p.t[0] == 0 {
                    mk(p.t[1..].to_vec())
                } else {
                    let mut v = Vec::with_capacity(p.t.len() + 1);
                    v.push(0);
                    v.extend_from_slice(&p.t);
                    mk(v)
                }
            }
        }
    }
    pub fn xor(&self, o: &Bit) -> Bit {
        match (self, o) {
            (Bit::C(false), x) | (x, Bit::C(false)) => x.clone(),
            (Bit::C(true), x) | (x, Bit::C(true)) => x.not(),
            (Bit::P(p), Bit::P(q)) => {
                if Rc::ptr_eq(p, q) {
                    return ZERO;
                }
                if p.t.len() <= 2 || q.t.len() <= 2 {
                    if let Some(r) = with(|c| {
                        if c.as_tt(p).is_some() || c.as_tt(q).is_some() {
                            c.tt_op(p, q, false)
                        } else {
                            None
                        }
                    }) {
                        return r;
                    }
                }
                let r = mk(xor_terms(&p.t, &q.t));
                match &r {
                    Bit::P(x) if x.t.len() > 1 => with(|c| if c.exact { c.exact_norm(x) } else { None }).unwrap_or(r),
                    _ => r,
                }
            }
        }
    }
    pub fn and(&self, o: &Bit) -> Bit {
        match (self, o) {
            (Bit::C(false), _) | (_, Bit::C(false)) => ZERO,
            (Bit::C(true), x) | (x, Bit::C(true)) => x.clone(),
            (Bit::P(p), Bit::P(q)) => {
                if Rc::ptr_eq(p, q) || p.t == q.t {
                    return self.clone();
                }
                with(|c| {
                    if c.exact {
                        if let Some(r) = c.exact_and(&[self.clone(), o.clone()]) {
                            return r;
                        }
                    }
                    c.and_poly(p, q)
                })
            }
        }
    }
    pub fn or(&self, o: &Bit) -> Bit {
        match (self, o) {
            (Bit::C(true), _) | (_, Bit::C(true)) => ONE,
            (Bit::C(false), x) | (x, Bit::C(false)) => x.clone(),
            _ => self.not().and(&o.not()).not(),
        }
    }
    /// if self then a else b
    pub fn ite(&self, a: &Bit, b: &Bit) -> Bit {
        match self {
            Bit::C(true) => a.clone(),
            Bit::C(false) => b.clone(),
            _ => {
                if a == b {
                    return a.clone();
                }
                self.and(&a.xor(b)).xor(b)
            }
        }
    }
    pub fn nterms(&self) -> usize {
        match self {
            Bit::C(_) => 0,
            Bit::P(p) => p.t.len(),
        }
    }
    /// As `cut`, but functions of few base variables are left alone.
    pub fn carry_cut(&self, max: usize) -> Bit {
        match self {
            Bit::P(p) if p.t.len() > max => with(|c| {
                if let Some((s, plain)) = c.base_support(p) {
                    if s.len() <= 10 || !plain {
                        if let Some(t) = c.poly_tt(p) {
                            return c.from_tt(t);
                        }
                    }
                }
                c.cut_poly(p)
            }),
            _ => self.clone(),
        }
    }
    /// Replace by a definitional variable when it has more than `max` terms.
    pub fn cut(&self, max: usize) -> Bit {
        match self {
            Bit::C(_) => self.clone(),
            Bit::P(p) => {
                if p.t.len() <= max {
                    self.clone()
                } else {
                    with(|c| c.cut_poly(p))
                }
            }
        }
    }
}

impl Ctx {
    /// Cut a nonlinear polynomial into a linear form of cut variables (reusing those that exist).
    fn cut_nl(&mut self, p: &Rc<Poly>) -> Bit {
        let neg = p.t[0] == 0;
        let mut key: Vec<Mono> = if neg { p.t[1..].to_vec() } else { p.t.to_vec() };
        if key.len() == 1 && self.monos[key[0] as usize].len() == 1 {
            return Bit::P(p.clone());
        }
        // cut variables that occur linearly next to nonlinear terms: back to their definitions
        for _ in 0..8 {
            let mut out: Vec<Mono> = Vec::with_capacity(key.len());
            let mut any = false;
            for &m in &key {
                if self.monos[m as usize].len() == 1 {
                    if let VarDef::Poly(d) = &self.vars[self.monos[m as usize][0] as usize] {
                        if d.t.len() <= 1024 && out.len() < 8192 {
                            out.extend_from_slice(&d.t);
                            any = true;
                            continue;
                        }
                    }
                }
                out.push(m);
            }
            if !any || out.len() > 8192 {
                break;
            }
            key = xor_sorted(out);
            if key.is_empty() {
                return Bit::C(neg);
            }
        }
        if key.len() == 1 && self.monos[key[0] as usize].len() == 1 {
            let b = mk(key);
            return if neg { b.not() } else { b };
        }
        let finish = |t: Vec<Mono>| {
            let b = mk(t);
            if neg {
                b.not()
            } else {
                b
            }
        };
        if key.len() <= 4096 && self.nl_basis.len() < 8192 {
            let mut cur = key.clone();
            let mut comb: Vec<Mono> = vec![];
            while let Some(l) = cur.last() {
                match self.nl_basis.get(l) {
                    Some((row, c)) => {
                        cur = xor_terms(&cur, row);
                        comb = xor_terms(&comb, c);
                        if cur.len() > 20000 {
                            break;
                        }
                    }
                    None => break,
                }
            }
            if cur.is_empty() {
                return finish(comb);
            }
            let v = self.new_cut(Rc::new(Poly { t: key.into_boxed_slice() }));
            let vm = self.var_mono[v as usize];
            if cur.len() <= 20000 {
                let l = *cur.last().unwrap();
                if !self.nl_basis.contains_key(&l) {
                    comb = xor_terms(&comb, &[vm]);
                    self.nl_basis.insert(l, (cur, comb));
                }
            }
            return finish(vec![vm]);
        }
        let v = self.new_cut(Rc::new(Poly { t: key.into_boxed_slice() }));
        finish(vec![self.var_mono[v as usize]])
    }
    /// cut of an operand of a product
    fn cut_op(&mut self, p: &Rc<Poly>) -> Bit {
        if self.is_linear(p) {
            return self.cut_poly(p);
        }
        match self.cut_nl(p) {
            Bit::P(q) if q.t.len() > 64 => self.cut_poly(&q),
            b => b,
        }
    }
    fn new_cut(&mut self, key: Rc<Poly>) -> Var {
        match self.def_poly.get(&key) {
            Some(&v) => v,
            None => {
                self.n_cuts += 1;
                let v = self.new_var(VarDef::Poly(key.clone()));
                self.def_poly.insert(key, v);
                v
            }
        }
    }
    /// Cut into a single variable.
    pub fn cut_poly(&mut self, p: &Rc<Poly>) -> Bit {
        if self.exact {
            if let Some(t) = self.poly_tt(p) {
                return self.from_tt(t);
            }
        }
        if !self.is_linear(p) {
            match self.cut_nl(p) {
                Bit::P(q) if self.is_linear(&q) && q != *p => return self.cut_poly(&q),
                b => return b,
            }
        }
        // strip constant
        let (key, neg) = if p.t[0] == 0 {
            (Rc::new(Poly { t: p.t[1..].to_vec().into_boxed_slice() }), true)
        } else {
            (p.clone(), false)
        };
        if key.t.len() == 1 && self.monos[key.t[0] as usize].len() == 1 {
            return Bit::P(p.clone());
        }
        let v = self.new_cut(key);
        let b = var_bit(self, v);
        if neg {
            b.not()
        } else {
            b
        }
    }
    fn and_poly(&mut self, p: &Rc<Poly>, q: &Rc<Poly>) -> Bit {
        self.n_ands += 1;
        // complement check
        if p.t.len().abs_diff(q.t.len()) == 1 {
            let x = xor_terms(&p.t, &q.t);
            if x.len() == 1 && x[0] == 0 {
                return ZERO;
            }
        }
        let dd = self.deg(p) + self.deg(q);
        if (p.t.len() <= 2 && self.as_tt(p).is_some()) || (q.t.len() <= 2 && self.as_tt(q).is_some()) || (dd > 2 && p.t.len() * q.t.len() > 64)
            || self.has_conj(p)
            || self.has_conj(q)
        {
            if let Some(r) = self.tt_op(p, q, true) {
                return r;
            }
        }
        let d = dd.min(8);
        let (p, q) = if p.t.len() * q.t.len() > self.lim[d].max(1) {
            // cut the operands
            let a = if p.t.len() > 2 || self.deg(p) > 1 { self.cut_op(p) } else { Bit::P(p.clone()) };
            let b = if q.t.len() > 2 || self.deg(q) > 1 { self.cut_op(q) } else { Bit::P(q.clone()) };
            match (a, b) {
                (Bit::P(a), Bit::P(b)) => (a, b),
                _ => unreachable!(),
            }
        } else {
            (p.clone(), q.clone())
        };
        if p == q {
            return Bit::P(p);
        }
        let mut v = Vec::with_capacity(p.t.len() * q.t.len());
        for &a in p.t.iter() {
            for &b in q.t.iter() {
                v.push(self.mono_mul(a, b));
            }
        }
        let r = xor_sorted(v);
        self.max_terms = self.max_terms.max(r.len());
        mk(r)
    }
}

impl Ctx {
    /// the truth table behind a bit that is a (possibly negated) truth-table variable
    fn as_tt(&self, p: &Poly) -> Option<(Rc<Tt>, bool)> {
        if p.t.len() > 2 || (p.t.len() == 2 && p.t[0] != 0) {
            return None;
        }
        let m = &self.monos[p.t[p.t.len() - 1] as usize];
        if m.len() == 1 {
            if let VarDef::Tt(t) = &self.vars[m[0] as usize] {
                if self.opaque.contains(&m[0]) {
                    return None;
                }
                return Some((t.clone(), p.t.len() == 2));
            }
        }
        None
    }
    /// a short polynomial that mentions a small conjunction
    fn has_conj(&mut self, p: &Poly) -> bool {
        if p.t.len() > 8 {
            return false;
        }
        for &m in p.t.iter() {
            for i in 0..self.monos[m as usize].len() {
                let v = self.monos[m as usize][i];
                if matches!(self.vars[v as usize], VarDef::Conj(_)) && self.conj_table(v).is_some() {
                    return true;
                }
            }
        }
        false
    }
    /// linear with at least two variables
    fn multi_linear(&self, p: &Poly) -> bool {
        p.t.len() >= 2 && !(p.t.len() == 2 && p.t[0] == 0) && self.is_linear(p)
    }
    fn is_linear(&self, p: &Poly) -> bool {
        p.t.iter().all(|&m| self.monos[m as usize].len() <= 1)
    }
    /// truth table of a conjunction variable over base variables, when small
    fn conj_table(&mut self, v: Var) -> Option<Rc<Tt>> {
        if let Some(r) = self.conj_tt.get(&v) {
            return r.clone();
        }
        let bs = match &self.vars[v as usize] {
            VarDef::Conj(b) => b.clone(),
            _ => return None,
        };
        let r = if bs.len() > MAXTT || bs.iter().any(|b| matches!(b, Bit::C(_))) {
            None
        } else {
            self.group_rep(&bs).map(|(ts, u)| {
                let mut acc = Tt::constant(true).lift(&u);
                for t in ts {
                    acc = acc.and(&t.lift(&u));
                }
                Rc::new(acc)
            })
        };
        self.conj_tt.insert(v, r.clone());
        r
    }
    /// base variables of a polynomial (looking through truth tables and small conjunctions), or
    /// None when there are too many
    fn base_support(&mut self, p: &Poly) -> Option<(Vec<Var>, bool)> {
        let mut s: Vec<Var> = vec![];
        let mut plain = true;
        let mut seen: FxSet<Var> = FxSet::default();
        for &m in p.t.iter() {
            for i in 0..self.monos[m as usize].len() {
                let v = self.monos[m as usize][i];
                if !seen.insert(v) {
                    continue;
                }
                let sub = match &self.vars[v as usize] {
                    VarDef::Tt(t) if !self.opaque.contains(&v) => Some(t.clone()),
                    VarDef::Conj(_) => self.conj_table(v),
                    _ => None,
                };
                match sub {
                    Some(t) => {
                        plain = false;
                        s = tt::union(&s, &t.vars);
                    }
                    None => {
                        if let Err(k) = s.binary_search(&v) {
                            s.insert(k, v);
                        }
                    }
                }
                if s.len() > MAXTT {
                    return None;
                }
            }
        }
        Some((s, plain))
    }
    fn poly_tt(&mut self, p: &Poly) -> Option<Tt> {
        if let Some((t, neg)) = self.as_tt(p) {
            return Some(if neg { t.not() } else { (*t).clone() });
        }
        let (sup, plain) = self.base_support(p)?;
        if plain {
            let mut w = vec![0u64; tt::words(sup.len())];
            for &m in p.t.iter() {
                let mut k = 0usize;
                for v in self.monos[m as usize].iter() {
                    k |= 1 << sup.binary_search(v).unwrap();
                }
                w[k >> 6] ^= 1 << (k & 63);
            }
            return Some(Tt::from_anf(sup, w));
        }
        if p.t.len() > 4096 {
            return None;
        }
        let mut vt: FxMap<Var, Tt> = FxMap::default();
        let zero = Tt::constant(false).lift(&sup);
        let mut acc = zero.clone();
        for &m in p.t.iter() {
            let mut r = zero.not();
            for i in 0..self.monos[m as usize].len() {
                let v = self.monos[m as usize][i];
                if !vt.contains_key(&v) {
                    let sub = match &self.vars[v as usize] {
                        VarDef::Tt(t) if !self.opaque.contains(&v) => Some(t.clone()),
                        VarDef::Conj(_) => self.conj_table(v),
                        _ => None,
                    };
                    let t = match sub {
                        Some(t) => t.lift(&sup),
                        None => Tt::var(v).lift(&sup),
                    };
                    vt.insert(v, t);
                }
                r = r.and(&vt[&v]);
            }
            acc = acc.xor(&r);
        }
        Some(acc)
    }
    /// linear cut variables among the variables of p (and of the truth tables in p)
    fn lin_cuts(&mut self, p: &Poly) -> Vec<(Var, Rc<Poly>)> {
        let s = match self.base_support(p) {
            Some((s, _)) => s,
            None => return vec![],
        };
        let mut o = vec![];
        for v in s {
            if let VarDef::Poly(d) = &self.vars[v as usize] {
                let d = d.clone();
                if self.is_linear(&d) {
                    o.push((v, d));
                }
            }
        }
        o
    }
    /// Rewrite the plain polynomial p in terms of the linear cut variables `cuts` when that lowers
    /// the number of variables of p not among them.
    fn rewrite_in(&mut self, p: &Rc<Poly>, cuts: &[(Var, Rc<Poly>)]) -> Option<Rc<Poly>> {
        let linear = p.t.iter().all(|&m| self.monos[m as usize].len() <= 1);
        if p.t.len() > if linear { 4096 } else { 64 } || cuts.is_empty() {
            return None;
        }
        let names: FxSet<Var> = cuts.iter().map(|c| c.0).collect();
        if linear {
            // full elimination: is p in the span of the cut definitions?
            let mut rows: Vec<(Mono, Vec<Mono>)> = vec![];
            let name_monos: FxSet<Mono> = names.iter().map(|&v| self.var_mono[v as usize]).collect();
            let reduce = |mut row: Vec<Mono>, rows: &[(Mono, Vec<Mono>)]| {
                for (pm, r) in rows {
                    if row.binary_search(pm).is_ok() {
                        row.extend_from_slice(r);
                        row = xor_sorted(row);
                    }
                }
                row
            };
            for (v, d) in cuts {
                let mut row: Vec<Mono> = d.t.to_vec();
                row.push(self.var_mono[*v as usize]);
                let row = reduce(xor_sorted(row), &rows);
                if let Some(&pm) = row.iter().find(|&&m| m != 0 && !name_monos.contains(&m)) {
                    rows.push((pm, row));
                }
            }
            let r = reduce(p.t.to_vec(), &rows);
            if r.iter().all(|m| *m == 0 || name_monos.contains(m)) {
                if r.is_empty() || *r == *p.t {
                    return None;
                }
                return Some(Rc::new(Poly { t: r.into_boxed_slice() }));
            }
        }
        let (sup, plain) = self.base_support(p)?;
        if !plain {
            return None;
        }
        let outside = |s: &[Var]| s.iter().filter(|v| !names.contains(v)).count();
        let before = outside(&sup);
        // equations v + def = 0, solved for a pivot that occurs in p
        let mut cur: Vec<Mono> = p.t.to_vec();
        let mut eqs: Vec<(Var, Vec<Mono>)> = vec![]; // pivot -> replacement
        for (v, d) in cuts {
            let mut row: Vec<Mono> = d.t.to_vec();
            row.push(self.var_mono[*v as usize]);
            row = xor_sorted(row);
            for (pv, rep) in &eqs {
                let pm = self.var_mono[*pv as usize];
                if row.contains(&pm) {
                    let mut r: Vec<Mono> = row.iter().copied().filter(|&m| m != pm).collect();
                    r.extend_from_slice(rep);
                    row = xor_sorted(r);
                }
            }
            let mut piv = None;
            for &m in &row {
                if m == 0 {
                    continue;
                }
                let x = self.monos[m as usize][0];
                if names.contains(&x) {
                    continue;
                }
                if cur.iter().any(|&m| self.monos[m as usize].binary_search(&x).is_ok()) {
                    piv = Some(x);
                    break;
                }
            }
            let x = match piv {
                Some(x) => x,
                None => continue,
            };
            let xm = self.var_mono[x as usize];
            let rep: Vec<Mono> = row.into_iter().filter(|&m| m != xm).collect();
            let mut out: Vec<Mono> = vec![];
            for &m in &cur {
                if let Ok(k) = self.monos[m as usize].binary_search(&x) {
                    let mut r = self.monos[m as usize].to_vec();
                    r.remove(k);
                    let q = self.intern(r.into_boxed_slice());
                    for &y in &rep {
                        let z = self.mono_mul(q, y);
                        out.push(z);
                    }
                } else {
                    out.push(m);
                }
            }
            cur = xor_sorted(out);
            if cur.len() > if linear { 8192 } else { 512 } {
                return None;
            }
            for (_, r) in eqs.iter_mut() {
                if r.contains(&xm) {
                    let mut n: Vec<Mono> = r.iter().copied().filter(|&m| m != xm).collect();
                    n.extend_from_slice(&rep);
                    *r = xor_sorted(n);
                }
            }
            eqs.push((x, rep));
        }
        if eqs.is_empty() || cur.is_empty() {
            return None;
        }
        let q = Rc::new(Poly { t: cur.into_boxed_slice() });
        let (s2, _) = self.base_support(&q)?;
        if outside(&s2) < before {
            Some(q)
        } else {
            None
        }
    }
    fn tt_op(&mut self, p: &Rc<Poly>, q: &Rc<Poly>, and: bool) -> Option<Bit> {
        let (mut p, mut q) = (p.clone(), q.clone());
        if and {
            let cp = self.lin_cuts(&p);
            let cq = self.lin_cuts(&q);
            if let Some(n) = self.rewrite_in(&p, &cq) {
                p = n;
            }
            if let Some(n) = self.rewrite_in(&q, &cp) {
                q = n;
            }
        }
        let (p, q) = (&p, &q);
        let mut x = self.poly_tt(p);
        let mut y = self.poly_tt(q);
        let fits = |x: &Option<Tt>, y: &Option<Tt>| match (x, y) {
            (Some(x), Some(y)) => tt::union(&x.vars, &y.vars).len() <= MAXTT,
            _ => false,
        };
        if !fits(&x, &y) {
            if !and {
                return None;
            }
            for (o, z) in [(p, &mut x), (q, &mut y)] {
                if self.multi_linear(o) {
                    if let Bit::P(c) = self.cut_poly(o) {
                        *z = self.poly_tt(&c);
                    }
                }
            }
            if !fits(&x, &y) {
                // truth-table variables that the other side uses as atoms
                let mut op: FxSet<Var> = FxSet::default();
                for z in [&x, &y] {
                    if let Some(z) = z {
                        for &v in &z.vars {
                            if matches!(self.vars[v as usize], VarDef::Tt(_)) {
                                op.insert(v);
                            }
                        }
                    }
                }
                if op.is_empty() {
                    return None;
                }
                self.opaque = op;
                x = self.poly_tt(p);
                y = self.poly_tt(q);
                self.opaque = FxSet::default();
                if !fits(&x, &y) {
                    return None;
                }
            }
        }
        let (x, y) = (x?, y?);
        let u = tt::union(&x.vars, &y.vars);
        let (x, y) = (x.lift(&u), y.lift(&u));
        let r = if and { x.and(&y) } else { x.xor(&y) };
        Some(self.from_tt(r))
    }
    /// Bit of a truth table: a polynomial when it is small or quadratic, else a hash-consed variable.
    pub fn from_tt(&mut self, t: Tt) -> Bit {
        let t = t.reduce();
        if t.vars.is_empty() {
            return Bit::C(t.w[0] & 1 == 1);
        }
        let a = t.anf();
        let terms: usize = a.iter().map(|x| x.count_ones() as usize).sum();
        let mut deg = 0;
        if terms <= 1200 {
            for (i, x) in a.iter().enumerate() {
                let mut x = *x;
                while x != 0 {
                    let b = x.trailing_zeros() as usize;
                    x &= x - 1;
                    deg = deg.max((i << 6 | b).count_ones());
                }
            }
        }
        if terms <= 24 || (terms <= 1200 && deg <= 2) {
            let mut v: Vec<Mono> = Vec::with_capacity(terms);
            for (i, x) in a.iter().enumerate() {
                let mut x = *x;
                while x != 0 {
                    let b = x.trailing_zeros() as usize;
                    x &= x - 1;
                    let k = i << 6 | b;
                    let m: Vec<Var> = (0..t.vars.len()).filter(|j| k >> j & 1 == 1).map(|j| t.vars[j]).collect();
                    v.push(self.intern(m.into_boxed_slice()));
                }
            }
            v.sort_unstable();
            if deg <= 2 {
                // re-expand linear cuts
                let mut defs: FxMap<Var, Rc<Poly>> = FxMap::default();
                let mut any = false;
                for x in &t.vars {
                    if let VarDef::Poly(d) = &self.vars[*x as usize] {
                        let d = d.clone();
                        if self.is_linear(&d) {
                            defs.insert(*x, d);
                            any = true;
                        }
                    }
                }
                if any {
                    let mut cost = 0usize;
                    for &m in &v {
                        let mut k = 1usize;
                        for x in self.monos[m as usize].iter() {
                            k = k.saturating_mul(defs.get(x).map_or(1, |d| d.t.len()));
                        }
                        cost = cost.saturating_add(k);
                    }
                    if cost <= 1 << 18 {
                        let mut out: Vec<Mono> = Vec::with_capacity(cost);
                        for &m in &v {
                            let vs: Vec<Var> = self.monos[m as usize].to_vec();
                            let mut fs: Vec<Rc<Poly>> = vec![];
                            for x in vs {
                                fs.push(match defs.get(&x) {
                                    Some(d) => d.clone(),
                                    None => Rc::new(Poly { t: Box::new([self.var_mono[x as usize]]) }),
                                });
                            }
                            match fs.len() {
                                0 => out.push(0),
                                1 => out.extend_from_slice(&fs[0].t),
                                _ => {
                                    for &a in fs[0].t.iter() {
                                        for &b in fs[1].t.iter() {
                                            let m = self.mono_mul(a, b);
                                            out.push(m);
                                        }
                                    }
                                }
                            }
                        }
                        return mk(xor_sorted(out));
                    }
                }
            }
            return mk(v);
        }
        let neg = t.get(0);
        let t = Rc::new(if neg { t.not() } else { t });
        let v = match self.def_tt.get(&t) {
            Some(&v) => v,
            None => {
                self.n_tt += 1;
                let v = self.new_var(VarDef::Tt(t.clone()));
                self.def_tt.insert(t, v);
                v
            }
        };
        let b = var_bit(self, v);
        if neg {
            b.not()
        } else {
            b
        }
    }
    /// Truth tables of a group of bits that are combined nonlinearly, over a common set of at most
    /// MAXTT variables. Depends on the group only, so that every operation on the same group uses
    /// the same variables: base variables when there are no more of them than bits; else linear
    /// forms become variables of their own; else every bit does.
    /// exact mode (few inputs): every function of the inputs has one representation
    fn exact_norm(&mut self, p: &Rc<Poly>) -> Option<Bit> {
        let odd = p.t.iter().any(|&m| self.monos[m as usize].iter().any(|&v| !matches!(self.vars[v as usize], VarDef::Input { .. } | VarDef::Uf { .. } | VarDef::Uninit)));
        if !odd && (p.t.len() <= 24 || self.deg(p) <= 2) {
            return None;
        }
        let t = self.poly_tt(p)?;
        Some(self.from_tt(t))
    }
    fn exact_and(&mut self, bs: &[Bit]) -> Option<Bit> {
        let mut acc = Tt::constant(true);
        for b in bs {
            let t = match b {
                Bit::P(p) => self.poly_tt(p)?,
                b => Tt::constant(b.is_const()?),
            };
            let u = tt::union(&acc.vars, &t.vars);
            if u.len() > MAXTT {
                return None;
            }
            acc = acc.lift(&u).and(&t.lift(&u)).reduce();
            if acc.vars.is_empty() && !acc.get(0) {
                return Some(ZERO);
            }
        }
        Some(self.from_tt(acc))
    }
    fn group_rep(&mut self, atoms: &[Bit]) -> Option<(Vec<Tt>, Vec<Var>)> {
        let mut ts: Vec<Tt> = vec![];
        let mut u: Vec<Var> = vec![];
        let mut ok = true;
        for a in atoms {
            let p = match a {
                Bit::P(p) => p,
                _ => return None,
            };
            match self.poly_tt(p) {
                Some(t) => {
                    u = tt::union(&u, &t.vars);
                    ts.push(t);
                }
                None => {
                    ok = false;
                    break;
                }
            }
            if u.len() > MAXTT {
                ok = false;
                break;
            }
        }
        if !ok || (u.len() > atoms.len() && !self.exact) {
            // cut the linear multi-term atoms, then everything that is not a truth table
            let mut plain = true;
            for a in atoms {
                if let Bit::P(p) = a {
                    plain &= self.base_support(p).map_or(true, |x| x.1);
                }
            }
            for round in 0..2 {
                let mut ts2: Vec<Tt> = vec![];
                let mut u2: Vec<Var> = vec![];
                let mut ok2 = true;
                for a in atoms {
                    let p = match a {
                        Bit::P(p) => p.clone(),
                        _ => return None,
                    };
                    let simple = p.t.len() == 1 || (p.t.len() == 2 && p.t[0] == 0);
                    let q = if !simple && (round == 1 || self.is_linear(&p)) {
                        self.cut_poly(&p)
                    } else {
                        Bit::P(p)
                    };
                    let q = match q {
                        Bit::P(p) => p,
                        b => {
                            ts2.push(Tt::constant(b.is_const()?));
                            continue;
                        }
                    };
                    let t = if round == 1 && self.as_tt(&q).is_some() {
                        let x = self.monos[q.t[q.t.len() - 1] as usize][0];
                        let t = Tt::var(x);
                        Some(if q.t.len() == 2 { t.not() } else { t })
                    } else {
                        self.poly_tt(&q)
                    };
                    match t {
                        Some(t) => {
                            u2 = tt::union(&u2, &t.vars);
                            ts2.push(t);
                        }
                        None => {
                            ok2 = false;
                            break;
                        }
                    }
                    if u2.len() > MAXTT {
                        ok2 = false;
                        break;
                    }
                }
                if ok2 && (!ok || u2.len() < u.len()) {
                    u = u2;
                    ts = ts2;
                    ok = true;
                }
                if ok && (u.len() <= atoms.len().max(12) || !plain) {
                    break;
                }
            }
            if !ok {
                return None;
            }
        }
        Some((ts, u))
    }
    /// constant-table lookup through truth tables
    fn tt_lookup(&mut self, atoms: &[Bit], tables: &[Vec<bool>]) -> Option<Vec<Bit>> {
        let (ts, u) = self.group_rep(atoms)?;
        let n = u.len();
        let size = 1usize << n;
        let mut idx = vec![0u32; size];
        for (k, t) in ts.iter().enumerate() {
            let l = t.lift(&u);
            for i in 0..size {
                if l.get(i) {
                    idx[i] |= 1 << k;
                }
            }
        }
        let mut out = vec![];
        for tb in tables {
            let mut w = vec![0u64; tt::words(n)];
            for i in 0..size {
                if tb[idx[i] as usize] {
                    w[i >> 6] |= 1 << (i & 63);
                }
            }
            out.push(self.from_tt(Tt { vars: u.clone(), w }));
        }
        Some(out)
    }

    /// Substitute definitions (highest variable first) until only free variables and truth-table
    /// variables remain, or the size limit is exceeded.
    pub fn expand(&mut self, p: &Rc<Poly>, limit: usize) -> Option<Bit> {
        self.expand_with(p, limit, false)
    }
    /// ANF of a truth-table variable, when short
    fn tt_poly(&mut self, v: Var) -> Option<Rc<Poly>> {
        if let Some(r) = self.tt_anf.get(&v) {
            return r.clone();
        }
        let r = match &self.vars[v as usize] {
            VarDef::Tt(t) => {
                let t = t.clone();
                let a = t.anf();
                let terms: usize = a.iter().map(|x| x.count_ones() as usize).sum();
                if terms <= 6000 {
                    let mut out: Vec<Mono> = Vec::with_capacity(terms);
                    for (i, x) in a.iter().enumerate() {
                        let mut x = *x;
                        while x != 0 {
                            let b = x.trailing_zeros() as usize;
                            x &= x - 1;
                            let k = i << 6 | b;
                            let m: Vec<Var> = (0..t.vars.len()).filter(|j| k >> j & 1 == 1).map(|j| t.vars[j]).collect();
                            out.push(self.intern(m.into_boxed_slice()));
                        }
                    }
                    out.sort_unstable();
                    Some(Rc::new(Poly { t: out.into_boxed_slice() }))
                } else {
                    None
                }
            }
            _ => None,
        };
        self.tt_anf.insert(v, r.clone());
        r
    }
    /// As `expand`; with `deep`, truth-table variables with a short normal form are expanded too.
    pub fn expand_with(&mut self, p: &Rc<Poly>, limit: usize, deep: bool) -> Option<Bit> {
        let limit = limit.min(self.cap);
        let mut cur: Vec<Mono> = p.t.to_vec();
        let mut work = 0usize;
        loop {
            let mut top: Option<Var> = None;
            for &m in &cur {
                for i in 0..self.monos[m as usize].len() {
                    let v = self.monos[m as usize][i];
                    if top.map_or(true, |t| v > t)
                        && match self.vars[v as usize] {
                            VarDef::Poly(_) => true,
                            VarDef::Tt(_) => deep && self.tt_poly(v).is_some(),
                            _ => false,
                        }
                    {
                        top = Some(v);
                    }
                }
            }
            let v = match top {
                None => return Some(mk(cur)),
                Some(v) => v,
            };
            let d = match &self.vars[v as usize] {
                VarDef::Poly(d) => d.clone(),
                _ => self.tt_poly(v).unwrap(),
            };
            let mut out: Vec<Mono> = Vec::with_capacity(cur.len() * 2);
            for m in cur {
                let mv = &self.monos[m as usize];
                if let Ok(k) = mv.binary_search(&v) {
                    let mut r = mv.to_vec();
                    r.remove(k);
                    let q = self.intern(r.into_boxed_slice());
                    work += d.t.len();
                    if work > limit {
                        return None;
                    }
                    for &x in d.t.iter() {
                        let y = self.mono_mul(q, x);
                        out.push(y);
                    }
                } else {
                    out.push(m);
                }
            }
            cur = xor_sorted(out);
            if cur.is_empty() {
                return Some(ZERO);
            }
        }
    }
}

/// Full expansion of a bit's polynomial definitions; conjunctions are expanded componentwise.
pub fn simplify(b: &Bit, limit: usize) -> Bit {
    simplify_with(b, limit, false)
}
pub fn simplify_with(b: &Bit, limit: usize, deep: bool) -> Bit {
    match b {
        Bit::C(_) => b.clone(),
        Bit::P(p) => {
            // a (negated) conjunction?
            let cj = with(|c| {
                if p.t.len() <= 2 && (p.t.len() == 1 || p.t[0] == 0) {
                    let m = &c.monos[p.t[p.t.len() - 1] as usize];
                    if m.len() == 1 {
                        if let VarDef::Conj(bs) = &c.vars[m[0] as usize] {
                            return Some((bs.clone(), p.t.len() == 2));
                        }
                    }
                }
                None
            });
            if let Some((bs, neg)) = cj {
                let mut out = vec![];
                for x in bs.iter() {
                    match simplify_with(x, limit, deep) {
                        Bit::C(true) => {}
                        Bit::C(false) => return Bit::C(neg),
                        y => out.push(y),
                    }
                }
                let r = conj(out);
                return if neg { r.not() } else { r };
            }
            match with(|c| c.expand_with(p, limit, deep)) {
                Some(r) => r,
                None => b.clone(),
            }
        }
    }
}

/// Sort and cancel pairs.
pub fn xor_sorted(mut v: Vec<Mono>) -> Vec<Mono> {
    v.sort_unstable();
    let mut out = Vec::with_capacity(v.len());
    let mut i = 0;
    while i < v.len() {
        let mut j = i + 1;
        while j < v.len() && v[j] == v[i] {
            j += 1;
        }
        if (j - i) & 1 == 1 {
            out.push(v[i]);
        }
        i = j;
    }
    out
}

/// Conjunction of many bits.
pub fn conj(bits: Vec<Bit>) -> Bit {
    let mut bs: Vec<Bit> = Vec::with_capacity(bits.len());
    let mut seen: FxSet<Bit> = FxSet::default();
    for b in bits {
        match b {
            Bit::C(false) => return ZERO,
            Bit::C(true) => {}
            p => {
                if seen.insert(p.clone()) {
                    bs.push(p)
                }
            }
        }
    }
    for b in &bs {
        if seen.contains(&b.not()) {
            return ZERO;
        }
    }
    if bs.is_empty() {
        return ONE;
    }
    if bs.len() == 1 {
        return bs.pop().unwrap();
    }
    if let Some(r) = with(|c| if c.exact { c.exact_and(&bs) } else { None }) {
        return r;
    }
    // cheap: expand
    let mut cost = 1usize;
    for b in &bs {
        cost = cost.saturating_mul(b.nterms());
    }
    if cost <= 16 {
        let mut r = ONE;
        for b in &bs {
            r = r.and(b);
        }
        return r;
    }
    bs.sort_by(|a, b| match (a, b) {
        (Bit::P(x), Bit::P(y)) => x.t.cmp(&y.t),
        _ => std::cmp::Ordering::Equal,
    });
    with(|c| {
        let key = Rc::new(bs);
        let v = match c.def_conj.get(&key) {
            Some(&v) => v,
            None => {
                let v = c.new_var(VarDef::Conj(key.clone()));
                c.def_conj.insert(key, v);
                v
            }
        };
        var_bit(c, v)
    })
}

/// a < b (unsigned) through a truth table, when few variables are involved
pub fn ult_table(a: &[Bit], b: &[Bit]) -> Option<Bit> {
    let atoms: Vec<Bit> = a.iter().chain(b).filter(|x| x.is_const().is_none()).cloned().collect();
    if atoms.is_empty() || atoms.len() > 20 || a.len() > 64 {
        return None;
    }
    with(|c| {
        let (ts, u) = c.group_rep(&atoms)?;
        let ls: Vec<Tt> = ts.iter().map(|t| t.lift(&u)).collect();
        let n = u.len();
        let mut w = vec![0u64; tt::words(n)];
        for i in 0..1usize << n {
            let mut k = 0;
            let mut val = |bits: &[Bit]| {
                let mut x = 0u64;
                for (j, y) in bits.iter().enumerate() {
                    let v = match y {
                        Bit::C(z) => *z,
                        _ => {
                            k += 1;
                            ls[k - 1].get(i)
                        }
                    };
                    x |= (v as u64) << j;
                }
                x
            };
            let x = val(a);
            let y = val(b);
            if x < y {
                w[i >> 6] |= 1 << (i & 63);
            }
        }
        Some(c.from_tt(Tt { vars: u, w }))
    })
}

/// Multilinear table interpolation: value of `table[idx]` where idx bits are `atoms` (LSB first),
/// table entries are bits.
pub fn table_lookup(atoms: &[Bit], tables: Vec<Vec<Bit>>) -> Vec<Bit> {
    // Shortcut: atoms all symbolic. Fast path for constant tables through Moebius transform.
    let n = 1usize << atoms.len();
    let mut atoms = atoms.to_vec();
    let maxdeg = |tables: &Vec<Vec<Bit>>| -> (bool, Vec<Vec<bool>>) {
        let mut all_c = true;
        let mut out = vec![];
        for t in tables {
            if t.iter().any(|b| b.is_const().is_none()) {
                all_c = false;
                break;
            }
            let mut v: Vec<bool> = t.iter().map(|b| b.is_const().unwrap()).collect();
            let mut s = 1;
            while s < n {
                for i in 0..n {
                    if i & s != 0 {
                        v[i] ^= v[i ^ s];
                    }
                }
                s <<= 1;
            }
            out.push(v);
        }
        (all_c, out)
    };
    if tables.iter().all(|t| t.iter().all(|b| b.is_const().is_some())) {
        let tb: Vec<Vec<bool>> = tables.iter().map(|t| t.iter().map(|b| b.is_const().unwrap()).collect()).collect();
        if let Some(r) = with(|c| c.tt_lookup(&atoms, &tb)) {
            return r;
        }
    }
    let (all_c, anf) = maxdeg(&tables);
    if all_c {
        // estimate the expansion cost
        let mut cost = 0usize;
        let mut used = vec![false; n];
        for v in &anf {
            for (i, b) in v.iter().enumerate() {
                if *b {
                    used[i] = true;
                }
            }
        }
        for i in 1..n {
            if used[i] {
                let mut p = 1usize;
                for (k, a) in atoms.iter().enumerate() {
                    if i >> k & 1 == 1 {
                        p = p.saturating_mul(a.nterms());
                    }
                }
                cost = cost.saturating_add(p);
            }
        }
        if cost > 60_000 {
            for a in atoms.iter_mut() {
                *a = a.cut(1);
            }
        }
        let mut prods: Vec<Option<Bit>> = vec![None; n];
        prods[0] = Some(ONE);
        fn get(prods: &mut Vec<Option<Bit>>, atoms: &[Bit], i: usize) -> Bit {
            if let Some(b) = &prods[i] {
                return b.clone();
            }
            let k = i.trailing_zeros() as usize;
            let r = get(prods, atoms, i & (i - 1)).and(&atoms[k]);
            prods[i] = Some(r.clone());
            r
        }
        let mut out = vec![];
        for v in &anf {
            let mut acc: Vec<Mono> = vec![];
            for i in 0..n {
                if v[i] {
                    match get(&mut prods, &atoms, i) {
                        Bit::C(true) => acc.push(0),
                        Bit::C(false) => {}
                        Bit::P(p) => acc.extend_from_slice(&p.t),
                    }
                }
            }
            out.push(mk(xor_sorted(acc)));
        }
        return out;
    }
    // general: mux tree
    let mut out = vec![];
    for mut t in tables {
        for a in atoms.iter().rev() {
            let h = t.len() / 2;
            let mut nt = Vec::with_capacity(h);
            for i in 0..h {
                nt.push(a.ite(&t[i + h], &t[i]));
            }
            t = nt;
        }
        out.push(t.pop().unwrap());
    }
    out
}

/// A model: values for free variables (default false), memo for defined ones.
pub struct Model {
    pub vals: RefCell<FxMap<Var, bool>>,
    seed: u64,
}
impl Model {
    pub fn new(vals: FxMap<Var, bool>) -> Self {
        Model { vals: RefCell::new(vals), seed: 0 }
    }
    /// all free variables pseudo-random
    pub fn random(seed: u64) -> Self {
        Model { vals: RefCell::new(FxMap::default()), seed }
    }
    /// the same assignment of free variables, except that the (input) bits get the value x
    pub fn with(&self, bits: &[Bit], x: u128) -> Self {
        let mut vals: FxMap<Var, bool> = FxMap::default();
        with(|c| {
            for (&v, &b) in self.vals.borrow().iter() {
                if matches!(c.vars[v as usize], VarDef::Input { .. } | VarDef::Uninit | VarDef::Uf { .. }) {
                    vals.insert(v, b);
                }
            }
            for (i, b) in bits.iter().enumerate() {
                if let Bit::P(p) = b {
                    let m = &c.monos[p.t[0] as usize];
                    vals.insert(m[0], x >> i & 1 == 1);
                }
            }
        });
        Model { vals: RefCell::new(vals), seed: self.seed }
    }
    pub fn eval(&self, b: &Bit) -> bool {
        match b {
            Bit::C(x) => *x,
            Bit::P(p) => CTX.with(|c| self.eval_poly(&c.borrow(), p)),
        }
    }
    pub fn eval_var(&self, c: &Ctx, v: Var) -> bool {
        if let Some(&b) = self.vals.borrow().get(&v) {
            return b;
        }
        let r = match &c.vars[v as usize] {
            VarDef::Poly(p) => self.eval_poly(c, p),
            VarDef::Tt(t) => {
                let mut k = 0usize;
                for (i, x) in t.vars.iter().enumerate() {
                    if self.eval_var(c, *x) {
                        k |= 1 << i;
                    }
                }
                t.get(k)
            }
            VarDef::Conj(bs) => bs.iter().all(|b| match b {
                Bit::C(x) => *x,
                Bit::P(p) => self.eval_poly(c, p),
            }),
            _ if self.seed != 0 => {
                let mut h = FxHasher::default();
                h.add(self.seed);
                h.add(v as u64 + 7);
                h.finish() >> 17 & 1 == 1
            }
            _ => false,
        };
        self.vals.borrow_mut().insert(v, r);
        r
    }
    fn eval_poly(&self, c: &Ctx, p: &Poly) -> bool {
        let mut r = false;
        for &m in p.t.iter() {
            let mut t = true;
            for &v in c.monos[m as usize].iter() {
                if !self.eval_var(c, v) {
                    t = false;
                    break;
                }
            }
            r ^= t;
        }
        r
    }
}

/// Debug rendering, following definitions to the given depth.
pub fn show(b: &Bit, depth: usize) -> String {
    let p = match b {
        Bit::C(x) => return format!("{}", *x as u8),
        Bit::P(p) => p.clone(),
    };
    let mut o = String::new();
    let mut vars: Vec<Var> = vec![];
    with(|c| {
        let mut ts: Vec<Mono> = p.t.to_vec();
        ts.sort_by_key(|&m| !c.monos[m as usize].iter().any(|&v| !matches!(c.vars[v as usize], VarDef::Input { .. })));
        for (i, &m) in ts.iter().enumerate() {
            if i > 12 {
                o.push_str(&format!(" + ...{} terms", p.t.len()));
                break;
            }
            if i > 0 {
                o.push_str(" + ");
            }
            let vs = &c.monos[m as usize];
            if vs.is_empty() {
                o.push('1');
            }
            for v in vs.iter() {
                match &c.vars[*v as usize] {
                    VarDef::Input { byte, bit } => o.push_str(&format!("i{byte}.{bit} ")),
                    VarDef::Uninit => o.push_str(&format!("undef{v} ")),
                    VarDef::Uf { call, bit } => o.push_str(&format!("uf{call}.{bit} ")),
                    VarDef::Poly(_) => o.push_str(&format!("p{v} ")),
                    VarDef::Conj(_) => o.push_str(&format!("c{v} ")),
                    VarDef::Tt(_) => o.push_str(&format!("t{v} ")),
                }
                if !vars.contains(v) {
                    vars.push(*v);
                }
            }
        }
    });
    if depth > 0 {
        vars.sort_by_key(|v| with(|c| !matches!(c.vars[*v as usize], VarDef::Tt(_))));
        for v in vars.into_iter().take(4) {
            let d = with(|c| c.vars[v as usize].clone());
            match d {
                VarDef::Poly(p) => o.push_str(&format!("\n  p{v} = {}", show(&Bit::P(p), depth - 1))),
                VarDef::Conj(bs) => {
                    o.push_str(&format!("\n  c{v} = and of {}:", bs.len()));
                    for b in bs.iter().take(3) {
                        o.push_str(&format!("\n    {}", show(b, depth - 1)));
                    }
                }
                VarDef::Tt(t) => {
                    let a = t.anf();
                    let n: u32 = a.iter().map(|x| x.count_ones()).sum();
                    let mut d = 0;
                    for i in 0..1usize << t.vars.len() {
                        if a[i >> 6] >> (i & 63) & 1 == 1 {
                            d = d.max(i.count_ones())
                        }
                    }
                    o.push_str(&format!("\n  t{v} ({n} terms deg {d}) over {:?}", t.vars));
                    for &x in t.vars.iter() {
                        let dd = with(|c| c.vars[x as usize].clone());
                        if let VarDef::Poly(p) = dd {
                            o.push_str(&format!("\n    where p{x} = {}", show(&Bit::P(p), 0)));
                        }
                    }
                }
                _ => {}
            }
        }
    }
    o
}

/// Table of a bit over its free variables, when these are few: Some(None) if it is never true, else
/// an assignment that makes it true.
pub fn small_sat(b: &Bit) -> Option<Option<FxMap<Var, bool>>> {
    let comps: Vec<(Bit, bool)> = match b {
        Bit::C(true) => return Some(Some(FxMap::default())),
        Bit::C(false) => return Some(None),
        Bit::P(p) => with(|c| {
            if p.t.len() <= 2 && (p.t.len() == 1 || p.t[0] == 0) {
                let m = &c.monos[p.t[p.t.len() - 1] as usize];
                if m.len() == 1 {
                    if let VarDef::Conj(bs) = &c.vars[m[0] as usize] {
                        return bs.iter().map(|x| (x.clone(), p.t.len() == 2)).collect();
                    }
                }
            }
            vec![(b.clone(), false)]
        }),
    };
    let neg = comps[0].1;
    let mut ts: Vec<Tt> = vec![];
    let mut u: Vec<Var> = vec![];
    for (x, _) in &comps {
        let p = match simplify_with(x, 1 << 14, true) {
            Bit::C(true) => continue,
            Bit::C(false) => {
                ts = vec![Tt::constant(false)];
                break;
            }
            Bit::P(p) => p,
        };
        let t = with(|c| {
            let mut sup: Vec<Var> = vec![];
            for &m in p.t.iter() {
                for &v in c.monos[m as usize].iter() {
                    if !matches!(c.vars[v as usize], VarDef::Input { .. } | VarDef::Uninit | VarDef::Uf { .. }) {
                        return None;
                    }
                    if let Err(k) = sup.binary_search(&v) {
                        sup.insert(k, v);
                        if sup.len() > MAXTT {
                            return None;
                        }
                    }
                }
            }
            c.poly_tt(&p)
        })?;
        u = tt::union(&u, &t.vars);
        if u.len() > MAXTT {
            return None;
        }
        ts.push(t);
    }
    let mut acc = Tt::constant(true).lift(&u);
    for t in ts {
        acc = acc.and(&t.lift(&u));
    }
    if neg {
        acc = acc.not();
    }
    for i in 0..1usize << u.len() {
        if acc.get(i) {
            return Some(Some(u.iter().enumerate().map(|(k, &v)| (v, i >> k & 1 == 1)).collect()));
        }
    }
    Some(None)
}

/// One variable that has this value.
pub fn name(b: &Bit) -> Bit {
    match b {
        Bit::P(p) if p.t.len() > 1 => with(|c| {
            let neg = p.t[0] == 0;
            let key = if neg { Rc::new(Poly { t: p.t[1..].to_vec().into_boxed_slice() }) } else { p.clone() };
            if key.t.len() == 1 {
                return b.clone();
            }
            let v = c.new_cut(key);
            let r = var_bit(c, v);
            if neg { r.not() } else { r }
        }),
        _ => b.clone(),
    }
}
/// A variable with this value, first tried as if nothing was known about it.
pub fn soft(b: &Bit) -> Bit {
    match name(b) {
        Bit::P(p) => with(|c| {
            let neg = p.t[0] == 0;
            let m = p.t[p.t.len() - 1];
            if c.monos[m as usize].len() > 1 {
                return Bit::P(p);
            }
            let mut v = c.monos[m as usize][0];
            match c.vars[v as usize] {
                VarDef::Poly(_) => {}
                VarDef::Tt(_) => v = c.new_cut(Rc::new(Poly { t: Box::new([m]) })),
                _ => return Bit::P(p),
            }
            c.soft.insert(v);
            let r = var_bit(c, v);
            if neg { r.not() } else { r }
        }),
        b => b,
    }
}
pub fn set_cap(n: usize) {
    with(|c| c.cap = n)
}
pub fn set_exact(on: bool) {
    with(|c| c.exact = on)
}
