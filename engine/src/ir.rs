//! IR data structures and the textual LLVM IR parser (LLVM 20 syntax as emitted by rustc).

use crate::poly::*;
use std::cell::{OnceCell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

pub type TyRef = Rc<Ty>;

#[derive(Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, TyRef),
    Vec(u32, TyRef),
    Struct(Vec<TyRef>, bool, Vec<u64>, u64, u64), // fields, packed, offsets, size, align
    Other,
}

impl Ty {
    /// store size in bytes
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::F32 => 4,
            Ty::F64 => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => {
                let bits = *n as u64 * t.bits() as u64;
                (bits + 7) / 8
            }
            Ty::Struct(_, _, _, s, _) => *s,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(w) => {
                let b = ((*w as u64 + 7) / 8).next_power_of_two();
                b.min(16)
            }
            Ty::Ptr => 8,
            Ty::F32 => 4,
            Ty::F64 => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            Ty::Struct(_, _, _, _, a) => *a,
        }
    }
    /// bits of a scalar or vector
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::F32 => 32,
            Ty::F64 => 64,
            Ty::Vec(n, t) => n * t.bits(),
            _ => (self.size() * 8) as u32,
        }
    }
    pub fn mk_struct(f: Vec<TyRef>, packed: bool) -> Ty {
        let mut offs = vec![];
        let mut o = 0u64;
        let mut al = 1u64;
        for t in &f {
            if !packed {
                let a = t.align();
                al = al.max(a);
                o = (o + a - 1) / a * a;
            }
            offs.push(o);
            o += t.size();
        }
        if !packed {
            o = (o + al - 1) / al * al;
        }
        Ty::Struct(f, packed, offs, o, al)
    }
}

#[derive(Clone, Debug)]
pub enum Val {
    I(u128),
    S(Rc<[Bit]>),
    V(Rc<Vec<Val>>),
    U,
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    BitCast,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpExt,
    FpTrunc,
}

#[derive(Debug)]
pub enum Inst {
    Bin(BinOp, TyRef, u32, Op, Op),
    ICmp(Pred, TyRef, u32, Op, Op),
    FCmp(String, TyRef, u32, Op, Op),
    Select(TyRef, u32, Op, Op, Op, bool), // last: condition is a vector
    Cast(CastOp, TyRef, TyRef, u32, Op),
    Gep(u32, Op, i64, Vec<(Op, i64, u32)>), // dst, base, const, (index, scale, width)
    Load(TyRef, u32, Op),
    Store(TyRef, Op, Op),
    Alloca(u32, u64, Op, u64), // dst, size, count, align
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(u32, Op, u32, Vec<(u128, u32)>),
    Ret(Option<(TyRef, Op)>),
    Call(Option<u32>, Callee, Vec<(TyRef, Op)>, TyRef, Option<u32>), // last: invoke's normal dest
    Unreachable,
    ExtractValue(u32, Op, Vec<u32>, TyRef),
    InsertValue(u32, Op, Op, Vec<u32>, TyRef),
    ExtractElement(u32, TyRef, Op, Op),
    InsertElement(u32, TyRef, Op, Op, Op),
    Shuffle(u32, TyRef, Op, Op, Vec<Option<u32>>),
    Rmw(u32, String, TyRef, Op, Op),
    CmpXchg(u32, TyRef, Op, Op, Op),
    Copy(u32, Op),
    Nop,
}

#[derive(Debug, Clone)]
pub enum Callee {
    F(u32),
    Ind(Op),
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(u32, HashMap<u32, Op>, TyRef)>,
    pub insts: Vec<Inst>,
}

#[derive(Debug)]
pub struct Func {
    pub id: u32,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
    ipd: OnceCell<Vec<u32>>,
}

pub const EXIT: u32 = u32::MAX;
pub const NOPD: u32 = u32::MAX - 1;

impl Func {
    fn succs(&self, b: u32) -> Vec<u32> {
        let bl = &self.blocks[b as usize];
        match bl.insts.last() {
            Some(Inst::Br(t)) => vec![*t],
            Some(Inst::CondBr(_, a, c)) => vec![*a, *c],
            Some(Inst::Switch(_, _, d, cs)) => {
                let mut v: Vec<u32> = cs.iter().map(|c| c.1).collect();
                v.push(*d);
                v
            }
            Some(Inst::Ret(_)) => vec![EXIT],
            Some(Inst::Call(_, _, _, _, Some(n))) => vec![*n],
            _ => vec![],
        }
    }
    /// Immediate post-dominator of each block, ignoring blocks that cannot reach a return.
    pub fn ipdom(&self, b: u32) -> u32 {
        self.ipd.get_or_init(|| self.compute_ipdom())[b as usize]
    }
    fn compute_ipdom(&self) -> Vec<u32> {
        let n = self.blocks.len();
        let ex = n; // virtual exit
        let mut preds: Vec<Vec<usize>> = vec![vec![]; n + 1];
        let mut succ: Vec<Vec<usize>> = vec![];
        for b in 0..n {
            let s: Vec<usize> =
                self.succs(b as u32).into_iter().map(|x| if x == EXIT { ex } else { x as usize }).collect();
            for &x in &s {
                preds[x].push(b);
            }
            succ.push(s);
        }
        succ.push(vec![]);
        // reverse post order from exit on the reversed graph
        let mut order = vec![];
        let mut seen = vec![false; n + 1];
        let mut st = vec![(ex, 0usize)];
        seen[ex] = true;
        while let Some((x, i)) = st.pop() {
            if i < preds[x].len() {
                st.push((x, i + 1));
                let p = preds[x][i];
                if !seen[p] {
                    seen[p] = true;
                    st.push((p, 0));
                }
            } else {
                order.push(x);
            }
        }
        order.reverse();
        let mut num = vec![usize::MAX; n + 1];
        for (i, &x) in order.iter().enumerate() {
            num[x] = i;
        }
        let mut id = vec![usize::MAX; n + 1];
        id[ex] = ex;
        let mut changed = true;
        while changed {
            changed = false;
            for &b in order.iter().skip(1) {
                let mut ni = usize::MAX;
                for &s in &succ[b] {
                    if num[s] == usize::MAX || id[s] == usize::MAX {
                        continue;
                    }
                    ni = if ni == usize::MAX {
                        s
                    } else {
                        let (mut x, mut y) = (ni, s);
                        while x != y {
                            while num[x] > num[y] {
                                x = id[x];
                            }
                            while num[y] > num[x] {
                                y = id[y];
                            }
                        }
                        x
                    };
                }
                if ni != id[b] {
                    id[b] = ni;
                    changed = true;
                }
            }
        }
        (0..n)
            .map(|b| {
                if id[b] == usize::MAX {
                    NOPD
                } else if id[b] == ex {
                    EXIT
                } else {
                    id[b] as u32
                }
            })
            .collect()
    }
}

pub struct FuncDecl {
    pub name: String,
    pub body: Option<(usize, usize)>, // byte range in source of "define" line .. "}"
    pub parsed: OnceCell<Rc<Func>>,
}

pub struct GlobalDecl {
    pub name: String,
    pub ty: Option<TyRef>,
    pub init: Option<(usize, usize)>,
    pub addr: u64,
    pub external: bool,
}

pub struct Module {
    pub src: String,
    pub funcs: Vec<FuncDecl>,
    pub fmap: HashMap<String, u32>,
    pub globals: Vec<GlobalDecl>,
    pub gmap: HashMap<String, u32>,
    pub named_tys: RefCell<HashMap<String, TyRef>>,
    pub tydefs: HashMap<String, String>,
    pub aliases: HashMap<String, String>,
}

pub const FUNC_OBJ: u64 = 1;
pub const FIRST_GLOBAL_OBJ: u64 = 16;

pub fn func_addr(id: u32) -> u64 {
    (FUNC_OBJ << 32) | ((id as u64 + 1) * 16)
}

#[derive(Clone, Debug, PartialEq)]
enum Tok<'a> {
    Word(&'a str),
    Local(&'a str),
    Global(&'a str),
    Int(&'a str),
    Float(&'a str),
    CStr(&'a str),
    Str(&'a str),
    Meta,
    Attr,
    P(u8),
    Eof,
}

struct Lex<'a> {
    s: &'a str,
    b: &'a [u8],
    i: usize,
    pk: Option<Tok<'a>>,
}

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lex<'a> {
    fn new(s: &'a str) -> Self {
        Lex { s, b: s.as_bytes(), i: 0, pk: None }
    }
    fn quoted(&mut self) -> &'a str {
        // at opening quote
        let st = self.i + 1;
        let mut j = st;
        while self.b[j] != b'"' {
            j += 1;
        }
        self.i = j + 1;
        &self.s[st..j]
    }
    fn word(&mut self) -> &'a str {
        let st = self.i;
        while self.i < self.b.len() && is_word(self.b[self.i]) {
            self.i += 1;
        }
        &self.s[st..self.i]
    }
    fn raw_next(&mut self) -> Tok<'a> {
        loop {
            if self.i >= self.b.len() {
                return Tok::Eof;
            }
            let c = self.b[self.i];
            if c == b' ' || c == b'\n' || c == b'\t' || c == b'\r' {
                self.i += 1;
                continue;
            }
            if c == b';' {
                while self.i < self.b.len() && self.b[self.i] != b'\n' {
                    self.i += 1;
                }
                continue;
            }
            break;
        }
        let c = self.b[self.i];
        match c {
            b'%' | b'@' => {
                self.i += 1;
                let n = if self.b[self.i] == b'"' { self.quoted() } else { self.word() };
                if c == b'%' {
                    Tok::Local(n)
                } else {
                    Tok::Global(n)
                }
            }
            b'"' => Tok::Str(self.quoted()),
            b'c' if self.i + 1 < self.b.len() && self.b[self.i + 1] == b'"' => {
                self.i += 1;
                Tok::CStr(self.quoted())
            }
            b'!' => {
                self.i += 1;
                if self.i < self.b.len() && is_word(self.b[self.i]) {
                    self.word();
                } else if self.i < self.b.len() && self.b[self.i] == b'{' {
                    let mut d = 0;
                    while self.i < self.b.len() {
                        match self.b[self.i] {
                            b'{' => d += 1,
                            b'}' => {
                                d -= 1;
                                if d == 0 {
                                    self.i += 1;
                                    break;
                                }
                            }
                            _ => {}
                        }
                        self.i += 1;
                    }
                }
                Tok::Meta
            }
            b'#' => {
                self.i += 1;
                self.word();
                Tok::Attr
            }
            b'-' | b'0'..=b'9' => {
                let w = self.word();
                if w.starts_with("0x") || w.contains('.') || (w.contains('e') && !w.starts_with("0x")) {
                    // float; may have e+00
                    let st = self.i - w.len();
                    if self.i < self.b.len() && self.b[self.i] == b'+' {
                        self.i += 1;
                        self.word();
                    }
                    Tok::Float(&self.s[st..self.i])
                } else {
                    Tok::Int(w)
                }
            }
            b'.' if self.s[self.i..].starts_with("...") => {
                self.i += 3;
                Tok::Word("...")
            }
            _ if is_word(c) => Tok::Word(self.word()),
            _ => {
                self.i += 1;
                Tok::P(c)
            }
        }
    }
    fn next(&mut self) -> Tok<'a> {
        if let Some(t) = self.pk.take() {
            return t;
        }
        self.raw_next()
    }
    fn peek(&mut self) -> &Tok<'a> {
        if self.pk.is_none() {
            let t = self.raw_next();
            self.pk = Some(t);
        }
        self.pk.as_ref().unwrap()
    }
    fn expect(&mut self, p: u8) {
        let t = self.next();
        if t != Tok::P(p) {
            panic!("expected {:?} got {:?} in: {}", p as char, t, self.ctx());
        }
    }
    fn ctx(&self) -> String {
        let n = self.s.len().min(400);
        let mut e = n;
        while !self.s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{} (at {})", &self.s[..e], self.i)
    }
    fn eat(&mut self, p: u8) -> bool {
        if *self.peek() == Tok::P(p) {
            self.next();
            true
        } else {
            false
        }
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if let Tok::Word(x) = self.peek() {
            if *x == w {
                self.next();
                return true;
            }
        }
        false
    }
    fn int(&mut self) -> i64 {
        match self.next() {
            Tok::Int(s) => s.parse().unwrap(),
            t => panic!("int expected, got {:?} in {}", t, self.ctx()),
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::Eof => panic!("eof in parens"),
                _ => {}
            }
        }
    }
}

pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && b[i + 1] == b'\\' {
            o.push(b'\\');
            i += 2;
        } else if b[i] == b'\\' {
            let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
            o.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

/// attributes that may follow a type in a parameter/return/argument position
fn skip_attrs(lx: &mut Lex) {
    loop {
        match lx.peek().clone() {
            Tok::Word(w) => match w {
                "noundef" | "nonnull" | "noalias" | "nocapture" | "readonly" | "readnone" | "writeonly" | "writable"
                | "dead_on_unwind" | "dead_on_return" | "zeroext" | "signext" | "inreg" | "returned" | "immarg" | "nofree"
                | "swiftself" | "allocptr" | "allocalign" | "nest" | "noext" => {
                    lx.next();
                }
                "align" => {
                    lx.next();
                    if *lx.peek() == Tok::P(b'(') {
                        lx.skip_parens();
                    } else {
                        lx.next();
                    }
                }
                "dereferenceable" | "dereferenceable_or_null" | "sret" | "byval" | "range" | "initializes" | "captures"
                | "elementtype" | "nofpclass" | "byref" | "inalloca" | "preallocated" => {
                    lx.next();
                    lx.skip_parens();
                }
                _ => return,
            },
            Tok::Str(_) => {
                lx.next();
                if lx.eat(b'=') {
                    lx.next();
                }
            }
            _ => return,
        }
    }
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}

fn parse_int(s: &str, w: u32) -> Val {
    if w <= 128 {
        let v: u128 = if let Some(r) = s.strip_prefix('-') {
            (r.parse::<u128>().unwrap()).wrapping_neg()
        } else {
            s.parse::<u128>().unwrap_or_else(|_| panic!("int {s}"))
        };
        Val::I(v & mask(w))
    } else {
        // decimal to bits
        let (neg, digs) = match s.strip_prefix('-') {
            Some(r) => (true, r),
            None => (false, s),
        };
        let n = (w as usize + 31) / 32;
        let mut limbs = vec![0u32; n];
        for d in digs.bytes() {
            let mut c = (d - b'0') as u64;
            for l in limbs.iter_mut() {
                let x = *l as u64 * 10 + c;
                *l = x as u32;
                c = x >> 32;
            }
        }
        if neg {
            let mut c = 1u64;
            for l in limbs.iter_mut() {
                let x = (!*l) as u64 + c;
                *l = x as u32;
                c = x >> 32;
            }
        }
        let bits: Vec<Bit> = (0..w as usize).map(|i| Bit::C(limbs[i / 32] >> (i % 32) & 1 == 1)).collect();
        Val::S(bits.into())
    }
}

impl Module {
    /// functions listed in ".init_array" by the inventory crate, last one first
    pub fn ctors(&self) -> Vec<String> {
        let mut v: Vec<String> = self
            .src
            .lines()
            .filter(|l| l.starts_with('@') && l.contains(", section \".init_array\"") && l.contains("__CTOR"))
            .filter_map(|l| Some(l.split("constant ptr @").nth(1)?.split(',').next()?.trim_matches('"').to_string()))
            .collect();
        v.reverse();
        v
    }

    pub fn load(src: String) -> Module {
        let mut m = Module {
            src,
            funcs: vec![],
            fmap: HashMap::new(),
            globals: vec![],
            gmap: HashMap::new(),
            named_tys: RefCell::new(HashMap::new()),
            tydefs: HashMap::new(),
            aliases: HashMap::new(),
        };
        let src = std::mem::take(&mut m.src);
        let mut tydefs: Vec<(String, String)> = vec![];
        let b = src.as_bytes();
        let mut i = 0;
        while i < b.len() {
            let e = match src[i..].find('\n') {
                Some(k) => i + k,
                None => b.len(),
            };
            let line = &src[i..e];
            if line.starts_with("define ") {
                // find the end: line "}" at column 0
                let mut j = e + 1;
                loop {
                    let e2 = match src[j..].find('\n') {
                        Some(k) => j + k,
                        None => b.len(),
                    };
                    if &src[j..e2] == "}" {
                        i = e2 + 1;
                        break;
                    }
                    j = e2 + 1;
                }
                let name = Self::fname(line);
                let id = m.funcs.len() as u32;
                m.fmap.insert(name.clone(), id);
                m.funcs.push(FuncDecl { name, body: Some((e - line.len(), i)), parsed: OnceCell::new() });
                continue;
            } else if line.starts_with("declare ") {
                let name = Self::fname(line);
                let id = m.funcs.len() as u32;
                m.fmap.insert(name.clone(), id);
                m.funcs.push(FuncDecl { name, body: None, parsed: OnceCell::new() });
            } else if line.starts_with('@') {
                let mut lx = Lex::new(line);
                let name = match lx.next() {
                    Tok::Global(n) => n.to_string(),
                    _ => unreachable!(),
                };
                lx.expect(b'=');
                // skip until 'global' or 'constant' or 'alias'
                let mut external = false;
                let mut alias = false;
                loop {
                    match lx.next() {
                        Tok::Word("global") | Tok::Word("constant") => break,
                        Tok::Word("alias") => {
                            alias = true;
                            break;
                        }
                        Tok::Word("external") | Tok::Word("extern_weak") => external = true,
                        Tok::Eof => panic!("bad global {line}"),
                        _ => {}
                    }
                }
                let pos = lx.i;
                if alias {
                    // alias ty, ptr @target
                    let mut last = String::new();
                    loop {
                        match lx.next() {
                            Tok::Global(n) => last = n.to_string(),
                            Tok::Eof => break,
                            _ => {}
                        }
                    }
                    m.aliases.insert(name, last);
                } else {
                    let id = m.globals.len() as u32;
                    m.gmap.insert(name.clone(), id);
                    let addr = (FIRST_GLOBAL_OBJ + id as u64) << 32;
                    m.globals.push(GlobalDecl { name, ty: None, init: Some((i + pos, e)), addr, external });
                }
            } else if line.starts_with('%') {
                if let Some(k) = line.find(" = type ") {
                    let n = line[1..k].trim_matches('"').to_string();
                    tydefs.push((n, line[k + 8..].to_string()));
                }
            }
            i = e + 1;
        }
        m.src = src;
        m.tydefs = tydefs.into_iter().collect();
        for gi in 0..m.globals.len() {
            let (s, e) = m.globals[gi].init.unwrap();
            let text = &m.src[s..e];
            let mut lx = Lex::new(text);
            let ty = m.ty(&mut lx);
            let pos = if lx.pk.is_some() { panic!() } else { lx.i };
            let ext = m.globals[gi].external;
            let g = &mut m.globals[gi];
            g.ty = Some(ty);
            g.init = if ext { None } else { Some((s + pos, e)) };
        }
        m
    }

    fn fname(line: &str) -> String {
        // first '@' outside of attributes
        let k = line.find('@').unwrap();
        let r = &line[k + 1..];
        if let Some(q) = r.strip_prefix('"') {
            q[..q.find('"').unwrap()].to_string()
        } else {
            r[..r.find('(').unwrap()].to_string()
        }
    }

    pub fn global_init(&self, gi: usize) -> Option<Val> {
        let g = &self.globals[gi];
        let (s, e) = g.init?;
        let mut lx = Lex::new(&self.src[s..e]);
        Some(self.constant(&mut lx, g.ty.as_ref().unwrap()))
    }

    fn named_ty(&self, n: &str) -> TyRef {
        if let Some(t) = self.named_tys.borrow().get(n) {
            return t.clone();
        }
        let d = self.tydefs.get(n).unwrap_or_else(|| panic!("named type {n}"));
        let t = if d.starts_with("opaque") { Rc::new(Ty::Other) } else { self.ty(&mut Lex::new(d)) };
        self.named_tys.borrow_mut().insert(n.to_string(), t.clone());
        t
    }

    fn ty(&self, lx: &mut Lex) -> TyRef {
        // NB: never leaves a peeked token pending for simple cases
        match lx.next() {
            Tok::Word(w) => {
                if let Some(n) = w.strip_prefix('i') {
                    if let Ok(n) = n.parse::<u32>() {
                        return Rc::new(Ty::Int(n));
                    }
                }
                match w {
                    "void" => Rc::new(Ty::Void),
                    "ptr" => Rc::new(Ty::Ptr),
                    "float" => Rc::new(Ty::F32),
                    "double" => Rc::new(Ty::F64),
                    "metadata" | "label" | "token" | "half" | "x86_fp80" | "fp128" => Rc::new(Ty::Other),
                    _ => panic!("type {w} in {}", lx.ctx()),
                }
            }
            Tok::Local(n) => self.named_ty(n),
            Tok::P(b'[') => {
                let n = lx.int() as u64;
                assert!(lx.eat_word("x"));
                let t = self.ty(lx);
                lx.expect(b']');
                Rc::new(Ty::Arr(n, t))
            }
            Tok::P(b'<') => {
                if lx.eat(b'{') {
                    let r = self.struct_body(lx, true);
                    lx.expect(b'>');
                    r
                } else {
                    let n = lx.int() as u32;
                    assert!(lx.eat_word("x"));
                    let t = self.ty(lx);
                    lx.expect(b'>');
                    Rc::new(Ty::Vec(n, t))
                }
            }
            Tok::P(b'{') => self.struct_body(lx, false),
            t => panic!("type expected, got {:?} in {}", t, lx.ctx()),
        }
    }
    fn struct_body(&self, lx: &mut Lex, packed: bool) -> TyRef {
        let mut f = vec![];
        if lx.eat(b'}') {
            return Rc::new(Ty::mk_struct(f, packed));
        }
        loop {
            f.push(self.ty(lx));
            if !lx.eat(b',') {
                break;
            }
        }
        lx.expect(b'}');
        Rc::new(Ty::mk_struct(f, packed))
    }

    pub fn sym_addr(&self, n: &str) -> u64 {
        if let Some(&g) = self.gmap.get(n) {
            return self.globals[g as usize].addr;
        }
        if let Some(&f) = self.fmap.get(n) {
            return func_addr(f);
        }
        if let Some(t) = self.aliases.get(n) {
            return self.sym_addr(&t.clone());
        }
        panic!("unknown symbol @{n}");
    }

    pub fn zero(&self, t: &Ty) -> Val {
        match t {
            Ty::Int(w) if *w > 128 => Val::S(vec![ZERO; *w as usize].into()),
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => Val::I(0),
            Ty::Arr(n, t) => Val::V(Rc::new(vec![self.zero(t); *n as usize])),
            Ty::Vec(n, t) => Val::V(Rc::new(vec![self.zero(t); *n as usize])),
            Ty::Struct(f, ..) => Val::V(Rc::new(f.iter().map(|t| self.zero(t)).collect())),
            _ => Val::U,
        }
    }
    pub fn undef(&self, t: &Ty) -> Val {
        match t {
            Ty::Arr(n, t) => Val::V(Rc::new(vec![self.undef(t); *n as usize])),
            Ty::Vec(n, t) => Val::V(Rc::new(vec![self.undef(t); *n as usize])),
            Ty::Struct(f, ..) => Val::V(Rc::new(f.iter().map(|t| self.undef(t)).collect())),
            _ => Val::U,
        }
    }

    fn typed_const(&self, lx: &mut Lex) -> (TyRef, Val) {
        let t = self.ty(lx);
        skip_attrs(lx);
        let v = self.constant(lx, &t);
        (t, v)
    }

    fn const_list(&self, lx: &mut Lex, end: u8) -> Vec<Val> {
        let mut v = vec![];
        if lx.eat(end) {
            return v;
        }
        loop {
            v.push(self.typed_const(lx).1);
            if !lx.eat(b',') {
                break;
            }
        }
        lx.expect(end);
        v
    }

    fn cint(v: &Val) -> u128 {
        match v {
            Val::I(x) => *x,
            Val::U => 0,
            _ => panic!("constant int expected"),
        }
    }

    fn constant(&self, lx: &mut Lex, t: &Ty) -> Val {
        match lx.next() {
            Tok::Int(s) => match t {
                Ty::Int(w) => parse_int(s, *w),
                _ => panic!("int const for {:?}", t),
            },
            Tok::Float(s) => {
                let f = if let Some(h) = s.strip_prefix("0x") {
                    f64::from_bits(u64::from_str_radix(h, 16).unwrap())
                } else {
                    s.parse::<f64>().unwrap()
                };
                match t {
                    Ty::F32 => Val::I((f as f32).to_bits() as u128),
                    _ => Val::I(f.to_bits() as u128),
                }
            }
            Tok::CStr(s) => Val::V(Rc::new(unescape(s).into_iter().map(|b| Val::I(b as u128)).collect())),
            Tok::Global(n) => Val::I(self.sym_addr(n) as u128),
            Tok::P(b'[') => Val::V(Rc::new(self.const_list(lx, b']'))),
            Tok::P(b'{') => Val::V(Rc::new(self.const_list(lx, b'}'))),
            Tok::P(b'<') => {
                if lx.eat(b'{') {
                    let v = self.const_list(lx, b'}');
                    lx.expect(b'>');
                    Val::V(Rc::new(v))
                } else {
                    Val::V(Rc::new(self.const_list(lx, b'>')))
                }
            }
            Tok::Word(w) => match w {
                "true" => Val::I(1),
                "false" => Val::I(0),
                "null" => Val::I(0),
                "none" => Val::U,
                "undef" | "poison" => self.undef(t),
                "zeroinitializer" => self.zero(t),
                "splat" => {
                    lx.expect(b'(');
                    let (_, v) = self.typed_const(lx);
                    lx.expect(b')');
                    match t {
                        Ty::Vec(n, _) => Val::V(Rc::new(vec![v; *n as usize])),
                        _ => panic!("splat"),
                    }
                }
                "getelementptr" => {
                    while let Tok::Word(x) = lx.peek().clone() {
                        if x == "inrange" {
                            lx.next();
                            lx.skip_parens();
                        } else {
                            lx.next();
                        }
                    }
                    lx.expect(b'(');
                    let ety = self.ty(lx);
                    lx.expect(b',');
                    let (_, base) = self.typed_const(lx);
                    let mut off = 0i64;
                    let mut cur = ety.clone();
                    let mut first = true;
                    while lx.eat(b',') {
                        let (it, iv) = self.typed_const(lx);
                        let w = it.bits();
                        let mut x = Self::cint(&iv) as i128;
                        if w < 128 && (x >> (w - 1)) & 1 == 1 {
                            x -= 1i128 << w;
                        }
                        let x = x as i64;
                        if first {
                            off += x * cur.size() as i64;
                            first = false;
                        } else {
                            let nt = match &*cur {
                                Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                    off += x * e.size() as i64;
                                    e.clone()
                                }
                                Ty::Struct(f, _, offs, _, _) => {
                                    off += offs[x as usize] as i64;
                                    f[x as usize].clone()
                                }
                                _ => panic!("gep into scalar"),
                            };
                            cur = nt;
                        }
                    }
                    lx.expect(b')');
                    Val::I((Self::cint(&base) as u64).wrapping_add(off as u64) as u128)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "addrspacecast" => {
                    lx.expect(b'(');
                    let (_, v) = self.typed_const(lx);
                    assert!(lx.eat_word("to"));
                    let tt = self.ty(lx);
                    lx.expect(b')');
                    match v {
                        Val::I(x) => Val::I(x & mask(tt.bits())),
                        o => o,
                    }
                }
                "add" | "sub" | "mul" | "xor" => {
                    while matches!(lx.peek(), Tok::Word(_)) {
                        lx.next();
                    }
                    lx.expect(b'(');
                    let (ta, a) = self.typed_const(lx);
                    lx.expect(b',');
                    let (_, b) = self.typed_const(lx);
                    lx.expect(b')');
                    let (a, b) = (Self::cint(&a), Self::cint(&b));
                    let r = match w {
                        "add" => a.wrapping_add(b),
                        "sub" => a.wrapping_sub(b),
                        "mul" => a.wrapping_mul(b),
                        _ => a ^ b,
                    };
                    Val::I(r & mask(ta.bits()))
                }
                _ => panic!("constant {w} in {}", lx.ctx()),
            },
            t => panic!("constant expected, got {:?} in {}", t, lx.ctx()),
        }
    }

    pub fn func(&self, id: u32) -> Rc<Func> {
        self.funcs[id as usize]
            .parsed
            .get_or_init(|| {
                let (s, e) = self.funcs[id as usize].body.expect("no body");
                Rc::new(FnParser::parse(self, id, &self.src[s..e]))
            })
            .clone()
    }
}

struct FnParser<'m> {
    m: &'m Module,
    regs: HashMap<String, u32>,
    blks: HashMap<String, u32>,
}

fn bin_op(w: &str) -> Option<BinOp> {
    Some(match w {
        "add" => BinOp::Add,
        "sub" => BinOp::Sub,
        "mul" => BinOp::Mul,
        "udiv" => BinOp::UDiv,
        "sdiv" => BinOp::SDiv,
        "urem" => BinOp::URem,
        "srem" => BinOp::SRem,
        "shl" => BinOp::Shl,
        "lshr" => BinOp::LShr,
        "ashr" => BinOp::AShr,
        "and" => BinOp::And,
        "or" => BinOp::Or,
        "xor" => BinOp::Xor,
        "fadd" => BinOp::FAdd,
        "fsub" => BinOp::FSub,
        "fmul" => BinOp::FMul,
        "fdiv" => BinOp::FDiv,
        "frem" => BinOp::FRem,
        _ => return None,
    })
}
fn cast_op(w: &str) -> Option<CastOp> {
    Some(match w {
        "trunc" => CastOp::Trunc,
        "zext" => CastOp::ZExt,
        "sext" => CastOp::SExt,
        "ptrtoint" => CastOp::PtrToInt,
        "inttoptr" => CastOp::IntToPtr,
        "bitcast" => CastOp::BitCast,
        "fptoui" => CastOp::FpToUi,
        "fptosi" => CastOp::FpToSi,
        "uitofp" => CastOp::UiToFp,
        "sitofp" => CastOp::SiToFp,
        "fpext" => CastOp::FpExt,
        "fptrunc" => CastOp::FpTrunc,
        _ => return None,
    })
}

impl<'m> FnParser<'m> {
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn blk(&mut self, n: &str) -> u32 {
        let k = self.blks.len() as u32;
        *self.blks.entry(n.to_string()).or_insert(k)
    }

    fn parse(m: &'m Module, id: u32, text: &str) -> Func {
        let mut p = FnParser { m, regs: HashMap::new(), blks: HashMap::new() };
        let nl = text.find('\n').unwrap();
        let head = &text[..nl];
        let k = head.find('@').unwrap();
        let mut lx = Lex::new(&head[k..]);
        lx.next();
        lx.expect(b'(');
        let mut params = vec![];
        let mut unnamed = 0;
        if !lx.eat(b')') {
            loop {
                if lx.eat_word("...") {
                    break;
                }
                let _t = m.ty(&mut lx);
                skip_attrs(&mut lx);
                match lx.peek().clone() {
                    Tok::Local(n) => {
                        lx.next();
                        if n == unnamed.to_string() {
                            unnamed += 1;
                        }
                        params.push(p.reg(n));
                    }
                    _ => {
                        let n = unnamed.to_string();
                        unnamed += 1;
                        params.push(p.reg(&n));
                    }
                }
                if !lx.eat(b',') {
                    break;
                }
            }
        }
        let mut blocks: Vec<Option<Block>> = vec![];
        let mut cur: Option<u32> = None;
        // logical lines
        let body = &text[nl + 1..];
        let mut lines: Vec<String> = vec![];
        let mut it = body.lines().peekable();
        while let Some(l) = it.next() {
            if l.is_empty() || l.starts_with(';') || l == "}" || l.starts_with("    #dbg") || l.starts_with("  #dbg") {
                continue;
            }
            let tl = l.trim_start();
            if tl.starts_with(';') {
                continue;
            }
            if tl.starts_with("switch ") && l.trim_end().ends_with('[') {
                let mut s = l.to_string();
                for l2 in it.by_ref() {
                    s.push(' ');
                    s.push_str(l2);
                    if l2.trim_start().starts_with(']') {
                        break;
                    }
                }
                lines.push(s);
                continue;
            }
            if tl.starts_with("to label ") || tl.starts_with("cleanup") || tl.starts_with("catch ") || tl.starts_with("filter ") {
                let last = lines.last_mut().unwrap();
                last.push(' ');
                last.push_str(tl);
                continue;
            }
            lines.push(l.to_string());
        }
        for l in &lines {
            if !l.starts_with(' ') {
                // label
                let name = if let Some(r) = l.strip_prefix('"') {
                    r[..r.find('"').unwrap()].to_string()
                } else {
                    l[..l.find(':').unwrap()].to_string()
                };
                let b = p.blk(&name);
                cur = Some(b);
                while blocks.len() <= b as usize {
                    blocks.push(None);
                }
                blocks[b as usize] = Some(Block { phis: vec![], insts: vec![] });
                continue;
            }
            if cur.is_none() {
                let n = unnamed.to_string();
                let b = p.blk(&n);
                assert_eq!(b, 0);
                blocks.push(Some(Block { phis: vec![], insts: vec![] }));
                cur = Some(b);
            }
            let mut lx = Lex::new(l);
            let c = cur.unwrap() as usize;
            p.inst(&mut lx, &mut blocks, c);
        }
        let n = p.blks.len();
        while blocks.len() < n {
            blocks.push(None);
        }
        Func {
            id,
            nregs: p.regs.len() as u32,
            params,
            ipd: OnceCell::new(),
            blocks: blocks
                .into_iter()
                .map(|b| b.unwrap_or(Block { phis: vec![], insts: vec![Inst::Unreachable] }))
                .collect(),
        }
    }

    fn val(&mut self, lx: &mut Lex, t: &Ty) -> Op {
        if let Tok::Local(n) = lx.peek().clone() {
            lx.next();
            return Op::R(self.reg(n));
        }
        if *t == Ty::Other {
            // metadata operand: skip
            match lx.next() {
                Tok::Word(_) => {
                    if *lx.peek() == Tok::P(b'(') {
                        lx.skip_parens();
                    }
                }
                _ => {
                    if *lx.peek() == Tok::P(b'(') {
                        lx.skip_parens();
                    }
                }
            }
            return Op::K(Val::U);
        }
        Op::K(self.m.constant(lx, t))
    }
    fn tval(&mut self, lx: &mut Lex) -> (TyRef, Op) {
        let t = self.m.ty(lx);
        skip_attrs(lx);
        let v = self.val(lx, &t);
        (t, v)
    }
    fn label(&mut self, lx: &mut Lex) -> u32 {
        assert!(lx.eat_word("label"));
        match lx.next() {
            Tok::Local(n) => self.blk(n),
            _ => panic!("label"),
        }
    }
    fn skip_words(&self, lx: &mut Lex, ws: &[&str]) {
        while let Tok::Word(w) = lx.peek().clone() {
            if ws.contains(&w) {
                lx.next();
            } else {
                break;
            }
        }
    }

    fn inst(&mut self, lx: &mut Lex, blocks: &mut [Option<Block>], cur: usize) {
        let mut dst: Option<u32> = None;
        if let Tok::Local(n) = lx.peek().clone() {
            lx.next();
            lx.expect(b'=');
            dst = Some(self.reg(n));
        }
        let w = match lx.next() {
            Tok::Word(w) => w,
            t => panic!("instruction expected, got {:?}: {}", t, lx.ctx()),
        };
        let flags = ["nuw", "nsw", "exact", "disjoint", "nneg", "samesign", "inbounds", "nusw", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"];
        let inst = if let Some(op) = bin_op(w) {
            self.skip_words(lx, &flags);
            let (t, a) = self.tval(lx);
            lx.expect(b',');
            let b = self.val(lx, &t);
            Inst::Bin(op, t, dst.unwrap(), a, b)
        } else if let Some(op) = cast_op(w) {
            self.skip_words(lx, &flags);
            let (t, a) = self.tval(lx);
            assert!(lx.eat_word("to"));
            let tt = self.m.ty(lx);
            Inst::Cast(op, t, tt, dst.unwrap(), a)
        } else {
            match w {
                "icmp" => {
                    self.skip_words(lx, &flags);
                    let p = match lx.next() {
                        Tok::Word(p) => match p {
                            "eq" => Pred::Eq,
                            "ne" => Pred::Ne,
                            "ugt" => Pred::Ugt,
                            "uge" => Pred::Uge,
                            "ult" => Pred::Ult,
                            "ule" => Pred::Ule,
                            "sgt" => Pred::Sgt,
                            "sge" => Pred::Sge,
                            "slt" => Pred::Slt,
                            "sle" => Pred::Sle,
                            _ => panic!("pred {p}"),
                        },
                        _ => panic!(),
                    };
                    let (t, a) = self.tval(lx);
                    lx.expect(b',');
                    let b = self.val(lx, &t);
                    Inst::ICmp(p, t, dst.unwrap(), a, b)
                }
                "fcmp" => {
                    self.skip_words(lx, &flags);
                    let p = match lx.next() {
                        Tok::Word(p) => p.to_string(),
                        _ => panic!(),
                    };
                    let (t, a) = self.tval(lx);
                    lx.expect(b',');
                    let b = self.val(lx, &t);
                    Inst::FCmp(p, t, dst.unwrap(), a, b)
                }
                "select" => {
                    self.skip_words(lx, &flags);
                    let (ct, c) = self.tval(lx);
                    lx.expect(b',');
                    let (t, a) = self.tval(lx);
                    lx.expect(b',');
                    let (_, b) = self.tval(lx);
                    Inst::Select(t, dst.unwrap(), c, a, b, matches!(&*ct, Ty::Vec(..)))
                }
                "phi" => {
                    self.skip_words(lx, &flags);
                    let t = self.m.ty(lx);
                    let mut map = HashMap::new();
                    loop {
                        lx.expect(b'[');
                        let v = self.val(lx, &t);
                        lx.expect(b',');
                        let b = match lx.next() {
                            Tok::Local(n) => self.blk(n),
                            _ => panic!("phi"),
                        };
                        lx.expect(b']');
                        map.insert(b, v);
                        if !lx.eat(b',') {
                            break;
                        }
                        if *lx.peek() != Tok::P(b'[') {
                            break;
                        }
                    }
                    blocks[cur].as_mut().unwrap().phis.push((dst.unwrap(), map, t));
                    return;
                }
                "getelementptr" => {
                    self.skip_words(lx, &flags);
                    if let Tok::Word("inrange") = lx.peek() {
                        lx.next();
                        lx.skip_parens();
                    }
                    let ety = self.m.ty(lx);
                    lx.expect(b',');
                    let (_, base) = self.tval(lx);
                    let mut coff = 0i64;
                    let mut idx = vec![];
                    let mut curt = ety;
                    let mut first = true;
                    while lx.eat(b',') {
                        if *lx.peek() == Tok::Meta {
                            break;
                        }
                        let (it, iv) = self.tval(lx);
                        let w = it.bits();
                        let scale;
                        if first {
                            scale = curt.size() as i64;
                            first = false;
                        } else {
                            let nt = match &*curt {
                                Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                    scale = e.size() as i64;
                                    e.clone()
                                }
                                Ty::Struct(f, _, offs, _, _) => {
                                    let k = match &iv {
                                        Op::K(Val::I(k)) => *k as usize,
                                        _ => panic!("struct gep"),
                                    };
                                    coff += offs[k] as i64;
                                    curt = f[k].clone();
                                    continue;
                                }
                                _ => panic!("gep"),
                            };
                            curt = nt;
                        }
                        match &iv {
                            Op::K(Val::I(k)) => {
                                let mut x = *k as i128;
                                if w < 128 && (x >> (w - 1)) & 1 == 1 {
                                    x -= 1i128 << w;
                                }
                                coff = coff.wrapping_add((x as i64).wrapping_mul(scale));
                            }
                            _ => idx.push((iv, scale, w)),
                        }
                    }
                    Inst::Gep(dst.unwrap(), base, coff, idx)
                }
                "load" => {
                    self.skip_words(lx, &["volatile", "atomic"]);
                    let t = self.m.ty(lx);
                    lx.expect(b',');
                    let (_, p) = self.tval(lx);
                    Inst::Load(t, dst.unwrap(), p)
                }
                "store" => {
                    self.skip_words(lx, &["volatile", "atomic"]);
                    let (t, v) = self.tval(lx);
                    lx.expect(b',');
                    let (_, p) = self.tval(lx);
                    Inst::Store(t, v, p)
                }
                "alloca" => {
                    self.skip_words(lx, &["inalloca"]);
                    let t = self.m.ty(lx);
                    let mut n = Op::K(Val::I(1));
                    let mut al = t.align();
                    while lx.eat(b',') {
                        if lx.eat_word("align") {
                            al = lx.int() as u64;
                        } else if let Tok::Meta = lx.peek() {
                            break;
                        } else {
                            n = self.tval(lx).1;
                        }
                    }
                    Inst::Alloca(dst.unwrap(), t.size(), n, al)
                }
                "br" => {
                    if let Tok::Word("label") = lx.peek() {
                        Inst::Br(self.label(lx))
                    } else {
                        let (_, c) = self.tval(lx);
                        lx.expect(b',');
                        let a = self.label(lx);
                        lx.expect(b',');
                        let b = self.label(lx);
                        Inst::CondBr(c, a, b)
                    }
                }
                "switch" => {
                    let (t, v) = self.tval(lx);
                    lx.expect(b',');
                    let d = self.label(lx);
                    lx.expect(b'[');
                    let mut cs = vec![];
                    while !lx.eat(b']') {
                        let (_, k) = self.m.typed_const(lx);
                        lx.expect(b',');
                        let b = self.label(lx);
                        match k {
                            Val::I(x) => cs.push((x, b)),
                            _ => panic!("switch const"),
                        }
                    }
                    Inst::Switch(t.bits(), v, d, cs)
                }
                "ret" => {
                    let t = self.m.ty(lx);
                    if *t == Ty::Void {
                        Inst::Ret(None)
                    } else {
                        let v = self.val(lx, &t);
                        Inst::Ret(Some((t, v)))
                    }
                }
                "unreachable" => Inst::Unreachable,
                "resume" => Inst::Unreachable,
                "landingpad" => Inst::Nop,
                "fence" => Inst::Nop,
                "freeze" => {
                    let (_, v) = self.tval(lx);
                    Inst::Copy(dst.unwrap(), v)
                }
                "extractvalue" => {
                    let (t, v) = self.tval(lx);
                    let mut ix = vec![];
                    while lx.eat(b',') {
                        match lx.peek() {
                            Tok::Int(_) => ix.push(lx.int() as u32),
                            _ => break,
                        }
                    }
                    Inst::ExtractValue(dst.unwrap(), v, ix, t)
                }
                "insertvalue" => {
                    let (t, v) = self.tval(lx);
                    lx.expect(b',');
                    let (_, e) = self.tval(lx);
                    let mut ix = vec![];
                    while lx.eat(b',') {
                        match lx.peek() {
                            Tok::Int(_) => ix.push(lx.int() as u32),
                            _ => break,
                        }
                    }
                    Inst::InsertValue(dst.unwrap(), v, e, ix, t)
                }
                "extractelement" => {
                    let (t, v) = self.tval(lx);
                    lx.expect(b',');
                    let (_, i) = self.tval(lx);
                    Inst::ExtractElement(dst.unwrap(), t, v, i)
                }
                "insertelement" => {
                    let (t, v) = self.tval(lx);
                    lx.expect(b',');
                    let (_, e) = self.tval(lx);
                    lx.expect(b',');
                    let (_, i) = self.tval(lx);
                    Inst::InsertElement(dst.unwrap(), t, v, e, i)
                }
                "shufflevector" => {
                    let (t, a) = self.tval(lx);
                    lx.expect(b',');
                    let (_, b) = self.tval(lx);
                    lx.expect(b',');
                    let (mt, mv) = self.m.typed_const(lx);
                    let n = match &*mt {
                        Ty::Vec(n, _) => *n,
                        _ => panic!(),
                    };
                    let mm = match mv {
                        Val::V(v) => v
                            .iter()
                            .map(|x| match x {
                                Val::I(k) => Some(*k as u32),
                                _ => None,
                            })
                            .collect(),
                        _ => vec![None; n as usize],
                    };
                    Inst::Shuffle(dst.unwrap(), t, a, b, mm)
                }
                "atomicrmw" => {
                    self.skip_words(lx, &["volatile"]);
                    let op = match lx.next() {
                        Tok::Word(o) => o.to_string(),
                        _ => panic!(),
                    };
                    let (_, p) = self.tval(lx);
                    lx.expect(b',');
                    let (t, v) = self.tval(lx);
                    Inst::Rmw(dst.unwrap(), op, t, p, v)
                }
                "cmpxchg" => {
                    self.skip_words(lx, &["weak", "volatile"]);
                    let (_, p) = self.tval(lx);
                    lx.expect(b',');
                    let (t, a) = self.tval(lx);
                    lx.expect(b',');
                    let (_, b) = self.tval(lx);
                    Inst::CmpXchg(dst.unwrap(), t, p, a, b)
                }
                "fneg" => {
                    let (t, a) = self.tval(lx);
                    let z = (-0.0f64).to_bits() as u128;
                    Inst::Bin(BinOp::FSub, t, dst.unwrap(), Op::K(Val::I(z)), a)
                }
                "tail" | "musttail" | "notail" | "call" | "invoke" => {
                    if w != "call" && w != "invoke" {
                        assert!(lx.eat_word("call"));
                    }
                    let invoke = w == "invoke";
                    // fast-math flags, cc, ret attrs
                    loop {
                        skip_attrs(lx);
                        match lx.peek().clone() {
                            Tok::Word(x) if flags.contains(&x) || x.ends_with("cc") || x == "preserve_mostcc" => {
                                lx.next();
                            }
                            _ => break,
                        }
                    }
                    let rt = self.m.ty(lx);
                    // optional function type "(...)": varargs
                    if *lx.peek() == Tok::P(b'(') {
                        lx.skip_parens();
                    }
                    let callee = match lx.next() {
                        Tok::Global(n) => {
                            let n = match self.m.aliases.get(n) {
                                Some(t) => t.clone(),
                                None => n.to_string(),
                            };
                            match self.m.fmap.get(&n) {
                                Some(&f) => Callee::F(f),
                                None => panic!("call to unknown {n}"),
                            }
                        }
                        Tok::Local(n) => Callee::Ind(Op::R(self.reg(n))),
                        Tok::Word("asm") => {
                            // inline asm: swallow "sideeffect" etc and strings
                            loop {
                                match lx.peek() {
                                    Tok::P(b'(') => break,
                                    _ => {
                                        lx.next();
                                    }
                                }
                            }
                            Callee::Ind(Op::K(Val::U))
                        }
                        Tok::Word("inttoptr") => {
                            lx.skip_parens();
                            Callee::Ind(Op::K(Val::U))
                        }
                        t => panic!("callee {:?} in {}", t, lx.ctx()),
                    };
                    lx.expect(b'(');
                    let mut args = vec![];
                    if !lx.eat(b')') {
                        loop {
                            args.push(self.tval(lx));
                            if !lx.eat(b',') {
                                break;
                            }
                        }
                        lx.expect(b')');
                    }
                    let mut norm = None;
                    if invoke {
                        loop {
                            if lx.eat_word("to") {
                                norm = Some(self.label(lx));
                                break;
                            }
                            if lx.next() == Tok::Eof {
                                panic!("invoke without to");
                            }
                        }
                    }
                    Inst::Call(dst, callee, args, rt, norm)
                }
                _ => panic!("unknown instruction {w}: {}", lx.ctx()),
            }
        };
        blocks[cur].as_mut().unwrap().insts.push(inst);
    }
}
