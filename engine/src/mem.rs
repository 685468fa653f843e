//! Object-based memory with a flat 64-bit address space: address = object id << 32 | offset.

use crate::poly::*;
use std::rc::Rc;

pub type SByte = Rc<[Bit; 8]>;

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub data: Vec<u8>,
    pub conc: Vec<u64>,
    pub sym: Option<Vec<Option<SByte>>>,
    pub heap: bool,
    pub align: u64,
}

#[derive(Clone, Debug)]
pub enum B {
    C(u8),
    S(SByte),
    U,
}

impl Obj {
    pub fn new(size: u64, heap: bool, align: u64) -> Obj {
        Obj {
            size,
            data: vec![0; size as usize],
            conc: vec![0; (size as usize + 63) / 64],
            sym: None,
            heap,
            align,
        }
    }
    #[inline]
    pub fn is_conc(&self, o: usize) -> bool {
        self.conc[o >> 6] >> (o & 63) & 1 == 1
    }
    #[inline]
    pub fn all_conc(&self, o: usize, n: usize) -> bool {
        if n == 0 {
            return true;
        }
        let (a, b) = (o >> 6, (o + n - 1) >> 6);
        if a == b {
            let m = (if n == 64 { !0u64 } else { (1u64 << n) - 1 }) << (o & 63);
            return self.conc[a] & m == m;
        }
        (o..o + n).all(|i| self.is_conc(i))
    }
    #[inline]
    pub fn set_conc(&mut self, o: usize, v: bool) {
        if v {
            self.conc[o >> 6] |= 1 << (o & 63);
        } else {
            self.conc[o >> 6] &= !(1 << (o & 63));
        }
    }
    #[inline]
    pub fn get(&self, o: usize) -> B {
        if self.is_conc(o) {
            return B::C(self.data[o]);
        }
        match &self.sym {
            Some(s) => match &s[o] {
                Some(b) => B::S(b.clone()),
                None => B::U,
            },
            None => B::U,
        }
    }
    /// byte k equal in both objects (cheap syntactic test)
    pub fn same(&self, o: &Obj, k: usize) -> bool {
        match (self.is_conc(k), o.is_conc(k)) {
            (true, true) => self.data[k] == o.data[k],
            (false, false) => {
                let x = self.sym.as_ref().and_then(|s| s[k].as_ref());
                let y = o.sym.as_ref().and_then(|s| s[k].as_ref());
                match (x, y) {
                    (None, None) => true,
                    (Some(a), Some(b)) => Rc::ptr_eq(a, b) || a == b,
                    _ => false,
                }
            }
            _ => false,
        }
    }
    pub fn put(&mut self, o: usize, b: B) {
        match b {
            B::C(x) => {
                self.data[o] = x;
                self.set_conc(o, true);
                if let Some(s) = &mut self.sym {
                    s[o] = None;
                }
            }
            B::S(x) => {
                self.set_conc(o, false);
                let n = self.size as usize;
                self.sym.get_or_insert_with(|| vec![None; n])[o] = Some(x);
            }
            B::U => {
                self.set_conc(o, false);
                if let Some(s) = &mut self.sym {
                    s[o] = None;
                }
            }
        }
    }
    pub fn put_conc(&mut self, o: usize, bytes: &[u8]) {
        self.data[o..o + bytes.len()].copy_from_slice(bytes);
        for i in o..o + bytes.len() {
            self.set_conc(i, true);
        }
        if let Some(s) = &mut self.sym {
            for x in &mut s[o..o + bytes.len()] {
                *x = None;
            }
        }
    }
}

#[derive(Clone)]
pub enum Slot {
    Lazy,
    Dead,
    Live(Rc<Obj>),
}

#[derive(Clone)]
pub struct Mem {
    pub objs: Vec<Slot>,
}

impl Mem {
    pub fn alloc(&mut self, size: u64, heap: bool, align: u64) -> u64 {
        let id = self.objs.len() as u64;
        self.objs.push(Slot::Live(Rc::new(Obj::new(size, heap, align))));
        id << 32
    }
    /// drop trailing dead slots is not done: ids are never reused, so dangling pointers are caught
    pub fn obj(&self, addr: u64) -> Option<&Rc<Obj>> {
        match self.objs.get((addr >> 32) as usize) {
            Some(Slot::Live(o)) => Some(o),
            _ => None,
        }
    }
    pub fn obj_mut(&mut self, addr: u64) -> Option<&mut Obj> {
        match self.objs.get_mut((addr >> 32) as usize) {
            Some(Slot::Live(o)) => Some(Rc::make_mut(o)),
            _ => None,
        }
    }
}
