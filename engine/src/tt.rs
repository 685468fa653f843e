//! Truth tables over at most MAXTT variables.
use crate::poly::Var;

pub const MAXTT: usize = 16;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Tt {
    pub vars: Vec<Var>,
    pub w: Vec<u64>,
}

const LOW: [u64; 6] = [
    0x5555555555555555,
    0x3333333333333333,
    0x0f0f0f0f0f0f0f0f,
    0x00ff00ff00ff00ff,
    0x0000ffff0000ffff,
    0x00000000ffffffff,
];

pub fn words(n: usize) -> usize {
    if n <= 6 {
        1
    } else {
        1 << (n - 6)
    }
}
fn wmask(n: usize) -> u64 {
    if n >= 6 {
        !0
    } else {
        (1u64 << (1 << n)) - 1
    }
}

/// insert a (don't care) variable at position k into a table of n variables
fn insert(w: &[u64], n: usize, k: usize) -> Vec<u64> {
    if k >= 6 {
        let c = 1usize << (k - 6);
        let mut o = Vec::with_capacity(w.len() * 2);
        for ch in w.chunks(c) {
            o.extend_from_slice(ch);
            o.extend_from_slice(ch);
        }
        return o;
    }
    let spread = |h: u64, bits: usize| -> u64 {
        // h has `bits` (<=32) valid bits
        let bs = 1usize << k;
        let m = (1u64 << bs) - 1;
        let mut out = 0u64;
        let mut j = 0;
        while j * bs < bits {
            let b = (h >> (j * bs)) & m;
            out |= b << (2 * j * bs);
            out |= b << ((2 * j + 1) * bs);
            j += 1;
        }
        out
    };
    if n < 6 {
        return vec![spread(w[0], 1 << n)];
    }
    let mut o = Vec::with_capacity(w.len() * 2);
    for &x in w {
        o.push(spread(x & 0xffff_ffff, 32));
        o.push(spread(x >> 32, 32));
    }
    o
}

/// remove variable k, keeping the k=0 cofactor
fn remove(w: &[u64], n: usize, k: usize) -> Vec<u64> {
    if k >= 6 {
        let c = 1usize << (k - 6);
        return w.chunks(2 * c).flat_map(|ch| ch[..c].iter().copied()).collect();
    }
    let squeeze = |x: u64| -> u64 {
        let bs = 1usize << k;
        let m = if bs == 64 { !0 } else { (1u64 << bs) - 1 };
        let mut out = 0u64;
        let mut j = 0;
        while 2 * j * bs < 64 {
            out |= ((x >> (2 * j * bs)) & m) << (j * bs);
            j += 1;
        }
        out
    };
    if n <= 6 {
        return vec![squeeze(w[0]) & wmask(n - 1)];
    }
    w.chunks(2).map(|c| squeeze(c[0]) | squeeze(c[1]) << 32).collect()
}

fn inessential(w: &[u64], n: usize, k: usize) -> bool {
    if k >= 6 {
        let c = 1usize << (k - 6);
        w.chunks(2 * c).all(|ch| ch[..c] == ch[c..])
    } else {
        let m = LOW[k] & wmask(n);
        w.iter().all(|&x| ((x >> (1 << k)) ^ x) & m == 0)
    }
}

pub fn moebius(w: &mut [u64], n: usize) {
    for k in 0..n {
        if k < 6 {
            for x in w.iter_mut() {
                *x ^= (*x & LOW[k]) << (1 << k);
            }
        } else {
            let c = 1usize << (k - 6);
            for ch in w.chunks_mut(2 * c) {
                let (a, b) = ch.split_at_mut(c);
                for i in 0..c {
                    b[i] ^= a[i];
                }
            }
        }
    }
    let m = wmask(n);
    for x in w.iter_mut() {
        *x &= m;
    }
}

impl Tt {
    pub fn var(v: Var) -> Tt {
        Tt { vars: vec![v], w: vec![0b10] }
    }
    pub fn constant(b: bool) -> Tt {
        Tt { vars: vec![], w: vec![b as u64] }
    }
    pub fn lift(&self, vars: &[Var]) -> Tt {
        if self.vars == vars {
            return self.clone();
        }
        let mut cur = self.w.clone();
        let mut n = self.vars.len();
        let mut i = 0;
        for (k, v) in vars.iter().enumerate() {
            if i < self.vars.len() && self.vars[i] == *v {
                i += 1;
            } else {
                cur = insert(&cur, n, k);
                n += 1;
            }
        }
        debug_assert!(i == self.vars.len());
        Tt { vars: vars.to_vec(), w: cur }
    }
    pub fn get(&self, i: usize) -> bool {
        self.w[i >> 6] >> (i & 63) & 1 == 1
    }
    pub fn not(&self) -> Tt {
        let m = wmask(self.vars.len());
        Tt { vars: self.vars.clone(), w: self.w.iter().map(|x| !x & m).collect() }
    }
    /// both operands must be over the same variables
    pub fn xor(&self, o: &Tt) -> Tt {
        Tt { vars: self.vars.clone(), w: self.w.iter().zip(&o.w).map(|(a, b)| a ^ b).collect() }
    }
    pub fn and(&self, o: &Tt) -> Tt {
        Tt { vars: self.vars.clone(), w: self.w.iter().zip(&o.w).map(|(a, b)| a & b).collect() }
    }
    /// drop inessential variables
    pub fn reduce(mut self) -> Tt {
        let mut k = 0;
        while k < self.vars.len() {
            if inessential(&self.w, self.vars.len(), k) {
                self.w = remove(&self.w, self.vars.len(), k);
                self.vars.remove(k);
            } else {
                k += 1;
            }
        }
        self
    }
    /// ANF coefficients (bitmap over subsets)
    pub fn anf(&self) -> Vec<u64> {
        let mut w = self.w.clone();
        moebius(&mut w, self.vars.len());
        w
    }
    pub fn from_anf(vars: Vec<Var>, mut w: Vec<u64>) -> Tt {
        let n = vars.len();
        moebius(&mut w, n);
        Tt { vars, w }
    }
}

pub fn union(a: &[Var], b: &[Var]) -> Vec<Var> {
    let mut o = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        if a[i] < b[j] {
            o.push(a[i]);
            i += 1;
        } else if b[j] < a[i] {
            o.push(b[j]);
            j += 1;
        } else {
            o.push(a[i]);
            i += 1;
            j += 1;
        }
    }
    o.extend_from_slice(&a[i..]);
    o.extend_from_slice(&b[j..]);
    o
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn lift_reduce() {
        let mut s = 12345u64;
        for _ in 0..200 {
            let mut r = || {
                s ^= s << 13;
                s ^= s >> 7;
                s ^= s << 17;
                s
            };
            let n = (r() % 9) as usize;
            let mut vars: Vec<Var> = vec![];
            let mut all: Vec<Var> = vec![];
            for i in 0..14u32 {
                let sel = vars.len() < n && r() & 1 == 1;
                if sel {
                    vars.push(i)
                }
                if sel || (r() % 3 == 0 && all.len() < 11) {
                    all.push(i)
                }
            }
            let n = vars.len();
            let w: Vec<u64> = (0..words(n)).map(|_| r() & wmask(n)).collect();
            let t = Tt { vars: vars.clone(), w };
            let l = t.lift(&all);
            for i in 0..1usize << all.len() {
                let mut k = 0;
                for (p, v) in vars.iter().enumerate() {
                    let q = all.iter().position(|x| x == v).unwrap();
                    k |= (i >> q & 1) << p;
                }
                assert_eq!(l.get(i), t.get(k));
            }
            assert_eq!(l.clone().reduce(), t.clone().reduce());
            assert_eq!(Tt::from_anf(l.vars.clone(), l.anf()), l);
        }
    }
}
