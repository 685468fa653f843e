//! Scalar operations on concrete / symbolic values.

use crate::ir::*;
use crate::poly::*;
use std::rc::Rc;

pub const CARRY_CUT: usize = 6;

pub fn sbits(v: &Val, w: u32) -> Vec<Bit> {
    match v {
        Val::I(x) => (0..w).map(|i| Bit::C(i < 128 && (*x >> i) & 1 == 1)).collect(),
        Val::S(b) => {
            debug_assert_eq!(b.len(), w as usize);
            b.to_vec()
        }
        Val::U => (0..w).map(|_| fresh(VarDef::Uninit)).collect(),
        Val::V(_) => panic!("sbits of aggregate"),
    }
}

pub fn from_bits(b: Vec<Bit>) -> Val {
    if b.len() <= 128 {
        let mut x = 0u128;
        let mut ok = true;
        for (i, v) in b.iter().enumerate() {
            match v {
                Bit::C(true) => x |= 1 << i,
                Bit::C(false) => {}
                _ => {
                    ok = false;
                    break;
                }
            }
        }
        if ok {
            return Val::I(x);
        }
    }
    Val::S(b.into())
}

/// Flatten a first-class value to bits (vectors, scalars).
pub fn flat_bits(v: &Val, t: &Ty) -> Vec<Bit> {
    match t {
        Ty::Vec(n, e) => {
            let mut o = Vec::with_capacity((*n * e.bits()) as usize);
            match v {
                Val::V(vs) => {
                    for x in vs.iter() {
                        o.extend(sbits(x, e.bits()));
                    }
                }
                _ => {
                    for _ in 0..*n {
                        o.extend(sbits(&Val::U, e.bits()));
                    }
                }
            }
            o
        }
        _ => sbits(v, t.bits()),
    }
}

pub fn unflat(b: &[Bit], t: &Ty) -> Val {
    match t {
        Ty::Vec(n, e) => {
            let w = e.bits() as usize;
            Val::V(Rc::new((0..*n as usize).map(|i| from_bits(b[i * w..(i + 1) * w].to_vec())).collect()))
        }
        _ => from_bits(b.to_vec()),
    }
}

pub fn sext128(x: u128, w: u32) -> i128 {
    if w >= 128 {
        x as i128
    } else {
        let s = 128 - w;
        ((x << s) as i128) >> s
    }
}

fn add_bits(a: &[Bit], b: &[Bit], mut c: Bit) -> (Vec<Bit>, Bit) {
    let mut o = Vec::with_capacity(a.len());
    for i in 0..a.len() {
        let x = a[i].xor(&b[i]);
        o.push(x.xor(&c));
        let nc = if c == ZERO {
            a[i].and(&b[i])
        } else if c == ONE {
            a[i].or(&b[i])
        } else {
            a[i].and(&b[i]).xor(&c.and(&x))
        };
        c = nc.carry_cut(CARRY_CUT);
    }
    (o, c)
}

pub fn add_with_carry(a: &Val, b: &Val, w: u32) -> (Vec<Bit>, Bit) {
    add_bits(&sbits(a, w), &sbits(b, w), ZERO)
}
/// a - b; returns (diff, borrow)
pub fn sub_with_borrow(a: &Val, b: &Val, w: u32) -> (Vec<Bit>, Bit) {
    let nb: Vec<Bit> = sbits(b, w).iter().map(|x| x.not()).collect();
    let (d, c) = add_bits(&sbits(a, w), &nb, ONE);
    (d, c.not())
}

pub fn mul_full(a: &[Bit], b: &[Bit], ow: usize) -> Vec<Bit> {
    // choose the operand with more constants as multiplier
    let ca = a.iter().filter(|x| x.is_const().is_none()).count();
    let cb = b.iter().filter(|x| x.is_const().is_none()).count();
    // (on a tie, in an order that does not depend on the operands' positions)
    let key = |x: &[Bit]| -> Vec<Vec<u32>> {
        x.iter().map(|b| match b {
            Bit::C(c) => vec![*c as u32],
            Bit::P(p) => std::iter::once(2).chain(p.t.iter().map(|m| *m as u32)).collect(),
        }).collect()
    };
    let swap = ca < cb || (ca == cb && ca > 0 && key(a) > key(b));
    let (a, b) = if swap { (b, a) } else { (a, b) };
    let wide = ca.min(cb) > 12 && !crate::poly::with(|c| c.exact);
    let mut acc = vec![ZERO; ow];
    for (i, m) in b.iter().enumerate() {
        if *m == ZERO || i >= ow {
            continue;
        }
        let mut row = vec![ZERO; ow];
        for (j, x) in a.iter().enumerate() {
            if i + j < ow {
                row[i + j] = x.and(m);
            }
        }
        acc = add_bits(&acc, &row, ZERO).0;
        if wide {
            // one variable per bit of a partial sum
            acc = acc.iter().map(crate::poly::name).collect();
        }
    }
    if wide {
        acc = acc.iter().map(crate::poly::soft).collect();
    }
    acc
}

pub fn eq_bits(a: &[Bit], b: &[Bit]) -> Bit {
    conj(a.iter().zip(b).map(|(x, y)| x.xor(y).not()).collect())
}

pub fn ult_bits(a: &[Bit], b: &[Bit]) -> Bit {
    // low bits that cannot matter: b ends in zeros, or a ends in ones
    let mut k = 0;
    while k + 1 < a.len() && b[k] == ZERO {
        k += 1;
    }
    let mut l = 0;
    while l + 1 < a.len() && a[l] == ONE {
        l += 1;
    }
    let k = k.max(l);
    let (a, b) = (&a[k..], &b[k..]);
    if let Some(r) = ult_table(a, b) {
        return r;
    }
    let mut lt = ZERO;
    for i in 0..a.len() {
        let d = a[i].xor(&b[i]);
        lt = d.ite(&b[i], &lt).carry_cut(CARRY_CUT);
    }
    lt
}

fn udivrem_bits(a: &[Bit], b: &[Bit]) -> (Vec<Bit>, Vec<Bit>) {
    let w = a.len();
    let mut r = vec![ZERO; w + 1];
    let mut q = vec![ZERO; w];
    let mut be: Vec<Bit> = b.to_vec();
    be.push(ZERO);
    let nbe: Vec<Bit> = be.iter().map(|x| x.not()).collect();
    for i in (0..w).rev() {
        r.pop();
        r.insert(0, a[i].clone());
        let (d, c) = add_bits(&r, &nbe, ONE);
        // c = 1 iff r >= b
        q[i] = c.clone();
        for k in 0..=w {
            r[k] = c.ite(&d[k], &r[k]).carry_cut(CARRY_CUT);
        }
    }
    r.pop();
    (q, r)
}

pub fn shift_bits(op: BinOp, a: &[Bit], s: &[Bit]) -> Vec<Bit> {
    let w = a.len();
    let mut cur = a.to_vec();
    let fill = |cur: &Vec<Bit>| if op == BinOp::AShr { cur[w - 1].clone() } else { ZERO };
    for (k, sb) in s.iter().enumerate() {
        if *sb == ZERO {
            continue;
        }
        let f = fill(&cur);
        let sh = if k < 30 { 1usize << k } else { usize::MAX };
        let mut n = Vec::with_capacity(w);
        for i in 0..w {
            let src = match op {
                BinOp::Shl => {
                    if i >= sh {
                        cur[i - sh].clone()
                    } else {
                        ZERO
                    }
                }
                _ => {
                    if sh < w && i + sh < w {
                        cur[i + sh].clone()
                    } else {
                        f.clone()
                    }
                }
            };
            n.push(sb.ite(&src, &cur[i]));
        }
        cur = n;
    }
    cur
}

pub fn bin(op: BinOp, w: u32, a: &Val, b: &Val) -> Val {
    if let (Val::I(x), Val::I(y)) = (a, b) {
        if w <= 128 {
            let (x, y) = (*x, *y);
            let m = mask(w);
            let r = match op {
                BinOp::Add => x.wrapping_add(y),
                BinOp::Sub => x.wrapping_sub(y),
                BinOp::Mul => x.wrapping_mul(y),
                BinOp::And => x & y,
                BinOp::Or => x | y,
                BinOp::Xor => x ^ y,
                BinOp::Shl => {
                    if y >= w as u128 {
                        return Val::U;
                    } else {
                        x << y
                    }
                }
                BinOp::LShr => {
                    if y >= w as u128 {
                        return Val::U;
                    } else {
                        x >> y
                    }
                }
                BinOp::AShr => {
                    if y >= w as u128 {
                        return Val::U;
                    } else {
                        (sext128(x, w) >> y) as u128
                    }
                }
                BinOp::UDiv => {
                    if y == 0 {
                        return Val::U;
                    }
                    x / y
                }
                BinOp::URem => {
                    if y == 0 {
                        return Val::U;
                    }
                    x % y
                }
                BinOp::SDiv => {
                    if y == 0 {
                        return Val::U;
                    }
                    sext128(x, w).wrapping_div(sext128(y, w)) as u128
                }
                BinOp::SRem => {
                    if y == 0 {
                        return Val::U;
                    }
                    sext128(x, w).wrapping_rem(sext128(y, w)) as u128
                }
                _ => return fbin(op, w, x, y),
            };
            return Val::I(r & m);
        }
    }
    if matches!(a, Val::U) || matches!(b, Val::U) {
        // an undefined bit masked by a known one is defined
        let o = if matches!(a, Val::U) { b } else { a };
        match (op, o) {
            (BinOp::And, Val::I(0)) => return Val::I(0),
            (BinOp::Or, Val::I(x)) if *x == mask(w) => return o.clone(),
            (BinOp::And | BinOp::Or, Val::S(_)) if w == 1 => {}
            _ => return Val::U,
        }
    }
    let x = sbits(a, w);
    let y = sbits(b, w);
    let wu = w as usize;
    let r = match op {
        BinOp::Xor => x.iter().zip(&y).map(|(a, b)| a.xor(b)).collect(),
        BinOp::And => x.iter().zip(&y).map(|(a, b)| a.and(b)).collect(),
        BinOp::Or => x.iter().zip(&y).map(|(a, b)| a.or(b)).collect(),
        BinOp::Add => add_bits(&x, &y, ZERO).0,
        BinOp::Sub => {
            let ny: Vec<Bit> = y.iter().map(|b| b.not()).collect();
            add_bits(&x, &ny, ONE).0
        }
        BinOp::Mul => mul_full(&x, &y, wu),
        BinOp::Shl | BinOp::LShr | BinOp::AShr => {
            let lg = (32 - (w - 1).leading_zeros()).max(1) as usize;
            shift_bits(op, &x, &y[..lg.min(y.len())])
        }
        BinOp::UDiv | BinOp::URem => {
            // power of two divisor
            if let Val::I(d) = b {
                if d.is_power_of_two() {
                    let k = d.trailing_zeros() as usize;
                    let mut o = vec![ZERO; wu];
                    if op == BinOp::UDiv {
                        for i in k..wu {
                            o[i - k] = x[i].clone();
                        }
                    } else {
                        o[..k].clone_from_slice(&x[..k]);
                    }
                    return from_bits(o);
                }
            }
            let (q, r) = udivrem_bits(&x, &y);
            if op == BinOp::UDiv {
                q
            } else {
                r
            }
        }
        BinOp::SDiv | BinOp::SRem => {
            let (sx, sy) = (x[wu - 1].clone(), y[wu - 1].clone());
            let neg = |v: &[Bit]| -> Vec<Bit> {
                let n: Vec<Bit> = v.iter().map(|b| b.not()).collect();
                let mut one = vec![ZERO; wu];
                one[0] = ONE;
                add_bits(&n, &one, ZERO).0
            };
            let sel = |c: &Bit, a: &[Bit], b: &[Bit]| -> Vec<Bit> { a.iter().zip(b).map(|(p, q)| c.ite(p, q)).collect() };
            let ax = sel(&sx, &neg(&x), &x);
            let ay = sel(&sy, &neg(&y), &y);
            let (q, r) = udivrem_bits(&ax, &ay);
            if op == BinOp::SDiv {
                sel(&sx.xor(&sy), &neg(&q), &q)
            } else {
                sel(&sx, &neg(&r), &r)
            }
        }
        _ => panic!("symbolic float op {:?}", op),
    };
    from_bits(r)
}

fn fbin(op: BinOp, w: u32, x: u128, y: u128) -> Val {
    if w == 32 {
        let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
        let r = match op {
            BinOp::FAdd => a + b,
            BinOp::FSub => a - b,
            BinOp::FMul => a * b,
            BinOp::FDiv => a / b,
            _ => a % b,
        };
        Val::I(r.to_bits() as u128)
    } else {
        let (a, b) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
        let r = match op {
            BinOp::FAdd => a + b,
            BinOp::FSub => a - b,
            BinOp::FMul => a * b,
            BinOp::FDiv => a / b,
            _ => a % b,
        };
        Val::I(r.to_bits() as u128)
    }
}

pub fn icmp(p: Pred, w: u32, a: &Val, b: &Val) -> Bit {
    if let (Val::I(x), Val::I(y)) = (a, b) {
        let (x, y) = (*x, *y);
        let (sx, sy) = (sext128(x, w), sext128(y, w));
        return Bit::C(match p {
            Pred::Eq => x == y,
            Pred::Ne => x != y,
            Pred::Ugt => x > y,
            Pred::Uge => x >= y,
            Pred::Ult => x < y,
            Pred::Ule => x <= y,
            Pred::Sgt => sx > sy,
            Pred::Sge => sx >= sy,
            Pred::Slt => sx < sy,
            Pred::Sle => sx <= sy,
        });
    }
    let mut x = sbits(a, w);
    let mut y = sbits(b, w);
    match p {
        Pred::Eq => return eq_bits(&x, &y),
        Pred::Ne => return eq_bits(&x, &y).not(),
        Pred::Sgt | Pred::Sge | Pred::Slt | Pred::Sle => {
            let k = w as usize - 1;
            x[k] = x[k].not();
            y[k] = y[k].not();
        }
        _ => {}
    }
    match p {
        Pred::Ult | Pred::Slt => ult_bits(&x, &y),
        Pred::Ugt | Pred::Sgt => ult_bits(&y, &x),
        Pred::Uge | Pred::Sge => ult_bits(&x, &y).not(),
        _ => ult_bits(&y, &x).not(),
    }
}

pub fn select(c: &Bit, a: &Val, b: &Val, t: &Ty) -> Val {
    match c {
        Bit::C(true) => return a.clone(),
        Bit::C(false) => return b.clone(),
        _ => {}
    }
    match t {
        Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => {
            let elem = |i: usize| -> TyRef {
                match t {
                    Ty::Vec(_, e) => e.clone(),
                    Ty::Arr(_, e) => e.clone(),
                    Ty::Struct(f, ..) => f[i].clone(),
                    _ => unreachable!(),
                }
            };
            match (a, b) {
                (Val::V(x), Val::V(y)) => {
                    Val::V(Rc::new((0..x.len()).map(|i| select(c, &x[i], &y[i], &elem(i))).collect()))
                }
                (Val::U, o) | (o, Val::U) => o.clone(),
                _ => panic!("select"),
            }
        }
        _ => {
            match (a, b) {
                (Val::U, o) | (o, Val::U) => return o.clone(),
                (Val::I(x), Val::I(y)) if x == y => return a.clone(),
                _ => {}
            }
            let w = t.bits();
            let x = sbits(a, w);
            let y = sbits(b, w);
            from_bits(x.iter().zip(&y).map(|(p, q)| c.ite(p, q)).collect())
        }
    }
}

pub fn cast(op: CastOp, f: &Ty, t: &Ty, v: &Val) -> Val {
    if let (Ty::Vec(_, fe), Ty::Vec(n, te)) = (f, t) {
        if op != CastOp::BitCast {
            return match v {
                Val::V(vs) => Val::V(Rc::new(
                    vs.iter().map(|x| if matches!(x, Val::U) { Val::U } else { cast(op, fe, te, x) }).collect(),
                )),
                _ => Val::V(Rc::new(vec![Val::U; *n as usize])),
            };
        }
    }
    let (fw, tw) = (f.bits(), t.bits());
    match op {
        CastOp::BitCast => {
            if matches!(v, Val::U) {
                return match t {
                    Ty::Vec(n, _) => Val::V(Rc::new(vec![Val::U; *n as usize])),
                    _ => Val::U,
                };
            }
            if !matches!(f, Ty::Vec(..)) && !matches!(t, Ty::Vec(..)) {
                return v.clone();
            }
            // concrete fast path
            if fw <= 128 {
                let x: Option<u128> = match (v, f) {
                    (Val::I(x), _) => Some(*x),
                    (Val::V(vs), Ty::Vec(_, e)) => {
                        let w = e.bits();
                        let mut acc = 0u128;
                        let mut ok = true;
                        for (i, l) in vs.iter().enumerate() {
                            match l {
                                Val::I(q) => acc |= q << (i as u32 * w),
                                _ => {
                                    ok = false;
                                    break;
                                }
                            }
                        }
                        ok.then_some(acc)
                    }
                    _ => None,
                };
                if let Some(x) = x {
                    return match t {
                        Ty::Vec(n, e) => {
                            let w = e.bits();
                            Val::V(Rc::new(
                                (0..*n)
                                    .map(|i| Val::I(if i * w >= 128 { 0 } else { (x >> (i * w)) & mask(w) }))
                                    .collect(),
                            ))
                        }
                        _ => Val::I(x),
                    };
                }
            }
            // keep undefined lanes undefined when lane sizes agree
            if let (Ty::Vec(n1, e1), Ty::Vec(n2, e2)) = (f, t) {
                if n1 == n2 && e1.bits() == e2.bits() {
                    return v.clone();
                }
                if let Val::V(vs) = v {
                    if vs.iter().any(|l| matches!(l, Val::U)) {
                        let (w1, w2) = (e1.bits(), e2.bits());
                        if w1 % w2 == 0 {
                            let k = w1 / w2;
                            let lt = Ty::Vec(k, e2.clone());
                            let mut o = Vec::with_capacity(*n2 as usize);
                            for l in vs.iter() {
                                match cast(CastOp::BitCast, e1, &lt, l) {
                                    Val::V(x) => o.extend(x.iter().cloned()),
                                    _ => unreachable!(),
                                }
                            }
                            return Val::V(Rc::new(o));
                        }
                        if w2 % w1 == 0 {
                            let k = (w2 / w1) as usize;
                            let lt = Ty::Vec(k as u32, e1.clone());
                            return Val::V(Rc::new(
                                vs.chunks(k)
                                    .map(|ch| {
                                        if ch.iter().all(|l| matches!(l, Val::U)) {
                                            Val::U
                                        } else {
                                            cast(CastOp::BitCast, &lt, e2, &Val::V(Rc::new(ch.to_vec())))
                                        }
                                    })
                                    .collect(),
                            ));
                        }
                    }
                }
            }
            unflat(&flat_bits(v, f), t)
        }
        CastOp::Trunc => match v {
            Val::I(x) => Val::I(x & mask(tw)),
            Val::S(b) => from_bits(b[..tw as usize].to_vec()),
            o => o.clone(),
        },
        CastOp::ZExt | CastOp::PtrToInt | CastOp::IntToPtr => {
            if fw == tw {
                return v.clone();
            }
            match v {
                Val::U if op != CastOp::ZExt || tw > 64 => Val::U,
                Val::I(x) if tw <= 128 => Val::I(x & mask(tw)),
                _ => {
                    let mut b = sbits(v, fw);
                    b.resize(tw as usize, ZERO);
                    from_bits(b)
                }
            }
        }
        CastOp::SExt => match v {
            Val::U => Val::U,
            Val::I(x) if tw <= 128 => Val::I(sext128(*x, fw) as u128 & mask(tw)),
            _ => {
                let mut b = sbits(v, fw);
                let s = b[fw as usize - 1].clone();
                b.resize(tw as usize, s);
                from_bits(b)
            }
        },
        _ => match v {
            Val::I(x) => {
                let x = *x;
                let asf = |x: u128| -> f64 {
                    if *f == Ty::F32 {
                        f32::from_bits(x as u32) as f64
                    } else {
                        f64::from_bits(x as u64)
                    }
                };
                let mkf = |d: f64| -> Val {
                    if *t == Ty::F32 {
                        Val::I((d as f32).to_bits() as u128)
                    } else {
                        Val::I(d.to_bits() as u128)
                    }
                };
                match op {
                    CastOp::FpToUi => Val::I((asf(x) as u128) & mask(tw)),
                    CastOp::FpToSi => Val::I((asf(x) as i128 as u128) & mask(tw)),
                    CastOp::UiToFp => {
                        if *t == Ty::F32 {
                            Val::I((x as f32).to_bits() as u128)
                        } else {
                            mkf(x as f64)
                        }
                    }
                    CastOp::SiToFp => mkf(sext128(x, fw) as f64),
                    _ => mkf(asf(x)),
                }
            }
            _ => panic!("symbolic float cast"),
        },
    }
}
