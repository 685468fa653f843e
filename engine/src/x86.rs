//! x86 intrinsics used by the code under check.

use crate::exec::lanes;
use crate::ir::*;
use crate::ops::*;
use crate::poly::*;
use std::rc::Rc;

fn vbits(v: &Val, t: &Ty) -> Vec<Bit> {
    flat_bits(v, t)
}

/// carry-less product
pub fn clmul(a: &[Bit], b: &[Bit]) -> Vec<Bit> {
    let n = a.len() + b.len();
    let mut rows: Vec<Bit> = vec![ZERO; n];
    for (i, x) in a.iter().enumerate() {
        if *x == ZERO {
            continue;
        }
        for (j, y) in b.iter().enumerate() {
            let p = x.and(y);
            if p != ZERO {
                rows[i + j] = rows[i + j].xor(&p);
            }
        }
    }
    rows
}

pub fn x86(n: &str, a: &[Val], at: &[(TyRef, Op)], rt: &TyRef) -> Result<Val, String> {
    let imm = |v: &Val| -> Result<u64, String> {
        match v {
            Val::I(x) => Ok(*x as u64),
            _ => Err(format!("symbolic immediate in {n}")),
        }
    };
    match n {
        "pclmulqdq" => {
            let i = imm(&a[2])?;
            let (x, y) = (lanes(&a[0], 2), lanes(&a[1], 2));
            let p = sbits(&x[(i & 1) as usize], 64);
            let q = sbits(&y[(i >> 4 & 1) as usize], 64);
            Ok(unflat(&clmul(&p, &q), rt))
        }
        "pclmulqdq.256" | "pclmulqdq.512" => {
            let nl = if n.ends_with("256") { 4 } else { 8 };
            let i = imm(&a[2])?;
            let (x, y) = (lanes(&a[0], nl), lanes(&a[1], nl));
            let mut out = vec![];
            for k in 0..nl / 2 {
                let p = sbits(&x[2 * k + (i & 1) as usize], 64);
                let q = sbits(&y[2 * k + (i >> 4 & 1) as usize], 64);
                out.extend(clmul(&p, &q));
            }
            Ok(unflat(&out, rt))
        }
        "ssse3.pshuf.b.128" | "avx2.pshuf.b" | "avx512.pshuf.b.512" => {
            let nl = match &*at[0].0 {
                Ty::Vec(n, _) => *n as usize,
                _ => return Err(n.into()),
            };
            let (x, y) = (lanes(&a[0], nl), lanes(&a[1], nl));
            let mut out = vec![];
            for i in 0..nl {
                let base = i / 16 * 16;
                match &y[i] {
                    Val::I(k) => {
                        if k & 0x80 != 0 {
                            out.push(Val::I(0));
                        } else {
                            out.push(x[base + (*k & 15) as usize].clone());
                        }
                    }
                    k => {
                        let kb = sbits(k, 8);
                        // table over the symbolic index bits
                        let atoms: Vec<Bit> = kb[..4].to_vec();
                        let src: Vec<Vec<Bit>> = (0..16).map(|j| sbits(&x[base + j], 8)).collect();
                        let tables: Vec<Vec<Bit>> = (0..8).map(|b| (0..16).map(|j| src[j][b].clone()).collect()).collect();
                        let r = index_table(&atoms, tables);
                        let hi = kb[7].not();
                        out.push(from_bits(r.iter().map(|b| b.and(&hi)).collect()));
                    }
                }
            }
            Ok(Val::V(Rc::new(out)))
        }
        "vgf2p8affineqb.128" | "vgf2p8affineqb.256" | "vgf2p8affineqb.512" => {
            let nl = match &*at[0].0 {
                Ty::Vec(n, _) => *n as usize,
                _ => return Err(n.into()),
            };
            let (x, m) = (lanes(&a[0], nl), lanes(&a[1], nl));
            let b = imm(&a[2])?;
            let mut out = vec![];
            for i in 0..nl {
                let q = i / 8 * 8;
                let xb = sbits(&x[i], 8);
                let mut r = vec![];
                for k in 0..8 {
                    let row = sbits(&m[q + 7 - k], 8);
                    let mut acc = Bit::C(b >> k & 1 == 1);
                    for j in 0..8 {
                        acc = acc.xor(&row[j].and(&xb[j]));
                    }
                    r.push(acc);
                }
                out.push(from_bits(r));
            }
            Ok(Val::V(Rc::new(out)))
        }
        "vgf2p8mulb.128" | "vgf2p8mulb.256" | "vgf2p8mulb.512" => {
            let nl = match &*at[0].0 {
                Ty::Vec(n, _) => *n as usize,
                _ => return Err(n.into()),
            };
            let (x, y) = (lanes(&a[0], nl), lanes(&a[1], nl));
            let out = (0..nl).map(|i| from_bits(aes_mul(&sbits(&x[i], 8), &sbits(&y[i], 8)))).collect();
            Ok(Val::V(Rc::new(out)))
        }
        "vgf2p8affineinvqb.128" | "vgf2p8affineinvqb.256" | "vgf2p8affineinvqb.512" => {
            let nl = match &*at[0].0 {
                Ty::Vec(n, _) => *n as usize,
                _ => return Err(n.into()),
            };
            let inv = aes_inv_table();
            let x = lanes(&a[0], nl);
            let xi: Vec<Val> = x.iter().map(|v| lookup8(v, &inv)).collect();
            let name = n.replace("affineinv", "affine");
            x86(&name, &[Val::V(Rc::new(xi)), a[1].clone(), a[2].clone()], at, rt)
        }
        "aesni.aesenclast" | "aesni.aesenc" | "aesni.aesdec" | "aesni.aesdeclast" | "aesni.aesimc" => {
            let mut s: Vec<Val> = lanes(&cast(CastOp::BitCast, &at[0].0, &v16(), &a[0]), 16);
            let sb = aes_sbox();
            match n {
                "aesni.aesenclast" => {
                    s = shift_rows(&s);
                    s = s.iter().map(|v| lookup8(v, &sb)).collect();
                }
                "aesni.aesenc" => {
                    s = shift_rows(&s);
                    s = s.iter().map(|v| lookup8(v, &sb)).collect();
                    s = mix(&s, &[2, 3, 1, 1]);
                }
                "aesni.aesdeclast" | "aesni.aesdec" => {
                    let mut isb = vec![0u8; 256];
                    for (i, x) in sb.iter().enumerate() {
                        isb[*x as usize] = i as u8;
                    }
                    s = inv_shift_rows(&s);
                    s = s.iter().map(|v| lookup8(v, &isb)).collect();
                    if n == "aesni.aesdec" {
                        s = mix(&s, &[14, 11, 13, 9]);
                    }
                }
                _ => {
                    s = mix(&s, &[14, 11, 13, 9]);
                    return Ok(cast(CastOp::BitCast, &v16(), rt, &Val::V(Rc::new(s))));
                }
            }
            let k = lanes(&cast(CastOp::BitCast, &at[1].0, &v16(), &a[1]), 16);
            let s = (0..16).map(|i| bin(BinOp::Xor, 8, &s[i], &k[i])).collect();
            Ok(cast(CastOp::BitCast, &v16(), rt, &Val::V(Rc::new(s))))
        }
        "sse2.pmovmskb.128" | "avx2.pmovmskb" => {
            let nl = match &*at[0].0 {
                Ty::Vec(n, _) => *n as usize,
                _ => return Err(n.into()),
            };
            let x = lanes(&a[0], nl);
            let mut r: Vec<Bit> = x.iter().map(|v| sbits(v, 8)[7].clone()).collect();
            r.resize(32, ZERO);
            Ok(from_bits(r))
        }
        "sse41.ptestz" | "avx.ptestz.256" | "sse41.ptestc" | "avx.ptestc.256" => {
            let (x, y) = (vbits(&a[0], &at[0].0), vbits(&a[1], &at[1].0));
            let z = conj(
                x.iter()
                    .zip(&y)
                    .map(|(p, q)| if n.contains("ptestz") { p.and(q).not() } else { p.not().and(q).not() })
                    .collect(),
            );
            let mut r = vec![ZERO; 32];
            r[0] = z;
            Ok(from_bits(r))
        }
        "sse2.psll.q" | "sse2.psrl.q" | "sse2.psll.d" | "sse2.psrl.d" | "sse2.psll.w" | "sse2.psrl.w" | "avx2.psll.q"
        | "avx2.psrl.q" | "avx2.psll.d" | "avx2.psrl.d" | "avx2.psll.w" | "avx2.psrl.w" => {
            let (nl, e) = match &*at[0].0 {
                Ty::Vec(n, e) => (*n as usize, e.bits()),
                _ => return Err(n.into()),
            };
            let cnt = vbits(&a[1], &at[1].0);
            let c = match from_bits(cnt[..64].to_vec()) {
                Val::I(c) => c,
                _ => return Err("symbolic vector shift".into()),
            };
            let op = if n.contains("psll") { BinOp::Shl } else { BinOp::LShr };
            let x = lanes(&a[0], nl);
            Ok(Val::V(Rc::new(
                x.iter().map(|v| if c >= e as u128 { Val::I(0) } else { bin(op, e, v, &Val::I(c)) }).collect(),
            )))
        }
        "sse2.pause" | "avx.vzeroupper" | "avx.vzeroall" => Ok(Val::U),
        "avx2.permd" | "avx512.permvar.si.512" | "avx512.permvar.di.512" | "avx512.permvar.di.256" | "avx512.permvar.qi.512" => {
            let nl = match &*at[0].0 {
                Ty::Vec(n, _) => *n as usize,
                _ => return Err(n.into()),
            };
            let (x, ix) = (lanes(&a[0], nl), lanes(&a[1], nl));
            let mut out = vec![];
            for i in ix {
                match i {
                    Val::I(k) => out.push(x[k as usize % nl].clone()),
                    _ => return Err("symbolic permutation".into()),
                }
            }
            Ok(Val::V(Rc::new(out)))
        }
        "bmi.pdep.64" | "bmi.pext.64" | "bmi.pdep.32" | "bmi.pext.32" => {
            let w = at[0].0.bits();
            let m = match &a[1] {
                Val::I(m) => *m,
                _ => return Err("symbolic pdep mask".into()),
            };
            let x = sbits(&a[0], w);
            let mut out = vec![ZERO; w as usize];
            let mut k = 0;
            for i in 0..w as usize {
                if m >> i & 1 == 1 {
                    if n.contains("pdep") {
                        out[i] = x[k].clone();
                    } else {
                        out[k] = x[i].clone();
                    }
                    k += 1;
                }
            }
            Ok(from_bits(out))
        }
        _ => Err(format!("unsupported x86 intrinsic {n}")),
    }
}

/// index into tables whose entries may be symbolic, index bits may be constant
fn index_table(idx: &[Bit], tables: Vec<Vec<Bit>>) -> Vec<Bit> {
    let mut tabs = tables;
    let mut atoms = vec![];
    // specialise constant index bits (from the top)
    for (k, b) in idx.iter().enumerate().rev() {
        match b {
            Bit::C(v) => {
                // remove bit k
                for t in tabs.iter_mut() {
                    let n = t.len();
                    let mut nt = Vec::with_capacity(n / 2);
                    for i in 0..n {
                        if (i >> k & 1 == 1) == *v {
                            nt.push(t[i].clone());
                        }
                    }
                    *t = nt;
                }
            }
            _ => atoms.insert(0, b.clone()),
        }
    }
    if atoms.is_empty() {
        return tabs.into_iter().map(|mut t| t.pop().unwrap()).collect();
    }
    table_lookup(&atoms, tabs)
}

fn v16() -> Ty {
    Ty::Vec(16, Rc::new(Ty::Int(8)))
}

pub fn lookup8(v: &Val, t: &[u8]) -> Val {
    match v {
        Val::I(x) => Val::I(t[*x as usize] as u128),
        _ => {
            let b = sbits(v, 8);
            let tables: Vec<Vec<Bit>> = (0..8).map(|k| t.iter().map(|x| Bit::C(x >> k & 1 == 1)).collect()).collect();
            from_bits(index_table(&b, tables))
        }
    }
}

fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 == 1 {
            r ^= a;
        }
        a = (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 };
        b >>= 1;
    }
    r
}

fn aes_mul(a: &[Bit], b: &[Bit]) -> Vec<Bit> {
    let p = clmul(a, b);
    let mut r = p[..8].to_vec();
    for (i, x) in p.iter().enumerate().skip(8) {
        if *x == ZERO {
            continue;
        }
        // X^i mod poly
        let mut m = 1u8;
        for _ in 0..i {
            m = gmul(m, 2);
        }
        for (k, rk) in r.iter_mut().enumerate() {
            if m >> k & 1 == 1 {
                *rk = rk.xor(x);
            }
        }
    }
    r
}

fn aes_inv_table() -> Vec<u8> {
    let mut t = vec![0u8; 256];
    for a in 1..=255u8 {
        for b in 1..=255u8 {
            if gmul(a, b) == 1 {
                t[a as usize] = b;
                break;
            }
        }
    }
    t
}

pub fn aes_sbox() -> Vec<u8> {
    aes_inv_table()
        .into_iter()
        .map(|x| x ^ x.rotate_left(1) ^ x.rotate_left(2) ^ x.rotate_left(3) ^ x.rotate_left(4) ^ 0x63)
        .collect()
}

fn shift_rows(s: &[Val]) -> Vec<Val> {
    (0..16).map(|i| s[((i / 4 + i % 4) % 4) * 4 + i % 4].clone()).collect()
}
fn inv_shift_rows(s: &[Val]) -> Vec<Val> {
    (0..16).map(|i| s[((i / 4 + 4 - i % 4) % 4) * 4 + i % 4].clone()).collect()
}
fn mix(s: &[Val], c: &[u8; 4]) -> Vec<Val> {
    let mut out = vec![];
    for col in 0..4 {
        for r in 0..4 {
            let mut acc = Val::I(0);
            for k in 0..4 {
                let coef = c[(k + 4 - r) % 4];
                let x = sbits(&s[col * 4 + k], 8);
                let cb: Vec<Bit> = (0..8).map(|i| Bit::C(coef >> i & 1 == 1)).collect();
                acc = bin(BinOp::Xor, 8, &acc, &from_bits(aes_mul(&x, &cb)));
            }
            out.push(acc);
        }
    }
    out
}
