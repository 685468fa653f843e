//! C09: arithmetic expressions and circuits denote the polynomial they were built from, through every rewriting.
use binius_field::packed::*;
use binius_field::*;
use binius_math::*;
use fref::any_f;
use std::sync::Arc;
use symapi::*;

type F = BinaryField4b;
#[derive(Clone)]
enum S {
	C(F),
	V(usize),
	A(usize, usize),
	M(usize, usize),
	P(usize, u64),
}
fn k(x: u8) -> F {
	<F as fref::Sc>::mk(x as u128)
}
const CONSTS: [u8; 4] = [0, 1, 2, 13];
const EXPS: [u64; 5] = [0, 1, 2, 3, 6];
fn any_const() -> F {
	k(CONSTS[any_below(4)])
}
fn leaf(nv: usize) -> S {
	let i = any_below(4 + nv);
	if i < 4 { S::C(k(CONSTS[i])) } else { S::V(i - 4) }
}
fn inner(op: usize, at: usize) -> S {
	match op {
		0 => S::A(any_below(at), any_below(at)),
		1 => S::M(any_below(at), any_below(at)),
		_ => S::P(any_below(at), EXPS[any_below(5)]),
	}
}
/// value of every step by definition
fn val(c: &[S], x: &[F]) -> F {
	let mut v: Vec<F> = Vec::new();
	for s in c {
		v.push(match *s {
			S::C(f) => f,
			S::V(i) => x[i],
			S::A(a, b) => v[a] + v[b],
			S::M(a, b) => v[a] * v[b],
			S::P(a, e) => {
				let mut r = F::ONE;
				for _ in 0..e {
					r *= v[a];
				}
				r
			}
		});
	}
	v[v.len() - 1]
}
fn expr(c: &[S]) -> ArithExpr<F> {
	let mut v: Vec<Arc<ArithExpr<F>>> = Vec::new();
	for s in c {
		let e = match *s {
			S::C(f) => ArithExpr::Const(f),
			S::V(i) => ArithExpr::Var(i),
			S::A(a, b) => ArithExpr::Add(v[a].clone(), v[b].clone()),
			S::M(a, b) => ArithExpr::Mul(v[a].clone(), v[b].clone()),
			S::P(a, e) => ArithExpr::Pow(v[a].clone(), e),
		};
		v.push(Arc::new(e));
	}
	(*v[v.len() - 1]).clone()
}
fn circ(c: &[S]) -> ArithCircuit<F> {
	let mut v: Vec<ArithCircuit<F>> = Vec::new();
	for s in c {
		let e = match *s {
			S::C(f) => ArithCircuit::constant(f),
			S::V(i) => ArithCircuit::var(i),
			S::A(a, b) => v[a].clone() + v[b].clone(),
			S::M(a, b) => v[a].clone() * v[b].clone(),
			S::P(a, e) => v[a].clone().pow(e),
		};
		v.push(e);
	}
	v.pop().unwrap()
}
fn reach(c: &[S], i: usize, u: &mut [bool]) {
	u[i] = true;
	match c[i] {
		S::A(a, b) | S::M(a, b) => {
			reach(c, a, u);
			reach(c, b, u);
		}
		S::P(a, _) => reach(c, a, u),
		_ => {}
	}
}
fn deg(c: &[S], i: usize) -> usize {
	match c[i] {
		S::C(_) => 0,
		S::V(_) => 1,
		S::A(a, b) => deg(c, a).max(deg(c, b)),
		S::M(a, b) => deg(c, a) + deg(c, b),
		S::P(a, e) => deg(c, a) * e as usize,
	}
}
/// homogeneous part of the given degree: coefficient of t^d of c(t x), by dense polynomial arithmetic in t
fn homog(c: &[S], x: &[F], d: usize) -> F {
	let mut v: Vec<Vec<F>> = Vec::new();
	let mul = |a: &[F], b: &[F]| {
		let mut r = vec![F::ZERO; a.len() + b.len() - 1];
		for (i, &p) in a.iter().enumerate() {
			for (j, &q) in b.iter().enumerate() {
				r[i + j] += p * q;
			}
		}
		r
	};
	for s in c {
		v.push(match *s {
			S::C(f) => vec![f],
			S::V(i) => vec![F::ZERO, x[i]],
			S::A(a, b) => {
				let n = v[a].len().max(v[b].len());
				(0..n)
					.map(|i| v[a].get(i).copied().unwrap_or(F::ZERO) + v[b].get(i).copied().unwrap_or(F::ZERO))
					.collect()
			}
			S::M(a, b) => mul(&v[a], &v[b]),
			S::P(a, e) => {
				let mut r = vec![F::ONE];
				for _ in 0..e {
					r = mul(&r, &v[a]);
				}
				r
			}
		});
	}
	v[v.len() - 1].get(d).copied().unwrap_or(F::ZERO)
}

const NV: usize = 3;
fn all(c: &[S]) {
	let x: Vec<F> = (0..NV + 1).map(|_| any_f()).collect();
	let want = val(c, &x);
	let e = expr(c);
	let c1 = ArithCircuit::from(&e);
	let c2 = circ(c);
	let n = c.len();
	let mut u = vec![false; n];
	reach(c, n - 1, &mut u);
	let mut vars = vec![false; NV];
	let mut lvl = 0;
	for i in 0..n {
		if u[i] {
			match c[i] {
				S::V(j) => vars[j] = true,
				S::C(f) => {
					let r: u8 = bytemuck(f);
					lvl = lvl.max(if r < 2 { 0 } else if r < 4 { 1 } else { 2 });
				}
				_ => {}
			}
		}
	}
	let nv = (0..NV).filter(|&i| vars[i]).map(|i| i + 1).max().unwrap_or(0);
	for (t, z) in [&c1, &c2].into_iter().enumerate() {
		let id = 100 * t as u64;
		check(z.evaluate(&x).unwrap() == want, id + 1);
		check(z.evaluate(&x[..nv]).unwrap() == want, id + 2);
		check(z.degree() == deg(c, n - 1), id + 3);
		check(z.n_vars() == nv, id + 4);
		check(z.vars_usage() == &vars[..nv], id + 5);
		check(z.binary_tower_level() == lvl, id + 6);
		let o = z.clone().optimize();
		check(o.evaluate(&x).unwrap() == want, id + 7);
		let oc = z.clone().optimize_constants();
		check(oc.evaluate(&x).unwrap() == want, id + 8);
		let mut oi = z.clone();
		oi.optimize_in_place();
		check(oi.evaluate(&x).unwrap() == want, id + 9);
		// every step of an optimised circuit refers to earlier steps only
		for (i, s) in o.steps().iter().enumerate() {
			let ok = match *s {
				ArithCircuitStep::Add(a, b) | ArithCircuitStep::Mul(a, b) => a < i && b < i,
				ArithCircuitStep::Pow(a, _) => a < i,
				_ => true,
			};
			check(ok, id + 10);
		}
		check(o.steps().len() <= z.steps().len(), id + 11);
		if let Some(v) = o.get_constant() {
			check(v == want, id + 12);
		}
		let back = ArithExpr::from(z);
		check(ArithCircuit::from(&back).evaluate(&x).unwrap() == want, id + 13);
		let back = ArithExpr::from(&o);
		check(ArithCircuit::from(&back).evaluate(&x).unwrap() == want, id + 14);
		let lt = z.leading_term();
		check(lt.evaluate(&x).unwrap() == homog(c, &x, deg(c, n - 1)), id + 15);
		match z.linear_normal_form() {
			Ok(l) => {
				check(deg(c, n - 1) <= 1, id + 16);
				check(l.var_coeffs.len() <= nv, id + 17);
				let s: F = l.constant + l.var_coeffs.iter().zip(&x).map(|(&c, &x)| c * x).sum::<F>();
				check(s == want, id + 18);
			}
			Err(_) => check(deg(c, n - 1) > 1, id + 19),
		}
		let conv = z.convert_field::<BinaryField8b>();
		let x8: Vec<BinaryField8b> = x.iter().map(|&v| v.into()).collect();
		check(conv.evaluate(&x8).unwrap() == BinaryField8b::from(want), id + 20);
		let back = conv.try_convert_field::<F>().unwrap();
		check(back.evaluate(&x).unwrap() == want, id + 21);
		check(back == *z, id + 22);
		check(z.try_convert_field::<BinaryField2b>().is_ok() == (lvl <= 1), id + 23);
	}
	check(c1 == c2, 24);
}
fn bytemuck(f: F) -> u8 {
	fref::Sc::raw(f) as u8
}
/// substitution, renaming, equality of structure, arithmetic on circuits
fn subst(c: &[S]) {
	let x: Vec<F> = (0..6).map(|_| any_f()).collect();
	let z = ArithCircuit::from(expr(c));
	let y: F = any_const();
	for v in 0..NV {
		let mut xs = x.clone();
		xs[v] = y;
		check(z.clone().const_subst(v, y).evaluate(&x).unwrap() == val(c, &xs), 1);
		check(z.clone().const_subst(v, y).optimize().evaluate(&x).unwrap() == val(c, &xs), 2);
	}
	let ix = [any_below(6), any_below(6), 4];
	let xr: Vec<F> = ix.iter().map(|&i| x[i]).collect();
	check(z.remap_vars(&ix).unwrap().evaluate(&x).unwrap() == val(c, &xr), 3);
	for l in 0..3 {
		check(z.remap_vars(&ix[..l]).is_ok() == (z.n_vars() <= l), 4);
	}
}
/// equality of two circuits holds exactly when the trees are the same
fn tree_eq(a: &[S], i: usize, b: &[S], j: usize) -> bool {
	match (&a[i], &b[j]) {
		(S::C(x), S::C(y)) => x == y,
		(S::V(x), S::V(y)) => x == y,
		(S::A(p, q), S::A(r, s)) | (S::M(p, q), S::M(r, s)) => tree_eq(a, *p, b, *r) && tree_eq(a, *q, b, *s),
		(S::P(p, e), S::P(r, f)) => e == f && tree_eq(a, *p, b, *r),
		_ => false,
	}
}
fn eq(a: &[S], b: &[S]) {
	let (x, y) = (ArithCircuit::from(expr(a)), circ(b));
	check((x == y) == tree_eq(a, a.len() - 1, b, b.len() - 1), 1);
}
fn combine(a: &[S], b: &[S]) {
	let x: Vec<F> = (0..NV).map(|_| any_f()).collect();
	let (p, q) = (ArithCircuit::from(expr(a)), ArithCircuit::from(expr(b)));
	let (va, vb) = (val(a, &x), val(b, &x));
	check((p.clone() + q.clone()).evaluate(&x).unwrap() == va + vb, 1);
	check((p.clone() - q.clone()).evaluate(&x).unwrap() == va - vb, 2);
	check((p.clone() * q.clone()).evaluate(&x).unwrap() == va * vb, 3);
	let mut t = p.clone();
	t += q.clone();
	t *= p.clone();
	t -= q.clone();
	check(t.evaluate(&x).unwrap() == (va + vb) * va - vb, 4);
	check(t.optimize().evaluate(&x).unwrap() == (va + vb) * va - vb, 5);
	check([p.clone(), q.clone(), p.clone()].into_iter().sum::<ArithCircuit<F>>().evaluate(&x).unwrap() == vb, 6);
	check([p.clone(), q.clone(), p.clone()].into_iter().product::<ArithCircuit<F>>().evaluate(&x).unwrap() == va * vb * va, 7);
	let (e, f) = (expr(a), expr(b));
	let g = |e: ArithExpr<F>| ArithCircuit::from(e).evaluate(&x).unwrap();
	check(g(e.clone() + f.clone()) == va + vb && g(e.clone() - f.clone()) == va - vb && g(e.clone() * f.clone()) == va * vb, 8);
	let mut t = e.clone();
	t += f.clone();
	t *= e.clone();
	t -= Arc::new(f.clone());
	t += Arc::new(e.clone());
	t *= Arc::new(f.clone());
	check(g(t) == ((va + vb) * va - vb + va) * vb, 9);
	check(g(e.clone().pow(3)) == va * va * va, 10);
	check(g([e.clone(), f.clone(), e.clone()].into_iter().sum()) == vb && g([e.clone(), f.clone(), e.clone()].into_iter().product()) == va * vb * va, 11);
	check(g(Vec::new().into_iter().sum()) == F::ZERO && g(Vec::new().into_iter().product()) == F::ONE && g(ArithExpr::zero()) == F::ZERO && g(ArithExpr::one()) == F::ONE, 12);
}
/// nested powers keep their value for all exponents
fn pows(e1: u64, e2: u64) {
	type G = BinaryField8b;
	let z = ArithCircuit::<G>::var(0).pow(e1).pow(e2);
	let x: G = any_f();
	let w = PackedField::pow(PackedField::pow(x, e1), e2);
	check(z.evaluate(&[x]).unwrap() == w, 1);
	check(z.clone().optimize().evaluate(&[x]).unwrap() == w, 2);
	check(z.optimize_constants().evaluate(&[x]).unwrap() == w, 3);
}
fn l(i: usize) -> S {
	S::V(i)
}
fn t4(op: usize, op2: usize) -> Vec<S> {
	vec![leaf(1), S::V(1), inner(op, 2), inner(op2, 3)]
}
fn t5(op: usize, op2: usize, op3: usize) -> Vec<S> {
	let a = any_below(2);
	let c = S::C(k([0u8, 1, 13][any_below(3)]));
	vec![
		S::V(1),
		c,
		if op == 2 { S::P(0, EXPS[any_below(5)]) } else if op == 0 { S::A(0, a) } else { S::M(a, 0) },
		if op2 == 2 { S::P(2, EXPS[any_below(5)]) } else if op2 == 0 { S::A(2, any_below(3)) } else { S::M(any_below(3), 2) },
		if op3 == 2 { S::P(3, 2 + any_below(2) as u64) } else if op3 == 0 { S::A(any_below(4), 3) } else { S::M(3, any_below(4)) },
	]
}
/// common subexpressions written out twice, dead steps, folding to equal steps
fn t7() -> Vec<S> {
	let m = any_below(2) == 0;
	let o = |a, b| if m { S::A(a, b) } else { S::M(a, b) };
	vec![S::V(0), leaf(1), o(0, 1), S::V(any_below(2)), o(3, any_below(2)), S::P(4, EXPS[any_below(5)]), if any_below(2) == 0 { S::A(2, 5) } else { S::M(5, 2) }]
}
macro_rules! hs {
	($($n:ident $e:expr;)*) => { harness! { $($n => { let c = $e; all(&c); };)* } };
}
hs! {
	h_c09_leaf vec![leaf(3)];
	h_c09_two_add vec![leaf(3), inner(0, 1)];
	h_c09_two_mul vec![leaf(3), inner(1, 1)];
	h_c09_two_pow vec![leaf(3), inner(2, 1)];
	h_c09_three_add vec![leaf(2), leaf(3), inner(0, 2)];
	h_c09_three_mul vec![leaf(2), leaf(3), inner(1, 2)];
	h_c09_three_pow vec![leaf(2), leaf(3), inner(2, 2)];
	h_c09_four_aa t4(0, 0);
	h_c09_four_am t4(0, 1);
	h_c09_four_ap t4(0, 2);
	h_c09_four_ma t4(1, 0);
	h_c09_four_mm t4(1, 1);
	h_c09_four_mp t4(1, 2);
	h_c09_four_pa t4(2, 0);
	h_c09_four_pm t4(2, 1);
	h_c09_four_pp t4(2, 2);
	h_c09_five_aam t5(0, 0, 1);
	h_c09_five_ama t5(0, 1, 0);
	h_c09_five_apm t5(0, 2, 1);
	h_c09_five_mam t5(1, 0, 1);
	h_c09_five_mpa t5(1, 2, 0);
	h_c09_five_map t5(1, 0, 2);
	h_c09_five_pam t5(2, 0, 1);
	h_c09_five_ppa t5(2, 2, 0);
	h_c09_five_pma t5(2, 1, 0);
	h_c09_seven t7();
}
harness! {
	h_c09_subst_1 => subst(&[leaf(3), S::V(1), inner(0, 2), S::M(2, 1)]);
	h_c09_subst_2 => subst(&[leaf(3), S::V(2), inner(1, 2), S::A(2, 0)]);
	h_c09_subst_3 => subst(&[leaf(3), inner(2, 1)]);
	h_c09_eq_1 => eq(&[leaf(1), leaf(1), inner(any_below(3), 2)], &[S::V(0), S::C(k(1)), inner(0, 2)]);
	h_c09_eq_2 => eq(&[leaf(1), leaf(1), inner(any_below(3), 2)], &[S::V(0), S::C(k(1)), inner(1, 2)]);
	h_c09_eq_3 => eq(&[leaf(2), inner(any_below(3), 1)], &[leaf(2), inner(2, 1)]);
	h_c09_comb_1 => combine(&[leaf(2), l(1), S::M(0, 1)], &[leaf(2), S::P(0, 2)]);
	h_c09_comb_2 => combine(&[leaf(2)], &[leaf(2), l(2), S::A(0, 1)]);
	h_c09_comb_3 => combine(&[l(0), l(1), S::M(0, 1), S::M(2, 0)], &[leaf(2), l(2), S::M(0, 1), S::A(2, 1)]);
	h_c09_pow_small => { for a in 0..5 { for b in 0..5 { pows(a, b); } } };
	h_c09_pow_big => { pows(1 << 32, 1 << 32); pows(1 << 63, 2); pows(3, u64::MAX / 2); pows(u64::MAX, 1); };
}
