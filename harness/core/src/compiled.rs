//! C11: compiled circuits (ArithCircuitPoly) compute the polynomial of the circuit they were compiled from.
use binius_fast_compute::arith_circuit::ArithCircuitPoly;
use binius_field::packed::*;
use binius_field::*;
use binius_math::*;
use fref::any_f;
use std::sync::Arc;
use symapi::*;

#[derive(Clone, Copy)]
pub enum S<F> {
	C(F),
	V(usize),
	A(usize, usize),
	M(usize, usize),
	P(usize, u64),
}
pub fn val<F: TowerField, P: PackedField<Scalar: ExtensionField<F>>>(c: &[S<F>], x: &[P]) -> P {
	let mut v: Vec<P> = Vec::new();
	for s in c {
		v.push(match *s {
			S::C(f) => P::broadcast(f.into()),
			S::V(i) => x[i],
			S::A(a, b) => v[a] + v[b],
			S::M(a, b) => v[a] * v[b],
			S::P(a, e) => {
				let mut r = P::one();
				for _ in 0..e {
					r *= v[a];
				}
				r
			}
		});
	}
	v[v.len() - 1]
}
pub fn expr<F: Field>(c: &[S<F>]) -> ArithCircuit<F> {
	let mut v: Vec<Arc<ArithExpr<F>>> = Vec::new();
	for s in c {
		let e = match *s {
			S::C(f) => ArithExpr::Const(f),
			S::V(i) => ArithExpr::Var(i),
			S::A(a, b) => ArithExpr::Add(v[a].clone(), v[b].clone()),
			S::M(a, b) => ArithExpr::Mul(v[a].clone(), v[b].clone()),
			S::P(a, e) => ArithExpr::Pow(v[a].clone(), e),
		};
		v.push(Arc::new(e));
	}
	ArithCircuit::from(&*v[v.len() - 1])
}
/// one evaluation and a batch of rows, against the definition
fn go<F: TowerField, P: PackedField<Scalar: ExtensionField<F>>>(c: &[S<F>], nv: usize, rows: usize) {
	let p = ArithCircuitPoly::with_n_vars(nv, expr(c)).unwrap();
	check(CompositionPoly::<P>::n_vars(&p) == nv, 1);
	let x: Vec<P> = (0..nv).map(|_| any_pod()).collect();
	check(p.evaluate(&x).unwrap() == val(c, &x), 2);
	if rows > 0 {
		let cols: Vec<Vec<P>> = (0..nv).map(|i| (0..rows).map(|r| if r == 0 { x[i] } else { any_pod() }).collect()).collect();
		let refs: Vec<&[P]> = cols.iter().map(|c| c.as_slice()).collect();
		let mut out: Vec<P> = (0..rows).map(|_| any_pod()).collect();
		p.batch_evaluate(&RowsBatchRef::new(&refs, rows), &mut out).unwrap();
		for r in 0..rows {
			let xr: Vec<P> = cols.iter().map(|c| c[r]).collect();
			check(out[r] == val(c, &xr), 3);
		}
		let mut short: Vec<P> = vec![P::zero(); rows + 1];
		check(p.batch_evaluate(&RowsBatchRef::new(&refs, rows), &mut short).is_err(), 4);
	}
	check(CompositionPoly::<P>::evaluate(&p, &x[..nv - 1]).is_err(), 5);
}
const EXPS: [u64; 5] = [3, 1, 2, 6, 0];
fn op<F>(kind: usize, ids: &[usize]) -> S<F> {
	let n = ids.len();
	match kind {
		0 => S::A(ids[any_below(n)], ids[any_below(n)]),
		1 => S::M(ids[any_below(n)], ids[any_below(n)]),
		_ => S::P(ids[any_below(n)], EXPS[any_below(5)]),
	}
}
/// every circuit of `n` operations over `lead`, operands from `ids` and the operations themselves
fn all<F: TowerField, P: PackedField<Scalar: ExtensionField<F>>>(lead: &[S<F>], ids: &[usize], kinds: &[usize], nv: usize, rows: usize) {
	let mut c = lead.to_vec();
	let mut ids = ids.to_vec();
	for &k in kinds {
		let k = if k > 2 { any_below(k) } else { k };
		c.push(op(k, &ids));
		ids.push(c.len() - 1);
	}
	go::<F, P>(&c, nv, rows);
}
/// sums and products of products: e + (f * g) with e, f, g shared
fn fused<F: TowerField, P: PackedField<Scalar: ExtensionField<F>>>(last: usize, wide: bool, rows: usize) {
	let mut c = vec![S::V(0), S::V(1), S::V(2), S::M(0, 1)];
	let i = c.len();
	// one product, one sum that uses it, then anything
	let a = [0, 3, 2][any_below(if wide { 3 } else { 2 })];
	let b = [1, 3][any_below(2)];
	c.push(S::M(a, b));
	let s = [S::A(3, i), S::A(i, 3), S::A(0, i), S::A(i, i)][any_below(4)];
	c.push(s);
	let ids = [0, 3, i, i + 1];
	c.push(match any_below(3) {
		2 => S::P(ids[any_below(4)], [3, 1][any_below(2)]),
		k => op(k, &ids),
	});
	let ids = [3, i, i + 1, i + 2, 0];
	c.push(match last {
		2 => S::P(i + 2, EXPS[any_below(5)]),
		k => op(k, if wide { &ids } else { &ids[..4] }),
	});
	go::<F, P>(&c, 3, rows);
}
fn leads<F: TowerField>(g: F) -> Vec<S<F>> {
	vec![S::V(0), S::V(1), S::C(g)]
}
fn g4() -> BinaryField4b {
	BinaryField4b::MULTIPLICATIVE_GENERATOR
}
/// a fixed larger shape in wide and packed fields
fn wide<F: TowerField, P: PackedField<Scalar: ExtensionField<F>>>(k: usize, rows: usize) {
	let g = F::MULTIPLICATIVE_GENERATOR;
	let c: Vec<Vec<S<F>>> = vec![
		vec![S::V(0), S::V(1), S::A(0, 1), S::C(g), S::A(2, 3)],
		vec![S::V(0), S::V(1), S::V(2), S::C(g), S::M(3, 1), S::A(0, 4), S::A(5, 2)],
		vec![S::V(1), S::C(F::ONE), S::A(0, 1), S::P(2, 2), S::P(3, 2), S::A(4, 2)],
		vec![S::C(g), S::C(g), S::M(0, 1)],
		vec![S::V(0), S::C(g), S::A(0, 1), S::P(2, 4), S::C(F::ZERO), S::M(3, 4), S::A(5, 2)],
		vec![S::V(1)],
		vec![S::V(0), S::V(1), S::C(g), S::M(0, 2), S::P(0, 0), S::P(1, 0), S::M(4, 5), S::A(3, 6)],
	];
	go::<F, P>(&c[k], 3, rows);
}
type P4 = PackedBinaryField16x4b;

harness! {
	h_c11_two => all::<BinaryField4b, PackedBinaryField2x4b>(&leads(g4()), &[0, 1, 2], &[3, 3], 2, 2);
	h_c11_three_a => all::<BinaryField4b, PackedBinaryField2x4b>(&leads(g4())[..2], &[0, 1], &[3, 3, 0], 2, 0);
	h_c11_three_m => all::<BinaryField4b, PackedBinaryField2x4b>(&leads(g4())[..2], &[0, 1], &[3, 3, 1], 2, 0);
	h_c11_three_p => all::<BinaryField4b, PackedBinaryField2x4b>(&leads(g4())[..2], &[0, 1], &[3, 3, 2], 2, 1);
	h_c11_fused_a => fused::<BinaryField4b, PackedBinaryField2x4b>(0, false, 0);
	h_c11_fused_m => fused::<BinaryField4b, PackedBinaryField2x4b>(1, false, 0);
	h_c11_fused_p => fused::<BinaryField4b, PackedBinaryField2x4b>(2, false, 2);
	h_c11_fused_a_thorough => fused::<BinaryField4b, PackedBinaryField2x4b>(0, true, 2);
	h_c11_fused_m_thorough => fused::<BinaryField4b, PackedBinaryField2x4b>(1, true, 2);
	h_c11_three_c_thorough => all::<BinaryField4b, PackedBinaryField2x4b>(&leads(g4()), &[0, 1, 2], &[3, 3, 3], 2, 1);
	h_c11_wide_8 => { let k = any_below(7); wide::<BinaryField8b, PackedBinaryField16x8b>(k, 2); };
	h_c11_wide_128 => { let k = any_below(7); wide::<BinaryField8b, BinaryField128b>(k, 3); };
	h_c11_wide_32 => { let k = any_below(7); wide::<BinaryField8b, PackedBinaryField8x32b>(k, 1); };
	h_c11_wide_1 => { let k = any_below(7); wide::<BinaryField1b, PackedBinaryField128x1b>(k, 2); };
	h_c11_few_vars => {
		let c = vec![S::V(0), S::V(2), S::M(0, 1)];
		check(ArithCircuitPoly::<BinaryField4b>::with_n_vars(2, expr(&c)).is_err(), 1);
		let p = ArithCircuitPoly::new(expr(&c));
		check(CompositionPoly::<P4>::n_vars(&p) == 3 && CompositionPoly::<P4>::degree(&p) == 2, 2);
		let x: Vec<P4> = (0..3).map(|_| any_pod()).collect();
		check(p.evaluate(&x).unwrap() == x[0] * x[2], 3);
	};
}
