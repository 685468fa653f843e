//! C17: transparent polynomials: closed-form evaluation, hypercube table and definition agree.
use binius_core::oracle::ShiftVariant;
use binius_core::polynomial::MultivariatePoly;
use binius_core::transparent::{
	constant::Constant, disjoint_product::DisjointProduct, eq_ind::EqIndPartialEval, powers::Powers, select_row::SelectRow,
	shift_ind::ShiftIndPartialEval, step_down::StepDown, step_up::StepUp, tower_basis::TowerBasis, MultilinearExtensionTransparent,
};
use binius_field::packed::*;
use binius_field::*;
use binius_hal::make_portable_backend;
use binius_math::*;
use fref::any_f;
use symapi::*;

/// value at q of the multilinear extension of f on {0,1}^n
pub fn mle_at<F: Field>(n: usize, q: &[F], f: &dyn Fn(usize) -> F) -> F {
	let mut v: Vec<F> = (0..1usize << n).map(f).collect();
	for &r in q {
		v = v.chunks(2).map(|p| p[0] + r * (p[1] - p[0])).collect();
	}
	v[0]
}
pub fn pt<F: BinaryField>(n: usize, sym: bool) -> Vec<F> {
	let mut g = F::MULTIPLICATIVE_GENERATOR;
	(0..n)
		.map(|_| {
			g = g * g * F::MULTIPLICATIVE_GENERATOR + F::ONE;
			if sym { any_f() } else { g }
		})
		.collect()
}
fn same<P: PackedField>(m: &MultilinearExtension<P>, n: usize, f: &dyn Fn(usize) -> P::Scalar, id: u64) {
	check(m.n_vars() == n, id);
	for i in 0..1usize << n {
		check(get_packed_slice(m.evals(), i) == f(i), id + 1);
	}
}
fn bit<F: Field>(b: bool) -> F {
	if b { F::ONE } else { F::ZERO }
}
fn common<F: BinaryField + TowerField, M: MultivariatePoly<F>>(m: &M, n: usize, q: &[F], f: &dyn Fn(usize) -> F) {
	check(m.n_vars() == n, 1);
	check(m.evaluate(q).unwrap() == mle_at(n, q, f), 2);
	let mut q2 = q.to_vec();
	q2.push(F::ONE);
	check(m.evaluate(&q2).is_err(), 3);
	if n > 0 {
		check(m.evaluate(&q[..n - 1]).is_err(), 4);
	}
	// on the cube itself
	for i in 0..1usize << n {
		let v: Vec<F> = (0..n).map(|k| bit(i >> k & 1 == 1)).collect();
		check(m.evaluate(&v).unwrap() == f(i), 5);
	}
}
fn select<F: BinaryField + TowerField, P: PackedField<Scalar = BinaryField1b>>(n: usize, sym: bool) {
	let q = pt::<F>(n, sym);
	for ix in 0..1usize << n {
		let s = SelectRow::new(n, ix).unwrap();
		common::<F, _>(&s, n, &q, &|i| bit(i == ix));
		check(MultivariatePoly::<F>::binary_tower_level(&s) == 0, 10);
		match s.multilinear_extension::<P>() {
			Ok(m) => same(&m, n, &|i| bit(i == ix), 11),
			Err(_) => check(n < P::LOG_WIDTH, 13),
		}
	}
	let ix = any_usize();
	assume(ix >= 1 << n);
	check(SelectRow::new(n, ix).is_err(), 14);
}
fn steps<F: BinaryField + TowerField, P: PackedField>(n: usize, sym: bool) {
	let q = pt::<F>(n, sym);
	for ix in 0..=1usize << n {
		let u = StepUp::new(n, ix).unwrap();
		common::<F, _>(&u, n, &q, &|i| bit(i >= ix));
		check(u.n_vars() == n, 9);
		same(&u.multilinear_extension::<P>().unwrap(), n, &|i| bit(i >= ix), 11);
		let d = StepDown::new(n, ix).unwrap();
		common::<F, _>(&d, n, &q, &|i| bit(i < ix));
		check(d.n_vars() == n && d.index() == ix, 9);
		same(&d.multilinear_extension::<P>().unwrap(), n, &|i| bit(i < ix), 13);
		// populate overwrites whatever was there
		let len = 1usize << n.saturating_sub(P::LOG_WIDTH);
		let mut v: Vec<P> = (0..len).map(|_| any_pod()).collect();
		u.populate(&mut v);
		let mut w: Vec<P> = (0..len).map(|_| any_pod()).collect();
		d.populate(&mut w);
		for i in 0..1usize << n {
			check(get_packed_slice(&v, i) == bit(i >= ix), 15);
			check(get_packed_slice(&w, i) == bit(i < ix), 16);
		}
	}
	let ix = any_usize();
	assume(ix > 1 << n);
	check(StepUp::new(n, ix).is_err() && StepDown::new(n, ix).is_err(), 17);
}
fn consts<F: BinaryField + TowerField + ExtensionField<FS>, FS: TowerField>(n: usize) {
	let v: FS = any_f();
	let q = pt::<F>(n, true);
	let c = Constant::<F>::new(n, v);
	common::<F, _>(&c, n, &q, &|_| F::from(v));
	check(c.binary_tower_level() == FS::TOWER_LEVEL, 10);
}
fn powers<F: TowerField, P: PackedField<Scalar = F>>(n: usize, psym: bool, bsym: bool) {
	let b: F = if bsym { any_f() } else { F::MULTIPLICATIVE_GENERATOR };
	let p = Powers::new(n, b);
	let f = |i: usize| {
		let mut r = F::ONE;
		for _ in 0..i {
			r *= b;
		}
		r
	};
	let q = pt::<F>(n, psym);
	common::<F, _>(&p, n, &q, &f);
	same(&p.multilinear_extension::<P>().unwrap(), n, &f, 10);
	// packed evaluation, lane by lane
	let qp: Vec<P> = (0..n).map(|_| if psym { P::from_fn(|_| any_f()) } else { P::from_fn(|i| <F as ExtensionField<BinaryField1b>>::basis(i % F::N_BITS)) }).collect();
	let r = MultivariatePoly::<P>::evaluate(&p, &qp).unwrap();
	for i in 0..P::WIDTH {
		let qi: Vec<F> = qp.iter().map(|x| x.get(i)).collect();
		check(r.get(i) == mle_at(n, &qi, &f), 12);
	}
}
/// tables longer than one parallel chunk
fn powers_big<F: TowerField, P: PackedField<Scalar = F>>(n: usize) {
	let b: F = any_f();
	let m = Powers::new(n, b).multilinear_extension::<P>().unwrap();
	check(m.n_vars() == n && m.evals().len() << P::LOG_WIDTH == 1 << n, 1);
	let mut e = F::ONE;
	for i in 0..1usize << n {
		check(get_packed_slice(m.evals(), i) == e, 2);
		e *= b;
	}
}
fn eqind<F: TowerField, P: PackedField<Scalar = F>>(n: usize, sym: bool) {
	let r = pt::<F>(n, sym);
	let q: Vec<F> = (0..n).map(|_| if sym { any_f() } else { F::MULTIPLICATIVE_GENERATOR }).collect();
	let e = EqIndPartialEval::new(r.clone());
	let f = |i: usize| (0..n).map(|k| if i >> k & 1 == 1 { r[k] } else { F::ONE - r[k] }).product::<F>();
	common::<F, _>(&e, n, &q, &f);
	let m = e.multilinear_extension::<P, _>(&make_portable_backend()).unwrap();
	check(m.n_vars() == n && e.n_vars() == n, 10);
	for i in 0..1usize << n {
		check(get_packed_slice(m.evals(), i) == f(i), 11);
	}
	let qp: Vec<P> = (0..n).map(|_| P::from_fn(|i| if sym { any_f() } else { <F as ExtensionField<BinaryField1b>>::basis(i % F::N_BITS) })).collect();
	let v = MultivariatePoly::<P>::evaluate(&e, &qp).unwrap();
	for i in 0..P::WIDTH {
		let qi: Vec<F> = qp.iter().map(|x| x.get(i)).collect();
		check(v.get(i) == mle_at(n, &qi, &f), 12);
	}
}
fn shift<F: TowerField, P: PackedField<Scalar = F>>(b: usize, rsym: bool, qsym: bool) {
	let r = pt::<F>(b, rsym);
	let q: Vec<F> = (0..b).map(|i| if qsym { any_f() } else { <F as ExtensionField<BinaryField1b>>::basis(i % F::N_BITS) + F::MULTIPLICATIVE_GENERATOR }).collect();
	let n = 1usize << b;
	let eq = |i: usize| (0..b).map(|k| if i >> k & 1 == 1 { r[k] } else { F::ONE - r[k] }).product::<F>();
	for o in 1..n {
		for v in 0..3 {
			let var = [ShiftVariant::CircularLeft, ShiftVariant::LogicalLeft, ShiftVariant::LogicalRight][v];
			// f(x, r) = sum over y of eq(y, r) [shift from y to x]
			let f = |x: usize| match v {
				0 => eq((x + o) % n),
				1 => if x + o < n { eq(x + o) } else { F::ZERO },
				_ => if x >= o { eq(x - o) } else { F::ZERO },
			};
			let s = ShiftIndPartialEval::new(b, o, var, r.clone()).unwrap();
			check(s.n_vars() == b, 1);
			check(s.evaluate(&q).unwrap() == mle_at(b, &q, &f), 2);
			check(s.evaluate(&q[..b - 1]).is_err(), 3);
			same(&s.multilinear_extension::<P>().unwrap(), b, &f, 4);
		}
	}
	let o = any_usize();
	assume(o == 0 || o >= n);
	check(ShiftIndPartialEval::new(b, o, ShiftVariant::LogicalLeft, r.clone()).is_err(), 6);
	check(ShiftIndPartialEval::new(b + 1, 1, ShiftVariant::LogicalLeft, r.clone()).is_err(), 7);
}
fn tower<F: TowerField, P: PackedField<Scalar = F>>(sym: bool) {
	let l = F::TOWER_LEVEL;
	for k in 0..=l.min(3) {
		for iota in 0..=l - k {
			let t = TowerBasis::<F>::new(k, iota).unwrap();
			let f = |i: usize| <F as TowerField>::basis(iota, i).unwrap();
			let q = pt::<F>(k, sym);
			common::<F, _>(&t, k, &q, &f);
			check(t.binary_tower_level() == iota + k, 10);
			if k >= P::LOG_WIDTH {
				same(&t.multilinear_extension::<P>().unwrap(), k, &f, 11);
			}
		}
	}
	for k in 0..=l + 1 {
		check(TowerBasis::<F>::new(k, l + 1 - k).is_err(), 13);
	}
}
fn disjoint<F: TowerField>(sym: bool) {
	let b: F = any_f();
	let (p0, p1) = (Powers::new(2, b), StepUp::new(1, 1).unwrap());
	let d = DisjointProduct(p0, p1);
	let f = |i: usize| if i >> 2 == 0 { F::ZERO } else { [F::ONE, b, b * b, b * b * b][i & 3] };
	common::<F, _>(&d, 3, &pt(3, sym), &f);
	check(MultivariatePoly::<F>::degree(&d) == 3, 10);
	let d = DisjointProduct(SelectRow::new(1, 0).unwrap(), Constant::<F>::new::<F>(1, b));
	common::<F, _>(&d, 2, &pt(2, sym), &|i| if i & 1 == 0 { b } else { F::ZERO });
	check(d.binary_tower_level() == F::TOWER_LEVEL, 11);
}
fn mlet<P: PackedField, PE: PackedField<Scalar: TowerField> + RepackedExtension<P>>(n: usize, sym: bool)
where
	PE::Scalar: ExtensionField<P::Scalar>,
	P::Scalar: TowerField,
{
	let len = 1usize << n.saturating_sub(P::LOG_WIDTH);
	let v: Vec<P> = (0..len).map(|_| any_pod()).collect();
	let q = pt::<PE::Scalar>(n, sym);
	let f = |i: usize| PE::Scalar::from(get_packed_slice(&v, i));
	let m = MultilinearExtensionTransparent::<P, PE, _>::from_values_and_mu(v.clone(), n).unwrap();
	common::<PE::Scalar, _>(&m, n, &q, &f);
	check(m.binary_tower_level() == P::Scalar::TOWER_LEVEL, 10);
	if n >= P::LOG_WIDTH {
		let m = MultilinearExtensionTransparent::<P, PE, _>::from_values(v.clone()).unwrap();
		common::<PE::Scalar, _>(&m, n, &q, &f);
	}
}

harness! {
	h_c17_select_4 => { select::<BinaryField4b, PackedBinaryField8x1b>(3, true); select::<BinaryField4b, PackedBinaryField4x1b>(2, true); };
	h_c17_select_128 => { select::<BinaryField128b, PackedBinaryField8x1b>(4, false); select::<BinaryField32b, PackedBinaryField8x1b>(2, true); };
	h_c17_steps_4 => steps::<BinaryField4b, PackedBinaryField8x1b>(3, true);
	h_c17_steps_4b => steps::<BinaryField4b, PackedBinaryField4x8b>(4, true);
	h_c17_steps_8 => steps::<BinaryField8b, PackedBinaryField16x8b>(3, true);
	h_c17_steps_128 => steps::<BinaryField128b, PackedBinaryField2x128b>(4, false);
	h_c17_steps_wide => steps::<BinaryField8b, PackedBinaryField64x1b>(7, false);
	h_c17_const => { consts::<BinaryField128b, BinaryField8b>(2); consts::<BinaryField32b, BinaryField1b>(0); consts::<BinaryField128b, BinaryField128b>(1); };
	h_c17_powers_4 => powers::<BinaryField4b, PackedBinaryField4x4b>(3, true, true);
	h_c17_powers_8 => powers::<BinaryField8b, PackedBinaryField4x8b>(3, false, true);
	h_c17_powers_8b => powers::<BinaryField8b, PackedBinaryField16x8b>(2, true, false);
	h_c17_powers_128 => powers::<BinaryField128b, PackedBinaryField2x128b>(3, false, false);
	h_c17_powers_big_1 => powers_big::<BinaryField4b, BinaryField4b>(11);
	h_c17_powers_big_4 => powers_big::<BinaryField4b, PackedBinaryField4x4b>(13);
	h_c17_powers_big_8 => powers_big::<BinaryField4b, PackedBinaryField8x4b>(14);
	h_c17_eq_4 => eqind::<BinaryField4b, PackedBinaryField4x4b>(3, true);
	h_c17_eq_8 => eqind::<BinaryField8b, PackedBinaryField4x8b>(2, true);
	h_c17_eq_8b => eqind::<BinaryField8b, PackedBinaryField16x8b>(1, true);
	h_c17_eq_128 => eqind::<BinaryField128b, PackedBinaryField2x128b>(4, false);
	h_c17_shift_4 => shift::<BinaryField4b, PackedBinaryField4x4b>(3, true, true);
	h_c17_shift_4s => shift::<BinaryField4b, BinaryField4b>(2, true, true);
	h_c17_shift_8 => shift::<BinaryField8b, PackedBinaryField4x8b>(1, true, true);
	h_c17_shift_8q => shift::<BinaryField8b, PackedBinaryField4x8b>(3, false, true);
	h_c17_shift_8r => shift::<BinaryField8b, PackedBinaryField16x8b>(3, true, false);
	h_c17_shift_128 => shift::<BinaryField128b, PackedBinaryField2x128b>(4, false, false);
	h_c17_shift_32 => shift::<BinaryField32b, PackedBinaryField4x32b>(5, false, false);
	h_c17_tower_8 => tower::<BinaryField8b, PackedBinaryField4x8b>(true);
	h_c17_tower_128 => tower::<BinaryField128b, PackedBinaryField2x128b>(false);
	h_c17_disjoint_4 => disjoint::<BinaryField4b>(true);
	h_c17_disjoint_8 => disjoint::<BinaryField8b>(false);
	h_c17_mle_1_128 => mlet::<PackedBinaryField128x1b, PackedBinaryField1x128b>(1, false);
	h_c17_mle_8_32 => mlet::<PackedBinaryField16x8b, PackedBinaryField4x32b>(4, false);
	h_c17_mle_8_8 => mlet::<PackedBinaryField4x8b, PackedBinaryField4x8b>(3, true);
	h_c17_mle_1_4 => mlet::<PackedBinaryField16x1b, PackedBinaryField4x4b>(4, true);
}
