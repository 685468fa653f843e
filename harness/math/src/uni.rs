//! C08: univariate interpolation and extrapolation, evaluation domains, matrices, subspaces.
use crate::mle::*;
use binius_field::packed::*;
use binius_field::*;
use binius_math::{Error, *};
use fref::any_f;
use symapi::*;

fn pw<F: Field>(x: F, k: usize) -> F {
	let mut r = F::ONE;
	for _ in 0..k {
		r *= x;
	}
	r
}
fn ev<F: Field>(c: &[F], x: F) -> F {
	c.iter().enumerate().map(|(i, &c)| c * pw(x, i)).sum()
}
/// values on the domain of the polynomial with coefficients c
fn values<FD: Field, F: ExtensionField<FD>>(c: &[F], pts: &[FD], inf: bool) -> Vec<F> {
	let mut v: Vec<F> = pts.iter().map(|&p| ev(c, F::from(p))).collect();
	if inf {
		v.push(c[c.len() - 1]);
	}
	v
}
fn iter_points<F: BinaryField>(n: usize, mut seed: u64) -> Vec<F> {
	// distinct pseudo-random elements, nonzero differences by construction
	let mut out: Vec<F> = Vec::new();
	while out.len() < n {
		seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
		let mut f = F::ZERO;
		for i in 0..F::N_BITS {
			if seed >> (13 + i % 40) & 1 == 1 {
				f += F::basis(i);
			}
		}
		if !out.contains(&f) {
			out.push(f);
		}
	}
	out
}

/// domain over FD with fixed distinct points, symbolic values in F
fn dom<FD: BinaryField, F: ExtensionField<FD> + BinaryField>(d: EvaluationDomain<FD>, xsym: bool) {
	let n = d.size();
	let pts = d.finite_points().to_vec();
	let inf = d.with_infinity();
	check(n == pts.len() + inf as usize, 1);
	let c: Vec<F> = (0..n).map(|_| any_f()).collect();
	let v = values::<FD, F>(&c, &pts, inf);
	let x: F = if xsym { any_f() } else { iter_points::<F>(3, 77)[2] };
	check(d.extrapolate(&v, x).unwrap() == ev(&c, x), 2);
	// at every point of the domain
	for (i, &p) in pts.iter().enumerate() {
		check(d.extrapolate(&v, F::from(p)).unwrap() == v[i], 3);
		let l = d.lagrange_evals(F::from(p));
		for (j, l) in l.iter().enumerate() {
			check(*l == if i == j { F::ONE } else { F::ZERO }, 4);
		}
	}
	if !inf {
		let l = d.lagrange_evals(x);
		check(l.len() == n, 5);
		let s: F = l.iter().zip(&v).map(|(&l, &v)| l * v).sum();
		check(s == ev(&c, x), 6);
	}
	let id = InterpolationDomain::from(d.clone());
	check(id.size() == n && id.with_infinity() == inf && id.finite_points() == &pts[..], 7);
	let co = id.interpolate(&v).unwrap();
	check(co.len() == n, 8);
	for (a, b) in co.iter().zip(&c) {
		check(a == b, 9);
	}
	check(d.extrapolate(&v[..n - 1], x).is_err(), 10);
	let mut w = v.clone();
	w.push(F::ONE);
	check(d.extrapolate(&w, x).is_err() && id.interpolate(&w).is_err() && id.interpolate(&v[..n - 1]).is_err(), 11);
}
/// packed extrapolation is lane-wise
fn pdom<FD: BinaryField, P: PackedExtension<FD, Scalar: BinaryField>>(n: usize, xsym: bool) {
	let d = DefaultEvaluationDomainFactory::<FD>::default().create(n).unwrap();
	let v: Vec<P> = (0..n).map(|_| any_p()).collect();
	let x: P::Scalar = if xsym { any_f() } else { iter_points(3, 5)[2] };
	let r = d.extrapolate(&v, x).unwrap();
	let r2 = InterpolationDomain::from(d.clone()).extrapolate(&v, x).unwrap();
	for i in 0..P::WIDTH {
		let vi: Vec<P::Scalar> = v.iter().map(|p| p.get(i)).collect();
		let e = d.extrapolate(&vi, x).unwrap();
		check(r.get(i) == e, 1);
		check(r2.get(i) == e, 2);
	}
}
/// symbolic points: accepted exactly when distinct; extrapolation exact
fn sympts<F: BinaryField>(n: usize, inf: bool) {
	let pts: Vec<F> = (0..n)
		.map(|_| {
			let f: F = any_f();
			// fields beyond 4 elements: one path per point
			if F::N_BITS > 2 {
				let b: u8 = unsafe { std::mem::transmute_copy(&f) };
				let b = concretize(b as u64) as u8;
				return unsafe { std::mem::transmute_copy(&b) };
			}
			f
		})
		.collect();
	let mut dup = false;
	for i in 0..n {
		for j in 0..i {
			dup |= pts[i] == pts[j];
		}
	}
	match EvaluationDomain::from_points(pts.clone(), inf) {
		Ok(d) => {
			check(!dup, 1);
			let c: Vec<F> = (0..n + inf as usize).map(|_| any_f()).collect();
			let v = values::<F, F>(&c, &pts, inf);
			let x: F = any_f();
			check(d.extrapolate(&v, x).unwrap() == ev(&c, x), 2);
			let id = InterpolationDomain::from(d);
			let co = id.interpolate(&v).unwrap();
			for (a, b) in co.iter().zip(&c) {
				check(a == b, 3);
			}
			cover(1);
		}
		Err(Error::DuplicateDomainPoint) => {
			check(dup, 4);
			cover(2);
		}
		Err(_) => check(false, 5),
	}
	expect(1);
	if n > 1 {
		expect(2);
	}
}
fn factory<F: BinaryField, FI: BinaryField + From<F>>(sizes: &[usize]) {
	let df = DefaultEvaluationDomainFactory::<F>::default();
	let fi = IsomorphicEvaluationDomainFactory::<F>::default();
	let max = if F::N_BITS < 20 { 1usize << F::N_BITS } else { usize::MAX };
	for &s in sizes {
		let inf = s >= 3;
		let m = s - inf as usize;
		let r = df.create(s);
		let r2: Result<EvaluationDomain<FI>, _> = fi.create(s);
		if m > max {
			check(r.is_err() && r2.is_err(), 1);
			continue;
		}
		let (r, r2) = (r.unwrap(), r2.unwrap());
		check(r.size() == s && r2.size() == s && r.with_infinity() == inf && r2.with_infinity() == inf, 2);
		for i in 0..m {
			let mut e = F::ZERO;
			for k in 0..16.min(F::N_BITS) {
				if i >> k & 1 == 1 {
					e += F::basis(k);
				}
			}
			check(r.finite_points()[i] == e, 3);
			check(r2.finite_points()[i] == FI::from(e), 4);
		}
	}
}
fn lines<P: PackedExtension<FS, Scalar: BinaryField>, FS: BinaryField>() {
	let (a, b, z): (P, P, P) = (any_p(), any_p(), any_p());
	let s: FS = any_f();
	let l = extrapolate_line(a, b, s);
	let ls = extrapolate_lines(a, b, z);
	for i in 0..P::WIDTH {
		let (x, y) = (a.get(i), b.get(i));
		let e = x * (P::Scalar::ONE - P::Scalar::from(s)) + y * P::Scalar::from(s);
		check(l.get(i) == e, 1);
		check(extrapolate_line_scalar::<P::Scalar, FS>(x, y, s) == e, 2);
		check(ls.get(i) == x * (P::Scalar::ONE - z.get(i)) + y * z.get(i), 3);
	}
}
fn horner<F: BinaryField>(n: usize) {
	let c: Vec<F> = (0..n).map(|_| any_f()).collect();
	let x: F = any_f();
	check(evaluate_univariate(&c, x) == ev(&c, x), 1);
}

fn mat<F: BinaryField>(m: usize, n: usize) -> Matrix<F> {
	let e: Vec<F> = (0..m * n).map(|_| any_f()).collect();
	Matrix::new(m, n, &e).unwrap()
}
fn det<F: Field>(a: &dyn Fn(usize, usize) -> F, rows: &[usize], cols: &[usize]) -> F {
	if rows.is_empty() {
		return F::ONE;
	}
	cols.iter()
		.map(|&c| {
			let rest: Vec<usize> = cols.iter().copied().filter(|&x| x != c).collect();
			a(rows[0], c) * det(a, &rows[1..], &rest)
		})
		.sum()
}
fn inverse<F: BinaryField>(n: usize, fixed: &[(usize, usize)]) {
	merge(n < 3);
	let mut a = mat::<F>(n, n);
	let mut g = F::MULTIPLICATIVE_GENERATOR;
	for &(i, j) in fixed {
		g = g * g * F::MULTIPLICATIVE_GENERATOR + F::ONE;
		a[(i, j)] = if (i + j) % 3 == 2 { F::ZERO } else { g };
	}
	let mut out = mat::<F>(n, n);
	let ix: Vec<usize> = (0..n).collect();
	let d = det(&|i, j| a[(i, j)], &ix, &ix);
	let a0 = a.clone();
	match a.inverse_into(&mut out) {
		Ok(()) => {
			check(d != F::ZERO, 1);
			for i in 0..n {
				for j in 0..n {
					let s: F = (0..n).map(|k| out[(i, k)] * a[(k, j)]).sum();
					check(s == if i == j { F::ONE } else { F::ZERO }, 2);
				}
			}
			cover(1);
		}
		Err(Error::MatrixIsSingular) => {
			check(d == F::ZERO, 3);
			cover(2);
		}
		Err(_) => check(false, 4),
	}
	check(a == a0, 5);
	expect(1);
	expect(2);
}
fn matops<F: BinaryField, FE: ExtensionField<F> + BinaryField>(m: usize, k: usize, n: usize) {
	let (a, b) = (mat::<F>(m, k), mat::<F>(k, n));
	let mut c = mat::<F>(m, n);
	Matrix::mul_into(&a, &b, &mut c);
	for i in 0..m {
		for j in 0..n {
			check(c[(i, j)] == (0..k).map(|l| a[(i, l)] * b[(l, j)]).sum::<F>(), 1);
		}
	}
	let x: Vec<FE> = (0..k).map(|_| any_f()).collect();
	let mut y: Vec<FE> = (0..m).map(|_| any_f()).collect();
	a.mul_vec_into(&x, &mut y);
	for i in 0..m {
		check(y[i] == (0..k).map(|l| x[l] * FE::from(a[(i, l)])).sum::<FE>(), 2);
	}
	let a2 = mat::<F>(m, k);
	let (s, t) = (&a + &a2, &a - &a2);
	let mut u = a.clone();
	u += &a2;
	let mut w = a.clone();
	w -= &a2;
	let mut cp = Matrix::zeros(m, k);
	check(cp.elements().iter().all(|&x| x == F::ZERO) && cp.dim() == (m, k), 3);
	cp.copy_from(&a);
	check(cp == a && cp.elements() == a.elements(), 4);
	for i in 0..m {
		for j in 0..k {
			let e = a[(i, j)] + a2[(i, j)];
			check(s[(i, j)] == e && t[(i, j)] == e && u[(i, j)] == e && w[(i, j)] == e, 5);
			check(a.elements()[i * k + j] == a[(i, j)], 6);
		}
	}
	check(a.m() == m && a.n() == k, 7);
	let id = Matrix::<F>::identity(k);
	for i in 0..k {
		for j in 0..k {
			check(id[(i, j)] == if i == j { F::ONE } else { F::ZERO }, 8);
		}
	}
	check(Matrix::new(m, k + 1, a.elements()).is_err(), 9);
	if m != k {
		let mut o = Matrix::zeros(m, k);
		check(matches!(a.inverse_into(&mut o), Err(Error::MatrixNotSquare)), 10);
	}
}

fn subspace<F: BinaryField>(dim: usize) {
	let basis: Vec<F> = (0..dim).map(|_| any_f()).collect();
	let s = BinarySubspace::new_unchecked(basis.clone());
	check(s.dim() == dim && s.basis() == &basis[..], 1);
	for i in 0..1usize << dim {
		let e: F = (0..dim).filter(|k| i >> k & 1 == 1).map(|k| basis[k]).sum();
		check(s.get(i) == e, 2);
		check(s.get_checked(i).unwrap() == e, 3);
		check(s.iter().nth(i).unwrap() == e, 4);
	}
	check(s.iter().count() == 1 << dim, 5);
	let j = any_usize();
	assume(j >= 1 << dim);
	check(s.get_checked(j).is_err(), 6);
	for d in 0..=dim {
		let r = s.reduce_dim(d).unwrap();
		check(r.basis() == &basis[..d], 7);
	}
	check(s.reduce_dim(dim + 1).is_err(), 8);
}
fn subspace_default<F: BinaryField>() {
	let s = BinarySubspace::<F>::default();
	check(s.dim() == F::N_BITS, 1);
	let i = any_usize();
	let k = F::N_BITS.min(64);
	if k < 64 {
		assume(i < 1 << k);
	}
	let g = s.get(i);
	let mut e = F::ZERO;
	for b in 0..k {
		check(s.basis()[b] == F::basis(b), 2);
		if i >> b & 1 == 1 {
			e += F::basis(b);
		}
	}
	check(g == e, 3);
	check(matches!(s.get_checked(i), Ok(v) if v == e), 4);
	for d in 0..=F::N_BITS {
		let w = BinarySubspace::<F>::with_dim(d).unwrap();
		check(w.basis() == &s.basis()[..d], 5);
		if d <= 4 {
			check(w.iter().count() == 1 << d, 6);
		}
	}
	check(BinarySubspace::<F>::with_dim(F::N_BITS + 1).is_err(), 7);
	check(s.iter().nth(5.min((1 << k.min(10)) - 1)).unwrap() == s.get(5.min((1 << k.min(10)) - 1)), 8);
}
fn iso<F: BinaryField, FI: BinaryField + From<F>>(dim: usize) {
	let basis: Vec<F> = (0..dim).map(|_| any_f()).collect();
	let s = BinarySubspace::new_unchecked(basis);
	let t = s.isomorphic::<FI>();
	check(t.dim() == dim, 1);
	for i in 0..1 << dim {
		check(t.get(i) == FI::from(s.get(i)), 2);
	}
}
fn deflt<F: BinaryField>(n: usize) -> EvaluationDomain<F> {
	DefaultEvaluationDomainFactory::default().create(n).unwrap()
}

harness! {
	h_c08_dom_2 => dom::<BinaryField2b, BinaryField2b>(deflt(4), true);
	h_c08_dom_4 => dom::<BinaryField4b, BinaryField4b>(deflt(3), true);
	h_c08_dom_4b => dom::<BinaryField4b, BinaryField4b>(deflt(5), true);
	h_c08_dom_8_1 => dom::<BinaryField8b, BinaryField8b>(deflt(1), true);
	h_c08_dom_8_2 => dom::<BinaryField8b, BinaryField8b>(deflt(2), true);
	h_c08_dom_8_3 => dom::<BinaryField8b, BinaryField8b>(deflt(3), true);
	h_c08_dom_8_4 => dom::<BinaryField8b, BinaryField8b>(deflt(4), true);
	h_c08_dom_8_32 => dom::<BinaryField8b, BinaryField32b>(deflt(6), false);
	h_c08_dom_8_128 => dom::<BinaryField8b, BinaryField128b>(deflt(9), false);
	h_c08_dom_16_16 => dom::<BinaryField16b, BinaryField16b>(EvaluationDomain::from_points(iter_points(6, 3), false).unwrap(), false);
	h_c08_dom_32_inf => dom::<BinaryField32b, BinaryField32b>(EvaluationDomain::from_points(iter_points(5, 4), true).unwrap(), false);
	h_c08_dom_1_128 => dom::<BinaryField1b, BinaryField128b>(deflt(3), false);
	h_c08_dom_aes => dom::<AESTowerField8b, AESTowerField32b>(IsomorphicEvaluationDomainFactory::<BinaryField8b>::default().create(5).unwrap(), false);
	h_c08_dom_16_fin => dom::<BinaryField8b, BinaryField8b>(EvaluationDomain::from_points(iter_points(12, 8), false).unwrap(), false);
	h_c08_pdom_8x4 => pdom::<BinaryField4b, PackedBinaryField8x4b>(3, true);
	h_c08_pdom_4x32 => pdom::<BinaryField8b, PackedBinaryField4x32b>(4, false);
	h_c08_pdom_2x128 => pdom::<BinaryField8b, PackedBinaryField2x128b>(5, false);
	h_c08_pdom_16x8 => pdom::<BinaryField8b, PackedBinaryField16x8b>(2, true);
	h_c08_sympts_2_2 => sympts::<BinaryField2b>(2, false);
	h_c08_sympts_2_3 => sympts::<BinaryField2b>(3, false);
	h_c08_sympts_2_2i => sympts::<BinaryField2b>(2, true);
	h_c08_sympts_2_3i => sympts::<BinaryField2b>(3, true);
	h_c08_sympts_4_1i => sympts::<BinaryField4b>(1, true);
	h_c08_sympts_4_2 => sympts::<BinaryField4b>(2, false);
	h_c08_sympts_4_2i => sympts::<BinaryField4b>(2, true);
	h_c08_factory_8 => factory::<BinaryField8b, AESTowerField8b>(&[0, 1, 2, 3, 4, 5, 9, 17, 256, 257, 258, 300]);
	h_c08_factory_32 => factory::<BinaryField32b, AESTowerField32b>(&[0, 1, 2, 3, 4, 5, 9, 17]);
	h_c08_factory_1 => factory::<BinaryField1b, BinaryField8b>(&[0, 1, 2, 3, 4, 5]);
	h_c08_lines_8 => lines::<PackedBinaryField4x8b, BinaryField8b>();
	h_c08_lines_64_8 => lines::<PackedBinaryField2x64b, BinaryField8b>();
	h_c08_lines_32_1 => lines::<PackedBinaryField8x32b, BinaryField1b>();
	h_c08_lines_16_4 => lines::<PackedBinaryField4x16b, BinaryField4b>();
	h_c08_horner_8 => horner::<BinaryField8b>(3);
	h_c08_horner_4 => horner::<BinaryField4b>(6);
	h_c08_horner_128 => horner::<BinaryField128b>(2);
	h_c08_horner_0 => { horner::<BinaryField8b>(0); horner::<BinaryField16b>(1); };
	h_c08_inv_2_2 => inverse::<BinaryField2b>(2, &[]);
	h_c08_inv_1_3 => inverse::<BinaryField1b>(3, &[]);
	h_c08_inv_1_4_thorough => inverse::<BinaryField1b>(4, &[]);
	h_c08_inv_4_2 => inverse::<BinaryField4b>(2, &[]);
	h_c08_inv_2_3 => inverse::<BinaryField2b>(3, &[(0, 1), (2, 1), (1, 2), (2, 2)]);
	h_c08_inv_4_3 => inverse::<BinaryField4b>(3, &[(0, 1), (2, 1), (1, 2), (2, 2), (0, 2), (1, 1)]);
	h_c08_inv_8_3_thorough => inverse::<BinaryField8b>(3, &[(0, 1), (2, 1), (1, 2), (2, 2), (0, 2), (1, 1), (0, 0)]);
	h_c08_inv_2_4 => inverse::<BinaryField2b>(4, &[(0, 1), (2, 1), (1, 2), (2, 2), (3, 0), (0, 3), (1, 3), (2, 3), (3, 3), (3, 1), (0, 0)]);
	h_c08_inv_8_1 => inverse::<BinaryField8b>(1, &[]);
	h_c08_mat_8 => matops::<BinaryField8b, BinaryField32b>(2, 3, 2);
	h_c08_mat_4 => matops::<BinaryField4b, BinaryField16b>(3, 2, 4);
	h_c08_mat_16 => matops::<BinaryField16b, BinaryField16b>(2, 2, 1);
	h_c08_sub_8 => subspace::<BinaryField8b>(4);
	h_c08_sub_128 => subspace::<BinaryField128b>(3);
	h_c08_sub_0 => subspace::<BinaryField32b>(0);
	h_c08_subd_1 => subspace_default::<BinaryField1b>();
	h_c08_subd_8 => subspace_default::<BinaryField8b>();
	h_c08_subd_16 => subspace_default::<AESTowerField16b>();
	h_c08_subd_64 => subspace_default::<BinaryField64b>();
	h_c08_subd_128 => subspace_default::<BinaryField128b>();
	h_c08_iso_8 => iso::<BinaryField8b, AESTowerField8b>(3);
	h_c08_iso_128 => iso::<BinaryField128b, BinaryField128bPolyval>(2);
}
