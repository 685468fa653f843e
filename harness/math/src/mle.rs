//! C07: multilinear polynomials: evaluation, partial evaluation, folds, tensor expansion, padding, views.
use binius_field::packed::*;
use binius_field::*;
use binius_math::*;
use std::mem::MaybeUninit;
use fref::any_f;
use symapi::*;

/// fold the lowest variable
pub fn lo<F: Field>(v: &[F], r: F) -> Vec<F> {
	v.chunks(2).map(|p| p[0] + r * (p[1] - p[0])).collect()
}
pub fn eval<F: Field>(v: &[F], q: &[F]) -> F {
	let mut v = v.to_vec();
	for &r in q {
		v = lo(&v, r);
	}
	v[0]
}
/// entry i of the equality-indicator tensor of the point
pub fn eqs<F: Field>(q: &[F], i: usize) -> F {
	let mut p = F::ONE;
	for (k, &r) in q.iter().enumerate() {
		p *= if i >> k & 1 == 1 { r } else { F::ONE - r };
	}
	p
}
/// partially evaluate variables s..s+k at q
pub fn partial<F: Field>(v: &[F], n: usize, q: &[F], s: usize) -> Vec<F> {
	let k = q.len();
	(0..1usize << (n - k))
		.map(|i| {
			let (l, h) = (i & ((1 << s) - 1), i >> s);
			let sub: Vec<F> = (0..1usize << k).map(|m| v[l | m << s | h << (s + k)]).collect();
			eval(&sub, q)
		})
		.collect()
}
pub fn packed<P: PackedField>(n: usize) -> Vec<P> {
	(0..1usize << n.saturating_sub(P::LOG_WIDTH)).map(|_| any_p()).collect()
}
/// any packed value
pub fn any_p<P: PackedField>() -> P {
	// scalars of under 8 bits live in the low bits of a byte
	let t = std::any::TypeId::of::<P>();
	let m = if t == std::any::TypeId::of::<BinaryField1b>() {
		1
	} else if t == std::any::TypeId::of::<BinaryField2b>() {
		3
	} else if t == std::any::TypeId::of::<BinaryField4b>() {
		15
	} else {
		return any_pod();
	};
	let b = any_u8() & m;
	unsafe { std::mem::transmute_copy(&b) }
}
pub fn scalars<P: PackedField, F: ExtensionField<P::Scalar>>(v: &[P], n: usize) -> Vec<F> {
	(0..1usize << n).map(|i| F::from(get_packed_slice(v, i))).collect()
}
pub fn point<F: BinaryField>(k: usize, sym: bool) -> Vec<F> {
	let mut g = F::MULTIPLICATIVE_GENERATOR;
	(0..k)
		.map(|_| {
			g = g * g * F::MULTIPLICATIVE_GENERATOR + F::ONE;
			if sym { any_f() } else { g }
		})
		.collect()
}
pub fn same_mle<P: PackedField>(m: &MultilinearExtension<P>, want: &[P::Scalar], n: usize, id: u64) {
	check(m.n_vars() == n, id);
	check(m.evals().len() == 1 << n.saturating_sub(P::LOG_WIDTH), id);
	for i in 0..1usize << n {
		check(get_packed_slice(m.evals(), i) == want[i], id + 1);
	}
}

fn query<P>(n: usize)
where
	P: PackedField<Scalar: BinaryField>,
{
	let q = point::<P::Scalar>(n, true);
	let e = eq_ind_partial_eval::<P>(&q);
	let mq = MultilinearQuery::<P>::expand(&q);
	check(e.len() == 1 << n.saturating_sub(P::LOG_WIDTH), 1);
	check(mq.n_vars() == n && mq.expansion().len() == e.len(), 2);
	// incremental update in two steps, any split
	for s in 0..=n {
		let m2 = MultilinearQuery::<P>::with_capacity(n).update(&q[..s]).unwrap().update(&q[s..]).unwrap();
		check(m2.n_vars() == n, 3);
		for i in 0..1usize << n {
			check(get_packed_slice(m2.expansion(), i) == eqs(&q, i), 4);
		}
	}
	for i in 0..1usize << n {
		check(get_packed_slice(&e, i) == eqs(&q, i), 5);
		check(get_packed_slice(mq.expansion(), i) == eqs(&q, i), 6);
	}
	if n >= P::LOG_WIDTH {
		check(MultilinearQuery::<P>::with_capacity(n).update(&q).unwrap().update(&[P::Scalar::ONE]).is_err(), 7);
	}
	// tensor_prod_eq_ind on arbitrary values
	for k in 0..=n.min(2) {
		let l = n - k;
		let mut v: Vec<P> = packed(n);
		let before: Vec<P::Scalar> = scalars(&v, n);
		tensor_prod_eq_ind(l, &mut v, &q[..k]).unwrap();
		for i in 0..1usize << n {
			check(get_packed_slice(&v, i) == before[i & ((1 << l) - 1)] * eqs(&q[..k], i >> l), 8);
		}
		v.push(P::zero());
		check(tensor_prod_eq_ind(l, &mut v, &q[..k]).is_err(), 9);
	}
}

fn mle<P, PE>(n: usize, sym: bool)
where
	P: PackedField,
	PE: PackedField<Scalar: ExtensionField<P::Scalar> + BinaryField>,
{
	let data: Vec<P> = packed(n);
	let v: Vec<PE::Scalar> = scalars(&data, n);
	let m = MultilinearExtension::new(n, data.clone()).unwrap();
	check(m.n_vars() == n && m.size() == 1 << n, 1);
	let q = point::<PE::Scalar>(n, sym);
	for i in 0..1usize << n {
		check(PE::Scalar::from(m.evaluate_on_hypercube(i).unwrap()) == v[i], 2);
	}
	check(m.evaluate_on_hypercube(1 << n).is_err(), 3);
	let full = MultilinearQuery::<PE>::expand(&q);
	check(m.evaluate(&full).unwrap() == eval(&v, &q), 4);
	let longer = MultilinearQuery::<PE>::expand(&point(n + 1, false));
	check(m.evaluate(&longer).is_err(), 5);
	check(m.evaluate_partial_low(&longer).is_err(), 6);
	check(m.evaluate_partial_high(&longer).is_err(), 7);
	check(m.evaluate_partial(&longer, 0).is_err(), 8);
	for k in 0..=n {
		let mq = MultilinearQuery::<PE>::expand(&q[..k]);
		same_mle(&m.evaluate_partial_low(&mq).unwrap(), &partial(&v, n, &q[..k], 0), n - k, 10);
		same_mle(&m.evaluate_partial_high(&mq).unwrap(), &partial(&v, n, &q[..k], n - k), n - k, 20);
		for s in 0..=n - k {
			same_mle(&m.evaluate_partial(&mq, s).unwrap(), &partial(&v, n, &q[..k], s), n - k, 30);
		}
		check(m.evaluate_partial(&mq, n - k + 1).is_err(), 40);
		if k < n {
			check(m.evaluate(&mq).is_err(), 41);
		}
	}
}
fn pad<P, PE>(n: usize, k: usize)
where
	P: PackedField,
	PE: PackedField<Scalar: ExtensionField<P::Scalar> + BinaryField>,
{
	let data: Vec<P> = packed(n);
	let v: Vec<PE::Scalar> = scalars(&data, n);
	let m = MultilinearExtension::new(n, data).unwrap();
	for s in 0..=n {
		for nz in 0..1usize << k {
			let z = m.zero_pad::<PE>(k, s, nz).unwrap();
			// index = low s bits | padding k bits | high bits
			let want: Vec<PE::Scalar> = (0..1usize << (n + k))
				.map(|i| {
					let (l, p, h) = (i & ((1 << s) - 1), i >> s & ((1 << k) - 1), i >> (s + k));
					if p == nz { v[l | h << s] } else { PE::Scalar::ZERO }
				})
				.collect();
			same_mle(&z, &want, n + k, 1);
		}
		check(m.zero_pad::<PE>(k, s, 1 << k).is_err(), 3);
	}
	check(m.zero_pad::<PE>(k, n + 1, 0).is_err(), 4);
}
/// the MultilinearPoly view of a multilinear extension
fn poly<P, PE>(m: &dyn MultilinearPoly<PE>, v: &[PE::Scalar], n: usize, sym: bool)
where
	P: PackedField,
	PE: PackedField<Scalar: ExtensionField<P::Scalar> + BinaryField>,
{
	check(m.n_vars() == n && m.size() == 1 << n, 101);
	let q = point::<PE::Scalar>(n, sym);
	let sc = point::<PE::Scalar>(n + 1, sym)[n];
	for i in 0..1usize << n {
		check(m.evaluate_on_hypercube(i).unwrap() == v[i], 102);
		check(m.evaluate_on_hypercube_and_scale(i, sc).unwrap() == v[i] * sc, 103);
	}
	check(m.evaluate_on_hypercube(1 << n).is_err() && m.evaluate_on_hypercube_and_scale(1 << n, sc).is_err(), 104);
	let full = MultilinearQuery::<PE>::expand(&q);
	check(m.evaluate(full.to_ref()).unwrap() == eval(v, &q), 105);
	for k in 0..=n {
		let mq = MultilinearQuery::<PE>::expand(&q[..k]);
		let low = partial(v, n, &q[..k], 0);
		let high = partial(v, n, &q[..k], n - k);
		same_mle(&m.evaluate_partial_low(mq.to_ref()).unwrap(), &low, n - k, 110);
		same_mle(&m.evaluate_partial_high(mq.to_ref()).unwrap(), &high, n - k, 120);
		if k >= 1 && n - k >= 2 {
			same_mle(&m.evaluate_partial(mq.to_ref(), 1).unwrap(), &partial(v, n, &q[..k], 1), n - k, 130);
		}
		for sv in 0..=n - k {
			let len = 1usize << sv.saturating_sub(PE::LOG_WIDTH);
			for si in 0..1usize << (n - k - sv) {
				let mut out: Vec<PE> = packed(sv);
				m.subcube_partial_low_evals(mq.to_ref(), sv, si, &mut out).unwrap();
				for i in 0..1usize << sv {
					check(get_packed_slice(&out, i) == low[si << sv | i], 140);
				}
				let mut out: Vec<PE> = packed(sv);
				m.subcube_partial_high_evals(mq.to_ref(), sv, si, &mut out).unwrap();
				for i in 0..1usize << sv {
					check(get_packed_slice(&out, i) == high[si << sv | i], 141);
				}
			}
			let mut out: Vec<PE> = packed(sv);
			check(m.subcube_partial_low_evals(mq.to_ref(), sv, 1 << (n - k - sv), &mut out).is_err(), 142);
			check(m.subcube_partial_high_evals(mq.to_ref(), sv, 1 << (n - k - sv), &mut out).is_err(), 143);
			out.push(PE::zero());
			check(m.subcube_partial_low_evals(mq.to_ref(), sv, 0, &mut out).is_err(), 144);
			check(m.subcube_partial_high_evals(mq.to_ref(), sv, 0, &mut out).is_err(), 145);
		}
		let mut out: Vec<PE> = packed(n - k + 1);
		check(m.subcube_partial_low_evals(mq.to_ref(), n - k + 1, 0, &mut out).is_err(), 146);
		check(m.subcube_partial_high_evals(mq.to_ref(), n - k + 1, 0, &mut out).is_err(), 147);
	}
	for sv in 0..=n {
		for si in 0..1usize << (n - sv) {
			let mut out: Vec<PE> = packed(sv);
			m.subcube_evals(sv, si, 0, &mut out).unwrap();
			for i in 0..1usize << sv {
				check(get_packed_slice(&out, i) == v[si << sv | i], 150);
			}
		}
		let mut out: Vec<PE> = packed(sv);
		check(m.subcube_evals(sv, 1 << (n - sv), 0, &mut out).is_err(), 151);
		out.push(PE::zero());
		check(m.subcube_evals(sv, 0, 0, &mut out).is_err(), 152);
	}
	let mut out: Vec<PE> = packed(n + 1);
	check(m.subcube_evals(n + 1, 0, 0, &mut out).is_err(), 153);
}
fn direct<P>(n: usize, sym: bool)
where
	P: PackedField<Scalar: BinaryField>,
{
	let data: Vec<P> = packed(n);
	let v: Vec<P::Scalar> = scalars(&data, n);
	let m = MultilinearExtension::new(n, data.clone()).unwrap();
	let m: MLEDirectAdapter<P> = m.into();
	check(m.log_extension_degree() == 0, 90);
	let e = m.packed_evals().unwrap();
	check(e.len() == data.len(), 91);
	for i in 0..1usize << n {
		check(get_packed_slice(e, i) == v[i], 92);
	}
	let mut out: Vec<P> = packed(n);
	check(m.subcube_evals(n, 0, 1, &mut out).is_err(), 93);
	poly::<P, P>(&m, &v, n, sym);
}
fn embed<P, PE>(n: usize, sym: bool)
where
	P: PackedField<Scalar: BinaryField>,
	PE: RepackedExtension<P> + PackedField<Scalar: ExtensionField<P::Scalar> + BinaryField>,
{
	let data: Vec<P> = packed(n);
	let base: Vec<P::Scalar> = scalars(&data, n);
	let v: Vec<PE::Scalar> = scalars(&data, n);
	let m = MultilinearExtension::new(n, data.clone()).unwrap();
	let m = m.specialize::<PE>();
	let ld = <PE::Scalar as ExtensionField<P::Scalar>>::LOG_DEGREE;
	check(m.log_extension_degree() == ld, 90);
	// packed view: coordinates over the subfield in order
	let pe = m.packed_evals().unwrap();
	if n >= P::LOG_WIDTH {
		check(pe.len() << (PE::LOG_WIDTH + ld) == 1 << n, 91);
		for i in 0..1usize << n {
			let x = get_packed_slice(pe, i >> ld);
			check(<PE::Scalar as ExtensionField<P::Scalar>>::get_base(&x, i & ((1 << ld) - 1)) == base[i], 92);
		}
	}
	// embedded subcubes
	for d in 0..=ld {
		for sv in 0..=n {
			for si in 0..1usize << (n - sv) {
				let len = 1usize << sv.saturating_sub(d + PE::LOG_WIDTH);
				let mut out: Vec<PE> = (0..len).map(|_| any_pod()).collect();
				m.subcube_evals(sv, si, d, &mut out).unwrap();
				for i in 0..1usize << sv.saturating_sub(d) {
					// basis element j of the degree-2^d embedding sits at stride 2^(ld-d)
					let x = get_packed_slice(&out, i);
					for j in 0..1usize << ld {
						let c = <PE::Scalar as ExtensionField<P::Scalar>>::get_base(&x, j);
						let st = 1usize << (ld - d);
						let k = j / st;
						let want = if j % st == 0 && k < 1 << d.min(sv) { base[si << sv | i << d | k] } else { P::Scalar::ZERO };
						check(c == want, 93);
					}
				}
			}
		}
	}
	let mut out: Vec<PE> = packed(0);
	check(m.subcube_evals(0, 0, ld + 1, &mut out).is_err(), 94);
	poly::<P, PE>(&m, &v, n, sym);
}
/// raw folds with every query vector (not only tensors)
fn folds<P, PE>(n: usize, sym: bool, extra: usize)
where
	P: PackedField,
	PE: PackedField<Scalar: ExtensionField<P::Scalar> + BinaryField>,
{
	let mut data: Vec<P> = packed(n);
	for _ in 0..extra {
		data.push(any_pod());
	}
	let v: Vec<PE::Scalar> = scalars(&data, n);
	for k in 0..=n {
		let mut g = PE::Scalar::MULTIPLICATIVE_GENERATOR;
		let q: Vec<PE> = if sym {
			packed(k)
		} else {
			(0..1usize << k.saturating_sub(PE::LOG_WIDTH))
				.map(|_| PE::from_fn(|_| { g = g * g * PE::Scalar::MULTIPLICATIVE_GENERATOR + PE::Scalar::ONE; g }))
				.collect()
		};
		let qs: Vec<PE::Scalar> = scalars(&q, k);
		let out_len = 1usize << (n - k).saturating_sub(PE::LOG_WIDTH);
		let dot = |f: &dyn Fn(usize) -> usize| -> PE::Scalar { (0..1usize << k).map(|j| v[f(j)] * qs[j]).sum() };
		let mut out: Vec<PE> = packed(n - k);
		fold_right(&data, n, &q, k, &mut out).unwrap();
		for i in 0..1usize << (n - k) {
			check(get_packed_slice(&out, i) == dot(&|j| i << k | j), 1);
		}
		let mut out: Vec<MaybeUninit<PE>> = (0..out_len).map(|_| MaybeUninit::uninit()).collect();
		fold_left(&data, n, &q, k, &mut out).unwrap();
		let o: Vec<PE> = out.iter().map(|x| unsafe { x.assume_init() }).collect();
		for i in 0..1usize << (n - k) {
			check(get_packed_slice(&o, i) == dot(&|j| j << (n - k) | i), 2);
		}
		for s in 0..=n - k {
			let mut out: Vec<MaybeUninit<PE>> = (0..out_len).map(|_| MaybeUninit::uninit()).collect();
			fold_middle(&data, n, &q, k, s, &mut out).unwrap();
			let o: Vec<PE> = out.iter().map(|x| unsafe { x.assume_init() }).collect();
			for i in 0..1usize << (n - k) {
				check(get_packed_slice(&o, i) == dot(&|j| (i >> s) << (s + k) | j << s | (i & ((1 << s) - 1))), 3);
			}
		}
		// too short buffers are refused
		let mut none: Vec<PE> = vec![];
		let mut noneu: Vec<MaybeUninit<PE>> = vec![];
		check(fold_right(&data, n, &q, k, &mut none).is_err() && fold_left(&data, n, &q, k, &mut noneu).is_err(), 4);
		check(fold_right(&[] as &[P], n, &q, k, &mut packed(n - k)).is_err(), 5);
		check(fold_right::<P, PE>(&data, n, &[], k, &mut packed(n - k)).is_err(), 6);
		check(fold_middle(&data, n, &q, k, n - k + 1, &mut out).is_err(), 7);
	}
	check(fold_right(&data, n, &packed::<PE>(n + 1), n + 1, &mut packed(0)).is_err(), 8);
}
/// single-variable interpolating folds with a constant suffix
fn lerp<P>(n: usize)
where
	P: PackedField<Scalar: BinaryField>,
{
	let w = P::WIDTH;
	for pre in 1..=1usize << n {
		let suffix: P::Scalar = any_f();
		let r: P::Scalar = any_f();
		// evaluations beyond the prefix equal the suffix value
		let len = pre.div_ceil(w);
		let mut data: Vec<P> = (0..len).map(|_| any_pod()).collect();
		for i in pre..len * w {
			set_packed_slice(&mut data, i, suffix);
		}
		let at = |i: usize| if i < pre { get_packed_slice(&data, i) } else { suffix };
		let half = 1usize << (n - 1);
		let want: Vec<P::Scalar> = (0..half).map(|i| at(i) + r * (at(i + half) - at(i))).collect();
		let folded = pre.min(half);
		let mut out: Vec<MaybeUninit<P>> = (0..1usize << (n - 1).saturating_sub(P::LOG_WIDTH)).map(|_| MaybeUninit::uninit()).collect();
		fold_left_lerp(&data, pre, suffix, n, r, &mut out).unwrap();
		let o: Vec<P> = out[..folded.div_ceil(w)].iter().map(|x| unsafe { x.assume_init() }).collect();
		let mut inp = data.clone();
		fold_left_lerp_inplace(&mut inp, pre, suffix, n, r).unwrap();
		for i in 0..folded {
			check(get_packed_slice(&o, i) == want[i], 1);
			check(get_packed_slice(&inp, i) == want[i], 2);
		}
		// low fold
		let mut out: Vec<P> = (0..pre.div_ceil(2).div_ceil(w)).map(|_| any_pod()).collect();
		fold_right_lerp(&data, pre, r, suffix, &mut out).unwrap();
		for i in 0..pre.div_ceil(2) {
			check(get_packed_slice(&out, i) == at(2 * i) + r * (at(2 * i + 1) - at(2 * i)), 3);
		}
		check(fold_left_lerp_inplace(&mut data.clone(), (1 << n) + 1, suffix, n, r).is_err(), 4);
		check(fold_left_lerp_inplace(&mut data.clone(), 1, suffix, 0, r).is_err(), 5);
		check(fold_right_lerp::<P, P>(&data, len * w + 1, r, suffix, &mut vec![P::zero(); len + 1]).is_err(), 6);
	}
}
fn piecewise<F: BinaryField>(counts: &[usize], n: usize) {
	// pieces from most to least variables, concatenated, zero-padded to 2^n
	let q = point::<F>(n, true);
	let mut all: Vec<F> = vec![];
	let mut evals = vec![];
	for (k, &c) in counts.iter().enumerate().rev() {
		for _ in 0..c {
			let p: Vec<F> = (0..1usize << k).map(|_| any_f()).collect();
			evals.push(eval(&p, &q[..k]));
			all.extend(p);
		}
	}
	if all.len() > 1 << n {
		check(evaluate_piecewise_multilinear(&q, counts, &mut evals).is_err(), 1);
		return;
	}
	all.resize(1 << n, F::ZERO);
	check(evaluate_piecewise_multilinear(&q, counts, &mut evals.clone()).unwrap() == eval(&all, &q), 2);
	evals.push(F::ONE);
	check(evaluate_piecewise_multilinear(&q, counts, &mut evals).is_err(), 3);
}
fn ctor<P: PackedField>() {
	for n in 0..P::LOG_WIDTH + 3 {
		for len in 0..6usize {
			let ok = len.is_power_of_two() && len == 1 << n.saturating_sub(P::LOG_WIDTH);
			check(MultilinearExtension::<P>::new(n, vec![P::zero(); len]).is_ok() == ok, 1);
		}
	}
	for len in 0..6usize {
		let v: Vec<P> = (0..len).map(|_| any_pod()).collect();
		let a = MultilinearExtension::from_values(v.clone());
		let b = MultilinearExtension::from_values_slice(&v);
		check(a.is_ok() == len.is_power_of_two() && b.is_ok() == len.is_power_of_two(), 2);
		if let (Ok(a), Ok(b)) = (a, b) {
			check(a.size() == len * P::WIDTH && b.size() == len * P::WIDTH, 3);
			for i in 0..a.size() {
				check(a.evaluate_on_hypercube(i).unwrap() == get_packed_slice(&v, i) && b.evaluate_on_hypercube(i).unwrap() == get_packed_slice(&v, i), 4);
			}
			check(a.evaluate_on_hypercube(a.size()).is_err(), 5);
		}
	}
	let z = MultilinearExtension::<P>::zeros(P::LOG_WIDTH + 1).unwrap();
	check(z.n_vars() == P::LOG_WIDTH + 1 && z.evals().iter().all(|x| *x == P::zero()), 6);
}
harness! {
	h_c07_query_b4 => query::<BinaryField4b>(3);
	h_c07_query_2x4 => query::<PackedBinaryField2x4b>(3);
	h_c07_query_8x4 => query::<PackedBinaryField8x4b>(4);
	h_c07_query_8x2 => query::<PackedBinaryField8x2b>(5);
	h_c07_query_8x4s => query::<PackedBinaryField8x4b>(2);
	h_c07_query_2x8 => query::<PackedBinaryField2x8b>(2);
	h_c07_query_4x8s => query::<PackedBinaryField4x8b>(1);
	h_c07_query_8x16 => query::<PackedBinaryField8x16b>(2);
	h_c07_query_2x128 => query::<PackedBinaryField2x128b>(1);
	h_c07_query_512 => query::<PackedBinaryField32x16b>(1);
	h_c07_mle_b4 => mle::<BinaryField4b, BinaryField4b>(3, true);
	h_c07_mle_1_4 => mle::<PackedBinaryField8x1b, BinaryField4b>(3, true);
	h_c07_mle_1_4p => mle::<PackedBinaryField8x1b, PackedBinaryField8x4b>(4, true);
	h_c07_mle_2_4p => mle::<PackedBinaryField4x2b, PackedBinaryField4x4b>(4, true);
	h_c07_mle_1_2p => mle::<PackedBinaryField16x1b, PackedBinaryField8x2b>(5, true);
	h_c07_mle_8_32 => mle::<PackedBinaryField4x8b, PackedBinaryField2x32b>(3, false);
	h_c07_mle_1_32 => mle::<PackedBinaryField8x1b, BinaryField32b>(3, false);
	h_c07_mle_8_128 => mle::<PackedBinaryField4x8b, PackedBinaryField2x128b>(3, false);
	h_c07_mle_small => mle::<PackedBinaryField16x8b, PackedBinaryField4x32b>(1, true);
	h_c07_mle_small2 => mle::<PackedBinaryField4x8b, PackedBinaryField8x16b>(2, true);
	h_c07_mle_aes => mle::<PackedAESBinaryField16x8b, PackedAESBinaryField16x8b>(5, false);
	h_c07_pad_b8 => pad::<BinaryField8b, BinaryField8b>(2, 2);
	h_c07_pad_p1 => pad::<PackedBinaryField4x8b, PackedBinaryField4x8b>(2, 2);
	h_c07_pad_p2 => pad::<PackedBinaryField4x8b, PackedBinaryField8x16b>(1, 3);
	h_c07_pad_p3 => pad::<PackedBinaryField8x1b, PackedBinaryField16x8b>(3, 1);
	h_c07_pad_p4 => pad::<PackedBinaryField2x8b, PackedBinaryField4x8b>(0, 3);
	h_c07_direct_b4 => direct::<BinaryField4b>(3, true);
	h_c07_direct_4x4 => direct::<PackedBinaryField4x4b>(3, true);
	h_c07_direct_4x8 => direct::<PackedBinaryField4x8b>(3, false);
	h_c07_direct_4x32 => direct::<PackedBinaryField4x32b>(4, false);
	h_c07_direct_4x8s => direct::<PackedBinaryField4x8b>(1, true);
	h_c07_embed_8_32 => embed::<PackedBinaryField16x8b, PackedBinaryField4x32b>(4, false);
	h_c07_embed_1_8 => embed::<PackedBinaryField32x1b, PackedBinaryField4x8b>(5, false);
	h_c07_embed_1_4 => embed::<PackedBinaryField32x1b, PackedBinaryField8x4b>(4, true);
	h_c07_embed_8_16s => embed::<PackedBinaryField2x8b, BinaryField16b>(3, false);
	h_c07_embed_8_32s => embed::<PackedBinaryField4x8b, BinaryField32b>(1, true);
	h_c07_folds_b8 => folds::<BinaryField8b, BinaryField8b>(3, true, 0);
	h_c07_folds_4x8 => folds::<PackedBinaryField4x8b, PackedBinaryField4x8b>(3, true, 0);
	h_c07_folds_2x8_8x16 => folds::<PackedBinaryField2x8b, PackedBinaryField8x16b>(2, true, 0);
	h_c07_folds_2x8_8x16c => folds::<PackedBinaryField2x8b, PackedBinaryField8x16b>(4, false, 0);
	h_c07_folds_1_8 => folds::<PackedBinaryField8x1b, BinaryField8b>(5, true, 0);
	h_c07_folds_1_16x8 => folds::<PackedBinaryField8x1b, PackedBinaryField16x8b>(5, true, 0);
	h_c07_folds_1_16x32 => folds::<PackedBinaryField8x1b, PackedBinaryField16x32b>(6, false, 0);
	h_c07_folds_32x1_b128 => folds::<PackedBinaryField32x1b, BinaryField128b>(5, false, 0);
	h_c07_folds_64x1_b8 => folds::<PackedBinaryField64x1b, BinaryField8b>(8, false, 0);
	h_c07_folds_128x1_opt => folds::<PackedBinaryField8x1b, PackedBinaryField2x128b>(5, false, 0);
	h_c07_folds_8x1_opt_thorough => folds::<PackedBinaryField8x1b, PackedBinaryField2x128b>(6, false, 0);
	h_c07_folds_8x1_aes => folds::<PackedBinaryField8x1b, PackedAESBinaryField2x128b>(4, false, 0);
	h_c07_folds_8x1_poly => folds::<PackedBinaryField8x1b, PackedBinaryPolyval2x128b>(4, false, 0);
	h_c07_folds_extra_8 => folds::<PackedBinaryField4x8b, PackedBinaryField4x8b>(2, true, 1);
	h_c07_folds_extra_1 => folds::<PackedBinaryField8x1b, PackedBinaryField16x8b>(3, true, 2);
	h_c07_folds_extra_1m => folds::<PackedBinaryField8x1b, PackedBinaryField2x128b>(4, false, 2);
	h_c07_lerp_b8 => lerp::<BinaryField8b>(3);
	h_c07_lerp_4x8 => lerp::<PackedBinaryField4x8b>(4);
	h_c07_lerp_4x8s => lerp::<PackedBinaryField4x8b>(2);
	h_c07_lerp_8x16 => lerp::<PackedBinaryField8x16b>(2);
	h_c07_lerp_4x32 => lerp::<PackedBinaryField4x32b>(2);
	h_c07_piece_1 => piecewise::<BinaryField4b>(&[1, 1, 1], 3);
	h_c07_piece_2 => piecewise::<BinaryField4b>(&[0, 1, 2], 4);
	h_c07_piece_3 => piecewise::<BinaryField4b>(&[3, 2], 3);
	h_c07_piece_4 => piecewise::<BinaryField8b>(&[1], 2);
	h_c07_piece_5 => piecewise::<BinaryField4b>(&[1, 0, 1, 0], 3);
	h_c07_piece_6 => piecewise::<BinaryField4b>(&[2, 2, 1], 3);
	h_c07_piece_7 => piecewise::<BinaryField4b>(&[0, 0, 2], 3);
	h_c07_piece_8 => piecewise::<BinaryField4b>(&[1, 3, 0, 1], 4);
	h_c07_ctor_4x8 => ctor::<PackedBinaryField4x8b>();
	h_c07_ctor_b16 => ctor::<BinaryField16b>();
}
