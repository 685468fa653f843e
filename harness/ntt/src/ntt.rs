//! C06: the additive NTT evaluates novel-basis polynomials on the requested coset.
use binius_field::packed::*;
use binius_field::*;
use binius_math::BinarySubspace;
use binius_ntt::twiddle::*;
use binius_ntt::*;
use symapi::*;

/// span element number `idx` of a basis
pub fn elem<F: Field>(basis: &[F], idx: usize) -> F {
	let mut r = F::ZERO;
	for (b, x) in basis.iter().enumerate() {
		if idx >> b & 1 == 1 {
			r += *x;
		}
	}
	r
}
/// normalised vanishing polynomial of span(basis[..k]) at x, by its definition as a product
pub fn w_hat<F: Field>(basis: &[F], k: usize, x: F) -> F {
	let w = |x: F| (0..1usize << k).fold(F::ONE, |p, u| p * (x - elem(&basis[..k], u)));
	w(x) * w(basis[k]).invert().unwrap()
}
/// basis of the domain of dimension `d` within the NTT over `basis`: images under the map that
/// kills the first l-d basis elements
pub fn sub_basis<F: Field>(basis: &[F], d: usize) -> Vec<F> {
	let i = basis.len() - d;
	(i..basis.len()).map(|j| w_hat(basis, i, basis[j])).collect()
}
/// matrix of novel basis polynomials: row y, column j = X_j(element y of coset `coset`)
pub fn matrix<F: Field>(basis: &[F], log_y: usize, coset: usize, coset_bits: usize) -> Vec<Vec<F>> {
	let b = sub_basis(basis, log_y + coset_bits);
	(0..1usize << log_y)
		.map(|y| {
			let x = elem(&b, coset << log_y | y);
			let ws: Vec<F> = (0..log_y).map(|k| w_hat(&b, k, x)).collect();
			(0..1usize << log_y)
				.map(|j| (0..log_y).filter(|k| j >> k & 1 == 1).fold(F::ONE, |p, k| p * ws[k]))
				.collect()
		})
		.collect()
}
/// reference transform of the scalars of a tensor
fn reference<F: Field>(basis: &[F], x: &[F], s: NTTShape, coset: usize, coset_bits: usize, skip: usize) -> Vec<F> {
	let ly = s.log_y - skip;
	let mats: Vec<_> = (0..1usize << skip).map(|m| matrix(basis, ly, coset << skip | m, coset_bits + skip)).collect();
	let mut out = vec![F::ZERO; x.len()];
	for z in 0..1usize << s.log_z {
		for m in 0..1usize << skip {
			for xx in 0..1usize << s.log_x {
				let at = |y: usize| ((z << s.log_y | m << ly | y) << s.log_x) | xx;
				for y in 0..1usize << ly {
					for j in 0..1usize << ly {
						out[at(y)] += x[at(j)] * mats[m][y][j];
					}
				}
			}
		}
	}
	out
}
#[derive(Clone, Copy)]
pub struct Case {
	x: usize,
	y: usize,
	z: usize,
	coset: usize,
	bits: usize,
	skip: usize,
}
pub const fn c(x: usize, y: usize, z: usize, coset: usize, bits: usize, skip: usize) -> Case {
	Case { x, y, z, coset, bits, skip }
}
fn run<F: BinaryField, P: PackedField<Scalar = F>>(ntt: &impl AdditiveNTT<F>, basis: &[F], cases: &[Case]) {
	for &k in cases {
		let n = 1usize << (k.x + k.y + k.z);
		let shape = NTTShape { log_x: k.x, log_y: k.y, log_z: k.z };
		let data: Vec<P> = (0..n.div_ceil(P::WIDTH)).map(|_| any_pod()).collect();
		let scal: Vec<F> = (0..n).map(|i| get_packed_slice(&data, i)).collect();
		let want = reference(basis, &scal, shape, k.coset, k.bits, k.skip);
		let mut d = data.clone();
		check(ntt.forward_transform(&mut d, shape, k.coset, k.bits, k.skip).is_ok(), 1);
		for i in 0..n {
			check(get_packed_slice(&d, i) == want[i], 2);
		}
		// the inverse undoes it
		check(ntt.inverse_transform(&mut d, shape, k.coset, k.bits, k.skip).is_ok(), 3);
		for i in 0..n {
			check(get_packed_slice(&d, i) == scal[i], 4);
		}
	}
}
fn canon<F: BinaryField>(l: usize) -> Vec<F> {
	(0..l).map(|i| <F as ExtensionField<BinaryField1b>>::basis(i)).collect()
}
fn single<F: BinaryField, P: PackedField<Scalar = F>>(l: usize, cases: &[Case]) {
	let ntt = SingleThreadedNTT::<F>::new(l).unwrap();
	check(ntt.log_domain_size() == l, 5);
	run::<F, P>(&ntt, &canon(l), cases);
}
fn precomp<F: BinaryField, P: PackedField<Scalar = F>>(l: usize, cases: &[Case]) {
	let ntt = SingleThreadedNTT::<F>::new(l).unwrap().precompute_twiddles();
	check(ntt.log_domain_size() == l, 5);
	run::<F, P>(&ntt, &canon(l), cases);
}
fn multi<F: BinaryField, P: PackedField<Scalar = F>>(l: usize, log_threads: usize, cases: &[Case]) {
	let ntt = SingleThreadedNTT::<F>::new(l).unwrap().multithreaded_with_max_threads(log_threads);
	run::<F, P>(&ntt, &canon(l), cases);
}
fn dynamic<F: BinaryField, P: PackedField<Scalar = F>>(l: usize, pre: bool, log_threads: usize, cases: &[Case]) {
	let ntt = DynamicDispatchNTT::<F>::new(
		l,
		&NTTOptions { precompute_twiddles: pre, thread_settings: ThreadingSettings::ExplicitThreadsCount { log_threads } },
	)
	.unwrap();
	check(ntt.log_domain_size() == l, 5);
	run::<F, P>(&ntt, &canon(l), cases);
	let b = canon::<F>(l);
	for d in 1..=l {
		let sb = sub_basis(&b, d);
		check(ntt.subspace(d).basis() == &sb[..], 6);
		for j in 0..1usize << (d - 1) {
			check(ntt.get_subspace_eval(d, j) == elem(&sb[1..], j), 7);
		}
	}
}
const A: &[Case] = &[c(0, 1, 0, 0, 0, 0), c(0, 2, 0, 1, 2, 0), c(0, 3, 0, 3, 2, 1), c(0, 4, 0, 0, 0, 0), c(0, 5, 0, 0, 0, 0), c(0, 4, 0, 1, 1, 2)];
const B: &[Case] = &[c(1, 2, 0, 1, 1, 0), c(2, 1, 1, 0, 1, 0), c(0, 2, 2, 2, 2, 0), c(1, 3, 1, 1, 2, 0), c(2, 3, 0, 0, 0, 1), c(1, 2, 2, 1, 1, 2), c(3, 2, 0, 1, 1, 1), c(0, 1, 3, 1, 1, 0)];
const C: &[Case] = &[c(0, 0, 2, 1, 1, 0), c(2, 0, 0, 0, 0, 0), c(0, 3, 1, 3, 2, 3), c(1, 4, 0, 1, 1, 0), c(0, 4, 1, 0, 1, 1), c(4, 1, 0, 0, 0, 0)];
harness! {
	h_c06_s_b8_a => single::<BinaryField8b, BinaryField8b>(5, A);
	h_c06_s_b8_b => single::<BinaryField8b, BinaryField8b>(5, B);
	h_c06_s_b8_c => single::<BinaryField8b, BinaryField8b>(5, C);
	h_c06_s_b32_a => single::<BinaryField32b, BinaryField32b>(5, A);
	h_c06_s_b32_b => single::<BinaryField32b, BinaryField32b>(6, B);
	h_c06_s_b128_a => single::<BinaryField128b, BinaryField128b>(5, &A[..4]);
	h_c06_s_4x32_a => single::<BinaryField32b, PackedBinaryField4x32b>(5, A);
	h_c06_s_4x32_b => single::<BinaryField32b, PackedBinaryField4x32b>(6, B);
	h_c06_s_4x32_c => single::<BinaryField32b, PackedBinaryField4x32b>(5, C);
	h_c06_s_8x16_a => single::<BinaryField16b, PackedBinaryField8x16b>(5, A);
	h_c06_s_8x16_b => single::<BinaryField16b, PackedBinaryField8x16b>(7, B);
	h_c06_s_8x16_c => single::<BinaryField16b, PackedBinaryField8x16b>(5, C);
	h_c06_s_16x8_a => single::<BinaryField8b, PackedBinaryField16x8b>(5, A);
	h_c06_s_16x8_b => single::<BinaryField8b, PackedBinaryField16x8b>(5, B);
	h_c06_s_2x8_b => single::<BinaryField8b, PackedBinaryField2x8b>(5, B);
	h_c06_s_32x8_a => single::<BinaryField8b, PackedBinaryField32x8b>(6, &[c(0, 6, 0, 0, 0, 0), c(1, 5, 0, 1, 1, 0), c(0, 5, 1, 1, 1, 2), c(0, 4, 2, 1, 1, 0), c(2, 4, 0, 0, 0, 0), c(0, 3, 0, 0, 0, 0)]);
	h_c06_s_a16x8_a => single::<AESTowerField8b, PackedAESBinaryField16x8b>(5, A);
	h_c06_s_bs16x32 => single::<AESTowerField32b, ByteSlicedAES16x32b>(6, &[c(0, 4, 0, 0, 0, 0), c(0, 5, 0, 1, 1, 0), c(1, 4, 0, 0, 1, 0), c(0, 4, 1, 1, 1, 1)]);
	h_c06_p_b8_a => precomp::<BinaryField8b, BinaryField8b>(5, A);
	h_c06_p_4x32_b => precomp::<BinaryField32b, PackedBinaryField4x32b>(5, B);
	h_c06_p_8x16_a => precomp::<BinaryField16b, PackedBinaryField8x16b>(6, A);
	h_c06_p_8x16_c => precomp::<BinaryField16b, PackedBinaryField8x16b>(5, C);
	h_c06_m1_b8_a => multi::<BinaryField8b, BinaryField8b>(5, 1, A);
	h_c06_m2_b8_b => multi::<BinaryField8b, BinaryField8b>(5, 2, B);
	h_c06_m3_b8_c => multi::<BinaryField8b, BinaryField8b>(5, 3, C);
	h_c06_m1_4x32_a => multi::<BinaryField32b, PackedBinaryField4x32b>(5, 1, A);
	h_c06_m2_4x32_b => multi::<BinaryField32b, PackedBinaryField4x32b>(5, 2, B);
	h_c06_m3_4x32_c => multi::<BinaryField32b, PackedBinaryField4x32b>(5, 3, C);
	h_c06_m2_8x16_a => multi::<BinaryField16b, PackedBinaryField8x16b>(5, 2, A);
	h_c06_m1_8x16_b => multi::<BinaryField16b, PackedBinaryField8x16b>(6, 1, B);
	h_c06_m4_2x8_b => multi::<BinaryField8b, PackedBinaryField2x8b>(5, 4, B);
	h_c06_m2_2x8_d => multi::<BinaryField8b, PackedBinaryField2x8b>(7, 2, &[c(0, 6, 0, 1, 1, 0), c(0, 6, 0, 0, 1, 1), c(0, 6, 0, 1, 1, 3), c(1, 4, 1, 2, 2, 0), c(0, 3, 3, 1, 1, 1), c(2, 2, 2, 1, 3, 1)]);
	h_c06_d0 => dynamic::<BinaryField8b, PackedBinaryField4x8b>(5, false, 0, B);
	h_c06_d1 => dynamic::<BinaryField8b, PackedBinaryField4x8b>(5, true, 0, B);
	h_c06_d2 => dynamic::<BinaryField8b, PackedBinaryField4x8b>(5, false, 2, B);
	h_c06_d3 => dynamic::<BinaryField8b, PackedBinaryField4x8b>(5, true, 1, B);
	h_c06_custom => {
		// an arbitrary (fixed) basis containing 1
		let basis: Vec<BinaryField16b> = [1u16, 0x1234, 0xbeef, 0x0f0f, 0x8001].map(BinaryField16b::new).to_vec();
		let ntt = SingleThreadedNTT::with_subspace(&BinarySubspace::new_unchecked(basis.clone())).unwrap();
		run::<BinaryField16b, PackedBinaryField4x16b>(&ntt, &basis, A);
		run::<BinaryField16b, BinaryField16b>(&ntt, &basis, &B[..4]);
		check(SingleThreadedNTT::with_subspace(&BinarySubspace::new_unchecked(basis[1..].to_vec())).is_err(), 10);
		check(SingleThreadedNTT::with_subspace(&BinarySubspace::<BinaryField16b>::new_unchecked(vec![])).is_err(), 11);
		check(SingleThreadedNTT::<BinaryField8b>::new(9).is_err(), 12);
	};
	h_c06_domain => {
		// AES tower NTT over the image of the canonical subspace
		let basis: Vec<AESTowerField32b> = canon::<BinaryField32b>(5).into_iter().map(Into::into).collect();
		let ntt = SingleThreadedNTT::<AESTowerField32b>::with_canonical_field(5).unwrap();
		run::<AESTowerField32b, PackedAESBinaryField4x32b>(&ntt, &basis, &A[..4]);
		let ntt = SingleThreadedNTT::<AESTowerField32b>::with_domain_field::<BinaryField32b>(5).unwrap();
		run::<AESTowerField32b, PackedAESBinaryField4x32b>(&ntt, &basis, &B[..3]);
	};
}
/// extension-field vectors are transformed coordinate-wise
fn ext<F: BinaryField, PE: PackedExtension<F>>(l: usize, log_y: usize, coset: usize, bits: usize, log_z: usize, log_x: usize)
where
	PE::Scalar: ExtensionField<F>,
{
	let ntt = SingleThreadedNTT::<F>::new(l).unwrap();
	let basis = canon::<F>(l);
	let m = matrix(&basis, log_y, coset, bits);
	let n = 1usize << (log_y + log_z + log_x);
	let data: Vec<PE> = (0..n.div_ceil(PE::WIDTH)).map(|_| any_pod()).collect();
	let shape = NTTShape { log_x, log_y, log_z };
	let mut d = data.clone();
	check(ntt.forward_transform_ext(&mut d, shape, coset, bits, 0).is_ok(), 1);
	for z in 0..1usize << log_z {
		for x in 0..1usize << log_x {
			let at = |y: usize| (z << log_y | y) << log_x | x;
			for y in 0..1usize << log_y {
				let mut want = PE::Scalar::ZERO;
				for j in 0..1usize << log_y {
					want += get_packed_slice(&data, at(j)) * m[y][j];
				}
				check(get_packed_slice(&d, at(y)) == want, 2);
			}
		}
	}
	check(ntt.inverse_transform_ext(&mut d, shape, coset, bits, 0).is_ok(), 3);
	check(d.iter().zip(&data).all(|(a, b)| same(a, b)), 4);
}
fn errors<P: PackedField<Scalar: BinaryField>>(ntt: &impl AdditiveNTT<P::Scalar>) {
	// domain of dimension 4
	let x: P = any_pod();
	let w = P::LOG_WIDTH;
	let bad = [
		(4usize, c(0, w + 2, 0, 2, 1, 0)),      // coset out of range
		(4, c(0, w + 2, 0, 0, 0, w + 3)),       // too many skipped rounds
		(4, c(0, w + 3, 0, 0, 0, 0)),           // longer than the data
		(4, c(0, w + 1, 0, 0, 0, 0)),           // shorter than the data
		(4, c(1, w + 2, 0, 0, 0, 0)),
		(4, c(0, w + 2, 1, 0, 0, 0)),
		(3, c(0, w + 1, 0, 0, 0, 0)),           // length not a power of two
		(4, c(0, w + 2, 0, 0, 3 - w, 0)),       // domain too small
	];
	for (len, k) in bad {
		let mut d = vec![x; len];
		let s = NTTShape { log_x: k.x, log_y: k.y, log_z: k.z };
		check(ntt.forward_transform(&mut d, s, k.coset, k.bits, k.skip).is_err(), 1);
		check(ntt.inverse_transform(&mut d, s, k.coset, k.bits, k.skip).is_err(), 2);
		check(d.iter().all(|y| same(y, &x)), 3);
	}
}
/// interpolation over d * 2^ell points
fn odd(l: usize, d: usize, ell: usize, bits: usize) {
	type F = BinaryField16b;
	let ntt = SingleThreadedNTT::<F>::new(l).unwrap();
	let basis = canon::<F>(l);
	let o = OddInterpolate::new(&ntt, d, ell, bits).unwrap();
	let n = d << ell;
	let data: Vec<F> = (0..n).map(|_| any_pod()).collect();
	let mut co = data.clone();
	check(o.inverse_transform(&mut co).is_ok(), 1);
	let b = sub_basis(&basis, ell + bits);
	for y in 0..n {
		let x = elem(&b, y);
		let mut v = F::ZERO;
		for j in 0..n {
			let p = (0..usize::BITS as usize).filter(|k| j >> k & 1 == 1).fold(F::ONE, |p, k| p * w_hat(&b, k, x));
			v += co[j] * p;
		}
		check(v == data[y], 2);
	}
	let mut wrong = vec![F::ZERO; n + 1];
	check(o.inverse_transform(&mut wrong).is_err(), 3);
	check(OddInterpolate::new(&ntt, (1 << bits) + 1, ell, bits).is_err(), 4);
	check(OddInterpolate::new(&ntt, d, l - bits + 1, bits).is_err(), 5);
}
/// twiddle access objects, including cosets of them
fn twiddles<TA: TwiddleAccess<BinaryField8b>>(tas: &[TA], l: usize) {
	let basis = canon::<BinaryField8b>(l);
	for (i, ta) in tas.iter().enumerate() {
		let sb = sub_basis(&basis, l - i);
		let n = l - 1 - i;
		check(ta.log_n() == n, 1);
		for j in 0..1usize << n {
			check(ta.get(j) == elem(&sb[1..], j), 2);
		}
		for bits in 0..n {
			for j in 0..1usize << bits {
				let (a, b) = ta.get_pair(bits, j);
				check(a == elem(&sb[1..], j) && b == elem(&sb[1..], j | 1 << bits), 3);
			}
		}
		for cb in 0..=n {
			for co in 0..1usize << cb {
				let t = ta.coset(cb, co);
				check(t.log_n() == n - cb, 4);
				for j in 0..1usize << (n - cb) {
					check(t.get(j) == elem(&sb[1..], co << (n - cb) | j), 5);
				}
				if cb < n {
					let (a, b) = t.get_pair(n - cb - 1, 0);
					check(a == t.get(0) && b == t.get(1 << (n - cb - 1)), 6);
				}
				let (s, sh) = t.affine_subspace();
				check(sh == t.get(0) && s.dim() == n - cb + 1 && s.basis()[0] == BinaryField8b::ONE, 7);
				for j in 0..1usize << (n - cb) {
					check(s.get(2 * j) + sh == t.get(j), 8);
				}
				// cosets of cosets
				if cb > 0 && cb < n {
					let u = t.coset(1, 1);
					check(u.get(0) == t.get(1 << (n - cb - 1)), 9);
				}
			}
		}
	}
}
harness! {
	h_c06_ext_8_128 => ext::<BinaryField8b, PackedBinaryField1x128b>(5, 3, 1, 1, 0, 0);
	h_c06_ext_8_2x128 => ext::<BinaryField8b, PackedBinaryField2x128b>(5, 2, 1, 1, 1, 0);
	h_c06_ext_16_4x32 => ext::<BinaryField16b, PackedBinaryField4x32b>(5, 3, 0, 1, 0, 1);
	h_c06_ext_32_128 => ext::<BinaryField32b, BinaryField128b>(5, 3, 3, 2, 0, 0);
	h_c06_err_s1 => errors::<BinaryField8b>(&SingleThreadedNTT::new(4).unwrap());
	h_c06_err_s2 => errors::<PackedBinaryField2x8b>(&SingleThreadedNTT::new(4).unwrap());
	h_c06_err_m1 => errors::<BinaryField8b>(&SingleThreadedNTT::new(4).unwrap().multithreaded_with_max_threads(2));
	h_c06_err_m2 => errors::<PackedBinaryField2x8b>(&SingleThreadedNTT::new(4).unwrap().multithreaded_with_max_threads(1));
	h_c06_odd_1 => odd(6, 1, 2, 2);
	h_c06_odd_3 => odd(6, 3, 2, 2);
	h_c06_odd_5 => odd(6, 5, 1, 3);
	h_c06_odd_6 => odd(5, 6, 1, 3);
	h_c06_odd_7 => odd(4, 7, 0, 3);
	h_c06_odd_3b => odd(7, 3, 1, 4);
	h_c06_tw_otf => twiddles(&OnTheFlyTwiddleAccess::generate(&BinarySubspace::with_dim(5).unwrap()).unwrap(), 5);
	h_c06_tw_pre => twiddles(&PrecomputedTwiddleAccess::generate(&BinarySubspace::with_dim(5).unwrap()).unwrap(), 5);
	h_c06_subspace => {
		let b: Vec<BinaryField16b> = (0..4).map(|_| any_pod()).collect();
		let s = BinarySubspace::new_unchecked(b.clone());
		check(s.dim() == 4 && s.basis() == &b[..], 1);
		for (i, e) in s.iter().enumerate() {
			check(e == elem(&b, i) && s.get(i) == e && matches!(s.get_checked(i), Ok(v) if v == e), 2);
		}
		check(s.iter().count() == 16 && s.get_checked(16).is_err(), 3);
		check(matches!(s.reduce_dim(2), Ok(t) if t.basis() == &b[..2]) && s.reduce_dim(5).is_err(), 4);
		for d in 0..=16 {
			check(matches!(BinarySubspace::<BinaryField16b>::with_dim(d), Ok(t) if t.basis() == &canon::<BinaryField16b>(d)[..]), 5);
		}
		check(BinarySubspace::<BinaryField16b>::with_dim(17).is_err(), 6);
		check(BinarySubspace::<BinaryField16b>::default().basis() == &canon::<BinaryField16b>(16)[..], 7);
	};
}
