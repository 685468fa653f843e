//! Honest proofs: for every witness, the proof of a true statement is accepted and the reduced
//! evaluations are those of the witness multilinears.
use crate::{cp::Cp, mock::*};
use binius_core::{
	fiat_shamir::{CanSample, Challenger},
	protocols::sumcheck::{
		self, BatchSumcheckOutput, CompositeSumClaim, EqIndSumcheckClaim, SumcheckClaim, ZerocheckClaim,
		eq_ind::{self, ClaimsSortingOrder},
		front_loaded::BatchVerifier,
		prove::{self, RegularSumcheckProver, SumcheckProver, ZerocheckProverImpl, eq_ind::EqIndSumcheckProverBuilder, front_loaded::BatchProver},
	},
	transcript::ProverTranscript,
};
use binius_field::*;
use binius_hal::make_portable_backend;
use binius_math::*;
use fref::*;
use symapi::*;

pub type Shape = (usize, &'static [Cp]);

/// a column of 2^n symbolic values
fn col<F: BinaryField>(n: usize) -> Vec<F> {
	(0..1 << n).map(|_| any_f()).collect()
}
fn pack<P: PackedField>(v: &[P::Scalar]) -> Vec<P> {
	v.chunks(P::WIDTH).map(|c| P::from_scalars(c.iter().copied())).collect()
}
fn mle<P: PackedField>(n: usize, v: &[P::Scalar]) -> MultilinearExtension<P> {
	MultilinearExtension::new(n, pack::<P>(v)).unwrap()
}
/// the multilinear extension by its definition
fn at<F: Field, S: Field>(v: &[S], r: &[F]) -> F
where
	F: ExtensionField<S>,
{
	let mut s = F::ZERO;
	for (i, x) in v.iter().enumerate() {
		let mut w = F::from(*x);
		for (j, c) in r.iter().enumerate() {
			w *= if i >> j & 1 == 1 { *c } else { F::ONE - *c };
		}
		s += w;
	}
	s
}
fn sum<F: ExtensionField<S>, S: Field>(c: Cp, m: &[Vec<S>]) -> F {
	let mut s = F::ZERO;
	for i in 0..m[0].len() {
		let q: Vec<F> = m.iter().map(|v| F::from(v[i])).collect();
		s += c.ev(&q);
	}
	s
}
/// P: packed large field; PS: packed witness field
fn regular<P, PS, FD, F, S>(sh: &[Shape], hi: bool, sw: usize, front: bool)
where
	F: TowerField + ExtensionField<FD> + ExtensionField<S>,
	S: BinaryField,
	FD: BinaryField,
	P: PackedField<Scalar = F> + PackedExtension<F, PackedSubfield = P> + PackedExtension<FD> + RepackedExtension<PS>,
	PS: PackedField<Scalar = S>,
{
	let o = if hi { EvaluationOrder::HighToLow } else { EvaluationOrder::LowToHigh };
	let cols: Vec<Vec<Vec<S>>> = sh.iter().map(|(n, cs)| (0..cs[0].nv()).map(|_| col::<S>(*n)).collect()).collect();
	let sums: Vec<Vec<CompositeSumClaim<F, Cp>>> = sh
		.iter()
		.zip(&cols)
		.map(|((_, cs), m)| cs.iter().map(|c| CompositeSumClaim { composition: *c, sum: sum::<F, S>(*c, m) }).collect())
		.collect();
	let be = make_portable_backend();
	let df = DefaultEvaluationDomainFactory::<FD>::default();
	let mut t = ProverTranscript::<Fx>::new();
	let provers: Vec<_> = (0..sh.len())
		.map(|k| {
			let ms: Vec<_> = cols[k].iter().map(|v| MLEEmbeddingAdapter::<PS, P, _>::from(mle::<PS>(sh[k].0, v))).collect();
			RegularSumcheckProver::<FD, P, _, _, _>::new(o, ms, sums[k].clone(), df.clone(), move |_| sw, &be).unwrap()
		})
		.collect();
	let out = if front {
		BatchProver::new(provers, &mut t).unwrap().run(&mut t).unwrap()
	} else {
		prove::batch_prove(provers, &mut t).unwrap()
	};
	let claims: Vec<_> = (0..sh.len()).map(|k| SumcheckClaim::new(sh[k].0, cols[k].len(), sums[k].clone()).unwrap()).collect();
	let mut v = t.into_verifier();
	let got = if front {
		BatchVerifier::new(&claims, &mut v).unwrap().run(&mut v)
	} else {
		sumcheck::batch_verify(o, &claims, &mut v)
	};
	check(got.is_ok(), 1);
	let got = got.unwrap();
	check(v.finalize().is_ok(), 2);
	check(got == out, 3);
	let n = got.challenges.len();
	for k in 0..sh.len() {
		let m = sh[k].0;
		let mut r: Vec<F> = if front {
			// the first m challenges, in the order of the variables
			got.challenges[..m].to_vec()
		} else if hi {
			got.challenges[..m].to_vec()
		} else {
			got.challenges[n - m..].to_vec()
		};
		if front && hi {
			r.reverse();
		}
		for (c, e) in cols[k].iter().zip(&got.multilinear_evals[k]) {
			check(at::<F, S>(c, &r) == *e, 4);
		}
	}
}
/// every round message of the prover is the round polynomial by definition; at challenges fixed
fn eqind<P, PS, FD, F, S>(n: usize, cs: &'static [Cp], hi: bool, sw: usize, suffix: usize)
where
	F: TowerField + ExtensionField<FD> + ExtensionField<S>,
	S: BinaryField,
	FD: BinaryField,
	P: PackedField<Scalar = F> + PackedExtension<F, PackedSubfield = P> + PackedExtension<FD> + RepackedExtension<PS>,
	PS: PackedField<Scalar = S>,
{
	let o = if hi { EvaluationOrder::HighToLow } else { EvaluationOrder::LowToHigh };
	let m = cs[0].nv();
	let mut cols: Vec<Vec<S>> = (0..m).map(|_| col::<S>(n)).collect();
	let cst: Vec<S> = (0..m).map(|i| if i % 2 == 0 { S::ZERO } else { S::ONE }).collect();
	for (c, v) in cols.iter_mut().zip(&cst) {
		for i in (1 << n) - suffix..1 << n {
			c[i] = *v;
		}
	}
	let mut t = ProverTranscript::<Fx>::new();
	let z: Vec<F> = t.sample_vec(n);
	let sums: Vec<CompositeSumClaim<F, Cp>> = cs
		.iter()
		.map(|c| {
			let vals: Vec<F> = (0..1 << n).map(|i| c.ev(&cols.iter().map(|v| F::from(v[i])).collect::<Vec<F>>())).collect();
			CompositeSumClaim { composition: *c, sum: at::<F, F>(&vals, &z) }
		})
		.collect();
	let be = make_portable_backend();
	let df = DefaultEvaluationDomainFactory::<FD>::default();
	let ms: Vec<_> = cols.iter().map(|v| MLEEmbeddingAdapter::<PS, P, _>::from(mle::<PS>(n, v))).collect();
	let mut b = EqIndSumcheckProverBuilder::with_switchover(ms, |_| sw, &be).unwrap();
	if suffix > 0 {
		b = b.with_const_suffixes(&cst.iter().map(|v| (F::from(*v), suffix)).collect::<Vec<_>>()).unwrap();
	}
	let pr = b.build(o, &z, sums.clone(), df).unwrap();
	let out = prove::batch_prove(vec![pr], &mut t).unwrap();
	let cl = [EqIndSumcheckClaim::new(n, m, sums).unwrap()];
	let red = eq_ind::reduce_to_regular_sumchecks(&cl).unwrap();
	let mut v = t.into_verifier();
	let z2: Vec<F> = v.sample_vec(n);
	let got = sumcheck::batch_verify(o, &red, &mut v);
	check(got.is_ok(), 1);
	let got = got.unwrap();
	check(got == out, 2);
	check(v.finalize().is_ok(), 3);
	let fin = eq_ind::verify_sumcheck_outputs(ClaimsSortingOrder::AscendingVars, &cl, &z2, got);
	check(fin.is_ok(), 4);
	let fin = fin.unwrap();
	for (c, e) in cols.iter().zip(&fin.multilinear_evals[0]) {
		check(at::<F, S>(c, &fin.challenges) == *e, 5);
	}
}

/// zerocheck: for every witness satisfying the constraint
fn zero<P, PS, PB, FD, FB, F, S>(sh: &[(usize, Cp)], skip: usize)
where
	F: TowerField + ExtensionField<FD> + ExtensionField<S> + ExtensionField<FB>,
	S: BinaryField,
	FD: TowerField,
	FB: TowerField + ExtensionField<FD>,
	P: PackedField<Scalar = F>
		+ PackedExtension<F, PackedSubfield = P>
		+ PackedExtension<FD>
		+ PackedExtension<FB, PackedSubfield = PB>
		+ RepackedExtension<PS>
		+ RepackedExtension<PB>,
	PB: PackedField<Scalar = FB> + PackedExtension<FD> ,
	PS: PackedField<Scalar = S>,
{
	let cols: Vec<Vec<Vec<S>>> = sh
		.iter()
		.map(|(n, c)| {
			let (a, b) = (col::<S>(*n), col::<S>(*n));
			match c.nv() {
				1 => vec![vec![S::ZERO; 1 << n]],
				2 => vec![a.clone(), a],
				_ => {
					let z = (0..1 << n).map(|i| c.ev(&[a[i], b[i], S::ZERO])).collect();
					vec![a, b, z]
				}
			}
		})
		.collect();
	let n = sh.iter().map(|s| s.0).max().unwrap();
	let mut t = ProverTranscript::<Fx>::new();
	let z: Vec<F> = t.sample_vec(n - skip);
	let be = make_portable_backend();
	let df = DefaultEvaluationDomainFactory::<FD>::default();
	let (mut claims, mut provers) = (vec![], vec![]);
	for (k, &(m, c)) in sh.iter().enumerate() {
		let ms: Vec<_> = cols[k].iter().map(|v| MLEEmbeddingAdapter::<PS, P, _>::from(mle::<PS>(m, v))).collect();
		claims.push(ZerocheckClaim::<F, Cp>::new(m, c.nv(), vec![c]).unwrap());
		provers.push(
			ZerocheckProverImpl::<FD, FB, P, Cp, Cp, _, _, _>::new(ms, vec![("c".into(), c, c)], &z[n - m.max(skip)..], df.clone(), &be).unwrap(),
		);
	}
	let out = prove::batch_prove_zerocheck::<F, FD, P, _, _>(provers, skip, &mut t).unwrap();
	let mut v = t.into_verifier();
	let got = sumcheck::batch_verify_zerocheck(&claims, skip, &mut v);
	check(got.is_ok(), 1);
	let got = got.unwrap();
	check(v.finalize().is_ok(), 2);
	check(got.skipped_challenges == out.skipped_challenges, 3);
	check(got.unskipped_challenges == out.unskipped_challenges, 4);
	check(got.concat_multilinear_evals == out.concat_multilinear_evals, 5);
	let mut k = 0;
	for (c, &(m, _)) in cols.iter().zip(sh) {
		let un = &got.unskipped_challenges;
		for v in c {
			let mut v = v.clone();
			// short columns repeat up to the skipped dimension
			while v.len() < 1 << skip {
				v.extend(v.clone());
			}
			let mut r = got.skipped_challenges.clone();
			r.extend(&un[un.len() - m.saturating_sub(skip)..]);
			check(at::<F, S>(&v, &r) == got.concat_multilinear_evals[k], 6);
			k += 1;
		}
	}
	check(k == got.concat_multilinear_evals.len(), 7);
}
type Q = PackedBinaryField32x4b;
type Q1 = PackedBinaryField128x1b;
type R = PackedBinaryField2x4b;
type R1 = PackedBinaryField8x1b;
type R2 = PackedBinaryField4x2b;
type T = PackedBinaryField8x4b;
type T1 = PackedBinaryField32x1b;
type G = BinaryField4b;
type B1 = BinaryField1b;
type B2 = BinaryField2b;
type B8 = BinaryField8b;
type E4 = PackedBinaryField4x8b;
type E4s = PackedBinaryField32x1b;
type P1 = PackedBinaryField1x128b;
type S1 = PackedBinaryField128x1b;
type X = BinaryField128b;
harness! {
	h_c16_x2 => { exact(true); regular::<P1, S1, B8, X, B1>(&[(2, &[Cp::Cube2]), (1, &[Cp::Sum2])], true, 1, false); };
	h_c16_x3 => { exact(true); regular::<P1, S1, B8, X, B1>(&[(1, &[Cp::Sum2]), (2, &[Cp::Mul2])], true, 0, true); };
	h_c16_xe1 => { exact(true); eqind::<P1, S1, B8, X, B1>(2, &[Cp::And3], true, 0, 0); };
	h_c16_xe2 => { exact(true); eqind::<P1, S1, B8, X, B1>(2, &[Cp::Mul2], false, 1, 1); };
	h_c16_xz1 => { exact(true); zero::<P1, S1, PackedBinaryField16x8b, B8, B8, X, B1>(&[(2, Cp::And3)], 1); };
	h_c16_xz2 => { exact(true); zero::<P1, S1, PackedBinaryField16x8b, B8, B8, X, B1>(&[(2, Cp::And3)], 0); };
	h_c16_xz3 => { exact(true); zero::<P1, S1, PackedBinaryField16x8b, B8, B8, X, B1>(&[(1, Cp::And3), (2, Cp::Sum2)], 2); };
	h_c16_x1 => { exact(true); regular::<P1, S1, B8, X, B1>(&[(2, &[Cp::Mul2])], false, 0, false); };
	h_c16_reg_q1 => regular::<Q, Q1, G, G, B1>(&[(2, &[Cp::Mul2])], false, 0, false);
	h_c16_reg_q2 => regular::<Q, Q, G, G, G>(&[(2, &[Cp::Mul2, Cp::Sum2])], true, 0, false);
	h_c16_reg_r1 => regular::<R, R1, G, G, B1>(&[(4, &[Cp::Mul2])], false, 0, false);
	h_c16_reg_r2 => regular::<R, R1, G, G, B1>(&[(4, &[Cp::Mul2])], true, 2, false);
	h_c16_reg_r3 => regular::<R, R1, G, G, B1>(&[(4, &[Cp::Cube2]), (3, &[Cp::Sum2]), (0, &[Cp::Mul2])], true, 1, false);
	h_c16_reg_r4 => regular::<R, R1, G, G, B1>(&[(4, &[Cp::Cube2]), (3, &[Cp::Sum2]), (0, &[Cp::Mul2])], false, 3, false);
	h_c16_front_r1 => regular::<R, R1, G, G, B1>(&[(1, &[Cp::Mul2]), (2, &[Cp::Cube2]), (3, &[Cp::Sum2, Cp::Mul2])], true, 1, true);
	h_c16_front_r2 => regular::<R, R1, G, G, B1>(&[(0, &[Cp::Mul2]), (3, &[Cp::Mul3]), (3, &[Cp::Sum2, Cp::Mul2])], false, 2, true);
	h_c16_reg_t1 => regular::<T, T1, G, G, B1>(&[(5, &[Cp::Mul2])], true, 3, false);
	h_c16_reg_b1 => regular::<E4, E4s, B8, B8, B1>(&[(2, &[Cp::Mul2])], false, 0, false);
	h_c16_eqind_1 => eqind::<Q, Q1, G, G, B1>(2, &[Cp::And3], false, 0, 0);
	h_c16_eqind_2 => eqind::<Q, Q1, G, G, B1>(2, &[Cp::And3], true, 0, 1);
	h_c16_eqind_r1 => eqind::<R, R1, G, G, B1>(3, &[Cp::And3, Cp::Mul3], true, 0, 0);
	h_c16_eqind_r2 => eqind::<R, R1, G, G, B1>(3, &[Cp::Mul2], false, 2, 3);
	h_c16_eqind_r3 => eqind::<R, R1, G, G, B1>(3, &[Cp::Mul2, Cp::Sum2], true, 2, 5);
	h_c16_eqind_r4 => eqind::<R, R1, G, G, B1>(3, &[Cp::Cube2], true, 0, 7);
	h_c16_eqind_r5 => eqind::<R, R1, G, G, B1>(4, &[Cp::Mul2], true, 0, 6);
	h_c16_eqind_o3 => eqind::<PackedBinaryField1x4b, PackedBinaryField4x1b, G, G, B1>(3, &[Cp::Mul2], false, 0, 2);
	h_c16_eqind_o4 => eqind::<PackedBinaryField1x4b, PackedBinaryField4x1b, G, G, B1>(3, &[Cp::Mul2], false, 1, 3);
	h_c16_eqind_o5 => eqind::<PackedBinaryField1x4b, PackedBinaryField4x1b, G, G, B1>(3, &[Cp::And3], true, 0, 3);
	h_c16_eqind_o6 => eqind::<PackedBinaryField1x4b, PackedBinaryField4x1b, G, G, B1>(4, &[Cp::Mul2], false, 0, 5);
	h_c16_eqind_o7 => regular::<PackedBinaryField1x4b, PackedBinaryField4x1b, G, G, B1>(&[(3, &[Cp::Cube2]), (2, &[Cp::Sum2])], false, 1, false);
	h_c16_eqind_r6 => eqind::<R, R1, G, G, B1>(4, &[Cp::Mul2], false, 0, 5);
	h_c16_zero_1 => zero::<R, R1, R, G, G, G, B1>(&[(3, Cp::And3)], 0);
	h_c16_zero_2 => zero::<R, R1, R, G, G, G, B1>(&[(3, Cp::And3)], 1);
	h_c16_zero_3 => zero::<R, R1, R, G, G, G, B1>(&[(3, Cp::And3)], 2);
	h_c16_zero_4 => zero::<R, R1, R2, B2, B2, G, B1>(&[(3, Cp::And3)], 1);
	h_c16_zero_5 => zero::<R, R1, R, G, G, G, B1>(&[(1, Cp::And3), (2, Cp::CAnd3), (3, Cp::Sum2)], 2);
}
