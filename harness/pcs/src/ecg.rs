//! Greedy evalcheck: evaluation claims on any oracles down to claims on committed ones, with the
//! sumchecks in between.
use crate::{ec::*, ecp::*, mock::*};
use binius_core::{
	protocols::greedy_evalcheck,
	transcript::{ProverTranscript, VerifierTranscript},
	witness::MultilinearExtensionIndex,
};
use binius_field::*;
use binius_hal::make_portable_backend;
use binius_math::DefaultEvaluationDomainFactory;
use fref::*;
use symapi::*;

/// forge: one claim or one byte of the proof is changed
fn greedy<F: TowerField, P>(k: usize, pts: &[usize], every: usize, switch: usize, forge: bool)
where
	P: PackedField<Scalar = F> + PackedExtension<F, PackedSubfield = P>,
{
	let mut o = Set::<F>::new();
	let ids = build(&mut o, k);
	let g = gen_f::<F>();
	let mut coms: Vec<(usize, Vec<F>)> = vec![];
	let mut n = 0;
	for p in o.polys() {
		if p.variant.is_committed() {
			let v = (0..1usize << p.n_vars())
				.map(|_| {
					n += 1;
					level(if n % every == 0 { any_f::<F>() } else { (g + F::ONE).pow(n as u64 * 3) }, p.tower_level)
				})
				.collect();
			coms.push((p.id().index(), v));
		}
	}
	let com = |id: binius_core::oracle::OracleId| coms.iter().find(|x| x.0 == id.index()).unwrap().1.clone();
	let mut w = MultilinearExtensionIndex::<'static, P>::new();
	for id in o.ids().collect::<Vec<_>>() {
		upload(&mut w, id, &table(&o, id, &com));
	}
	let mut claims: Vec<Claim<F>> = vec![];
	for &p in pts {
		for &id in &ids {
			let p = point::<F>(p, o.n_vars(id));
			let eval = mle(&table(&o, id, &com), &p);
			claims.push(Claim { id, eval_point: p.into(), eval });
		}
	}
	let (mut po, mut vo) = (o.clone(), o.clone());
	let be = make_portable_backend();
	let df = DefaultEvaluationDomainFactory::<F>::default();
	let mut pt = ProverTranscript::<Fy>::new();
	let out = greedy_evalcheck::prove::<_, _, F, _, _>(&mut po, &mut w, claims.clone(), move |_| switch, &mut pt, df, &be).unwrap();
	let mut proof = pt.finalize();
	let mut pos = 0;
	if forge {
		merge(false);
		let n = claims.len();
		pos = any_below(n + proof.len());
		if pos < n {
			let d = any_f::<F>();
			assume(d != F::ZERO);
			claims[pos].eval += d;
		} else {
			// any position of no entry yet makes a new one for a composite oracle
			if (k == 18 || k == 19) && (pos - n) % 8 >= 4 && pos - n < 8 * n {
				return;
			}
			let d = any_u8() & 15;
			assume(d != 0);
			proof[pos - n] ^= d;
		}
	}
	let mut vt = VerifierTranscript::<Fy>::new(proof);
	let got = greedy_evalcheck::verify(&mut vo, claims.clone(), &mut vt);
	if forge {
		let Ok(got) = got else {
			check(true, 99);
			return;
		};
		let mut all = vt.finalize().is_ok();
		for c in &got {
			all &= mle(&com(c.id), &c.eval_point) == c.eval;
		}
		check(!all, 100 + pos as u64);
		return;
	}
	check(got.is_ok(), 1);
	check(vt.finalize().is_ok(), 2);
	let got = got.unwrap();
	check(got.len() == out.eval_claims.len() && got.len() > 0, 3);
	for (a, b) in got.iter().zip(&out.eval_claims) {
		check(a.id == b.id && a.eval_point == b.eval_point && a.eval == b.eval, 4);
		check(vo[a.id].variant.is_committed(), 5);
		check(mle(&com(a.id), &a.eval_point) == a.eval, 6);
	}
}
type F16 = BinaryField4b;
macro_rules! grd {
	($($a:ident $b:ident $f:ident $k:literal;)*) => { harness! { $(
		$a => greedy::<F16, PackedBinaryField1x4b>($k, &[0], 1, 1, false);
		$b => greedy::<F16, PackedBinaryField2x4b>($k, &[0, 0], 2, 0, false);
		$f => greedy::<F16, PackedBinaryField1x4b>($k, &[0], 99, 0, true);
	)* } };
}
grd! {
	h_c22_greedy_0 h_c22_greedyp_0 h_c22_greedyf_0 0;
	h_c22_greedy_3 h_c22_greedyp_3 h_c22_greedyf_3 3;
	h_c22_greedy_4 h_c22_greedyp_4 h_c22_greedyf_4 4;
	h_c22_greedy_5 h_c22_greedyp_5 h_c22_greedyf_5 5;
	h_c22_greedy_6 h_c22_greedyp_6 h_c22_greedyf_6 6;
	h_c22_greedy_7 h_c22_greedyp_7 h_c22_greedyf_7 7;
	h_c22_greedy_8 h_c22_greedyp_8 h_c22_greedyf_8 8;
	h_c22_greedy_9 h_c22_greedyp_9 h_c22_greedyf_9 9;
	h_c22_greedy_10 h_c22_greedyp_10 h_c22_greedyf_10 10;
	h_c22_greedy_11 h_c22_greedyp_11 h_c22_greedyf_11 11;
	h_c22_greedy_12 h_c22_greedyp_12 h_c22_greedyf_12 12;
	h_c22_greedy_13 h_c22_greedyp_13 h_c22_greedyf_13 13;
	h_c22_greedy_14 h_c22_greedyp_14 h_c22_greedyf_14 14;
	h_c22_greedy_15 h_c22_greedyp_15 h_c22_greedyf_15 15;
	h_c22_greedy_16 h_c22_greedyp_16 h_c22_greedyf_16 16;
	h_c22_greedy_17 h_c22_greedyp_17 h_c22_greedyf_17 17;
	h_c22_greedy_18 h_c22_greedyp_18 h_c22_greedyf_18 18;
	h_c22_greedy_19 h_c22_greedyp_19 h_c22_greedyf_19 19;
	h_c22_greedy_20 h_c22_greedyp_20 h_c22_greedyf_20 20;
	h_c22_greedy_21 h_c22_greedyp_21 h_c22_greedyf_21 21;
	h_c22_greedy_22 h_c22_greedyp_22 h_c22_greedyf_22 22;
	h_c22_greedy_23 h_c22_greedyp_23 h_c22_greedyf_23 23;
	h_c22_greedy_24 h_c22_greedyp_24 h_c22_greedyf_24 24;
}
