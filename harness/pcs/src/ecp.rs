//! Evalcheck prover: what it sends is accepted, and both sides hand on the same true claims.
use crate::{ec::*, mock::*};
use binius_core::{
	oracle::*,
	protocols::evalcheck::*,
	transcript::{ProverTranscript, VerifierTranscript},
	witness::MultilinearExtensionIndex,
};
use binius_field::{packed::{get_packed_slice, set_packed_slice}, *};
use binius_math::{MultilinearExtension, MLEDirectAdapter, MultilinearPoly};
use fref::*;
use symapi::*;

pub fn upload<F: TowerField, P: PackedField<Scalar = F>>(w: &mut MultilinearExtensionIndex<'static, P>, id: OracleId, v: &[F]) {
	let mut n = 0;
	while 1 << n < v.len() {
		n += 1
	}
	let mut d = vec![P::zero(); v.len().div_ceil(P::WIDTH)];
	for (i, e) in v.iter().enumerate() {
		set_packed_slice(&mut d, i, *e);
	}
	let m = MultilinearExtension::new(n, d).unwrap();
	w.update_multilin_poly([(id, MLEDirectAdapter::from(m).upcast_arc_dyn())]).unwrap();
}
/// the i-th point of n coordinates
pub fn point<F: TowerField>(k: usize, n: usize) -> Vec<F> {
	let g = gen_f::<F>();
	(0..n)
		.map(|i| match k {
			0 => g.pow(1 + i as u64) + F::ONE * if i % 2 == 0 { F::ONE } else { F::ZERO },
			1 => if i % 2 == 0 { F::ONE } else { F::ZERO },
			2 => if i % 2 == 1 { F::ONE } else { g },
			_ => F::ZERO,
		})
		.collect()
}
fn same_set<F: TowerField>(a: &SizedConstraintSet<F>, b: &SizedConstraintSet<F>) {
	check(a.n_vars == b.n_vars && a.oracle_ids == b.oracle_ids && a.constraints.len() == b.constraints.len(), 20);
	for (x, y) in a.constraints.iter().zip(&b.constraints) {
		match (&x.predicate, &y.predicate) {
			(ConstraintPredicate::Sum(x), ConstraintPredicate::Sum(y)) => check(x == y, 21),
			_ => check(false, 22),
		}
		check(x.composition == y.composition, 23);
	}
}
fn complete<F: TowerField, P: PackedField<Scalar = F>>(k: usize, pts: &[usize]) {
	let mut o = Set::<F>::new();
	let ids = build(&mut o, k);
	let mut coms: Vec<(OracleId, Vec<F>)> = vec![];
	for p in o.polys() {
		if p.variant.is_committed() {
			coms.push((p.id(), (0..1usize << p.n_vars()).map(|_| level(any_f::<F>(), p.tower_level)).collect()));
		}
	}
	let com = |id: OracleId| coms.iter().find(|x| x.0 == id).unwrap().1.clone();
	let mut w = MultilinearExtensionIndex::<'static, P>::new();
	for id in o.ids().collect::<Vec<_>>() {
		upload(&mut w, id, &table(&o, id, &com));
	}
	let mut claims: Vec<Claim<F>> = vec![];
	for &p in pts {
		for &id in &ids {
			let p = point::<F>(p, o.n_vars(id));
			let eval = mle(&table(&o, id, &com), &p);
			claims.push(Claim { id, eval_point: p.into(), eval });
		}
	}
	let (mut po, mut vo, mut probe) = (o.clone(), o.clone(), o.clone());
	let mut p = EvalcheckProver::new(&mut po, &mut w);
	let mut v = EvalcheckVerifier::new(&mut vo);
	let mut tables: Vec<(OracleId, Vec<F>)> = vec![];
	// the second round claims the oracles of the sums the first one leaves
	for round in 0..2 {
		let mut pt = ProverTranscript::<Fx>::new();
		p.prove(claims.clone(), &mut pt).unwrap();
		let bytes = pt.finalize();
		let s = p.take_new_bivariate_sumchecks_constraints().unwrap();
		let m = p.take_new_mlechecks_constraints().unwrap();
		let left = std::mem::take(p.committed_eval_claims_mut());
		let mut vt = VerifierTranscript::<Fx>::new(bytes.clone());
		check(v.verify(claims.clone(), &mut vt).is_ok(), 1);
		check(vt.finalize().is_ok(), 7);
		let l = std::mem::take(v.committed_eval_claims_mut());
		check(l.len() == left.len(), 2);
		for (a, b) in l.iter().zip(&left) {
			check(a.id == b.id && a.eval_point == b.eval_point && a.eval == b.eval, 3);
			check(mle(&com(a.id), &a.eval_point) == a.eval, 4);
		}
		let vs = v.take_new_sumcheck_constraints().unwrap();
		let vm = v.take_new_mlechecks_constraints().unwrap();
		check(vs.len() == s.len() && vm.constraint_sets.len() == m.len(), 5);
		for (a, b) in vs.iter().zip(&s) {
			same_set(a, b);
		}
		for (i, b) in m.iter().enumerate() {
			same_set(&vm.constraint_sets[i], &b.constraint_set);
			check(vm.eq_ind_challenges[i][..] == b.eq_ind_challenges[..], 6);
		}
		// another verifier, to look at the oracles it adds
		let mut vt = VerifierTranscript::<Fx>::new(bytes);
		check(EvalcheckVerifier::new(&mut probe).verify(claims, &mut vt).is_ok(), 8);
		claims = vec![];
		let with = s.iter().map(|c| (c, None)).chain(m.iter().map(|b| (&b.constraint_set, Some(&b.eq_ind_challenges[..]))));
		for (c, pt) in with {
			sums(&probe, c, pt, &com, |t| check(t, 9));
			for &id in &c.oracle_ids {
				let t = table(&probe, id, &com);
				let q = point::<F>([2, 0][round], c.n_vars);
				claims.push(Claim { id, eval: mle(&t, &q), eval_point: q.into() });
				tables.push((id, t));
			}
		}
		if claims.is_empty() {
			break;
		}
	}
	drop(p);
	for (id, t) in &tables {
		let x = w.get_multilin_poly(*id).unwrap();
		check(1 << x.n_vars() == t.len(), 31);
		for i in 0..t.len() {
			check(x.evaluate_on_hypercube(i).unwrap() == t[i], 30);
		}
	}
}
type F16 = BinaryField4b;
macro_rules! cpl {
	($($a:ident $b:ident $c:ident $k:literal;)*) => { harness! { $(
		$a => complete::<F16, F16>($k, &[0]);
		$b => { complete::<F16, PackedBinaryField2x4b>($k, &[2, 0]); complete::<F16, PackedBinaryField2x4b>($k, &[0, 1, 0]); };
		$c => { for p in 1..4 { complete::<F16, PackedBinaryField8x4b>($k, &[p]); } };
	)* } };
}
cpl! {
	h_c22_complete_0 h_c22_completem_0 h_c22_completeb_0 0;
	h_c22_complete_1 h_c22_completem_1 h_c22_completeb_1 1;
	h_c22_complete_2 h_c22_completem_2 h_c22_completeb_2 2;
	h_c22_complete_3 h_c22_completem_3 h_c22_completeb_3 3;
	h_c22_complete_4 h_c22_completem_4 h_c22_completeb_4 4;
	h_c22_complete_5 h_c22_completem_5 h_c22_completeb_5 5;
	h_c22_complete_6 h_c22_completem_6 h_c22_completeb_6 6;
	h_c22_complete_7 h_c22_completem_7 h_c22_completeb_7 7;
	h_c22_complete_8 h_c22_completem_8 h_c22_completeb_8 8;
	h_c22_complete_9 h_c22_completem_9 h_c22_completeb_9 9;
	h_c22_complete_10 h_c22_completem_10 h_c22_completeb_10 10;
	h_c22_complete_11 h_c22_completem_11 h_c22_completeb_11 11;
	h_c22_complete_12 h_c22_completem_12 h_c22_completeb_12 12;
	h_c22_complete_13 h_c22_completem_13 h_c22_completeb_13 13;
	h_c22_complete_14 h_c22_completem_14 h_c22_completeb_14 14;
	h_c22_complete_15 h_c22_completem_15 h_c22_completeb_15 15;
	h_c22_complete_16 h_c22_completem_16 h_c22_completeb_16 16;
	h_c22_complete_17 h_c22_completem_17 h_c22_completeb_17 17;
	h_c22_complete_18 h_c22_completem_18 h_c22_completeb_18 18;
	h_c22_complete_19 h_c22_completem_19 h_c22_completeb_19 19;
	h_c22_complete_20 h_c22_completem_20 h_c22_completeb_20 20;
	h_c22_complete_21 h_c22_completem_21 h_c22_completeb_21 21;
	h_c22_complete_22 h_c22_completem_22 h_c22_completeb_22 22;
	h_c22_complete_23 h_c22_completem_23 h_c22_completeb_23 23;
	h_c22_complete_24 h_c22_completem_24 h_c22_completeb_24 24;
}
