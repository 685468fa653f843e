//! Grand products and exponentiations by GKR.
use bytes::{Buf, BufMut};
use binius_core::{
	oracle::{MultilinearOracleSet, OracleId},
	fiat_shamir::CanSample,
	protocols::{gkr_exp, gkr_gpa},
	transcript::{ProverTranscript, VerifierTranscript},
	witness::MultilinearWitness,
};
use binius_field::*;
use binius_hal::make_portable_backend;
use binius_math::*;
use fref::*;
use symapi::*;

type G = BinaryField4b;
type B1 = BinaryField1b;

/// a challenger with fixed challenges of which every nibble is a primitive element of GF(16), so that small powers differ (a change of one coefficient
/// shows) and no eq-ind challenge is 0 or 1, whatever is observed
#[derive(Clone, Debug)]
pub struct Fy {
	x: u64,
	b: [u8; 8],
	i: usize,
	sink: Vec<u8>,
	t: [u8; 8],
}
impl Default for Fy {
	fn default() -> Self {
		Self { x: 0x9e3779b97f4a7c15, b: [0; 8], i: 8, sink: Vec::new(), t: prims() }
	}
}
impl Buf for Fy {
	fn remaining(&self) -> usize {
		usize::MAX
	}
	fn chunk(&self) -> &[u8] {
		&self.b[self.i..]
	}
	fn advance(&mut self, mut n: usize) {
		while n > 0 {
			let k = n.min(8 - self.i);
			self.i += k;
			n -= k;
			self.fill();
		}
	}
}
fn prims() -> [u8; 8] {
	let mut n = 0;
	let mut t = [0; 8];
	for b in 2..16u8 {
		let x = G::new(binius_field::underlier::U4::new(b));
		if x.pow(3) != G::ONE && x.pow(5) != G::ONE {
			t[n] = b;
			n += 1;
		}
	}
	t
}
impl Fy {
	fn fill(&mut self) {
		if self.i == 8 {
			self.x ^= self.x << 13;
			self.x ^= self.x >> 7;
			self.x ^= self.x << 17;
			self.b = self.x.wrapping_mul(0x2545f4914f6cdd1d).to_le_bytes().map(|b| self.t[b as usize & 7] | self.t[b as usize >> 4 & 7] << 4);
			self.i = 0;
		}
	}
}
impl binius_core::fiat_shamir::Challenger for Fy {
	fn sampler(&mut self) -> &mut impl Buf {
		self.fill();
		self
	}
	fn observer(&mut self) -> &mut impl BufMut {
		&mut self.sink
	}
}

fn order(hi: bool) -> EvaluationOrder {
	if hi { EvaluationOrder::HighToLow } else { EvaluationOrder::LowToHigh }
}
fn pack<P: PackedField>(v: &[P::Scalar]) -> Vec<P> {
	v.chunks(P::WIDTH).map(|c| P::from_scalars(c.iter().copied())).collect()
}
fn at<F: Field>(v: &[F], r: &[F]) -> F {
	let mut s = F::ZERO;
	for (i, x) in v.iter().enumerate() {
		let mut w = *x;
		for (j, c) in r.iter().enumerate() {
			w *= if i >> j & 1 == 1 { *c } else { F::ONE - *c };
		}
		s += w;
	}
	s
}
fn c<F: TowerField>(i: usize) -> F {
	let n = F::N_BITS.min(1 << F::TOWER_LEVEL);
	let mut x = <F as TowerField>::basis(0, (i * 7 + 1) % n).unwrap();
	for j in 0..n {
		if (i * 11 + j * j * 5 + j) % 7 < 3 {
			x += <F as TowerField>::basis(0, j).unwrap();
		}
	}
	if x == F::ZERO || x == F::ONE { x + <F as TowerField>::basis(0, n - 1).unwrap() } else { x }
}
/// A transcript of scalars, and a change to one of them
fn change<F: TowerField>(proof: &mut Vec<u8>, claims: &mut [F]) -> u32 {
	let w = (F::N_BITS / 8).max(1);
	let n = proof.len() / w;
	let i = any_below(n + claims.len());
	let d = any_f::<F>();
	assume(d != F::ZERO);
	if i < claims.len() {
		claims[i] += d;
		return i as u32;
	}
	let at = i as u32;
	let i = (i - claims.len()) * w;
	let mut d_bytes = vec![];
	SerializeBytes::serialize(&d, &mut d_bytes, SerializationMode::CanonicalTower).unwrap();
	for (a, b) in proof[i..i + w].iter_mut().zip(&d_bytes) {
		*a ^= b;
	}
	at
}
use binius_utils::{SerializationMode, SerializeBytes};

/// grand products of tables of 2^n values, of which `len` are given and the rest are one
fn gpa<P, FD, F>(sh: &[(usize, usize)], hi: bool, bits: usize, forge: bool)
where
	F: TowerField + ExtensionField<FD>,
	P: PackedField<Scalar = F> + PackedExtension<FD>,
	FD: BinaryField,
{
	let mut k = 0;
	let tabs: Vec<Vec<F>> = sh
		.iter()
		.map(|(n, len)| {
			(0..1 << n)
				.map(|i| {
					k += 1;
					if i >= *len {
						return F::ONE;
					}
					let mut v = c::<F>(k);
					for b in 0..if bits == 9 { (k % 7 == 3) as usize } else { bits } {
						if any_u8() & 1 == 1 {
							v += c::<F>(k + 5 + b);
						}
					}
					v
				})
				.collect()
		})
		.collect();
	let wit: Vec<gkr_gpa::GrandProductWitness<P>> = sh
		.iter()
		.zip(&tabs)
		.map(|((n, len), t)| gkr_gpa::GrandProductWitness::new(*n, pack::<P>(&t[..*len])).unwrap())
		.collect();
	let mut prods = vec![];
	for (w, t) in wit.iter().zip(&tabs) {
		let p = t.iter().fold(F::ONE, |a, b| a * *b);
		check(w.grand_product_evaluation() == p, 1);
		check(w.n_vars() == t.len().ilog2() as usize, 2);
		prods.push(p);
	}
	let claim = |p: &[F]| -> Vec<_> {
		sh.iter().zip(p).map(|((n, _), p)| gkr_gpa::GrandProductClaim { n_vars: *n, product: *p }).collect()
	};
	let be = make_portable_backend();
	let df = DefaultEvaluationDomainFactory::<FD>::default();
	let mut t = ProverTranscript::<Fy>::new();
	let out = gkr_gpa::batch_prove(order(hi), wit.clone(), &claim(&prods), df.clone(), &mut t, &be).unwrap();
	if forge {
		let mut proof = t.finalize();
		let at_ = change(&mut proof, &mut prods);
		let mut v = VerifierTranscript::<Fy>::new(proof);
		if let Ok(got) = gkr_gpa::batch_verify(order(hi), claim(&prods), &mut v) {
			let mut all = true;
			for (g, t) in got.iter().zip(&tabs) {
				all &= at(t, &g.eval_point) == g.eval;
			}
			check(!all, 100 + at_ as u64);
		}
		return;
	}
	let mut v = t.into_verifier();
	let got = gkr_gpa::batch_verify(order(hi), claim(&prods), &mut v);
	check(got.is_ok(), 4);
	let got = got.unwrap();
	check(v.finalize().is_ok(), 5);
	check(got.len() == sh.len() && out.final_layer_claims.len() == sh.len(), 6);
	for i in 0..sh.len() {
		check(got[i].eval_point.len() == sh[i].0, 7);
		check(got[i].eval_point == out.final_layer_claims[i].eval_point, 8);
		check(got[i].eval == out.final_layer_claims[i].eval, 9);
		check(at(&tabs[i], &got[i].eval_point) == got[i].eval, 10);
	}
	let mut set = MultilinearOracleSet::<F>::new();
	let ids: Vec<OracleId> = sh.iter().map(|(n, _)| set.add_committed(*n, F::TOWER_LEVEL)).collect();
	let cl = gkr_gpa::construct_grand_product_claims(&ids, &set, &prods).unwrap();
	for (i, x) in claim(&prods).iter().enumerate() {
		check(cl[i].n_vars == x.n_vars && cl.len() == sh.len(), 12);
		check(cl[i].product == x.product, 13);
	}
	let g = gkr_gpa::get_grand_products_from_witnesses::<_, F>(&wit);
	for (a, b) in g.iter().zip(&prods) {
		check(*a == *b, 16);
	}
	let ec = gkr_gpa::make_eval_claims(ids.clone(), got.clone()).unwrap();
	for (i, e) in ec.iter().enumerate() {
		check(e.id == ids[i] && e.eval_point.to_vec() == got[i].eval_point, 14);
		check(e.eval == got[i].eval, 15);
	}
	// a wrong product is not proved
	if let Some(p) = prods.first_mut() {
		*p += F::ONE;
		let mut t = ProverTranscript::<Fy>::new();
		check(gkr_gpa::batch_prove(order(hi), wit, &claim(&prods), df, &mut t, &be).is_err(), 11);
	}
}

/// (variables, exponent bits, static base, claimed at point)
type Exp = (usize, usize, bool, usize);
fn exp<P, P1, F>(sh: &[Exp], hi: bool, sym: usize, forge: bool)
where
	F: TowerField,
	P: PackedField<Scalar = F> + PackedExtension<F, PackedSubfield = P> + RepackedExtension<P1> + RepackedExtension<P>,
	P1: PackedField<Scalar = B1>,
{
	let bit = |on: bool, i: usize| -> B1 {
		if on { any_f::<B1>() } else { B1::from(i * 5 % 7 < 3) }
	};
	// columns
	let mut k = 0;
	let bits: Vec<Vec<Vec<B1>>> = sh
		.iter()
		.map(|(n, w, _, _)| {
			(0..*w)
				.map(|_| {
					(0..1 << n)
						.map(|_| {
							k += 1;
							bit(k % sym == 0, k)
						})
						.collect()
				})
				.collect()
		})
		.collect();
	let base: Vec<Vec<F>> = sh
		.iter()
		.map(|(n, _, st, _)| {
			if *st {
				return vec![c::<F>(n + 2); 1 << n];
			}
			(0..1 << n)
				.map(|i| {
					k += 1;
					c::<F>(i + k) + F::from(bit(k % sym == 0, k))
				})
				.collect()
		})
		.collect();
	let wit: Vec<gkr_exp::BaseExpWitness<P>> = sh
		.iter()
		.enumerate()
		.map(|(i, (n, _, st, _))| {
			let e: Vec<MultilinearWitness<P>> = bits[i]
				.iter()
				.map(|b| MLEEmbeddingAdapter::<P1, P, _>::from(MultilinearExtension::new(*n, pack::<P1>(b)).unwrap()).upcast_arc_dyn())
				.collect();
			if *st {
				gkr_exp::BaseExpWitness::new_with_static_base::<P>(e, base[i][0]).unwrap()
			} else {
				let b = MLEDirectAdapter::from(MultilinearExtension::new(*n, pack::<P>(&base[i])).unwrap()).upcast_arc_dyn();
				gkr_exp::BaseExpWitness::new_with_dynamic_base::<P>(e, b).unwrap()
			}
		})
		.collect();
	let mut evals = vec![];
	let mut points = vec![];
	for (i, (n, w, _, p)) in sh.iter().enumerate() {
		let r = wit[i].exponentiation_result_witness();
		let mut res = vec![];
		for j in 0..1 << n {
			let mut x = F::ONE;
			let mut b = base[i][j];
			for l in 0..*w {
				let y = F::from(bits[i][l][j]);
				x *= F::ONE + y * (b + F::ONE);
				b = b * b;
			}
			check(r.evaluate_on_hypercube(j).unwrap() == x, 1);
			res.push(x);
		}
		let pt: Vec<F> = (0..*n).map(|j| c::<F>(3 + p * 5 + j * 2)).collect();
		evals.push(at(&res, &pt));
		points.push(pt);
	}
	let claim = |e: &[F]| -> Vec<_> {
		sh.iter()
			.enumerate()
			.map(|(i, (n, w, st, _))| gkr_exp::ExpClaim {
				eval_point: points[i].clone(),
				eval: e[i],
				exponent_bit_width: *w,
				n_vars: *n,
				static_base: st.then(|| base[i][0]),
			})
			.collect()
	};
	// the claims of layer l, in order: of the bits, and the base if it is not constant
	let truth = |l: &[Vec<gkr_exp::LayerClaim<F>>]| -> bool {
		let mut all = true;
		let most = sh.iter().map(|s| s.1).max().unwrap_or(0);
		check(l.len() == most, 2);
		for (no, l) in l.iter().enumerate() {
			let mut it = l.iter();
			for (i, (n, w, st, _)) in sh.iter().enumerate() {
				if no >= *w {
					continue;
				}
				let g = it.next().unwrap();
				check(g.eval_point.len() == *n, 3);
				let b = &bits[i][if *st { w - 1 - no } else { no }];
				let b: Vec<F> = b.iter().map(|x| F::from(*x)).collect();
				all &= at(&b, &g.eval_point) == g.eval;
				if !st {
					let g = it.next().unwrap();
					all &= at(&base[i], &g.eval_point) == g.eval;
				}
			}
			check(it.next().is_none(), 4);
		}
		all
	};
	let be = make_portable_backend();
	let df = DefaultEvaluationDomainFactory::<F>::default();
	let mut t = ProverTranscript::<Fy>::new();
	let out = gkr_exp::batch_prove(order(hi), wit.clone(), &claim(&evals), df.clone(), &mut t, &be).unwrap();
	if forge {
		let mut proof = t.finalize();
		let at_ = change(&mut proof, &mut evals);
		let mut v = VerifierTranscript::<Fy>::new(proof);
		if let Ok(got) = gkr_exp::batch_verify(order(hi), &claim(&evals), &mut v) {
			check(!truth(&got.layers_claims), 100 + at_ as u64);
		}
		return;
	}
	let mut v = t.into_verifier();
	let got = gkr_exp::batch_verify(order(hi), &claim(&evals), &mut v);
	check(got.is_ok(), 6);
	let got = got.unwrap();
	check(v.finalize().is_ok(), 7);
	check(truth(&got.layers_claims), 8);
	for (a, b) in got.layers_claims.iter().zip(&out.layers_claims) {
		check(a.len() == b.len(), 9);
		for (a, b) in a.iter().zip(b) {
			check(a.eval_point == b.eval_point, 10);
			check(a.eval == b.eval, 11);
		}
	}
	check(got.layers_claims.len() == out.layers_claims.len(), 12);
	// claims on the oracles of the columns
	if sh.iter().any(|s| s.3 != 0) {
		return;
	}
	let mut set = MultilinearOracleSet::<F>::new();
	let mut cols: Vec<(OracleId, Vec<F>)> = vec![];
	let mut metas = vec![];
	let mut dynb = vec![];
	for (i, (n, _, st, _)) in sh.iter().enumerate() {
		let mut m = vec![];
		for b in &bits[i] {
			let id = set.add_committed(*n, 0);
			cols.push((id, b.iter().map(|x| F::from(*x)).collect()));
			m.push(id);
		}
		metas.push(m);
		dynb.push(if *st {
			None
		} else {
			let id = set.add_committed(*n, F::TOWER_LEVEL);
			cols.push((id, base[i].clone()));
			Some(id)
		});
	}
	let most = points.iter().max_by_key(|p| p.len()).cloned().unwrap_or_default();
	let same = gkr_exp::construct_gkr_exp_claims(&metas, &evals, sh.iter().enumerate().map(|(i, s)| s.2.then(|| base[i][0])).collect(), &set, &most).unwrap();
	let e2 = gkr_exp::get_evals_in_point_from_witnesses(&wit, &most).unwrap();
	for (i, x) in claim(&evals).iter().enumerate() {
		check(same[i].eval_point == x.eval_point && same[i].n_vars == x.n_vars && same[i].exponent_bit_width == x.exponent_bit_width, 13);
		check(same[i].eval == x.eval, 14);
		check(same[i].static_base == x.static_base, 14);
		check(e2[i] == x.eval, 15);
	}
	let ec = gkr_exp::make_eval_claims(metas.clone(), got, dynb).unwrap();
	check(ec.len() == sh.iter().map(|s| s.1 * if s.2 { 1 } else { 2 }).sum::<usize>(), 16);
	for e in &ec {
		let (_, v) = cols.iter().find(|x| x.0 == e.id).unwrap();
		check(e.eval_point.len() == v.len().ilog2() as usize, 17);
		check(at(v, &e.eval_point.to_vec()) == e.eval, 18);
	}
	for m in metas.iter().flatten() {
		check(ec.iter().any(|e| e.id == *m), 19);
	}
}
/// static exponents of more bits than a word
fn wide() {
	type P = PackedBinaryField1x128b;
	type X = BinaryField128b;
	let n = 67;
	let bits: Vec<Vec<B1>> = (0..n).map(|i| vec![B1::from(i % 3 == 0), if i > 63 { any_f::<B1>() } else { B1::from(i % 5 == 1) }]).collect();
	let e: Vec<MultilinearWitness<P>> = bits
		.iter()
		.map(|b| MLEEmbeddingAdapter::<PackedBinaryField128x1b, P, _>::from(MultilinearExtension::new(1, pack::<PackedBinaryField128x1b>(b)).unwrap()).upcast_arc_dyn())
		.collect();
	let g = X::MULTIPLICATIVE_GENERATOR;
	let w = gkr_exp::BaseExpWitness::new_with_static_base::<P>(e, g).unwrap();
	let r = w.exponentiation_result_witness();
	let pt = c::<X>(3);
	let v: Vec<X> = (0..2).map(|i| r.evaluate_on_hypercube(i).unwrap()).collect();
	let claims = [gkr_exp::ExpClaim { eval_point: vec![pt], eval: at(&v, &[pt]), exponent_bit_width: n, n_vars: 1, static_base: Some(g) }];
	let be = make_portable_backend();
	let df = DefaultEvaluationDomainFactory::<BinaryField8b>::default();
	let mut t = ProverTranscript::<Fy>::new();
	gkr_exp::batch_prove(order(true), [w], &claims, df, &mut t, &be).unwrap();
	let mut v = t.into_verifier();
	check(gkr_exp::batch_verify(order(true), &claims, &mut v).is_ok(), 1);
}
type R = PackedBinaryField2x4b;
type R1 = PackedBinaryField8x1b;
type T = PackedBinaryField8x4b;
type T1 = PackedBinaryField32x1b;
harness! {
	h_c24_gpa_0 => gpa::<R, G, G>(&[(0, 1)], false, 4, false);
	h_c24_gpa_1 => gpa::<R, G, G>(&[(1, 2)], false, 4, false);
	h_c24_gpa_2 => gpa::<R, G, G>(&[(2, 4)], true, 2, false);
	h_c24_gpa_2l => gpa::<R, G, G>(&[(2, 4)], false, 2, false);
	h_c24_gpa_3 => gpa::<R, G, G>(&[(3, 8)], true, 1, false);
	h_c24_gpa_3l => gpa::<R, G, G>(&[(3, 8)], false, 1, false);
	h_c24_gpa_4 => gpa::<T, G, G>(&[(4, 16)], true, 1, false);
	h_c24_gpa_4l => gpa::<T, G, G>(&[(4, 16)], false, 1, false);
	h_c24_gpa_cut => gpa::<R, G, G>(&[(3, 6)], true, 1, false);
	h_c24_gpa_cut2 => gpa::<R, G, G>(&[(3, 2)], true, 2, false);
	h_c24_gpa_cut0 => gpa::<R, G, G>(&[(2, 0)], true, 2, false);
	h_c24_gpa_batch => gpa::<R, G, G>(&[(1, 2), (3, 8), (0, 1), (2, 4), (3, 6)], true, 1, false);
	h_c24_gpa_batchl => gpa::<R, G, G>(&[(2, 4), (0, 1), (2, 4), (3, 8)], false, 1, false);
	h_c24_gpa_t => gpa::<T, G, G>(&[(1, 2), (2, 4), (3, 8)], true, 1, false);
	h_c24_gpa_none => gpa::<T, G, G>(&[], true, 1, false);
	h_c24_gpa_forge_2 => { merge(false); gpa::<R, G, G>(&[(2, 4)], true, 1, true); };
	h_c24_gpa_forge_2l => { merge(false); gpa::<R, G, G>(&[(2, 4)], false, 1, true); };
	h_c24_gpa_forge_b => { merge(false); gpa::<R, G, G>(&[(1, 2), (2, 4)], true, 0, true); };
	h_c24_gpa_5 => gpa::<T, G, G>(&[(5, 32), (3, 8)], true, 9, false);
	h_c24_gpa_5l => gpa::<T, G, G>(&[(5, 24)], false, 9, false);
	h_c24_gpa_x => { exact(true); gpa::<PackedBinaryField1x128b, BinaryField8b, BinaryField128b>(&[(2, 4), (1, 2)], true, 1, false); };
	h_c24_gpa_x2 => { exact(true); gpa::<PackedBinaryField2x128b, BinaryField8b, BinaryField128b>(&[(2, 2)], false, 1, false); };
	h_c24_gpa_forge_c => { merge(false); gpa::<R, G, G>(&[(2, 4), (2, 2), (0, 1), (1, 2)], true, 0, true); };
	h_c24_gpa_forge_bl => { merge(false); gpa::<R, G, G>(&[(1, 2), (2, 4)], false, 0, true); };
	h_c24_gpa_forge_3 => { merge(false); gpa::<R, G, G>(&[(3, 8)], true, 0, true); };
	h_c24_exp_s1 => exp::<R, R1, G>(&[(1, 1, true, 0)], true, 1, false);
	h_c24_exp_s2 => exp::<R, R1, G>(&[(1, 2, true, 0)], true, 1, false);
	h_c24_exp_s3 => exp::<R, R1, G>(&[(2, 3, true, 0)], false, 1, false);
	h_c24_exp_s4 => exp::<R, R1, G>(&[(3, 4, true, 0)], true, 1, false);
	h_c24_exp_d1 => exp::<R, R1, G>(&[(1, 1, false, 0)], true, 1, false);
	h_c24_exp_d2 => exp::<R, R1, G>(&[(2, 2, false, 0)], true, 1, false);
	h_c24_exp_d3 => exp::<R, R1, G>(&[(2, 3, false, 0)], false, 1, false);
	h_c24_exp_0 => exp::<R, R1, G>(&[(0, 2, false, 0), (0, 3, true, 0)], true, 1, false);
	h_c24_exp_mix => exp::<R, R1, G>(&[(2, 3, false, 0), (2, 2, true, 0), (2, 1, true, 0)], true, 2, false);
	h_c24_exp_mixl => exp::<R, R1, G>(&[(2, 2, true, 0), (2, 3, false, 1), (1, 2, true, 0)], false, 2, false);
	h_c24_exp_pts => exp::<R, R1, G>(&[(2, 1, true, 0), (2, 3, true, 1), (2, 2, false, 1), (1, 1, true, 0), (1, 2, false, 0)], true, 2, false);
	h_c24_exp_t => exp::<T, T1, G>(&[(3, 2, false, 0), (2, 3, true, 0)], true, 2, false);
	h_c24_exp_none => exp::<T, T1, G>(&[], true, 1, false);
	h_c24_exp_wide => wide();
	h_c24_exp_x => { exact(true); exp::<PackedBinaryField1x128b, PackedBinaryField128x1b, BinaryField128b>(&[(1, 2, true, 0), (1, 2, false, 0)], true, 1, false); };
	h_c24_exp_5 => exp::<T, T1, G>(&[(4, 3, true, 0), (3, 3, false, 0), (3, 4, true, 0)], false, 2, false);
	h_c24_exp_5h => exp::<T, T1, G>(&[(4, 4, false, 0), (2, 3, false, 0), (2, 4, true, 0)], true, 2, false);
	h_c24_exp_forge_p => { merge(false); exp::<R, R1, G>(&[(2, 3, true, 0), (2, 2, true, 1), (1, 1, false, 0)], false, 5, true); };
	h_c24_exp_forge_d3 => { merge(false); exp::<R, R1, G>(&[(2, 3, false, 0)], true, 5, true); };
	h_c24_exp_forge_s => { merge(false); exp::<R, R1, G>(&[(1, 3, true, 0)], true, 5, true); };
	h_c24_exp_forge_d => { merge(false); exp::<R, R1, G>(&[(1, 2, false, 0)], false, 5, true); };
	h_c24_exp_forge_m => { merge(false); exp::<R, R1, G>(&[(2, 2, true, 0), (1, 2, false, 0)], true, 5, true); };
}
