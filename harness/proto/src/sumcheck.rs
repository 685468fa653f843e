//! C15: the sumcheck / eq-ind sumcheck / zerocheck verifiers against the protocols' definition.
use crate::mock::*;
use binius_core::{
	fiat_shamir::{CanSample, Challenger, HasherChallenger},
	protocols::sumcheck::{
		self, BatchSumcheckOutput, CompositeSumClaim, EqIndSumcheckClaim, RoundCoeffs, RoundProof, SumcheckClaim, ZerocheckClaim,
		eq_ind::{self, ClaimsSortingOrder},
		front_loaded::BatchVerifier,
	},
	transcript::VerifierTranscript,
};
use binius_field::*;
use binius_math::{ArithCircuit, CompositionPoly, EvaluationOrder};
use fref::*;
use symapi::*;


/// compositions over two or three multilinears
#[derive(Clone, Copy, Debug)]
pub enum Cp {
	Sum2,
	Mul2,
	Cube2, // x^2 y + x
	Mul3,
	Lin3, // x + y z
	Id1,
	Sq1,
}
impl Cp {
	pub fn nv(self) -> usize {
		match self {
			Cp::Id1 | Cp::Sq1 => 1,
			Cp::Sum2 | Cp::Mul2 | Cp::Cube2 => 2,
			_ => 3,
		}
	}
	pub fn deg(self) -> usize {
		match self {
			Cp::Sum2 | Cp::Id1 => 1,
			Cp::Mul2 | Cp::Lin3 | Cp::Sq1 => 2,
			_ => 3,
		}
	}
	pub fn ev<P: PackedField>(self, q: &[P]) -> P {
		match self {
			Cp::Id1 => q[0],
			Cp::Sq1 => q[0] * q[0],
			Cp::Sum2 => q[0] + q[1],
			Cp::Mul2 => q[0] * q[1],
			Cp::Cube2 => q[0] * q[0] * q[1] + q[0],
			Cp::Mul3 => q[0] * q[1] * q[2],
			Cp::Lin3 => q[0] + q[1] * q[2],
		}
	}
}
impl<P: PackedField> CompositionPoly<P> for Cp {
	fn n_vars(&self) -> usize {
		self.nv()
	}
	fn degree(&self) -> usize {
		self.deg()
	}
	fn binary_tower_level(&self) -> usize {
		0
	}
	fn expression(&self) -> ArithCircuit<P::Scalar> {
		let v = |i| ArithCircuit::var(i);
		match self {
			Cp::Id1 => v(0),
			Cp::Sq1 => v(0) * v(0),
			Cp::Sum2 => v(0) + v(1),
			Cp::Mul2 => v(0) * v(1),
			Cp::Cube2 => v(0) * v(0) * v(1) + v(0),
			Cp::Mul3 => v(0) * v(1) * v(2),
			Cp::Lin3 => v(0) + v(1) * v(2),
		}
	}
	fn evaluate(&self, q: &[P]) -> Result<P, binius_math::Error> {
		if q.len() != self.nv() {
			return Err(binius_math::Error::IncorrectQuerySize { expected: self.nv(), actual: q.len() });
		}
		Ok(self.ev(q))
	}
}

pub type Shape = (usize, usize, &'static [Cp]);

fn tape<C: Challenger + Default>(n: usize) -> VerifierTranscript<C> {
	VerifierTranscript::new((0..n).map(|_| any::<1>()[0]).collect())
}
fn pw<F: Field>(x: F, n: usize) -> F {
	let mut r = F::ONE;
	for _ in 0..n {
		r *= x;
	}
	r
}
fn rd<F: TowerField>(v: &mut VerifierTranscript<impl Challenger>, n: usize) -> Option<Vec<F>> {
	v.message().read_scalar_slice(n).ok()
}
/// value at c of the polynomial with the given low coefficients, the leading one fixed by r(0)+r(1)=s
fn round<F: Field>(a: &[F], s: F, c: F) -> F {
	let d = a.len();
	// r(0) + r(1) = a_0 + (a_0 + ... + a_d)
	let mut lead = s;
	for x in &a[1..] {
		lead -= *x;
	}
	let mut r = lead * pw(c, d);
	for (i, x) in a.iter().enumerate() {
		r += *x * pw(c, i);
	}
	r
}
/// (weight sum) alpha_k * Σ alpha_k^i v_i
fn weigh<F: Field>(al: F, v: impl Iterator<Item = F>) -> F {
	let mut p = al;
	let mut r = F::ZERO;
	for x in v {
		r += p * x;
		p *= al;
	}
	r
}
struct Cl<F: Field> {
	n: usize,
	m: usize,
	cs: Vec<(Cp, F)>,
}
fn claims<F: BinaryField>(sh: &[Shape]) -> (Vec<Cl<F>>, Vec<SumcheckClaim<F, Cp>>) {
	let r: Vec<Cl<F>> = sh.iter().map(|&(n, m, cs)| Cl { n, m, cs: cs.iter().map(|c| (*c, any_f())).collect() }).collect();
	let c = r
		.iter()
		.map(|c| SumcheckClaim::new(c.n, c.m, c.cs.iter().map(|&(composition, sum)| CompositeSumClaim { composition, sum }).collect()).unwrap())
		.collect();
	(r, c)
}
fn deg(c: &[(Cp, impl Sized)]) -> usize {
	c.iter().map(|c| c.0.deg()).max().unwrap_or(0)
}
type Out<F> = Option<(Vec<F>, Vec<Vec<F>>)>;

/// the batched protocol: claims by descending size, batched in when their rounds begin
fn ref_back<F: TowerField>(cl: &[Cl<F>], v: &mut VerifierTranscript<impl Challenger>) -> Out<F> {
	let n = cl.iter().map(|c| c.n).max().unwrap_or(0);
	let (mut s, mut d, mut al, mut ch) = (F::ZERO, 0, vec![], vec![]);
	for i in 0..=n {
		for c in cl.iter().filter(|c| c.n == n - i) {
			let a: F = v.sample();
			s += weigh(a, c.cs.iter().map(|c| c.1));
			al.push(a);
			d = d.max(deg(&c.cs));
		}
		if i < n {
			let a = rd::<F>(v, d)?;
			let r: F = v.sample();
			s = round(&a, s, r);
			ch.push(r);
		}
	}
	let mut ev = vec![];
	for c in cl {
		ev.push(rd::<F>(v, c.m)?);
	}
	let mut e = F::ZERO;
	for k in 0..cl.len() {
		e += weigh(al[k], cl[k].cs.iter().map(|c| c.0.ev(&ev[k])));
	}
	(s == e).then_some((ch, ev))
}
fn cmp<F: BinaryField, C: Challenger>(got: Result<BatchSumcheckOutput<F>, sumcheck::Error>, want: Out<F>, rev: bool, v: VerifierTranscript<C>, w: VerifierTranscript<C>) {
	check(got.is_ok() == want.is_some(), 1);
	if let (Ok(g), Some((mut ch, ev))) = (got, want) {
		cover(1);
		if rev {
			ch.reverse();
		}
		check(g.challenges == ch, 2);
		check(g.multilinear_evals == ev, 3);
		// the whole proof was consumed and the transcripts are in step
		let (mut v, mut w) = (v, w);
		let a: BinaryField8b = v.sample();
		let b: BinaryField8b = w.sample();
		check(a == b, 4);
		check(v.finalize().is_ok(), 5);
	} else {
		cover(2);
	}
}
fn size(sh: &[Shape], front: bool) -> usize {
	// field elements in the proof: evals + round messages
	let n = sh.iter().map(|c| c.0).max().unwrap_or(0);
	let mut t: usize = sh.iter().map(|c| c.1).sum();
	for i in 0..n {
		t += sh
			.iter()
			.filter(|c| if front { c.0 > i } else { c.0 >= n - i })
			.map(|c| c.2.iter().map(|c| c.deg()).max().unwrap_or(0))
			.max()
			.unwrap();
	}
	t
}
fn bytes<F: BinaryField>() -> usize {
	F::N_BITS.div_ceil(8)
}
fn back<F: TowerField + BinaryField, C: Challenger + Default + Clone>(sh: &[Shape]) {
	merge(false);
	expect(1);
	expect(2);
	let (r, c) = claims::<F>(sh);
	let mut v = tape::<C>(size(sh, false) * bytes::<F>());
	let mut w = v.clone();
	let hi = any_below(2) == 1;
	let o = if hi { EvaluationOrder::HighToLow } else { EvaluationOrder::LowToHigh };
	let g = sumcheck::batch_verify(o, &c, &mut v);
	let e = ref_back(&r, &mut w);
	cmp(g, e, hi, v, w);
}
fn ref_front<F: TowerField>(cl: &[Cl<F>], al: Vec<F>, s: F, v: &mut VerifierTranscript<impl Challenger>) -> Out<F> {
	let n = cl.iter().map(|c| c.n).max().unwrap_or(0);
	let (mut s, mut ch, mut ev) = (s, vec![], vec![]);
	for i in 0..=n {
		for (k, c) in cl.iter().enumerate().filter(|(_, c)| c.n == i) {
			let e = rd::<F>(v, c.m)?;
			s -= weigh(al[k], c.cs.iter().map(|c| c.0.ev(&e)));
			ev.push(e);
		}
		if i < n {
			let d = cl.iter().filter(|c| c.n > i).map(|c| deg(&c.cs)).max().unwrap();
			let a = rd::<F>(v, d)?;
			let r: F = v.sample();
			s = round(&a, s, r);
			ch.push(r);
		}
	}
	(s == F::ZERO).then_some((ch, ev))
}
fn front<F: TowerField + BinaryField, C: Challenger + Default + Clone>(sh: &[Shape]) {
	merge(false);
	expect(1);
	expect(2);
	let (r, c) = claims::<F>(sh);
	let mut v = tape::<C>(size(sh, true) * bytes::<F>());
	let mut w = v.clone();
	let b = BatchVerifier::new(&c, &mut v).unwrap();
	check(b.remaining_claims() == sh.len() && b.total_rounds() == sh.iter().map(|c| c.0).max().unwrap_or(0), 6);
	let g = b.run(&mut v);
	let al: Vec<F> = (0..r.len()).map(|_| w.sample()).collect();
	let mut s = F::ZERO;
	for (a, c) in al.iter().zip(&r) {
		s += weigh(*a, c.cs.iter().map(|c| c.1));
	}
	let e = ref_front(&r, al, s, &mut w);
	cmp(g, e, false, v, w);
}
/// truncated proofs are rejected with an error, misordered claims too
fn malformed<F: TowerField + BinaryField, C: Challenger + Default + Clone>(sh: &[Shape], k: usize) {
	merge(false);
	let (_, c) = claims::<F>(sh);
	let n = any_below(k * bytes::<F>());
	let t = tape::<C>(n);
	let asc = sh.windows(2).all(|w| w[0].0 <= w[1].0);
	let desc = sh.windows(2).all(|w| w[0].0 >= w[1].0);
	for o in [EvaluationOrder::HighToLow, EvaluationOrder::LowToHigh] {
		let g = sumcheck::batch_verify(o, &c, &mut t.clone());
		check(desc || g.is_err(), 7);
		check(n >= size(sh, false) * bytes::<F>() || g.is_err(), 8);
	}
	let mut v = t.clone();
	let b = BatchVerifier::new(&c, &mut v);
	check(asc == b.is_ok(), 9);
	if let Ok(b) = b {
		check(n >= size(sh, true) * bytes::<F>() || b.run(&mut v).is_err(), 10);
	}
	check(BatchVerifier::new_prebatched(vec![F::ONE; sh.len() + 1], F::ZERO, &c).is_err(), 11);
}
/// the stepwise interface enforces its call order
fn steps<F: TowerField + BinaryField, C: Challenger + Default + Clone>() {
	let (_, c) = claims::<F>(&[(1, 2, &[Cp::Mul2])]);
	let mut v = tape::<C>(4 * bytes::<F>());
	let mut b = BatchVerifier::new(&c, &mut v).unwrap();
	check(b.finish_round(any_f()).is_err(), 1);
	check(b.try_finish_claim(&mut v.message()).unwrap().is_none(), 2);
	check(b.receive_round_proof(&mut v.message()).is_ok(), 3);
	check(b.receive_round_proof(&mut v.message()).is_err(), 4);
	check(b.finish_round(any_f()).is_ok(), 5);
	check(b.finish_round(any_f()).is_err(), 6);
	check(b.receive_round_proof(&mut v.message()).is_err(), 7);
	if any_below(2) == 0 {
		check(b.finish().is_err(), 8);
	} else {
		check(b.try_finish_claim(&mut v.message()).unwrap().unwrap().len() == 2, 9);
		check(b.remaining_claims() == 0, 10);
		check(b.try_finish_claim(&mut v.message()).unwrap().is_none(), 11);
	}
}
/// round polynomials: truncate / recover / arithmetic
fn coeffs<F: TowerField + BinaryField>(d: usize) {
	let a: Vec<F> = (0..=d).map(|_| any_f()).collect();
	let b: Vec<F> = (0..=d + 1).map(|_| any_f()).collect();
	let s = a[0] + a.iter().copied().sum::<F>();
	let p = RoundCoeffs(a.clone()).truncate();
	check(p.coeffs() == &a[..d], 1);
	check(p.recover(s).0 == a, 2);
	let s: F = any_f();
	let q = RoundProof(RoundCoeffs(a.clone())).recover(s).0;
	check(q.len() == d + 2 && q[..=d] == a && q[0] + q.iter().copied().sum::<F>() == s, 3);
	let e = RoundCoeffs(a.clone()) + &RoundCoeffs(b.clone());
	let f = RoundCoeffs(b.clone()) + &RoundCoeffs(a.clone());
	check(e == f && e.0.len() == d + 2 && e.0[d + 1] == b[d + 1] && (0..=d).all(|i| e.0[i] == a[i] + b[i]), 4);
	let m = RoundCoeffs(a.clone()) * s;
	check((0..=d).all(|i| m.0[i] == a[i] * s), 5);
	let z = binius_core::protocols::sumcheck::verify_sumcheck::interpolate_round_proof(RoundProof(RoundCoeffs(a.clone())), s, b[0]);
	check(z == round(&a, s, b[0]), 6);
}
fn eqf<F: Field>(x: F, y: F) -> F {
	x * y + (F::ONE - x) * (F::ONE - y)
}
/// the eq-ind reduction: the extra multilinear is the equality indicator at the suffix of the point
fn eqind<F: TowerField + BinaryField>(sh: &[Shape], desc: bool) {
	expect(3);
	let cl: Vec<_> = sh
		.iter()
		.map(|&(n, m, cs)| {
			EqIndSumcheckClaim::<F, Cp>::new(n, m, cs.iter().map(|&composition| CompositeSumClaim { composition, sum: any_f() }).collect()).unwrap()
		})
		.collect();
	let red = eq_ind::reduce_to_regular_sumchecks(&cl).unwrap();
	for (r, c) in red.iter().zip(&cl) {
		check(r.n_vars() == c.n_vars() && r.n_multilinears() == c.n_multilinears() + 1, 1);
		check(r.max_individual_degree() == c.max_individual_degree() + 1, 2);
		for (x, y) in r.composite_sums().iter().zip(c.eq_ind_composite_sums()) {
			check(x.sum == y.sum, 3);
			let q: Vec<F> = (0..r.n_multilinears()).map(|_| any_f()).collect();
			let k = q.len() - 1;
			check(x.composition.evaluate(&q).unwrap() == y.composition.ev(&q[..k]) * q[k], 4);
			check(<_ as CompositionPoly<F>>::evaluate(&x.composition, &q[..k]).is_err(), 5);
		}
	}
	let n = sh.iter().map(|c| c.0).max().unwrap_or(0);
	let z: Vec<F> = (0..n).map(|_| any_f()).collect();
	let r: Vec<F> = (0..n).map(|_| any_f()).collect();
	let ev: Vec<Vec<F>> = sh.iter().map(|c| (0..=c.1).map(|_| any_f()).collect()).collect();
	let o = || if desc { ClaimsSortingOrder::DescendingVars } else { ClaimsSortingOrder::AscendingVars };
	let out = |ch: Vec<F>, ev| BatchSumcheckOutput { challenges: ch, multilinear_evals: ev };
	merge(false);
	let g = eq_ind::verify_sumcheck_outputs(o(), &cl, &z, out(r.clone(), ev.clone()));
	let ok = sh.iter().zip(&ev).all(|(c, e)| {
		let mut q = F::ONE;
		for i in n - c.0..n {
			q *= eqf(z[i], r[i]);
		}
		e[c.1] == q
	});
	check(g.is_ok() == ok, 6);
	if let Ok(g) = g {
		cover(3);
		check(g.challenges == r, 7);
		check(g.multilinear_evals.iter().zip(&ev).all(|(a, b)| a[..] == b[..b.len() - 1]), 8);
	}
	// shapes that do not match the claims
	check(eq_ind::verify_sumcheck_outputs(o(), &cl, &[&z[..], &z[..1]].concat(), out(r.clone(), ev.clone())).is_err(), 9);
	let mut sh_ev = ev.clone();
	sh_ev[0].push(F::ZERO);
	check(eq_ind::verify_sumcheck_outputs(o(), &cl, &z, out(r.clone(), sh_ev)).is_err(), 10);
	let mut sh_ev = ev.clone();
	sh_ev.pop();
	check(eq_ind::verify_sumcheck_outputs(o(), &cl, &z, out(r.clone(), sh_ev)).is_err(), 11);
	if sh.len() > 1 && sh[0].0 != sh[sh.len() - 1].0 {
		let o2 = if desc { ClaimsSortingOrder::AscendingVars } else { ClaimsSortingOrder::DescendingVars };
		check(eq_ind::verify_sumcheck_outputs(o2, &cl, &z, out(r, ev)).is_err(), 12);
	}
}
/// Lagrange basis value of point i of the first `pts.len()` domain points at x
fn lag<F: Field>(pts: &[F], i: usize, x: F) -> F {
	let (mut nu, mut de) = (F::ONE, F::ONE);
	for (j, p) in pts.iter().enumerate() {
		if j != i {
			nu *= x - *p;
			de *= pts[i] - *p;
		}
	}
	nu * de.invert().unwrap()
}
fn ref_zero<F: TowerField + Sc>(sh: &[Shape], skip: usize, v: &mut VerifierTranscript<impl Challenger>) -> Option<(Vec<F>, Vec<F>, Vec<F>)> {
	let n = sh.iter().map(|c| c.0).max().unwrap_or(0);
	if n < skip {
		return None;
	}
	let z: Vec<F> = (0..n - skip).map(|_| v.sample()).collect();
	let d = sh.iter().map(|c| c.2.iter().map(|c| c.deg()).max().unwrap_or(0)).max().unwrap_or(0);
	let dom = d << skip;
	let al: Vec<F> = sh.iter().map(|_| v.sample()).collect();
	let k = (1 << skip).min(dom);
	let ev = rd::<F>(v, dom - k)?;
	let u: F = v.sample();
	let pts: Vec<F> = (0..dom).map(|i| F::mk(i as u128)).collect();
	// the univariate round polynomial, zero on the first 2^skip points
	let mut s = F::ZERO;
	for (i, e) in ev.iter().enumerate() {
		s += *e * lag(&pts, k + i, u);
	}
	// front-loaded eq-ind sumcheck of the remaining variables
	let n2 = n - skip;
	let (mut ch, mut evs) = (vec![], vec![]);
	for i in 0..=n2 {
		for (c, a) in sh.iter().zip(&al).filter(|(c, _)| c.0.saturating_sub(skip) == i) {
			let e = rd::<F>(v, c.1 + 1)?;
			s -= weigh(*a, c.2.iter().map(|c| c.ev(&e[..e.len() - 1]) * e[e.len() - 1]));
			evs.push(e);
		}
		if i < n2 {
			let d = sh.iter().filter(|c| c.0.saturating_sub(skip) > i).map(|c| c.2.iter().map(|c| c.deg() + 1).max().unwrap_or(0)).max().unwrap();
			let a = rd::<F>(v, d)?;
			let r: F = v.sample();
			s = round(&a, s, r);
			ch.push(r);
		}
	}
	if s != F::ZERO {
		return None;
	}
	ch.reverse();
	let mut cat = vec![];
	for (c, e) in sh.iter().zip(&evs) {
		let mut q = F::ONE;
		for i in 0..c.0.saturating_sub(skip) {
			q *= eqf(z[n2 - 1 - i], ch[n2 - 1 - i]);
		}
		if e[c.1] != q {
			return None;
		}
		cat.extend(&e[..c.1]);
	}
	// univariatizing reduction: Σ_x M_i(x) L_x(u) = cat_i over the skipped variables
	let b: F = v.sample();
	let mut s = weigh(b, cat.iter().copied());
	let mut sk = vec![];
	for _ in 0..skip {
		let a = rd::<F>(v, if cat.is_empty() { 0 } else { 2 })?;
		let r: F = v.sample();
		s = round(&a, s, r);
		sk.push(r);
	}
	let mut fin = rd::<F>(v, cat.len() + 1)?;
	let l = fin.pop().unwrap();
	if weigh(b, fin.iter().map(|x| *x * l)) != s {
		return None;
	}
	sk.reverse();
	let pts: Vec<F> = (0..1 << skip).map(|i| F::mk(i as u128)).collect();
	let mut e = F::ZERO;
	for i in 0..1 << skip {
		let mut q = lag(&pts, i, u);
		for j in 0..skip {
			q *= if i >> j & 1 == 1 { sk[j] } else { F::ONE - sk[j] };
		}
		e += q;
	}
	(e == l).then_some((sk, ch, fin))
}
fn zsize(sh: &[Shape], skip: usize) -> usize {
	let n = sh.iter().map(|c| c.0).max().unwrap_or(0) - skip;
	let d = |c: &Shape| c.2.iter().map(|c| c.deg()).max().unwrap_or(0);
	let dom = sh.iter().map(d).max().unwrap() << skip;
	let mut t = dom - (1 << skip).min(dom);
	for i in 0..n {
		t += sh.iter().filter(|c| c.0.saturating_sub(skip) > i).map(|c| d(c) + 1).max().unwrap();
	}
	let m: usize = sh.iter().map(|c| c.1).sum();
	t + m + sh.len() + 2 * skip + m + 1
}
fn zero<F: TowerField + Sc + BinaryField, C: Challenger + Default + Clone>(sh: &[Shape], skip: usize) {
	merge(false);
	expect(1);
	expect(2);
	let cl: Vec<_> = sh.iter().map(|&(n, m, cs)| ZerocheckClaim::<F, Cp>::new(n, m, cs.to_vec()).unwrap()).collect();
	let mut v = tape::<C>(zsize(sh, skip) * bytes::<F>());
	let mut w = v.clone();
	let g = sumcheck::batch_verify_zerocheck(&cl, skip, &mut v);
	let e = ref_zero::<F>(sh, skip, &mut w);
	check(g.is_ok() == e.is_some(), 1);
	if let (Ok(g), Some((sk, ch, ev))) = (g, e) {
		cover(1);
		check(g.skipped_challenges == sk, 2);
		check(g.unskipped_challenges == ch, 3);
		check(g.concat_multilinear_evals == ev, 4);
		let a: BinaryField8b = v.sample();
		let b: BinaryField8b = w.sample();
		check(a == b, 5);
		check(v.finalize().is_ok(), 6);
	} else {
		cover(2);
	}
}
fn zmal() {
	type C = Ch;
	merge(false);
	type F = BinaryField4b;
	let sh: [Shape; 2] = [(1, 2, &[Cp::Mul2]), (2, 2, &[Cp::Mul2, Cp::Sum2])];
	let cl: Vec<_> = sh.iter().map(|&(n, m, cs)| ZerocheckClaim::<F, Cp>::new(n, m, cs.to_vec()).unwrap()).collect();
	let bad: Vec<_> = sh.iter().rev().map(|&(n, m, cs)| ZerocheckClaim::<F, Cp>::new(n, m, cs.to_vec()).unwrap()).collect();
	let skip = any_below(3);
	let n = any_below(zsize(&sh, skip));
	let t = tape::<C>(n);
	check(sumcheck::batch_verify_zerocheck(&cl, skip, &mut t.clone()).is_err(), 1);
	check(sumcheck::batch_verify_zerocheck(&bad, skip, &mut t.clone()).is_err(), 2);
	check(sumcheck::batch_verify_zerocheck(&cl, 3, &mut t.clone()).is_err(), 3);
	check(ZerocheckClaim::<F, Cp>::new(2, 3, vec![Cp::Mul2]).is_err(), 4);
	check(SumcheckClaim::<F, Cp>::new(2, 1, vec![CompositeSumClaim { composition: Cp::Mul2, sum: F::ONE }]).is_err(), 5);
	check(EqIndSumcheckClaim::<F, Cp>::new(2, 1, vec![CompositeSumClaim { composition: Cp::Mul2, sum: F::ONE }]).is_err(), 6);
}
use BinaryField2b as D;
use BinaryField4b as G;
use BinaryField8b as B;
type Ch = HasherChallenger<UfHash>;
const A1: &[Shape] = &[(2, 2, &[Cp::Mul2, Cp::Sum2])];
const A2: &[Shape] = &[(0, 1, &[Cp::Sq1]), (1, 2, &[Cp::Cube2]), (2, 1, &[Cp::Id1])];
const A3: &[Shape] = &[(1, 2, &[Cp::Sum2]), (1, 1, &[Cp::Id1]), (2, 3, &[Cp::Lin3])];
const B2: &[Shape] = &[(2, 1, &[Cp::Id1]), (1, 2, &[Cp::Cube2]), (0, 1, &[Cp::Sq1])];
const B3: &[Shape] = &[(1, 2, &[Cp::Mul2]), (1, 1, &[Cp::Id1, Cp::Sq1]), (0, 2, &[Cp::Mul2])];
const Z3: &[Shape] = &[(0, 1, &[Cp::Id1]), (2, 1, &[Cp::Sq1])];
const Z4: &[Shape] = &[(1, 1, &[Cp::Id1]), (2, 2, &[Cp::Cube2, Cp::Sum2])];
harness! {
	h_c15_back_d1 => back::<D, Ch>(A1);
	h_c15_back_d2 => back::<D, Ch>(B2);
	h_c15_back_d3 => back::<D, Ch>(B3);
	h_c15_back_d0 => back::<D, Ch>(&[(0, 2, &[Cp::Mul2, Cp::Sum2])]);
	h_c15_front_d1 => front::<D, Ch>(A1);
	h_c15_front_d2 => front::<D, Ch>(A2);
	h_c15_front_d3 => front::<D, Ch>(A3);
	h_c15_back_f1 => back::<G, Fx>(A1);
	h_c15_back_f2 => back::<G, Fx>(B2);
	h_c15_back_f3 => back::<G, Fx>(B3);
	h_c15_front_f1 => front::<G, Fx>(A1);
	h_c15_front_f2 => front::<G, Fx>(A2);
	h_c15_front_f3 => front::<G, Fx>(A3);
	h_c15_mal_1 => malformed::<G, Ch>(&[(2, 2, &[Cp::Mul2])], 6);
	h_c15_mal_2 => malformed::<G, Ch>(&[(2, 2, &[Cp::Mul2]), (1, 1, &[Cp::Id1])], 8);
	h_c15_mal_3 => malformed::<G, Ch>(&[(0, 1, &[Cp::Id1]), (1, 2, &[Cp::Cube2])], 8);
	h_c15_mal_4 => malformed::<G, Ch>(&[(1, 1, &[Cp::Id1]), (0, 1, &[Cp::Id1]), (1, 1, &[Cp::Id1])], 8);
	h_c15_steps => steps::<G, Ch>();
	h_c15_coeffs => { let d = any_below(3); coeffs::<G>(d + 1) };
	h_c15_eqind_asc => eqind::<G>(&[(0, 1, &[Cp::Id1]), (1, 2, &[Cp::Mul2, Cp::Sum2]), (2, 1, &[Cp::Sq1])], false);
	h_c15_eqind_desc => eqind::<G>(&[(3, 1, &[Cp::Id1]), (1, 2, &[Cp::Mul2]), (1, 1, &[Cp::Id1])], true);
	h_c15_zero_g1_thorough => zero::<G, Ch>(&[(1, 2, &[Cp::Mul2])], 1);
	h_c15_zero_f1 => zero::<G, Fx>(&[(1, 2, &[Cp::Mul2])], 1);
	h_c15_zero_f2 => zero::<G, Fx>(&[(2, 1, &[Cp::Sq1])], 1);
	h_c15_zero_f3 => zero::<G, Fx>(Z3, 1);
	h_c15_zero_f4 => zero::<G, Fx>(Z4, 2);
	h_c15_zero_d0 => zero::<D, Ch>(&[(1, 2, &[Cp::Mul2])], 0);
	h_c15_zero_d1 => zero::<D, Ch>(&[(1, 1, &[Cp::Sq1])], 1);
	h_c15_zmal => zmal();
}
