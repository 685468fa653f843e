//! Evalcheck verifier: what is accepted follows from the claims it hands on.
use crate::mock::*;
use binius_core::{
	oracle::*,
	polynomial::MultivariatePoly,
	protocols::evalcheck::*,
	transcript::{ProverTranscript, VerifierTranscript},
	transparent::MultilinearExtensionTransparent,
};
use binius_field::*;
use binius_math::{ArithCircuit, ArithExpr, CompositionPoly, MultilinearExtension};
use fref::*;
use symapi::*;

pub type Set<F> = MultilinearOracleSet<F>;
pub type Claim<F> = EvalcheckMultilinearClaim<F>;

/// value of the multilinear with the given values on the hypercube
pub fn mle<F: Field>(v: &[F], p: &[F]) -> F {
	let mut v = v.to_vec();
	for x in p.iter().rev() {
		let h = v.len() / 2;
		for i in 0..h {
			v[i] = v[i] + *x * (v[i] + v[h + i]);
		}
		v.truncate(h);
	}
	v[0]
}
pub fn circ<F: Field>(c: &ArithCircuit<F>, q: &[F]) -> F {
	use binius_math::ArithCircuitStep as S;
	let mut v: Vec<F> = vec![];
	for s in c.steps() {
		let x = match s {
			S::Add(a, b) => v[*a] + v[*b],
			S::Mul(a, b) => v[*a] * v[*b],
			S::Pow(a, e) => v[*a].pow(*e),
			S::Const(c) => *c,
			S::Var(i) => q[*i],
		};
		v.push(x);
	}
	*v.last().unwrap()
}
fn basis<F: TowerField>(level: usize, i: usize) -> F {
	// the i-th basis element of F over the subfield of the given level
	let mut r = F::ONE;
	for j in 0..8 {
		if i >> j & 1 == 1 {
			r *= <F as TowerField>::basis(level + j, 1).unwrap();
		}
	}
	r
}
/// the values of an oracle on the hypercube, by definition
pub fn table<F: TowerField>(o: &Set<F>, id: OracleId, com: &dyn Fn(OracleId) -> Vec<F>) -> Vec<F> {
	let p = &o[id];
	let n = p.n_vars();
	let bits = |i: usize, k: usize| (0..k).map(|j| if i >> j & 1 == 1 { F::ONE } else { F::ZERO }).collect::<Vec<_>>();
	match &p.variant {
		MultilinearPolyVariant::Committed => com(id),
		MultilinearPolyVariant::Transparent(t) => (0..1 << n).map(|i| t.poly().evaluate(&bits(i, n)).unwrap()).collect(),
		MultilinearPolyVariant::Structured(c) => {
			let k = ArithCircuit::n_vars(c).max(n);
			(0..1 << n).map(|i| circ(c, &bits(i, k))).collect()
		}
		MultilinearPolyVariant::Repeating { id, log_count } => {
			let t = table(o, *id, com);
			(0..1usize << n).map(|i| t[i % t.len()]).collect()
		}
		MultilinearPolyVariant::Projected(x) => {
			let t = table(o, x.id(), com);
			let (s, k) = (x.start_index(), x.values().len());
			(0..1usize << n)
				.map(|i| {
					let (lo, hi) = (i % (1 << s), i >> s);
					let sub = (0..1usize << k).map(|j| t[lo | j << s | hi << (s + k)]).collect::<Vec<_>>();
					mle(&sub, x.values())
				})
				.collect()
		}
		MultilinearPolyVariant::Shifted(x) => {
			let t = table(o, x.id(), com);
			let b = 1usize << x.block_size();
			let s = x.shift_offset();
			(0..1usize << n)
				.map(|i| {
					let (blk, j) = (i / b * b, i % b);
					match x.shift_variant() {
						ShiftVariant::CircularLeft => t[blk + (j + b - s) % b],
						ShiftVariant::LogicalLeft => if j >= s { t[blk + j - s] } else { F::ZERO },
						ShiftVariant::LogicalRight => if j + s < b { t[blk + j + s] } else { F::ZERO },
					}
				})
				.collect()
		}
		MultilinearPolyVariant::Packed(x) => {
			let t = table(o, x.id(), com);
			let l = o.tower_level(x.id());
			let k = x.log_degree();
			(0..1usize << n).map(|i| (0..1usize << k).map(|j| t[i << k | j] * basis::<F>(l, j)).sum()).collect()
		}
		MultilinearPolyVariant::LinearCombination(x) => {
			let ts = x.polys().map(|i| table(o, i, com)).collect::<Vec<_>>();
			(0..1usize << n).map(|i| x.offset() + ts.iter().zip(x.coefficients()).map(|(t, c)| t[i] * c).sum::<F>()).collect()
		}
		MultilinearPolyVariant::ZeroPadded(x) => {
			let t = table(o, x.id(), com);
			let (s, k) = (x.start_index(), x.n_pad_vars());
			(0..1usize << n)
				.map(|i| {
					let (lo, mid, hi) = (i % (1 << s), i >> s & ((1 << k) - 1), i >> (s + k));
					if mid == x.nonzero_index() { t[lo | hi << s] } else { F::ZERO }
				})
				.collect()
		}
		MultilinearPolyVariant::Composite(x) => {
			let ts = x.polys().map(|i| table(o, i, com)).collect::<Vec<_>>();
			let c: ArithCircuit<F> = CompositionPoly::<F>::expression(x.c());
			(0..1usize << n).map(|i| circ(&c, &ts.iter().map(|t| t[i]).collect::<Vec<_>>())).collect()
		}
	}
}
/// does the sum claim of a constraint set hold; with `point`, weighted by the equality indicator
pub fn sums<F: TowerField>(o: &Set<F>, c: &SizedConstraintSet<F>, point: Option<&[F]>, com: &dyn Fn(OracleId) -> Vec<F>, mut f: impl FnMut(bool)) {
	let ts = c.oracle_ids.iter().map(|i| table(o, *i, com)).collect::<Vec<_>>();
	check(ts.iter().all(|t| t.len() == 1 << c.n_vars), 50);
	for x in &c.constraints {
		let v = (0..1usize << c.n_vars).map(|i| circ(&x.composition, &ts.iter().map(|t| t[i]).collect::<Vec<_>>())).collect::<Vec<_>>();
		let s = match point {
			None => v.iter().copied().sum(),
			Some(p) => {
				check(p.len() == c.n_vars, 51);
				mle(&v, p)
			}
		};
		match &x.predicate {
			ConstraintPredicate::Sum(y) => f(s == *y),
			ConstraintPredicate::Zero => check(false, 52),
		}
	}
}

/// oracle sets: all variants, and virtual oracles over virtual oracles. Returns the oracles to
/// make claims on.
pub fn build<F: TowerField>(o: &mut Set<F>, k: usize) -> Vec<OracleId> {
	let g = gen_f::<F>();
	let com = |o: &mut Set<F>, n: usize| o.add_committed(n, F::TOWER_LEVEL);
	match k {
		0 => vec![com(o, 2)],
		1 => {
			let e = o.add_transparent(binius_core::transparent::eq_ind::EqIndPartialEval::new([g, F::ONE])).unwrap();
			let r = o.add_transparent(binius_core::transparent::select_row::SelectRow::new(2, 2).unwrap()).unwrap();
			vec![e, r]
		}
		2 => {
			let e = ArithExpr::Var(0) * ArithExpr::Var(2) + ArithExpr::Const(g) * ArithExpr::Var(1) + ArithExpr::Var(2) + ArithExpr::Const(F::ONE);
			vec![o.add_named("s").structured(2, (&e).into()).unwrap()]
		}
		3 => {
			let a = com(o, 1);
			vec![o.add_repeating(a, 2).unwrap()]
		}
		4 => {
			let a = com(o, 3);
			vec![o.add_projected(a, vec![g, F::ONE], 1).unwrap()]
		}
		5 => {
			let a = com(o, 2);
			vec![o.add_projected(a, vec![g], 0).unwrap()]
		}
		6 => {
			let a = com(o, 3);
			vec![o.add_projected_last_vars(a, vec![g, g + F::ONE]).unwrap()]
		}
		7 => {
			let a = com(o, 2);
			vec![o.add_zero_padded(a, 1, 1, 1).unwrap()]
		}
		8 => {
			let a = com(o, 1);
			vec![o.add_zero_padded(a, 2, 2, 0).unwrap()]
		}
		9 => {
			let a = com(o, 1);
			vec![o.add_zero_padded(a, 1, 0, 1).unwrap()]
		}
		10 => {
			let a = com(o, 2);
			vec![o.add_shifted(a, 1, 2, ShiftVariant::CircularLeft).unwrap()]
		}
		11 => {
			let a = com(o, 3);
			vec![o.add_shifted(a, 3, 2, ShiftVariant::LogicalLeft).unwrap()]
		}
		12 => {
			let a = com(o, 3);
			vec![o.add_shifted(a, 1, 1, ShiftVariant::LogicalRight).unwrap()]
		}
		13 => {
			let a = com(o, 2);
			vec![o.add_shifted(a, 1, 1, ShiftVariant::CircularLeft).unwrap()]
		}
		14 => {
			let l = F::TOWER_LEVEL.min(2);
			let a = o.add_committed(l + 1, F::TOWER_LEVEL - l);
			let b = o.add_committed(2, F::TOWER_LEVEL - 1);
			vec![o.add_packed(a, l).unwrap(), o.add_packed(b, 1).unwrap()]
		}
		15 => {
			let (a, b) = (com(o, 1), com(o, 1));
			vec![o.add_linear_combination_with_offset(1, g, [(a, g), (b, g + F::ONE), (a, F::ONE)]).unwrap()]
		}
		16 => {
			let a = com(o, 2);
			vec![o.add_linear_combination_with_offset(2, F::ONE, [(a, g)]).unwrap()]
		}
		17 => {
			let a = com(o, 2);
			vec![
				o.add_linear_combination_with_offset(2, g, [(a, F::ZERO)]).unwrap(),
				o.add_linear_combination_with_offset(2, g, []).unwrap(),
			]
		}
		18 => {
			let (a, b) = (com(o, 2), com(o, 2));
			let e = ArithExpr::Var(0) * ArithExpr::Var(1) + ArithExpr::Const(g) * ArithExpr::Var(1) + ArithExpr::Const(F::ONE);
			vec![o.add_composite_mle(2, [a, b], (&e).into()).unwrap()]
		}
		19 => {
			// two composites at the same point
			let (a, b) = (com(o, 1), com(o, 1));
			let e = ArithExpr::Var(0) * ArithExpr::Var(1);
			let f = ArithExpr::Var(0) * ArithExpr::Var(0) * ArithExpr::Const(g);
			let x = o.add_composite_mle(1, [a, b], (&e).into()).unwrap();
			let y = o.add_composite_mle(1, [b], (&f).into()).unwrap();
			vec![x, y]
		}
		20 => {
			// virtual over virtual
			let a = com(o, 2);
			let s = o.add_shifted(a, 1, 2, ShiftVariant::LogicalLeft).unwrap();
			let r0 = com(o, 1);
			let r = o.add_repeating(r0, 1).unwrap();
			let l = o.add_linear_combination(2, [(s, g), (r, F::ONE), (a, g)]).unwrap();
			vec![o.add_projected(l, vec![g], 1).unwrap()]
		}
		21 => {
			let a = com(o, 1);
			let l = o.add_linear_combination_with_offset(1, F::ONE, [(a, g)]).unwrap();
			let z = o.add_zero_padded(l, 1, 1, 0).unwrap();
			vec![z, l]
		}
		22 => {
			// shared subclaims
			let (a, b) = (com(o, 1), com(o, 1));
			let l = o.add_linear_combination(1, [(a, F::ONE), (b, g)]).unwrap();
			let m = o.add_linear_combination_with_offset(1, g, [(b, F::ONE), (l, F::ONE)]).unwrap();
			vec![m, l, b]
		}
		23 => {
			let a = o.add_committed(2, 0);
			let s = o.add_shifted(a, 1, 1, ShiftVariant::CircularLeft).unwrap();
			let l = o.add_linear_combination_with_offset(2, F::ONE, [(s, F::ONE), (a, F::ONE)]).unwrap();
			vec![o.add_packed(l, 1).unwrap()]
		}
		24 => {
			// the same oracle twice
			let a = com(o, 2);
			let r = o.add_repeating(a, 1).unwrap();
			vec![r, r]
		}
		_ => unreachable!(),
	}
}
/// the element of the subfield of the given level in the low bits of x
pub fn level<F: TowerField>(x: F, l: usize) -> F {
	if l == F::TOWER_LEVEL {
		return x;
	}
	let mut v = x;
	let b = unsafe { std::slice::from_raw_parts_mut(&mut v as *mut F as *mut u8, size_of::<F>()) };
	for (i, b) in b.iter_mut().enumerate() {
		*b &= if l >= 3 { if i < 1 << (l - 3) { 0xff } else { 0 } } else if i == 0 { (1 << (1 << l)) - 1 } else { 0 };
	}
	v
}
pub trait From1 {
	fn try_from_1b(i: usize) -> Self;
}
impl<F: TowerField> From1 for F {
	fn try_from_1b(i: usize) -> Self {
		if i == 1 { F::ONE } else { F::ZERO }
	}
}
/// an element outside the base field
pub fn gen_f<F: TowerField>() -> F {
	<F as TowerField>::basis(F::TOWER_LEVEL - 1, 1).unwrap()
}

/// an arbitrary proof of the right shape: any hints, indices, positions and values
struct Gen<'a, F: TowerField> {
	o: &'a Set<F>,
	bytes: Vec<u8>,
	claims: usize,
	wrong: bool,
}
impl<F: TowerField> Gen<'_, F> {
	/// true: a new claim
	fn hint(&mut self) -> bool {
		let dups = self.claims.min(4);
		let h = any_below(1 + dups + self.wrong as usize * 3);
		if h == 0 {
			self.bytes.extend(1u32.to_le_bytes());
			return true;
		}
		if h <= dups {
			self.bytes.extend(2u32.to_le_bytes());
			self.bytes.extend((self.claims as u32 - h as u32).to_le_bytes());
		} else if h == dups + 1 {
			// an index that is not known
			self.bytes.extend(2u32.to_le_bytes());
			self.bytes.extend((self.claims as u32 + [0, 7, 1 << 31][any_below(3)]).to_le_bytes());
		} else if h == dups + 2 {
			self.bytes.extend([0u32, 3, 1 << 24][any_below(3)].to_le_bytes());
		} else {
			self.bytes.push(1);
		}
		false
	}
	fn claim(&mut self, id: OracleId) {
		if self.hint() {
			self.new_claim(id);
		}
	}
	fn new_claim(&mut self, id: OracleId) {
		self.claims += 1;
		match &self.o[id].variant {
			MultilinearPolyVariant::Repeating { id, .. } => self.claim(*id),
			MultilinearPolyVariant::Projected(x) => self.claim(x.id()),
			MultilinearPolyVariant::ZeroPadded(x) => self.claim(x.id()),
			MultilinearPolyVariant::LinearCombination(x) => {
				for i in x.polys() {
					if self.hint() {
						let v = any_f::<F>();
						self.bytes.push(bytes_of(&v)[0]);
						self.new_claim(i);
					}
				}
			}
			MultilinearPolyVariant::Composite(_) => {
				let p = [0u32, 1, 2, u32::MAX][any_below(4)];
				self.bytes.extend(p.to_le_bytes());
			}
			_ => {}
		}
	}
}

/// Accepted and everything handed on is true: then every claim is true. Never a panic.
/// `same`: all claims at the same point.
fn sound<F: TowerField>(k: usize, same: bool, wrong: bool) {
	merge(false);
	let mut o = Set::<F>::new();
	let ids = build(&mut o, k);
	let mut coms: Vec<(OracleId, Vec<F>)> = vec![];
	for p in o.polys() {
		if p.variant.is_committed() {
			let v = (0..1usize << p.n_vars()).map(|_| level(any_f::<F>(), p.tower_level)).collect();
			coms.push((p.id(), v));
		}
	}
	let com = |id: OracleId| coms.iter().find(|x| x.0 == id).unwrap().1.clone();
	let point: Vec<F> = (0..3).map(|_| any_f()).collect();
	let claims: Vec<Claim<F>> = ids
		.iter()
		.map(|&id| {
			let n = o.n_vars(id);
			let p = if same { point[..n].to_vec() } else { (0..n).map(|_| any_f()).collect() };
			Claim { id, eval_point: p.into(), eval: any_f() }
		})
		.collect();
	let mut g = Gen { o: &o, bytes: vec![], claims: 0, wrong };
	for c in &claims {
		g.claim(c.id);
	}
	let bytes = g.bytes;
	let truth: Vec<bool> = claims.iter().map(|c| mle(&table(&o, c.id, &com), &c.eval_point) == c.eval).collect();
	let mut t = VerifierTranscript::<Fx>::new(bytes);
	let mut v = EvalcheckVerifier::new(&mut o);
	if v.verify(claims, &mut t).is_err() {
		return;
	}
	let left = std::mem::take(v.committed_eval_claims_mut());
	let s = v.take_new_sumcheck_constraints().unwrap();
	let m = v.take_new_mlechecks_constraints().unwrap();
	for c in &left {
		check(o[c.id].variant.is_committed(), 2);
		assume(mle(&com(c.id), &c.eval_point) == c.eval);
	}
	for c in &s {
		sums(&o, c, None, &com, assume);
	}
	check(m.eq_ind_challenges.len() == m.constraint_sets.len(), 3);
	for (p, c) in m.eq_ind_challenges.iter().zip(&m.constraint_sets) {
		sums(&o, c, Some(p), &com, assume);
	}
	cover(1);
	expect(1);
	for t in truth {
		check(t, 1);
	}
}
type F4 = BinaryField2b;
type F16 = BinaryField4b;
macro_rules! snd {
	($($n:ident $k:literal $s:literal;)*) => { harness! { $($n => sound::<F4>($k, $s, false);)* } };
}
snd! {
	h_c22_sound_com 0 true; h_c22_sound_tr 1 true; h_c22_sound_str 2 true; h_c22_sound_rep 3 true;
	h_c22_sound_prj 4 true; h_c22_sound_prj0 5 true; h_c22_sound_prjl 6 true;
	h_c22_sound_pad1 7 true; h_c22_sound_pad0 8 true; h_c22_sound_pad2 9 true;
	h_c22_sound_rot 10 true; h_c22_sound_shl 11 true; h_c22_sound_shr 12 true; h_c22_sound_rotb 13 true;
	h_c22_sound_pack 14 true; h_c22_sound_lc 15 true; h_c22_sound_lc1 16 true; h_c22_sound_lc0 17 true;
	h_c22_sound_comp 18 true; h_c22_sound_comp2 19 true; h_c22_sound_comp2d 19 false;
	h_c22_sound_nest 20 true; h_c22_sound_padlc 21 true; h_c22_sound_padlcd 21 false;
	h_c22_sound_shared 22 true; h_c22_sound_packlc 23 true; h_c22_sound_twice 24 true; h_c22_sound_twiced 24 false;
}
harness! {
	h_c22_wrong_lc => sound::<F4>(16, true, true);
	h_c22_wrong_rep => sound::<F4>(3, true, true);
	h_c22_wrong_comp => sound::<F4>(19, true, true);
	h_c22_wrong_padlc => sound::<F4>(21, true, true);
}

harness! {
	h_c22_sound16_pack => sound::<F16>(14, true, false);
	h_c22_sound16_comp => sound::<F16>(18, true, false);
}
