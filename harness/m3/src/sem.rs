//! What a compiled constraint system means: every virtual column by its definition, constraints on
//! every row, flushes as multisets.
use binius_core::{
	constraint_system::{
		ConstraintSystem as Ccs,
		channel::{Boundary, FlushDirection, OracleOrConst},
		exp::Exp,
	},
	oracle::{OracleId, ProjectionVariant, ShiftVariant, SymbolicMultilinearPolyVariant as V},
	witness::MultilinearExtensionIndex,
};
use binius_field::*;
use binius_m3::builder::*;
use binius_math::{ArithCircuit, ArithCircuitStep as St, MultilinearPoly};
use symapi::*;

/// a value together with the tower level it is known to lie in
#[derive(Clone, Copy, Debug)]
pub struct E(pub u128, pub usize);

pub fn x(v: u128) -> B128 {
	B128::from(v)
}
fn lv(v: u128) -> usize {
	(0..8).find(|l| *l == 7 || v >> (1u32 << l) == 0).unwrap()
}
/// levels of values known by their discrete logarithm to the generator of the 64- or 128-bit field
const LOG: usize = 100;
fn ones(l: usize) -> u128 {
	u128::MAX >> (128 - (1 << (l - LOG)))
}
/// canonical logarithm
fn canon(a: E) -> u128 {
	if decide(a.0 == ones(a.1)) { 0 } else { a.0 }
}
pub fn add(a: E, b: E) -> E {
	if a.1 >= LOG || b.1 >= LOG {
		// zero exactly when equal
		assert!(a.1 == b.1);
		return E((canon(a) != canon(b)) as u128, 0);
	}
	E(a.0 ^ b.0, a.1.max(b.1))
}
pub fn mul(a: E, b: E) -> E {
	if a.1 >= LOG || b.1 >= LOG {
		if a.1 < LOG {
			assert!(a.1 == 0 && a.0 == 1);
			return b;
		}
		assert!(a.1 == b.1);
		let (s, c) = a.0.overflowing_add(b.0);
		let v = if a.1 == LOG + 7 { s + c as u128 } else { (s & ones(a.1)) + (s >> 64) };
		return E(v, a.1);
	}
	let (s, l) = if a.1 < b.1 { (a, b) } else { (b, a) };
	let v = match (s.1, l.1) {
		(0, _) => l.0 & (0u128.wrapping_sub(s.0)),
		(_, 1..=3) => (BinaryField8b::from(a.0 as u8) * BinaryField8b::from(b.0 as u8)).val() as u128,
		(_, 4) => (BinaryField16b::from(a.0 as u16) * BinaryField16b::from(b.0 as u16)).val() as u128,
		(_, 5) => (BinaryField32b::from(a.0 as u32) * BinaryField32b::from(b.0 as u32)).val() as u128,
		(_, 6) => (BinaryField64b::from(a.0 as u64) * BinaryField64b::from(b.0 as u64)).val() as u128,
		_ => (x(a.0) * x(b.0)).val(),
	};
	E(v, l.1)
}
pub fn pow(b: E, mut e: u64) -> E {
	let (mut r, mut b) = (E(1, 0), b);
	if b.1 == 0 && e > 0 {
		return b;
	}
	while e > 0 {
		if e & 1 == 1 {
			r = mul(r, b)
		}
		e >>= 1;
		if e > 0 {
			b = mul(b, b)
		}
	}
	r
}
pub fn circ(c: &ArithCircuit<B128>, q: &[E]) -> E {
	let mut v: Vec<E> = vec![];
	for s in c.steps() {
		let e = match s {
			St::Const(c) => E(c.val(), lv(c.val())),
			St::Var(i) => q[*i],
			St::Add(a, b) => add(v[*a], v[*b]),
			St::Mul(a, b) => mul(v[*a], v[*b]),
			St::Pow(a, e) => pow(v[*a], *e),
		};
		v.push(e);
	}
	*v.last().unwrap()
}
fn log2(n: usize) -> usize {
	let mut k = 0;
	while 1 << k < n {
		k += 1
	}
	k
}
pub type Cols = Vec<Vec<E>>;

/// base is a repeated square of the generator: how often
fn log_base(base: u128, l: usize) -> usize {
	let mut g = if l == 6 { BinaryField64b::MULTIPLICATIVE_GENERATOR.val() as u128 } else { BinaryField128b::MULTIPLICATIVE_GENERATOR.val() };
	for k in 0..1 << l {
		if g == base {
			return k;
		}
		g = mul(E(g, l), E(g, l)).0;
	}
	panic!("not a power of the generator")
}
/// logarithm of base^bits, for the row k
fn log_exp(e: &Exp<B128>, r: &Cols, l: usize, k: usize) -> E {
	let n = e.bits_ids.len();
	assert!(n <= 1 << (l - 1));
	let mut v = 0u128;
	for (j, id) in e.bits_ids.iter().enumerate() {
		v |= r[id.index()][k].0 << j;
	}
	let lg = match e.base {
		OracleOrConst::Const { base, .. } => {
			let s = log_base(base.val(), l);
			assert!(s + n <= 1 << l);
			v << s
		}
		OracleOrConst::Oracle(id) => {
			let b = r[id.index()][k];
			assert!(b.1 == LOG + l);
			let h = 1usize << (l - 1);
			check(b.0 >> h == 0, 94);
			let p = if l == 6 { (b.0 as u64).wrapping_mul(v as u64) as u128 } else { b.0.wrapping_mul(v) };
			// a fact about products: the upper half is at most 2^h - 2
			assume(p >> h != (1u128 << h) - 1);
			p
		}
	};
	E(lg, LOG + l)
}

/// the columns of all oracles, given the committed ones; results of exponentiations of the 64- and
/// 128-bit fields by their logarithm
pub fn derive(c: &Ccs<B128>, sz: &[usize], mut com: impl FnMut(OracleId, usize, usize) -> Vec<E>) -> Cols {
	let mut r: Cols = vec![];
	for o in c.oracles.polys() {
		if sz[o.table_id] == 0 {
			r.push(vec![]);
			continue;
		}
		let n = log2(sz[o.table_id]) + o.log_values_per_row;
		let i = |id: &OracleId| &r[id.index()];
		let all = || 0..1usize << n;
		let v: Vec<E> = match &o.variant {
			V::Committed => match c.exponents.iter().find(|e| e.exp_result_id == o.id) {
				Some(e) if o.tower_level >= 6 => all().map(|k| log_exp(e, &r, o.tower_level, k)).collect(),
				_ => com(o.id, n, o.tower_level),
			},
			V::Transparent(p) => {
				let n = p.poly().n_vars();
				(0..1usize << n)
					.map(|k| {
						let q: Vec<B128> = (0..n).map(|j| x((k >> j & 1) as u128)).collect();
						let v = p.poly().evaluate(&q).unwrap().val();
						E(v, lv(v))
					})
					.collect()
			}
			V::Structured(e) => all().map(|k| circ(e, &(0..e.n_vars()).map(|j| E((k >> j & 1) as u128, 0)).collect::<Vec<_>>())).collect(),
			V::Repeating { id } => all().map(|k| i(id)[k % i(id).len()]).collect(),
			V::Projected { id, values, variant } => {
				let s = match variant {
					ProjectionVariant::Offset(s) => *s,
					ProjectionVariant::Last => n,
				};
				let m = values.len();
				all()
					.map(|k| {
						// multilinear in the projected variables
						let mut a = E(0, 0);
						for j in 0..1usize << m {
							let mut w = i(id)[(k & ((1 << s) - 1)) | j << s | (k >> s) << (s + m)];
							for (b, v) in values.iter().enumerate() {
								let c = if j >> b & 1 == 1 { v.val() } else { v.val() ^ 1 };
								w = mul(w, E(c, lv(c)));
							}
							a = add(a, w);
						}
						a
					})
					.collect()
			}
			V::Shifted { id, shift_offset: s, block_size, shift_variant } => {
				let b = 1usize << block_size;
				all()
					.map(|k| {
						let (base, j) = (k / b * b, k % b);
						match shift_variant {
							ShiftVariant::CircularLeft => i(id)[base + (j + b - s) % b],
							ShiftVariant::LogicalLeft if j >= *s => i(id)[base + j - s],
							ShiftVariant::LogicalRight if j + s < b => i(id)[base + j + s],
							_ => E(0, 0),
						}
					})
					.collect()
			}
			V::Packed { id, log_degree } => {
				let (d, w) = (1usize << log_degree, 1usize << (o.tower_level - log_degree));
				all()
					.map(|k| {
						let mut a = 0;
						for j in 0..d {
							a |= i(id)[k * d + j].0 << (j * w);
						}
						E(a, o.tower_level)
					})
					.collect()
			}
			V::LinearCombination { offset, inner } => all()
				.map(|k| {
					let mut a = E(offset.val(), lv(offset.val()));
					for (id, c) in inner {
						a = add(a, mul(i(id)[k], E(c.val(), lv(c.val()))));
					}
					a
				})
				.collect(),
			V::ZeroPadded { id, n_pad_vars: m, nonzero_index, start_index: s } => all()
				.map(|k| {
					if k >> s & ((1 << m) - 1) == *nonzero_index {
						i(id)[(k & ((1 << s) - 1)) | (k >> (s + m)) << s]
					} else {
						E(0, 0)
					}
				})
				.collect(),
			V::Composite { inner, circuit } => all().map(|k| circ(circuit, &inner.iter().map(|id| i(id)[k]).collect::<Vec<_>>())).collect(),
		};
		r.push(v);
	}
	r
}
/// f(holds) for every constraint instance
pub fn constraints(c: &Ccs<B128>, sz: &[usize], r: &Cols, mut f: impl FnMut(bool)) {
	for s in &c.table_constraints {
		if sz[s.table_id] == 0 || s.oracle_ids.is_empty() {
			continue;
		}
		for k in 0..r[s.oracle_ids[0].index()].len() {
			let q: Vec<E> = s.oracle_ids.iter().map(|id| r[id.index()][k]).collect();
			for c in &s.constraints {
				f(circ(&c.composition, &q).0 == 0);
			}
		}
	}
	for id in &c.non_zero_oracle_ids {
		for v in &r[id.index()] {
			f(v.0 != 0);
		}
	}
	for e in &c.exponents {
		if r[e.exp_result_id.index()].iter().any(|v| v.1 >= LOG) {
			continue;
		}
		for (k, v) in r[e.exp_result_id.index()].iter().enumerate() {
			let mut p = E(1, 0);
			let mut b = match e.base {
				OracleOrConst::Oracle(id) => r[id.index()][k],
				OracleOrConst::Const { base, .. } => E(base.val(), lv(base.val())),
			};
			for (j, id) in e.bits_ids.iter().enumerate() {
				let t = mul(p, b);
				let m = 0u128.wrapping_sub(r[id.index()][k].0);
				p = E(t.0 & m | p.0 & !m, p.1.max(t.1));
				if j + 1 < e.bits_ids.len() {
					b = mul(b, b);
				}
			}
			f(p.0 == v.0);
		}
	}
}
/// (channel, tuple, present, signed multiplicity)
pub type Fl = (usize, Vec<u128>, bool, i64);
pub fn flushes(c: &Ccs<B128>, sz: &[usize], r: &Cols, bd: &[Boundary<B128>]) -> Vec<Fl> {
	let sg = |d, m: u64| if d == FlushDirection::Push { m as i64 } else { -(m as i64) };
	let mut o: Vec<Fl> = bd.iter().map(|b| (b.channel_id, b.values.iter().map(|v| v.val()).collect(), true, sg(b.direction, b.multiplicity))).collect();
	for f in &c.flushes {
		for k in 0..sz[f.table_id] << f.log_values_per_row {
			let t = f
				.oracles
				.iter()
				.map(|o| match o {
					OracleOrConst::Oracle(id) => r[id.index()][k].0,
					OracleOrConst::Const { base, .. } => base.val(),
				})
				.collect();
			let on = f.selectors.iter().fold(true, |a, s| a & (r[s.index()][k].0 != 0));
			o.push((f.channel_id, t, on, sg(f.direction, f.multiplicity)));
		}
	}
	o
}
/// every channel pushes and pulls the same multiset
pub fn balanced(fl: &[Fl]) -> bool {
	let mut ok = true;
	for a in fl {
		let mut s = 0i64;
		for b in fl.iter().filter(|b| b.0 == a.0 && b.1.len() == a.1.len()) {
			let mut e = b.2;
			for (x, y) in a.1.iter().zip(&b.1) {
				e &= x == y;
			}
			s += b.3 & 0i64.wrapping_sub(e as i64);
		}
		ok &= !a.2 | (s == 0);
	}
	ok
}
/// arbitrary values of a committed column
pub fn any_col(n: usize, l: usize) -> Vec<E> {
	let bits = 1usize << l;
	let tot = bits << n;
	let by: Vec<u8> = (0..tot.div_ceil(8)).map(|_| any::<1>()[0]).collect();
	(0..1usize << n)
		.map(|k| {
			let mut v = 0u128;
			if bits >= 8 {
				for j in 0..bits / 8 {
					v |= (by[k * bits / 8 + j] as u128) << (8 * j);
				}
			} else {
				v = (by[k * bits / 8] >> (k * bits % 8)) as u128 & ((1 << bits) - 1);
			}
			E(v, l)
		})
		.collect()
}
/// all values of a filled-in witness; virtual columns must be what they are defined to be
pub fn of_witness<P>(c: &Ccs<B128>, sz: &[usize], w: &MultilinearExtensionIndex<'_, P>) -> Cols
where
	P: PackedField<Scalar = B128>,
{
	let rd = |id: OracleId, n: usize, l: usize| -> Vec<E> {
		let p = w.get_multilin_poly(id).unwrap();
		check(p.n_vars() == n, 90);
		(0..1usize << n).map(|k| E(p.evaluate_on_hypercube(k).unwrap().val(), l)).collect()
	};
	let r = derive(c, sz, rd);
	for o in c.oracles.polys() {
		if matches!(o.variant, V::Committed) || sz[o.table_id] == 0 {
			continue;
		}
		let mut ok = true;
		let p = w.get_multilin_poly(o.id).unwrap();
		for (k, v) in r[o.id.index()].iter().enumerate() {
			ok &= p.evaluate_on_hypercube(k).unwrap().val() == v.0;
		}
		check(ok, 91);
	}
	r
}
/// the filled-in witness satisfies the system
pub fn satisfies(c: &Ccs<B128>, sz: &[usize], r: &Cols, bd: &[Boundary<B128>]) {
	constraints(c, sz, r, |b| check(b, 92));
	if !c.flushes.is_empty() || !bd.is_empty() {
		check(balanced(&flushes(c, sz, r, bd)), 93);
	}
}
/// oracle ids of the given columns of one table (at least 8 rows)
pub fn ids<P>(cs: &ConstraintSystem, c: &Ccs<B128>, w: WitnessIndex<'_, '_, P>, t: TableId, cols: &[(ColumnId, ColumnShape)], rows: usize) -> Vec<usize>
where
	P: PackedExtension<B1> + PackedExtension<B8> + PackedExtension<B16> + PackedExtension<B32> + PackedExtension<B64> + PackedExtension<B128> + PackedFieldIndexable<Scalar = B128>,
{
	let _ = cs;
	let mut w = w;
	{
		let tw = w.init_table(t, rows).unwrap();
		let s = tw.full_segment();
		for (k, (id, sh)) in cols.iter().enumerate() {
			let mut d = s.get_dyn_mut(*id).unwrap();
			for j in 0..8 {
				d.set(j << sh.log_values_per_row, x(((k + 1) >> j & 1) as u128)).unwrap();
			}
		}
	}
	let m = w.into_multilinear_extension_index();
	let mut r = vec![usize::MAX; cols.len()];
	for o in c.oracles.polys().filter(|o| o.table_id == t) {
		let p = m.get_multilin_poly(o.id).unwrap();
		if p.n_vars() < 3 + o.log_values_per_row {
			continue;
		}
		let mut k = 0;
		for j in 0..8 {
			if p.evaluate_on_hypercube(j << o.log_values_per_row).unwrap() == B128::ONE {
				k |= 1 << j;
			}
		}
		if k > 0 && k <= cols.len() {
			let sh = cols[k - 1].1;
			if sh.log_values_per_row == o.log_values_per_row && sh.tower_height == o.tower_level {
				r[k - 1] = o.id.index();
			}
		}
	}
	r
}
