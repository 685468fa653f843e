//! validate_witness accepts exactly the witnesses of which every virtual column, constraint,
//! exponentiation and channel is right.
use crate::sem::*;
use binius_core::{
	constraint_system::{
		ConstraintSystem as Ccs, TableSizeSpec,
		channel::{Boundary, Flush, FlushDirection, OracleOrConst},
		validate::validate_witness,
	},
	oracle::{Constraint, ConstraintPredicate, ConstraintSet, OracleId, ShiftVariant, SymbolicMultilinearOracleSet, SymbolicMultilinearPolyVariant as V},
	transparent::MultilinearExtensionTransparent,
	witness::{MultilinearExtensionIndex, MultilinearWitness},
};
use binius_field::{
	arch::OptimalUnderlier128b,
	as_packed_field::{PackScalar, PackedType},
	packed::set_packed_slice,
	*,
};
use binius_m3::builder::{B1, B8, B64, B128};
use binius_math::{ArithCircuit, ArithExpr, MultilinearExtension};
use symapi::*;

type U = OptimalUnderlier128b;
type P = PackedType<U, B128>;

fn empty(tables: usize) -> Ccs<B128> {
	Ccs {
		oracles: SymbolicMultilinearOracleSet::new(),
		table_constraints: vec![],
		non_zero_oracle_ids: vec![],
		flushes: vec![],
		exponents: vec![],
		channel_count: 0,
		table_size_specs: vec![TableSizeSpec::Arbitrary; tables],
	}
}
fn poly<FS: TowerField>(v: &[E], f: impl Fn(u128) -> FS) -> MultilinearWitness<'static, P>
where
	U: PackScalar<FS>,
	P: PackedExtension<FS> + RepackedExtension<PackedType<U, FS>>,
	B128: ExtensionField<FS>,
{
	let mut n = 0;
	while 1 << n < v.len() {
		n += 1
	}
	let w = PackedType::<U, FS>::WIDTH;
	let mut d = vec![PackedType::<U, FS>::zero(); v.len().div_ceil(w)];
	for (i, e) in v.iter().enumerate() {
		set_packed_slice(&mut d, i, f(e.0));
	}
	MultilinearExtension::new(n, d).unwrap().specialize_arc_dyn()
}
fn upload(w: &mut MultilinearExtensionIndex<'static, P>, id: OracleId, l: usize, v: &[E]) {
	let p = match l {
		0 => poly::<B1>(v, |x| B1::from(x as u8)),
		3 => poly::<B8>(v, |x| B8::from(x as u8)),
		6 => poly::<B64>(v, |x| B64::from(x as u64)),
		_ => poly::<B128>(v, x),
	};
	w.update_multilin_poly([(id, p)]).unwrap();
}
/// the verdict of validate_witness on arbitrary columns: `any` gives each column
fn run(c: &Ccs<B128>, sz: &[usize], bd: &[Boundary<B128>], mut any: impl FnMut(OracleId, usize, usize) -> Vec<E>) {
	cap(2000);
	let mut w = MultilinearExtensionIndex::<P>::new();
	let mut cols: Cols = vec![];
	for o in c.oracles.polys() {
		if sz[o.table_id] == 0 {
			cols.push(vec![]);
			continue;
		}
		let mut n = o.log_values_per_row;
		while 1 << n < sz[o.table_id] << o.log_values_per_row {
			n += 1
		}
		if let V::Transparent(p) = &o.variant {
			n = p.poly().n_vars();
		}
		let v = any(o.id, n, o.tower_level);
		upload(&mut w, o.id, o.tower_level, &v);
		cols.push(v);
	}
	let got = validate_witness(c, bd, sz, &w).is_ok();
	let r = derive(c, sz, |id, _, _| cols[id.index()].clone());
	let mut ok = true;
	for (a, b) in r.iter().zip(&cols) {
		check(a.len() == b.len(), 1);
		for (a, b) in a.iter().zip(b) {
			ok &= a.0 == b.0;
		}
	}
	constraints(c, sz, &r, |b| ok &= b);
	if c.channel_count > 0 {
		ok &= balanced(&flushes(c, sz, &r, bd));
	}
	expect(1);
	expect(2);
	cover(if got { 1 } else { 2 });
	check(got == ok, 2);
}
fn free(c: &Ccs<B128>, sz: &[usize]) {
	run(c, sz, &[], |_, n, l| any_col(n, l))
}
fn zero(name: &str, e: ArithExpr<B128>) -> Constraint<B128> {
	Constraint { name: name.into(), composition: ArithCircuit::from(&e), predicate: ConstraintPredicate::Zero }
}
fn v(i: usize) -> ArithExpr<B128> {
	ArithExpr::Var(i)
}
fn k(c: u128) -> ArithExpr<B128> {
	ArithExpr::Const(x(c))
}

fn shift(var: ShiftVariant) {
	let mut c = empty(1);
	let a = c.oracles.add_oracle(0, 2, "a").committed(0);
	let off = 1 + any_below(3) as usize;
	c.oracles.add_oracle(0, 2, "s").shifted(a, off, 2, var).unwrap();
	free(&c, &[2]);
}
harness! { h_c18_shift_circ => shift(ShiftVariant::CircularLeft); }
harness! { h_c18_shift_left => shift(ShiftVariant::LogicalLeft); }
harness! { h_c18_shift_right => shift(ShiftVariant::LogicalRight); }
harness! { h_c18_shift_bytes => {
	let mut c = empty(1);
	let a = c.oracles.add_oracle(0, 1, "a").committed(3);
	c.oracles.add_oracle(0, 1, "s").shifted(a, 1, 1, ShiftVariant::LogicalRight).unwrap();
	free(&c, &[2]);
}; }
harness! { h_c18_repeat => {
	let mut c = empty(1);
	let t = MultilinearExtensionTransparent::<PackedType<U, B8>, P, _>::from_values_and_mu(vec![PackedType::<U, B8>::from_fn(|i| B8::from([7, 0x53, 1, 0][i % 4]))], 2).unwrap();
	let a = c.oracles.add_oracle(0, 2, "t").transparent(t).unwrap();
	c.oracles.add_oracle(0, 2, "r").repeating(a).unwrap();
	free(&c, &[2]);
}; }
/// a projection of variables to bits
fn proj(bits: usize, m: usize, start: Option<usize>) {
	let mut c = empty(1);
	let a = c.oracles.add_oracle(0, 2, "a").committed(0);
	let vs = (0..m).map(|j| x((bits >> j & 1) as u128)).collect();
	let o = c.oracles.add_oracle(0, 2 - m, "p");
	match start {
		Some(s) => o.projected(a, vs, s).unwrap(),
		None => o.projected_last_vars(a, vs).unwrap(),
	};
	free(&c, &[4]);
}
harness! { h_c18_project => { let b = any_below(4) as usize; proj(b, 2, Some(0)) }; }
harness! { h_c18_project_mid => { let b = any_below(2) as usize; proj(b, 1, Some(1)) }; }
harness! { h_c18_project_last => { let b = any_below(4) as usize; proj(b, 2, None) }; }
harness! { h_c18_project_field => {
	// a projection to a point outside the cube
	let mut c = empty(1);
	let a = c.oracles.add_oracle(0, 1, "a").committed(7);
	c.oracles.add_oracle(0, 0, "p").projected(a, vec![x(0x1234_5678_9abc_def0_0fed_cba9_8765_4321)], 0).unwrap();
	run(&c, &[2], &[], |_, n, l| any_col(n, 0).into_iter().enumerate().map(|(i, e)| E((e.0 << 77) ^ if i == 0 { e.0 } else { 0 }, l)).collect());
}; }
fn pad(m: usize, nz: usize, start: usize, n: usize, rows: usize) {
	let mut c = empty(1);
	let a = c.oracles.add_oracle(0, n, "a").committed(0);
	c.oracles.add_oracle(0, n + m, "z").zero_padded(a, m, nz, start).unwrap();
	free(&c, &[rows]);
}
harness! { h_c18_pad => { let z = any_below(2) as usize; pad(1, z, 1, 1, 2) }; }
harness! { h_c18_pad_low => { let z = any_below(4) as usize; pad(2, z, 0, 1, 1) }; }
harness! { h_c18_pad_top => { let z = any_below(2) as usize; pad(1, z, 2, 1, 2) }; }
harness! { h_c18_packed => {
	let mut c = empty(1);
	let a = c.oracles.add_oracle(0, 3, "a").committed(0);
	c.oracles.add_oracle(0, 0, "p").packed(a, 3).unwrap();
	free(&c, &[2]);
}; }
harness! { h_c18_linear => {
	let mut c = empty(1);
	let a = c.oracles.add_oracle(0, 0, "a").committed(0);
	let b = c.oracles.add_oracle(0, 0, "b").committed(3);
	c.oracles.add_oracle(0, 0, "l").linear_combination_with_offset(x(0x9b), [(a, x(0x35)), (b, x(2)), (a, x(1))]).unwrap();
	free(&c, &[2]);
}; }
harness! { h_c18_composite => {
	let mut c = empty(1);
	let a = c.oracles.add_oracle(0, 0, "a").committed(0);
	let b = c.oracles.add_oracle(0, 0, "b").committed(0);
	c.oracles.add_oracle(0, 0, "m").composite_mle([b, a], ArithCircuit::from(&(v(0) * v(1) + v(1) + k(1)))).unwrap();
	free(&c, &[4]);
}; }
harness! { h_c18_structured => {
	let mut c = empty(1);
	c.oracles.add_oracle(0, 0, "s").structured(ArithCircuit::from(&(v(0) * k(1) + v(1) * k(2) + v(2) * k(0x53) + v(3) * k(0x80)))).unwrap();
	let n = any_below(4) as u32;
	free(&c, &[1 << n]);
}; }
harness! { h_c18_fixed => {
	let mut c = empty(1);
	c.table_size_specs = vec![TableSizeSpec::Fixed { log_size: 2 }];
	c.oracles.add_oracle(0, 0, "s").transparent(ArithCircuit::from(&(v(0) * v(1) + k(0x10) * v(1)))).unwrap();
	free(&c, &[4]);
}; }
// constraints hold on the rows beyond the size of a table too
harness! { h_c18_constraints => {
	let mut c = empty(1);
	let a = c.oracles.add_oracle(0, 0, "a").committed(0);
	let b = c.oracles.add_oracle(0, 0, "b").committed(0);
	let d = c.oracles.add_oracle(0, 1, "d").committed(0);
	let s = c.oracles.add_oracle(0, 1, "s").shifted(d, 1, 1, ShiftVariant::CircularLeft).unwrap();
	c.table_constraints = vec![
		ConstraintSet { table_id: 0, log_values_per_row: 0, oracle_ids: vec![b, a], constraints: vec![zero("p", v(0) * v(1)), zero("q", v(0) + v(1) + k(1))] },
		ConstraintSet { table_id: 0, log_values_per_row: 1, oracle_ids: vec![d, s], constraints: vec![zero("r", v(0) * (v(1) + k(1)))] },
	];
	let n = 1 + any_below(3) as usize;
	free(&c, &[n]);
}; }
harness! { h_c18_constraints_mixed => {
	// a byte and a bit column in one constraint
	let mut c = empty(1);
	let a = c.oracles.add_oracle(0, 0, "a").committed(3);
	let b = c.oracles.add_oracle(0, 0, "b").committed(0);
	c.table_constraints = vec![ConstraintSet { table_id: 0, log_values_per_row: 0, oracle_ids: vec![a, b], constraints: vec![zero("p", v(0) * v(1) + k(0x2c) * v(1)), zero("q", v(0) * k(3) + v(1) * k(0x11))] }];
	free(&c, &[2]);
}; }
harness! { h_c18_nonzero => {
	let mut c = empty(2);
	let a = c.oracles.add_oracle(0, 1, "a").committed(3);
	let b = c.oracles.add_oracle(1, 0, "b").committed(0);
	c.non_zero_oracle_ids = vec![a, b];
	let n = any_below(2) as usize;
	free(&c, &[1, 2 * n]);
}; }
/// concrete cell on every path: forks
fn forked(n: usize, l: usize) -> Vec<E> {
	(0..1usize << n).map(|_| { let b = any_below(2) as u128; E(if l == 0 { b } else { b * 0x47 }, l) }).collect()
}
fn fl(t: usize, lv: usize, o: &[OracleId], ch: usize, push: bool, sel: &[OracleId], m: u64) -> Flush<B128> {
	Flush {
		table_id: t,
		log_values_per_row: lv,
		oracles: o.iter().map(|i| OracleOrConst::Oracle(*i)).collect(),
		channel_id: ch,
		direction: if push { FlushDirection::Push } else { FlushDirection::Pull },
		selectors: sel.to_vec(),
		multiplicity: m,
	}
}
harness! { h_c18_channel => {
	// two tables, one of a size that is no power of two
	let mut c = empty(2);
	c.channel_count = 1;
	let a = c.oracles.add_oracle(0, 0, "a").committed(0);
	let b = c.oracles.add_oracle(1, 0, "b").committed(0);
	c.flushes = vec![fl(0, 0, &[a], 0, true, &[], 1), fl(1, 0, &[b], 0, false, &[], 1)];
	run(&c, &[3, 3], &[], |_, n, l| forked(n, l));
}; }
harness! { h_c18_channel_tuples => {
	let mut c = empty(2);
	c.channel_count = 1;
	let a = c.oracles.add_oracle(0, 0, "a").committed(0);
	let b = c.oracles.add_oracle(0, 0, "b").committed(3);
	let d = c.oracles.add_oracle(1, 1, "d").committed(3);
	let e = c.oracles.add_oracle(1, 1, "e").committed(0);
	c.flushes = vec![fl(0, 0, &[a, b], 0, true, &[], 1), fl(1, 1, &[e, d], 0, false, &[], 1)];
	run(&c, &[2, 1], &[], |_, n, l| forked(n, l));
}; }
harness! { h_c18_channel_selectors => {
	let mut c = empty(1);
	c.channel_count = 1;
	let a = c.oracles.add_oracle(0, 0, "a").committed(0);
	let b = c.oracles.add_oracle(0, 0, "b").committed(0);
	let s = c.oracles.add_oracle(0, 0, "s").committed(0);
	let t = c.oracles.add_oracle(0, 0, "t").committed(3);
	c.flushes = vec![fl(0, 0, &[a], 0, true, &[s, t], 2), fl(0, 0, &[b], 0, false, &[], 1)];
	run(&c, &[2], &[], |_, n, l| forked(n, l));
}; }
harness! { h_c18_channel_selectors_rows => {
	// several values and selector bits in a row
	let mut c = empty(1);
	c.channel_count = 1;
	let a = c.oracles.add_oracle(0, 1, "a").committed(0);
	let s = c.oracles.add_oracle(0, 1, "s").committed(0);
	let b = c.oracles.add_oracle(0, 0, "b").committed(0);
	c.flushes = vec![fl(0, 1, &[a], 0, true, &[s], 1), fl(0, 0, &[b], 0, false, &[], 1)];
	run(&c, &[2], &[], |_, n, l| forked(n, l));
}; }
harness! { h_c18_channel_boundary => {
	// boundaries and multiplicities, and two channels
	let mut c = empty(1);
	c.channel_count = 2;
	let a = c.oracles.add_oracle(0, 0, "a").committed(0);
	let b = c.oracles.add_oracle(0, 0, "b").committed(0);
	let mut f = fl(0, 0, &[b], 1, true, &[], 1);
	f.oracles.push(OracleOrConst::Const { base: x(5), tower_level: 3 });
	c.flushes = vec![fl(0, 0, &[a], 0, false, &[], 2), f];
	let m = any_below(3) as u64;
	let w = any_below(2) as u128;
	let bd = |v: &[u128], ch: usize, push: bool, m: u64| Boundary {
		values: v.iter().map(|v| x(*v)).collect(),
		channel_id: ch,
		direction: if push { FlushDirection::Push } else { FlushDirection::Pull },
		multiplicity: m,
	};
	run(&c, &[2], &[bd(&[w], 0, true, 2 * m), bd(&[1], 0, true, 2), bd(&[1, 5], 1, false, m), bd(&[0, 5], 1, false, 1)], |_, n, l| forked(n, l));
}; }
// the sizes of tables
harness! { h_c18_sizes => {
	let mut c = empty(3);
	c.table_size_specs = vec![TableSizeSpec::PowerOfTwo, TableSizeSpec::Fixed { log_size: 1 }, TableSizeSpec::Arbitrary];
	for t in 0..3 {
		c.oracles.add_oracle(t, 0, "a").committed(0);
	}
	let sz: Vec<usize> = (0..3).map(|_| any_below(5) as usize).collect();
	let p = || poly::<B1>(&[E(0, 0); 8], |x| B1::from(x as u8));
	let mut w = MultilinearExtensionIndex::<P>::new();
	for (t, id) in c.oracles.ids().enumerate() {
		let q = poly::<B1>(&vec![E(1, 0); sz[t].next_power_of_two()], |x| B1::from(x as u8));
		w.update_multilin_poly([(id, if sz[t] == 0 { p() } else { q })]).unwrap();
	}
	let ok = validate_witness(&c, &[], &sz, &w).is_ok();
	check(ok == ([1, 2, 4].contains(&sz[0]) && sz[1] == 2), 3);
	check(validate_witness(&c, &[], &sz[..2], &w).is_err(), 4);
}; }
