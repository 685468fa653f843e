//! What the builder declares is what the compiled system demands of a filled-in witness: for every
//! kind of column, constraint, flush and way of filling a table.
use crate::{gadgets::P, sem::*};
use binius_compute::cpu::alloc::CpuComputeAllocator;
use binius_core::{
	constraint_system::{
		channel::{Boundary, FlushDirection},
		validate::validate_witness,
	},
	oracle::ShiftVariant,
};
use binius_field::*;
use binius_m3::builder::*;
use binius_math::{ArithCircuit, ArithExpr};
use symapi::*;

/// table, column, values of all its rows
struct Cell(usize, ColumnId, ColumnShape, Vec<E>);
fn cel<F: TowerField, const V: usize>(t: usize, c: Col<F, V>, v: &[E]) -> Cell {
	Cell(t, c.id(), c.shape(), v.to_vec())
}
/// does the compiled system accept the columns
fn verdict(cs: &ConstraintSystem, sz: &[usize], cells: &[Cell], bd: &[Boundary<B128>]) -> bool {
	cap(2000);
	let c = cs.compile().unwrap();
	let mut al = CpuComputeAllocator::new(1 << 12);
	let al = al.into_bump_allocator();
	let mut w = WitnessIndex::<P>::new(cs, &al);
	for (t, n) in sz.iter().enumerate().filter(|(_, n)| **n > 0) {
		let s = w.init_table(t, *n).unwrap().full_segment();
		check(s.size() == n.next_power_of_two(), 1);
		for Cell(_, id, sh, v) in cells.iter().filter(|c| c.0 == t) {
			check(v.len() == s.size() << sh.log_values_per_row, 2);
			let mut d = s.get_dyn_mut(*id).unwrap();
			for (k, e) in v.iter().enumerate() {
				d.set(k, x(e.0)).unwrap();
			}
		}
	}
	w.fill_constant_cols().unwrap();
	check(w.table_sizes() == sz, 3);
	let m = w.into_multilinear_extension_index();
	let ok = validate_witness(&c, bd, sz, &m).is_ok();
	expect(1);
	expect(2);
	cover(if ok { 1 } else { 2 });
	ok
}
/// do the exponentiations of the compiled system hold (the prover fills in their results)
fn exponents(cs: &ConstraintSystem, sz: &[usize], cells: &[(&str, &[E])]) -> bool {
	let c = cs.compile().unwrap();
	let r: Cols = c.oracles.polys().map(|o| cells.iter().find(|c| o.name.as_deref() == Some(c.0)).map_or(vec![], |c| c.1.to_vec())).collect();
	check(c.exponents.len() == 1 && c.table_constraints.is_empty(), 5);
	let mut ok = true;
	constraints(&c, sz, &r, |b| ok &= b);
	ok
}
fn same_cols(a: &[E], b: &[E]) -> bool {
	a.len() == b.len() && a.iter().zip(b).fold(true, |r, (a, b)| r & (a.0 == b.0))
}
/// a table whose columns have differing indices in the table, its partition and the system
struct Busy {
	cs: ConstraintSystem,
	cells: Vec<Cell>,
}
fn busy() -> Busy {
	let mut cs = ConstraintSystem::new();
	let mut t = cs.add_table("other");
	let o: Col<B8, 2> = t.add_committed("o");
	let k = t.add_constant("k", [B8::from(9)]);
	let _ = k;
	let cells = vec![cel(0, o, &[E(7, 3); 4])];
	Busy { cs, cells }
}
/// the column `def` adds to a table (id 1) with a column a of values given, beside others, must be f(a)
fn derived<FA: TowerField, const V: usize, FD: TowerField, const W: usize>(rows: usize, def: impl FnOnce(&mut TableBuilder, Col<FA, V>) -> Col<FD, W>, f: impl Fn(&[E]) -> Vec<E>)
where
	B128: ExtensionField<FA> + ExtensionField<FD>,
{
	let mut b = busy();
	let (a, d, p, q) = {
		let mut t = b.cs.add_table("t");
		let p: Col<B8> = t.add_committed("p");
		let q: Col<B1, 8> = t.add_committed("q");
		let a: Col<FA, V> = t.add_committed("a");
		let d = def(&mut t.with_namespace("n"), a);
		(a, d, p, q)
	};
	let n = rows.ilog2() as usize;
	let av = any_col(n + V.ilog2() as usize, FA::TOWER_LEVEL);
	let dv = any_col(n + W.ilog2() as usize, FD::TOWER_LEVEL);
	b.cells.push(cel(1, p, &vec![E(0x41, 3); rows]));
	b.cells.push(cel(1, q, &vec![E(1, 0); rows * 8]));
	b.cells.push(cel(1, a, &av));
	b.cells.push(cel(1, d, &dv));
	let got = verdict(&b.cs, &[2, rows], &b.cells, &[]);
	check(got == same_cols(&dv, &f(&av)), 4);
}
fn blocks(a: &[E], n: usize, f: impl Fn(usize, &[E]) -> Vec<E>) -> Vec<E> {
	a.chunks(n).enumerate().flat_map(|(i, c)| f(i, c)).collect()
}
const Z: E = E(0, 0);

harness! { h_c19_shift_circ => derived::<B1, 8, B1, 8>(2, |t, a| t.add_shifted("s", a, 2, 3, ShiftVariant::CircularLeft), |a| blocks(a, 4, |_, c| vec![c[1], c[2], c[3], c[0]])); }
harness! { h_c19_shift_left => derived::<B1, 8, B1, 8>(2, |t, a| t.add_shifted("s", a, 3, 3, ShiftVariant::LogicalLeft), |a| blocks(a, 8, |_, c| vec![Z, Z, Z, c[0], c[1], c[2], c[3], c[4]])); }
harness! { h_c19_shift_right => derived::<B1, 8, B1, 8>(2, |t, a| t.add_shifted("s", a, 2, 1, ShiftVariant::LogicalRight), |a| blocks(a, 4, |_, c| vec![c[1], c[2], c[3], Z])); }
harness! { h_c19_shift_bytes => derived::<B8, 2, B8, 2>(2, |t, a| t.add_shifted("s", a, 1, 1, ShiftVariant::CircularLeft), |a| blocks(a, 2, |_, c| vec![c[1], c[0]])); }
harness! { h_c19_selected => derived::<B1, 4, B1, 1>(4, |t, a| t.add_selected("s", a, 2), |a| blocks(a, 4, |_, c| vec![c[2]])); }
harness! { h_c19_selected_bytes => derived::<B8, 4, B8, 1>(1, |t, a| t.add_selected("s", a, 1), |a| blocks(a, 4, |_, c| vec![c[1]])); }
harness! { h_c19_selected_block => derived::<B1, 8, B1, 2>(2, |t, a| t.add_selected_block("s", a, 2), |a| blocks(a, 8, |_, c| vec![c[4], c[5]])); }
harness! { h_c19_pad => derived::<B1, 2, B1, 8>(2, |t, a| t.add_zero_pad("s", a, 2), |a| blocks(a, 2, |_, c| vec![Z, Z, Z, Z, c[0], c[1], Z, Z])); }
harness! { h_c19_pad_first => derived::<B1, 1, B1, 4>(2, |t, a| t.add_zero_pad("s", a, 1), |a| blocks(a, 1, |_, c| vec![Z, c[0], Z, Z])); }
harness! { h_c19_pad_upcast => derived::<B1, 2, B1, 8>(2, |t, a| t.add_zero_pad_upcast("s", a), |a| blocks(a, 2, |_, c| vec![Z, Z, Z, Z, Z, Z, c[0], c[1]])); }
harness! { h_c19_computed => derived::<B8, 1, B8, 1>(2, |t, a| {
	let o: Col<B8> = t.add_committed("zero");
	t.assert_zero("zero", o.into());
	t.add_computed("s", a * B8::from(0x35) + o + B8::from(0x10) + a)
}, |a| a.iter().map(|a| E(mul(*a, E(0x34, 3)).0 ^ 0x10, 3)).collect()); }
harness! { h_c19_computed_bits => derived::<B1, 4, B1, 4>(2, |t, a| {
	let r = t.add_constant("k", [B1::ONE, B1::ZERO, B1::ZERO, B1::ONE]);
	t.add_computed("s", a + r + B1::ONE)
}, |a| blocks(a, 4, |_, c| vec![c[0], E(c[1].0 ^ 1, 0), E(c[2].0 ^ 1, 0), c[3]])); }
// a nonlinear expression: the column is committed
harness! { h_c19_computed_product => derived::<B1, 4, B1, 4>(2, |t, a| {
	let r = t.add_shifted("r", a, 2, 1, ShiftVariant::CircularLeft);
	t.assert_zero("r", r + a);
	t.add_computed("s", a * r + B1::ONE)
}, |a| blocks(a, 4, |_, c| {
	// all bits of a cell are equal, or no witness is right: the column r is zero here
	c.iter().map(|c| E(1 ^ c.0, 9)).collect()
}).into_iter().map(|e| if a.iter().fold(true, |r, b| r & (b.0 == 0)) { E(e.0, 0) } else { E(2, 0) }).collect()); }
harness! { h_c19_packed => {
	let mut b = busy();
	let (a, c) = {
		let mut t = b.cs.add_table("t");
		let _: Col<B8> = t.add_committed("p");
		let a: Col<B1, 16> = t.add_committed("a");
		let p: Col<B8, 2> = t.add_packed("p", a);
		let c: Col<B8, 2> = t.add_committed("c");
		t.assert_zero("eq", p - c);
		(a, c)
	};
	let av = any_col(5, 0);
	let cv = any_col(2, 3);
	b.cells.push(cel(1, a, &av));
	b.cells.push(cel(1, c, &cv));
	let got = verdict(&b.cs, &[2, 2], &b.cells, &[]);
	check(got == same_cols(&cv, &blocks(&av, 8, |_, c| vec![E(c.iter().enumerate().fold(0, |r, (i, c)| r | c.0 << i), 3)])), 4);
}; }
harness! { h_c19_constant => {
	// the constant column is filled in; another column must equal it
	let mut b = busy();
	let c = {
		let mut t = b.cs.add_table("t");
		let _: Col<B8> = t.add_committed("p");
		let k = t.add_constant("k", [B8::from(3), B8::from(0x91)]);
		let c: Col<B8, 2> = t.add_committed("c");
		t.assert_zero("eq", k - c);
		c
	};
	let cv = any_col(3, 3);
	b.cells.push(cel(1, c, &cv));
	let got = verdict(&b.cs, &[2, 3], &b.cells, &[]);
	check(got == cv.iter().enumerate().fold(true, |r, (i, c)| r & (c.0 == [3, 0x91][i % 2])), 4);
}; }
harness! { h_c19_incrementing => {
	let mut b = busy();
	let s = {
		let mut t = b.cs.add_table("t");
		t.require_power_of_two_size();
		t.add_structured::<B8>("s", StructuredDynSize::Incrementing { max_size_log: 8 })
	};
	let n = any_below(4) as usize;
	let v = any_col(n, 3);
	b.cells.push(cel(1, s, &v));
	let got = verdict(&b.cs, &[2, 1 << n], &b.cells, &[]);
	check(got == v.iter().enumerate().fold(true, |r, (i, c)| r & (c.0 == i as u128)), 4);
}; }
harness! { h_c19_fixed => {
	let mut b = busy();
	let s = {
		let mut t = b.cs.add_table("t");
		t.require_fixed_size(2);
		let e: ArithExpr<B128> = ArithExpr::Var(0) * ArithExpr::Var(1) + ArithExpr::Const(x(4)) * ArithExpr::Var(1) + ArithExpr::Const(x(0x11));
		t.add_fixed::<B8>("s", ArithCircuit::from(&e))
	};
	let v = any_col(2, 3);
	b.cells.push(cel(1, s, &v));
	let got = verdict(&b.cs, &[2, 4], &b.cells, &[]);
	check(got == v.iter().enumerate().fold(true, |r, (i, c)| r & (c.0 == [0x11, 0x11, 0x15, 0x14][i])), 4);
}; }
harness! { h_c19_static_exp => {
	let mut b = busy();
	let (bits, e) = {
		let mut t = b.cs.add_table("t");
		let bits: [Col<B1>; 3] = t.add_committed_multiple("b");
		let e = t.add_static_exp("e", &bits, B8::from(0x2d));
		(bits, e)
	};
	let bv: Vec<_> = bits.iter().map(|_| any_col(1, 0)).collect();
	let ev = any_col(1, 3);
	let _ = e;
	let got = exponents(&b.cs, &[2, 2], &[("b[0]", &bv[0]), ("b[1]", &bv[1]), ("b[2]", &bv[2]), ("e", &ev)]);
	let mut ok = true;
	for r in 0..2 {
		for k in 0..8 {
			let is = (0..3).fold(true, |a, j| a & (bv[j][r].0 == k >> j & 1));
			ok &= !is | (ev[r].0 == pow(E(0x2d, 3), k as u64).0);
		}
	}
	check(got == ok, 4);
}; }
harness! { h_c19_dynamic_exp => {
	let mut b = busy();
	let (bits, a, e) = {
		let mut t = b.cs.add_table("t");
		let bits: [Col<B1>; 2] = t.add_committed_multiple("b");
		let _: Col<B8> = t.add_committed("x");
		let a: Col<B8> = t.add_committed("a");
		let e = t.add_dynamic_exp("e", &bits, a);
		(bits, a, e)
	};
	let bv: Vec<_> = bits.iter().map(|_| any_col(0, 0)).collect();
	let (av, ev) = (any_col(0, 3), any_col(0, 3));
	let _ = (e, a);
	let got = exponents(&b.cs, &[2, 1], &[("b[0]", &bv[0]), ("b[1]", &bv[1]), ("a", &av), ("e", &ev)]);
	let mut ok = true;
	for k in 0..4 {
		let is = (0..2).fold(true, |a, j| a & (bv[j][0].0 == k >> j & 1));
		ok &= !is | (ev[0].0 == pow(av[0], k as u64).0);
	}
	check(got == ok, 4);
}; }
// constraints over several partitions, each on all values of a cell
harness! { h_c19_constraints => {
	let mut b = busy();
	let n = 1 + any_below(3) as usize;
	let (a, c, d, e) = {
		let mut t = b.cs.add_table("t");
		let d: Col<B1, 4> = t.add_committed("d");
		let a: Col<B1> = t.add_committed("a");
		let e: Col<B1, 4> = t.add_committed("e");
		let c: Col<B1> = t.add_committed("c");
		let _: Col<B1> = t.add_committed("unused");
		t.assert_zero("one", c * a);
		t.assert_zero("two", d * e - d);
		t.assert_zero("three", (a + c + B1::ONE) * c);
		t.assert_zero("four", (d + B1::ONE).pow(2) * (e + B1::ONE));
		(a, c, d, e)
	};
	let l = n.next_power_of_two().ilog2() as usize;
	let (av, cv, dv, ev) = (any_col(l, 0), any_col(l, 0), any_col(l + 2, 0), any_col(l + 2, 0));
	b.cells.extend([cel(1, a, &av), cel(1, c, &cv), cel(1, d, &dv), cel(1, e, &ev)]);
	let got = verdict(&b.cs, &[2, n], &b.cells, &[]);
	let mut ok = true;
	for (a, c) in av.iter().zip(&cv) {
		ok &= (a.0 & c.0) == 0;
		ok &= ((a.0 ^ c.0 ^ 1) & c.0) == 0;
	}
	for (d, e) in dv.iter().zip(&ev) {
		ok &= (d.0 & e.0) == d.0;
		ok &= (d.0 | e.0) == 1;
	}
	check(got == ok, 4);
}; }
harness! { h_c19_constraint_upcast => {
	// a bit column in a constraint over bytes
	let mut b = busy();
	let (a, c) = {
		let mut t = b.cs.add_table("t");
		let a: Col<B8, 2> = t.add_committed("a");
		let c: Col<B1, 2> = t.add_committed("c");
		t.assert_zero("m", (upcast_col(c) - B8::ONE) * (a - B8::from(0x29)));
		(a, c)
	};
	let (av, cv) = (any_col(1, 3), any_col(1, 0));
	b.cells.extend([cel(1, a, &av), cel(1, c, &cv)]);
	let got = verdict(&b.cs, &[2, 1], &b.cells, &[]);
	let mut ok = true;
	for (a, c) in av.iter().zip(&cv) {
		ok &= (c.0 == 1) | (a.0 == 0x29);
	}
	check(got == ok, 4);
}; }
harness! { h_c19_nonzero => {
	let mut b = busy();
	let (a, c) = {
		let mut t = b.cs.add_table("t");
		let a: Col<B8, 2> = t.add_committed("a");
		let c: Col<B8, 2> = t.add_committed("c");
		t.assert_nonzero(c);
		(a, c)
	};
	let (av, cv) = (any_col(2, 3), any_col(2, 3));
	b.cells.extend([cel(1, a, &av), cel(1, c, &cv)]);
	let got = verdict(&b.cs, &[0, 2], &b.cells, &[]);
	let mut ok = true;
	for c in &cv {
		ok &= c.0 != 0;
	}
	check(got == ok, 4);
}; }
fn fork(n: usize) -> Vec<E> {
	(0..n).map(|_| E(any_below(2) as u128, 0)).collect()
}
// pushes and pulls of two tables, of all rows up to the size of the table, selected rows, multiplicities
harness! { h_c19_flush => {
	let mut b = busy();
	let ch0 = b.cs.add_channel("zero");
	let ch = b.cs.add_channel("one");
	let (a, c) = {
		let mut t = b.cs.add_table("t");
		let _: Col<B1, 2> = t.add_committed("u");
		let c: Col<B1> = t.add_committed("c");
		let a: Col<B1> = t.add_committed("a");
		t.push(ch, [a, c]);
		(a, c)
	};
	let (d, s) = {
		let mut t = b.cs.add_table("u");
		let d: Col<B1> = t.add_committed("d");
		let s: Col<B1> = t.add_committed("s");
		t.pull_with_opts(ch, [d, s], FlushOpts { multiplicity: 3, selectors: vec![s] });
		(d, s)
	};
	let (av, cv, dv, sv) = (fork(4), fork(4), fork(1), fork(1));
	b.cells.extend([cel(1, a, &av), cel(1, c, &cv), cel(2, d, &dv), cel(2, s, &sv)]);
	let k = any_below(2) as u128;
	let bd = [
		Boundary { values: vec![x(k), x(0)], channel_id: ch, direction: FlushDirection::Pull, multiplicity: 3 },
		Boundary { values: vec![x(k)], channel_id: ch0, direction: FlushDirection::Pull, multiplicity: 2 },
		Boundary { values: vec![x(k)], channel_id: ch0, direction: FlushDirection::Push, multiplicity: 2 },
	];
	let got = verdict(&b.cs, &[2, 3, 1], &b.cells, &bd);
	// three rows pushed, three times the same row pulled
	let mut f: Vec<Fl> = (0..3).map(|r| (0, vec![av[r].0, cv[r].0], true, 1)).collect();
	f.push((0, vec![dv[0].0, sv[0].0], sv[0].0 == 1, -3));
	f.push((0, vec![k, 0], true, -3));
	check(got == balanced(&f), 4);
}; }
harness! { h_c19_lookup => {
	// reads of stacked values from a table
	let mut b = busy();
	let ch = b.cs.add_channel("l");
	let a = {
		let mut t = b.cs.add_table("t");
		let a: Col<B1, 2> = t.add_committed("a");
		t.read(ch, [a]);
		a
	};
	let (d, s) = {
		let mut t = b.cs.add_table("u");
		let d: Col<B1> = t.add_committed("d");
		let s: Col<B1> = t.add_committed("s");
		t.push_with_opts(ch, [d], FlushOpts { multiplicity: 2, selectors: vec![s] });
		(d, s)
	};
	let (av, dv, sv) = (fork(4), fork(2), fork(2));
	b.cells.extend([cel(1, a, &av), cel(2, d, &dv), cel(2, s, &sv)]);
	let got = verdict(&b.cs, &[2, 2, 2], &b.cells, &[]);
	let mut f: Vec<Fl> = av.iter().map(|a| (0, vec![a.0], true, -1)).collect();
	f.extend((0..2).map(|r| (0, vec![dv[r].0], sv[r].0 == 1, 2)));
	check(got == balanced(&f), 4);
}; }

// ---- filling in tables
struct Fill {
	id: usize,
	a: Col<B8>,
	b: Col<B8, 2>,
	c: Col<B1, 8>,
	p: Col<B8>,
}
impl TableFiller<P> for Fill {
	type Event = [u8; 4];
	fn id(&self) -> usize {
		self.id
	}
	fn fill(&self, rows: &[[u8; 4]], w: &mut TableWitnessSegment<P>) -> anyhow::Result<()> {
		check(rows.len() == w.size(), 10);
		let mut a = w.get_mut_as::<u8, _, 1>(self.a)?;
		let mut b = w.get_scalars_mut(self.b)?;
		for (k, r) in rows.iter().enumerate() {
			a[k] = r[0];
			b[2 * k] = B8::from(r[1]);
			b[2 * k + 1] = B8::from(r[2]);
		}
		let mut c = w.get_mut_as::<u8, _, 8>(self.c)?;
		for (k, r) in rows.iter().enumerate() {
			c[k] = r[3];
		}
		Ok(())
	}
}
fn fill_table(rows: usize, log_seg: usize, par: bool) {
	let mut b = busy();
	let f = {
		let mut t = b.cs.add_table("t");
		let c = t.add_committed("c");
		let b = t.add_committed("b");
		let p = t.add_packed("p", c);
		Fill { id: t.id(), a: t.add_committed("a"), b, c, p }
	};
	let mut al = CpuComputeAllocator::new(1 << 12);
	let al = al.into_bump_allocator();
	let c = b.cs.compile().unwrap();
	let named = |s: &str| c.oracles.polys().find(|o| o.name.as_deref() == Some(s)).unwrap().id;
	let (oc, ob, op, oa) = (named("c"), named("b"), named("p"), named("a"));
	let mut w = WitnessIndex::<P>::new(&b.cs, &al);
	// a row in every 4 is arbitrary
	let ev: Vec<[u8; 4]> = (0..rows).map(|k| if k % 4 == 3 || k + 1 == rows { any::<4>() } else { [k as u8, 0x80 ^ k as u8, 1, 0x51 ^ k as u8] }).collect();
	{
		let tw = w.init_table(f.id, rows).unwrap();
		check(tw.capacity() == rows.next_power_of_two(), 11);
		match par {
			true => tw.fill_parallel_with_segment_size(&f, &ev, log_seg).unwrap(),
			false => tw.fill_sequential_with_segment_size(&f, &ev, log_seg).unwrap(),
		}
		check(tw.fill_sequential_with_segment_size(&f, &ev[1..], log_seg).is_err(), 12);
		let s = tw.full_segment();
		let cap = rows.next_power_of_two();
		let (a, b, c, p) = (s.get_dyn(f.a.id()).unwrap(), s.get_scalars(f.b).unwrap(), s.get_as::<u8, _, 8>(f.c).unwrap(), s.get_dyn(f.p.id()).unwrap());
		for k in 0..cap {
			let row = [a.get(k).val(), b[2 * k].val() as u128, b[2 * k + 1].val() as u128, c[k] as u128];
			check(p.get(k).val() == row[3], 13);
			if k < rows {
				check(row == ev[k].map(|x| x as u128), 14);
			} else {
				// padded by a copy of a row
				let mut any = false;
				for e in &ev {
					any |= row == e.map(|x| x as u128);
				}
				check(any, 15);
			}
		}
	}
	// and the polynomials the constraints are over
	let sz = w.table_sizes();
	check(sz == [0, rows], 16);
	let m = w.into_multilinear_extension_index();
	let n = rows.next_power_of_two().ilog2() as usize;
	let get = |id, k: usize| m.get_multilin_poly(id).unwrap().evaluate_on_hypercube(k).unwrap().val();
	let nv = |id| m.get_multilin_poly(id).unwrap().n_vars();
	check([nv(oc), nv(ob), nv(op), nv(oa)] == [n + 3, n + 1, n, n], 17);
	for k in 0..rows {
		check(get(oa, k) == ev[k][0] as u128, 18);
		check(get(op, k) == ev[k][3] as u128, 19);
		check(get(ob, 2 * k) == ev[k][1] as u128, 20);
		check(get(ob, 2 * k + 1) == ev[k][2] as u128, 20);
		for j in 0..8 {
			check(get(oc, 8 * k + j) == (ev[k][3] >> j & 1) as u128, 21);
		}
	}
}
harness! { h_c19_fill => fill_table(23, 0, false); }
harness! { h_c19_fill_parallel => fill_table(37, 4, true); }
harness! { h_c19_fill_whole => fill_table(5, 10, false); }
harness! { h_c19_fill_whole_parallel => fill_table(3, 10, true); }
harness! { h_c19_fill_exact => { let p = any_below(2) == 1; fill_table(32, 4, p) }; }

// expressions over filled-in columns
harness! { h_c19_eval_expr => {
	let mut cs = ConstraintSystem::new();
	let (a, b, e) = {
		let mut t = cs.add_table("t");
		let _: Col<B8> = t.add_committed("p");
		let a: Col<B1, 8> = t.add_committed("a");
		let _: Col<B1, 8> = t.add_committed("q");
		let b: Col<B1, 8> = t.add_committed("b");
		let e: Expr<B1, 8> = (a + B1::ONE) * b + a;
		(a, b, e)
	};
	let mut al = CpuComputeAllocator::new(1 << 12);
	let al = al.into_bump_allocator();
	let mut w = WitnessIndex::<P>::new(&cs, &al);
	let tw = w.init_table(0, 32).unwrap();
	for (i, s) in tw.segments(4).enumerate() {
		check(s.size() == 16 && s.index() == i, 30);
		{
			let mut a = s.get_mut_as::<u8, _, 8>(a).unwrap();
			let mut b = s.get_mut_as::<u8, _, 8>(b).unwrap();
			check(a.len() == 16 && b.len() == 16, 31);
			for k in 0..16 {
				a[k] = any::<1>()[0];
				b[k] = any::<1>()[0];
			}
		}
		let r: Vec<u8> = s.eval_expr(&e).unwrap().flat_map(|p| bytes_of(&p).to_vec()).collect();
		check(r.len() == 16, 32);
		let (a, b) = (s.get_as::<u8, _, 8>(a).unwrap(), s.get_as::<u8, _, 8>(b).unwrap());
		for k in 0..16 {
			check(r[k] == (!a[k] & b[k]) ^ a[k], 33);
		}
	}
}; }
// a column of another table is refused
harness! { h_c19_tables => {
	let mut cs = ConstraintSystem::new();
	let a: Col<B8> = cs.add_table("t").add_committed("a");
	let b: Col<B8> = cs.add_table("u").add_committed("b");
	let mut al = CpuComputeAllocator::new(1 << 12);
	let al = al.into_bump_allocator();
	let mut w = WitnessIndex::<P>::new(&cs, &al);
	check(w.init_table(0, 0).is_err(), 40);
	let v = any::<1>()[0];
	{
		let s = w.init_table(0, 2).unwrap().full_segment();
		s.get_mut_as::<u8, _, 1>(a).unwrap()[1] = v;
		check(s.get(b).is_err(), 41);
		check(s.get_mut(b).is_err(), 42);
		check(s.get_scalars(b).is_err(), 43);
		check(s.get_as::<u8, _, 1>(b).is_err(), 44);
		check(s.get_mut_as::<u8, _, 1>(b).is_err(), 45);
		check(s.get_as::<u8, _, 1>(a).unwrap()[1] == v, 46);
	}
	check(w.init_table(0, 2).is_err(), 47);
	check(w.table_sizes() == [2, 0], 48);
}; }
