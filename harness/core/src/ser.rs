//! C10: everything serialized is read back unchanged, in both modes, and short buffers are errors.
use binius_core::constraint_system::{channel::*, exp::Exp, ConstraintSystem, TableSizeSpec};
use binius_core::oracle::*;
use binius_core::polynomial::MultivariatePoly;
use binius_core::transparent::{
	constant::Constant, powers::Powers, select_row::SelectRow, step_down::StepDown, step_up::StepUp, tower_basis::TowerBasis,
	MultilinearExtensionTransparent,
};
use binius_fast_compute::arith_circuit::ArithCircuitPoly;
use binius_field::arch::OptimalUnderlier;
use binius_field::as_packed_field::PackedType;
use binius_field::packed::*;
use binius_field::*;
use binius_math::*;
use binius_utils::*;
use fref::{any_f, Sc};
use generic_array::{typenum::*, GenericArray};
use symapi::*;

type F = BinaryField128b;
const MODES: [SerializationMode; 2] = [SerializationMode::Native, SerializationMode::CanonicalTower];

fn rt_with<T: SerializeBytes + DeserializeBytes>(v: &T, short: bool, eq: &dyn Fn(&T, &T) -> bool) {
	for mode in MODES {
		let mut buf = Vec::new();
		v.serialize(&mut buf, mode).unwrap();
		let n = buf.len();
		let mut more = buf.clone();
		more.extend(any::<3>());
		let mut rd: &[u8] = &more;
		let w = T::deserialize(&mut rd, mode).unwrap();
		check(eq(v, &w), 1);
		check(rd.len() == 3, 2);
		let mut again = Vec::new();
		w.serialize(&mut again, mode).unwrap();
		check(again == buf, 3);
		if short {
			for k in 0..n {
				check(T::deserialize(&buf[..k], mode).is_err(), 4);
				let mut space = vec![0u8; k];
				check(v.serialize(space.as_mut_slice(), mode).is_err(), 5);
			}
		}
		let mut space = vec![0u8; n];
		check(v.serialize(space.as_mut_slice(), mode).is_ok() && space == buf, 6);
	}
}
fn rt<T: SerializeBytes + DeserializeBytes + PartialEq>(v: T) {
	rt_with(&v, true, &|a, b| a == b);
}
fn bytes<T: SerializeBytes>(v: &T, mode: SerializationMode) -> Vec<u8> {
	let mut b = Vec::new();
	v.serialize(&mut b, mode).unwrap();
	b
}
/// a field whose canonical form is another field
fn canon<A: BinaryField + TowerField + Into<<A as TowerField>::Canonical>>() {
	let x: A = any_f();
	let b = bytes(&x, SerializationMode::CanonicalTower);
	let c: <A as TowerField>::Canonical = x.into();
	check(b == bytes(&c, SerializationMode::Native), 10);
	check(b == bytes(&c, SerializationMode::CanonicalTower), 11);
	check(A::Canonical::deserialize(&b[..], SerializationMode::CanonicalTower).unwrap() == c, 12);
	rt(x);
}
fn scalars() {
	rt(any_f::<BinaryField1b>());
	rt(any_f::<BinaryField2b>());
	rt(any_f::<BinaryField4b>());
	rt(any_f::<BinaryField8b>());
	rt(any_f::<BinaryField16b>());
	rt(any_f::<BinaryField32b>());
	rt(any_f::<BinaryField64b>());
	rt(any_f::<BinaryField128b>());
	// little-endian, tower coordinates in order
	let x = any_u64();
	check(bytes(&BinaryField64b::from(x), SerializationMode::CanonicalTower) == x.to_le_bytes(), 13);
}
fn packed() {
	rt::<PackedBinaryField8x1b>(any_pod());
	rt::<PackedBinaryField4x4b>(any_pod());
	rt::<PackedBinaryField2x16b>(any_pod());
	rt::<PackedBinaryField2x32b>(any_pod());
	rt::<PackedBinaryField16x8b>(any_pod());
	rt::<PackedBinaryField1x128b>(any_pod());
	rt::<PackedBinaryField256x1b>(any_pod());
	rt::<PackedBinaryField4x64b>(any_pod());
	rt::<PackedAESBinaryField32x8b>(any_pod());
}
fn packed512() {
	rt_with(&any_pod::<PackedBinaryField4x128b>(), false, &|a, b| a == b);
	rt_with(&any_pod::<PackedBinaryField64x8b>(), false, &|a, b| a == b);
}
fn plain() {
	rt(any_u8());
	rt(any_u16());
	rt(any_u32());
	rt(any_u64());
	rt(any_u128());
	rt(any_bool());
	rt((any_u16(), any_u64()));
	rt(Some(any_u32()));
	rt(None::<u64>);
	rt(Some((any_bool(), Some(any_u16()))));
	rt(std::marker::PhantomData::<u64>);
	rt::<GenericArray<u8, U5>>(any_pod());
	rt::<GenericArray<u8, U32>>(any_pod());
	let n = any_below(4);
	rt((0..n).map(|_| any_u32()).collect::<Vec<u32>>());
	rt((0..n).map(|i| (0..i).map(|_| any_u8()).collect()).collect::<Vec<Vec<u8>>>());
	rt(vec![String::from("ab"), String::new(), String::from("é")]);
	let v: Vec<BinaryField8b> = (0..n).map(|_| any_f()).collect();
	check(bytes(&v, SerializationMode::Native) == bytes(&v.as_slice().to_vec(), SerializationMode::Native), 20);
	let x = any_usize();
	let mut b = Vec::new();
	let r = x.serialize(&mut b, SerializationMode::Native);
	if x <= u32::MAX as usize {
		check(r.is_ok() && usize::deserialize(&b[..], SerializationMode::Native).unwrap() == x, 21);
	} else {
		check(r.is_err(), 22);
	}
}
/// any bytes: never a panic, and what is accepted is read from the bytes it claims
fn garbage() {
	let b: [u8; 9] = any();
	let n = any_below(10);
	let mode = MODES[any_below(2)];
	let _ = u32::deserialize(&b[..n], mode);
	let _ = Option::<u16>::deserialize(&b[..n], mode);
	let _ = ShiftVariant::deserialize(&b[..n], mode);
	let _ = ProjectionVariant::deserialize(&b[..n], mode);
	let _ = TableSizeSpec::deserialize(&b[..n], mode);
	let _ = BinaryField4b::deserialize(&b[..n], mode);
	let _ = AESTowerField64b::deserialize(&b[..n], mode);
	match ConstraintPredicate::<BinaryField32b>::deserialize(&b[..n], mode) {
		Ok(ConstraintPredicate::Sum(x)) => check(n >= 5 && b[0] == 0 && bytes(&x, mode) == b[1..5], 1),
		Ok(ConstraintPredicate::Zero) => check(n >= 1 && b[0] == 1, 2),
		Err(_) => check(n == 0 || b[0] > 1 || (b[0] == 0 && n < 5), 3),
	}
	match FlushDirection::deserialize(&b[..n], mode) {
		Ok(FlushDirection::Push) => check(n >= 1 && b[0] == 0, 4),
		Ok(FlushDirection::Pull) => check(n >= 1 && b[0] == 1, 5),
		Err(_) => check(n == 0 || b[0] > 1, 6),
	}
	match OracleOrConst::<BinaryField8b>::deserialize(&b[..n], mode) {
		Ok(OracleOrConst::Oracle(i)) => check(n >= 5 && b[0] == 0 && (i.index() as u32).to_le_bytes() == b[1..5], 7),
		Ok(OracleOrConst::Const { base, tower_level }) => {
			check(n >= 6 && b[0] == 1 && bytes(&base, mode) == b[1..2] && (tower_level as u32).to_le_bytes() == b[2..6], 8)
		}
		Err(_) => check(n == 0 || b[0] > 1 || n < 6, 9),
	}
}
fn ids() {
	let x = any_usize();
	let id = OracleId::from_index(x);
	let mut b = Vec::new();
	match id.serialize(&mut b, SerializationMode::Native) {
		Ok(()) => check(OracleId::deserialize(&b[..], SerializationMode::Native).unwrap() == id, 1),
		Err(_) => check(x > u32::MAX as usize, 2),
	}
	rt(OracleId::from_index(any_u32() as usize));
}
fn circuits() -> ArithCircuit<F> {
	circuit(any_f())
}
fn circuit(c: F) -> ArithCircuit<F> {
	let x = ArithExpr::Var(0);
	let e = x.clone() * ArithExpr::Var(2) + ArithExpr::Const(c) * x.clone().pow(5) + ArithExpr::Var(1);
	ArithCircuit::from(&e)
}
fn arith() {
	let k = any_below(4);
	let c = match k {
		0 => circuits(),
		1 => ArithCircuit::var(any_u32() as usize & 0xffff),
		2 => ArithCircuit::constant(any_f::<F>()),
		_ => ArithCircuit::var(1).pow(any_u64()),
	};
	rt_with(&c, k != 0, &|a, b| a == b && a.steps() == b.steps());
	let p = ArithCircuitPoly::with_n_vars(5, circuit(F::new(0x1234 << 100 | any_below(2) as u128))).unwrap();
	rt_with(&p, false, &|a, b| {
		a == b && CompositionPoly::<F>::n_vars(a) == CompositionPoly::<F>::n_vars(b) && a.expr().steps() == b.expr().steps()
	});
	let s = [ArithCircuitStep::Add(3, 4), ArithCircuitStep::Mul(1, 70000), ArithCircuitStep::Pow(9, any_u64()), ArithCircuitStep::Const(any_f::<F>()), ArithCircuitStep::Var(2)][any_below(5)];
	rt(s);
}
/// round trip through the type-erased form: same number of variables, degree, level, and same polynomial (on the cube and at a point)
fn erased<M: MultivariatePoly<F> + 'static>(m: M, on_cube: bool) {
	let m: Box<dyn MultivariatePoly<F>> = Box::new(m);
	let n = m.n_vars();
	rt_with(&m, false, &|a, b| {
		let mut ok = a.n_vars() == b.n_vars() && a.binary_tower_level() == b.binary_tower_level() && a.degree() == b.degree();
		if ok && on_cube {
			for i in 0..1usize << n {
				let q: Vec<F> = (0..n).map(|k| if i >> k & 1 == 1 { F::ONE } else { F::ZERO }).collect();
				ok &= a.evaluate(&q).unwrap() == b.evaluate(&q).unwrap();
			}
		}
		ok
	});
}
fn mle_erased<P: PackedField, PE: PackedField<Scalar = F> + RepackedExtension<P>>(n: usize, fix: bool)
where
	F: ExtensionField<P::Scalar>,
	P::Scalar: TowerField,
{
	merge(false);
	let mut v: Vec<P> = (0..1usize << n.saturating_sub(P::LOG_WIDTH)).map(|_| any_pod()).collect();
	if fix {
		// one value that lies in no smaller field
		set_packed_slice(&mut v, 0, P::Scalar::MULTIPLICATIVE_GENERATOR);
	}
	let m = MultilinearExtensionTransparent::<P, PE, _>::from_values_and_mu(v.clone(), n).unwrap();
	let f: Vec<F> = (0..1usize << n).map(|i| get_packed_slice(&v, i).into()).collect();
	let m: Box<dyn MultivariatePoly<F>> = Box::new(m);
	for mode in MODES {
		let b = bytes(&m, mode);
		let r = Box::<dyn MultivariatePoly<F>>::deserialize(&b[..], mode).unwrap();
		check(r.n_vars() == n, 1);
		check(r.binary_tower_level() <= m.binary_tower_level(), 2);
		for i in 0..1usize << n {
			let q: Vec<F> = (0..n).map(|k| if i >> k & 1 == 1 { F::ONE } else { F::ZERO }).collect();
			check(r.evaluate(&q).unwrap() == f[i], 3);
		}
	}
}
type U = OptimalUnderlier;
type PF<X> = PackedType<U, X>;

fn cs() -> ConstraintSystem<F> {
	let mut o = SymbolicMultilinearOracleSet::<F>::new();
	let a = o.add_oracle(0, 2, "a").committed(3);
	let b = o.add_oracle(0, 2, "b").committed(3);
	let g: F = any_f();
	let h: F = any_f();
	let t = o.add_oracle(1, 0, "t").transparent(Powers::new(3, F::new(0x1234_5678_9abc))).unwrap();
	let s = o.add_oracle(0, 2, "s").structured(ArithCircuit::var(0) * ArithCircuit::var(1)).unwrap();
	let r = o.add_oracle(1, 4, "r").repeating(a).unwrap();
	let sh = o.add_oracle(0, 2, "sh").shifted(a, 2, 2, [ShiftVariant::CircularLeft, ShiftVariant::LogicalLeft, ShiftVariant::LogicalRight][any_below(3)]).unwrap();
	let p = o.add_oracle(0, 1, "p").packed(a, 1).unwrap();
	let pr = o.add_oracle(0, 1, "pr").projected(a, vec![g], 1).unwrap();
	let pl = o.add_oracle(0, 1, "").projected_last_vars(a, vec![h]).unwrap();
	let lc = o.add_oracle(0, 2, "lc").linear_combination_with_offset(h, [(a, g), (b, h)]).unwrap();
	let z = o.add_oracle(0, 4, "z").zero_padded(a, 2, 1, 2).unwrap();
	let c = o.add_oracle(0, 2, "c").composite_mle([a, b], ArithCircuit::var(0) * ArithCircuit::var(1) + ArithCircuit::constant(g)).unwrap();
	let con = |n: &str, predicate| Constraint { name: n.into(), composition: circuits(), predicate };
	ConstraintSystem {
		oracles: o,
		table_constraints: vec![
			ConstraintSet {
				table_id: 1,
				log_values_per_row: 2,
				oracle_ids: vec![a, b, lc],
				constraints: vec![con("x", ConstraintPredicate::Zero), con("", ConstraintPredicate::Sum(g))],
			},
			ConstraintSet { table_id: 0, log_values_per_row: 0, oracle_ids: vec![], constraints: vec![] },
		],
		non_zero_oracle_ids: vec![sh, p],
		flushes: vec![
			Flush {
				table_id: 0,
				log_values_per_row: 2,
				oracles: vec![OracleOrConst::Oracle(z), OracleOrConst::Const { base: h, tower_level: 6 }],
				channel_id: 5,
				direction: [FlushDirection::Push, FlushDirection::Pull][any_below(2)],
				selectors: vec![c],
				multiplicity: any_u64(),
			},
		],
		exponents: vec![Exp { bits_ids: vec![pr, pl], base: OracleOrConst::Const { base: g, tower_level: 3 }, exp_result_id: r }],
		channel_count: 7,
		table_size_specs: vec![TableSizeSpec::Arbitrary, TableSizeSpec::PowerOfTwo, TableSizeSpec::Fixed { log_size: 9 }],
	}
}
fn same_var(a: &SymbolicMultilinearPolyVariant<F>, b: &SymbolicMultilinearPolyVariant<F>) -> bool {
	use SymbolicMultilinearPolyVariant::Transparent;
	match (a, b) {
		(Transparent(x), Transparent(y)) => {
			let q = [F::ONE, F::ZERO, F::ONE];
			x.poly().n_vars() == y.poly().n_vars() && x.poly().evaluate(&q).unwrap() == y.poly().evaluate(&q).unwrap()
		}
		_ => a == b,
	}
}
#[inline(never)]
fn eq_oracles(a: &ConstraintSystem<F>, b: &ConstraintSystem<F>) -> bool {
	let mut ok = a.oracles.size() == b.oracles.size();
	for (x, y) in a.oracles.polys().zip(b.oracles.polys()) {
		ok &= x.id == y.id && x.name == y.name && x.table_id == y.table_id && x.log_values_per_row == y.log_values_per_row;
		ok &= x.tower_level == y.tower_level && same_var(&x.variant, &y.variant);
	}
	ok
}
#[inline(never)]
fn eq_constraints(a: &ConstraintSystem<F>, b: &ConstraintSystem<F>) -> bool {
	let mut ok = a.table_constraints.len() == b.table_constraints.len();
	for (x, y) in a.table_constraints.iter().zip(&b.table_constraints) {
		ok &= x.table_id == y.table_id && x.log_values_per_row == y.log_values_per_row && x.oracle_ids == y.oracle_ids;
		ok &= x.constraints.len() == y.constraints.len();
		for (c, d) in x.constraints.iter().zip(&y.constraints) {
			ok &= c.name == d.name && c.composition.steps() == d.composition.steps();
			ok &= match (&c.predicate, &d.predicate) {
				(ConstraintPredicate::Zero, ConstraintPredicate::Zero) => true,
				(ConstraintPredicate::Sum(u), ConstraintPredicate::Sum(v)) => u == v,
				_ => false,
			};
		}
	}
	ok
}
#[inline(never)]
fn eq_flushes(a: &ConstraintSystem<F>, b: &ConstraintSystem<F>) -> bool {
	let mut ok = a.non_zero_oracle_ids == b.non_zero_oracle_ids && a.channel_count == b.channel_count;
	ok &= a.flushes.len() == b.flushes.len() && a.exponents.len() == b.exponents.len();
	for (x, y) in a.flushes.iter().zip(&b.flushes) {
		ok &= x.table_id == y.table_id && x.log_values_per_row == y.log_values_per_row && x.oracles == y.oracles;
		ok &= x.channel_id == y.channel_id && x.direction == y.direction && x.selectors == y.selectors && x.multiplicity == y.multiplicity;
	}
	for (x, y) in a.exponents.iter().zip(&b.exponents) {
		ok &= x.bits_ids == y.bits_ids && x.base == y.base && x.exp_result_id == y.exp_result_id;
	}
	ok
}
fn system() {
	rt_with(&cs(), false, &|a, b| {
		eq_oracles(a, b)
			&& eq_constraints(a, b)
			&& eq_flushes(a, b)
			&& a.table_size_specs.len() == 3
			&& matches!(b.table_size_specs[..], [TableSizeSpec::Arbitrary, TableSizeSpec::PowerOfTwo, TableSizeSpec::Fixed { log_size: 9 }])
	});
	rt(Boundary { values: vec![any_f::<F>()], channel_id: 3, direction: FlushDirection::Pull, multiplicity: any_u64() });
}
fn oracle_set() {
	let mut o = MultilinearOracleSet::<F>::new();
	let g: F = any_f();
	let h: F = any_f();
	let a = o.add_named("a").committed(4, 3);
	let b = o.add_committed(4, 3);
	let ids = [
		o.add_transparent(StepUp::new(3, 5).unwrap()).unwrap(),
		o.add_repeating(a, 3).unwrap(),
		o.add_shifted(a, 3, 2, ShiftVariant::LogicalRight).unwrap(),
		o.add_packed(a, 2).unwrap(),
		o.add_projected(a, vec![g, h], 1).unwrap(),
		o.add_projected_last_vars(b, vec![h]).unwrap(),
		o.add_linear_combination_with_offset(4, g, [(a, g), (b, h)]).unwrap(),
		o.add_zero_padded(a, 2, 1, 3).unwrap(),
		o.add_composite_mle(4, [a, b], ArithCircuit::var(0) * ArithCircuit::var(1) + ArithCircuit::constant(F::new(77))).unwrap(),
	];
	rt_with(&o, false, &|x, y| {
		let mut ok = x.size() == y.size();
		for (p, q) in x.polys().zip(y.polys()) {
			ok &= p.id == q.id && p.name == q.name && p.n_vars == q.n_vars && p.tower_level == q.tower_level;
			ok &= match (&p.variant, &q.variant) {
				(MultilinearPolyVariant::Transparent(s), MultilinearPolyVariant::Transparent(t)) => s.poly().n_vars() == t.poly().n_vars(),
				(s, t) => s == t,
			};
		}
		ok
	});
}

harness! {
	h_c10_plain => plain();
	h_c10_scalars => scalars();
	h_c10_aes8 => canon::<AESTowerField8b>();
	h_c10_aes32 => canon::<AESTowerField32b>();
	h_c10_aes128 => canon::<AESTowerField128b>();
	h_c10_aes64 => { canon::<AESTowerField16b>(); canon::<AESTowerField64b>(); };
	h_c10_polyval => canon::<BinaryField128bPolyval>();
	h_c10_packed => packed();
	h_c10_packed512 => packed512();
	h_c10_garbage => garbage();
	h_c10_ids => ids();
	h_c10_arith => arith();
	h_c10_erased_const => erased(Constant::<F>::new(2, any_f::<BinaryField8b>()), true);
	h_c10_erased_powers => erased(Powers::<F>::new(2, any_f()), false);
	h_c10_erased_powers_c => erased(Powers::<F>::new(3, F::MULTIPLICATIVE_GENERATOR), true);
	h_c10_erased_select => { let i = any_below(8); erased(SelectRow::new(3, i).unwrap(), true); };
	h_c10_erased_up => { let i = any_below(9); erased(StepUp::new(3, i).unwrap(), true); };
	h_c10_erased_down => { let i = any_below(9); erased(StepDown::new(3, i).unwrap(), true); };
	h_c10_erased_tower => { let i = any_below(6); erased(TowerBasis::<F>::new(2, i).unwrap(), true); };
	h_c10_erased_arith => erased(circuits(), false);
	h_c10_mle_1 => mle_erased::<PF<BinaryField1b>, PF<F>>(2, false);
	h_c10_mle_1b => mle_erased::<PF<BinaryField1b>, PF<F>>(0, false);
	h_c10_mle_4 => mle_erased::<PF<BinaryField4b>, PF<F>>(1, false);
	h_c10_mle_2 => mle_erased::<PF<BinaryField2b>, PF<F>>(3, true);
	h_c10_mle_8 => mle_erased::<PF<BinaryField8b>, PF<F>>(3, true);
	h_c10_mle_16 => mle_erased::<PF<BinaryField16b>, PF<F>>(2, true);
	h_c10_mle_32 => mle_erased::<PF<BinaryField32b>, PF<F>>(1, true);
	h_c10_mle_64 => mle_erased::<PF<BinaryField64b>, PF<F>>(0, true);
	h_c10_mle_128s => mle_erased::<PF<F>, PF<F>>(0, true);
	h_c10_system => system();
	h_c10_oracles => oracle_set();
}
