//! C11: the library's composition polynomials, and batches of rows.
use binius_core::{
	composition::*,
	polynomial::{CompositionScalarAdapter, IdentityCompositionPoly, MultilinearComposite},
	protocols::sumcheck::eq_ind::ExtraProduct,
};
use binius_field::packed::*;
use binius_field::*;
use binius_math::*;
use symapi::*;

fn circ<P: PackedField>(c: &ArithCircuit<P::Scalar>, q: &[P]) -> P {
	use ArithCircuitStep as S;
	let mut v: Vec<P> = vec![];
	for s in c.steps() {
		let x = match s {
			S::Add(a, b) => v[*a] + v[*b],
			S::Mul(a, b) => v[*a] * v[*b],
			S::Pow(a, e) => v[*a].pow(*e),
			S::Const(c) => P::broadcast(*c),
			S::Var(i) => q[*i],
		};
		v.push(x);
	}
	*v.last().unwrap()
}
/// an implementor that leaves batches to the trait
#[derive(Debug, Clone)]
struct Plain;
impl<P: PackedField> CompositionPoly<P> for Plain {
	fn n_vars(&self) -> usize {
		3
	}
	fn degree(&self) -> usize {
		2
	}
	fn expression(&self) -> ArithCircuit<P::Scalar> {
		ArithCircuit::var(0) * ArithCircuit::var(1) + ArithCircuit::var(2)
	}
	fn binary_tower_level(&self) -> usize {
		0
	}
	fn evaluate(&self, q: &[P]) -> Result<P, binius_math::Error> {
		if q.len() != 3 {
			return Err(binius_math::Error::IncorrectQuerySize { expected: 3, actual: q.len() });
		}
		Ok(q[0] * q[1] + q[2])
	}
}
fn any_p<P: PackedField<Scalar: BinaryField>>() -> P {
	P::from_fn(|_| fref::any_f())
}
fn obey<P: PackedField<Scalar: BinaryField>>(c: &(impl CompositionPoly<P> + ?Sized), nv: usize, deg: usize, def: impl Fn(&[P]) -> P) {
	check(c.n_vars() == nv && c.degree() == deg, 1);
	check(c.binary_tower_level() == 0, 2);
	let cols: Vec<Vec<P>> = (0..nv).map(|_| (0..4).map(|_| any_p()).collect()).collect();
	let at = |r: usize| cols.iter().map(|c| c[r]).collect::<Vec<_>>();
	let x = at(0);
	check(c.evaluate(&x).unwrap() == def(&x), 3);
	check(circ(&c.expression(), &x) == def(&x), 4);
	check(c.evaluate(&x[..nv - 1]).is_err(), 5);
	let long = [&x[..], &x[..1]].concat();
	check(c.evaluate(&long).is_err(), 6);
	// batches: all columns, and subranges of them
	let refs: Vec<&[P]> = cols.iter().map(|c| c.as_slice()).collect();
	let whole = RowsBatchRef::new(&refs, 4);
	check(whole.n_rows() == nv && whole.row_len() == 4 && whole.is_empty() == (nv == 0), 7);
	let owned = RowsBatch::new(refs.clone(), 4);
	let cut = RowsBatch::new_from_iter(refs.iter().copied(), 3);
	let run = |b: &RowsBatchRef<P>, from: usize, len: usize| {
		for (i, r) in b.iter().enumerate() {
			check(r.len() == len, 8);
			for k in 0..len {
				check(r[k] == cols[i][from + k] && b.row(i)[k] == cols[i][from + k], 9);
			}
		}
		check(b.iter().count() == nv, 10);
		let mut out: Vec<P> = (0..len).map(|_| any_p()).collect();
		c.batch_evaluate(b, &mut out).unwrap();
		for k in 0..len {
			check(out[k] == def(&at(from + k)), 11);
		}
		let mut out = vec![P::zero(); len + 1];
		check(c.batch_evaluate(b, &mut out).is_err(), 12);
	};
	run(&whole, 0, 4);
	run(&owned.get_ref(), 0, 4);
	run(&cut.get_ref(), 0, 3);
	run(&RowsBatchRef::new_with_offset(&refs, 1, 2), 1, 2);
	run(&whole.columns_subrange(2..), 2, 2);
	run(&whole.columns_subrange(1..=2), 1, 2);
	run(&whole.columns_subrange(..3).columns_subrange(1..), 1, 2);
	run(&whole.columns_subrange(1..4).columns_subrange(1..2), 2, 1);
	run(&whole.columns_subrange(2..2), 2, 0);
	let sub = whole.columns_subrange(1..3);
	let picked = sub.map([nv - 1, 0, nv - 1]);
	for (i, j) in [nv - 1, 0, nv - 1].into_iter().enumerate() {
		let r = picked.get_ref().row(i);
		check(r.len() == 2 && r[0] == cols[j][1] && r[1] == cols[j][2], 13);
	}
}
fn library<P: PackedField<Scalar: BinaryField>>(k: usize)
where
	BivariateProduct: CompositionPoly<P>,
{
	let p2 = BivariateProduct::default();
	let p3 = TrivariateProduct::default();
	match k {
		0 => obey::<P>(&p2, 2, 2, |q| q[0] * q[1]),
		1 => obey::<P>(&p3, 3, 3, |q| q[0] * q[1] * q[2]),
		2 => {
			obey::<P>(&IdentityCompositionPoly, 1, 1, |q| q[0]);
			obey::<P>(&Plain, 3, 2, |q| q[0] * q[1] + q[2]);
		}
		3 => {
			obey::<P>(&IndexComposition::new(4, [3, 1], p2.clone()).unwrap(), 4, 2, |q| q[3] * q[1]);
			obey::<P>(&IndexComposition::new(2, [1, 1], p2.clone()).unwrap(), 2, 2, |q| q[1] * q[1]);
			check(IndexComposition::new(3, [3, 1], p2).is_err(), 20);
		}
		4 => {
			let c = index_composition(&["a", "b", "c", "d"], ["c", "a", "d"], Plain).unwrap();
			check(c.indices() == &[2, 0, 3], 21);
			obey::<P>(&c, 4, 2, |q| q[2] * q[0] + q[3]);
			check(index_composition(&["a", "b"], ["a", "c"], p2).is_err(), 22);
		}
		5 => {
			let c = FixedDimIndexCompositions::Bivariate(IndexComposition::new(3, [2, 0], p2).unwrap());
			obey::<P>(&c, 3, 2, |q| q[2] * q[0]);
			let c = FixedDimIndexCompositions::Trivariate(IndexComposition::new(4, [2, 0, 3], Plain).unwrap());
			obey::<P>(&c, 4, 2, |q| q[2] * q[0] + q[3]);
		}
		6 => {
			obey::<P>(&ExtraProduct { inner: Plain }, 4, 3, |q| (q[0] * q[1] + q[2]) * q[3]);
			obey::<P>(&ExtraProduct { inner: p2 }, 3, 3, |q| q[0] * q[1] * q[2]);
		}
		_ => {
			let c = CompositionScalarAdapter::<P, _>::new(Plain);
			obey::<P::Scalar>(&c, 3, 2, |q| q[0] * q[1] + q[2]);
		}
	}
}
fn composite<P: PackedField<Scalar: BinaryField>>() {
	let w = P::WIDTH;
	let n = P::LOG_WIDTH + 1;
	let t: Vec<Vec<P>> = (0..3).map(|_| vec![any_p(), any_p()]).collect();
	let ms = |n: usize| t.iter().map(|v| MLEDirectAdapter::from(MultilinearExtension::new(n, v.clone()).unwrap())).collect::<Vec<_>>();
	let c = MultilinearComposite::<P, _, _>::new(n, Plain, ms(n)).unwrap();
	check(c.n_vars() == n && c.n_multilinears() == 3 && c.max_individual_degree() == 2, 1);
	let at = |i: usize, j: usize| t[i][j / w].get(j % w);
	for j in 0..2 * w {
		check(c.evaluate_on_hypercube(j).unwrap() == at(0, j) * at(1, j) + at(2, j), 2);
	}
	check(MultilinearComposite::<P, _, _>::new(n, IdentityCompositionPoly, ms(n)).is_err(), 3);
	check(MultilinearComposite::<P, _, _>::new(n + 1, Plain, ms(n)).is_err(), 4);
	let q: Vec<P::Scalar> = (0..n).map(|_| { fref::any_f() }).collect();
	let ev = |v: &dyn Fn(usize) -> P::Scalar| {
		let mut s = (0..1 << n).map(v).collect::<Vec<_>>();
		for r in q.iter().rev() {
			let h = s.len() / 2;
			s = (0..h).map(|i| s[i] + *r * (s[i] + s[i + h])).collect();
		}
		s[0]
	};
	let mq = MultilinearQuery::<P>::expand(&q);
	let want = ev(&|j| at(0, j)) * ev(&|j| at(1, j)) + ev(&|j| at(2, j));
	check(c.evaluate(&mq).unwrap() == want, 5);
	let d = c.clone().to_arc_dyn_composition();
	check(d.evaluate(&mq).unwrap() == want, 6);
	let low = MultilinearQuery::<P>::expand(&q[..1]);
	let e = c.evaluate_partial_low(low.to_ref()).unwrap();
	check(e.n_vars() == n - 1, 7);
	let hi = MultilinearQuery::<P>::expand(&q[1..]);
	check(e.evaluate(&hi).unwrap() == want, 8);
}
harness! {
	h_c11_library_4 => { let k = any_below(8); library::<PackedBinaryField2x4b>(k); };
	h_c11_library_1 => { let k = any_below(8); library::<BinaryField4b>(k); };
	h_c11_library_2 => { let k = any_below(8); library::<PackedBinaryField4x2b>(k); };
	h_c11_composite => composite::<PackedBinaryField2x4b>();
	h_c11_composite_1 => composite::<PackedBinaryField4x2b>();
}
