//! C05: linear transformations, packed extensions and the scalar-view helpers built on them.
use binius_field::arithmetic_traits::*;
use binius_field::as_packed_field::*;
use binius_field::byte_iteration::*;
use binius_field::linear_transformation::*;
use binius_field::packed::*;
use binius_field::underlier::*;
use binius_field::util::*;
use binius_field::*;
use binius_utils::random_access_sequence::*;
use fref::Sc;
use symapi::*;

/// the scalar transformation as a GF(2) matrix product on bit patterns
fn apply(bases: &[u128], x: u128) -> u128 {
	let mut r = 0;
	for (i, b) in bases.iter().enumerate() {
		r ^= b & 0u128.wrapping_sub(x >> i & 1);
	}
	r
}
fn raw<F: WithUnderlier>(x: F) -> u128 {
	let mut b = [0u8; 16];
	let s = bytes_of(&x);
	b[..s.len()].copy_from_slice(s);
	u128::from_le_bytes(b)
}
/// x -> sum of bit i of x times basis element i, in every lane, for every matrix
fn transform<IP, OP>()
where
	IP: PackedTransformationFactory<OP>,
	OP: packed::PackedBinaryField,
	IP::Scalar: WithUnderlier + BinaryField,
	OP::Scalar: WithUnderlier + BinaryField,
{
	let n = <OP::Scalar as ExtensionField<BinaryField1b>>::DEGREE;
	let bases: Vec<OP::Scalar> = (0..n).map(|_| any_pod()).collect();
	let rb: Vec<u128> = bases.iter().map(|b| raw(*b)).collect();
	let x: IP = any_pod();
	let t = IP::make_packed_transformation(FieldLinearTransformation::new(bases.clone()));
	let y: OP = t.transform(&x);
	let scal = FieldLinearTransformation::new(bases);
	for i in 0..IP::WIDTH {
		let want = apply(&rb, raw(x.get(i)));
		check(raw(y.get(i)) == want, 1);
	}
	let one: OP::Scalar = scal.transform(&x.get(0));
	check(raw(one) == apply(&rb, raw(x.get(0))), 2);
}
/// the fixed isomorphisms applied lane-wise
fn iso_packed<A, B>(t: impl Transformation<A, B>)
where
	A: PackedField,
	B: PackedField<Scalar: From<A::Scalar>>,
{
	let x: A = any_pod();
	let y = t.transform(&x);
	for i in 0..A::WIDTH {
		check(y.get(i) == B::Scalar::from(x.get(i)), 1);
	}
}
/// same memory, subfield scalars in order
fn cast<PE, F>()
where
	F: Field,
	PE: PackedExtension<F>,
	PE::PackedSubfield: PackedField<Scalar = F>,
{
	let xs: [PE; 2] = [any_pod(), any_pod()];
	let deg = <PE::Scalar as ExtensionField<F>>::DEGREE;
	let b = xs[0].cast_base();
	check(PE::PackedSubfield::WIDTH == PE::WIDTH * deg, 1);
	for i in 0..PE::WIDTH {
		for (j, s) in ExtensionField::<F>::into_iter_bases(xs[0].get(i)).enumerate() {
			check(b.get(i * deg + j) == s, 2);
		}
	}
	check(same(&PE::cast_ext(b), &xs[0]), 3);
	check(same(PE::cast_base_ref(&xs[0]), &b) && same(PE::cast_ext_ref(&b), &xs[0]), 4);
	let bs = PE::cast_bases(&xs);
	check(bs.len() == 2 && same(&bs[0], &b) && same(&bs[1], &xs[1].cast_base()), 5);
	let es = PE::cast_exts(bs);
	check(es.len() == 2 && same(&es[0], &xs[0]) && same(&es[1], &xs[1]), 6);
	let arr = PE::cast_base_arr(xs);
	check(same(&arr[0], &b) && same(&arr[1], &xs[1].cast_base()), 7);
	let back = PE::cast_ext_arr(arr);
	check(same(&back[0], &xs[0]) && same(&back[1], &xs[1]), 8);
	let mut m = xs;
	PE::cast_bases_mut(&mut m)[1] = b;
	check(same(&m[1], &xs[0]) && same(&m[0], &xs[0]), 9);
	let mut m = xs[1];
	*m.cast_base_mut() = b;
	check(same(&m, &xs[0]), 10);
}
/// multiplying extension elements by subfield elements packed more densely
fn ext_mul<PE, F>()
where
	F: Field,
	PE: PackedExtension<F>,
	PE::Scalar: ExtensionField<F>,
{
	let deg = <PE::Scalar as ExtensionField<F>>::DEGREE;
	let lhs: Vec<PE> = (0..deg).map(|_| any_pod()).collect();
	let rhs: PE::PackedSubfield = any_pod();
	let mut out = lhs.clone();
	check(ext_base_mul(&mut out, &[rhs]).is_ok(), 1);
	let mut par = lhs.clone();
	check(ext_base_mul_par(&mut par, &[rhs]).is_ok(), 2);
	for i in 0..deg * PE::WIDTH {
		let want = get_packed_slice(&lhs, i) * rhs.get(i);
		check(get_packed_slice(&out, i) == want, 3);
		check(get_packed_slice(&par, i) == want, 4);
	}
	check(ext_base_mul(&mut out[1..], &[rhs]).is_err(), 5);
	check(ext_base_mul_par(&mut out[1..], &[rhs]).is_err(), 6);
}
fn sub_scalar<PE, F>()
where
	F: Field,
	PE: PackedExtension<F>,
	PE::PackedSubfield: PackedField<Scalar = F>,
	PE::Scalar: ExtensionField<F>,
{
	let x: PE = any_pod();
	let s: F = any_pod::<PE>().cast_base().get(0);
	let y = mul_by_subfield_scalar(x, s);
	for i in 0..PE::WIDTH {
		check(y.get(i) == x.get(i) * s, 1);
	}
}
/// inner products of packed slices of different widths
fn inner<PX, PY>(nx: usize, ny: usize)
where
	PX: PackedField,
	PY: PackedField,
	PX::Scalar: ExtensionField<PY::Scalar>,
{
	let xs: Vec<PX> = (0..nx).map(|_| any_pod()).collect();
	let ys: Vec<PY> = (0..ny).map(|_| any_pod()).collect();
	let mut want = PX::Scalar::ZERO;
	for i in 0..(nx * PX::WIDTH).min(ny * PY::WIDTH) {
		want += get_packed_slice(&xs, i) * get_packed_slice(&ys, i);
	}
	check(inner_product_par::<PX::Scalar, PX, PY>(&xs, &ys) == want, 1);
	let got: PX::Scalar = inner_product_unchecked(PX::iter_slice(&xs), PY::iter_slice(&ys));
	check(got == want, 2);
}
/// the chunked path of the inner product: few symbolic entries at the chunk boundaries
fn inner_large<PX, PY>(ny: usize)
where
	PX: PackedField,
	PY: PackedField,
	PX::Scalar: ExtensionField<PY::Scalar>,
{
	let n = ny * PY::WIDTH;
	let mut xs: Vec<PX> = vec![PX::zero(); n / PX::WIDTH];
	let mut ys: Vec<PY> = vec![PY::zero(); ny];
	let mut want = PX::Scalar::ZERO;
	for i in [0, 1, n / 2 - 1, n / 2, n - 1, 64 * PY::WIDTH - 1, 64 * PY::WIDTH, 1000 * PY::WIDTH + 1] {
		let (x, y): (PX, PY) = (any_pod(), any_pod());
		set_packed_slice(&mut xs, i, x.get(0));
		set_packed_slice(&mut ys, i, y.get(0));
		want += x.get(0) * y.get(0);
	}
	check(inner_product_par::<PX::Scalar, PX, PY>(&xs, &ys) == want, 1);
}
struct Collect(Vec<u8>);
impl ByteIteratorCallback for Collect {
	fn call(&mut self, iter: impl Iterator<Item = u8>) {
		self.0.extend(iter);
	}
}
/// byte iteration yields the bits of the scalars in order
fn bytes<P: PackedField>(must: bool)
where
	P::Scalar: WithUnderlier + ExtensionField<BinaryField1b>,
{
	check(can_iterate_bytes::<P>() || !must, 1);
	if !can_iterate_bytes::<P>() {
		return;
	}
	let xs: [P; 2] = [any_pod(), any_pod()];
	let mut c = Collect(vec![]);
	iterate_bytes(&xs, &mut c);
	let d = <P::Scalar as ExtensionField<BinaryField1b>>::DEGREE;
	check(c.0.len() * 8 == 2 * P::WIDTH * d, 2);
	for i in 0..2 * P::WIDTH {
		let s = get_packed_slice(&xs, i);
		for j in 0..d {
			let k = i * d + j;
			check(ExtensionField::<BinaryField1b>::get_base(&s, j) == BinaryField1b::from(c.0[k / 8] >> (k % 8) & 1 == 1), 3);
		}
	}
}
fn partial_sums<P: PackedField>() {
	let xs: [P; 16] = std::array::from_fn(|_| any_pod());
	let t = create_partial_sums_lookup_tables(xs.as_slice());
	check(t.len() == 512, 1);
	for c in 0..2 {
		for m in 0..256 {
			let mut want = P::zero();
			for j in 0..8 {
				if m >> j & 1 == 1 {
					want += xs[8 * c + j];
				}
			}
			check(same(&t[256 * c + m], &want), 2);
		}
	}
}
fn seq<P: PackedField>() {
	let xs: [P; 2] = [any_pod(), any_pod()];
	let n = 2 * P::WIDTH;
	let v = PackedSlice::new(&xs);
	check(v.len() == n, 1);
	for i in 0..n {
		check(v.get(i) == xs[i / P::WIDTH].get(i % P::WIDTH), 2);
	}
	let v = PackedSlice::new_with_len(&xs, n - 1);
	check(v.len() == n - 1 && v.get(n - 2) == get_packed_slice(&xs, n - 2), 3);
	let mut ys = xs;
	{
		let mut m = PackedSliceMut::new_with_len(&mut ys, n - 1);
		check(m.len() == n - 1, 4);
		let a = m.get(0);
		m.set(0, m.get(n - 2));
		m.set(n - 2, a);
	}
	for i in 0..n {
		let j = if i == 0 { n - 2 } else if i == n - 2 { 0 } else { i };
		check(get_packed_slice(&ys, i) == get_packed_slice(&xs, j), 5);
	}
}
/// byte-sliced <-> ordinary representation preserves the order of scalars
macro_rules! sliced {
	($($n:ident $t:ident $p:ident;)*) => { harness!{ $($n => {
		let x: $t = any_pod();
		let mut out: [$p; $t::HEIGHT_BYTES] = std::array::from_fn(|_| PackedField::zero());
		x.transpose_to(&mut out);
		for i in 0..<$t as PackedField>::WIDTH {
			check(get_packed_slice(&out, i) == x.get(i), 1);
		}
		check(same(&$t::transpose_from(&out), &x), 2);
	};)* } };
}
sliced! {
	h_c05_sliced_16x128b ByteSlicedAES16x128b PackedAESBinaryField1x128b;
	h_c05_sliced_16x64b ByteSlicedAES16x64b PackedAESBinaryField2x64b;
	h_c05_sliced_2x16x64b ByteSlicedAES2x16x64b PackedAESBinaryField2x64b;
	h_c05_sliced_4x16x32b ByteSlicedAES4x16x32b PackedAESBinaryField4x32b;
	h_c05_sliced_8x16x16b ByteSlicedAES8x16x16b PackedAESBinaryField8x16b;
	h_c05_sliced_16x16x8b ByteSlicedAES16x16x8b PackedAESBinaryField16x8b;
	h_c05_sliced_32x128b ByteSlicedAES32x128b PackedAESBinaryField2x128b;
	h_c05_sliced_2x32x64b ByteSlicedAES2x32x64b PackedAESBinaryField4x64b;
	h_c05_sliced_16x32x8b ByteSlicedAES16x32x8b PackedAESBinaryField32x8b;
}
fn small<const N: usize>()
where
	SmallU<N>: UnderlierWithBitOps,
{
	let (a, b) = (SmallU::<N>::new(any_u8()), SmallU::<N>::new(any_u8()));
	let max = (1u8 << N) - 1;
	check(a.val() <= max && b.val() <= max, 1);
	let (x, y) = (a.val(), b.val());
	match a.checked_add(b) {
		Some(s) => check(s.val() == x + y && x + y <= max, 2),
		None => check(x + y > max, 3),
	}
	match a.checked_sub(b) {
		Some(s) => check(s.val() == x.wrapping_sub(y) && x >= y, 4),
		None => check(x < y, 5),
	}
	check((!a).val() == !x & max && (a ^ b).val() == x ^ y && (a & b).val() == x & y && (a | b).val() == x | y, 6);
	for s in 0..N {
		check((a << s).val() == (x << s) & max && (a >> s).val() == x >> s, 7);
	}
}
/// sub-values of an underlier
fn subvalues<U, T>()
where
	T: UnderlierWithBitOps + NumCast<U>,
	U: UnderlierWithBitOps + From<T> + Copy,
	T: PartialEq + Copy,
{
	let x: U = any_pod();
	let y: U = any_pod();
	let n = U::BITS / T::BITS;
	let sub = |v: &U, i: usize| -> u64 {
		let b = bytes_of(v);
		let mut r = 0u64;
		for k in 0..T::BITS.min(64) {
			let p = i * T::BITS + k;
			r |= ((b[p / 8] >> (p % 8) & 1) as u64) << k;
		}
		r
	};
	let low = |t: &T| -> u64 {
		let b = bytes_of(t);
		let mut r = 0u64;
		for k in 0..b.len().min(8) {
			r |= (b[k] as u64) << (8 * k);
		}
		r
	};
	for i in 0..n {
		let t: T = unsafe { x.get_subvalue(i) };
		check(low(&t) == sub(&x, i), 1);
	}
	for i in [0, 1, n / 2, n - 1] {
		let mut z = x;
		unsafe { z.set_subvalue(i, y.get_subvalue::<T>(n - 1 - i)) };
		for j in 0..n {
			check(sub(&z, j) == if i == j { sub(&y, n - 1 - i) } else { sub(&x, j) }, 2);
		}
	}
	let t: T = unsafe { x.get_subvalue(1) };
	let bc = U::broadcast_subvalue(t);
	let ff = U::from_fn(|i| unsafe { x.get_subvalue::<T>(n - 1 - i) });
	for j in 0..n {
		check(sub(&bc, j) == sub(&x, 1), 3);
		check(sub(&ff, j) == sub(&x, n - 1 - j), 4);
	}
	// shifts
	for s in [0, 1, T::BITS, U::BITS / 2, U::BITS - 1] {
		let (l, r) = (x << s, x >> s);
		let bit = |v: &U, p: usize| bytes_of(v)[p / 8] >> (p % 8) & 1;
		for p in 0..U::BITS {
			check(bit(&l, p) == if p >= s { bit(&x, p - s) } else { 0 }, 5);
			check(bit(&r, p) == if p + s < U::BITS { bit(&x, p + s) } else { 0 }, 6);
		}
	}
}
type M128 = <PackedBinaryField1x128b as WithUnderlier>::Underlier;
type M256 = <PackedBinaryField2x128b as WithUnderlier>::Underlier;
harness! {
	h_c05_tr_1x8b => transform::<PackedBinaryField1x8b, PackedBinaryField1x8b>();
	h_c05_tr_16x8b => transform::<PackedBinaryField16x8b, PackedBinaryField16x8b>();
	h_c05_tr_32x8b => transform::<PackedBinaryField32x8b, PackedBinaryField32x8b>();
	h_c05_tr_8x16b => transform::<PackedBinaryField8x16b, PackedBinaryField8x16b>();
	h_c05_tr_4x32b => transform::<PackedBinaryField4x32b, PackedBinaryField4x32b>();
	h_c05_tr_2x64b => transform::<PackedBinaryField2x64b, PackedBinaryField2x64b>();
	h_c05_tr_1x128b => transform::<PackedBinaryField1x128b, PackedBinaryField1x128b>();
	h_c05_tr_2x128b => transform::<PackedBinaryField2x128b, PackedBinaryField2x128b>();
	h_c05_tr_4x128b => transform::<PackedBinaryField4x128b, PackedBinaryField4x128b>();
	h_c05_tr_8x8b => transform::<PackedBinaryField8x8b, PackedBinaryField8x8b>();
	h_c05_tr_2x16b => transform::<PackedBinaryField2x16b, PackedBinaryField2x16b>();
	h_c05_tr_a16x8b => transform::<PackedAESBinaryField16x8b, PackedAESBinaryField16x8b>();
	h_c05_tr_a4x32b => transform::<PackedAESBinaryField4x32b, PackedAESBinaryField4x32b>();
	h_c05_tr_a2x128b => transform::<PackedAESBinaryField2x128b, PackedAESBinaryField2x128b>();
	h_c05_tr_ab16x8b => transform::<PackedAESBinaryField16x8b, PackedBinaryField16x8b>();
	h_c05_tr_ba8x32b => transform::<PackedBinaryField8x32b, PackedAESBinaryField8x32b>();
	h_c05_tr_poly => transform::<PackedBinaryPolyval2x128b, PackedBinaryPolyval2x128b>();
	h_c05_tr_polyb => transform::<PackedBinaryPolyval1x128b, PackedBinaryField1x128b>();
	h_c05_tr_s16x16b => transform::<ByteSlicedAES16x16b, ByteSlicedAES16x16b>();
	h_c05_tr_s4x16x32b => transform::<ByteSlicedAES4x16x32b, ByteSlicedAES4x16x32b>();
	h_c05_tr_s16x64b => transform::<ByteSlicedAES16x64b, ByteSlicedAES16x64b>();
	h_c05_tr_s16x128b => transform::<ByteSlicedAES16x128b, ByteSlicedAES16x128b>();

	h_c05_cast_2x128_8 => cast::<PackedBinaryField2x128b, BinaryField8b>();
	h_c05_cast_2x128_1 => cast::<PackedBinaryField2x128b, BinaryField1b>();
	h_c05_cast_4x32_8 => cast::<PackedBinaryField4x32b, BinaryField8b>();
	h_c05_cast_4x32_1 => cast::<PackedBinaryField4x32b, BinaryField1b>();
	h_c05_cast_8x16_4 => cast::<PackedBinaryField8x16b, BinaryField4b>();
	h_c05_cast_4x64_2 => cast::<PackedBinaryField4x64b, BinaryField2b>();
	h_c05_cast_1x128_64 => cast::<PackedBinaryField1x128b, BinaryField64b>();
	h_c05_cast_1x128_128 => cast::<PackedBinaryField1x128b, BinaryField128b>();
	h_c05_cast_4x128_32 => cast::<PackedBinaryField4x128b, BinaryField32b>();
	h_c05_cast_a2x128_8 => cast::<PackedAESBinaryField2x128b, AESTowerField8b>();
	h_c05_cast_a4x32_16 => cast::<PackedAESBinaryField4x32b, AESTowerField16b>();
	h_c05_cast_a4x32_1 => cast::<PackedAESBinaryField4x32b, BinaryField1b>();
	h_c05_cast_b128_8 => cast::<BinaryField128b, BinaryField8b>();
	h_c05_cast_b32_1 => cast::<BinaryField32b, BinaryField1b>();

	h_c05_extmul_2x128_8 => ext_mul::<PackedBinaryField2x128b, BinaryField8b>();
	h_c05_extmul_2x128_16 => ext_mul::<PackedBinaryField2x128b, BinaryField16b>();
	h_c05_extmul_4x32_1 => ext_mul::<PackedBinaryField4x32b, BinaryField1b>();
	h_c05_extmul_4x32_8 => ext_mul::<PackedBinaryField4x32b, BinaryField8b>();
	h_c05_extmul_1x128_32 => ext_mul::<PackedBinaryField1x128b, BinaryField32b>();
	h_c05_extmul_1x128_1 => ext_mul::<PackedBinaryField1x128b, BinaryField1b>();
	h_c05_extmul_8x16_4 => ext_mul::<PackedBinaryField8x16b, BinaryField4b>();
	h_c05_extmul_a2x64_8 => ext_mul::<PackedAESBinaryField2x64b, AESTowerField8b>();

	h_c05_sub_2x128_8 => sub_scalar::<PackedBinaryField2x128b, BinaryField8b>();
	h_c05_sub_2x128_1 => sub_scalar::<PackedBinaryField2x128b, BinaryField1b>();
	h_c05_sub_4x32_16 => sub_scalar::<PackedBinaryField4x32b, BinaryField16b>();
	h_c05_sub_a1x128_16 => sub_scalar::<PackedAESBinaryField1x128b, AESTowerField16b>();
	h_c05_sub_4x128_32 => sub_scalar::<PackedBinaryField4x128b, BinaryField32b>();

	h_c05_inner_1 => inner::<PackedBinaryField4x32b, PackedBinaryField4x32b>(2, 2);
	h_c05_inner_2 => inner::<PackedBinaryField4x32b, PackedBinaryField16x8b>(4, 1);
	h_c05_inner_3 => inner::<PackedBinaryField4x32b, PackedBinaryField16x8b>(3, 2);
	h_c05_inner_4 => inner::<PackedBinaryField2x64b, PackedBinaryField128x1b>(64, 1);
	h_c05_inner_5 => inner::<PackedBinaryField16x8b, PackedBinaryField1x8b>(1, 16);
	h_c05_inner_6 => inner::<BinaryField32b, PackedBinaryField4x8b>(4, 1);
	h_c05_inner_big_1 => inner_large::<PackedBinaryField4x32b, PackedBinaryField4x32b>(1100);
	h_c05_inner_big_2 => inner_large::<PackedBinaryField2x32b, PackedBinaryField8x8b>(1060);

	h_c05_bytes_16x8b => bytes::<PackedBinaryField16x8b>(true);
	h_c05_bytes_256x1b => bytes::<PackedBinaryField256x1b>(true);
	h_c05_bytes_64x2b => bytes::<PackedBinaryField64x2b>(true);
	h_c05_bytes_2x128b => bytes::<PackedBinaryField2x128b>(true);
	h_c05_bytes_a4x32b => bytes::<PackedAESBinaryField4x32b>(true);
	h_c05_bytes_b32 => bytes::<BinaryField32b>(true);
	h_c05_bytes_8x1b => bytes::<PackedBinaryField8x1b>(true);
	h_c05_bytes_s16x128b => bytes::<ByteSlicedAES16x128b>(true);
	h_c05_bytes_s2x16x64b => bytes::<ByteSlicedAES2x16x64b>(true);
	h_c05_bytes_s4x16x32b => bytes::<ByteSlicedAES4x16x32b>(true);
	h_c05_bytes_s8x16x16b => bytes::<ByteSlicedAES8x16x16b>(true);
	h_c05_bytes_s16x16x8b => bytes::<ByteSlicedAES16x16x8b>(true);
	h_c05_bytes_s16x128x1b => bytes::<ByteSliced16x128x1b>(true);
	h_c05_bytes_s4x256x1b => bytes::<ByteSliced4x256x1b>(true);
	h_c05_bytes_s32x128b => bytes::<ByteSlicedAES32x128b>(true);
	h_c05_bytes_s16x32x8b => bytes::<ByteSlicedAES16x32x8b>(true);

	h_c05_sums_4x32b => partial_sums::<PackedBinaryField4x32b>();
	h_c05_sums_b128 => partial_sums::<BinaryField128b>();
	h_c05_seq_4x32b => seq::<PackedBinaryField4x32b>();
	h_c05_seq_16x2b => seq::<PackedBinaryField16x2b>();
	h_c05_seq_128x1b => seq::<PackedBinaryField128x1b>();
	h_c05_seq_s16x16b => seq::<ByteSlicedAES16x16b>();

	h_c05_small_1 => small::<1>();
	h_c05_small_2 => small::<2>();
	h_c05_small_4 => small::<4>();
	h_c05_subv_u64_u8 => subvalues::<u64, u8>();
	h_c05_subv_u128_u32 => subvalues::<u128, u32>();
	h_c05_subv_u16_u4 => subvalues::<u16, U4>();
	h_c05_subv_u32_u1 => subvalues::<u32, U1>();
	h_c05_subv_m128_u8 => subvalues::<M128, u8>();
	h_c05_subv_m128_u16 => subvalues::<M128, u16>();
	h_c05_subv_m128_u1 => subvalues::<M128, U1>();
	h_c05_subv_m256_u8 => subvalues::<M256, u8>();
	h_c05_subv_m256_u64 => subvalues::<M256, u64>();
	h_c05_subv_m256_u2 => subvalues::<M256, U2>();
	h_c05_powers => {
		let x: BinaryField16b = any_pod();
		let p: Vec<BinaryField16b> = powers(x).take(4).collect();
		check(p[0] == BinaryField16b::ONE && p[1] == x && p[2] == x * x && p[3] == x * x * x, 1);
		let (a, b): (BinaryField16b, BinaryField16b) = (any_pod(), any_pod());
		check(eq(a, b) == a * b + (a + BinaryField16b::ONE) * (b + BinaryField16b::ONE), 2);
	};
	h_c05_iso_packed_1 => iso_packed::<PackedAESBinaryField16x8b, PackedBinaryField16x8b>(
		<PackedAESBinaryField16x8b as PackedTransformationFactory<PackedBinaryField16x8b>>::make_packed_transformation(AES_TO_BINARY_LINEAR_TRANSFORMATION));
	h_c05_iso_packed_2 => iso_packed::<PackedBinaryField32x8b, PackedAESBinaryField32x8b>(
		<PackedBinaryField32x8b as PackedTransformationFactory<PackedAESBinaryField32x8b>>::make_packed_transformation(BINARY_TO_AES_LINEAR_TRANSFORMATION));
	h_c05_iso_packed_3 => iso_packed::<PackedBinaryField2x128b, PackedBinaryPolyval2x128b>(
		<PackedBinaryField2x128b as PackedTransformationFactory<PackedBinaryPolyval2x128b>>::make_packed_transformation(BINARY_TO_POLYVAL_TRANSFORMATION));
	h_c05_iso_packed_4 => iso_packed::<PackedBinaryPolyval1x128b, PackedBinaryField1x128b>(
		<PackedBinaryPolyval1x128b as PackedTransformationFactory<PackedBinaryField1x128b>>::make_packed_transformation(POLYVAL_TO_BINARY_TRANSFORMATION));
}
