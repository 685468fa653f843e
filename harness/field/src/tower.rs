//! C01 continued: subfield structure of the tower (embeddings, bases, primitive elements).
//! C02: AES / POLYVAL fields and the isomorphisms.
use fref::reference as r;
use fref::Sc;
use binius_field::arithmetic_traits::*;
use binius_field::linear_transformation::*;
use binius_field::underlier::*;
use binius_field::*;
use symapi::*;

/// F is an extension of S with bit patterns split into DEGREE chunks
fn ext<F: Sc + ExtensionField<S>, S: Sc>()
where
	F: TryInto<S>,
{
	let w = 1u32 << S::K;
	let a = F::sym();
	let s = S::sym();
	let d = 1usize << (F::K - S::K);
	let m = if w == 128 { u128::MAX } else { (1u128 << w) - 1 };
	check(<F as ExtensionField<S>>::LOG_DEGREE == (F::K - S::K) as usize, 1);
	// embedding
	let e = F::from(s);
	check(e.raw() == s.raw(), 2);
	// mixed arithmetic is arithmetic after embedding
	check((a + s).raw() == (a + e).raw() && (a - s).raw() == (a - e).raw(), 3);
	check((a * s).raw() == (a * e).raw(), 4);
	let mut t = a;
	t *= s;
	check(t.raw() == (a * s).raw(), 5);
	let mut t = a;
	t += s;
	check(t.raw() == (a + s).raw(), 6);
	// coordinates
	for (i, b) in ExtensionField::<S>::iter_bases(&a).enumerate() {
		check(b.raw() == a.raw() >> (i as u32 * w) & m, 7);
		check(i < d, 8);
	}
	for i in 0..d {
		check(ExtensionField::<S>::get_base(&a, i).raw() == a.raw() >> (i as u32 * w) & m, 9);
		check(<F as ExtensionField<S>>::basis(i).raw() == 1u128 << (i as u32 * w), 10);
	}
	check(<F as ExtensionField<S>>::basis_checked(d).is_err(), 11);
	let back = <F as ExtensionField<S>>::from_bases(ExtensionField::<S>::into_iter_bases(a));
	check(matches!(back, Ok(x) if x.raw() == a.raw()), 12);
	// restriction to the subfield
	match TryInto::<S>::try_into(a) {
		Ok(x) => check(x.raw() == a.raw(), 13),
		Err(_) => check(a.raw() > m, 14),
	}
	expect(1);
	expect(2);
	if decide(a.raw() <= m) {
		cover(1);
		check(TryInto::<S>::try_into(a).is_ok(), 15);
	} else {
		cover(2);
		check(TryInto::<S>::try_into(a).is_err(), 16);
	}
}
fn ext_sparse<F: Sc + ExtensionField<S>, S: Sc>() {
	let w = 1u32 << S::K;
	let a = F::sym();
	let d = 1usize << (F::K - S::K);
	for log_stride in 0..=(F::K - S::K) as usize {
		let n = d >> log_stride;
		for len in [0usize, 1, n] {
			let xs: Vec<S> = (0..len).map(|i| S::mk(a.raw() >> (i as u32 * w))).collect();
			let got = <F as ExtensionField<S>>::from_bases_sparse(xs.iter().copied(), log_stride);
			let mut want = 0u128;
			for (i, x) in xs.iter().enumerate() {
				want |= x.raw() << ((i << log_stride) as u32 * w);
			}
			check(matches!(got, Ok(x) if x.raw() == want), 1);
		}
		// (with a stride of the whole degree the length limit is the caller's obligation)
		if n == 1 {
			continue;
		}
		let xs: Vec<S> = (0..n + 1).map(|_| S::mk(a.raw())).collect();
		check(<F as ExtensionField<S>>::from_bases_sparse(xs.iter().copied(), log_stride).is_err(), 2);
	}
}
macro_rules! exts {
	($($n:ident $m:ident $f:ident $s:ident;)*) => { harness!{ $($n => ext::<$f, $s>(); $m => ext_sparse::<$f, $s>();)* } };
}
exts! {
	h_c01_ext_2_1 h_c01_exs_2_1 BinaryField2b BinaryField1b;
	h_c01_ext_4_1 h_c01_exs_4_1 BinaryField4b BinaryField1b;
	h_c01_ext_4_2 h_c01_exs_4_2 BinaryField4b BinaryField2b;
	h_c01_ext_8_1 h_c01_exs_8_1 BinaryField8b BinaryField1b;
	h_c01_ext_8_2 h_c01_exs_8_2 BinaryField8b BinaryField2b;
	h_c01_ext_8_4 h_c01_exs_8_4 BinaryField8b BinaryField4b;
	h_c01_ext_16_1 h_c01_exs_16_1 BinaryField16b BinaryField1b;
	h_c01_ext_16_4 h_c01_exs_16_4 BinaryField16b BinaryField4b;
	h_c01_ext_16_8 h_c01_exs_16_8 BinaryField16b BinaryField8b;
	h_c01_ext_32_1 h_c01_exs_32_1 BinaryField32b BinaryField1b;
	h_c01_ext_32_8 h_c01_exs_32_8 BinaryField32b BinaryField8b;
	h_c01_ext_32_16 h_c01_exs_32_16 BinaryField32b BinaryField16b;
	h_c01_ext_64_1 h_c01_exs_64_1 BinaryField64b BinaryField1b;
	h_c01_ext_64_8 h_c01_exs_64_8 BinaryField64b BinaryField8b;
	h_c01_ext_64_32 h_c01_exs_64_32 BinaryField64b BinaryField32b;
	h_c01_ext_128_1 h_c01_exs_128_1 BinaryField128b BinaryField1b;
	h_c01_ext_128_2 h_c01_exs_128_2 BinaryField128b BinaryField2b;
	h_c01_ext_128_4 h_c01_exs_128_4 BinaryField128b BinaryField4b;
	h_c01_ext_128_8 h_c01_exs_128_8 BinaryField128b BinaryField8b;
	h_c01_ext_128_16 h_c01_exs_128_16 BinaryField128b BinaryField16b;
	h_c01_ext_128_32 h_c01_exs_128_32 BinaryField128b BinaryField32b;
	h_c01_ext_128_64 h_c01_exs_128_64 BinaryField128b BinaryField64b;
}
fn prim<F: Sc>() {
	let a = F::sym();
	for iota in 0..F::K as usize {
		// X_iota as an element of F: bit 2^iota
		let x = 1u128 << (1 << iota);
		let got = a.mul_primitive(iota);
		check(matches!(got, Ok(y) if y.raw() == r::mul(a.raw(), x, F::K)), 1);
	}
	check(a.mul_primitive(F::K as usize).is_err(), 2);
	check(F::TOWER_LEVEL == F::K as usize, 3);
	for iota in 0..=F::K as usize {
		for i in 0..1usize << (F::K as usize - iota) {
			check(matches!(<F as TowerField>::basis(iota, i), Ok(y) if y.raw() == 1u128 << (i << iota)), 4);
		}
		check(<F as TowerField>::basis(iota, 1 << (F::K as usize - iota)).is_err(), 5);
	}
	check(<F as TowerField>::basis(F::K as usize + 1, 0).is_err(), 6);
	// smallest subfield containing a
	let l = a.min_tower_level();
	let mut want = F::K as usize;
	for k in (0..F::K).rev() {
		if a.raw() >> (1u32 << k) == 0 {
			want = k as usize;
		}
	}
	check(l == want, 7);
}
fn alpha<F: Sc + MulAlpha>() {
	let a = F::sym();
	check(MulAlpha::mul_alpha(a).raw() == r::mul_alpha(a.raw(), F::K), 1);
}
harness! {
	h_c01_alpha_8 => alpha::<BinaryField8b>();
	h_c01_alpha_16 => alpha::<BinaryField16b>();
	h_c01_alpha_32 => alpha::<BinaryField32b>();
	h_c01_alpha_64 => alpha::<BinaryField64b>();
	h_c01_alpha_128 => alpha::<BinaryField128b>();
	h_c01_prim_2 => prim::<BinaryField2b>();
	h_c01_prim_4 => prim::<BinaryField4b>();
	h_c01_prim_8 => prim::<BinaryField8b>();
	h_c01_prim_16 => prim::<BinaryField16b>();
	h_c01_prim_32 => prim::<BinaryField32b>();
	h_c01_prim_64 => prim::<BinaryField64b>();
	h_c01_prim_128 => prim::<BinaryField128b>();
}
/// x^(2^e - 1)-style exponentiation agrees with repeated multiplication for small exponents
fn pow<F: Sc>() {
	let a = F::sym();
	let mut acc = F::ONE;
	for e in 0..6u64 {
		check(PackedField::pow(a, e).raw() == acc.raw(), 1);
		acc *= a;
	}
}
harness! {
	h_c01_pow_8 => pow::<BinaryField8b>();
	h_c01_pow_4 => pow::<BinaryField4b>();
	// exponents with high bits: x^(2^k) is the Frobenius, x^(2^8) = x
	h_c01_frob_8 => {
		let a = BinaryField8b::sym();
		check(PackedField::pow(a, 256).raw() == a.raw(), 1);
		check(PackedField::pow(a, 1 << 56).raw() == a.raw(), 2);
	};
}

// ---------------------------------------------------------------- C02

fn aes_mul8() {
	let (a, b) = (AESTowerField8b::sym(), AESTowerField8b::sym());
	check((a * b).raw() == r::aes_mul(a.raw() as u8, b.raw() as u8) as u128, 1);
	check(Square::square(a).raw() == r::aes_mul(a.raw() as u8, a.raw() as u8) as u128, 2);
	let i = InvertOrZero::invert_or_zero(a);
	let p = r::aes_mul(a.raw() as u8, i.raw() as u8);
	check(if a.raw() == 0 { i.raw() == 0 } else { p == 1 }, 3);
}
/// ring isomorphism between A (AES tower) and B (canonical tower)
fn iso<A: Sc + MulAlpha + From<B>, B: Sc + From<A> + MulAlpha>() {
	let (a, b) = (A::sym(), A::sym());
	let (x, y) = (B::from(a), B::from(b));
	check(B::from(a + b).raw() == (x + y).raw(), 1);
	check(B::from(A::ONE).raw() == 1 && B::from(A::ZERO).raw() == 0, 2);
	check(A::from(x).raw() == a.raw(), 3);
	let z = B::sym();
	check(B::from(A::from(z)).raw() == z.raw(), 4);
	check(B::from(MulAlpha::mul_alpha(a)).raw() == MulAlpha::mul_alpha(x).raw(), 5);
	check(B::from(Square::square(a)).raw() == Square::square(x).raw(), 6);
	for i in 0..=A::K as usize - 1 {
		let l = a.mul_primitive(i);
		let m = x.mul_primitive(i);
		check(matches!((l, m), (Ok(l), Ok(m)) if B::from(l).raw() == m.raw()), 7);
	}
}
fn iso_mul<A: Sc + From<B>, B: Sc + From<A>>() {
	let (a, b) = (A::sym(), A::sym());
	let (x, y) = (B::from(a), B::from(b));
	check(B::from(a * b).raw() == (x * y).raw(), 1);
}
harness! {
	h_c02_aes_mul8 => aes_mul8();
	h_c02_iso_8 => iso::<AESTowerField8b, BinaryField8b>();
	h_c02_iso_16 => iso::<AESTowerField16b, BinaryField16b>();
	h_c02_iso_32 => iso::<AESTowerField32b, BinaryField32b>();
	h_c02_iso_64 => iso::<AESTowerField64b, BinaryField64b>();
	h_c02_iso_128 => iso::<AESTowerField128b, BinaryField128b>();
	h_c02_isomul_8 => iso_mul::<AESTowerField8b, BinaryField8b>();
	h_c02_isomul_16 => iso_mul::<AESTowerField16b, BinaryField16b>();
	h_c02_isomul_32 => iso_mul::<AESTowerField32b, BinaryField32b>();
	h_c02_isomul_64 => iso_mul::<AESTowerField64b, BinaryField64b>();
	h_c02_isomul_128 => iso_mul::<AESTowerField128b, BinaryField128b>();
}
fn poly() -> BinaryField128bPolyval {
	BinaryField128bPolyval::from_underlier(any_u128())
}
harness! {
	h_c02_polyval_mul => {
		let (a, b) = (poly(), poly());
		check((a * b).to_underlier() == r::polyval_mul(a.to_underlier(), b.to_underlier()), 1);
		check((a + b).to_underlier() == a.to_underlier() ^ b.to_underlier(), 2);
		check((a - b).to_underlier() == a.to_underlier() ^ b.to_underlier(), 3);
		let mut c = a;
		c *= b;
		check(c.to_underlier() == (a * b).to_underlier(), 4);
	};
	h_c02_polyval_sq => {
		let a = poly();
		check(Square::square(a).to_underlier() == r::polyval_mul(a.to_underlier(), a.to_underlier()), 1);
		check((a * BinaryField128bPolyval::ONE).to_underlier() == a.to_underlier(), 2);
		check((a * BinaryField1b::ONE).to_underlier() == a.to_underlier(), 3);
		check((a * BinaryField1b::ZERO).to_underlier() == 0, 4);
	};
	h_c02_polyval_iso => {
		let a = BinaryField128b::sym();
		let b = AESTowerField128b::sym();
		let p = poly();
		check(BinaryField128b::from(BinaryField128bPolyval::from(a)).raw() == a.raw(), 1);
		check(AESTowerField128b::from(BinaryField128bPolyval::from(b)).raw() == b.raw(), 2);
		check(BinaryField128bPolyval::from(BinaryField128b::from(p)).to_underlier() == p.to_underlier(), 3);
		check(BinaryField128bPolyval::from(AESTowerField128b::from(p)).to_underlier() == p.to_underlier(), 4);
		check(BinaryField128b::from(AESTowerField128b::from(p)).raw() == BinaryField128b::from(p).raw(), 5);
		check(BinaryField128b::from(BinaryField128bPolyval::ONE).raw() == 1, 6);
		let q = poly();
		check(BinaryField128b::from(p + q).raw() == (BinaryField128b::from(p) + BinaryField128b::from(q)).raw(), 7);
	};
	h_c02_polyval_iso_mul_0 => polyval_iso_mul(0);
	h_c02_polyval_iso_mul_1 => polyval_iso_mul(16);
	h_c02_polyval_iso_mul_2 => polyval_iso_mul(32);
	h_c02_polyval_iso_mul_3 => polyval_iso_mul(48);
	h_c02_polyval_iso_mul_4 => polyval_iso_mul(64);
	h_c02_polyval_iso_mul_5 => polyval_iso_mul(80);
	h_c02_polyval_iso_mul_6 => polyval_iso_mul(96);
	h_c02_polyval_iso_mul_7 => polyval_iso_mul(112);
	h_c02_aes_subfields => {
		// AES tower: extension structure over its own 8-bit field
		let a = AESTowerField128b::sym();
		for i in 0..16 {
			check(ExtensionField::<AESTowerField8b>::get_base(&a, i).raw() == a.raw() >> (8 * i) & 0xff, 1);
		}
		let s = AESTowerField8b::sym();
		check((a * s).raw() == (a * AESTowerField128b::from(s)).raw(), 2);
		check(AESTowerField128b::from(s).raw() == s.raw(), 3);
		let back = <AESTowerField128b as ExtensionField<AESTowerField8b>>::from_bases(ExtensionField::<AESTowerField8b>::iter_bases(&a));
		check(matches!(back, Ok(x) if x.raw() == a.raw()), 4);
		let b = BinaryField1b::sym();
		check((a * b).raw() == if b.raw() == 1 { a.raw() } else { 0 }, 5);
		check(ExtensionField::<BinaryField1b>::iter_bases(&a).enumerate().all(|(i, x)| x.raw() == a.raw() >> i & 1), 6);
	};
	h_c02_kinds => {
		check(is_aes_tower::<AESTowerField8b>() && is_aes_tower::<AESTowerField16b>() && is_aes_tower::<AESTowerField32b>()
			&& is_aes_tower::<AESTowerField64b>() && is_aes_tower::<AESTowerField128b>(), 1);
		check(!is_aes_tower::<BinaryField8b>() && !is_aes_tower::<BinaryField128b>() && !is_aes_tower::<BinaryField1b>(), 2);
		check(is_canonical_tower::<BinaryField8b>() && is_canonical_tower::<BinaryField128b>() && is_canonical_tower::<BinaryField1b>(), 3);
		check(!is_canonical_tower::<AESTowerField8b>() && !is_canonical_tower::<AESTowerField128b>() && !is_canonical_tower::<BinaryField128bPolyval>(), 4);
	};
}

/// the isomorphism is multiplicative. Both sides are bilinear (h_c01_mul_b128, h_c02_polyval_mul:
/// the products equal bilinear references; h_c02_polyval_iso: the map is additive), so a basis of
/// the left operand suffices.
fn polyval_iso_mul(from: usize) {
	let b = poly();
	let y = BinaryField128b::from(b);
	for i in from..from + 16 {
		let a = BinaryField128bPolyval::from_underlier(1u128 << i);
		let x = BinaryField128b::from(a);
		check(BinaryField128b::from(a * b).raw() == (x * y).raw(), 1);
	}
}

/// POLYVAL and AES inversion on windows of symbolic bits
fn pinv(at: u32, pat: u128, mask: u8) {
	let v = (pat & !((mask as u128) << at)) | ((any_u8() & mask) as u128) << at;
	let p = BinaryField128bPolyval::from_underlier(v);
	let i = InvertOrZero::invert_or_zero(p);
	let prod = p * i;
	check(prod.to_underlier() == if v == 0 { 0 } else { BinaryField128bPolyval::ONE.to_underlier() }, 1);
	check(p.invert().is_none() == (v == 0), 2);
}
fn ainv<A: Sc>(at: u32, pat: u128, mask: u8) {
	let bits = 1u32 << A::K;
	let m = if bits == 128 { u128::MAX } else { (1 << bits) - 1 };
	let a = A::mk((pat & m & !((mask as u128) << at)) | ((any_u8() & mask) as u128) << at);
	let i = InvertOrZero::invert_or_zero(a);
	let prod = a * i;
	check(prod.raw() == if a.raw() == 0 { 0 } else { 1 }, 1);
	check(a.invert().is_none() == (a.raw() == 0), 2);
}
const PAT: u128 = 0x9e3779b97f4a7c15f39cc0605cedc835;
harness! {
	h_c02_pinv_0 => pinv(0, 0, 0xff);
	h_c02_pinv_1 => pinv(120, 0, 0xff);
	h_c02_pinv_2 => pinv(56, PAT, 0x93);
	h_c02_pinv_3 => pinv(96, PAT, 0x93);
	h_c02_ainv_16_0 => ainv::<AESTowerField16b>(0, 0, 0xff);
	h_c02_ainv_16_1 => ainv::<AESTowerField16b>(8, PAT, 0x9b);
	h_c02_ainv_32_0 => ainv::<AESTowerField32b>(16, 0, 0xff);
	h_c02_ainv_32_1 => ainv::<AESTowerField32b>(8, PAT, 0x93);
	h_c02_ainv_64_0 => ainv::<AESTowerField64b>(56, 0, 0xff);
	h_c02_ainv_64_1 => ainv::<AESTowerField64b>(24, PAT, 0x93);
	h_c02_ainv_128_0 => ainv::<AESTowerField128b>(64, 0, 0xff);
	h_c02_ainv_128_1 => ainv::<AESTowerField128b>(88, PAT, 0x93);
}
