//! C01: the tower fields obey their definition; C02: AES / POLYVAL fields and isomorphisms.
use fref::reference as r;
use fref::Sc;
use binius_field::arithmetic_traits::*;
use binius_field::underlier::*;
use binius_field::*;
use symapi::*;

fn mul_ref<F: Sc>() {
	let (a, b) = (F::sym(), F::sym());
	check((a * b).raw() == r::mul(a.raw(), b.raw(), F::K), 1);
	check((a + b).raw() == a.raw() ^ b.raw(), 2);
	check((a - b).raw() == a.raw() ^ b.raw(), 3);
	check((-a).raw() == a.raw(), 4);
	let mut c = a;
	c *= b;
	check(c.raw() == (a * b).raw(), 5);
	let mut c = a;
	c += b;
	check(c.raw() == (a + b).raw(), 6);
	check(Field::double(&a).raw() == 0, 7);
	check((a * F::ONE).raw() == a.raw() && (a * F::ZERO).raw() == 0, 8);
	check(F::ONE.raw() == 1 && F::ZERO.raw() == 0, 9);
}
fn square_ref<F: Sc>() {
	let a = F::sym();
	let sq = Square::square(a);
	check(sq.raw() == r::mul(a.raw(), a.raw(), F::K), 1);
}
macro_rules! per_field {
	($f:ident : $($name:ident $t:ty),* $(,)?) => { harness!{ $($name => $f::<$t>();)* } };
}
per_field!(mul_ref: h_c01_mul_b1 BinaryField1b, h_c01_mul_b2 BinaryField2b, h_c01_mul_b4 BinaryField4b, h_c01_mul_b8 BinaryField8b,
	h_c01_mul_b16 BinaryField16b, h_c01_mul_b32 BinaryField32b, h_c01_mul_b64 BinaryField64b, h_c01_mul_b128 BinaryField128b);
per_field!(square_ref: h_c01_sq_b1 BinaryField1b, h_c01_sq_b2 BinaryField2b, h_c01_sq_b4 BinaryField4b, h_c01_sq_b8 BinaryField8b,
	h_c01_sq_b16 BinaryField16b, h_c01_sq_b32 BinaryField32b, h_c01_sq_b64 BinaryField64b, h_c01_sq_b128 BinaryField128b);

fn inv_ref<F: Sc>() {
	let a = F::sym();
	let i = InvertOrZero::invert_or_zero(a);
	let p = a * i;
	expect(1);
	expect(2);
	if decide(a.raw() == 0) {
		cover(1);
		check(i.raw() == 0, 1);
		check(a.invert().is_none(), 2);
	} else {
		cover(2);
		check(p.raw() == 1, 3);
		check(a.invert().map(|x| x.raw()) == Some(i.raw()), 4);
	}
}
per_field!(inv_ref: h_c01_inv_b1 BinaryField1b, h_c01_inv_b2 BinaryField2b, h_c01_inv_b4 BinaryField4b, h_c01_inv_b8 BinaryField8b);

/// Inversion in T_k by induction on k: with n = a*conj(a) (which lies in T_{k-1}, and is zero only
/// when a is), inv(a) must be conj(a) * inv(n). The base case is h_c01_inv_b8.
fn inv_step<F: Sc, G: Sc>() {
	let a = F::sym();
	let h = 1u32 << G::K;
	let m = (1u128 << h) - 1;
	let (a0, a1) = (a.raw() & m, a.raw() >> h);
	// conj(a0 + a1 X) = a0 + a1 alpha + a1 X
	let c0 = a0 ^ r::mul_alpha(a1, G::K);
	let n = r::mul(a0, c0, G::K) ^ r::mul(a1, a1, G::K);
	// a * conj(a) == n
	check((a * F::mk(c0 | a1 << h)).raw() == n, 1);
	let ni = InvertOrZero::invert_or_zero(G::mk(n));
	let want = (ni * G::mk(c0)).raw() | (ni * G::mk(a1)).raw() << h;
	let i = InvertOrZero::invert_or_zero(a);
	check(i.raw() == want, 2);
	check(InvertOrZero::invert_or_zero(F::ZERO).raw() == 0, 3);
	check(F::ZERO.invert().is_none(), 4);
	// invert() is None exactly when invert_or_zero() is zero, and agrees with it otherwise
	let v = a.invert();
	check(v.is_none() == (i.raw() == 0), 5);
	check(v.map_or(0, |x| x.raw()) == i.raw(), 6);
}
harness! {
	h_c01_inv_b16 => inv_step::<BinaryField16b, BinaryField8b>();
}
/// Inversion in the large fields on windows: 8 symbolic bits at a byte position, the other bits
/// zero; or 4 symbolic bits in a byte and a fixed pattern elsewhere.
fn inv_window<F: Sc>(at: &[u32], pat: u128, mask: u8) {
	for &p in at {
		let bits = 1u32 << F::K;
		let m = if bits == 128 { u128::MAX } else { (1 << bits) - 1 };
		let a = F::mk((pat & m & !((mask as u128) << p)) | ((any_u8() & mask) as u128) << p);
		let i = InvertOrZero::invert_or_zero(a);
		let prod = a * i;
		check(prod.raw() == if a.raw() == 0 { 0 } else { 1 }, 1);
		check((i.raw() == 0) == (a.raw() == 0), 2);
		check(a.invert().map_or(0, |x| x.raw()) == i.raw(), 3);
		check(a.invert().is_none() == (a.raw() == 0), 4);
	}
}
const PAT: u128 = 0x9e3779b97f4a7c15f39cc0605cedc835;
harness! {
	h_c01_invs_b32_0 => inv_window::<BinaryField32b>(&[0, 8, 16, 24], 0, 0xff);
	h_c01_invs_b32_1 => inv_window::<BinaryField32b>(&[0, 8, 16, 24], PAT, 0x93);
	h_c01_invs_b64_0 => inv_window::<BinaryField64b>(&[0, 24, 32, 56], 0, 0xff);
	h_c01_invs_b64_1 => inv_window::<BinaryField64b>(&[0, 24, 32, 56], PAT, 0x93);
	h_c01_invs_b128_0 => inv_window::<BinaryField128b>(&[0, 32, 64, 120], 0, 0xff);
	h_c01_invs_b128_1 => inv_window::<BinaryField128b>(&[0, 32, 64, 120], PAT, 0x93);
}
