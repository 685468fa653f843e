//! Independent definitions of the fields, written from their mathematical description.

/// a * X_{k-1} in T_k (k >= 1: field of 2^k bits; X_{-1} = 1)
#[inline(never)]
pub fn mul_alpha(a: u128, k: u32) -> u128 {
	if k == 0 {
		return a;
	}
	let h = 1u32 << (k - 1);
	let m = (1u128 << h) - 1;
	let (a0, a1) = (a & m, a >> h);
	// (a0 + a1 X) X = a0 X + a1 (X alpha + 1)
	a1 | ((a0 ^ mul_alpha(a1, k - 1)) << h)
}

/// product in the Fan-Paar tower T_k: T_k = T_{k-1}[X]/(X^2 + X_{k-2} X + 1)
#[inline(never)]
pub fn mul(a: u128, b: u128, k: u32) -> u128 {
	if k == 0 {
		return a & b & 1;
	}
	let h = 1u32 << (k - 1);
	let m = (1u128 << h) - 1;
	let (a0, a1, b0, b1) = (a & m, a >> h, b & m, b >> h);
	let ll = mul(a0, b0, k - 1);
	let hh = mul(a1, b1, k - 1);
	let mid = mul(a0, b1, k - 1) ^ mul(a1, b0, k - 1);
	(ll ^ hh) | ((mid ^ mul_alpha(hh, k - 1)) << h)
}

/// carry-less product of bytes modulo x^8+x^4+x^3+x+1
#[inline(never)]
pub fn aes_mul(a: u8, b: u8) -> u8 {
	let mut p = 0u16;
	for i in 0..8 {
		if b >> i & 1 == 1 {
			p ^= (a as u16) << i;
		}
	}
	for i in (8..15).rev() {
		if p >> i & 1 == 1 {
			p ^= 0x11b << (i - 8);
		}
	}
	p as u8
}

/// POLYVAL field product: a*b*x^-128 modulo x^128+x^127+x^126+x^121+1
#[inline(never)]
pub fn polyval_mul(a: u128, b: u128) -> u128 {
	// Montgomery: accumulate bit by bit, dividing by x each step
	let mut acc = 0u128;
	for i in 0..128 {
		let bit = 0u128.wrapping_sub(a >> i & 1);
		acc ^= b & bit;
		// divide by x: if the constant term is set add the modulus first
		let c = 0u128.wrapping_sub(acc & 1);
		// (acc + c*P)/x with P = x^128 + x^127 + x^126 + x^121 + 1
		acc = (acc >> 1) ^ (c & ((1 << 127) | (1 << 126) | (1 << 125) | (1 << 120)));
	}
	acc
}
