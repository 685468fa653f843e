//! Shared by the field harness crates: reference definitions and the symbolic-scalar trait.
pub mod reference;
use binius_field::underlier::*;
use binius_field::*;
use symapi::*;

pub trait Sc: TowerField + Copy {
	const K: u32;
	fn mk(x: u128) -> Self;
	fn raw(self) -> u128;
	fn sym() -> Self {
		let x = any_u128();
		Self::mk(x)
	}
}
macro_rules! sc_small {
	($($t:ident $u:ident $k:literal),*) => {$(
		impl Sc for $t {
			const K: u32 = $k;
			#[inline(always)]
			fn mk(x: u128) -> Self { Self::from($u::new(x as u8)) }
			#[inline(always)]
			fn raw(self) -> u128 { self.to_underlier().val() as u128 }
			fn sym() -> Self { Self::mk(any_u8() as u128) }
		}
	)*};
}
sc_small!(BinaryField1b U1 0, BinaryField2b U2 1, BinaryField4b U4 2);
macro_rules! sc_big {
	($($t:ident $u:ident $k:literal),*) => {$(
		impl Sc for $t {
			const K: u32 = $k;
			#[inline(always)]
			fn mk(x: u128) -> Self { Self::from(x as $u) }
			#[inline(always)]
			fn raw(self) -> u128 { self.to_underlier() as u128 }
			fn sym() -> Self { Self::from(any_pod::<$u>()) }
		}
	)*};
}
sc_big!(BinaryField8b u8 3, BinaryField16b u16 4, BinaryField32b u32 5, BinaryField64b u64 6, BinaryField128b u128 7);
sc_big!(AESTowerField8b u8 3, AESTowerField16b u16 4, AESTowerField32b u32 5, AESTowerField64b u64 6, AESTowerField128b u128 7);


/// any element of a binary field (fields under 8 bits live in the low bits of a byte)
pub fn any_f<F: BinaryField>() -> F {
	if F::N_BITS < 8 {
		let b = any_u8() & ((1u16 << F::N_BITS) - 1) as u8;
		unsafe { std::mem::transmute_copy(&b) }
	} else {
		any_pod()
	}
}
