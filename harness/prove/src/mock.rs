//! Hash functions modelled as injective uninterpreted functions, and a challenger that
//! replays given challenges.
use binius_hash::PseudoCompressionFunction;
use bytes::{Buf, BufMut, buf::UninitSlice};
use digest::{
	FixedOutput, FixedOutputReset, HashMarker, Output, OutputSizeUser, Reset, Update,
	consts::{U4, U8, U16},
	core_api::BlockSizeUser,
};
use symapi::*;

/// collision-free hash: 16-byte output, 8-byte block
#[derive(Clone, Default, Debug)]
pub struct UfHash {
	data: Vec<u8>,
}
impl HashMarker for UfHash {}
impl Update for UfHash {
	fn update(&mut self, d: &[u8]) {
		self.data.extend_from_slice(d)
	}
}
impl Reset for UfHash {
	fn reset(&mut self) {
		self.data.clear()
	}
}
impl OutputSizeUser for UfHash {
	type OutputSize = U16;
}
impl BlockSizeUser for UfHash {
	type BlockSize = U8;
}
impl FixedOutput for UfHash {
	fn finalize_into(self, out: &mut Output<Self>) {
		uf(1, true, &self.data, out)
	}
}
impl FixedOutputReset for UfHash {
	fn finalize_into_reset(&mut self, out: &mut Output<Self>) {
		uf(1, true, &self.data, out);
		self.data.clear()
	}
}
pub fn h(d: &[u8]) -> Vec<u8> {
	let mut o = vec![0; 16];
	uf(1, true, d, &mut o);
	o
}
#[derive(Clone, Debug)]
pub struct UfComp;
impl PseudoCompressionFunction<Output<UfHash>, 2> for UfComp {
	fn compress(&self, x: [Output<UfHash>; 2]) -> Output<UfHash> {
		let mut i = x[0].to_vec();
		i.extend_from_slice(&x[1]);
		let mut o = Output::<UfHash>::default();
		uf(2, true, &i, &mut o);
		o
	}
}
pub fn comp(a: &[u8], b: &[u8]) -> Vec<u8> {
	let mut i = a.to_vec();
	i.extend_from_slice(b);
	let mut o = vec![0; 16];
	uf(2, true, &i, &mut o);
	o
}

/// a challenger with fixed challenges (a linear congruential sequence), whatever is observed
#[derive(Clone, Debug)]
pub struct Fx {
	x: u64,
	b: [u8; 8],
	i: usize,
	sink: Vec<u8>,
}
impl Default for Fx {
	fn default() -> Self {
		Self { x: 0x9e3779b97f4a7c15, b: [0; 8], i: 8, sink: Vec::new() }
	}
}
impl Buf for Fx {
	fn remaining(&self) -> usize {
		usize::MAX
	}
	fn chunk(&self) -> &[u8] {
		&self.b[self.i..]
	}
	fn advance(&mut self, mut n: usize) {
		while n > 0 {
			let k = n.min(8 - self.i);
			self.i += k;
			n -= k;
			self.fill();
		}
	}
}
impl Fx {
	fn fill(&mut self) {
		if self.i == 8 {
			self.x ^= self.x << 13;
			self.x ^= self.x >> 7;
			self.x ^= self.x << 17;
			self.b = self.x.wrapping_mul(0x2545f4914f6cdd1d).to_le_bytes();
			self.i = 0;
		}
	}
}
impl binius_core::fiat_shamir::Challenger for Fx {
	fn sampler(&mut self) -> &mut impl Buf {
		self.fill();
		self
	}
	fn observer(&mut self) -> &mut impl BufMut {
		&mut self.sink
	}
}
