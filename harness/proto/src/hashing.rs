//! Adapters that turn a hash function into a parallel hash of serialized field elements.
use crate::mock::*;
use binius_field::*;
use binius_hash::{HashBuffer, multi_digest::*};
use binius_maybe_rayon::prelude::*;
use binius_utils::{SerializationMode, SerializeBytes};
use bytes::BufMut;
use digest::Output;
use fref::*;
use std::mem::MaybeUninit;
use symapi::*;

/// N hashes computed at once; inputs must have the same length
#[derive(Clone)]
pub struct Multi<const N: usize>([Vec<u8>; N]);
impl<const N: usize> MultiDigest<N> for Multi<N> {
	type Digest = UfHash;
	fn new() -> Self {
		Self(std::array::from_fn(|_| vec![]))
	}
	fn update(&mut self, d: [&[u8]; N]) {
		check(d.iter().all(|x| x.len() == d[0].len()), 90);
		for i in 0..N {
			self.0[i].extend_from_slice(d[i]);
		}
	}
	fn finalize_into(self, out: &mut [MaybeUninit<Output<UfHash>>; N]) {
		for i in 0..N {
			let x: [u8; 16] = h(&self.0[i]).try_into().unwrap();
			out[i].write(x.into());
		}
	}
	fn finalize_into_reset(&mut self, out: &mut [MaybeUninit<Output<UfHash>>; N]) {
		self.clone().finalize_into(out);
		self.reset();
	}
	fn reset(&mut self) {
		*self = MultiDigest::new();
	}
	fn digest(d: [&[u8]; N], out: &mut [MaybeUninit<Output<UfHash>>; N]) {
		let mut s: Self = MultiDigest::new();
		s.update(d);
		s.finalize_into(out)
	}
}
fn ser<F: TowerField>(v: &[F]) -> Vec<u8> {
	let mut b = Vec::new();
	for x in v {
		x.serialize(&mut b, SerializationMode::CanonicalTower).unwrap();
	}
	b
}
/// every item is hashed by itself, after the prefix, for every number of items
fn parallel<D: ParallelDigest<Digest = UfHash>, F: TowerField>(items: usize, len: usize, prefix: usize, twice: bool) {
	let pre: Vec<u8> = (0..prefix).map(|_| any_u8()).collect();
	let d: Vec<F> = (0..items * len).map(|_| any_f::<F>()).collect();
	let hasher = if prefix == 0 { D::new() } else { D::new_with_prefix(&pre) };
	for _ in 0..1 + twice as usize {
		let mut out = vec![MaybeUninit::<Output<UfHash>>::uninit(); items];
		hasher.digest(d.par_chunks(len).map(|c| c.iter().copied()), &mut out);
		for i in 0..items {
			let o = unsafe { out[i].assume_init() };
			let mut x = pre.clone();
			x.extend(ser(&d[i * len..(i + 1) * len]));
			check(o[..] == h(&x)[..], 1);
		}
	}
}
/// the bytes written to a hash buffer, in any pieces, are the bytes hashed
fn buffer(sizes: &[usize], seed: usize) {
	let mut hasher = <UfHash as digest::Digest>::new();
	let pre: Vec<u8> = (0..seed).map(|_| any_u8()).collect();
	digest::Digest::update(&mut hasher, &pre);
	let mut all = pre.clone();
	{
		let mut b = HashBuffer::new(&mut hasher);
		for &s in sizes {
			let x: Vec<u8> = (0..s).map(|_| any_u8()).collect();
			b.put_slice(&x);
			all.extend(x);
			check(b.remaining_mut() >= 1 << 40, 2);
		}
	}
	check(digest::Digest::finalize(hasher)[..] == h(&all)[..], 1);
}
fn pieces() {
	let s: [usize; 3] = std::array::from_fn(|_| [0, 1, 7, 8, 9, 17][any_below(6)]);
	buffer(&s, any_below(2));
}
fn serialize() {
	let d: Vec<BinaryField32b> = (0..5).map(|_| any_f()).collect();
	let o = hash_ser(&d);
	check(o[..] == h(&ser(&d))[..], 1);
	let d: Vec<BinaryField128b> = (0..3).map(|_| any_f()).collect();
	check(hash_ser(&d)[..] == h(&ser(&d))[..], 2);
	let d: Vec<AESTowerField8b> = (0..11).map(|_| any_f()).collect();
	check(hash_ser(&d)[..] == h(&ser(&d))[..], 3);
	check(hash_ser::<BinaryField8b>(&[])[..] == h(&[])[..], 4);
}
fn hash_ser<F: TowerField>(d: &[F]) -> Output<UfHash> {
	binius_hash::hash_serialize::<F, UfHash>(d).unwrap()
}

harness! {
	h_c12_par_multi4 => {
		for n in 0..10 { parallel::<ParallelMultidigestImpl<Multi<4>, 4>, BinaryField8b>(n, 3, 0, false); }
	};
	h_c12_par_multi4p => {
		for n in [1, 3, 4, 6] { parallel::<ParallelMultidigestImpl<Multi<4>, 4>, BinaryField32b>(n, 1, 5, true); }
	};
	h_c12_par_multi3 => {
		for n in 0..8 { parallel::<ParallelMultidigestImpl<Multi<3>, 3>, AESTowerField8b>(n, 2, 1, false); }
	};
	h_c12_par_multi1 => {
		for n in 0..3 { parallel::<ParallelMultidigestImpl<Multi<1>, 1>, BinaryField128b>(n, 2, 0, true); }
	};
	h_c12_par_single => {
		for n in 0..6 { parallel::<UfHash, BinaryField8b>(n, 3, 0, true); }
		for n in 0..4 { parallel::<UfHash, BinaryField128b>(n, 1, 3, false); }
		for n in 0..3 { parallel::<UfHash, BinaryField16b>(n, 9, 9, false); }
	};
	h_c12_buf_pieces => pieces();
	h_c12_buf_long => buffer(&[3, 16, 5, 40, 8, 1], 0);
	h_c12_ser => serialize();
}
