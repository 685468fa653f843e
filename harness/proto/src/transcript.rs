use crate::mock::*;
use binius_core::{
	fiat_shamir::{CanSample, CanSampleBits, Challenger, HasherChallenger},
	transcript::{ProverTranscript, VerifierTranscript, read_u64, write_u64},
};
use binius_field::*;
use binius_utils::{SerializationMode, SerializeBytes};
use bytes::{Buf, BufMut};
use fref::*;
use symapi::*;

type Ch = HasherChallenger<UfHash>;
type P = ProverTranscript<Ch>;
type V = VerifierTranscript<Ch>;

/// one operation of the interaction; prover and verifier perform the same sequence
#[derive(Clone, Copy)]
enum Op {
	Msg(usize),
	Obs(usize),
	Dec(usize),
	F8,
	F128,
	Aes16,
	F1,
	Bits(usize),
	Touch,
}
const KINDS: [Op; 12] = [Op::Msg(1), Op::Msg(9), Op::Obs(3), Op::Dec(2), Op::F8, Op::F128, Op::Bits(5), Op::Msg(0), Op::Touch, Op::Bits(0), Op::Aes16, Op::F1];

/// the hash chain by definition
struct Model {
	pending: Vec<u8>,
	buf: Vec<u8>,
	idx: usize,
	sampling: bool,
}
impl Model {
	fn new() -> Self {
		let d = h(&[]);
		Self { pending: d.clone(), buf: d, idx: 0, sampling: true }
	}
	fn start_observing(&mut self) {
		if self.sampling {
			self.pending.extend((self.idx as u64).to_le_bytes());
			self.sampling = false;
		}
	}
	fn observe(&mut self, b: &[u8]) {
		self.start_observing();
		self.pending.extend_from_slice(b);
	}
	fn sample(&mut self, n: usize) -> Vec<u8> {
		if !self.sampling {
			self.sampling = true;
			self.idx = 16;
		}
		let mut o = Vec::new();
		while o.len() < n {
			if self.idx == 16 {
				self.buf = h(&self.pending);
				self.pending = self.buf.clone();
				self.idx = 0;
			}
			o.push(self.buf[self.idx]);
			self.idx += 1;
		}
		o
	}
}

/// both sides see the challenges defined by the hash chain, the verifier reads back what
/// the prover wrote, the tape holds exactly the messages and decommitments
fn agree(ops: &[Op]) {
	let mut p = P::new();
	let mut m = Model::new();
	let mut tape: Vec<u8> = Vec::new();
	let mut seen: Vec<Vec<u8>> = Vec::new();
	let put = |n: usize| -> Vec<u8> { (0..n).map(|_| any::<1>()[0]).collect() };
	for o in ops {
		match *o {
			Op::Msg(n) => {
				let b = put(n);
				p.message().write_bytes(&b);
				if n > 0 { m.observe(&b); }
				tape.extend(&b);
				seen.push(b);
			}
			Op::Obs(n) => {
				let b = put(n);
				p.observe().write_bytes(&b);
				m.observe(&b);
				seen.push(b);
			}
			Op::Dec(n) => {
				let b = put(n);
				p.decommitment().write_bytes(&b);
				tape.extend(&b);
				seen.push(b);
			}
			Op::F8 => {
				let x: BinaryField8b = p.sample();
				let e = m.sample(1);
				check(x.val() == e[0], 1);
			}
			Op::F1 => {
				let x: BinaryField1b = p.sample();
				let e = m.sample(1);
				check(x == BinaryField1b::from(e[0] & 1 == 1), 2);
			}
			Op::Aes16 => {
				let x: AESTowerField16b = p.sample();
				let e = m.sample(2);
				let y: AESTowerField16b = BinaryField16b::new(u16::from_le_bytes([e[0], e[1]])).into();
				check(x == y, 3);
			}
			Op::F128 => {
				let x: BinaryField128b = p.sample();
				let e = m.sample(16);
				check(x.val() == u128::from_le_bytes(e.try_into().unwrap()), 4);
			}
			Op::Bits(k) => {
				let x: u32 = p.sample_bits(k);
				let e = m.sample(4);
				let e = u32::from_le_bytes(e.try_into().unwrap());
				check(x == if k >= 32 { e } else { e & ((1u32 << k) - 1) }, 5);
			}
			Op::Touch => {
				let _ = p.observe();
				m.start_observing();
			}
		}
	}
	let proof = p.finalize();
	check(proof == tape, 6);
	let mut v = V::new(proof);
	let mut m2 = Model::new();
	let mut k = 0;
	for o in ops {
		match *o {
			Op::Msg(n) => {
				let mut b = vec![0; n];
				check(v.message().read_bytes(&mut b).is_ok() && b == seen[k], 7);
				if n > 0 { m2.observe(&b); }
				k += 1;
			}
			Op::Obs(n) => {
				v.observe().write_bytes(&seen[k]);
				m2.observe(&seen[k]);
				k += 1;
			}
			Op::Dec(n) => {
				let mut b = vec![0; n];
				check(v.decommitment().read_bytes(&mut b).is_ok() && b == seen[k], 8);
				k += 1;
			}
			Op::F8 => {
				let x: BinaryField8b = v.sample();
				check(x.val() == m2.sample(1)[0], 9);
			}
			Op::F1 => {
				let x: BinaryField1b = v.sample();
				check(x == BinaryField1b::from(m2.sample(1)[0] & 1 == 1), 10);
			}
			Op::Aes16 => {
				let x: AESTowerField16b = v.sample();
				let e = m2.sample(2);
				check(x == AESTowerField16b::from(BinaryField16b::new(u16::from_le_bytes([e[0], e[1]]))), 11);
			}
			Op::F128 => {
				let x: BinaryField128b = v.sample();
				check(x.val() == u128::from_le_bytes(m2.sample(16).try_into().unwrap()), 12);
			}
			Op::Bits(n) => {
				let x: u32 = v.sample_bits(n);
				let e = u32::from_le_bytes(m2.sample(4).try_into().unwrap());
				check(x == if n >= 32 { e } else { e & ((1u32 << n) - 1) }, 13);
			}
			Op::Touch => {
				let _ = v.observe();
				m2.start_observing();
			}
		}
	}
	check(v.finalize().is_ok(), 14);
}
fn ops(n: usize, k: usize) {
	let v: Vec<Op> = (0..n).map(|_| KINDS[any_below(k)]).collect();
	agree(&v);
}
fn longer() {
	agree(&[Op::F8; 20]);
	let mut v = vec![Op::Msg(7), Op::Msg(1), Op::Msg(8), Op::Msg(17)];
	v.extend([Op::Bits(32), Op::Bits(31), Op::Bits(64), Op::Bits(1), Op::F8, Op::F128, Op::Obs(16), Op::F8, Op::F128]);
	agree(&v);
	let mut v = vec![];
	for i in 0..6 {
		v.extend([Op::Msg(i + 5), Op::Dec(i), Op::Aes16, Op::F1]);
	}
	v.extend([Op::F128; 3]);
	agree(&v);
}

/// different observed data give different challenges; decommitments do not influence them
fn binding(shape: &[Op], at: usize, n: usize) {
	merge(false);
	let mk = |b: &[Vec<u8>]| -> BinaryField128b {
		let mut p = P::new();
		for (i, o) in shape.iter().enumerate() {
			match o {
				Op::Msg(_) => p.message().write_bytes(&b[i]),
				Op::Obs(_) => p.observe().write_bytes(&b[i]),
				Op::Dec(_) => p.decommitment().write_bytes(&b[i]),
				Op::F128 => {
					let _: BinaryField128b = p.sample();
				}
				_ => {
					let _: BinaryField8b = p.sample();
				}
			}
		}
		p.sample()
	};
	let len = |o: &Op| match o {
		Op::Msg(n) | Op::Obs(n) | Op::Dec(n) => *n,
		_ => 0,
	};
	let a: Vec<Vec<u8>> = shape.iter().map(|o| (0..len(o)).map(|_| any::<1>()[0]).collect()).collect();
	let mut b = a.clone();
	b[at] = (0..n).map(|_| any::<1>()[0]).collect();
	let x = mk(&a);
	let y = mk(&b);
	match shape[at] {
		Op::Dec(_) => check(x == y, 1),
		_ => check((x == y) == (a[at] == b[at]), 2),
	}
}

/// typed messages read back, in canonical form, and are observed
fn typed() {
	let mut p = P::new();
	let a: BinaryField128b = any_f();
	let b: [AESTowerField8b; 3] = [any_f(), any_f(), any_f()];
	let c: PackedBinaryField4x32b = any_pod();
	let d: [PackedBinaryField2x64b; 2] = any_pod();
	let e = any_u64();
	let f = any::<5>();
	let g: [BinaryField32b; 2] = [any_f(), any_f()];
	let (x, y): (BinaryField1b, BinaryField8b) = (any_f(), any_f());
	{
		let mut w = p.message();
		w.write_scalar(a);
		w.write_scalar_slice(&b);
		w.write_packed(c);
		w.write_packed_slice(&d);
		write_u64(&mut w, e);
		w.write_bytes(&f);
		w.write(&g[0]);
		w.write_slice(&g);
		w.write_scalar_iter([x, x]);
		w.write_packed_iter([c]);
	}
	let q: BinaryField128b = p.sample();
	{
		let mut w = p.decommitment();
		w.write_scalar(y);
		w.write(&e);
	}
	let t = p.finalize();
	let mut want = a.val().to_le_bytes().to_vec();
	for z in b {
		want.push(BinaryField8b::from(z).val());
	}
	for i in 0..4 {
		want.extend(c.get(i).val().to_le_bytes());
	}
	for i in 0..4 {
		want.extend(d[i / 2].get(i % 2).val().to_le_bytes());
	}
	want.extend(e.to_le_bytes());
	want.extend(f);
	for z in [g[0], g[0], g[1]] {
		want.extend(z.val().to_le_bytes());
	}
	want.extend([bytes_of(&x)[0]; 2]);
	for i in 0..4 {
		want.extend(c.get(i).val().to_le_bytes());
	}
	let obs = want.clone();
	want.push(y.val());
	want.extend(e.to_le_bytes());
	check(t == want, 1);
	let mut m = Model::new();
	m.observe(&obs);
	check(q.val() == u128::from_le_bytes(m.sample(16).try_into().unwrap()), 2);
	let mut v = V::new(t.clone());
	{
		let mut r = v.message();
		check(r.read_scalar::<BinaryField128b>().unwrap() == a, 3);
		check(r.read_scalar_slice::<AESTowerField8b>(3).unwrap() == b, 4);
		check(r.read_packed::<PackedBinaryField4x32b>().unwrap() == c, 5);
		check(r.read_packed_slice::<PackedBinaryField2x64b>(2).unwrap() == d, 6);
		check(read_u64(&mut r).unwrap() == e, 7);
		let mut z = [0; 5];
		check(r.read_bytes(&mut z).is_ok() && z == f, 8);
		check(r.read::<BinaryField32b>().unwrap() == g[0], 9);
		check(r.read_vec::<BinaryField32b>(2).unwrap() == g, 10);
		let mut z = [BinaryField1b::ZERO; 2];
		check(r.read_scalar_slice_into(&mut z).is_ok() && z == [x, x], 11);
		check(r.read_packed::<PackedBinaryField4x32b>().unwrap() == c, 12);
	}
	let q2: BinaryField128b = v.sample();
	check(q == q2, 13);
	check(v.clone().finalize().is_err(), 14);
	check(v.decommitment().read_scalar::<BinaryField8b>().unwrap() == y, 15);
	check(v.decommitment().read::<u64>().unwrap() == e, 16);
	check(v.finalize().is_ok(), 17);
	// several samples at once are the samples one by one
	let (mut v, mut w) = (V::new(t.clone()), V::new(t));
	let one: [BinaryField32b; 7] = std::array::from_fn(|_| v.sample());
	let many: Vec<BinaryField32b> = w.sample_vec(3);
	check(many == one[..3], 18);
	let many: [BinaryField32b; 2] = w.sample_array();
	check(many == one[3..5], 19);
	let none: Vec<BinaryField32b> = w.sample_vec(0);
	check(none.is_empty(), 20);
	let last: BinaryField32b = w.sample();
	check(last == one[5], 21);
}
/// any byte string is either decoded or rejected with an error, never a panic
fn short(n: usize) {
	let b: Vec<u8> = (0..n).map(|_| any::<1>()[0]).collect();
	let mk = || V::new(b.clone());
	let fits = |k: usize| n >= k;
	check(mk().message().read_scalar::<BinaryField128b>().is_ok() == fits(16), 1);
	check(mk().message().read_scalar::<AESTowerField32b>().is_ok() == fits(4), 2);
	check(mk().decommitment().read_scalar_slice::<BinaryField16b>(3).is_ok() == fits(6), 3);
	check(mk().message().read_packed::<PackedBinaryField2x64b>().is_ok() == fits(16), 4);
	check(mk().message().read_packed_slice::<PackedBinaryField4x8b>(2).is_ok() == fits(8), 5);
	check(mk().message().read_bytes(&mut [0; 7]).is_ok() == fits(7), 6);
	check(read_u64(&mut mk().message()).is_ok() == fits(8), 7);
	check(mk().message().read_vec::<u32>(3).is_ok() == fits(12), 8);
	check(mk().message().read::<u128>().is_ok() == fits(16), 9);
	let mut v = mk();
	check(v.clone().finalize().is_ok() == (n == 0), 10);
	let mut all = vec![0; n];
	check(v.message().read_bytes(&mut all).is_ok() && all == b, 11);
	check(v.message().read_bytes(&mut [0; 1]).is_err(), 12);
	check(v.finalize().is_ok(), 13);
	if n == 2 {
		// sub-byte fields: the low bits of one byte each
		check(mk().message().read_scalar::<BinaryField1b>().unwrap() == BinaryField1b::from(b[0] & 1 == 1), 14);
		check(bytes_of(&mk().message().read_scalar::<BinaryField4b>().unwrap())[0] == b[0] & 15, 15);
	}
}

harness! {
	h_c14_ops_3 => ops(3, 12);
	h_c14_ops_4 => ops(4, 7);
	h_c14_ops_5_thorough => ops(5, 9);
	h_c14_longer => longer();
	h_c14_bind_msg => binding(&[Op::Msg(3), Op::Obs(2)], 0, 3);
	h_c14_bind_len => binding(&[Op::Msg(3)], 0, 4);
	h_c14_bind_obs => binding(&[Op::Obs(2), Op::Msg(9)], 0, 2);
	h_c14_bind_mid => binding(&[Op::Msg(1), Op::F128, Op::Msg(2), Op::F128], 2, 2);
	h_c14_bind_early => binding(&[Op::Msg(8), Op::F8, Op::F8, Op::Dec(1), Op::F128, Op::Msg(1)], 0, 8);
	h_c14_bind_dec => binding(&[Op::Msg(1), Op::Dec(4), Op::F8, Op::Dec(2)], 1, 4);
	h_c14_typed => typed();
	h_c14_short => { let n = any_below(18); short(n); };
}
