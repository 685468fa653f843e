//! FRI: honest folders are accepted and give the value of the message; whatever is accepted folds
//! consistently from the first committed word to a repetition of the returned value.
use crate::{ec::mle, mock::*};
use binius_compute::{ComputeData, ComputeHolder, cpu::layer::CpuLayerHolder};
use binius_core::{
	merkle_tree::{BinaryMerkleTreeProver, BinaryMerkleTreeScheme, MerkleTreeProver, MerkleTreeScheme},
	protocols::fri::{self, *},
	reed_solomon::reed_solomon::ReedSolomonCode,
	transcript::{ProverTranscript, VerifierTranscript},
};
use binius_field::*;
use binius_ntt::{AdditiveNTT, SingleThreadedNTT};
use digest::Output;
use fref::*;
use symapi::*;

type B = BinaryField128b;
type Prover<F> = BinaryMerkleTreeProver<F, UfHash, UfComp>;
type Dg = Output<UfHash>;

fn par<F: BinaryField + ExtensionField<FA>, FA: BinaryField>(s: &Shape, q: usize) -> FRIParams<F, FA> {
	let code = ReedSolomonCode::<FA>::new(s.dim, s.inv).unwrap();
	FRIParams::new(code, s.batch, s.ar.to_vec(), q).unwrap()
}
struct Shape {
	dim: usize,
	inv: usize,
	batch: usize,
	ar: &'static [usize],
}
const fn sh(dim: usize, inv: usize, batch: usize, ar: &'static [usize]) -> Shape {
	Shape { dim, inv, batch, ar }
}
fn k(i: u64) -> B {
	let x = (i as u128 + 1).wrapping_mul(0x9e3779b97f4a7c15f39cc0605cedc835);
	B::new(x ^ x >> 61)
}
/// honest prover over 128 bits, P elements packed; `bits` symbolic bits per value
fn honest<FA: BinaryField, P>(s: Shape, bits: usize, q: usize, tamper: bool)
where
	P: PackedField<Scalar = B> + PackedExtension<FA>,
	B: ExtensionField<FA>,
{
	exact(true);
	let p = par::<B, FA>(&s, q);
	let n = s.dim + s.batch;
	// about six symbolic bits
	let step = (1 << n) / 4;
	let step = if step == 0 { 1 } else { step };
	let msg: Vec<B> = (0..1 << n)
		.map(|i| {
			let mut v = k(i as u64);
			for j in 0..bits {
				if tamper || i * 3 % step != 0 {
					continue;
				}
				let b = any_u8() & 1;
				v += k(1000 + (i * 8 + j) as u64) * <B as From<u128>>::from(b as u128);
			}
			v
		})
		.collect();
	let mut packed = vec![P::zero(); (1usize << n).div_ceil(P::WIDTH)];
	for (i, x) in msg.iter().enumerate() {
		packed::set_packed_slice(&mut packed, i, *x);
	}
	let ntt = SingleThreadedNTT::<FA>::new(p.rs_code().log_len()).unwrap();
	let m = Prover::<B>::new(UfComp);
	let c = fri::commit_interleaved(p.rs_code(), &p, &ntt, &m, &packed).unwrap();
	check(c.codeword.len() * P::WIDTH == 1 << p.log_len(), 1);
	let mut holder = CpuLayerHolder::<B>::new(1 << 4, 1 << 8);
	let ComputeData { hal, dev_alloc, .. } = holder.to_data();
	let mut f = FRIFolder::new(hal, &p, &ntt, &m, &c.codeword, &c.committed).unwrap();
	let ch: Vec<B> = (0..p.n_fold_rounds()).map(|i| k(77 + i as u64)).collect();
	let mut roots = vec![];
	let mut at = 0;
	let mut commits = vec![];
	for a in s.ar {
		at += a;
		commits.push(at);
	}
	check(f.n_rounds() == n, 2);
	for (i, x) in ch.iter().enumerate() {
		match f.execute_fold_round(&dev_alloc, *x).unwrap() {
			FoldRoundOutput::NoCommitment => check(!commits.contains(&(i + 1)), 3),
			FoldRoundOutput::Commitment(r) => {
				check(commits.contains(&(i + 1)), 4);
				roots.push(r)
			}
		}
		check(f.curr_round() == i + 1, 5);
	}
	let mut t = ProverTranscript::<Fx>::new();
	f.finish_proof(&mut t).unwrap();
	let mut proof = t.finalize();
	let v = FRIVerifier::new(&p, m.scheme(), &c.commitment, &roots, &ch).unwrap();
	if tamper {
		merge(false);
		// one bit of one byte of the proof is another
		let n = proof.len();
		// every so many bytes, another bit each time
		let i = any_below(120.min(n));
		let i = i * n / 120.min(n);
		let d = 1u8 << i * 3 % 8;
		proof[i] ^= d;
		check(v.verify(&mut VerifierTranscript::<Fx>::new(proof)).is_err(), 8);
		return;
	}
	let mut t = VerifierTranscript::<Fx>::new(proof);
	let r = v.verify(&mut t);
	check(r.is_ok(), 6);
	check(t.finalize().is_ok(), 9);
	check(r.unwrap() == mle(&msg, &ch), 7);
}

/// fold a word by definition
fn fold<F: ExtensionField<FA>, FA: BinaryField>(ntt: &SingleThreadedNTT<FA>, s: &Shape, w: &[F], from: usize, ch: &[F]) -> Vec<F> {
	let mut cur = w.to_vec();
	let mut round = from;
	for r in ch {
		cur = if round < s.batch {
			cur.chunks(2).map(|c| c[0] + (c[0] + c[1]) * *r).collect()
		} else {
			let l = s.dim + s.inv - (round - s.batch);
			cur.chunks(2)
				.enumerate()
				.map(|(j, c)| {
					let t = ntt.get_subspace_eval(l, j);
					let x = c[0] + c[1];
					let u = c[0] + x * t;
					u + (x - u) * *r
				})
				.collect()
		};
		round += 1;
	}
	cur
}
/// any words, committed honestly: accepted at exactly the queries at which they fold consistently
/// (err: codewords of a message, and errors in one coset of each)
fn words<F, FA: BinaryField>(s: Shape, fix: bool, err: bool)
where
	F: TowerField + ExtensionField<FA> + PackedField<Scalar = F> + PackedExtension<FA>,
{
	merge(false);
	let p = par::<F, FA>(&s, 2);
	let ntt = SingleThreadedNTT::<FA>::with_subspace(p.rs_code().subspace()).unwrap();
	let m = Prover::<F>::new(UfComp);
	let n = s.dim + s.batch;
	let ch: Vec<F> = (0..n).map(|i| if fix { <F as TowerField>::basis(0, (1 + i) % 4).unwrap() + F::ONE } else { any_f() }).collect();
	// word, tree, coset size, root
	let mut words: Vec<Vec<F>> = vec![];
	let mut len = p.log_len();
	let mut sizes: Vec<usize> = s.ar.to_vec();
	sizes.push(p.n_final_challenges());
	let mut trees = vec![];
	let mut roots: Vec<Dg> = vec![];
	let mut clean: Vec<F> = vec![];
	for (i, a) in sizes.iter().enumerate() {
		let w: Vec<F> = if err {
			let mut w: Vec<F> = if i == 0 {
				let msg: Vec<F> = (0..1usize << n)
					.map(|i| if i % 3 == 1 { F::ZERO } else { <F as TowerField>::basis(0, (i + i / 4) % 4).unwrap() })
					.collect();
				let sm = Prover::<F>::new(UfComp);
				let nt = SingleThreadedNTT::<FA>::new(p.rs_code().log_len()).unwrap();
				fri::commit_interleaved(p.rs_code(), &p, &nt, &sm, &msg).unwrap().codeword
			} else {
				let from: usize = s.ar[..i - 1].iter().sum();
				fold(&ntt, &s, &clean, from, &ch[from..from + s.ar[i - 1]])
			};
			clean = w.clone();
			w[i + 1] += any_f::<F>();
			w[len * 2 - i - 1] += any_f::<F>();
			w
		} else {
			(0..1 << len).map(|_| any_f()).collect()
		};
		let (c, t) = m.commit(&w, 1 << a).unwrap();
		words.push(w);
		trees.push(t);
		roots.push(c.root);
		len -= a;
	}
	let v = FRIVerifier::new(&p, m.scheme(), &roots[0], &roots[1..], &ch).unwrap();
	check(v.n_oracles() == s.ar.len(), 9);
	let last = words.last().unwrap().clone();
	// the last word
	let done = n - p.n_final_challenges();
	let end = fold(&ntt, &s, &last, done, &ch[done..]);
	let rep = end.iter().all(|x| *x == end[0]);
	let r = v.verify_last_oracle(&ntt, &last);
	check(r.is_ok() == rep, 1);
	if let Ok(x) = r {
		check(x == end[0], 2);
		cover(1);
	}
	expect(1);
	let mut other = last.clone();
	let i = any_below(other.len());
	other[i] = any_f();
	if other[i] != last[i] {
		check(v.verify_last_oracle(&ntt, &other).is_err(), 3);
	}
	if s.ar.is_empty() {
		return;
	}
	// a query: every index
	let index = any_below(1 << p.index_bits());
	let mut len = p.log_len();
	let depths: Vec<usize> = s
		.ar
		.iter()
		.map(|a| {
			len -= a;
			m.scheme().optimal_verify_layer(p.n_test_queries(), len)
		})
		.collect();
	let layers: Vec<Vec<Dg>> = depths.iter().zip(&trees).map(|(d, t)| m.layer(t, *d).unwrap().to_vec()).collect();
	let mut t = ProverTranscript::<Fx>::new();
	let mut idx = index;
	let mut good = true;
	let mut from = 0;
	for (i, a) in s.ar.iter().enumerate() {
		if i > 0 {
			idx >>= a;
		}
		let coset = &words[i][idx << a..(idx + 1) << a];
		t.decommitment().write_scalar_slice(coset);
		m.prove_opening(&trees[i], depths[i], idx, &mut t.decommitment()).unwrap();
		// fold the whole word so that positions come out by themselves
		let next = fold(&ntt, &s, &words[i], from, &ch[from..from + a]);
		good &= next[idx] == words[i + 1][idx];
		from += a;
	}
	let mut proof = t.finalize();
	let mut t = VerifierTranscript::<Fx>::new(proof.clone());
	let ok = v.verify_query(index, &ntt, &last, &layers, &mut t.decommitment()).is_ok();
	check(ok == good, 4);
	if ok {
		check(t.finalize().is_ok(), 5);
		cover(2);
	}
	expect(2);
}
fn edges() {
	type F = BinaryField4b;
	merge(false);
	let code = || ReedSolomonCode::<F>::new(2, 1).unwrap();
	check(FRIParams::<F, F>::new(code(), 1, vec![1, 1, 1], 3).is_err(), 1);
	check(FRIParams::<F, F>::new(code(), 1, vec![1, 2], 3).is_err(), 2);
	check(FRIParams::<F, F>::new(code(), 1, vec![1, 1], 3).is_ok(), 3);
	let p = FRIParams::<F, F>::new(code(), 1, vec![1, 1], 3).unwrap();
	let s = BinaryMerkleTreeScheme::<F, UfHash, UfComp>::new(UfComp);
	let d: Vec<Dg> = (0..4).map(|_| any::<16>().into()).collect();
	let ch: Vec<F> = (0..5u8).map(|i| <F as TowerField>::basis(0, i as usize % 4).unwrap()).collect();
	for r in 0..4 {
		for c in 0..5 {
			check(FRIVerifier::new(&p, &s, &d[3], &d[..r], &ch[..c]).is_ok() == (r == 2 && c == 3), 4);
		}
	}
	check(p.n_fold_rounds() == 3 && p.n_oracles() == 2 && p.index_bits() == 3 && p.n_final_challenges() == 1 && p.log_len() == 4, 5);
	// no proof, or a proof cut short
	let v = FRIVerifier::new(&p, &s, &d[3], &d[..2], &ch[..3]).unwrap();
	for n in [0usize, 1, 3, 4, 40] {
		let b = any::<40>()[..n].to_vec();
		check(v.verify(&mut VerifierTranscript::<Fx>::new(b)).is_err(), 6);
	}
}
type P2 = PackedBinaryField2x128b;
type P4 = PackedBinaryField4x128b;
harness! {
	h_c23_honest_111 => honest::<BinaryField8b, B>(sh(2, 1, 1, &[1, 1]), 1, 3, false);
	h_c23_honest_22 => honest::<BinaryField8b, B>(sh(3, 1, 1, &[2]), 1, 4, false);
	h_c23_honest_none => honest::<BinaryField16b, B>(sh(2, 1, 1, &[]), 1, 2, false);
	h_c23_honest_none0 => honest::<BinaryField16b, B>(sh(2, 2, 0, &[]), 2, 2, false);
	h_c23_honest_b2 => honest::<BinaryField16b, B>(sh(2, 1, 2, &[2, 1]), 1, 3, false);
	h_c23_honest_b0a => honest::<BinaryField16b, B>(sh(3, 1, 0, &[2]), 1, 5, false);
	h_c23_honest_132 => honest::<BinaryField8b, B>(sh(3, 1, 1, &[3]), 1, 1, false);
	h_c23_honest_dim0 => honest::<BinaryField8b, B>(sh(0, 1, 2, &[]), 2, 1, false);
	h_c23_tamper_111 => honest::<BinaryField8b, B>(sh(2, 1, 1, &[1, 1]), 1, 2, true);
	h_c23_tamper_b2 => honest::<BinaryField8b, B>(sh(1, 1, 2, &[2]), 1, 2, true);
	h_c23_tamper_none => honest::<BinaryField8b, B>(sh(1, 1, 1, &[]), 1, 2, true);
	h_c23_word4_11 => words::<BinaryField4b, BinaryField4b>(sh(1, 1, 1, &[1]), false, false);
	h_c23_word4_none => words::<BinaryField4b, BinaryField4b>(sh(1, 1, 1, &[]), false, false);
	h_c23_word4_none2 => words::<BinaryField4b, BinaryField4b>(sh(2, 1, 0, &[]), false, false);
	h_c23_word4_2 => words::<BinaryField4b, BinaryField4b>(sh(2, 1, 1, &[2]), false, false);
	h_c23_word4_b0 => words::<BinaryField4b, BinaryField4b>(sh(2, 1, 0, &[1]), false, false);
	h_c23_err_111 => words::<BinaryField4b, BinaryField4b>(sh(2, 1, 1, &[1, 1]), true, true);
	h_c23_err_21 => words::<BinaryField4b, BinaryField4b>(sh(3, 1, 1, &[2, 1]), true, true);
	h_c23_err_b21 => words::<BinaryField4b, BinaryField4b>(sh(2, 1, 2, &[2, 1]), true, true);
	h_c23_err_b0a => words::<BinaryField4b, BinaryField4b>(sh(3, 1, 0, &[1, 1]), true, true);
	h_c23_word4_r4 => words::<BinaryField4b, BinaryField4b>(sh(1, 2, 0, &[]), false, false);
	h_c23_word4_r4b => words::<BinaryField4b, BinaryField4b>(sh(0, 2, 1, &[]), false, false);
	h_c23_word4_r4a_thorough => words::<BinaryField4b, BinaryField4b>(sh(1, 2, 1, &[1]), false, false);
	h_c23_word4_r8_thorough => words::<BinaryField4b, BinaryField4b>(sh(1, 3, 0, &[]), false, false);
	h_c23_err_r4 => words::<BinaryField4b, BinaryField4b>(sh(2, 2, 0, &[1]), true, true);
	h_c23_edges => edges();
}
