use crate::mock::*;
use binius_core::{
	fiat_shamir::HasherChallenger,
	merkle_tree::{BinaryMerkleTreeProver, BinaryMerkleTreeScheme, MerkleTreeProver, MerkleTreeScheme},
	transcript::{ProverTranscript, VerifierTranscript},
};
use binius_field::*;
use binius_utils::{SerializationMode, SerializeBytes};
use digest::Output;
use fref::*;
use symapi::*;

type Ch = HasherChallenger<UfHash>;
type Prover<F> = BinaryMerkleTreeProver<F, UfHash, UfComp>;
type Scheme<F> = BinaryMerkleTreeScheme<F, UfHash, UfComp>;

fn bytes_f<F: TowerField>(v: &[F]) -> Vec<u8> {
	let mut b = Vec::new();
	for x in v {
		x.serialize(&mut b, SerializationMode::CanonicalTower).unwrap();
	}
	b
}
/// layers by definition: [0] = leaves .. [depth] = root
fn layers<F: TowerField>(d: &[F], batch: usize) -> Vec<Vec<Vec<u8>>> {
	let mut l = vec![d.chunks(batch).map(|c| h(&bytes_f(c))).collect::<Vec<_>>()];
	while l.last().unwrap().len() > 1 {
		let n = l.last().unwrap().chunks(2).map(|p| comp(&p[0], &p[1])).collect();
		l.push(n);
	}
	l
}
fn any_digest() -> Output<UfHash> {
	let b: [u8; 16] = any();
	b.into()
}
fn honest<F: TowerField>(n: usize, batch: usize, iterated: bool) {
	let d: Vec<F> = (0..batch << n).map(|_| any_f::<F>()).collect();
	let p = Prover::<F>::new(UfComp);
	let (c, t) = if iterated {
		use binius_maybe_rayon::prelude::*;
		p.commit_iterated(d.par_chunks(batch).map(|c| c.iter().copied()), n).unwrap()
	} else {
		p.commit(&d, batch).unwrap()
	};
	let l = layers(&d, batch);
	check(c.root[..] == l[n][0][..], 1);
	check(c.depth == n, 2);
	for depth in 0..=n {
		let x = p.layer(&t, depth).unwrap();
		check(x.len() == 1 << depth, 3);
		for (a, b) in x.iter().zip(&l[n - depth]) {
			check(a[..] == b[..], 4);
		}
		check(p.scheme().verify_layer(&c.root, depth, x).is_ok(), 5);
		check(p.scheme().verify_layer(&c.root, depth + 1, x).is_err(), 6);
		for i in 0..1usize << n {
			let mut w = ProverTranscript::<Ch>::new();
			p.prove_opening(&t, depth, i, &mut w.decommitment()).unwrap();
			let proof = w.finalize();
			check(proof.len() == (n - depth) * 16, 7);
			for j in 0..n - depth {
				check(proof[16 * j..16 * j + 16] == l[j][(i >> j) ^ 1][..], 8);
			}
			let mut v = VerifierTranscript::<Ch>::new(proof);
			check(p.scheme().verify_opening(i, &d[i * batch..(i + 1) * batch], depth, n, x, &mut v.decommitment()).is_ok(), 9);
			check(v.finalize().is_ok(), 10);
		}
		let mut w = ProverTranscript::<Ch>::new();
		check(p.prove_opening(&t, depth, 1 << n, &mut w.decommitment()).is_err(), 11);
		for q in 0..4usize {
			check(p.scheme().proof_size(1 << n, q, depth).unwrap() == ((n - depth) * q + (1 << depth)) * 16, 12);
		}
		check(p.scheme().proof_size(1 << n, 3, n + 1).is_err(), 16);
		check(p.scheme().proof_size(3 << n, 3, depth).is_err(), 17);
	}
	check(p.layer(&t, n + 1).is_err(), 13);
	let mut w = ProverTranscript::<Ch>::new();
	check(p.prove_opening(&t, n + 1, 0, &mut w.decommitment()).is_err(), 14);
	check(p.scheme().verify_vector(&c.root, &d, batch).is_ok(), 15);
	for q in 1..=9usize {
		let o = p.scheme().optimal_verify_layer(q, n);
		check(o <= n && (o == n || 1 << o >= q) && (o == 0 || 1 << (o - 1) < q), 18);
	}
}
/// an accepted opening is the committed value
fn binding<F: TowerField>(n: usize, batch: usize, fake: usize, depth: usize) {
	merge(false);
	let d: Vec<F> = (0..batch << n).map(|_| any_f::<F>()).collect();
	let s = Scheme::<F>::new(UfComp);
	let p = Prover::<F>::new(UfComp);
	let (c, t) = p.commit(&d, batch).unwrap();
	let i = any_below(1 << n);
	let v: Vec<F> = (0..fake).map(|_| any_f::<F>()).collect();
	let layer: Vec<Output<UfHash>> = (0..1 << depth).map(|_| any_digest()).collect();
	let mut proof = Vec::new();
	for _ in 0..n - depth {
		proof.extend(any::<16>());
	}
	let l_ok = s.verify_layer(&c.root, depth, &layer).is_ok();
	let mut r = VerifierTranscript::<Ch>::new(proof);
	let o_ok = s.verify_opening(i, &v, depth, n, &layer, &mut r.decommitment()).is_ok();
	let same = v.len() == batch && v[..] == d[i * batch..(i + 1) * batch];
	check(!(l_ok && o_ok) || same, 1);
	if l_ok && o_ok { cover(1) }
	if fake == batch { expect(1) }
}
fn vector_binding<F: TowerField>(n: usize, batch: usize, m: usize, b2: usize) {
	merge(false);
	let d: Vec<F> = (0..batch << n).map(|_| any_f::<F>()).collect();
	let p = Prover::<F>::new(UfComp);
	let (c, t) = p.commit(&d, batch).unwrap();
	let e: Vec<F> = (0..m).map(|_| any_f::<F>()).collect();
	let ok = p.scheme().verify_vector(&c.root, &e, b2).is_ok();
	check(!ok || e == d, 1);
	check(ok || e != d || b2 != batch, 2);
}
fn edges() {
	type F = BinaryField8b;
	let s = Scheme::<F>::new(UfComp);
	let p = Prover::<F>::new(UfComp);
	let d: Vec<F> = (0..12).map(|_| any_f::<F>()).collect();
	check(p.commit(&d, 5).is_err(), 1);
	check(p.commit(&d, 4).is_err(), 2);
	check(p.commit(&d, 3).is_ok(), 3);
	let root = any_digest();
	check(s.verify_vector(&root, &d, 5).is_err(), 4);
	check(s.verify_vector(&root, &d, 4).is_err(), 5);
	check(s.verify_vector(&root, &d[..0], 4).is_err(), 6);
	let l = [any_digest(), any_digest()];
	check(s.verify_layer(&root, 2, &l).is_err() && s.verify_layer(&root, 0, &l).is_err(), 7);
	for i in [4usize, 5, 1 << 40, usize::MAX] {
		let mut r = VerifierTranscript::<Ch>::new(any::<64>().to_vec());
		check(s.verify_opening(i, &d[..3], 1, 2, &l, &mut r.decommitment()).is_err(), 8);
	}
	let mut r = VerifierTranscript::<Ch>::new(any::<64>().to_vec());
	check(s.verify_opening(0, &d[..3], 2, 2, &l, &mut r.decommitment()).is_err(), 9);
	// a proof that is too short is an error
	for k in [0usize, 1, 15] {
		let mut r = VerifierTranscript::<Ch>::new(any::<16>()[..k].to_vec());
		check(s.verify_opening(3, &d[..3], 1, 2, &l, &mut r.decommitment()).is_err(), 10);
	}
}

harness! {
	h_c12_honest_8 => { honest::<BinaryField8b>(2, 3, false); };
	h_c12_honest_8i => { honest::<BinaryField8b>(2, 2, true); };
	h_c12_honest_1 => { honest::<BinaryField8b>(0, 5, false); honest::<BinaryField32b>(1, 1, false); };
	h_c12_honest_128 => { honest::<BinaryField128b>(3, 1, false); };
	h_c12_honest_aes => { honest::<AESTowerField8b>(1, 11, false); };
	h_c12_bind_0 => binding::<BinaryField8b>(0, 2, 2, 0);
	h_c12_bind_1 => binding::<BinaryField8b>(1, 2, 2, 0);
	h_c12_bind_1l => binding::<BinaryField8b>(1, 2, 2, 1);
	h_c12_bind_2 => binding::<BinaryField8b>(2, 1, 1, 0);
	h_c12_bind_2l => binding::<BinaryField8b>(2, 1, 1, 1);
	h_c12_bind_2ll => binding::<BinaryField32b>(2, 1, 1, 2);
	h_c12_bind_3 => binding::<BinaryField8b>(3, 1, 1, 1);
	h_c12_bind_short => binding::<BinaryField8b>(1, 3, 2, 0);
	h_c12_bind_long => binding::<BinaryField8b>(1, 2, 3, 0);
	h_c12_vector => vector_binding::<BinaryField8b>(2, 2, 8, 2);
	h_c12_edges => edges();
}
