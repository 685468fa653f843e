//! C13 (low level): FRI folding commutes with encoding.
use crate::ntt::*;
use binius_field::packed::*;
use binius_field::*;
use binius_ntt::fri::*;
use binius_ntt::*;
use fref::any_f;
use symapi::*;

/// low-to-high multilinear fold of the message coefficients
fn fold_msg<F: Field>(m: &[F], r: &[F]) -> Vec<F> {
	let mut v = m.to_vec();
	for &c in r {
		v = v.chunks(2).map(|p| p[0] + c * (p[1] - p[0])).collect();
	}
	v
}
/// codeword of length 2^log_len (rate 2^-log_inv) over the domain of that dimension; message in the
/// novel basis
fn encode<F: Field + ExtensionField<FS>, FS: BinaryField>(basis: &[FS], msg: &[F], log_len: usize) -> Vec<F> {
	let b = sub_basis(basis, log_len);
	(0..1usize << log_len)
		.map(|y| {
			let x = elem(&b, y);
			let mut v = F::ZERO;
			for (j, c) in msg.iter().enumerate() {
				let p = (0..log_len).filter(|k| j >> k & 1 == 1).fold(FS::ONE, |p, k| p * w_hat(&b, k, x));
				v += *c * p;
			}
			v
		})
		.collect()
}
/// symbolic message and challenges
fn fold<F, FS, P>(l: usize, log_dim: usize, log_inv: usize, log_batch: usize, n_fold: usize)
where
	F: BinaryField + ExtensionField<FS>,
	FS: BinaryField,
	P: PackedField<Scalar = F>,
{
	let r: Vec<F> = (0..log_batch + n_fold).map(|_| any_f()).collect();
	fold_at::<F, FS, P>(l, log_dim, log_inv, log_batch, n_fold, r)
}
/// symbolic message, fixed challenges (both sides are then linear in the message): wider packings, longer words
fn foldc<F, FS, P>(l: usize, log_dim: usize, log_inv: usize, log_batch: usize, n_fold: usize)
where
	F: BinaryField + ExtensionField<FS>,
	FS: BinaryField,
	P: PackedField<Scalar = F>,
{
	let mut g = F::MULTIPLICATIVE_GENERATOR;
	let r: Vec<F> = (0..log_batch + n_fold).map(|_| { g = g * g * F::MULTIPLICATIVE_GENERATOR + F::ONE; g }).collect();
	fold_at::<F, FS, P>(l, log_dim, log_inv, log_batch, n_fold, r)
}
fn fold_at<F, FS, P>(l: usize, log_dim: usize, log_inv: usize, log_batch: usize, n_fold: usize, r: Vec<F>)
where
	F: BinaryField + ExtensionField<FS>,
	FS: BinaryField,
	P: PackedField<Scalar = F>,
{
	let ntt = SingleThreadedNTT::<FS>::new(l).unwrap();
	let basis: Vec<FS> = (0..l).map(|i| <FS as ExtensionField<BinaryField1b>>::basis(i)).collect();
	let log_len = log_dim + log_inv;
	let nb = 1usize << log_batch;
	// message: interleaved batch of nb messages
	let msgs: Vec<Vec<F>> = (0..nb).map(|_| (0..1 << log_dim).map(|_| any_f()).collect()).collect();
	let words: Vec<Vec<F>> = msgs.iter().map(|m| encode(&basis, m, log_len)).collect();
	let mut cw: Vec<P> = vec![P::zero(); (nb << log_len) / P::WIDTH];
	for i in 0..1usize << log_len {
		for b in 0..nb {
			set_packed_slice(&mut cw, i * nb + b, words[b][i]);
		}
	}
	let got = fold_interleaved(&ntt, &cw, &r, log_len, log_batch);
	// expected: fold the batch with the first challenges, then the message with the rest
	let mixed: Vec<F> = (0..1usize << log_dim)
		.map(|j| fold_msg(&(0..nb).map(|b| msgs[b][j]).collect::<Vec<_>>(), &r[..log_batch])[0])
		.collect();
	let want = encode(&basis, &fold_msg(&mixed, &r[log_batch..]), log_len - n_fold);
	check(got.len() == want.len(), 1);
	for i in 0..want.len() {
		check(got[i] == want[i], 2);
	}
}
harness! {
	h_c13_fold_b16_1 => fold::<BinaryField16b, BinaryField16b, BinaryField16b>(4, 2, 1, 0, 1);
	h_c13_fold_b16_2 => fold::<BinaryField16b, BinaryField16b, BinaryField16b>(4, 2, 1, 0, 2);
	h_c13_fold_b16_3 => fold::<BinaryField16b, BinaryField16b, BinaryField16b>(4, 2, 1, 1, 1);
	h_c13_fold_b16_4 => fold::<BinaryField16b, BinaryField16b, BinaryField16b>(5, 3, 1, 0, 2);
	h_c13_fold_b32_8 => fold::<BinaryField32b, BinaryField8b, BinaryField32b>(4, 2, 2, 0, 1);
	h_c13_fold_b32_8b => fold::<BinaryField32b, BinaryField8b, BinaryField32b>(4, 2, 1, 1, 0);
	h_c13_fold_p2 => fold::<BinaryField8b, BinaryField8b, PackedBinaryField2x8b>(4, 2, 1, 1, 1);
	h_c13_fold_p2b => fold::<BinaryField4b, BinaryField4b, PackedBinaryField2x4b>(4, 2, 1, 1, 2);
	h_c13_fold_p2c => fold::<BinaryField32b, BinaryField8b, PackedBinaryField2x32b>(4, 1, 1, 1, 0);
	h_c13_fold_p4b => fold::<BinaryField8b, BinaryField8b, PackedBinaryField4x8b>(4, 2, 1, 0, 2);
	h_c13_fold_p2d => fold::<BinaryField8b, BinaryField8b, PackedBinaryField4x8b>(4, 2, 1, 1, 0);
	h_c13_foldc_4x8_b1 => foldc::<BinaryField8b, BinaryField8b, PackedBinaryField4x8b>(5, 2, 2, 1, 2);
	h_c13_foldc_8x16_b2 => foldc::<BinaryField16b, BinaryField16b, PackedBinaryField8x16b>(5, 2, 1, 2, 1);
	h_c13_foldc_4x8_b0 => foldc::<BinaryField8b, BinaryField8b, PackedBinaryField4x8b>(5, 2, 1, 0, 1);
	h_c13_foldc_4x8 => foldc::<BinaryField8b, BinaryField8b, PackedBinaryField4x8b>(5, 2, 2, 2, 1);
	h_c13_foldc_4x32 => foldc::<BinaryField32b, BinaryField16b, PackedBinaryField4x32b>(6, 3, 1, 2, 2);
	h_c13_foldc_8x16 => foldc::<BinaryField16b, BinaryField16b, PackedBinaryField8x16b>(6, 3, 1, 3, 2);
	h_c13_foldc_8x16_wide => foldc::<BinaryField16b, BinaryField16b, PackedBinaryField8x16b>(6, 2, 1, 4, 1);
	h_c13_foldc_2x128 => foldc::<BinaryField128b, BinaryField32b, PackedBinaryField2x128b>(5, 2, 2, 1, 2);
	h_c13_foldc_b128 => foldc::<BinaryField128b, BinaryField32b, BinaryField128b>(4, 2, 1, 0, 2);
	h_c13_foldc_b128_2 => foldc::<BinaryField128b, BinaryField32b, BinaryField128b>(4, 1, 1, 1, 1);
	h_c13_fold_p2_thorough => fold::<BinaryField32b, BinaryField8b, PackedBinaryField2x32b>(4, 2, 1, 1, 1);
	h_c13_fold_p4_thorough => fold::<BinaryField8b, BinaryField8b, PackedBinaryField4x8b>(4, 1, 2, 2, 1);
	h_c13_fold_b8_3 => fold::<BinaryField8b, BinaryField8b, BinaryField8b>(5, 3, 1, 0, 3);
	h_c13_fold_b128 => fold::<BinaryField128b, BinaryField16b, BinaryField128b>(4, 1, 1, 0, 1);
}
