//! C03: packed arithmetic is the scalar arithmetic in every lane. C04: packed structural operations.
//! C05: linear transformations, packed extensions.
use fref::Sc;
use binius_field::arithmetic_traits::*;
use binius_field::as_packed_field::*;
use binius_field::linear_transformation::*;
use binius_field::packed::*;
use binius_field::underlier::*;
use binius_field::*;
use symapi::*;

macro_rules! each {
	($f:ident: $($n:ident $t:ident;)*) => { harness!{ $($n => $f::<$t>();)* } };
}

fn arith<P: PackedField>()
where
	P::Scalar: WithUnderlier,
{
	let (x, y): (P, P) = (any_pod(), any_pod());
	let m = x * y;
	let a = x + y;
	let s = x - y;
	for i in 0..P::WIDTH {
		check(m.get(i) == x.get(i) * y.get(i), 1);
		check(a.get(i) == x.get(i) + y.get(i) && s.get(i) == a.get(i), 2);
	}
	let mut t = x;
	t *= y;
	check(same(&t, &m), 3);
	let mut t = x;
	t += y;
	check(same(&t, &a), 4);
	let mut t = x;
	t -= y;
	check(same(&t, &a), 5);
}
fn unary<P: PackedField>() {
	let x: P = any_pod();
	let c = x.get(0);
	let y: P = any_pod();
	let s = PackedField::square(y);
	let q = y * c;
	let a = y + c;
	let d = y - c;
	for i in 0..P::WIDTH {
		check(s.get(i) == Square::square(y.get(i)), 1);
		check(q.get(i) == y.get(i) * c, 2);
		check(a.get(i) == y.get(i) + c, 3);
		check(d.get(i) == y.get(i) - c, 4);
	}
	let sum: P = [x, y, x].into_iter().sum();
	check(same(&sum, &y), 5);
}
fn alpha<P: PackedField + MulAlpha>()
where
	P::Scalar: MulAlpha,
{
	let y: P = any_pod();
	let s = MulAlpha::mul_alpha(y);
	for i in 0..P::WIDTH {
		check(s.get(i) == MulAlpha::mul_alpha(y.get(i)), 1);
	}
}
fn invert<P: PackedField>() {
	let y: P = any_pod();
	let s = PackedField::invert_or_zero(y);
	for i in 0..P::WIDTH {
		check(s.get(i) == InvertOrZero::invert_or_zero(y.get(i)), 1);
	}
}
/// wide lanes: 4 symbolic bits per tested lane, one fixed pattern elsewhere
fn invert_window<P: PackedField>()
where
	P::Scalar: WithUnderlier,
{
	let w = P::WIDTH;
	for (k, lane) in [0, w / 2, w - 1].into_iter().enumerate() {
		let mut y = P::from_fn(|i| {
			let mut s = P::Scalar::ZERO;
			let n = size_of::<P::Scalar>();
			let b = unsafe { std::slice::from_raw_parts_mut(&mut s as *mut _ as *mut u8, n) };
			for (j, x) in b.iter_mut().enumerate() {
				*x = ((i * n + j) as u8).wrapping_mul(0x9d) ^ 0x35;
			}
			if i == lane {
				b[k * (n - 1) / 2] ^= any_u8() & 0x63;
			}
			s
		});
		if w > 1 {
			y.set((lane + 1) % w, P::Scalar::ZERO);
		}
		let s = PackedField::invert_or_zero(y);
		for i in 0..w {
			check(s.get(i) == InvertOrZero::invert_or_zero(y.get(i)), 1);
		}
	}
}
each! {invert_window:
	h_c03_invw_b1x32b PackedBinaryField1x32b; h_c03_invw_b2x32b PackedBinaryField2x32b; h_c03_invw_b4x32b PackedBinaryField4x32b;
	h_c03_invw_b8x32b PackedBinaryField8x32b; h_c03_invw_b16x32b PackedBinaryField16x32b;
	h_c03_invw_b1x64b PackedBinaryField1x64b; h_c03_invw_b2x64b PackedBinaryField2x64b; h_c03_invw_b4x64b PackedBinaryField4x64b; h_c03_invw_b8x64b PackedBinaryField8x64b;
	h_c03_invw_b1x128b PackedBinaryField1x128b; h_c03_invw_b2x128b PackedBinaryField2x128b; h_c03_invw_b4x128b PackedBinaryField4x128b;
	h_c03_invw_a1x32b PackedAESBinaryField1x32b; h_c03_invw_a4x32b PackedAESBinaryField4x32b; h_c03_invw_a8x32b PackedAESBinaryField8x32b;
	h_c03_invw_a1x64b PackedAESBinaryField1x64b; h_c03_invw_a2x64b PackedAESBinaryField2x64b; h_c03_invw_a4x64b PackedAESBinaryField4x64b;
	h_c03_invw_a1x128b PackedAESBinaryField1x128b; h_c03_invw_a2x128b PackedAESBinaryField2x128b; h_c03_invw_a4x128b PackedAESBinaryField4x128b;
	h_c03_invw_p1x128b PackedBinaryPolyval1x128b; h_c03_invw_p2x128b PackedBinaryPolyval2x128b; h_c03_invw_p4x128b PackedBinaryPolyval4x128b;
	h_c03_invw_s16x32b ByteSlicedAES16x32b; h_c03_invw_s16x64b ByteSlicedAES16x64b; h_c03_invw_s16x128b ByteSlicedAES16x128b;
}
/// lane i is bits [i*w, (i+1)*w) of the underlier (primitive packed types)
fn layout<P: PackedField>()
where
	P::Scalar: Sc,
{
	let x: P = any_pod();
	let b = bytes_of(&x);
	let w = 1usize << <P::Scalar as Sc>::K;
	for i in 0..P::WIDTH {
		let v = x.get(i).raw();
		let mut want = 0u128;
		if w >= 8 {
			for k in 0..w / 8 {
				want |= (b[i * w / 8 + k] as u128) << (8 * k);
			}
		} else {
			want = (b[i * w / 8] as u128 >> (i * w % 8)) & ((1 << w) - 1);
		}
		check(v == want, 1);
	}
}
fn structure<P: PackedField>() {
	let (x, y): (P, P) = (any_pod(), any_pod());
	let w = P::WIDTH;
	check(w == 1 << P::LOG_WIDTH, 1);
	// get/set
	for i in 0..w {
		// every lane up to 256 lanes, beyond that the lanes around powers of two
		if w > 256 && !(i.is_power_of_two() || (i + 1).is_power_of_two() || (i & (i - 1)).is_power_of_two()) {
			continue;
		}
		let mut t = x;
		t.set(i, y.get(i));
		for j in 0..w {
			check(t.get(j) == if i == j { y.get(j) } else { x.get(j) }, 2);
		}
	}
	check(x.get_checked(w).is_err(), 3);
	let mut t = x;
	check(t.set_checked(w, y.get(0)).is_err() && same(&t, &x), 4);
	// constructors
	let b = P::broadcast(x.get(w - 1));
	let f = P::from_fn(|i| x.get(w - 1 - i));
	let one = P::one();
	let zero = P::zero();
	let single = P::set_single(x.get(w / 2));
	for i in 0..w {
		check(b.get(i) == x.get(w - 1), 5);
		check(f.get(i) == x.get(w - 1 - i), 6);
		check(one.get(i) == P::Scalar::ONE && zero.get(i) == P::Scalar::ZERO, 7);
		check(single.get(i) == if i == 0 { x.get(w / 2) } else { P::Scalar::ZERO }, 8);
	}
	for n in [0, w / 2, w, w + 1] {
		let fs = P::from_scalars((0..n).map(|i| x.get((i + 1) % w)));
		for i in 0..w {
			check(fs.get(i) == if i < n { x.get((i + 1) % w) } else { P::Scalar::ZERO }, 9);
		}
	}
	// iteration
	let mut n = 0;
	for (i, e) in x.iter().enumerate() {
		check(e == x.get(i), 10);
		n += 1;
	}
	check(n == w && x.into_iter().count() == w, 11);
	check(x.into_iter().enumerate().all(|(i, e)| e == x.get(i)), 12);
	for k in [1, w / 2, w - 1] {
		check(x.iter().nth(k) == if k < w { Some(x.get(k)) } else { None }, 13);
	}
}
fn shuffle<P: PackedField>() {
	check(P::WIDTH == 1 << P::LOG_WIDTH, 9);
	let (x, y): (P, P) = (any_pod(), any_pod());
	let w = P::WIDTH;
	for lb in 0..P::LOG_WIDTH {
		let bl = 1usize << lb;
		let (p, q) = x.interleave(y, lb);
		for i in 0..w {
			// block index i>>lb; pairs of blocks; A' takes even blocks, B' the odd ones
			let (blk, off) = (i >> lb, i & (bl - 1));
			let src = |odd: usize| ((blk & !1 | odd) << lb) + off;
			let from = if blk & 1 == 0 { x } else { y };
			check(p.get(i) == from.get(src(0)), 1);
			check(q.get(i) == from.get(src(1)), 2);
		}
		let (p, q) = x.unzip(y, lb);
		for i in 0..w {
			let (blk, off) = (i >> lb, i & (bl - 1));
			let nb = w >> lb;
			let (from, k) = if blk < nb / 2 { (x, blk) } else { (y, blk - nb / 2) };
			check(p.get(i) == from.get(((2 * k) << lb) + off), 3);
			check(q.get(i) == from.get(((2 * k + 1) << lb) + off), 4);
		}
	}
}
fn spread<P: PackedField>() {
	let x: P = any_pod();
	for lb in 0..=P::LOG_WIDTH {
		let nb = P::WIDTH >> lb;
		for bi in 0..nb {
			if nb > 512 && !(bi.is_power_of_two() || (bi + 1).is_power_of_two()) {
				continue;
			}
			let s = x.spread(lb, bi);
			for i in 0..P::WIDTH {
				check(s.get(i) == x.get((bi << lb) + (i >> (P::LOG_WIDTH - lb))), 1);
			}
		}
	}
}
/// slices of packed elements as sequences of scalars
fn slices<P: PackedField>() {
	let xs: [P; 2] = [any_pod(), any_pod()];
	let w = P::WIDTH;
	check(len_packed_slice(&xs) == 2 * w, 1);
	let scal: Vec<P::Scalar> = (0..2 * w).map(|i| xs[i / w].get(i % w)).collect();
	for i in 0..2 * w {
		check(get_packed_slice(&xs, i) == scal[i], 2);
		check(matches!(get_packed_slice_checked(&xs, i), Ok(v) if v == scal[i]), 3);
		let mut t = xs;
		set_packed_slice(&mut t, i, scal[(i + 1) % (2 * w)]);
		for j in 0..2 * w {
			check(get_packed_slice(&t, j) == if i == j { scal[(i + 1) % (2 * w)] } else { scal[j] }, 4);
		}
	}
	check(get_packed_slice_checked(&xs, 2 * w).is_err(), 5);
	let mut t = xs;
	check(set_packed_slice_checked(&mut t, 2 * w, scal[0]).is_err() && same(&t, &xs), 6);
	check(P::iter_slice(&xs).enumerate().all(|(i, v)| v == scal[i]) && P::iter_slice(&xs).count() == 2 * w, 7);
	for off in [0, 1, w - 1, w, w + 1, 2 * w - 1, 2 * w, 2 * w + 1] {
		let v: Vec<P::Scalar> = iter_packed_slice_with_offset(&xs, off).collect();
		check(v.len() == (2 * w).saturating_sub(off), 8);
		check(v.iter().enumerate().all(|(i, s)| *s == scal[off + i]), 9);
	}
	// packing scalars, any length
	for n in 0..=2 * w {
		if n > 3 && n < w - 1 || n > w + 2 && n < 2 * w - 1 {
			continue;
		}
		let pk: Vec<P> = pack_slice(&scal[..n]);
		check(pk.len() == n.div_ceil(w), 10);
		for i in 0..pk.len() * w {
			check(get_packed_slice(&pk, i) == if i < n { scal[i] } else { P::Scalar::ZERO }, 11);
		}
		let fill: P = any_pod();
		let mut dst = [fill; 2];
		copy_packed_from_scalars_slice(&scal[..n], &mut dst);
		for i in 0..n {
			check(get_packed_slice(&dst, i) == scal[i], 12);
		}
		for i in n.div_ceil(w) * w..2 * w {
			check(get_packed_slice(&dst, i) == fill.get(i % w), 13);
		}
	}
	let pf: P = packed_from_fn_with_offset(1, |i| scal[i]);
	check(same(&pf, &xs[1]), 14);
}
fn transpose<P: PackedField>() {
	for log_n in 0..=P::LOG_WIDTH.min(3) {
		let n = 1usize << log_n;
		for mult in [1usize, 2] {
			let xs: Vec<P> = (0..n * mult).map(|_| any_pod()).collect();
			let mut t = xs.clone();
			check(square_transpose(log_n, &mut t).is_ok(), 1);
			// rows of the n x (mult*w) matrix; each aligned n x n block is transposed
			let cols = mult * P::WIDTH;
			let at = |m: &[P], r: usize, c: usize| get_packed_slice(m, r * cols + c);
			for r in 0..n {
				for c in 0..cols {
					check(at(&t, r, c) == at(&xs, c % n, c / n * n + r), 2);
				}
			}
		}
	}
	let mut t: Vec<P> = vec![P::zero(); 3];
	check(square_transpose(0, &mut t).is_err(), 3);
	check(square_transpose(P::LOG_WIDTH + 1, &mut t[..2]).is_err(), 4);
}
macro_rules! types {
	($($t:ident $lower:ident;)*) => { paste_names!{ $($t $lower;)* } };
}
include!("packed_list.rs");
