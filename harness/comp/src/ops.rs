//! Every operation of a compute layer equals its mathematical definition, for every data, on the
//! portable layer and on the optimized layer at every packing width.
use binius_compute::{
	ComputeData, ComputeHolder, ComputeLayer, ComputeLayerExecutor, KernelExecutor,
	alloc::ComputeAllocator,
	cpu::layer::CpuLayerHolder,
	layer::{Error, KernelBuffer, KernelMemMap},
	memory::{ComputeMemory, SizedSlice, SlicesBatch, SubfieldSlice},
	ops::eq_ind_partial_eval,
};
use binius_fast_compute::layer::FastCpuLayerHolder;
use binius_field::{tower::CanonicalTowerFamily, *};
use binius_math::ArithExpr;
use binius_ntt::{AdditiveNTT, SingleThreadedNTT};
use symapi::*;

pub type B = BinaryField128b;
type Fast<P> = FastCpuLayerHolder<CanonicalTowerFamily, P>;
type P1 = PackedBinaryField1x128b;
type P2 = PackedBinaryField2x128b;
type P4 = PackedBinaryField4x128b;

pub trait Hold {
	type H: ComputeHolder<B, Self::L> + 'static;
	type L: ComputeLayer<B> + 'static;
	fn make() -> Self::H;
}
pub struct C;
impl Hold for C {
	type H = CpuLayerHolder<B>;
	type L = binius_compute::cpu::layer::CpuLayer<B>;
	fn make() -> Self::H {
		CpuLayerHolder::new(256, 256)
	}
}
macro_rules! hold {
	($n:ident $p:ty) => {
		pub struct $n;
		impl Hold for $n {
			type H = Fast<$p>;
			type L = binius_fast_compute::layer::FastCpuLayer<CanonicalTowerFamily, $p>;
			fn make() -> Self::H {
				Fast::<$p>::new(256, 256)
			}
		}
	};
}
hold!(F1 P1);
hold!(F2 P2);
hold!(F4 P4);

/// a fixed constant that looks random
fn k(i: u64) -> u128 {
	let mut x = i.wrapping_mul(0x9e37_79b9_7f4a_7c15).wrapping_add(0x1234_5678_9abc_def1);
	let mut r = 0u128;
	for _ in 0..2 {
		x ^= x >> 30;
		x = x.wrapping_mul(0xbf58_476d_1ce4_e5b9);
		x ^= x >> 27;
		x = x.wrapping_mul(0x94d0_49bb_1331_11eb);
		x ^= x >> 31;
		r = (r << 64) | x as u128;
	}
	r
}
fn el(x: u128) -> B {
	B::new(x)
}
/// Which values an operand takes: every element, or every element of an affine subspace
#[derive(Clone, Copy)]
pub enum D {
	Full,
	Aff(u32),
}
use D::*;
fn vals(d: D, n: usize, seed: u64) -> Vec<B> {
	(0..n as u64)
		.map(|i| match d {
			Full => el(any_u128()),
			Aff(bits) => {
				let s = seed * 1000 + i * 10;
				let mut x = k(s);
				for b in 0..bits {
					let m = (any_u8() & 1) as u128;
					x ^= 0u128.wrapping_sub(m) & k(s + 1 + b as u64);
				}
				el(x)
			}
		})
		.collect()
}
fn eqs(a: &[B], b: &[B], id: u64) {
	check(a.len() == b.len(), id);
	for (x, y) in a.iter().zip(b) {
		check_eq(x, y, id);
	}
}
/// element i of the subfield at a tower level
fn sub(v: &[B], level: usize, i: usize) -> B {
	let per = 7 - level;
	let x = v[i >> per].val();
	let o = (i & ((1 << per) - 1)) << level;
	if level == 7 { el(x) } else { el((x >> o) & ((1u128 << (1 << level)) - 1)) }
}

macro_rules! setup {
	($X:ident, $hal:ident, $dev:ident, $host:ident) => {
		let mut holder = $X::make();
		let ComputeData { hal: $hal, dev_alloc: $dev, host_alloc: $host, .. } = holder.to_data();
		let _ = &$host;
	};
}
type Mem<X> = <<X as Hold>::L as ComputeLayer<B>>::DevMem;
macro_rules! up {
	($hal:ident, $dev:ident, $v:expr) => {{
		let v: &[B] = $v;
		let mut m = $dev.alloc(v.len()).unwrap();
		check(m.len() == v.len(), 90);
		$hal.copy_h2d(v, &mut m).unwrap();
		m
	}};
}
macro_rules! down {
	($X:ident, $hal:ident, $m:expr) => {{
		let mut out = vec![el(0x55); $m.len()];
		$hal.copy_d2h(Mem::<$X>::as_const(&$m), &mut out).unwrap();
		out
	}};
}

fn copies<X: Hold>(n: usize) {
	setup!(X, hal, dev, host);
	let v = vals(Full, n, 1);
	let a = up!(hal, dev, &v);
	let mut b = up!(hal, dev, &vec![el(3); n]);
	let mut c = up!(hal, dev, &vec![el(4); n]);
	hal.copy_d2d(Mem::<X>::as_const(&a), &mut b).unwrap();
	let z = vals(Full, 1, 2)[0];
	eqs(&down!(X, hal, c), &vec![el(4); n], 1);
	hal.fill(&mut c, z).unwrap();
	eqs(&down!(X, hal, a), &v, 2);
	eqs(&down!(X, hal, b), &v, 3);
	eqs(&down!(X, hal, c), &vec![z; n], 4);
	eqs(&down!(X, hal, b), &v, 5);
}

fn inner<X: Hold>(level: usize, n: usize, da: D, db: D) {
	setup!(X, hal, dev, host);
	let a = vals(da, n, 1);
	let m = n << (7 - level);
	let b = vals(db, m, 2);
	let (ma, mb) = (up!(hal, dev, &a), up!(hal, dev, &b));
	let out = hal
		.execute(|e| {
			Ok(vec![e.inner_product(
				SubfieldSlice::new(Mem::<X>::as_const(&ma), level),
				Mem::<X>::as_const(&mb),
			)?])
		})
		.unwrap();
	let want = (0..m).map(|i| sub(&a, level, i) * b[i]).sum::<B>();
	eqs(&out, &[want], 1);
	if m > 1 {
		let short = up!(hal, dev, &b[..m / 2]);
		let r = hal.execute(|e| {
			Ok(vec![e.inner_product(
				SubfieldSlice::new(Mem::<X>::as_const(&ma), level),
				Mem::<X>::as_const(&short),
			)?])
		});
		check(r.is_err(), 2);
	}
}

fn tensor(v: &[B], r: &[B]) -> Vec<B> {
	let mut t = v.to_vec();
	for r in r {
		let hi = t.iter().map(|x| *x * r).collect::<Vec<_>>();
		let lo = t.iter().zip(&hi).map(|(x, y)| *x - y).collect::<Vec<_>>();
		t = [lo, hi].concat();
	}
	t
}
fn expand<X: Hold>(log_n: usize, kk: usize, dv: D, dr: D) {
	setup!(X, hal, dev, host);
	let v = vals(dv, 1 << log_n, 1);
	let r = vals(dr, kk, 2);
	let mut all = v.clone();
	// the rest of the buffer holds anything
	all.extend(vals(Aff(2), (1 << (log_n + kk)) - (1 << log_n), 3));
	let mut m = up!(hal, dev, &all);
	hal.execute(|e| {
		e.tensor_expand(log_n, &r, &mut m)?;
		Ok(vec![])
	})
	.unwrap();
	eqs(&down!(X, hal, m), &tensor(&v, &r), 1);
	let bad = hal.execute(|e| {
		e.tensor_expand(log_n + 1, &r, &mut m)?;
		Ok(vec![])
	});
	check(bad.is_err(), 2);
}
/// eq_ind_partial_eval on an allocator whose memory is in use a second time
fn eq_ind<X: Hold>(n: usize, dr: D) {
	let mut holder = X::make();
	let ComputeData { hal, mut dev_alloc, .. } = holder.to_data();
	{
		let sub = dev_alloc.subscope_allocator();
		let mut m = sub.alloc(64).unwrap();
		hal.fill(&mut m, el(k(77))).unwrap();
	}
	let r = vals(dr, n, 2);
	let out = eq_ind_partial_eval(hal, &dev_alloc, &r).unwrap();
	eqs(&down!(X, hal, out), &tensor(&[B::ONE], &r), 1);
}

fn fold<X: Hold>(left: bool, level: usize, log_mat: usize, log_vec: usize, dm: D, dv: D) {
	setup!(X, hal, dev, host);
	let mat = vals(dm, 1 << (log_mat - (7 - level)), 1);
	let vec = vals(dv, 1 << log_vec, 2);
	let n = 1usize << (log_mat - log_vec);
	let (mm, mv) = (up!(hal, dev, &mat), up!(hal, dev, &vec));
	let mut out = up!(hal, dev, &vals(Aff(1), n, 3));
	hal.execute(|e| {
		let m = SubfieldSlice::new(Mem::<X>::as_const(&mm), level);
		if left {
			e.fold_left(m, Mem::<X>::as_const(&mv), &mut out)?;
		} else {
			e.fold_right(m, Mem::<X>::as_const(&mv), &mut out)?;
		}
		Ok(vec![])
	})
	.unwrap();
	let want = (0..n)
		.map(|i| {
			(0..vec.len())
				.map(|j| {
					let at = if left { j * n + i } else { i * vec.len() + j };
					vec[j] * sub(&mat, level, at)
				})
				.sum::<B>()
		})
		.collect::<Vec<_>>();
	eqs(&down!(X, hal, out), &want, 1);
}

fn line<X: Hold>(n: usize, dx: D, dz: D) {
	setup!(X, hal, dev, host);
	let (x0, x1) = (vals(dx, n, 1), vals(dx, n, 2));
	let z = vals(dz, 1, 3)[0];
	let (mut m0, m1) = (up!(hal, dev, &x0), up!(hal, dev, &x1));
	hal.execute(|e| {
		e.extrapolate_line(&mut m0, Mem::<X>::as_const(&m1), z)?;
		Ok(vec![])
	})
	.unwrap();
	let want = x0.iter().zip(&x1).map(|(a, b)| *a + (*b - *a) * z).collect::<Vec<_>>();
	eqs(&down!(X, hal, m0), &want, 1);
	eqs(&down!(X, hal, m1), &x1, 2);
	if n > 1 {
		let short = up!(hal, dev, &x1[..n / 2]);
		let r = hal.execute(|e| {
			e.extrapolate_line(&mut m0, Mem::<X>::as_const(&short), z)?;
			Ok(vec![])
		});
		check(r.is_err(), 3);
	}
}

#[derive(Clone, Copy)]
pub enum Ex {
	Mul,
	Lin,
	AndXor,
	Cube,
	Var,
	Shared,
}
fn expr(x: Ex) -> (usize, ArithExpr<B>) {
	let v = ArithExpr::<B>::Var;
	let c = |i| ArithExpr::Const(el(k(i)));
	match x {
		Ex::Mul => (2, v(0) * v(1)),
		Ex::Lin => (3, v(0) + v(1) * c(5) + v(2)),
		Ex::AndXor => (3, v(0) * v(1) + v(2)),
		Ex::Cube => (2, v(0).pow(3) + v(1) + c(6)),
		Ex::Var => (1, v(0)),
		Ex::Shared => (3, (v(0) + v(1)) * (v(0) + v(2)) + (v(0) + v(1)) * c(8)),
	}
}
fn eval(x: Ex, q: &[B]) -> B {
	let c = |i| el(k(i));
	match x {
		Ex::Mul => q[0] * q[1],
		Ex::Lin => q[0] + q[1] * c(5) + q[2],
		Ex::AndXor => q[0] * q[1] + q[2],
		Ex::Cube => q[0] * q[0] * q[0] + q[1] + c(6),
		Ex::Var => q[0],
		Ex::Shared => (q[0] + q[1]) * (q[0] + q[2]) + (q[0] + q[1]) * c(8),
	}
}
fn composite<X: Hold>(x: Ex, n: usize, d: D) {
	setup!(X, hal, dev, host);
	let (vars, e) = expr(x);
	let cols = (0..vars).map(|i| vals(d, n, 10 + i as u64)).collect::<Vec<_>>();
	let ms = cols.iter().map(|c| up!(hal, dev, c)).collect::<Vec<_>>();
	let mut out = up!(hal, dev, &vec![el(9); n]);
	let compiled = hal.compile_expr(&(&e).into()).unwrap();
	hal.execute(|ex| {
		let b = SlicesBatch::new(ms.iter().map(|m| Mem::<X>::as_const(m)).collect(), n);
		ex.compute_composite(&b, &mut out, &compiled)?;
		Ok(vec![])
	})
	.unwrap();
	let want = (0..n)
		.map(|i| eval(x, &cols.iter().map(|c| c[i]).collect::<Vec<_>>()))
		.collect::<Vec<_>>();
	eqs(&down!(X, hal, out), &want, 1);
	let bad = hal.execute(|ex| {
		let b = SlicesBatch::new(ms.iter().chain([&ms[0]]).map(|m| Mem::<X>::as_const(m)).collect(), n);
		ex.compute_composite(&b, &mut out, &compiled)?;
		Ok(vec![])
	});
	check(bad.is_err(), 2);
}

/// the product circuit of the product check: every layer holds the products of the halves of the next
fn circuit<X: Hold>(log_n: usize, d: D, bad: bool) {
	use binius_core::protocols::prodcheck::ProductCircuitLayers;
	setup!(X, hal, dev, host);
	let v = vals(d, 1 << log_n, 1);
	let m = up!(hal, dev, &v);
	let space = dev.alloc(32).unwrap();
	let dev2 = binius_compute::alloc::BumpAllocator::<B, Mem<X>>::new(space);
	let mut hs = [el(7); 4];
	let host2 = binius_compute::alloc::HostBumpAllocator::new(&mut hs[..]);
	let p = ProductCircuitLayers::compute(Mem::<X>::as_const(&m), hal, &dev2, &host2).unwrap();
	check(p.layers().len() == log_n, 3);
	let mut cur = v;
	for l in p.layers().iter().rev() {
		let mut out = vec![el(0x55); cur.len()];
		hal.copy_d2h(*l, &mut out).unwrap();
		eqs(&out, &cur, 1);
		let h = cur.len() / 2;
		cur = (0..h).map(|i| cur[i] * cur[h + i]).collect();
	}
	check_eq(&p.product(), &cur[0], 2);
	if bad {
		let m = up!(hal, dev, &vals(Aff(0), 12, 2));
		check(ProductCircuitLayers::compute(Mem::<X>::as_const(&m), hal, &dev2, &host2).is_err(), 4);
	}
}

fn product<X: Hold>(log_n: usize, d: D) {
	setup!(X, hal, dev, host);
	let v = vals(d, 1 << log_n, 1);
	let m = up!(hal, dev, &v);
	let mut outs = (0..log_n).map(|i| up!(hal, dev, &vec![el(5); 1 << (log_n - i - 1)])).collect::<Vec<_>>();
	hal.execute(|e| {
		e.pairwise_product_reduce(Mem::<X>::as_const(&m), &mut outs)?;
		Ok(vec![])
	})
	.unwrap();
	let mut cur = v;
	for o in &outs {
		cur = cur.chunks(2).map(|c| c[0] * c[1]).collect();
		eqs(&down!(X, hal, o), &cur, 1);
	}
	let bad = hal.execute(|e| {
		e.pairwise_product_reduce(Mem::<X>::as_const(&m), &mut outs[..log_n - 1])?;
		Ok(vec![])
	});
	check(bad.is_err(), 2);
	if log_n > 1 {
		outs.swap(0, 1);
		let bad = hal.execute(|e| {
			e.pairwise_product_reduce(Mem::<X>::as_const(&m), &mut outs)?;
			Ok(vec![])
		});
		check(bad.is_err(), 3);
	}
}

fn fri<X: Hold>(log_len: usize, log_batch: usize, n_fold: usize, dx: D, dr: D) {
	setup!(X, hal, dev, host);
	let ntt = SingleThreadedNTT::<BinaryField8b>::new(6).unwrap();
	let v = vals(dx, 1 << (log_len + log_batch), 1);
	let r = vals(dr, log_batch + n_fold, 2);
	let m = up!(hal, dev, &v);
	let mut out = up!(hal, dev, &vals(Aff(1), 1 << (log_len - n_fold), 3));
	hal.execute(|e| {
		e.fri_fold(&ntt, log_len, log_batch, &r, Mem::<X>::as_const(&m), &mut out)?;
		Ok(vec![])
	})
	.unwrap();
	let (c0, c1) = r.split_at(log_batch);
	let t = tensor(&[B::ONE], c0);
	let mut cur = v
		.chunks(1 << log_batch)
		.map(|c| c.iter().zip(&t).map(|(a, b)| *a * *b).sum::<B>())
		.collect::<Vec<_>>();
	for (i, r) in c1.iter().enumerate() {
		cur = cur
			.chunks(2)
			.enumerate()
			.map(|(j, c)| {
				let t = ntt.get_subspace_eval(log_len - i, j);
				let w = c[0] + c[1];
				let u = c[0] + w * t;
				u + (w - u) * *r
			})
			.collect();
	}
	eqs(&down!(X, hal, out), &cur, 1);
}

/// kernels: every chunk of every buffer is visited once, local buffers start out zero, results add up
fn kernels<X: Hold>(log_n: usize, min: usize, local: bool, x: Ex, d: D) {
	setup!(X, hal, dev, host);
	let n = 1usize << log_n;
	let (vars, e) = expr(x);
	let cols = (0..vars).map(|i| vals(d, n, 10 + i as u64)).collect::<Vec<_>>();
	let ms = cols.iter().map(|c| up!(hal, dev, c)).collect::<Vec<_>>();
	let dsts = vals(d, n, 30);
	let mut dst = up!(hal, dev, &dsts);
	let compiled = hal.compile_expr(&(&e).into()).unwrap();
	let id = hal.compile_expr(&(&ArithExpr::Var(0)).into()).unwrap();
	let (co, init) = (el(k(500)), el(k(501)));
	let mut count = std::sync::atomic::AtomicUsize::new(0);
	let out = hal
		.execute(|ex| {
			let mut maps = ms
				.iter()
				.map(|m| KernelMemMap::Chunked { data: Mem::<X>::as_const(m), log_min_chunk_size: min })
				.collect::<Vec<_>>();
			maps.push(KernelMemMap::ChunkedMut { data: Mem::<X>::to_owned_mut(&mut dst), log_min_chunk_size: min });
			if local {
				maps.push(KernelMemMap::Local { log_size: log_n });
			}
			ex.accumulate_kernels(
				|kx, log_chunks, mut bufs| {
					count.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
					let log_len = log_n - log_chunks;
					for b in &bufs {
						check(b.len() == 1 << log_len, 5);
					}
					let mut acc = kx.decl_value(init)?;
					let mut acc2 = kx.decl_value(B::ZERO)?;
					if local {
						let mut scratch = bufs.pop().unwrap();
						let Some(KernelBuffer::Mut(mut dst)) = bufs.pop() else { unreachable!() };
						// scratch is zero, so this leaves the column in it
						if let KernelBuffer::Mut(s) = &mut scratch {
							kx.add_assign(log_len, bufs[0].to_ref(), s)?;
						}
						let b = SlicesBatch::new(vec![scratch.to_ref()], 1 << log_len);
						kx.sum_composition_evals(&b, &id, B::ONE, &mut acc2)?;
						kx.add(log_len, bufs[0].to_ref(), scratch.to_ref(), &mut dst)?;
					} else {
						let Some(KernelBuffer::Mut(mut dst)) = bufs.pop() else { unreachable!() };
						kx.add_assign(log_len, bufs[0].to_ref(), &mut dst)?;
					}
					let b = SlicesBatch::new(bufs.iter().map(|b| b.to_ref()).collect(), 1 << log_len);
					kx.sum_composition_evals(&b, &compiled, co, &mut acc)?;
					Ok(vec![acc, acc2])
				},
				maps,
			)
		})
		.unwrap();
	let c = *count.get_mut();
	check(c.is_power_of_two() && c <= n, 6);
	let sum = (0..n)
		.map(|i| eval(x, &cols.iter().map(|c| c[i]).collect::<Vec<_>>()))
		.sum::<B>();
	let inits = if c % 2 == 1 { init } else { B::ZERO };
	let second = if local { cols[0].iter().copied().sum() } else { B::ZERO };
	eqs(&out, &[sum * co + inits, second], 1);
	let want = (0..n)
		.map(|i| if local { B::ZERO } else { dsts[i] + cols[0][i] })
		.collect::<Vec<_>>();
	eqs(&down!(X, hal, dst), &want, 2);
}

fn maps<X: Hold>(log_n: usize, min: usize) {
	setup!(X, hal, dev, host);
	let n = 1usize << log_n;
	let (a, b) = (vals(Full, n, 1), vals(Full, n, 2));
	let (ma, mut mb) = (up!(hal, dev, &a), up!(hal, dev, &b));
	for round in 0..2usize {
		// a kernel that fails makes the whole operation fail
		let at = any_below(3);
		let count = std::sync::atomic::AtomicUsize::new(0);
		let r = hal.execute(|ex| {
			ex.map_kernels(
				|kx, log_chunks, mut bufs| {
					let i = count.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
					let log_len = log_n - log_chunks;
					if round == 1 && at == i {
						return Err(Error::InputValidation("kernel".into()));
					}
					let (src, dst) = bufs.split_at_mut(1);
					let KernelBuffer::Mut(dst) = &mut dst[0] else { unreachable!() };
					if round == 0 {
						kx.add_assign(log_len, src[0].to_ref(), dst)?;
					}
					Ok(())
				},
				vec![
					KernelMemMap::Chunked { data: Mem::<X>::as_const(&ma), log_min_chunk_size: min },
					KernelMemMap::ChunkedMut { data: Mem::<X>::to_owned_mut(&mut mb), log_min_chunk_size: 0 },
				],
			)?;
			Ok(vec![])
		});
		let c = count.into_inner();
		check(r.is_ok() == (round == 0 || at >= c), 1);
	}
	let want = a.iter().zip(&b).map(|(a, b)| *a + *b).collect::<Vec<_>>();
	eqs(&down!(X, hal, mb), &want, 2);
}

fn joins<X: Hold>() {
	setup!(X, hal, dev, host);
	let (a, b) = (vals(Aff(2), 4, 1), vals(Aff(2), 4, 2));
	let (ma, mb) = (up!(hal, dev, &a), up!(hal, dev, &b));
	let (ma, mb) = (Mem::<X>::as_const(&ma), Mem::<X>::as_const(&mb));
	let out = hal
		.execute(|e| {
			let (p, q) = e.join(
				|e| e.inner_product(SubfieldSlice::new(ma, 7), mb),
				|e| e.inner_product(SubfieldSlice::new(mb, 7), mb),
			)?;
			let mut v = vec![p, q];
			v.extend(e.map([true, false, true].into_iter(), |e, s| {
				let x = if s { ma } else { mb };
				e.inner_product(SubfieldSlice::new(x, 7), mb)
			})?);
			Ok(v)
		})
		.unwrap();
	let ab = a.iter().zip(&b).map(|(a, b)| *a * *b).sum::<B>();
	let bb = b.iter().map(|b| *b * *b).sum::<B>();
	eqs(&out, &[ab, bb, ab, bb, ab], 1);
}

/// values of a buffer shorter than a packed element after any other operation wrote it
fn short<X: Hold>(n: usize) {
	setup!(X, hal, dev, host);
	let z = vals(Aff(2), 3, 1);
	let (mut a, mut b) = (up!(hal, dev, &vec![el(1); n]), up!(hal, dev, &vec![el(2); n]));
	hal.fill(&mut a, z[0]).unwrap();
	hal.fill(&mut b, z[1]).unwrap();
	let ip = |a: &[B], b: &[B]| a.iter().zip(b).map(|(a, b)| *a * *b).sum::<B>();
	let (va, vb) = (vec![z[0]; n], vec![z[1]; n]);
	let out = hal
		.execute(|e| {
			let r = e.inner_product(SubfieldSlice::new(Mem::<X>::as_const(&a), 7), Mem::<X>::as_const(&b))?;
			let s = up!(hal, dev, &va[..1]);
			let _ = s;
			e.extrapolate_line(&mut a, Mem::<X>::as_const(&b), z[2])?;
			let t = e.inner_product(SubfieldSlice::new(Mem::<X>::as_const(&a), 7), Mem::<X>::as_const(&b))?;
			Ok(vec![r, t])
		})
		.unwrap();
	let l = z[0] + (z[1] - z[0]) * z[2];
	eqs(&out, &[ip(&va, &vb), ip(&vec![l; n], &vb)], 1);
	eqs(&down!(X, hal, a), &vec![l; n], 2);
	eqs(&down!(X, hal, b), &vb, 3);
	// folding it by a vector
	let f = vals(Aff(0), 2, 5);
	let v = up!(hal, dev, &f);
	let mut o = up!(hal, dev, &vec![el(8); n / 2]);
	for left in [false, true] {
		hal.execute(|e| {
			let m = SubfieldSlice::new(Mem::<X>::as_const(&a), 7);
			if left {
				e.fold_left(m, Mem::<X>::as_const(&v), &mut o)?;
			} else {
				e.fold_right(m, Mem::<X>::as_const(&v), &mut o)?;
			}
			Ok(vec![])
		})
		.unwrap();
		eqs(&down!(X, hal, o), &vec![l * (f[0] + f[1]); n / 2], 4);
	}
}

/// Views of a buffer: each element belongs to one view, and what a view is given ends up there
fn views<X: Hold>(log_n: usize, plan: &[u8]) {
	setup!(X, hal, dev, host);
	let n = 1usize << log_n;
	let al = Mem::<X>::ALIGNMENT;
	let v = vals(Full, n, 1);
	let mut want = v.clone();
	let before = up!(hal, dev, &vec![el(70); n]);
	let mut m = up!(hal, dev, &v);
	let after = up!(hal, dev, &vec![el(71); n]);
	for p in plan {
		let z = vals(Full, 2, 2);
		match p {
			// halves of halves
			0 if n > 1 => {
				let (mut l, r) = Mem::<X>::split_half_mut(Mem::<X>::to_owned_mut(&mut m));
				check(l.len() == n / 2 && r.len() == n / 2, 1);
				eqs(&down!(X, hal, l), &want[..n / 2], 2);
				eqs(&down!(X, hal, r), &want[n / 2..], 3);
				hal.fill(&mut l, z[0]).unwrap();
				want[..n / 2].fill(z[0]);
				if n > 2 {
					let (mut rl, mut rr) = Mem::<X>::split_half_mut(r);
					eqs(&down!(X, hal, rl), &want[n / 2..n / 4 * 3], 4);
					eqs(&down!(X, hal, rr), &want[n / 4 * 3..], 5);
					hal.fill(&mut rr, z[1]).unwrap();
					want[n / 4 * 3..].fill(z[1]);
					hal.copy_h2d(&v[..n / 4], &mut rl).unwrap();
					want[n / 2..n / 4 * 3].copy_from_slice(&v[..n / 4]);
				}
			}
			// split at an aligned place
			1 if n >= 2 * al => {
				let mid = al * any_below(n / al + 1);
				let (mut l, mut r) = Mem::<X>::split_at_mut_borrowed(&mut m, mid);
				eqs(&down!(X, hal, l), &want[..mid], 6);
				eqs(&down!(X, hal, r), &want[mid..], 7);
				hal.fill(&mut l, z[0]).unwrap();
				hal.fill(&mut r, z[1]).unwrap();
				want[..mid].fill(z[0]);
				want[mid..].fill(z[1]);
			}
			// a range
			2 if n >= 2 * al => {
				let from = al * any_below(n / al);
				let to = from + al * any_below((n - from) / al + 1);
				{
					let mut s = Mem::<X>::slice_mut(&mut m, from..to);
					eqs(&down!(X, hal, s), &want[from..to], 8);
					hal.fill(&mut s, z[0]).unwrap();
				}
				want[from..to].fill(z[0]);
				let c = Mem::<X>::as_const(&m);
				let get = |s| {
					let mut o = vec![el(0); SizedSlice::len(&s)];
					hal.copy_d2h(s, &mut o).unwrap();
					o
				};
				eqs(&get(Mem::<X>::slice(c, from..to)), &want[from..to], 9);
				let (l, r) = Mem::<X>::split_at(c, from);
				eqs(&get(l), &want[..from], 10);
				eqs(&get(r), &want[from..], 11);
			}
			// chunks
			3 => {
				let len = n >> any_below(log_n + 1);
				if len >= al || len == n {
					let c = Mem::<X>::as_const(&m);
					let mut i = 0;
					for s in Mem::<X>::slice_chunks(c, len) {
						let mut o = vec![el(0); len];
						hal.copy_d2h(s, &mut o).unwrap();
						eqs(&o, &want[i * len..(i + 1) * len], 12);
						i += 1;
					}
					check(i == n / len, 13);
					let src = vals(Full, n / len, 6);
					for (i, mut s) in Mem::<X>::slice_chunks_mut(Mem::<X>::to_owned_mut(&mut m), len).enumerate() {
						hal.fill(&mut s, src[i]).unwrap();
						want[i * len..(i + 1) * len].fill(src[i]);
					}
				}
			}
			// a prefix
			4 => {
				let len = 1usize << any_below(log_n + 1);
				let mut s = Mem::<X>::slice_power_of_two_mut(&mut m, len);
				check(s.len() == len, 14);
				eqs(&down!(X, hal, s), &want[..len], 15);
				hal.fill(&mut s, z[0]).unwrap();
				want[..len].fill(z[0]);
			}
			// constant halves
			5 if n > 2 => {
				let (l, r) = Mem::<X>::split_half(Mem::<X>::as_const(&m));
				let get = |s| {
					let mut o = vec![el(0); SizedSlice::len(&s)];
					hal.copy_d2h(s, &mut o).unwrap();
					o
				};
				eqs(&get(Mem::<X>::narrow(&l)), &want[..n / 2], 16);
				let (rl, rr) = Mem::<X>::split_half(r);
				eqs(&get(rl), &want[n / 2..n / 4 * 3], 17);
				eqs(&get(rr), &want[n / 4 * 3..], 18);
			}
			_ => {}
		}
		eqs(&down!(X, hal, m), &want, 20);
	}
	let c = Mem::<X>::to_const(m);
	let mut o = vec![el(0); n];
	hal.copy_d2h(c, &mut o).unwrap();
	eqs(&o, &want, 21);
	eqs(&down!(X, hal, before), &vec![el(70); n], 22);
	eqs(&down!(X, hal, after), &vec![el(71); n], 23);
}

/// Allocations do not overlap, and the allocator gives out no more than it has
fn allocs<X: Hold>() {
	let mut holder = X::make();
	let ComputeData { hal, mut dev_alloc, host_alloc, .. } = holder.to_data();
	check(dev_alloc.capacity() == 256 && host_alloc.capacity() == 256, 1);
	for round in 0..2usize {
		let dev = dev_alloc.subscope_allocator();
		let al = Mem::<X>::ALIGNMENT;
		let mut used = 0;
		let mut all = vec![];
		for i in 0..4 {
			let n = if round == 0 { [1usize, 2, 64, 128, 256][any_below(5)] } else { [16usize, 1, 256, 128][i as usize] };
			let cap = dev.capacity();
			check(cap == 256 - used, 2);
			match dev.alloc(n) {
				Ok(mut m) => {
					check(n <= cap && m.len() == n, 3);
					used += n.max(al);
					hal.fill(&mut m, el(k(i))).unwrap();
					all.push((m, k(i)));
				}
				Err(_) => check(n > cap, 4),
			}
		}
		for (m, z) in &all {
			eqs(&down!(X, hal, *m), &vec![el(*z); m.len()], 5);
		}

	}
	check(dev_alloc.capacity() == 256, 6);
	let (a, b) = (host_alloc.alloc(100).unwrap(), host_alloc.alloc(156).unwrap());
	check(a.len() == 100 && b.len() == 156, 7);
	check(host_alloc.alloc(1).is_err() && host_alloc.capacity() == 0, 8);
}

macro_rules! each {
	($($name:ident $c:ident $f1:ident $f2:ident $f4:ident => $f:ident($($a:expr),*);)*) => {
		harness! { $(
			$c => { exact(true); $f::<C>($($a),*); };
			$f1 => { exact(true); $f::<F1>($($a),*); };
			$f2 => { exact(true); $f::<F2>($($a),*); };
			$f4 => { exact(true); $f::<F4>($($a),*); };
		)* }
	};
}
include!("table.rs");
