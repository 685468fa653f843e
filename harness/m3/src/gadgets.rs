//! Gadgets: the witness they fill in satisfies their constraints and computes the documented
//! function, and every assignment satisfying the constraints has the documented outputs.
use crate::sem::*;
use binius_compute::cpu::alloc::CpuComputeAllocator;
use binius_core::oracle::ShiftVariant;
use binius_field::{arch::OptimalUnderlier128b, as_packed_field::PackedType, *};
use binius_m3::{
	builder::*,
	gadgets::{add::*, barrel_shifter::BarrelShifter, div::*, mul::*, sub::*},
};
use symapi::*;

pub type P = PackedType<OptimalUnderlier128b, B128>;
pub type Io = Vec<(ColumnId, ColumnShape)>;

pub fn io<F: TowerField, const V: usize>(c: &[Col<F, V>]) -> Io {
	c.iter().map(|c| (c.id(), c.shape())).collect()
}
/// value of a column's cell as an integer
fn cell(c: &[E], row: usize, sh: ColumnShape) -> u128 {
	let (v, w) = (1usize << sh.log_values_per_row, 1usize << sh.tower_height);
	let mut r = 0;
	for k in 0..v {
		r |= c[row * v + k].0 << (k * w);
	}
	r
}
pub fn int(b: &[u128]) -> u64 {
	b.iter().enumerate().fold(0, |a, (i, x)| a | (*x as u64) << i)
}
pub fn bits(x: u64, n: usize) -> Vec<u128> {
	(0..n).map(|i| (x >> i & 1) as u128).collect()
}
pub struct G<T> {
	pub build: fn(&mut TableBuilder) -> (T, Io, Io),
	/// the witness of the inputs is left to the gadget
	pub virt: bool,
	pub fill: fn(&T, &mut TableWitnessSegment<P>, &[Vec<u128>]) -> anyhow::Result<()>,
	/// outputs as a function of the inputs; None: the inputs are outside the gadget's contract
	pub spec: fn(&[u128]) -> Option<Vec<u128>>,
	/// instead, a relation of inputs and outputs
	pub rel: Option<fn(&[u128], &[u128]) -> bool>,
}
impl<T> G<T> {
	fn expect(&self, i: &[u128]) -> Option<Vec<u128>> {
		(self.spec)(i)
	}
	/// every filled-in witness satisfies the constraints and has the right outputs
	pub fn complete(&self, rows: usize, input: impl Fn(usize, usize) -> u128) {
		cap(2000);
		let mut cs = ConstraintSystem::new();
		let (g, i, o, t) = {
			let mut t = cs.add_table("t");
			let (g, i, o) = (self.build)(&mut t);
			let id = t.id();
			(g, i, o, id)
		};
		let c = cs.compile().unwrap();
		let mut al = CpuComputeAllocator::new(1 << 14);
		let al = al.into_bump_allocator();
		let mut w = WitnessIndex::<P>::new(&cs, &al);
		let tw = w.init_table(t, rows).unwrap();
		let mut ins = vec![vec![]; rows];
		let mut outs = vec![vec![]; rows];
		{
			let mut s = tw.full_segment();
			for (r, iv) in ins.iter_mut().enumerate() {
				for (k, (id, sh)) in i.iter().enumerate() {
					let (v, b) = (1usize << sh.log_values_per_row, 1usize << sh.tower_height);
					let x0 = input(r, k);
					let x0 = if v * b < 128 { x0 & ((1 << (v * b)) - 1) } else { x0 };
					iv.push(x0);
					if self.virt {
						continue;
					}
					let mut d = s.get_dyn_mut(*id).unwrap();
					for j in 0..v {
						let e = x0 >> (j * b) & if b < 128 { (1 << b) - 1 } else { u128::MAX };
						d.set(r * v + j, x(e)).unwrap();
					}
				}
				if self.expect(iv).is_none() {
					assume(false);
				}
			}
			(self.fill)(&g, &mut s, &ins).unwrap();
			for (r, ov) in outs.iter_mut().enumerate() {
				for (id, sh) in &o {
					let d = s.get_dyn(*id).unwrap();
					let (v, b) = (1usize << sh.log_values_per_row, 1usize << sh.tower_height);
					let mut a = 0;
					for j in 0..v {
						a |= d.get(r * v + j).val() << (j * b);
					}
					ov.push(a);
				}
			}
		}
		w.fill_constant_cols().unwrap();
		let sz = w.table_sizes();
		check(sz == [rows], 1);
		let m = w.into_multilinear_extension_index();
		let r = of_witness(&c, &sz, &m);
		satisfies(&c, &sz, &r, &[]);
		for (iv, ov) in ins.iter().zip(&outs) {
			match self.rel {
				Some(f) => check(f(iv, ov), 2),
				None => check(self.expect(iv).unwrap() == *ov, 2),
			}
		}
	}
	/// every assignment satisfying the constraints has the right outputs
	pub fn sound(&self) {
		self.sound_with(|_, _, _| None)
	}
	pub fn sound_with(&self, fix: impl Fn(usize, usize, usize) -> Option<Vec<E>>) {
		cap(2000);
		let mut cs = ConstraintSystem::new();
		let (i, o) = {
			let mut t = cs.add_table("t");
			let (_, i, o) = (self.build)(&mut t);
			(i, o)
		};
		let c = cs.compile().unwrap();
		let mut al = CpuComputeAllocator::new(1 << 16);
		let al = al.into_bump_allocator();
		let all: Io = i.iter().chain(&o).copied().collect();
		let id = ids(&cs, &c, WitnessIndex::<P>::new(&cs, &al), 0, &all, 8);
		check(id.iter().all(|x| *x != usize::MAX), 3);
		let sz = [1];
		let pos = |id_: usize| id[..i.len()].iter().position(|k| *k == id_);
		let r = derive(&c, &sz, |oid, n, l| match pos(oid.index()).and_then(|k| fix(k, n, l)) {
			Some(v) => v,
			None => any_col(n, l),
		});
		let iv: Vec<u128> = i.iter().zip(&id).map(|((_, s), k)| cell(&r[*k], 0, *s)).collect();
		let ov: Vec<u128> = o.iter().zip(&id[i.len()..]).map(|((_, s), k)| cell(&r[*k], 0, *s)).collect();
		if let Some(e) = self.expect(&iv) {
			expect(1);
			constraints(&c, &sz, &r, assume);
			cover(1);
			if let Some(f) = self.rel {
				check(f(&iv, &ov), 4);
			}
			for (k, (a, b)) in e.iter().zip(&ov).enumerate() {
				let w = 1usize << (o[k].1.tower_height + o[k].1.log_values_per_row);
				for j in 0..w {
					check((a ^ b) >> j & 1 == 0, 4);
				}
			}
		}
	}
}
fn sym(_: usize, _: usize) -> u128 {
	u128::from_le_bytes(any::<16>())
}
/// single bits, so that few symbolic bytes are made
fn sym1(_: usize, _: usize) -> u128 {
	any::<1>()[0] as u128
}

macro_rules! u32add {
	($cin:expr, $commit:expr, $fc:expr) => {
		G {
			build: |t| {
				let a = t.add_committed::<B1, 32>("a");
				let b = t.add_committed::<B1, 32>("b");
				let c = if $cin { Some(t.add_committed::<B1, 32>("c")) } else { None };
				let g = U32Add::new(t, a, b, U32AddFlags { carry_in_bit: c, commit_zout: $commit, expose_final_carry: $fc });
				let mut i = io(&[a, b]);
				i.extend(c.iter().flat_map(|c| io(&[*c])));
				let mut o = io(&[g.zout]);
				o.extend(g.final_carry.iter().flat_map(|c| io(&[*c])));
				(g, i, o)
			},
			virt: false,
			fill: |g, s, _| g.populate(s),
			spec: |i| {
				let c = if $cin { i[2] } else { 0 };
				if c > 1 {
					return None;
				}
				let s = i[0] as u64 + i[1] as u64 + c as u64;
				let mut o = vec![s as u32 as u128];
				if $fc {
					o.push((s >> 32) as u128);
				}
				Some(o)
			},
			rel: None,
		}
	};
}
macro_rules! u32sub {
	($cin:expr, $commit:expr, $fb:expr) => {
		G {
			build: |t| {
				let a = t.add_committed::<B1, 32>("a");
				let b = t.add_committed::<B1, 32>("b");
				let c = if $cin { Some(t.add_committed::<B1, 32>("c")) } else { None };
				let g = U32Sub::new(t, a, b, U32SubFlags { borrow_in_bit: c, commit_zout: $commit, expose_final_borrow: $fb });
				let mut i = io(&[a, b]);
				i.extend(c.iter().flat_map(|c| io(&[*c])));
				let mut o = io(&[g.zout]);
				o.extend(g.final_borrow.iter().flat_map(|c| io(&[*c])));
				(g, i, o)
			},
			virt: false,
			fill: |g, s, _| g.populate(s),
			spec: |i| {
				let c = if $cin { i[2] } else { 0 };
				if c > 1 {
					return None;
				}
				let s = (i[0] as u64).wrapping_sub(i[1] as u64).wrapping_sub(c as u64);
				let mut o = vec![s as u32 as u128];
				if $fb {
					o.push((s >> 63) as u128);
				}
				Some(o)
			},
			rel: None,
		}
	};
}
macro_rules! stacked {
	($v:expr, $cin:expr, $commit:expr) => {
		G {
			build: |t| {
				let a = t.add_committed::<B1, $v>("a");
				let b = t.add_committed::<B1, $v>("b");
				let c = if $cin { Some(t.add_committed::<B1, $v>("c")) } else { None };
				let g = U32AddStacked::<$v>::new(t, a, b, $commit, c);
				let mut i = io(&[a, b]);
				i.extend(c.iter().flat_map(|c| io(&[*c])));
				let o = io(&[g.zout]);
				(g, i, o)
			},
			virt: false,
			fill: |g, s, _| g.populate(s),
			spec: |i| {
				let mut r = 0u128;
				let mut bad = false;
				for k in 0..$v / 32 {
					let c = if $cin { (i[2] >> (32 * k)) as u32 } else { 0 };
					bad |= c > 1;
					let s = ((i[0] >> (32 * k)) as u32).wrapping_add((i[1] >> (32 * k)) as u32).wrapping_add(c);
					r |= (s as u128) << (32 * k);
				}
				if bad { None } else { Some(vec![r]) }
			},
			rel: None,
		}
	};
}
macro_rules! wide {
	($g:ident, $f:ident, $flag:ident, $x:ident, $y:expr, $u:ty, $n:expr, $cin:expr, $commit:expr, $ex:ident, $spec:expr) => {
		G {
			build: |t| {
				let a: [Col<B1>; $n] = t.add_committed_multiple("a");
				let b: [Col<B1>; $n] = t.add_committed_multiple("b");
				let c = if $cin { Some(t.add_committed::<B1, 32>("c")) } else { None };
				let g = $g::<$u, $n>::new(t, a, b, $f { $flag: c, commit_zout: $commit, $ex: true });
				let mut i = io(&a);
				i.extend(io(&b));
				i.extend(c.iter().flat_map(|c| io(&[*c])));
				let mut o = io(&g.$x);
				o.extend(io(&[$y(&g)]));
				(g, i, o)
			},
			virt: false,
			fill: |g, s, _| g.populate(s),
			spec: |i| {
				let (a, b) = (int(&i[..$n]), int(&i[$n..2 * $n]));
				let c = if $cin { i[2 * $n] } else { 0 };
				if c > 1 {
					return None;
				}
				let (s, f) = $spec(a as u128, b as u128, c);
				let _: u128 = s;
				let mut o = bits(s as u64, $n);
				o.push(f as u128);
				Some(o)
			},
			rel: None,
		}
	};
}
macro_rules! wadd {
	($u:ty, $n:expr, $cin:expr, $commit:expr) => {
		wide!(WideAdd, U32AddFlags, carry_in_bit, z_out, |g: &WideAdd<$u, $n>| g.final_carry_out, $u, $n, $cin, $commit, expose_final_carry, |a: u128, b: u128, c: u128| {
			let s = a + b + c;
			(s, (s >> $n & 1) as u64)
		})
	};
}
macro_rules! wsub {
	($u:ty, $n:expr, $cin:expr, $commit:expr) => {
		wide!(WideSub, U32SubFlags, borrow_in_bit, zout, |g: &WideSub<$u, $n>| g.final_borrow.unwrap(), $u, $n, $cin, $commit, expose_final_borrow, |a: u128, b: u128, c: u128| {
			(a.wrapping_sub(b).wrapping_sub(c), (a < b + c) as u64)
		})
	};
}
macro_rules! incr {
	($u:ty, $n:expr) => {
		G {
			build: |t| {
				let a: [Col<B1>; $n] = t.add_committed_multiple("a");
				let g = Incr::<$u, $n>::new(t, a);
				let mut o = io(&g.zout);
				o.extend(io(&[g.final_carry_out]));
				(g, io(&a), o)
			},
			virt: false,
			fill: |g, s, _| g.populate(s),
			spec: |i| {
				let s = int(i) as u128 + 1;
				let mut o = bits(s as u64, $n);
				o.push(s >> $n);
				Some(o)
			},
			rel: None,
		}
	};
}
macro_rules! barrel {
	($v:expr, $fork:expr, $spec:expr) => {
		G {
			build: |t| {
				let a = t.add_committed::<B1, 32>("a");
				let b = t.add_committed::<B1, 16>("b");
				let g = BarrelShifter::new(t, a, b, $v);
				let o = io(&[g.output]);
				let mut i = io(&[a]);
				i.extend(io(&[b]));
				(g, i, o)
			},
			virt: false,
			fill: |g, s, _| g.populate(s),
			spec: |i| {
				let f: fn(u32, u32) -> u32 = $spec;
				if !$fork {
					return Some(vec![f(i[0] as u32, i[1] as u32 & 31) as u128]);
				}
				let mut v = i[0] as u32;
				for k in 0..5 {
					if decide(i[1] >> k & 1 == 1) {
						v = f(v, 1 << k);
					}
				}
				Some(vec![v as u128])
			},
			rel: None,
		}
	};
}
fn b32(i: &[Vec<u128>], k: usize) -> Vec<B32> {
	i.iter().map(|v| B32::new(v[k] as u32)).collect()
}
/// the signed product of 32-bit integers: the unsigned one less the operands' wrapped-around parts
fn smul(a: u128, b: u128, both: bool) -> u64 {
	let (a, b) = (a as u32, b as u32);
	let p = (a as u64).wrapping_mul(b as u64);
	let neg = |x: u32| 0u32.wrapping_sub(x >> 31);
	let mut h = ((p >> 32) as u32).wrapping_sub(b & neg(a));
	if both {
		h = h.wrapping_sub(a & neg(b));
	}
	p & 0xffff_ffff | (h as u64) << 32
}
macro_rules! mul {
	($g:ident, $spec:expr) => {
		G {
			build: |t| {
				let g = $g::new(t);
				let (i, o) = (io(&[g.xin, g.yin]), io(&[g.out_low, g.out_high]));
				(g, i, o)
			},
			virt: true,
			fill: |g, s, i| g.populate_with_inputs(s, b32(i, 0), b32(i, 1)),
			spec: |i| {
				let p: u64 = $spec(i[0], i[1]);
				Some(vec![(p as u32) as u128, (p >> 32) as u128])
			},
			rel: None,
		}
	};
}
fn mul64() -> G<MulUU64> {
	G {
		build: |t| {
			let g = MulUU64::new(t);
			let (i, o) = (io(&[g.xin, g.yin]), io(&[g.out_low, g.out_high]));
			(g, i, o)
		},
		virt: true,
		fill: |g, s, i| {
			let c = |k: usize| i.iter().map(|v| B64::new(v[k] as u64)).collect::<Vec<_>>();
			g.populate_with_inputs(s, c(0), c(1))
		},
		spec: |i| {
			let p = i[0].wrapping_mul(i[1]);
			Some(vec![(p as u64) as u128, p >> 64])
		},
		rel: None,
	}
}
macro_rules! div {
	($g:ident, $ok:expr, $rel:expr) => {
		G {
			build: |t| {
				let g = $g::new(t);
				let (i, o) = (io(&[g.p_in, g.q_in]), io(&[g.out_div, g.out_rem]));
				(g, i, o)
			},
			virt: true,
			fill: |g, s, i| g.populate_with_inputs(s, b32(i, 0), b32(i, 1)),
			spec: |i| {
				let f: fn(u32, u32) -> bool = $ok;
				if f(i[0] as u32, i[1] as u32) { Some(vec![]) } else { None }
			},
			rel: Some(|i, o| {
				let f: fn(u128, u128, u128, u128) -> bool = $rel;
				f(i[0], i[1], o[0], o[1])
			}),
		}
	};
}
fn divu() -> G<DivUU32> {
	div!(DivUU32, |_, q| q != 0, |p, q, d, r| {
		let s = (q as u64).wrapping_mul(d as u64).wrapping_add(r as u64);
		(s == p as u64) & (r < q)
	})
}
fn divs() -> G<DivSS32> {
	div!(DivSS32, |p, q| (q != 0) & !((p == 1 << 31) & (q == !0)), |p, q, d, r| {
		let x = |v: u128| v as u32 as i32 as i64;
		let s = (smul(q, d, true) as i64).wrapping_add(x(r));
		let abs = |v: u128| x(v).unsigned_abs();
		(s == x(p)) & (abs(r) < abs(q)) & ((r == 0) | ((r >> 31) == (p >> 31)))
	})
}
fn ex(f: impl Fn()) {
	exact(true);
	f()
}
/// bits of operands that are sums of two patterns, and a carry
fn pat(n: usize) -> impl Fn(usize, usize) -> u128 {
	let b: Vec<u8> = (0..2).map(|_| any::<1>()[0]).collect();
	move |r, k| {
		let v = b[r] >> (2 * (k / n));
		let j = k % n;
		let on = |m: u64, s: u8| (m >> j) as u8 & v >> s & 1;
		(if k == 2 * n { v & 1 } else { on(0x9e37_79b9_f39c_c060, 0) ^ on(0x7f4a_7c15_834d_36e9, 1) }) as u128
	}
}
/// operands with few symbolic bits, of both signs and sizes
fn few(r: usize, k: usize) -> u128 {
	let b = any::<1>()[0] as u32;
	let v = match (r + k) % 2 {
		0 => ((b as i32) << 29 >> 29) as u32,
		_ => (b & 7) << 29 | (b & 4) >> 2,
	};
	v as u128
}
/// the multiplicative generators generate: their order is the size of the group
fn generators() {
	let full = |l: usize, g: u128, primes: &[u64]| {
		let n = u128::MAX >> (128 - (1u32 << l));
		let p = |mut e: u128| {
			let (mut r, mut b) = (E(1, l), E(g, l));
			while e > 0 {
				if e & 1 == 1 {
					r = mul(r, b);
				}
				b = mul(b, b);
				e >>= 1;
			}
			r.0
		};
		check(p(n) == 1, 1);
		let mut k = n;
		for q in primes {
			check(k % *q as u128 == 0, 2);
			k /= *q as u128;
			check(p(n / *q as u128) != 1, 3);
		}
		check(k == 1, 4);
	};
	let a = [3, 5, 17, 257, 641, 65537, 6700417];
	full(6, BinaryField64b::MULTIPLICATIVE_GENERATOR.val() as u128, &a);
	let b = [3, 5, 17, 257, 641, 65537, 6700417, 274177, 67280421310721];
	full(7, BinaryField128b::MULTIPLICATIVE_GENERATOR.val(), &b);
}
harness! {
	h_c20_generators => generators();
	h_c20_muluu_s => mul!(MulUU32, |a: u128, b: u128| (a as u64).wrapping_mul(b as u64)).sound();
	h_c20_muluu_c => mul!(MulUU32, |a: u128, b: u128| (a as u64).wrapping_mul(b as u64)).complete(2, sym);
	h_c20_mulss_s => mul!(MulSS32, |a, b| smul(a, b, true)).sound();
	h_c20_mulss_c => ex(|| mul!(MulSS32, |a, b| smul(a, b, true)).complete(2, few));
	h_c20_mulsu_s => mul!(MulSU32, |a, b| smul(a, b, false)).sound();
	h_c20_mulsu_c => mul!(MulSU32, |a, b| smul(a, b, false)).complete(2, sym);
	h_c20_mul64_s => mul64().sound();
	h_c20_mul64_c => mul64().complete(2, sym);
	h_c20_divu_s => divu().sound();
	h_c20_divu_c => ex(|| divu().complete(2, few));
	h_c20_divs_s => divs().sound();
	h_c20_divs_c => ex(|| divs().complete(2, few));

	h_c20_add_c1 => u32add!(false, false, false).complete(2, sym);
	h_c20_add_s1 => u32add!(false, false, false).sound();
	h_c20_add_c2 => u32add!(true, true, true).complete(2, sym);
	h_c20_add_s2 => u32add!(true, true, true).sound();
	h_c20_add_s3 => u32add!(false, true, true).sound();
	h_c20_sub_c1 => u32sub!(false, false, false).complete(2, sym);
	h_c20_sub_s1 => u32sub!(false, false, false).sound();
	h_c20_sub_c2 => u32sub!(true, true, true).complete(2, sym);
	h_c20_sub_s2 => u32sub!(true, true, true).sound();
	h_c20_sub_s3 => u32sub!(false, true, true).sound();
	h_c20_stacked_c1 => stacked!(64, false, true).complete(2, sym);
	h_c20_stacked_s1 => stacked!(64, false, true).sound();
	h_c20_stacked_c2 => stacked!(64, true, false).complete(1, sym);
	h_c20_stacked_c3_thorough => stacked!(128, true, false).complete(2, sym);
	h_c20_stacked_s2 => stacked!(128, true, false).sound();
	h_c20_wadd_c1 => wadd!(u32, 32, false, false).complete(2, sym1);
	h_c20_wadd_s1 => wadd!(u32, 32, false, false).sound();
	h_c20_wadd_c2 => ex(|| wadd!(u64, 64, true, true).complete(2, pat(64)));
	h_c20_wadd_s2 => wadd!(u64, 64, true, true).sound();
	h_c20_wsub_c1 => wsub!(u32, 32, false, false).complete(2, sym1);
	h_c20_wsub_s1 => wsub!(u32, 32, false, false).sound();
	h_c20_wsub_c2 => ex(|| wsub!(u64, 64, true, true).complete(2, pat(64)));
	h_c20_wsub_s2 => wsub!(u64, 64, true, true).sound();
	h_c20_incr_c1 => incr!(u32, 32).complete(2, sym1);
	h_c20_incr_s1 => incr!(u32, 32).sound();
	h_c20_incr_c2 => incr!(u64, 64).complete(2, sym1);
	h_c20_incr_s2 => incr!(u64, 64).sound();
	h_c20_shl_c => barrel!(ShiftVariant::LogicalLeft, false, |a, b| a << b).complete(2, sym);
	h_c20_shl_s => barrel!(ShiftVariant::LogicalLeft, true, |a, b| a << b).sound();
	h_c20_shr_c => barrel!(ShiftVariant::LogicalRight, false, |a, b| a >> b).complete(2, sym);
	h_c20_shr_s => barrel!(ShiftVariant::LogicalRight, true, |a, b| a >> b).sound();
	h_c20_rot_c => barrel!(ShiftVariant::CircularLeft, false, |a, b| a.rotate_left(b)).complete(2, sym);
	h_c20_rot_s => barrel!(ShiftVariant::CircularLeft, true, |a, b| a.rotate_left(b)).sound();
}
