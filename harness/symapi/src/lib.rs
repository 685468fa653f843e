//! Interface between harnesses and the gfsym engine (or the native replay runner).
#![allow(clippy::missing_safety_doc)]

unsafe extern "C" {
	fn sym_bytes(p: *mut u8, n: usize);
	fn sym_assert(c: bool, id: u64);
	fn sym_assume(c: bool);
	fn sym_cover(id: u64);
	fn sym_expect(id: u64);
	fn sym_panic_ok(on: u64);
	fn sym_merge(on: u64);
	fn sym_exact(on: u64);
	fn sym_cap(n: u64);
	fn sym_decide(c: bool) -> bool;
	fn sym_concretize(x: u64) -> u64;
	fn sym_choice(x: u64, n: u64) -> u64;
	fn sym_cut(p: *mut u8, n: usize);
	fn sym_observe(p: *const u8, n: usize);
	fn sym_uf(tag: u64, inj: u64, inp: *const u8, inlen: usize, out: *mut u8, outlen: usize);
}

pub fn any<const N: usize>() -> [u8; N] {
	let mut a = [0u8; N];
	unsafe { sym_bytes(a.as_mut_ptr(), N) };
	a
}
pub fn any_u8() -> u8 {
	any::<1>()[0]
}
pub fn any_u16() -> u16 {
	u16::from_le_bytes(any())
}
pub fn any_u32() -> u32 {
	u32::from_le_bytes(any())
}
pub fn any_u64() -> u64 {
	u64::from_le_bytes(any())
}
pub fn any_u128() -> u128 {
	u128::from_le_bytes(any())
}
pub fn any_usize() -> usize {
	any_u64() as usize
}
pub fn any_bool() -> bool {
	any_u8() & 1 == 1
}
/// a symbolic value of any plain-bytes type (every bit pattern valid)
pub fn any_pod<T: Copy>() -> T {
	let mut a = std::mem::MaybeUninit::<T>::uninit();
	unsafe {
		sym_bytes(a.as_mut_ptr() as *mut u8, size_of::<T>());
		a.assume_init()
	}
}
/// a value in 0..n, decided by forking: one path per value
pub fn any_below(n: usize) -> usize {
	let x = any_u8();
	unsafe { sym_choice(x as u64, n as u64) as usize }
}
#[inline(always)]
pub fn check(c: bool, id: u64) {
	unsafe { sym_assert(c, id) }
}
pub fn bytes_of<T: ?Sized>(x: &T) -> &[u8] {
	unsafe { std::slice::from_raw_parts(x as *const T as *const u8, size_of_val(x)) }
}
/// bitwise equality of two values
#[inline(always)]
pub fn same<T: ?Sized>(a: &T, b: &T) -> bool {
	bytes_of(a) == bytes_of(b)
}
#[inline(always)]
pub fn check_eq<T: ?Sized>(a: &T, b: &T, id: u64) {
	check(same(a, b), id)
}
#[inline(always)]
pub fn assume(c: bool) {
	unsafe { sym_assume(c) }
}
pub fn cover(id: u64) {
	unsafe { sym_cover(id) }
}
/// declare that cover point `id` must be reached, else the run counts as vacuous
pub fn expect(id: u64) {
	unsafe { sym_expect(id) }
}
pub fn panic_ok(on: bool) {
	unsafe { sym_panic_ok(on as u64) }
}
pub fn merge(on: bool) {
	unsafe { sym_merge(on as u64) }
}
/// most work spent on expanding a value's definitions before a solver is asked
pub fn cap(n: u64) {
	unsafe { sym_cap(n) }
}
/// few symbolic inputs (at most 16 bits): keep every value as an explicit function of them
pub fn exact(on: bool) {
	unsafe { sym_exact(on as u64) }
}
pub fn decide(c: bool) -> bool {
	unsafe { sym_decide(c) }
}
pub fn concretize(x: u64) -> u64 {
	unsafe { sym_concretize(x) }
}
pub fn cut<T>(x: &mut T) {
	unsafe { sym_cut(x as *mut T as *mut u8, size_of::<T>()) }
}
pub fn observe<T: ?Sized>(x: &T) {
	unsafe { sym_observe(x as *const T as *const u8, size_of_val(x)) }
}
/// uninterpreted function; `inj`: distinct inputs give distinct outputs
pub fn uf(tag: u64, inj: bool, inp: &[u8], out: &mut [u8]) {
	unsafe { sym_uf(tag, inj as u64, inp.as_ptr(), inp.len(), out.as_mut_ptr(), out.len()) }
}

#[macro_export]
macro_rules! harness {
	($($name:ident => $body:expr;)*) => {
		$(
			#[unsafe(no_mangle)]
			pub extern "C" fn $name() {
				$body
			}
		)*
	};
}
