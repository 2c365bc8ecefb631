//! What the operating system gives to the code under test: random numbers (std seeds its hash maps with them) and memory.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
	static SEED: Cell<u64> = const { Cell::new(0) };
	/// largest request since it was last looked at
	static LARGEST: Cell<usize> = const { Cell::new(0) };
}
pub fn seed(s: u64) {
	SEED.with(|x| x.set(s | 1));
}
/// Stands in for the system call of that name: threads of a simulated run get bytes of their seed, others get constants.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
	let mut s = SEED.try_with(|x| x.get()).unwrap_or(0);
	for i in 0..len {
		s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
		*buf.add(i) = (s >> 33) as u8;
	}
	let _ = SEED.try_with(|x| x.set(s));
	len as isize
}
pub struct Watched;
unsafe impl GlobalAlloc for Watched {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		note(l.size());
		System.alloc(l)
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		System.dealloc(p, l)
	}
	unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
		note(l.size());
		System.alloc_zeroed(l)
	}
	unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
		note(n);
		System.realloc(p, l, n)
	}
}
#[inline]
fn note(n: usize) {
	if n > 1 << 16 {
		let _ = LARGEST.try_with(|x| x.set(x.get().max(n)));
	}
}
/// The largest single request of this thread while `f` runs (0 below 64 KiB).
pub fn largest<R>(f: impl FnOnce() -> R) -> (R, usize) {
	LARGEST.with(|x| x.set(0));
	let r = f();
	(r, LARGEST.with(|x| x.replace(0)))
}
