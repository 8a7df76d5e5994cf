//! Interface between the harnesses and whatever runs them: the symbolic executor (which
//! interprets these externs itself) or the native replayer (`bin/replay.rs`).
use std::panic::{AssertUnwindSafe, catch_unwind};

unsafe extern "C-unwind" {
	pub fn verif_any(bits: u32) -> u64;
	pub fn verif_assume(c: bool);
	pub fn verif_assert(c: bool, msg: *const u8, len: usize);
	pub fn verif_fail(msg: *const u8, len: usize) -> !;
	pub fn verif_observe(x: u64);
	pub fn verif_cover(id: u32);
	pub fn verif_param(i: u32) -> u64;
	pub fn verif_concretize(x: u64) -> u64;
	pub fn verif_live() -> u64;
	pub fn verif_heap(k: u32) -> u64;
	pub fn verif_log(msg: *const u8, len: usize, x: u64);
}

pub fn any(bits: u32) -> u64 { if bits == 0 { 0 } else { unsafe { verif_any(bits) } } }
pub fn any_bool() -> bool { any(1) != 0 }
pub fn assume(c: bool) { unsafe { verif_assume(c) } }
pub fn check(c: bool, msg: &str) { unsafe { verif_assert(c, msg.as_ptr(), msg.len()) } }
pub fn fail(msg: &str) -> ! { unsafe { verif_fail(msg.as_ptr(), msg.len()) } }
pub fn observe(x: u64) { unsafe { verif_observe(x) } }
/// Witness: the final report counts the paths which passed here.
pub fn cover(id: u32) { unsafe { verif_cover(id) } }
pub fn param(i: u32) -> usize { unsafe { verif_param(i) as usize } }
pub fn live() -> u64 { unsafe { verif_live() } }
/// Allocations made so far.
pub fn allocs() -> u64 { unsafe { verif_heap(1) } }
/// Bytes allocated so far.
pub fn alloc_bytes() -> u64 { unsafe { verif_heap(2) } }
/// Frames on the stack (natively, units of 512 bytes below some address).
pub fn depth() -> usize { unsafe { verif_heap(3) as usize } }
/// Instructions executed so far (natively none: `check.py` has valgrind count them).
pub fn work() -> u64 { unsafe { verif_heap(4) } }
/// `x`, one path per value.
pub fn pick(x: usize) -> usize { unsafe { verif_concretize(x as u64) as usize } }
/// Any value in `0..n`, one path per value.
pub fn choose(n: usize) -> usize {
	let x = any(8);
	assume((x as usize) < n);
	unsafe { verif_concretize(x) as usize }
}
/// Runs `f`; `None` if it panicked. The payload is dropped.
pub fn catch<R>(f: impl FnOnce() -> R) -> Option<R> {
	match catch_unwind(AssertUnwindSafe(f)) {
		Ok(r) => Some(r),
		Err(e) => {
			drop(e);
			None
		}
	}
}
#[inline(never)]
pub fn throw() -> ! { panic!("thrown by the harness") }
/// Back to the initial state of everything a harness may set (native replay runs many cases in
/// one process).
pub fn reset() {
	crate::data::reset_hooks();
	use rayon_core::verif::*;
	use std::sync::atomic::Ordering::Relaxed;
	MODE.store(0, Relaxed);
	BUDGET.store(0, Relaxed);
	THREADS.store(2, Relaxed);
	MIGRATE.store(0, Relaxed);
	QUOTA.store(u32::MAX, Relaxed);
	JOINS.store(0, Relaxed);
	#[cfg(feature = "f_stacker")]
	{
		stacker::BUDGET.store(3, Relaxed);
		stacker::GROWN.store(0, Relaxed);
	}
}
/// `panics` as the standard library sees them stay balanced.
pub fn not_panicking() -> bool { !std::thread::panicking() }
