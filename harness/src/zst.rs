use crate::rt::*;
use crate::data::any_ordering;
use crate::data::{BUDGET, CALLS};
use ndarray_slice::Slice1Ext;
use ndarray_slice::ndarray::{Array1, ArrayViewMut1, s};
use std::cmp::Ordering;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

static DROPS: AtomicUsize = AtomicUsize::new(0);
/// A zero-sized element whose drops are counted and whose order is whatever the solver likes.
#[derive(Debug)]
struct Z;
impl Drop for Z {
	fn drop(&mut self) { DROPS.fetch_add(1, Relaxed); }
}
impl PartialEq for Z {
	fn eq(&self, _: &Z) -> bool { any_ordering() == Ordering::Equal }
}
impl Eq for Z {}
impl PartialOrd for Z {
	fn partial_cmp(&self, o: &Z) -> Option<Ordering> { Some(self.cmp(o)) }
}
impl Ord for Z {
	fn cmp(&self, _: &Z) -> Ordering {
		CALLS.fetch_add(1, Relaxed);
		any_ordering()
	}
}
/// p = op, n, step
#[unsafe(no_mangle)]
pub fn h_zst() {
	let (op, n, step) = (param(0), param(1), param(2));
	DROPS.store(0, Relaxed);
	BUDGET.store(8, Relaxed);
	CALLS.store(0, Relaxed);
	let total = n * step;
	let mut a: Array1<Z> = Array1::from_shape_fn(total, |_| Z);
	let mut v = a.slice_mut(s![..; if param(3) != 0 { -(step as isize) } else { step as isize }]);
	check(v.len() == n, "length of the view");
	match op {
		0 => v.sort_unstable(),
		1 => v.sort(),
		2 => v.sort_by_cached_key(|_| any(2)),
		3 => v.par_sort(),
		4 => v.par_sort_unstable(),
		5 => v.par_sort_by_cached_key(|_| any(2)),
		6 => v.reverse(),
		7 => {
			let i = any(64) as usize;
			match catch(|| {
				let (l, _, r) = v.select_nth_unstable(i);
				(l.len(), r.len())
			}) {
				Some((l, r)) => {
					check((i < n) & (l == i) & (l + r + 1 == n), "zero-sized select_nth: parts");
					cover(10);
				}
				None => {
					check(i >= n, "zero-sized select_nth: panics out of bounds only");
					cover(11);
				}
			}
		}
		8 | 9 => {
			let (i, j) = (any(64) as usize, any(64) as usize);
			let ix = Array1::from(vec![i, j]);
			match catch(|| {
				if op == 8 {
					let mut c = Vec::new();
					v.select_many_nth_unstable(&ix, &mut c);
					check(c.len() == 2 && c[0].0 == i && c[1].0 == j, "zero-sized select_many: indices");
				} else {
					let mut c = Vec::new();
					v.par_select_many_nth_unstable(&ix, &mut c);
					check(c.len() == 2, "zero-sized par_select_many: count");
				}
			}) {
				Some(()) => {
					check((i < j) & (j < n), "zero-sized select_many: invalid indices panic");
					cover(10);
				}
				None => {
					check(!((i < j) & (j < n)), "zero-sized select_many: no panic for valid indices");
					cover(11);
				}
			}
		}
		10 => {
			let mut kept = 0;
			let mut calls = 0;
			{
				let (d, r) = v.partition_dedup_by(|_, _| {
					let x = any_bool();
					calls += 1;
					kept += !x as usize;
					x
				});
				check(d.len() + r.len() == n, "zero-sized partition_dedup: parts");
				kept += (n > 0) as usize;
				check(d.len() == kept, "zero-sized partition_dedup: kept");
			}
			check(calls == n.saturating_sub(1), "zero-sized partition_dedup: one call per neighbour");
		}
		11 => {
			let mut w = true;
			let g = v.is_sorted_by(|_, _| {
				let x = any_bool();
				w &= x;
				x
			});
			check(g == w, "zero-sized is_sorted_by");
		}
		12 => match v.binary_search_by(|_| any_ordering()) {
			Ok(i) => check(i < n, "zero-sized binary_search: Ok"),
			Err(i) => check(i <= n, "zero-sized binary_search: Err"),
		},
		13 => {
			let mut w = false;
			let g = v.partition_point(|_| {
				let x = any_bool();
				w |= x;
				x
			});
			check((g > 0) == w, "zero-sized partition_point");
		}
		_ => {
			let g = v.contains(&std::mem::ManuallyDrop::new(Z));
			check(!g | (n > 0), "zero-sized contains");
		}
	}
	if op < 10 {
		check(CALLS.load(Relaxed) == 0, "zero-sized elements are not compared to sort or select");
	}
	check(DROPS.load(Relaxed) == 0, "no element is dropped by the call");
	check(v.len() == n, "length of the view");
	drop(a);
	check(DROPS.load(Relaxed) == total, "each element is dropped once");
	cover(1);
}
/// p = op; any number of elements which take no space.
#[unsafe(no_mangle)]
pub fn h_zst_far() {
	let n = any(63) as usize;
	BUDGET.store(8, Relaxed);
	CALLS.store(0, Relaxed);
	let mut v = unsafe { ArrayViewMut1::<Z>::from_shape_ptr(n, std::ptr::NonNull::dangling().as_ptr()) };
	check(v.len() == n, "length of the view");
	let valid = |i: usize, l: usize, r: usize| {
		check((i < n) & (l == i) & (l.wrapping_add(r) == n.wrapping_sub(1)), "zero-sized select_nth: parts");
		cover(10);
	};
	match param(0) {
		0 => v.sort_unstable(),
		1 => v.sort(),
		2 => v.par_sort(),
		3 => v.par_sort_unstable(),
		4 | 5 => {
			let i = any(64) as usize;
			match catch(|| {
				let (l, _, r) = if param(0) == 4 { v.select_nth_unstable(i) } else { v.select_nth_unstable_by(i, |_, _| any_ordering()) };
				(l.len(), r.len())
			}) {
				Some((l, r)) => valid(i, l, r),
				None => {
					check(i >= n, "zero-sized select_nth: panics out of bounds only");
					cover(11);
				}
			}
		}
		_ => {
			let (i, j) = (any(64) as usize, any(64) as usize);
			let ix = Array1::from(vec![i, j]);
			match catch(|| {
				if param(0) == 6 {
					let mut c = Vec::new();
					v.select_many_nth_unstable(&ix, &mut c);
					check(c.len() == 2 && c[0].0 == i && c[1].0 == j, "zero-sized select_many: indices");
				} else {
					let mut c = Vec::new();
					v.par_select_many_nth_unstable(&ix, &mut c);
					check(c.len() == 2, "zero-sized par_select_many: count");
				}
			}) {
				Some(()) => {
					check((i < j) & (j < n), "zero-sized select_many: invalid indices panic");
					cover(10);
				}
				None => {
					check(!((i < j) & (j < n)), "zero-sized select_many: no panic for valid indices");
					cover(11);
				}
			}
		}
	}
	check(CALLS.load(Relaxed) == 0, "zero-sized elements are not compared to sort or select");
	check(v.len() == n, "length of the view");
	cover(1);
}
