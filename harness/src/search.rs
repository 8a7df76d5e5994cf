use crate::data::*;
use crate::rt::*;
use crate::sorts::input;
use ndarray_slice::Slice1Ext;
use ndarray_slice::ndarray::{ArrayView1, arr0};

/// p = op, n, layout, pattern, nsym, seed
#[unsafe(no_mangle)]
pub fn h_is_sorted() {
	let (k, b) = input::<E>();
	let n = k.len();
	let v = b.ro();
	let (got, want);
	match param(0) {
		0 | 1 | 2 => {
			let mut w = true;
			for i in 1..n {
				w &= k[i - 1] <= k[i];
			}
			want = w;
			got = match param(0) {
				0 => v.is_sorted(),
				1 => v.is_sorted_by(|a, b| a.k <= b.k),
				_ => v.is_sorted_by_key(|a| a.k),
			};
		}
		3 => {
			// strictly
			let mut w = true;
			for i in 1..n {
				w &= k[i - 1] < k[i];
			}
			want = w;
			got = v.is_sorted_by(|a, b| a.k < b.k);
		}
		4 => {
			// any relation at all, consulted for neighbours in order
			let r: Vec<bool> = (0..n).map(|_| any_bool()).collect();
			let mut w = true;
			for i in 1..n {
				w &= r[i];
			}
			want = w;
			got = v.is_sorted_by(|a, b| {
				check(a.id + 1 == b.id, "is_sorted_by: neighbours in order");
				r[b.id as usize]
			});
		}
		_ => {
			// a partial order: incomparable neighbours are not sorted
			#[derive(PartialEq)]
			struct P(u16);
			impl PartialOrd for P {
				fn partial_cmp(&self, o: &P) -> Option<std::cmp::Ordering> {
					if self.0 == 0 || o.0 == 0 { None } else { Some(self.0.cmp(&o.0)) }
				}
			}
			let f = |k: u16| P(k);
			let mut w = true;
			for i in 1..n {
				w &= (k[i - 1] <= k[i]) & (k[i - 1] != 0) & (k[i] != 0);
			}
			want = w;
			got = v.is_sorted_by_key(|a| f(a.k));
		}
	}
	check(got == want, "is_sorted: true exactly if every neighbouring pair is in order");
	check(b.guards(), "elements outside the view are untouched");
	observe(got as u64);
	cover(1 + got as u32);
}
#[unsafe(no_mangle)]
pub fn h_contains() {
	let (k, b) = input::<E>();
	let x = any(16) as u16;
	let mut want = false;
	for i in 0..k.len() {
		want |= k[i] == x;
	}
	let got = b.ro().contains(&E { k: x, id: 0xeeee });
	check(got == want, "contains: true exactly if an element equals the value");
	observe(got as u64);
	cover(1 + got as u32);
	// an element which equals nothing, not even itself, is not contained
	#[derive(Debug)]
	struct N(u16);
	impl PartialEq for N {
		fn eq(&self, o: &N) -> bool { self.0 != 0 && o.0 != 0 && self.0 == o.0 }
	}
	let v: Vec<N> = k.iter().map(|k| N(*k)).collect();
	let got = ArrayView1::from(&v[..]).contains(&N(x));
	check(got == (want & (x != 0)), "contains: by PartialEq");
}
fn search(op: usize, b: &Buf<E>, x: u16) -> Result<usize, usize> {
	let v = b.ro();
	match op {
		0 => v.binary_search(&E { k: x, id: 0xeeee }),
		1 => v.binary_search_by(|p| p.k.cmp(&x)),
		_ => v.binary_search_by_key(&x, |p| p.k),
	}
}
/// Binary search of any value in any sorted array.
#[unsafe(no_mangle)]
pub fn h_binary_search() {
	let (k, b) = input::<E>();
	let n = k.len();
	for i in 1..n {
		assume(k[i - 1] <= k[i]);
	}
	let x = any(16) as u16;
	match search(param(0), &b, x) {
		Ok(i) => {
			check(i < n, "binary_search: Ok is in bounds");
			let i = pick(i);
			check(b.at(i).k == x, "binary_search: Ok is a match");
			observe(1);
			cover(1);
		}
		Err(i) => {
			check(i <= n, "binary_search: Err is at most the length");
			let i = pick(i);
			let mut ok = true;
			for j in 0..n {
				ok &= if j < i { k[j] < x } else { k[j] > x };
			}
			check(ok, "binary_search: Err is where the value belongs");
			observe(i as u64);
			cover(2);
		}
	}
}
/// Any split of `n` elements into less, equal and greater ones; `n` up to the parameter.
#[unsafe(no_mangle)]
pub fn h_binary_split() {
	let n = param(1);
	let k: Vec<u16> = (0..n).map(|i| i as u16).collect();
	let b = Buf::<E>::new(&k, param(2));
	let (lo, hi) = (any(16) as u16, any(16) as u16);
	assume((lo <= hi) & (hi as usize <= n));
	let mut calls = 0;
	let f = |p: &E| {
		use std::cmp::Ordering::*;
		if p.k < lo {
			Less
		} else if p.k < hi {
			Equal
		} else {
			Greater
		}
	};
	let r = b.ro().binary_search_by(|p| {
		calls += 1;
		f(p)
	});
	match r {
		Ok(i) => {
			check((i as u16 >= lo) & ((i as u16) < hi) & (i < n), "binary_search_by: Ok lies in the matches");
			cover(1);
		}
		Err(i) => {
			check((lo == hi) & (i as u16 == lo), "binary_search_by: Err only without a match, at the split");
			cover(2);
		}
	}
	check(calls <= 2 * (usize::BITS - n.leading_zeros()) as usize + 1, "binary_search_by: logarithmic number of calls");
	let mut calls = 0;
	let p = b.ro().partition_point(|p| {
		calls += 1;
		p.k < lo
	});
	check(p as u16 == lo, "partition_point: the first element of the second part");
	check(calls <= 2 * (usize::BITS - n.leading_zeros()) as usize + 1, "partition_point: logarithmic number of calls");
}
/// A comparator which answers anything.
#[unsafe(no_mangle)]
pub fn h_binary_any() {
	let n = param(1);
	let k: Vec<u16> = (0..n).map(|i| i as u16).collect();
	let b = Buf::<E>::new(&k, param(2));
	BUDGET.store(99, std::sync::atomic::Ordering::Relaxed);
	let mut calls = 0;
	match b.ro().binary_search_by(|p| {
		calls += 1;
		check((p.k as usize) < n, "binary_search_by: looks at elements of the view only");
		any_ordering()
	}) {
		Ok(i) => check(i < n, "binary_search_by: Ok is in bounds"),
		Err(i) => check(i <= n, "binary_search_by: Err is at most the length"),
	}
	check(calls <= 2 * (usize::BITS - n.leading_zeros()) as usize + 1, "binary_search_by: logarithmic number of calls");
	let p = b.ro().partition_point(|_| any_bool());
	check(p <= n, "partition_point: at most the length");
	cover(1);
}
/// One element broadcast over a view of stride 0.
#[unsafe(no_mangle)]
pub fn h_broadcast() {
	let n = param(1);
	let (k, x) = (any(8) as u16, any(8) as u16);
	let a = arr0(E { k, id: 0 });
	let v = a.broadcast(n).unwrap();
	check(v.is_sorted(), "broadcast view is sorted");
	check(!v.is_sorted_by(|a, b| a.k < b.k) == (n > 1), "broadcast view is not strictly sorted");
	let e = E { k: x, id: 0 };
	check(v.contains(&e) == ((n > 0) & (x == k)), "broadcast view contains");
	match v.binary_search(&e) {
		Ok(i) => check((i < n) & (x == k), "broadcast view: Ok"),
		Err(i) => check(if x < k { i == 0 } else { (i == n) & ((x > k) | (n == 0)) }, "broadcast view: Err"),
	}
	check(v.partition_point(|a| a.k < x) == if k < x { n } else { 0 }, "broadcast view: partition point");
	cover(1);
}
/// A view of `n` elements of which none is ever read: the comparator goes by addresses.
fn far(n: usize) -> (ArrayView1<'static, u8>, usize) {
	let p = std::ptr::without_provenance::<u8>(16);
	(unsafe { ArrayView1::from_shape_ptr(n, p) }, p as usize)
}
/// The split at `lo`, matches (if any) until `hi`.
fn far_search(n: usize, lo: usize, hi: usize) {
	use std::cmp::Ordering::*;
	let (v, at) = far(n);
	check(v.len() == n, "length of the view");
	let mut calls = 0;
	match v.binary_search_by(|p| {
		calls += 1;
		let i = (p as *const u8 as usize).wrapping_sub(at);
		check(i < n, "binary_search_by: looks at elements of the view only");
		if i < lo {
			Less
		} else if i < hi {
			Equal
		} else {
			Greater
		}
	}) {
		Ok(i) => {
			check((i >= lo) & (i < hi), "binary_search_by: Ok lies in the matches");
			cover(1);
		}
		Err(i) => {
			check((lo == hi) & (i == lo), "binary_search_by: Err only without a match, at the split");
			cover(2);
		}
	}
	check(calls <= 65, "binary_search_by: logarithmic number of calls");
	let mut calls = 0;
	let p = v.partition_point(|p| {
		calls += 1;
		let i = (p as *const u8 as usize).wrapping_sub(at);
		check(i < n, "partition_point: looks at elements of the view only");
		i < lo
	});
	check(p == lo, "partition_point: the first element of the second part");
	check(calls <= 65, "partition_point: logarithmic number of calls");
}
/// p = split; any length up to 2^62 whatsoever.
#[unsafe(no_mangle)]
pub fn h_search_far() {
	let n = any(62) as usize;
	if param(0) == 0 {
		far_search(n, 0, 0);
	} else {
		assume(n > 0);
		far_search(n, 0, n);
	}
}
/// p = length, matches, position of the symbolic bits, the others; a huge length.
#[unsafe(no_mangle)]
pub fn h_search_huge() {
	let n = param(0);
	let lo = (param(3) ^ ((any(4) as usize) << param(2))) & (usize::MAX >> 1);
	assume(lo <= n);
	far_search(n, lo, n.min(lo + param(1)));
}
