use crate::data::*;
use crate::rt::*;
use ndarray_slice::Slice1Ext;
use ndarray_slice::ndarray::ArrayViewMut1;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

/// p = op, n, layout, pattern, nsym, seed
pub fn input<T: El>() -> (Vec<u16>, Buf<T>) {
	let k = keys(param(3), param(1), param(4), param(5));
	let b = Buf::new(&k, param(2));
	(k, b)
}
/// Joins: 0 first side first, 1 second side first, 2 symbolic order for `budget` joins.
pub fn schedule(mode: usize, budget: usize, migrate: usize, quota: usize) {
	use rayon_core::verif::*;
	if MODE.load(Relaxed) != 3 {
		MODE.store(mode as u32, Relaxed);
		BUDGET.store(budget as u32, Relaxed);
		MIGRATE.store(migrate as u32, Relaxed);
		QUOTA.store(if quota == 0 { u32::MAX } else { quota as u32 - 1 }, Relaxed);
	}
}
pub fn is_stable(op: usize) -> bool { op >= 3 && op <= 10 }
pub fn is_par(op: usize) -> bool { op >= 7 }

/// Every sorting method; `c` and `key` are what the `_by` and `_by_key` ones are given.
pub fn sort_op<T: El, K: Ord + Send>(
	op: usize,
	v: &mut ArrayViewMut1<'_, T>,
	c: impl Fn(&T, &T) -> std::cmp::Ordering + Sync,
	key: impl Fn(&T) -> u16 + Sync,
	ckey: impl Fn(&T) -> K + Sync,
) {
	match op {
		#[cfg(feature = "u")]
		0 => v.sort_unstable(),
		#[cfg(feature = "u")]
		1 => v.sort_unstable_by(c),
		#[cfg(feature = "u")]
		2 => v.sort_unstable_by_key(key),
		#[cfg(feature = "s")]
		3 => v.sort(),
		#[cfg(feature = "s")]
		4 => v.sort_by(c),
		#[cfg(feature = "s")]
		5 => v.sort_by_key(key),
		#[cfg(feature = "c")]
		6 => v.sort_by_cached_key(ckey),
		#[cfg(feature = "ps")]
		7 => v.par_sort(),
		#[cfg(feature = "ps")]
		8 => v.par_sort_by(c),
		#[cfg(feature = "ps")]
		9 => v.par_sort_by_key(key),
		#[cfg(feature = "pc")]
		10 => v.par_sort_by_cached_key(ckey),
		#[cfg(feature = "pu")]
		11 => v.par_sort_unstable(),
		#[cfg(feature = "pu")]
		12 => v.par_sort_unstable_by(c),
		#[cfg(feature = "pu")]
		13 => v.par_sort_unstable_by_key(key),
		_ => fail("operation not compiled in"),
	}
}
pub fn check_sorted<T: El>(op: usize, b: &Buf<T>) {
	if is_stable(op) {
		check(b.stable(), "stable sort: sorted, equal elements in their original order");
	} else {
		check(b.sorted(), "unstable sort: sorted");
	}
}
#[cfg(feature = "m_sorts")]
fn sort_with<T: El>() {
	let op = param(0);
	let (k, mut b) = input::<T>();
	schedule(param(6), param(7), 0, param(8));
	sort_op(op, &mut b.view(), |a, b| a.k().cmp(&b.k()), |a| a.k(), |a| a.k());
	b.intact(&k);
	check_sorted(op, &b);
	if param(1) < 50000 {
		b.observe();
	}
	cover(1);
	if param(1) > 1 {
		cover(2 + (b.at(0).id() != 0) as u32);
	}
}
/// p = op, n, layout, pattern, nsym, seed, schedule, join budget, bridge quota
#[cfg(feature = "m_sorts")]
#[unsafe(no_mangle)]
pub fn h_sort() { sort_with::<E>() }
/// For more than 65536 elements.
#[cfg(feature = "m_sorts")]
#[unsafe(no_mangle)]
pub fn h_sort_wide() { sort_with::<W>() }

/// The order is the one the closure defines, not that of the elements: descending here.
#[cfg(feature = "m_sorts")]
#[unsafe(no_mangle)]
pub fn h_sort_desc() {
	let op = param(0);
	let (k, mut b) = input::<E>();
	schedule(param(6), param(7), 0, param(8));
	sort_op(op, &mut b.view(), |a, b| b.k.cmp(&a.k), |a| 0x2000 - a.k, |a| 0x2000 - a.k);
	b.intact(&k);
	let mut ok = true;
	for i in 1..b.len() {
		let (x, y) = (b.at(i - 1), b.at(i));
		ok &= x.k >= y.k;
		if is_stable(op) {
			ok &= (x.k != y.k) | (x.id < y.id);
		}
	}
	check(ok, "sorted by the order the closure defines");
	b.observe();
	cover(1);
}

/// Elements of other sizes: 1, 12 and 40 bytes.
macro_rules! sized {
	($name:ident, $t:ident, $k:ty, $pad:ty) => {
		#[derive(Clone)]
		pub struct $t {
			_pad: $pad,
			v: $k,
		}
		impl PartialEq for $t {
			fn eq(&self, o: &$t) -> bool { self.k() == o.k() }
		}
		impl Eq for $t {}
		impl PartialOrd for $t {
			fn partial_cmp(&self, o: &$t) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) }
		}
		impl Ord for $t {
			fn cmp(&self, o: &$t) -> std::cmp::Ordering { self.k().cmp(&o.k()) }
		}
		#[cfg(feature = "m_sorts")]
		#[unsafe(no_mangle)]
		pub fn $name() { sort_with::<$t>() }
	};
}
#[cfg(feature = "sizes")]
sized!(h_sort_12, S12, (u32, u16), [u16; 2]);
#[cfg(feature = "sizes")]
impl El for S12 {
	fn new(k: u16, id: u32) -> S12 { S12 { _pad: [id as u16, 7], v: (k as u32, id as u16) } }
	fn k(&self) -> u16 { self.v.0 as u16 }
	fn id(&self) -> u32 { if self._pad[0] == self.v.1 && self._pad[1] == 7 { self.v.1 as u32 } else { 0xffff } }
}
#[cfg(feature = "sizes")]
sized!(h_sort_40, S40, (u64, u64), [u64; 3]);
#[cfg(feature = "sizes")]
impl El for S40 {
	fn new(k: u16, id: u32) -> S40 { S40 { _pad: [id as u64, 7, 11], v: (k as u64, id as u64) } }
	fn k(&self) -> u16 { self.v.0 as u16 }
	fn id(&self) -> u32 {
		if self._pad[0] == self.v.1 && self._pad[1] == 7 && self._pad[2] == 11 { self.v.1 as u32 } else { 0xffff }
	}
}
/// One byte: the key and the identity share it.
#[cfg(feature = "sizes")]
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct S1(u8);
#[cfg(feature = "sizes")]
impl El for S1 {
	fn new(k: u16, _id: u32) -> S1 { S1(k as u8) }
	fn k(&self) -> u16 { self.0 as u16 }
	fn id(&self) -> u32 { 0 }
}
/// Bytes: sorted, and each value as often as before.
#[cfg(all(feature = "m_sorts", feature = "sizes"))]
#[unsafe(no_mangle)]
pub fn h_sort_1() {
	let op = param(0);
	let (k, mut b) = input::<S1>();
	schedule(param(6), param(7), 0, param(8));
	sort_op(op, &mut b.view(), |a, b| a.k().cmp(&b.k()), |a| a.k(), |a| a.k());
	check(b.sorted(), "bytes sorted");
	// the sum of a function of the values cannot tell permutations apart
	let (mut x, mut y) = (0u64, 0u64);
	for i in 0..b.len() {
		x += 1 << (4 * b.at(i).k());
		y += 1 << (4 * k[i]);
	}
	check(x == y, "each byte as often as before");
	cover(1);
}

pub static KEYED: [AtomicUsize; 96] = [const { AtomicUsize::new(0) }; 96];
/// sort_by_cached_key with keys of the type given by p6: the key function is called once per
/// element (never for fewer than two), whichever index type the length selects.
///
/// p = par, n, layout, pattern, nsym, seed, key type, schedule, budget, quota
#[cfg(feature = "m_cached")]
#[unsafe(no_mangle)]
pub fn h_cached() { cached::<E>() }
#[cfg(feature = "m_cached")]
#[unsafe(no_mangle)]
pub fn h_cached_wide() { cached::<W>() }
#[cfg(feature = "m_cached")]
fn cached<T: El>() {
	let n = param(1);
	let (k, mut b) = input::<T>();
	schedule(param(7), param(8), 0, param(9));
	for x in &KEYED {
		x.store(0, Relaxed);
	}
	let total = AtomicUsize::new(0);
	let t = &total;
	macro_rules! go {
		($t:ty, $e:expr) => {{
			let f = |a: &T| -> $t {
				t.fetch_add(1, Relaxed);
				if (a.id() as usize) < KEYED.len() {
					KEYED[a.id() as usize].fetch_add(1, Relaxed);
				}
				$e(a.k())
			};
			match param(0) {
				#[cfg(feature = "c")]
				0 => b.view().sort_by_cached_key(f),
				#[cfg(feature = "pc")]
				1 => b.view().par_sort_by_cached_key(f),
				_ => fail("operation not compiled in"),
			}
		}};
	}
	match param(6) {
		0 => go!(u8, |k| k as u8),
		1 => go!(u16, |k| k),
		2 => go!(u32, |k| k as u32 * 0x10001),
		3 => go!(u64, |k| (k as u64) << 40),
		4 => go!((u8, u16), |k| (1, k)),
		_ => go!(KB, |k| KB(Box::new(k))),
	}
	b.intact(&k);
	check(b.stable(), "cached key: sorted by key, equal keys in their original order");
	let want = if n < 2 { 0 } else { 1 };
	check(total.load(Relaxed) <= n, "cached key: at most one call of the key function per element");
	let mut ok = true;
	for i in 0..n.min(KEYED.len()) {
		ok &= KEYED[i].load(Relaxed) <= 1;
		ok &= KEYED[i].load(Relaxed) >= want;
	}
	check(ok, "cached key: the key function is called exactly once per element");
	if n <= 64 {
		b.observe();
	}
	cover(1);
}
