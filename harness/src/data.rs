//! Elements, memory layouts and key patterns shared by the harnesses.
use crate::rt::*;
use ndarray_slice::ndarray::{ArrayView1, ArrayViewMut1, Axis, ShapeBuilder};
use std::cmp::Ordering;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

/// Ordered by `k` alone; `id` tells elements of equal keys apart.
#[derive(Clone, Debug)]
pub struct E {
	pub k: u16,
	pub id: u16,
}
impl PartialEq for E {
	fn eq(&self, o: &E) -> bool { self.k == o.k }
}
impl Eq for E {}
impl PartialOrd for E {
	fn partial_cmp(&self, o: &E) -> Option<Ordering> { Some(self.cmp(o)) }
}
impl Ord for E {
	fn cmp(&self, o: &E) -> Ordering { self.k.cmp(&o.k) }
}
/// An element which owns heap memory: lost, duplicated or torn elements show as leaks, double frees
/// or reads of freed memory.
#[derive(Clone, Debug)]
pub struct D(pub Box<E>);
impl PartialEq for D {
	fn eq(&self, o: &D) -> bool { hook(self, o) == Ordering::Equal }
}
impl Eq for D {}
impl PartialOrd for D {
	fn partial_cmp(&self, o: &D) -> Option<Ordering> { Some(self.cmp(o)) }
}
impl Ord for D {
	fn cmp(&self, o: &D) -> Ordering { hook(self, o) }
}

/// What comparisons and key functions do: 0 what they should, 1 panic at call `PANIC_AT` (2: and at
/// every later one), 3 answer anything for the first `BUDGET` calls.
pub static MODE: AtomicUsize = AtomicUsize::new(0);
pub static PANIC_AT: AtomicUsize = AtomicUsize::new(0);
pub static BUDGET: AtomicUsize = AtomicUsize::new(0);
pub static CALLS: AtomicUsize = AtomicUsize::new(0);
pub static THROWN: AtomicUsize = AtomicUsize::new(0);
pub fn tick() {
	let c = CALLS.fetch_add(1, Relaxed);
	let m = MODE.load(Relaxed);
	if m == 1 || m == 2 {
		let at = PANIC_AT.load(Relaxed);
		if c == at || (m == 2 && c > at) {
			THROWN.store(1, Relaxed);
			throw();
		}
	}
}
pub fn ours(a: &D) -> u16 {
	check((a.0.id as u32) < GUARD_ID, "callbacks see elements of the view only");
	a.0.k
}
pub fn hook(a: &D, b: &D) -> Ordering {
	hook_to(ours(a), ours(b))
}
pub fn hook_to(a: u16, b: u16) -> Ordering {
	tick();
	if MODE.load(Relaxed) == 3 {
		return any_ordering();
	}
	a.cmp(&b)
}
/// Any answer while the budget lasts, then one from a fixed pattern.
pub fn any_ordering() -> Ordering {
	let b = BUDGET.load(Relaxed);
	let x = if b > 0 {
		BUDGET.store(b - 1, Relaxed);
		choose(3)
	} else {
		lcg(param(9), CALLS.load(Relaxed)) % 3
	};
	match x {
		0 => Ordering::Less,
		1 => Ordering::Equal,
		_ => Ordering::Greater,
	}
}
pub fn hook_key(k: u16) -> u16 {
	tick();
	if MODE.load(Relaxed) == 3 {
		let b = BUDGET.load(Relaxed);
		if b > 0 {
			BUDGET.store(b - 1, Relaxed);
			return any(2) as u16;
		}
		return (lcg(param(9), CALLS.load(Relaxed)) % 4) as u16;
	}
	k
}
pub fn calls() -> usize { CALLS.load(Relaxed) }
pub fn reset_hooks() {
	for x in [&MODE, &PANIC_AT, &BUDGET, &CALLS, &THROWN] {
		x.store(0, Relaxed);
	}
}
/// A key which owns memory.
#[derive(PartialEq, Eq, PartialOrd, Ord)]
pub struct KB(pub Box<u16>);

pub trait El: Ord + Send + Sync {
	fn new(k: u16, id: u32) -> Self;
	fn k(&self) -> u16;
	fn id(&self) -> u32;
}
impl El for E {
	fn new(k: u16, id: u32) -> E { E { k, id: id as u16 } }
	fn k(&self) -> u16 { self.k }
	fn id(&self) -> u32 { self.id as u32 }
}
impl El for D {
	fn new(k: u16, id: u32) -> D { D(Box::new(E { k, id: id as u16 })) }
	fn k(&self) -> u16 { self.0.k }
	fn id(&self) -> u32 { self.0.id as u32 }
}
/// For more than 65536 elements.
pub struct W {
	pub k: u16,
	pub id: u32,
}
impl PartialEq for W {
	fn eq(&self, o: &W) -> bool { self.k == o.k }
}
impl Eq for W {}
impl PartialOrd for W {
	fn partial_cmp(&self, o: &W) -> Option<Ordering> { Some(self.cmp(o)) }
}
impl Ord for W {
	fn cmp(&self, o: &W) -> Ordering { self.k.cmp(&o.k) }
}
impl El for W {
	fn new(k: u16, id: u32) -> W { W { k, id } }
	fn k(&self) -> u16 { self.k }
	fn id(&self) -> u32 { self.id }
}

pub const GUARD_KEY: u16 = 0x7bcd;
pub const GUARD_ID: u32 = 0x8000;

/// `n` elements as a one-dimensional view of a larger buffer whose other elements are guards.
///
/// Layouts: 0 contiguous, 1 every second element, 2 contiguous reversed, 3 every third reversed,
/// 4 every fifth element.
pub struct Buf<T> {
	pub v: Vec<T>,
	n: usize,
	step: usize,
	neg: bool,
}
const OFF: usize = 2;
impl<T: El> Buf<T> {
	pub fn new(keys: &[u16], layout: usize) -> Self {
		let n = keys.len();
		let (step, neg) = match layout {
			0 => (1, false),
			1 => (2, false),
			2 => (1, true),
			3 => (3, true),
			_ => (5, false),
		};
		let total = OFF + n * step + 2;
		let mut v = Vec::with_capacity(total);
		for p in 0..total {
			let mut e = None;
			if p >= OFF && (p - OFF) % step == 0 && (p - OFF) / step < n {
				let i = (p - OFF) / step;
				let i = if neg { n - 1 - i } else { i };
				e = Some(T::new(keys[i], i as u32));
			}
			v.push(match e {
				Some(e) => e,
				None => T::new(GUARD_KEY, (GUARD_ID + p as u32) & 0xffff),
			});
		}
		Buf { v, n, step, neg }
	}
	pub fn view(&mut self) -> ArrayViewMut1<'_, T> {
		let mut w = ArrayViewMut1::from_shape((self.n,).strides((self.step,)), &mut self.v[OFF..]).unwrap();
		if self.neg {
			w.invert_axis(Axis(0));
		}
		w
	}
	pub fn ro(&self) -> ArrayView1<'_, T> {
		let mut w = ArrayView1::from_shape((self.n,).strides((self.step,)), &self.v[OFF..]).unwrap();
		if self.neg {
			w.invert_axis(Axis(0));
		}
		w
	}
	fn pos(&self, i: usize) -> usize {
		let i = if self.neg { self.n - 1 - i } else { i };
		OFF + i * self.step
	}
	pub fn at(&self, i: usize) -> &T { &self.v[self.pos(i)] }
	pub fn addr(&self, i: usize) -> *const T { self.at(i) }
	pub fn len(&self) -> usize { self.n }
	/// Elements outside the view are what and where they were.
	pub fn guards(&self) -> bool {
		let mut ok = true;
		for p in 0..self.v.len() {
			let inside = p >= OFF && (p - OFF) % self.step == 0 && (p - OFF) / self.step < self.n;
			if !inside {
				let e = &self.v[p];
				ok &= (e.k() == GUARD_KEY) & (e.id() == (GUARD_ID + p as u32) & 0xffff);
			}
		}
		ok
	}
	/// The view holds exactly the original elements, in whatever order.
	pub fn permutation(&self, keys: &[u16]) -> bool {
		let mut seen = vec![false; self.n];
		let mut ok = true;
		for i in 0..self.n {
			let e = self.at(i);
			let id = e.id() as usize;
			if id >= self.n {
				return false;
			}
			ok &= !seen[id] & (e.k() == keys[id]);
			seen[id] = true;
		}
		ok
	}
	pub fn sorted(&self) -> bool {
		let mut ok = true;
		for i in 1..self.n {
			ok &= self.at(i - 1).k() <= self.at(i).k();
		}
		ok
	}
	/// Sorted by key, ties in order of the original positions.
	pub fn stable(&self) -> bool {
		let mut ok = true;
		for i in 1..self.n {
			let (a, b) = (self.at(i - 1), self.at(i));
			ok &= (a.k() < b.k()) | ((a.k() == b.k()) & (a.id() < b.id()));
		}
		ok
	}
	pub fn observe(&self) {
		for i in 0..self.n {
			observe(self.at(i).id() as u64);
		}
	}
	/// What must hold of the memory whatever the operation: same elements, neighbours untouched.
	pub fn intact(&self, keys: &[u16]) {
		check(self.permutation(keys), "the view holds a permutation of its elements");
		check(self.guards(), "elements outside the view are untouched");
	}
}

/// Base keys of the structured inputs (even numbers, so that symbolic keys fall between them too).
pub fn base_key(pattern: usize, n: usize, i: usize, seed: usize) -> u16 {
	let x = match pattern {
		1 => i,
		2 => n - 1 - i,
		3 => n / 2,
		4 => (i + seed) % 2,
		5 => (i + seed) % 5,
		6 => if i < n / 2 { i } else { n - 1 - i },
		7 => lcg(seed, i) % (n + 1),
		8 => lcg(seed, i) % 4,
		// two ascending runs
		9 => (i * 2) % (n | 1),
		// descending runs of eleven
		10 => (i / 11) * 3 + 10 - i % 11,
		// ascending except for the last few
		11 => if i + 4 < n { i } else { lcg(seed, i) % n },
		// valley
		12 => if i < n / 2 { n - 1 - i } else { i },
		// ascending runs of eleven
		13 => i % 11 + (lcg(seed, i / 11) % 5),
		// ascending with pairs swapped here and there
		14 => if lcg(seed, i / 2) % 6 == 0 { i ^ 1 } else { i },
		// rotated by one
		15 => (i + 1) % n,
		16 => (i + n - 1) % n,
		// ascending or descending runs of a length
		100..10000 => i % pattern,
		10000.. => pattern - i % (pattern - 10000),
		_ => 0,
	};
	(2 * x + 2) as u16
}
pub fn lcg(seed: usize, i: usize) -> usize {
	let mut x = (seed as u32).wrapping_mul(0x9e3779b9).wrapping_add((i as u32).wrapping_mul(0x85ebca6b)).wrapping_add(1);
	x ^= x >> 15;
	x = x.wrapping_mul(0x2c1b3c6d);
	x ^= x >> 12;
	x = x.wrapping_mul(0x297a2d39);
	x ^= x >> 15;
	(x & 0xffff) as usize
}
/// Keys of an input: pattern 0 is `n` arbitrary keys, the others take a structured base and make
/// `nsym` of its keys arbitrary.
pub fn keys(pattern: usize, n: usize, nsym: usize, seed: usize) -> Vec<u16> {
	// wide enough for `n` different keys: every weak order of `n` elements occurs (unless fewer bits
	// are asked for)
	let mut bits = 1;
	while (1 << bits) < n {
		bits += 1;
	}
	if pattern == 0 && nsym != 0 {
		bits = nsym as u32;
	}
	let mut v = Vec::with_capacity(n);
	for i in 0..n {
		v.push(if pattern == 0 { any(bits) as u16 } else { base_key(pattern, n, i, seed) });
	}
	if pattern != 0 && n > 0 {
		for j in 0..nsym {
			let p = if seed % 2 == 0 { (j * n + n / 2) / nsym.max(1) } else { lcg(seed + 77, j) };
			let mut bits = 1;
			while (1 << bits) < 2 * n + 3 {
				bits += 1;
			}
			let k = any(bits);
			v[p % n] = k as u16;
		}
	}
	v
}
