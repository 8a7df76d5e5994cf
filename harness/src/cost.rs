use crate::data::*;
use crate::rt::*;
use crate::select::*;
use crate::sorts::*;
use std::cmp::Ordering;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

fn log2(n: usize) -> usize { (usize::BITS - n.leading_zeros()) as usize }

/// Number of comparisons of an operation, as a multiple of what is allowed.
///
/// p = op, n, layout, pattern, nsym, seed, bound kind, factor, add, index/indices
#[cfg(feature = "m_cost")]
#[unsafe(no_mangle)]
pub fn h_cost() {
	let (op, n) = (param(0), param(1));
	let (k, mut b) = input::<N>();
	schedule(0, 0, 0, 0);
	CALLS.store(0, Relaxed);
	KEYS.store(0, Relaxed);
	let c = |a: &N, b: &N| a.cmp(b);
	run(op, n, &mut b, c);
	b.intact(&k);
	limit(n);
	cover(1);
}
static KEYS: AtomicUsize = AtomicUsize::new(0);
/// Counts its comparisons.
#[derive(PartialEq, Eq)]
pub struct N(E);
impl PartialOrd for N {
	fn partial_cmp(&self, o: &N) -> Option<Ordering> { Some(self.cmp(o)) }
}
impl Ord for N {
	fn cmp(&self, o: &N) -> Ordering {
		CALLS.fetch_add(1, Relaxed);
		#[cfg(feature = "m_depth")]
		dive();
		self.0.k.cmp(&o.0.k)
	}
}
impl El for N {
	fn new(k: u16, id: u32) -> N { N(El::new(k, id)) }
	fn k(&self) -> u16 { self.0.k }
	fn id(&self) -> u32 { self.0.id() }
}
fn limit(n: usize) {
	let bound = match param(6) {
		0 => n * param(7),
		1 => n * log2(n) * param(7),
		_ => n * (1 + log2(param(10))) * param(7),
	} + param(8);
	let calls = calls() + KEYS.load(Relaxed) / 2;
	observe(calls as u64);
	check(calls > 0, "comparisons are counted");
	check(calls <= bound, "number of comparisons within the stated bound");
}
fn run<T: El>(op: usize, n: usize, b: &mut Buf<T>, c: impl Fn(&T, &T) -> Ordering + Sync) {
	// two key calls make a comparison
	let key = |a: &T| {
		KEYS.fetch_add(1, Relaxed);
		a.k()
	};
	if op < 20 {
		sort_op(op, &mut b.view(), c, key, key);
		check_sorted(op, b);
	} else if op < 23 {
		let i = param(9);
		let mut v = b.view();
		nth_op(op - 20, &mut v, i, c, key);
		drop(v);
		check(separated(b, i), "select_nth: the element is at its final sorted position");
	} else {
		let ix = index_set(n, 1, param(10));
		let ix = Idx::new(&ix, 0);
		many_op(op - 23, &mut b.view(), ix.view(), &mut [], c, key);
	}
}
/// McIlroy's adversary: decides the order while the algorithm runs so as to make pivots bad, but
/// consistently. The solver chooses freely what it does in its first `p12` decisions.
static VAL: [AtomicUsize; 2048] = [const { AtomicUsize::new(0) }; 2048];
static SOLID: AtomicUsize = AtomicUsize::new(0);
static CAND: AtomicUsize = AtomicUsize::new(0);
static FREE: AtomicUsize = AtomicUsize::new(0);
const GAS: usize = 60000;
pub fn adversary(x: usize, y: usize) -> Ordering {
	CALLS.fetch_add(1, Relaxed);
	let (vx, vy) = (VAL[x].load(Relaxed), VAL[y].load(Relaxed));
	if x == y {
		return Ordering::Equal;
	}
	if vx == GAS && vy == GAS {
		let mut first = x == CAND.load(Relaxed);
		let f = FREE.load(Relaxed);
		if f > 0 {
			FREE.store(f - 1, Relaxed);
			first = any_bool();
		}
		let s = SOLID.fetch_add(1, Relaxed);
		if first {
			VAL[x].store(s, Relaxed);
		} else {
			VAL[y].store(s, Relaxed);
		}
	}
	let (vx, vy) = (VAL[x].load(Relaxed), VAL[y].load(Relaxed));
	if vx == GAS {
		CAND.store(x, Relaxed);
	} else if vy == GAS {
		CAND.store(y, Relaxed);
	}
	vx.cmp(&vy)
}
/// p as above, p12 = free decisions
#[cfg(feature = "m_cost")]
#[unsafe(no_mangle)]
pub fn h_adversary() {
	let (op, n) = (param(0), param(1));
	for x in &VAL {
		x.store(GAS, Relaxed);
	}
	SOLID.store(0, Relaxed);
	CAND.store(0, Relaxed);
	FREE.store(param(12), Relaxed);
	CALLS.store(0, Relaxed);
	KEYS.store(0, Relaxed);
	let k: Vec<u16> = (0..n).map(|i| i as u16).collect();
	let mut b = Buf::<E>::new(&k, param(2));
	schedule(0, 0, 0, 0);
	let c = |a: &E, b: &E| adversary(a.id as usize, b.id as usize);
	if op < 20 {
		sort_op(op, &mut b.view(), c, |a| a.k, |a| a.k);
	} else if op < 23 {
		let mut v = b.view();
		nth_op(op - 20, &mut v, param(9), c, |a| a.k);
	} else {
		let ix = index_set(n, 1, param(10));
		let ix = Idx::new(&ix, 0);
		many_op(op - 23, &mut b.view(), ix.view(), &mut [], c, |a| a.k);
	}
	limit(n);
	b.intact(&k);
	// elements never frozen compare equal to each other and above all others
	let val = |i: usize| VAL[b.at(i).id as usize].load(Relaxed);
	let mut ok = true;
	if op < 20 {
		for i in 1..n {
			ok &= val(i - 1) <= val(i);
		}
		check(ok, "sorted by the adversary's order");
	} else if op < 23 {
		let i = param(9);
		for j in 0..n {
			ok &= if j < i { val(j) <= val(i) } else { val(i) <= val(j) };
		}
		check(ok, "selected by the adversary's order");
	}
	cover(1);
}
static DEEP: AtomicUsize = AtomicUsize::new(0);
fn dive() { DEEP.fetch_max(depth(), Relaxed); }
/// How deep the calls are nested when the comparison is called.
///
/// p = op, n, layout, pattern, nsym, seed, schedule, budget, -, index, indices, adversary, free decisions
#[cfg(feature = "m_depth")]
#[unsafe(no_mangle)]
pub fn h_depth() {
	let (op, n) = (param(0), param(1));
	let base = depth();
	DEEP.store(0, Relaxed);
	for x in &VAL {
		x.store(GAS, Relaxed);
	}
	SOLID.store(0, Relaxed);
	CAND.store(0, Relaxed);
	FREE.store(param(12), Relaxed);
	let against = param(11) != 0;
	let k = if against { (0..n).map(|i| i as u16).collect() } else { keys(param(3), n, param(4), param(5)) };
	let mut b = Buf::<N>::new(&k, param(2));
	schedule(param(6), param(7), 0, 0);
	let c = |a: &N, b: &N| {
		dive();
		if against { adversary(a.0.id as usize, b.0.id as usize) } else { a.k().cmp(&b.k()) }
	};
	let key = |a: &N| {
		dive();
		a.k()
	};
	if op < 20 {
		sort_op(op, &mut b.view(), c, key, key);
	} else if op < 23 {
		let mut v = b.view();
		nth_op(op - 20, &mut v, param(9), c, key);
	} else {
		let ix = index_set(n, 1, param(10));
		let ix = Idx::new(&ix, 0);
		many_op(op - 23, &mut b.view(), ix.view(), &mut [], c, key);
	}
	b.intact(&k);
	let deep = DEEP.load(Relaxed);
	check(deep > 0, "the comparison is called");
	let deep = deep.saturating_sub(base);
	check(deep <= 24 + 6 * log2(n), "calls nested logarithmically deep");
	cover(1);
}
/// Unstable sorts, selections, deduplication and searches do not allocate, the stable sort allocates
/// room for half of the elements at most plus bookkeeping, all of it freed.
///
/// p = op, n, layout, pattern, nsym, seed
#[cfg(feature = "m_space")]
#[unsafe(no_mangle)]
pub fn h_space() {
	use ndarray_slice::Slice1Ext;
	let (op, n) = (param(0), param(1));
	let (k, mut b) = input::<S40>();
	let (c0, b0, l0) = (allocs(), alloc_bytes(), live());
	let c = |a: &S40, b: &S40| a.k().cmp(&b.k());
	let key = |a: &S40| a.k();
	match op {
		0..=13 => sort_op(op, &mut b.view(), c, key, key),
		20..=22 => {
			let mut v = b.view();
			nth_op(op - 20, &mut v, n / 2, c, key);
		}
		30 => drop(b.view().partition_dedup()),
		31 => drop(b.view().binary_search(&S40::new(5, 0))),
		32 => b.view().reverse(),
		33 => drop(b.view().partition_dedup_by_key(|a| a.k())),
		34 => drop(b.ro().is_sorted_by(|a, b| a.k() <= b.k())),
		35 => drop(b.ro().contains(&S40::new(5, 0))),
		_ => drop(b.ro().partition_point(|a| a.k() < 5)),
	}
	let (dc, db) = (allocs() - c0, alloc_bytes() - b0);
	check(live() == l0, "every allocation of the call is freed");
	// what it takes to hand tasks to other threads
	let tasks = if cfg!(verif_small) { 512 * (n + 1) } else { 1024 + n };
	let few = 2048 + 4 * n;
	if op >= 3 && op <= 5 {
		// half of the elements; runs (16 bytes each, doubling, logarithmically many) on top
		check(db <= (n / 2 * 40 + few) as u64, "stable sort: memory for half of the elements");
		cover(2 + (dc > 0) as u32);
	} else if op >= 7 && op <= 9 {
		// the elements; runs and chunks on top
		check(db <= (n * 40 + few + tasks) as u64, "parallel stable sort: memory for the elements");
		cover(2 + (dc > 0) as u32);
	} else if op == 6 {
		check(db <= 16 * n as u64, "cached keys: memory for a key and an index each");
	} else if op == 10 {
		// collected from pieces which grow
		check(db <= (4 * 16 * n + 1024) as u64, "cached keys in parallel: memory for keys and indices");
	} else if op >= 11 && op <= 13 {
		check(db <= tasks as u64, "in parallel and in place: no memory for elements");
	} else {
		check(dc == 0, "in place: no allocation");
	}
	b.intact(&k);
	cover(1);
}
/// Instructions executed by an operation, whatever they do (comparisons are counted by `h_cost`).
///
/// p = op, n, layout, pattern, nsym, seed, bound kind, factor, -, index, indices, adversary, free decisions
#[cfg(feature = "m_work")]
#[unsafe(no_mangle)]
pub fn h_work() {
	use ndarray_slice::Slice1Ext;
	let (op, n) = (param(0), param(1));
	for x in &VAL {
		x.store(GAS, Relaxed);
	}
	SOLID.store(0, Relaxed);
	CAND.store(0, Relaxed);
	FREE.store(param(12), Relaxed);
	let against = param(11) != 0;
	let k = if against { (0..n).map(|i| i as u16).collect() } else { keys(param(3), n, param(4), param(5)) };
	let mut b = Buf::<E>::new(&k, param(2));
	schedule(0, 0, 0, 0);
	let ix = index_set(n, 1, param(10));
	let ix = Idx::new(&ix, 0);
	let c = |a: &E, b: &E| if against { adversary(a.id as usize, b.id as usize) } else { a.k.cmp(&b.k) };
	let key = |a: &E| a.k;
	let from = work();
	match op {
		0..20 => sort_op(op, &mut b.view(), c, key, key),
		20..23 => {
			let mut v = b.view();
			nth_op(op - 20, &mut v, param(9), c, key);
		}
		23..29 => drop(many_op(op - 23, &mut b.view(), ix.view(), &mut [], c, key)),
		29 => drop(b.view().partition_dedup()),
		30 => drop(b.view().partition_dedup_by(|a, b| a.k == b.k)),
		31 => b.view().reverse(),
		32 => drop(b.ro().is_sorted()),
		33 => drop(b.ro().is_sorted_by_key(key)),
		34 => drop(b.ro().contains(&E { k: param(9) as u16, id: 0 })),
		35 => drop(b.ro().binary_search(&E { k: param(9) as u16, id: 0 })),
		_ => drop(b.ro().partition_point(|a| a.k < param(9) as u16)),
	}
	let work = work() - from;
	let bound = match param(6) {
		0 => n,
		1 => n * log2(n),
		2 => n * (1 + log2(param(10))),
		_ => log2(n),
	} * param(7) + 2000;
	if param(8) != 0 {
		observe(work / (bound as u64 / param(7) as u64));
	}
	check(work <= bound as u64, "amount of work within the stated bound");
	b.intact(&k);
	cover(1);
}
