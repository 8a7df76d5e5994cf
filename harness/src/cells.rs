use crate::data::*;
use crate::rt::*;
use crate::select::*;
use crate::sorts::*;
use ndarray_slice::Slice1Ext;
use std::cell::Cell;
use std::cmp::Ordering;
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};

/// Comparing two elements changes both: it counts in either (in a cell and, now and then, in a box
/// of the element's own which it replaces) and, to know how often it did, elsewhere.
pub struct M {
	k: u16,
	id: u16,
	hits: Cell<u32>,
	own: Cell<Option<Box<u32>>>,
}
// The harness's own comparisons and counts are all which goes by `&M`; whether the parts which run at
// the same time ever look at the same element is what the executor checks.
unsafe impl Sync for M {}
const MOST: usize = 8192;
static COUNT: [AtomicU32; MOST] = [const { AtomicU32::new(0) }; MOST];
impl M {
	fn hit(&self) {
		let h = self.hits.get() + 1;
		self.hits.set(h);
		if h & 3 == 1 {
			self.own.set(Some(Box::new(h)));
		}
		if (self.id as usize) < MOST {
			COUNT[self.id as usize].fetch_add(1, Relaxed);
		}
	}
	/// As often as it was told.
	fn kept(&self, n: u32) -> bool {
		let own = self.own.take();
		let ok = match &own {
			None => n == 0,
			Some(x) => n != 0 && **x == (n - 1) / 4 * 4 + 1,
		};
		self.own.set(own);
		ok && self.hits.get() == n
	}
}
fn both(a: &M, b: &M) -> Ordering {
	a.hit();
	b.hit();
	// what comes before a panic counts as well
	tick();
	a.k.cmp(&b.k)
}
impl PartialEq for M {
	fn eq(&self, o: &M) -> bool { both(self, o).is_eq() }
}
impl Eq for M {}
impl PartialOrd for M {
	fn partial_cmp(&self, o: &M) -> Option<Ordering> { Some(self.cmp(o)) }
}
impl Ord for M {
	fn cmp(&self, o: &M) -> Ordering { both(self, o) }
}
impl El for M {
	fn new(k: u16, id: u32) -> M { M { k, id: id as u16, hits: Cell::new(0), own: Cell::new(None) } }
	fn k(&self) -> u16 { self.k }
	fn id(&self) -> u32 { self.id as u32 }
}
fn run(op: usize, n: usize, b: &mut Buf<M>) {
	let key = |a: &M| {
		a.hit();
		tick();
		a.k
	};
	match op {
		0..=13 => sort_op(op, &mut b.view(), both, key, key),
		20..=22 => {
			let mut v = b.view();
			nth_op(op - 20, &mut v, (n - 1) * param(8) / 8, both, key);
		}
		23..=28 => {
			let ix = index_set(n, 1 + param(8), param(9));
			let ix = Idx::new(&ix, 0);
			many_op(op - 23, &mut b.view(), ix.view(), &mut [], both, key);
		}
		29 => drop(b.view().partition_dedup()),
		30 => drop(b.view().partition_dedup_by(|a, b| {
			// more than by way of a cell
			*a.hits.get_mut() += 1;
			*b.hits.get_mut() += 1;
			COUNT[a.id as usize].fetch_add(1, Relaxed);
			COUNT[b.id as usize].fetch_add(1, Relaxed);
			for x in [&mut *a, &mut *b] {
				let h = x.hits.get();
				if h & 3 == 1 {
					*x.own.get_mut() = Some(Box::new(h));
				}
			}
			tick();
			a.k == b.k
		})),
		31 => drop(b.view().partition_dedup_by_key(|a| {
			a.hit();
			tick();
			a.k
		})),
		32 => drop(b.view().is_sorted()),
		_ => drop(b.view().binary_search_by(|a| {
			a.hit();
			tick();
			a.k.cmp(&5)
		})),
	}
}
/// Whatever comparisons and key functions change in an element stays in that element, also where
/// one of them panics.
///
/// p = op, n, layout, pattern, nsym, seed, schedule, budget, index, indices, may panic from which call
/// (0: never), calls which may panic, stride
#[unsafe(no_mangle)]
pub fn h_cells() {
	let (op, n) = (param(0), param(1));
	for c in &COUNT[..n] {
		c.store(0, Relaxed);
	}
	let k = keys(param(3), n, param(4), param(5));
	let before = live();
	let panics = param(10) != 0;
	let at = if panics { param(10) - 1 + choose(param(11)) * param(12) } else { 0 };
	{
		let mut b = Buf::<M>::new(&k, param(2));
		schedule(param(6), param(7), 0, 0);
		MODE.store(panics as usize, Relaxed);
		PANIC_AT.store(at, Relaxed);
		CALLS.store(0, Relaxed);
		let r = catch(|| run(op, n, &mut b));
		MODE.store(0, Relaxed);
		let thrown = THROWN.load(Relaxed) != 0;
		check(r.is_some() == !thrown, "a panic in a closure propagates, and nothing else panics");
		// what the checks below compare are keys and numbers
		b.intact(&k);
		if !thrown && op <= 13 {
			check_sorted(op, &b);
		}
		let (mut ok, mut any) = (true, false);
		for i in 0..n {
			let e = b.at(i);
			let c = COUNT[e.id as usize].load(Relaxed);
			ok &= e.kept(c);
			any |= c != 0;
		}
		check(ok, "changes the comparison made to an element are kept");
		if n > 1 && !panics {
			check(any, "the comparison is called");
		}
		b.observe();
		cover(1 + thrown as u32);
	}
	check(live() == before, "every allocation is freed");
}
