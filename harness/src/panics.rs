use crate::data::*;
use crate::rt::*;
use crate::select::*;
use crate::sorts::*;
use ndarray_slice::Slice1Ext;
use std::sync::atomic::Ordering::Relaxed;

/// Ops: 0..=13 the sorts, 20..=22 select_nth, 23..=28 select_many, 29..=31 partition_dedup,
/// 32 a collection which panics, 33.. the searches.
fn any_op(op: usize, b: &mut Buf<D>, n: usize) {
	let c = |a: &D, b: &D| hook(a, b);
	let key = |a: &D| hook_key(ours(a));
	match op {
		0..=13 => {
			let ck = |a: &D| {
				let x = KB(Box::new(ours(a)));
				tick();
				x
			};
			sort_op(op, &mut b.view(), c, key, ck)
		}
		20..=22 => {
			let mut v = b.view();
			nth_op(op - 20, &mut v, (n - 1) * param(10) / 8, c, key);
		}
		23..=28 => {
			let ix: Vec<usize> = (0..n.min(48)).filter(|i| param(10) >> i & 1 != 0).collect();
			let ix = Idx::new(&ix, 0);
			many_op(op - 23, &mut b.view(), ix.view(), &mut [], c, key);
		}
		29 => drop(b.view().partition_dedup()),
		30 => drop(b.view().partition_dedup_by(|a, b| hook(a, b).is_eq())),
		31 => drop(b.view().partition_dedup_by_key(|a| {
			tick();
			KB(Box::new(ours(a)))
		})),
		32 => {
			struct Ext(usize);
			impl<'a> Extend<(usize, &'a mut D)> for Ext {
				fn extend<I: IntoIterator<Item = (usize, &'a mut D)>>(&mut self, it: I) {
					for _ in it {
						tick();
						self.0 += 1;
					}
				}
			}
			let ix: Vec<usize> = (0..n.min(48)).filter(|i| param(10) >> i & 1 != 0).collect();
			let ix = Idx::new(&ix, 0);
			let mut e = Ext(0);
			b.view().select_many_nth_unstable_by(&ix.view(), &mut e, |a, b| a.0.k.cmp(&b.0.k));
			check(e.0 == ix.view().len(), "select_many: every element reaches the collection");
		}
		33 => drop(b.view().is_sorted()),
		34 => drop(b.view().binary_search_by(|a| hook_to(ours(a), 3))),
		_ => drop(b.view().contains(&D::new(0, 0))),
	}
}
/// A closure or comparison panics at any call: the panic propagates, the view still holds each of its
/// elements once, nothing is leaked or freed twice.
///
/// p = op, n, layout, pattern, nsym, seed, schedule, budget, quota, keep panicking, index or mask, start,
/// calls, stride (of the calls which may panic; all from the start if 0)
#[unsafe(no_mangle)]
pub fn h_panic() {
	let (op, n) = (param(0), param(1));
	let k = keys(param(3), n, param(4), param(5));
	let at = if param(12) == 0 { any(16) as usize } else { param(11) + choose(param(12)) * param(13) };
	let before = live();
	{
		let mut b = Buf::<D>::new(&k, param(2));
		schedule(param(6), param(7), 0, param(8));
		MODE.store(1 + param(9), Relaxed);
		// p11: the first call at which it may panic
		assume(at >= param(11));
		PANIC_AT.store(at, Relaxed);
		CALLS.store(0, Relaxed);
		let r = catch(|| any_op(op, &mut b, n));
		MODE.store(0, Relaxed);
		let thrown = THROWN.load(Relaxed) != 0;
		check(r.is_some() == !thrown, "a panic in a closure propagates, and nothing else panics");
		check(not_panicking(), "unwinding has ended");
		b.intact(&k);
		if !thrown && op <= 13 {
			check_sorted(op, &b);
		}
		b.observe();
		cover(1 + thrown as u32);
	}
	check(live() == before, "every allocation is freed");
}
/// The comparison answers anything: no memory error, no panic, the call returns, and the view still
/// holds each of its elements once.
///
/// p = op, n, layout, pattern, nsym, seed, schedule, budget, symbolic answers, seed of the others, mask
#[unsafe(no_mangle)]
pub fn h_inconsistent() {
	let (op, n) = (param(0), param(1));
	let k = keys(param(3), n, param(4), param(5));
	let before = live();
	{
		let mut b = Buf::<D>::new(&k, param(2));
		schedule(param(6), param(7), 0, 0);
		MODE.store(3, Relaxed);
		BUDGET.store(param(8), Relaxed);
		CALLS.store(0, Relaxed);
		any_op(op, &mut b, n);
		MODE.store(0, Relaxed);
		b.intact(&k);
		b.observe();
		cover(1);
		if calls() > param(8) {
			cover(2);
		}
	}
	check(live() == before, "every allocation is freed");
}
/// Without any panic or inconsistency: allocations balance and elements keep their heap memory.
#[unsafe(no_mangle)]
pub fn h_owned() {
	let (op, n) = (param(0), param(1));
	let k = keys(param(3), n, param(4), param(5));
	let before = live();
	{
		let mut b = Buf::<D>::new(&k, param(2));
		let addr: Vec<*const E> = (0..n).map(|i| &*b.at(i).0 as *const E).collect();
		schedule(param(6), param(7), 0, param(8));
		let mid = live();
		any_op(op, &mut b, n);
		check(live() == mid, "the call frees what it allocates");
		b.intact(&k);
		let mut ok = true;
		for i in 0..n {
			ok &= &*b.at(i).0 as *const E == addr[b.at(i).id() as usize];
		}
		check(ok, "elements are moved, not copied");
		if op <= 13 {
			check_sorted(op, &b);
		}
		b.observe();
		cover(1);
	}
	check(live() == before, "every allocation is freed");
}
