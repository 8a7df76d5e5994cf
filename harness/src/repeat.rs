use crate::data::*;
use crate::rt::*;
use crate::select::*;
use crate::sorts::*;
use ndarray_slice::Slice1Ext;

fn run(op: usize, n: usize, b: &mut Buf<E>) {
	let c = |a: &E, b: &E| a.k.cmp(&b.k);
	let key = |a: &E| a.k;
	match op {
		0..=13 => sort_op(op, &mut b.view(), c, key, key),
		20..=22 => {
			let mut v = b.view();
			nth_op(op - 20, &mut v, n * param(8) / 8, c, key);
		}
		23..=28 => {
			let ix = index_set(n, 1 + param(8), param(9));
			let ix = Idx::new(&ix, 0);
			many_op(op - 23, &mut b.view(), ix.view(), &mut [], c, key);
		}
		29 => drop(b.view().partition_dedup()),
		30 => drop(b.view().partition_dedup_by(|a, b| a.k == b.k)),
		_ => drop(b.view().partition_dedup_by_key(|a| a.k)),
	}
}
/// The same elements in the same order end up in the same order, ties included: at another place in
/// memory, after other calls, and whichever part runs first.
///
/// p = op, n, layout, pattern, nsym, seed, second schedule, budget, index, indices,
/// 1 + layout of the first, if not the same
#[unsafe(no_mangle)]
pub fn h_repeat() {
	let (op, n) = (param(0), param(1));
	let k = keys(param(3), n, param(4), param(5));
	let first = param(10);
	let mut a = Buf::<E>::new(&k, if first > 0 { first - 1 } else { param(2) });
	schedule(0, 0, 0, 0);
	run(op, n, &mut a);
	a.intact(&k);
	// something else in between, and other addresses
	let apart = vec![0u8; 4099];
	let mut other = Buf::<E>::new(&keys(8, 61, 0, 5), 0);
	match op {
		0..=13 => {
			sort_op(op, &mut other.view(), |a, b| a.k.cmp(&b.k), |a| a.k, |a| a.k);
		}
		20..=22 => {
			let mut v = other.view();
			nth_op(op - 20, &mut v, 17, |a, b| a.k.cmp(&b.k), |a| a.k);
		}
		23..=28 => {
			let ix = Idx::new(&[3, 17, 40], 0);
			many_op(op - 23, &mut other.view(), ix.view(), &mut [], |a, b| a.k.cmp(&b.k), |a| a.k);
		}
		_ => drop(other.view().partition_dedup()),
	}
	let mut b = Buf::<E>::new(&k, param(2));
	schedule(param(6), param(7), 0, 0);
	run(op, n, &mut b);
	let mut ok = true;
	for i in 0..n {
		ok &= a.at(i).id == b.at(i).id;
	}
	check(ok, if first > 0 { "the same order whatever the layout" } else { "the same elements end up in the same order when done again" });
	b.intact(&k);
	b.observe();
	check(apart.len() == 4099, "kept");
	cover(1);
	// ties which did not keep their order
	let mut tie = false;
	for i in 1..n {
		tie |= (b.at(i - 1).k == b.at(i).k) & (b.at(i - 1).id > b.at(i).id);
	}
	if n > 20 && tie {
		cover(2);
	}
}
