use crate::data::*;
use crate::rt::*;
use crate::select::*;
use crate::sorts::*;
use ndarray_slice::ndarray::Array1;

/// The outcome is the same whichever order the tasks run in.
///
/// p = op, n, layout, pattern, nsym, seed, schedule, budget, quota, migrate
#[unsafe(no_mangle)]
pub fn h_schedules() {
	let (op, n) = (param(0), param(1));
	let k = keys(param(3), n, param(4), param(5));
	let mut a = Buf::<E>::new(&k, param(2));
	let mut b = Buf::<E>::new(&k, param(2));
	let run = |b: &mut Buf<E>| {
		if op < 20 {
			sort_op(op, &mut b.view(), |a, b| a.k.cmp(&b.k), |a| a.k, |a| a.k);
		} else {
			let ix = index_set(n, 1 + param(5), param(10));
			let ix = Array1::from(ix);
			let out = many_op(op - 20, &mut b.view(), ix.view(), &mut [], |a, b| a.k.cmp(&b.k), |a| a.k);
			let mut ok = out.len() == ix.len();
			for (j, &i) in ix.iter().enumerate() {
				ok &= out[j].1 == b.addr(i);
				ok &= separated(b, i);
			}
			check(ok, "bulk selection under this schedule");
		}
	};
	schedule(0, 0, 0, 0);
	run(&mut a);
	schedule(param(6), param(7), param(9), param(8));
	run(&mut b);
	let mut ok = true;
	if op < 20 {
		for i in 0..n {
			ok &= if is_stable(op) { a.at(i).id == b.at(i).id } else { a.at(i).k == b.at(i).k };
		}
	}
	check(ok, "the outcome does not depend on the schedule");
	a.intact(&k);
	b.intact(&k);
	if op < 20 {
		check_sorted(op, &b);
	}
	if n <= 64 {
		b.observe();
	}
	cover(1);
	if rayon_core::verif::JOINS.load(std::sync::atomic::Ordering::Relaxed) >= 2 {
		cover(2);
	}
}
