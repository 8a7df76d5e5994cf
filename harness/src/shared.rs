use crate::data::*;
use crate::rt::*;
use crate::sorts::is_stable;
use ndarray_slice::Slice1Ext;
use ndarray_slice::ndarray::{Array1, Array2, ArrayBase, CowArray, DataMut, Ix1, arr1, s};

fn mutate<S: DataMut<Elem = E>>(op: usize, a: &mut ArrayBase<S, Ix1>) {
	match op {
		0 => a.sort_unstable(),
		1 => a.sort_unstable_by_key(|a| a.k),
		2 => a.sort(),
		3 => a.sort_by_cached_key(|a| a.k),
		4 => a.par_sort(),
		5 => a.par_sort_unstable(),
		6 => a.par_sort_by_cached_key(|a| a.k),
		7 => a.reverse(),
		8 => {
			a.partition_dedup();
		}
		9 => {
			a.select_nth_unstable(1);
		}
		10 => {
			let mut c = Vec::new();
			a.select_many_nth_unstable(&arr1(&[0, 2]), &mut c);
		}
		_ => {
			let mut c = Vec::new();
			a.par_select_many_nth_unstable(&arr1(&[0, 2]), &mut c);
		}
	}
}
fn stable_op(op: usize) -> bool { matches!(op, 2 | 3 | 4 | 6) }
fn verify(op: usize, k: &[u16], get: impl Fn(usize) -> E) {
	let n = k.len();
	let mut seen = vec![false; n];
	let mut ok = true;
	for i in 0..n {
		let e = get(i);
		let id = e.id as usize;
		if id >= n {
			fail("not an element of the array");
		}
		ok &= !seen[id] & (e.k == k[id]);
		seen[id] = true;
		if i > 0 {
			let p = get(i - 1);
			if op <= 6 {
				ok &= p.k <= e.k;
			}
			if stable_op(op) {
				ok &= (p.k != e.k) | (p.id < e.id);
			}
			if op == 7 {
				ok &= p.id == e.id + 1;
			}
		}
	}
	check(ok, "the owner which was changed holds the outcome");
}
/// Owners which share their storage: only the one operated on changes.
///
/// p = op, n, kind
#[unsafe(no_mangle)]
pub fn h_shared() {
	let (op, n) = (param(0), param(1));
	let k = keys(0, n, 0, 0);
	let mk = || Array1::from_shape_fn(n, |i| E { k: k[i], id: i as u16 });
	let same = |get: &dyn Fn(usize) -> E| {
		let mut ok = true;
		for i in 0..n {
			ok &= (get(i).id as usize == i) & (get(i).k == k[i]);
		}
		check(ok, "other owners of the storage are untouched");
	};
	match param(2) {
		0 => {
			let mut a = mk().into_shared();
			let b = a.clone();
			mutate(op, &mut a);
			same(&|i| b[i].clone());
			verify(op, &k, |i| a[i].clone());
		}
		1 => {
			let b = mk();
			{
				let mut a = CowArray::from(b.view());
				mutate(op, &mut a);
				verify(op, &k, |i| a[i].clone());
			}
			same(&|i| b[i].clone());
		}
		2 => {
			// a shared array which is a reversed slice of its storage
			let whole = mk().into_shared();
			let mut a = whole.clone();
			a.slice_collapse(s![..;-1]);
			mutate(op, &mut a);
			same(&|i| whole[i].clone());
			let kr: Vec<u16> = k.iter().rev().cloned().collect();
			verify(if op == 7 { 99 } else { op }, &kr, |i| E { k: a[i].k, id: n as u16 - 1 - a[i].id });
		}
		3 => {
			// columns and rows of a matrix
			let mut m = Array2::from_shape_fn((n, 3), |(i, j)| E { k: if j == 1 { k[i] } else { 7 }, id: (i + 100 * j) as u16 });
			mutate(op, &mut m.column_mut(1));
			verify(op, &k, |i| E { k: m[[i, 1]].k, id: m[[i, 1]].id - 100 });
			let mut ok = true;
			for i in 0..n {
				for j in [0, 2] {
					ok &= (m[[i, j]].id as usize == i + 100 * j) & (m[[i, j]].k == 7);
				}
			}
			check(ok, "other columns are untouched");
		}
		4 => {
			let mut m = Array2::from_shape_fn((3, n), |(j, i)| E { k: if j == 1 { k[i] } else { 7 }, id: (i + 100 * j) as u16 });
			mutate(op, &mut m.row_mut(1));
			verify(op, &k, |i| E { k: m[[1, i]].k, id: m[[1, i]].id - 100 });
			let mut ok = true;
			for i in 0..n {
				for j in [0, 2] {
					ok &= (m[[j, i]].id as usize == i + 100 * j) & (m[[j, i]].k == 7);
				}
			}
			check(ok, "other rows are untouched");
		}
		_ => {
			// owned, the diagonal of a matrix
			let mut m = Array2::from_shape_fn((n, n), |(i, j)| E { k: if i == j { k[i] } else { 7 }, id: if i == j { i as u16 } else { (1000 + i * n + j) as u16 } });
			mutate(op, &mut m.diag_mut());
			verify(op, &k, |i| m[[i, i]].clone());
			let mut ok = true;
			for i in 0..n {
				for j in 0..n {
					if i != j {
						ok &= (m[[i, j]].id as usize == 1000 + i * n + j) & (m[[i, j]].k == 7);
					}
				}
			}
			check(ok, "elements off the diagonal are untouched");
		}
	}
	let _ = is_stable(0);
	cover(1);
}
