use crate::data::*;
use crate::rt::*;
use crate::sorts::*;
use ndarray_slice::Slice1Ext;
use ndarray_slice::ndarray::{Array1, ArrayView1, ArrayViewMut1, Axis, ShapeBuilder};
use std::sync::atomic::Ordering::Relaxed;

pub type Triple<'a, T> = (ArrayViewMut1<'a, T>, &'a mut T, ArrayViewMut1<'a, T>);
pub fn nth_op<'a, T: El>(
	op: usize,
	v: &'a mut ArrayViewMut1<'_, T>,
	i: usize,
	c: impl Fn(&T, &T) -> std::cmp::Ordering,
	key: impl Fn(&T) -> u16,
) -> Triple<'a, T> {
	match op {
		#[cfg(feature = "nth")]
		0 => v.select_nth_unstable(i),
		#[cfg(feature = "nth")]
		1 => v.select_nth_unstable_by(i, c),
		#[cfg(feature = "nth")]
		2 => v.select_nth_unstable_by_key(i, key),
		_ => fail("operation not compiled in"),
	}
}
/// Element `i` of the view separates the smaller from the greater ones.
pub fn separated<T: El>(b: &Buf<T>, i: usize) -> bool {
	let x = b.at(i).k();
	let mut ok = true;
	for j in 0..i {
		ok &= b.at(j).k() <= x;
	}
	for j in i + 1..b.len() {
		ok &= x <= b.at(j).k();
	}
	ok
}
#[cfg(feature = "m_select")]
fn nth<T: El>() {
	let (op, n) = (param(0), param(1));
	let (k, mut b) = input::<T>();
	let i = match param(6) {
		0 => choose(n),
		x => x - 1,
	};
	let addr: Vec<*const T> = (0..n).map(|j| b.addr(j)).collect();
	{
		let mut v = b.view();
		let (l, x, r) = nth_op(op, &mut v, i, |a, b| a.k().cmp(&b.k()), |a| a.k());
		check(l.len() == i && r.len() == n - 1 - i, "select_nth: lengths of the parts");
		let mut ok = x as *const T == addr[i];
		for j in 0..l.len() {
			ok &= &l[j] as *const T == addr[j];
		}
		for j in 0..r.len() {
			ok &= &r[j] as *const T == addr[i + 1 + j];
		}
		check(ok, "select_nth: the parts are those of the array, in place");
	}
	b.intact(&k);
	check(separated(&b, i), "select_nth: the element is at its final sorted position");
	observe(b.at(i).k() as u64);
	b.observe();
	cover(1);
}
/// p = op, n, layout, pattern, nsym, seed, index + 1 (0: any)
#[cfg(feature = "m_select")]
#[unsafe(no_mangle)]
pub fn h_nth() { nth::<E>() }
#[cfg(feature = "sizes")]
#[cfg(feature = "m_select")]
#[unsafe(no_mangle)]
pub fn h_nth_40() { nth::<S40>() }

/// Any index: the call panics exactly when it is out of bounds.
#[cfg(feature = "m_select")]
#[unsafe(no_mangle)]
pub fn h_nth_bounds() {
	let (op, n) = (param(0), param(1));
	let (k, mut b) = input::<E>();
	let i = any(64) as usize;
	let r = catch(|| {
		let mut v = b.view();
		let (l, _, r) = nth_op(op, &mut v, i, |a, b| a.k.cmp(&b.k), |a| a.k);
		(l.len(), r.len())
	});
	match r {
		Some((l, r)) => {
			check(i < n, "select_nth: an index out of bounds panics");
			check(l == i && l + r + 1 == n, "select_nth: lengths of the parts");
			cover(1);
		}
		None => {
			check(i >= n, "select_nth: no panic for an index in bounds");
			cover(2);
		}
	}
	b.intact(&k);
}

/// An array of indices in the layout asked for.
pub struct Idx {
	v: Vec<usize>,
	n: usize,
	step: usize,
	neg: bool,
}
impl Idx {
	pub fn new(x: &[usize], layout: usize) -> Idx {
		let (step, neg) = [(1, false), (2, false), (1, true)][layout];
		let n = x.len();
		let mut v = vec![999; n * step + 1];
		for (i, x) in x.iter().enumerate() {
			v[if neg { n - 1 - i } else { i } * step] = *x;
		}
		Idx { v, n, step, neg }
	}
	pub fn view(&self) -> ArrayView1<'_, usize> {
		let mut w = ArrayView1::from_shape((self.n,).strides((self.step,)), &self.v[..]).unwrap();
		if self.neg {
			w.invert_axis(Axis(0));
		}
		w
	}
}
/// Any strictly increasing indices below `n` (mask 0) or those of the mask.
pub fn index_set(n: usize, mask: usize, m: usize) -> Vec<usize> {
	let mut x = Vec::with_capacity(n);
	if mask == 0 {
		let bits = any(n as u32) as usize;
		let bits = unsafe { verif_concretize(bits as u64) } as usize;
		for i in 0..n {
			if bits >> i & 1 != 0 {
				x.push(i);
			}
		}
	} else {
		// `m` indices spread by the mask
		for j in 0..m {
			x.push((j * n / m + mask) % n);
		}
		for i in 1..x.len() {
			let mut j = i;
			while j > 0 && x[j - 1] > x[j] {
				x.swap(j - 1, j);
				j -= 1;
			}
		}
	}
	x
}
/// Runs a bulk selection; what was collected as (index, address), indices being implied in parallel.
pub fn many_op<T: El>(
	op: usize,
	v: &mut ArrayViewMut1<'_, T>,
	ix: ArrayView1<'_, usize>,
	prefill: &mut [T],
	c: impl Fn(&T, &T) -> std::cmp::Ordering + Sync,
	key: impl Fn(&T) -> u16 + Sync,
) -> Vec<(usize, *const T)> {
	let ix = &ix;
	let mut out = Vec::new();
	if op < 3 {
		let mut col: Vec<(usize, &mut T)> = Vec::new();
		for x in prefill {
			col.push((777, x));
		}
		match op {
			#[cfg(feature = "many")]
			0 => v.select_many_nth_unstable(ix, &mut col),
			#[cfg(feature = "many")]
			1 => v.select_many_nth_unstable_by(ix, &mut col, c),
			#[cfg(feature = "many")]
			2 => v.select_many_nth_unstable_by_key(ix, &mut col, key),
			_ => fail("operation not compiled in"),
		}
		for (i, x) in col {
			out.push((i, x as *const T));
		}
	} else {
		let mut col: Vec<&mut T> = Vec::new();
		let p = prefill.len();
		for x in prefill {
			col.push(x);
		}
		match op {
			#[cfg(feature = "pmany")]
			3 => v.par_select_many_nth_unstable(ix, &mut col),
			#[cfg(feature = "pmany")]
			4 => v.par_select_many_nth_unstable_by(ix, &mut col, c),
			#[cfg(feature = "pmany")]
			5 => v.par_select_many_nth_unstable_by_key(ix, &mut col, key),
			_ => fail("operation not compiled in"),
		}
		for (j, x) in col.into_iter().enumerate() {
			out.push((if j < p { 777 } else if j - p < ix.len() { ix[j - p] } else { 888 }, x as *const T));
		}
	}
	out
}
/// p = op, n, layout, pattern, nsym, seed, mask, m, index layout, prefilled, schedule, budget
#[cfg(feature = "m_select")]
#[unsafe(no_mangle)]
pub fn h_many() {
	let (op, n) = (param(0), param(1));
	let (k, mut b) = input::<E>();
	let ix = index_set(n, param(6), param(7));
	let idx = Idx::new(&ix, param(8));
	schedule(param(10), param(11), 0, 0);
	let p = param(9);
	let mut pre: Vec<E> = (0..p).map(|i| E { k: 5, id: 900 + i as u16 }).collect();
	let pre_addr: Vec<*const E> = (0..p).map(|i| &pre[i] as *const E).collect();
	let addr: Vec<*const E> = (0..n).map(|j| b.addr(j)).collect();
	let out = many_op(op, &mut b.view(), idx.view(), &mut pre, |a, b| a.k.cmp(&b.k), |a| a.k);
	check(out.len() == p + ix.len(), "select_many: one element collected per index");
	let mut ok = true;
	for j in 0..p {
		ok &= out[j].0 == 777 && out[j].1 == pre_addr[j];
	}
	check(ok, "select_many: what the collection held stays in front");
	let mut ok = true;
	for j in 0..ix.len() {
		ok &= out[p + j].0 == ix[j] && out[p + j].1 == addr[ix[j]];
	}
	check(ok, "select_many: collects the elements at the indices, in their order");
	b.intact(&k);
	for &i in &ix {
		check(separated(&b, i), "select_many: each selected element is at its final sorted position");
	}
	for &i in &ix {
		observe(b.at(i).k() as u64);
	}
	b.observe();
	cover(1);
	if ix.len() >= 3 {
		cover(2);
	}
}
/// Arbitrary indices: the call panics exactly when they are not strictly increasing or not in bounds.
///
/// p = op, n, layout, pattern, nsym, seed, m
#[cfg(feature = "m_select")]
#[unsafe(no_mangle)]
pub fn h_many_bounds() {
	let (op, n, m) = (param(0), param(1), param(6));
	let (k, mut b) = input::<E>();
	let mut ix = Vec::new();
	let mut valid = true;
	for j in 0..m {
		let x = any(64) as usize;
		valid &= x < n;
		if j > 0 {
			valid &= ix[j - 1] < x;
		}
		ix.push(x);
	}
	let idx = Idx::new(&ix, 0);
	let r = catch(|| many_op(op, &mut b.view(), idx.view(), &mut [], |a, b| a.k.cmp(&b.k), |a| a.k).len());
	match r {
		Some(l) => {
			check(valid, "select_many: invalid indices panic");
			check(l == m, "select_many: one element collected per index");
			cover(1);
		}
		None => {
			check(!valid, "select_many: no panic for valid indices");
			cover(2);
		}
	}
	b.intact(&k);
	let _ = CALLS.load(Relaxed);
}
/// A parallel and a sequential bulk selection agree.
#[cfg(feature = "m_select")]
#[unsafe(no_mangle)]
pub fn h_many_agree() {
	let n = param(1);
	let k = keys(param(3), n, param(4), param(5));
	let mut a = Buf::<E>::new(&k, param(2));
	let mut b = Buf::<E>::new(&k, 0);
	let ix = index_set(n, param(6), param(7));
	let idx = Array1::from(ix.clone());
	schedule(param(10), param(11), 0, 0);
	many_op(param(0), &mut a.view(), idx.view(), &mut [], |a, b| a.k.cmp(&b.k), |a| a.k);
	many_op(param(0) % 3, &mut b.view(), idx.view(), &mut [], |a, b| a.k.cmp(&b.k), |a| a.k);
	let mut ok = true;
	for &i in &ix {
		ok &= a.at(i).k == b.at(i).k;
	}
	check(ok, "parallel and sequential bulk selection agree");
	cover(1);
}
