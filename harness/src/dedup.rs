use crate::data::*;
use crate::rt::*;
use crate::sorts::input;
use ndarray_slice::Slice1Ext;
use ndarray_slice::ndarray::ArrayView1;

/// p = op, n, layout, pattern, nsym, seed
#[unsafe(no_mangle)]
pub fn h_dedup() {
	let op = param(0);
	let (k, mut b) = input::<E>();
	let n = k.len();
	// any relation for op 3: asked for the element read and the last one kept
	let mut rel = vec![vec![None; n]; if op == 3 { n } else { 0 }];
	let addr: Vec<*const E> = (0..n).map(|j| b.addr(j)).collect();
	let (kept, rest);
	{
		let mut v = b.view();
		let (d, r) = match op {
			0 => v.partition_dedup(),
			1 => v.partition_dedup_by(|a, b| a.k == b.k),
			2 => v.partition_dedup_by_key(|a| a.k),
			3 => v.partition_dedup_by(|a, b| {
				let x = any_bool();
				check(rel[a.id as usize][b.id as usize].is_none(), "partition_dedup_by: each pair at most once");
				rel[a.id as usize][b.id as usize] = Some(x);
				x
			}),
			// arguments come in opposite order: true moves `a`
			_ => v.partition_dedup_by(|a, b| a.k < b.k),
		};
		kept = d.len();
		rest = r.len();
		check(kept + rest == n, "partition_dedup: both parts make up the array");
		let mut ok = true;
		for j in 0..kept {
			ok &= &d[j] as *const E == addr[j];
		}
		for j in 0..rest {
			ok &= &r[j] as *const E == addr[kept + j];
		}
		check(ok, "partition_dedup: the parts are those of the array, in place");
	}
	// reference: the first element of each run, in order
	let mut want: Vec<usize> = Vec::with_capacity(n);
	for i in 0..n {
		let same = match want.last() {
			None => false,
			Some(&l) => match op {
				0 | 1 | 2 => k[i] == k[l],
				3 => match rel[i][l] {
					Some(x) => x,
					None => fail("partition_dedup_by: an element was not compared with the last one kept"),
				},
				_ => k[i] < k[l],
			},
		};
		if !same {
			want.push(i);
		}
	}
	check(want.len() == kept, "partition_dedup: as many elements kept as there are runs");
	let mut ok = true;
	for (j, w) in want.iter().enumerate() {
		ok &= b.at(j).id as usize == *w;
	}
	check(ok, "partition_dedup: keeps the first element of each run, in order");
	b.intact(&k);
	b.observe();
	observe(kept as u64);
	cover(1);
	if rest > 0 {
		cover(2);
	}
}
/// p = least length, bound of the length, layout, fixed contents?; length, contents and the positions looked at are
/// symbolic.
#[unsafe(no_mangle)]
pub fn h_reverse() {
	let n = any(16) as usize;
	assume((param(0) <= n) & (n < param(1)));
	// (one path per length)
	let n = unsafe { verif_concretize(n as u64) } as usize;
	let k: Vec<u16> = (0..n).map(|i| if param(3) != 0 { i as u16 } else { any(16) as u16 }).collect();
	let mut b = Buf::<E>::new(&k, param(2));
	b.view().reverse();
	let at = if param(3) != 0 { n / 2 } else { any(16) as usize };
	let (mut ok, mut x, mut y) = (true, 0, 0);
	for i in 0..n {
		ok &= (b.at(i).k == k[n - 1 - i]) & (b.at(i).id as usize == n - 1 - i);
		// (branchless)
		x |= if i == at { b.at(i).id as usize + 1 } else { 0 };
		y |= if i == at { n - at } else { 0 };
	}
	check(ok, "reverse: the elements in opposite order");
	check(x == y, "reverse: at any position the element of the opposite one");
	check(b.guards(), "elements outside the view are untouched");
	observe(n as u64);
	b.observe();
	b.view().reverse();
	let mut ok = true;
	for i in 0..n {
		ok &= (b.at(i).id as usize == i) & (b.at(i).k == k[i]);
	}
	check(ok, "reverse: twice is the identity");
	cover(1);
}
/// Long arrays where one place differs from all others.
///
/// p = op, n, layout, base and bits of the place
#[unsafe(no_mangle)]
pub fn h_scan() {
	let n = param(1);
	let at = param(3) as u32 + any(param(4) as u32) as u32;
	assume((at as usize) < n);
	// in order but for place `at` and the one before
	#[derive(PartialEq)]
	struct F(u32, u32);
	impl PartialOrd for F {
		fn partial_cmp(&self, o: &F) -> Option<std::cmp::Ordering> {
			Some(if o.0 == o.1 && self.0 < o.0 { std::cmp::Ordering::Greater } else { self.0.cmp(&o.0) })
		}
	}
	let k = vec![0; n];
	let mut b = Buf::<W>::new(&k, param(2));
	match param(0) {
		0 => {
			let got = b.ro().is_sorted_by(|_, b| b.id != at);
			check(got == (at == 0), "is_sorted_by: one pair out of order");
			cover(1 + got as u32);
		}
		1 => {
			let got = b.ro().is_sorted_by_key(|a| F(a.id, at));
			check(got == (at == 0), "is_sorted_by_key: one pair out of order");
			cover(1 + got as u32);
		}
		2 => {
			// sought by identity
			#[derive(Debug)]
			struct I(u32);
			impl PartialEq for I {
				fn eq(&self, o: &I) -> bool { self.0 == o.0 }
			}
			let v: Vec<I> = (0..n as u32).map(I).collect();
			let v = ArrayView1::from(&v[..]);
			check(v.contains(&I(at)), "contains: at any place");
			cover(2);
			if param(3) == 0 {
				check(!v.contains(&I(n as u32 + at)), "contains: nothing else");
			}
		}
		3 => {
			let (kept, rest) = {
				let mut v = b.view();
				let (d, r) = v.partition_dedup_by(|a, b| {
					check(a.id != b.id, "partition_dedup_by: two elements");
					a.id == at
				});
				(d.len(), r.len())
			};
			let less = (at > 0) as usize;
			check(kept == n - less && rest == less, "partition_dedup: one element of all is moved out");
			let mut ok = true;
			for i in 0..n - less {
				let j = i + ((at > 0) & (i as u32 >= at)) as usize;
				ok &= b.at(i).id == j as u32;
			}
			check(ok, "partition_dedup: keeps all others in order");
			cover(2);
		}
		_ => {
			// one is kept, and the place where another run begins
			let (kept, rest) = {
				let mut v = b.view();
				let (d, r) = v.partition_dedup_by_key(|a| a.id >= at);
				(d.len(), r.len())
			};
			let more = (at > 0) as usize;
			check(kept == 1 + more && rest == n - kept, "partition_dedup: two runs");
			check(b.at(0).id == 0 && (more == 0 || b.at(1).id == at), "partition_dedup: keeps the first element of each run, in order");
			cover(2);
		}
	}
	check(b.guards(), "elements outside the view are untouched");
	if param(0) > 2 {
		let mut seen = vec![false; n];
		for i in 0..n {
			seen[b.at(i).id as usize] = true;
		}
		check(!seen.contains(&false), "the view holds a permutation of its elements");
	}
	cover(1);
}
