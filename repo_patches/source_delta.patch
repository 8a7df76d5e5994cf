From 1837530a3ac79d9cfa8200d4146353b63092dcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:54 +0000
Subject: [PATCH 1/2] hook: scale thresholds under cfg(verif_small), start with
 fallbacks under cfg(verif_fallback)

---
 src/insertion_sort.rs     |  6 ++++++
 src/lib.rs                |  3 +++
 src/merge_sort.rs         |  9 +++++++++
 src/par/insertion_sort.rs |  6 ++++++
 src/par/merge_sort.rs     | 12 ++++++++++++
 src/par/partition.rs      | 14 ++++++++++++++
 src/par/quick_sort.rs     |  8 ++++++++
 src/partition.rs          | 11 +++++++++++
 src/quick_sort.rs         |  5 +++++
 9 files changed, 74 insertions(+)

diff --git a/src/insertion_sort.rs b/src/insertion_sort.rs
index c20addd..a74334c 100644
--- a/src/insertion_sort.rs
+++ b/src/insertion_sort.rs
@@ -224,8 +224,14 @@ where
 	F: FnMut(&T, &T) -> bool,
 {
 	// Maximum number of adjacent out-of-order pairs that will get shifted.
+	#[cfg(verif_small)]
+	const MAX_STEPS: usize = 2;
+	#[cfg(not(verif_small))]
 	const MAX_STEPS: usize = 5;
 	// If the slice is shorter than this, don't shift any elements.
+	#[cfg(verif_small)]
+	const SHORTEST_SHIFTING: usize = 4;
+	#[cfg(not(verif_small))]
 	const SHORTEST_SHIFTING: usize = 50;
 
 	let len = v.len();
diff --git a/src/lib.rs b/src/lib.rs
index b5ba6de..23f4ebf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -74,6 +74,9 @@
 	rustdoc::broken_intra_doc_links,
 	rustdoc::missing_crate_level_docs
 )]
+// `verif_small` and `verif_fallback` are only set by external verification builds: they scale the
+// length thresholds down and start with the fallback algorithms, respectively.
+#![allow(unexpected_cfgs)]
 #![cfg_attr(not(feature = "std"), no_std)]
 #![cfg_attr(docsrs, feature(doc_auto_cfg))]
 #![cfg_attr(miri, feature(maybe_uninit_slice))]
diff --git a/src/merge_sort.rs b/src/merge_sort.rs
index 519ad7b..b9690bd 100644
--- a/src/merge_sort.rs
+++ b/src/merge_sort.rs
@@ -221,6 +221,9 @@ pub fn merge_sort<T, CmpF, ElemAllocF, ElemDeallocF, RunAllocF, RunDeallocF>(
 	RunDeallocF: Fn(*mut TimSortRun, usize),
 {
 	// Slices of up to this length get sorted using insertion sort.
+	#[cfg(verif_small)]
+	const MAX_INSERTION: usize = 2;
+	#[cfg(not(verif_small))]
 	const MAX_INSERTION: usize = 20;
 
 	// The caller should have already checked that.
@@ -383,6 +386,9 @@ pub fn merge_sort<T, CmpF, ElemAllocF, ElemDeallocF, RunAllocF, RunDeallocF>(
 	{
 		fn new(run_alloc_fn: RunAllocF, run_dealloc_fn: RunDeallocF) -> Self {
 			// Most slices can be sorted with at most 16 runs in-flight.
+			#[cfg(verif_small)]
+			const START_RUN_CAPACITY: usize = 1;
+			#[cfg(not(verif_small))]
 			const START_RUN_CAPACITY: usize = 16;
 
 			Self {
@@ -516,6 +522,9 @@ where
 
 	// This value is a balance between least comparisons and best performance, as
 	// influenced by for example cache locality.
+	#[cfg(verif_small)]
+	const MIN_INSERTION_RUN: usize = 2;
+	#[cfg(not(verif_small))]
 	const MIN_INSERTION_RUN: usize = 10;
 
 	// Insert some more elements into the run if it's too short. Insertion sort is faster than
diff --git a/src/par/insertion_sort.rs b/src/par/insertion_sort.rs
index 8621032..94149fa 100644
--- a/src/par/insertion_sort.rs
+++ b/src/par/insertion_sort.rs
@@ -191,8 +191,14 @@ where
 	F: Fn(&T, &T) -> bool,
 {
 	// Maximum number of adjacent out-of-order pairs that will get shifted.
+	#[cfg(verif_small)]
+	const MAX_STEPS: usize = 2;
+	#[cfg(not(verif_small))]
 	const MAX_STEPS: usize = 5;
 	// If the slice is shorter than this, don't shift any elements.
+	#[cfg(verif_small)]
+	const SHORTEST_SHIFTING: usize = 4;
+	#[cfg(not(verif_small))]
 	const SHORTEST_SHIFTING: usize = 50;
 
 	let len = v.len();
diff --git a/src/par/merge_sort.rs b/src/par/merge_sort.rs
index 41abc60..9530c11 100644
--- a/src/par/merge_sort.rs
+++ b/src/par/merge_sort.rs
@@ -391,6 +391,9 @@ where
 {
 	unsafe {
 		// Very short runs are extended using insertion sort to span at least this many elements.
+		#[cfg(verif_small)]
+		const MIN_RUN: usize = 2;
+		#[cfg(not(verif_small))]
 		const MIN_RUN: usize = 10;
 
 		let len = v.len();
@@ -550,6 +553,9 @@ unsafe fn par_merge<T, F>(
 	// larger than `CHUNK_LENGTH`, and the reason is that merging is faster than merge sorting, so
 	// merging needs a bit coarser granularity in order to hide the overhead of Rayon's task
 	// scheduling.
+	#[cfg(verif_small)]
+	const MAX_SEQUENTIAL: usize = 3;
+	#[cfg(not(verif_small))]
 	const MAX_SEQUENTIAL: usize = 5000;
 
 	let left_raw = left.raw_view_mut();
@@ -818,9 +824,15 @@ where
 {
 	// Slices of up to this length get sorted using insertion sort in order to avoid the cost of
 	// buffer allocation.
+	#[cfg(verif_small)]
+	const MAX_INSERTION: usize = 2;
+	#[cfg(not(verif_small))]
 	const MAX_INSERTION: usize = 20;
 	// The length of initial chunks. This number is as small as possible but so that the overhead
 	// of Rayon's task scheduling is still negligible.
+	#[cfg(verif_small)]
+	const CHUNK_LENGTH: usize = 2;
+	#[cfg(not(verif_small))]
 	const CHUNK_LENGTH: usize = 2000;
 
 	// Sorting has no meaningful behavior on zero-sized types.
diff --git a/src/par/partition.rs b/src/par/partition.rs
index 5309cce..692d06d 100644
--- a/src/par/partition.rs
+++ b/src/par/partition.rs
@@ -20,6 +20,9 @@ use ndarray::{ArrayView1, ArrayViewMut1, Axis, IndexLonger, s};
 
 // For slices of up to this length it's probably faster to simply sort them.
 // Defined at the module scope because it's used in multiple functions.
+#[cfg(verif_small)]
+const MAX_INSERTION: usize = 2;
+#[cfg(not(verif_small))]
 const MAX_INSERTION: usize = 10;
 
 pub fn par_partition_at_indices<'a, T, F>(
@@ -34,6 +37,9 @@ pub fn par_partition_at_indices<'a, T, F>(
 {
 	// If both partitions are up to this length, we continue sequentially. This number is as small
 	// as possible but so that the overhead of Rayon's task scheduling is still negligible.
+	#[cfg(verif_small)]
+	const MAX_SEQUENTIAL: usize = 1;
+	#[cfg(not(verif_small))]
 	const MAX_SEQUENTIAL: usize = 2000;
 
 	while !indices.is_empty() {
@@ -147,6 +153,8 @@ fn partition_at_index_loop<'a, T, F>(
 	// selections should be relatively rare, so the limit usually shouldn't be reached
 	// anyways.
 	let mut limit = 16;
+	#[cfg(verif_fallback)]
+	let mut limit = limit * 0;
 
 	// True if the last partitioning was reasonably balanced.
 	let mut was_balanced = true;
@@ -506,6 +514,9 @@ where
 	}
 
 	// Number of elements in a typical block.
+	#[cfg(verif_small)]
+	const BLOCK: usize = 2;
+	#[cfg(not(verif_small))]
 	const BLOCK: usize = 128;
 
 	// The partitioning algorithm repeats the following steps until completion:
@@ -785,6 +796,9 @@ where
 {
 	// Minimum length to choose the median-of-medians method.
 	// Shorter slices use the simple median-of-three method.
+	#[cfg(verif_small)]
+	const SHORTEST_MEDIAN_OF_MEDIANS: usize = 8;
+	#[cfg(not(verif_small))]
 	const SHORTEST_MEDIAN_OF_MEDIANS: usize = 50;
 	// Maximum number of swaps that can be performed in this function.
 	const MAX_SWAPS: usize = 4 * 3;
diff --git a/src/par/quick_sort.rs b/src/par/quick_sort.rs
index 7f897a5..34cb129 100644
--- a/src/par/quick_sort.rs
+++ b/src/par/quick_sort.rs
@@ -27,6 +27,8 @@ where
 
 	// Limit the number of imbalanced partitions to `floor(log2(len)) + 1`.
 	let limit = usize::BITS - v.len().leading_zeros();
+	#[cfg(verif_fallback)]
+	let limit = limit * 0;
 
 	recurse(v, &is_less, None, limit);
 }
@@ -47,9 +49,15 @@ fn recurse<'a, T, F>(
 	F: Fn(&T, &T) -> bool + Sync,
 {
 	// Slices of up to this length get sorted using insertion sort.
+	#[cfg(verif_small)]
+	const MAX_INSERTION: usize = 2;
+	#[cfg(not(verif_small))]
 	const MAX_INSERTION: usize = 20;
 	// If both partitions are up to this length, we continue sequentially. This number is as small
 	// as possible but so that the overhead of Rayon's task scheduling is still negligible.
+	#[cfg(verif_small)]
+	const MAX_SEQUENTIAL: usize = 2;
+	#[cfg(not(verif_small))]
 	const MAX_SEQUENTIAL: usize = 2000;
 
 	// True if the last partitioning was reasonably balanced.
diff --git a/src/partition.rs b/src/partition.rs
index 5b9a689..70715ad 100644
--- a/src/partition.rs
+++ b/src/partition.rs
@@ -15,6 +15,9 @@ use ndarray::{ArrayView1, ArrayViewMut1, Axis, IndexLonger, s};
 
 // For slices of up to this length it's probably faster to simply sort them.
 // Defined at the module scope because it's used in multiple functions.
+#[cfg(verif_small)]
+const MAX_INSERTION: usize = 2;
+#[cfg(not(verif_small))]
 const MAX_INSERTION: usize = 10;
 
 pub fn partition_at_indices<'a, T, E, F>(
@@ -108,6 +111,8 @@ fn partition_at_index_loop<'a, T, F>(
 	// selections should be relatively rare, so the limit usually shouldn't be reached
 	// anyways.
 	let mut limit = 16;
+	#[cfg(verif_fallback)]
+	let mut limit = limit * 0;
 
 	// True if the last partitioning was reasonably balanced.
 	let mut was_balanced = true;
@@ -480,6 +485,9 @@ where
 	}
 
 	// Number of elements in a typical block.
+	#[cfg(verif_small)]
+	const BLOCK: usize = 2;
+	#[cfg(not(verif_small))]
 	const BLOCK: usize = 128;
 
 	// The partitioning algorithm repeats the following steps until completion:
@@ -848,6 +856,9 @@ where
 {
 	// Minimum length to choose the median-of-medians method.
 	// Shorter slices use the simple median-of-three method.
+	#[cfg(verif_small)]
+	const SHORTEST_MEDIAN_OF_MEDIANS: usize = 8;
+	#[cfg(not(verif_small))]
 	const SHORTEST_MEDIAN_OF_MEDIANS: usize = 50;
 	// Maximum number of swaps that can be performed in this function.
 	const MAX_SWAPS: usize = 4 * 3;
diff --git a/src/quick_sort.rs b/src/quick_sort.rs
index a5c3971..4dd0238 100644
--- a/src/quick_sort.rs
+++ b/src/quick_sort.rs
@@ -24,6 +24,8 @@ where
 
 	// Limit the number of imbalanced partitions to `floor(log2(len)) + 1`.
 	let limit = usize::BITS - v.len().leading_zeros();
+	#[cfg(verif_fallback)]
+	let limit = limit * 0;
 
 	recurse(v, &mut is_less, None, limit);
 }
@@ -43,6 +45,9 @@ fn recurse<'a, T, F>(
 	F: FnMut(&T, &T) -> bool,
 {
 	// Slices of up to this length get sorted using insertion sort.
+	#[cfg(verif_small)]
+	const MAX_INSERTION: usize = 2;
+	#[cfg(not(verif_small))]
 	const MAX_INSERTION: usize = 20;
 
 	// True if the last partitioning was reasonably balanced.
-- 
2.43.0


From 7fae0a9cab7db2df108b7f252341575dcad7b125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:58 +0000
Subject: [PATCH 2/2] fix: select_nth fallback no longer selects from an empty
 slice

With 11 elements left median_of_ninthers has no ninther (11 / 12 = 0) and passed an empty slice to
median_of_medians, whose debug assertion k < v.len() then failed. Adversarial but consistent orders
reach this through every select_nth_unstable* and select_many_nth_unstable* method.
---
 src/par/partition.rs | 4 +++-
 src/partition.rs     | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/par/partition.rs b/src/par/partition.rs
index 692d06d..6a1f49c 100644
--- a/src/par/partition.rs
+++ b/src/par/partition.rs
@@ -240,7 +240,9 @@ fn median_of_medians<T, F: Fn(&T, &T) -> bool>(
 
 	// We now know that `k < v.len() <= isize::MAX`
 	loop {
-		if v.len() <= MAX_INSERTION {
+		// `median_of_ninthers` needs at least one ninther, which takes 12 elements. With less it would
+		// select from an empty slice.
+		if v.len() <= MAX_INSERTION || v.len() < 12 {
 			if v.len() > 1 {
 				insertion_sort_shift_left(v.view_mut(), 1, is_less);
 			}
diff --git a/src/partition.rs b/src/partition.rs
index 70715ad..e874105 100644
--- a/src/partition.rs
+++ b/src/partition.rs
@@ -198,7 +198,9 @@ fn median_of_medians<T, F: FnMut(&T, &T) -> bool>(
 
 	// We now know that `k < v.len() <= isize::MAX`
 	loop {
-		if v.len() <= MAX_INSERTION {
+		// `median_of_ninthers` needs at least one ninther, which takes 12 elements. With less it would
+		// select from an empty slice.
+		if v.len() <= MAX_INSERTION || v.len() < 12 {
 			if v.len() > 1 {
 				insertion_sort_shift_left(v.view_mut(), 1, is_less);
 			}
-- 
2.43.0

