"""Writes properties.jsonl (dev helper; the result is committed)."""
import json, os

L = "src/lib.rs"
U = ["src/lib.rs", "src/quick_sort.rs", "src/partition.rs", "src/insertion_sort.rs", "src/heap_sort.rs"]
S = ["src/lib.rs", "src/stable_sort.rs", "src/merge_sort.rs", "src/insertion_sort.rs"]
PS = ["src/lib.rs", "src/par/merge_sort.rs", "src/par/insertion_sort.rs"]
PU = ["src/lib.rs", "src/par/quick_sort.rs", "src/par/partition.rs", "src/par/insertion_sort.rs", "src/par/heap_sort.rs"]


def m(*xs):
    return [dict(name=a, where=b) for a, b in xs]


P = []


def p(id, title, statement, over, text, why, files, mech, observe, hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=mech, observe_at=observe, hook_needed=hook)))


p("C01", "Unstable sorting sorts",
  "After sort_unstable, sort_unstable_by or sort_unstable_by_key with a total order, the view holds exactly the elements it held before, in non-decreasing order. This holds for every length, memory layout, element size and initial arrangement.",
  ["inputs"], "all element values and arrangements, lengths, strides (also negative), element sizes, orders",
  "The tests sort random arrays of a few lengths; a wrong index in a partition block, a small-sort merge or the pivot choice shows only for particular arrangements and lengths.",
  U, m(("quicksort with pattern-breaking, insertion sort for short pieces", "src/quick_sort.rs quick_sort, recurse"), ("branchless block partition", "src/partition.rs partition, partition_in_blocks, partition_equal"), ("pivot choice and run detection", "src/partition.rs choose_pivot; src/insertion_sort.rs partial_insertion_sort")),
  ["contents of the view after the call"], "cfg(verif_small): the same code with its length thresholds scaled down")

p("C02", "Stable sorting sorts and keeps ties in order",
  "After sort, sort_by or sort_by_key with a total order, the view holds exactly the elements it held before, in non-decreasing order, and elements that compare equal are in their original relative order. This holds for every length, layout, element size and arrangement.",
  ["inputs"], "all element values and arrangements, lengths, strides, element sizes, orders",
  "Stability among equal elements and the merging of runs depend on where runs begin, end and how long they are; tests sample random data with few run shapes.",
  S, m(("run detection, run stack, merging with a buffer of half the length", "src/merge_sort.rs merge_sort, find_streak, provide_sorted_batch, collapse, merge"), ("insertion of short runs", "src/insertion_sort.rs insertion_sort_shift_left, insertion_sort_shift_right")),
  ["contents of the view after the call"], "cfg(verif_small)")

p("C03", "Sorting by cached keys sorts stably and computes each key once",
  "sort_by_cached_key and par_sort_by_cached_key sort by the keys the function returns, keep elements with equal keys in their original order and call the key function at most once per element. This holds for every length, also where the internal index type changes (8, 16, 32 bits), and every key type.",
  ["inputs", "schedules"], "all keys and arrangements, lengths across the index type boundaries, key sizes, layouts, orders in which parallel parts run",
  "The index type is chosen by the length and the sizes of key and index, and wraps silently if chosen too small; the tests use short arrays and one key type.",
  [L], m(("choice of the index type", "src/lib.rs sort_by_cached_key, par_sort_by_cached_key"), ("in-place permutation by cycles", "src/lib.rs sort_by_cached_key (the while index < i loop)")),
  ["contents of the view", "number of calls of the key function"], "cfg(verif_small)")

p("C04", "Parallel stable sorting sorts and keeps ties in order",
  "After par_sort, par_sort_by or par_sort_by_key with a total order, the view holds exactly its former elements in non-decreasing order with ties in their original order, whatever the order in which parallel parts run.",
  ["inputs", "schedules"], "all element values and arrangements, lengths, layouts, schedules of the parallel parts",
  "Chunking, run merging across chunks and parallel merge splits depend on lengths above several thousand and on the data; the tests sort random data only.",
  PS, m(("chunk sorting, run recursion, parallel merge with split by binary search", "src/par/merge_sort.rs par_merge_sort, recurse, par_merge, split_for_merge"),),
  ["contents of the view after the call"], "cfg(verif_small): chunk and merge limits scaled down")

p("C05", "Parallel unstable sorting sorts",
  "After par_sort_unstable, par_sort_unstable_by or par_sort_unstable_by_key with a total order, the view holds exactly its former elements in non-decreasing order, whatever the order in which parallel parts run.",
  ["inputs", "schedules"], "all element values and arrangements, lengths, layouts, schedules",
  "Both sides of a partition are handed to different tasks only for long inputs of certain shapes; the tests sort random data.",
  PU, m(("parallel recursion over both sides of a partition", "src/par/quick_sort.rs par_quick_sort, recurse"), ("block partition", "src/par/partition.rs partition_in_blocks")),
  ["contents of the view after the call"], "cfg(verif_small)")

p("C06", "Selection puts the element of a rank in place and splits around it",
  "select_nth_unstable* with an index in bounds returns the element that sorting would place there, everything before it not greater and everything after it not less, the three parts being exactly the former elements in place; with an index out of bounds it panics and loses no element.",
  ["inputs"], "all arrangements, lengths, every index, layouts, element sizes, orders",
  "Selection takes special paths for the first and last index, for equal elements and for short rests; tests sample a few arrays and indices.",
  ["src/lib.rs", "src/partition.rs"], m(("quickselect loop, extremes by one scan", "src/partition.rs partition_at_index, partition_at_index_loop"),),
  ["returned parts and contents of the view", "panic"], "cfg(verif_small)")

p("C07", "Bulk selection puts every index in place and returns them in order",
  "select_many_nth_unstable* with strictly ascending indices in bounds places at each of these indices the element that sorting would place there, with the parts between them separated accordingly, and writes to the collection references to these elements in the order of the indices. Indices out of bounds, out of order or repeated make it panic, without losing an element.",
  ["inputs"], "all arrangements, lengths, all sets of indices, layouts of both arrays, sizes of the collection",
  "The recursion splits both the data and the indices and re-bases the latter; which branches are taken depends on the index set.",
  ["src/lib.rs", "src/partition.rs"], m(("recursion over the middle index", "src/partition.rs partition_at_indices, inner_partition_at_indices"), ("assertions on indices", "src/lib.rs select_many_nth_unstable*")),
  ["collection and contents of the view", "panic"], "cfg(verif_small)")

p("C08", "Parallel bulk selection does what sequential bulk selection does",
  "par_select_many_nth_unstable* with strictly ascending indices in bounds places at each index the element that sorting would place there and fills the collection in the order of the indices, whatever the order in which parallel parts run; indices out of bounds, out of order or repeated make it panic, without losing an element.",
  ["inputs", "schedules"], "all arrangements, lengths, sets of indices, layouts, schedules",
  "Data, indices and result slots are split among tasks with re-based indices; the tests check random arrays with no control of the schedule.",
  ["src/lib.rs", "src/par/partition.rs"], m(("parallel recursion over the middle index", "src/par/partition.rs par_partition_at_indices, inner_par_partition_at_indices"),),
  ["collection and contents of the view", "panic"], "cfg(verif_small)")

p("C09", "Worst-case fallbacks give the same results",
  "Sorting and selection results are correct also for inputs that exhaust the allowance of unbalanced partitions, where the implementation switches to heap sort or to median-of-medians selection.",
  ["inputs"], "all arrangements handed to the fallbacks, lengths, every index, layouts",
  "No existing test reaches the fallbacks: it takes an adversarial input of sufficient length for each.",
  ["src/heap_sort.rs", "src/par/heap_sort.rs", "src/partition.rs", "src/par/partition.rs", "src/quick_sort.rs", "src/par/quick_sort.rs"],
  m(("heap sort", "src/heap_sort.rs, src/par/heap_sort.rs heap_sort"), ("median of medians, ninthers, tukey ninther", "src/partition.rs median_of_medians, median_of_ninthers, ninther"), ("limit of bad pivots", "src/quick_sort.rs recurse; src/partition.rs partition_at_index_loop")),
  ["contents of the view after the call"], "cfg(verif_fallback): the allowance starts at zero; cfg(verif_small)")

p("C10", "A panic in a callback loses or duplicates no element (sequential)",
  "If a comparison or key function panics at any call of a sequential operation, the panic reaches the caller and the view still holds every element exactly once, owned memory intact, elements outside the view untouched.",
  ["crash_points", "inputs"], "every call at which the callback may panic, all arrangements, lengths, layouts, operations",
  "Guards that restore holes must be correct at every single comparison site; tests panic at few random points of random inputs, and only for some operations.",
  sorted(set(U + S + ["src/partition_dedup.rs"])), m(("holes filled on drop", "src/insertion_sort.rs InsertionHole; src/merge_sort.rs MergeHole"), ("gap closing on drop", "src/partition_dedup.rs; src/stable_sort.rs"), ("pivot written back on drop", "src/partition.rs partition, partition_equal")),
  ["multiset of the view after unwinding", "allocations"], "cfg(verif_small)")

p("C11", "A panic in a callback loses or duplicates no element (parallel)",
  "If a comparison or key function panics at any call, in any task, of a parallel operation, the panic reaches the caller after all tasks have ended and the view still holds every element exactly once, owned memory intact.",
  ["crash_points", "schedules", "inputs"], "every call that may panic (and all later ones), schedules, arrangements, lengths, layouts",
  "The state at a panic in one task depends on how far others are; tests panic at few random points under the scheduler of the day.",
  sorted(set(PU + PS)), m(("holes filled on drop, buffers copied back", "src/par/merge_sort.rs MergeHole, CopyOnDrop; src/par/insertion_sort.rs InsertionHole"),),
  ["multiset of the view after unwinding", "allocations"], "cfg(verif_small)")

p("C12", "Inconsistent orders are safe",
  "If the comparison is no total order, answering in any way whatsoever, every sorting and selecting operation still returns without a panic, stays in bounds and leaves every element in the view exactly once.",
  ["inputs", "fault_sequences"], "any answers of the comparison at the first calls (bound), then fixed ones; lengths, layouts, operations",
  "Scans that rely on sentinels run out of bounds only under particular lies; tests use a few random comparators.",
  sorted(set(U + S + PU + PS)), m(("bounded scans", "src/partition.rs partition, partition_in_blocks"), ("bounded merges", "src/merge_sort.rs merge")),
  ["multiset of the view", "memory accesses"], "cfg(verif_small), cfg(verif_fallback)")

p("C13", "Results do not depend on memory layout and neighbours stay untouched",
  "Every operation works on exactly the elements of the view, whatever its stride and direction, with the outcome, ties included, it has for a contiguous view: elements of the parent array outside the view keep their values and are not shown to any callback, and elements owning memory are moved without loss or duplication.",
  ["inputs", "configurations"], "strides (positive, negative, larger than one), all arrangements, operations, lengths",
  "An access that takes the elements as contiguous is right for most test arrays; each of the hundreds of accesses must be right for each stride.",
  sorted(set(U + S + PU + PS + ["src/partition_dedup.rs"])), m(("pointer arithmetic in units of the stride", "src/partition.rs, src/merge_sort.rs, src/insertion_sort.rs, src/par/*"),),
  ["parent array after the call"], "cfg(verif_small)")

p("C14", "Binary search finds what is there and where it belongs",
  "binary_search* on a sorted view returns Ok with the index of a match if there is one, and otherwise Err with the index where inserting keeps the order; partition_point returns the index of the first element of the second part. Both take logarithmically many calls, stay in bounds for any comparator and handle empty and broadcast views.",
  ["inputs"], "all sorted arrays, sought values, splits, lengths, strides, arbitrary comparators",
  "Off-by-one errors show for particular lengths and positions only; tests use one or two fixed arrays.",
  [L], m(("bisection", "src/lib.rs binary_search_by, partition_point"),),
  ["returned index", "number of calls"])

p("C15", "Deduplication keeps the first element of each run",
  "partition_dedup* returns first the elements that differ from the last one kept, in order, and second all others, both in place and together the whole view; the relation is asked for consecutive elements against the last one kept.",
  ["inputs"], "all arrangements, arbitrary relations, lengths, layouts",
  "The read and write positions diverge in data-dependent ways; tests use fixed arrays.",
  ["src/lib.rs", "src/partition_dedup.rs"], m(("read and write positions", "src/partition_dedup.rs partition_dedup"),),
  ["returned parts", "contents of the view"])

p("C16", "is_sorted and contains tell the truth",
  "is_sorted* return true exactly if every neighbouring pair is in order, incomparable pairs counting as unsorted, for views of any length including empty ones; contains returns true exactly if some element equals the value.",
  ["inputs"], "all contents, relations, lengths, strides, broadcast views",
  "Tests use a few fixed arrays; incomparable elements and pair order matter only in special contents.",
  ["src/lib.rs", "src/partition.rs"], m(("neighbour scan", "src/partition.rs is_sorted; src/lib.rs is_sorted*"), ("linear search", "src/lib.rs contains")),
  ["returned boolean"])

p("C17", "Reverse reverses",
  "reverse puts the elements of the view in opposite order in place, for every length and layout, and touches nothing else; reversing twice is the identity.",
  ["inputs"], "all contents, lengths, strides",
  "Lengths at the edge of unrolled or odd halves and non-contiguous layouts are not sampled.",
  ["src/lib.rs", "src/partition.rs"], m(("swap of both halves", "src/partition.rs reverse"),),
  ["contents of the view"])

p("C18", "Zero-sized elements are handled",
  "Operations on views of zero-sized elements end, stay in bounds, return parts of the right lengths, ask callbacks as documented and neither lose nor drop elements; sorting (other than by cached keys) and selecting does not even compare them.",
  ["inputs", "configurations"], "lengths, strides, arbitrary answers of callbacks",
  "Pointer differences and block sizes are degenerate for zero-sized types; few tests use them.",
  sorted(set(U + S + PU + PS + ["src/partition_dedup.rs"])), m(("early return for zero-sized types", "src/quick_sort.rs, src/merge_sort.rs, src/par/*"),),
  ["returned values", "drops"], "cfg(verif_small)")

p("C19", "Parallel operations are free of data races and independent of the schedule",
  "No two tasks of a parallel operation that may run at the same time access the same memory unless both only read, and the result of a stable or key-determined operation is the same for every order of the tasks and every number of threads.",
  ["schedules", "inputs"], "orders of the two halves of joins, migration, thread counts, arrangements",
  "Overlapping pieces go unnoticed unless the scheduler happens to interleave; tests have no control of it.",
  sorted(set(PU + PS)), m(("disjoint halves handed to join", "src/par/quick_sort.rs recurse; src/par/merge_sort.rs recurse, par_merge; src/par/partition.rs inner_par_partition_at_indices"),),
  ["accesses of concurrent tasks", "contents of the view"], "cfg(verif_small)")

p("C20", "Comparison counts stay within the documented complexity",
  "Sorting takes O(n log n) comparisons also in the worst case and O(n) for sorted and reversed input, selection O(n), bulk selection of m indices O(n log m), also against inputs constructed adaptively to defeat pivot choice.",
  ["inputs"], "input patterns, symbolic elements, adaptive adversaries, lengths",
  "Nothing in the tests counts comparisons; a lost fallback or balance check keeps results right.",
  sorted(set(U + S)), m(("limit of bad pivots and fallback", "src/quick_sort.rs recurse; src/partition.rs partition_at_index_loop"), ("pattern breaking, partial insertion sort", "src/partition.rs break_patterns; src/insertion_sort.rs partial_insertion_sort"), ("run stack invariant", "src/merge_sort.rs collapse")),
  ["number of calls of the comparison"], "cfg(verif_fallback) not used here: the original limits")

p("C21", "Shared storage is never written through one of its owners",
  "A mutating operation on a copy-on-write or reference-counted array changes that array only: other owners keep their elements and order, borrowed data stay as they were, and the outcome is that of an owned array.",
  ["inputs", "configurations"], "kinds of storage (owned, view, copy-on-write borrowed and owned, reference-counted unique and shared), operations, contents",
  "Tests use owned arrays and plain views only; writing through a raw pointer before making storage unique would go unnoticed.",
  [L], m(("mutable views taken through DataMut", "src/lib.rs (view_mut of every mutating method)"),),
  ["other owners' elements"])

p("C22", "In-place operations do not allocate and the others no more than they need",
  "Unstable sorting, selection, deduplication, searching and reversing allocate nothing; stable sorting allocates room for at most half of the elements plus bookkeeping (in parallel for all of them), sorting by cached keys a key and an index per element (in parallel a small multiple), and all of it is freed.",
  ["inputs"], "arrangements, lengths, layouts",
  "No test observes allocation.",
  sorted(set(U + S + PU + PS)), m(("buffer of half the length", "src/merge_sort.rs BufGuard; src/stable_sort.rs"), ("buffer and chunks", "src/par/merge_sort.rs par_merge_sort"), ("keys and indices", "src/lib.rs sort_by_cached_key, par_sort_by_cached_key")),
  ["allocations during the call"], "cfg(verif_small)")

p("C23", "Every feature set offers operations which behave alike",
  "Whichever of the features alloc, std, stacker and rayon are enabled, the operations the set offers hold to the same contracts: sorted or selected results, ties in order where promised, panics which propagate and lose nothing; with stacker it makes no difference whether and when a recursion is moved to a new stack.",
  ["configurations", "inputs"], "feature sets, inputs, panicking calls, when the stack is found too short",
  "The tests run with one feature set at a time on a stack which never is too short, so code compiled only in another set, or on the path which grows the stack, is not run.",
  ["src/lib.rs", "Cargo.toml"], m(("recursion by way of maybe_grow", "src/lib.rs maybe_grow; src/quick_sort.rs recurse; src/partition.rs"), ("conditional compilation", "src/lib.rs cfg(feature)")),
  ["contents of the view after the call, panics"], "cfg(verif_small)")

p("C24", "Calls nest logarithmically deep",
  "No operation nests its calls deeper than in proportion to the logarithm of the length, whatever the input and however many indices are asked for, so that long arrays do not exhaust the stack, also without the stacker feature.",
  ["inputs", "schedules"], "input patterns, symbolic elements, adaptive adversaries, lengths, index sets",
  "A recursion into the longer part still gives right results; the tests' arrays are too short to exhaust the stack.",
  sorted(set(U + S + PS + PU)), m(("recursion into the shorter part, loop for the longer", "src/quick_sort.rs recurse; src/par/quick_sort.rs recurse"), ("bulk selection splits at the middle index", "src/partition.rs partition_at_indices; src/par/partition.rs"), ("parallel merges split in halves", "src/par/merge_sort.rs recurse, par_merge")),
  ["depth of the calls when the comparison is called"], "cfg(verif_fallback)")

p("C25", "Operations are deterministic",
  "Doing an operation again with the same elements in the same order leaves them in the same order, ties of unstable operations included: it depends neither on addresses nor on what was called before, nor, for parallel operations with the same number of threads, on which task runs first.",
  ["inputs", "histories", "schedules"], "inputs with ties, earlier calls, addresses, orders of tasks",
  "The documentation promises a fixed seed; the tests compare keys only and never two runs.",
  sorted(set(U + PU)), m(("seed of the pattern breaking", "src/partition.rs break_patterns"), ("independent tasks", "src/par/quick_sort.rs recurse; src/par/partition.rs")),
  ["order of the elements after the call"], "cfg(verif_small)")

p("C26", "Changes a comparison makes to elements are kept",
  "If comparisons or key functions change elements, by interior mutability or, for partition_dedup_by and partition_dedup_by_key, by the mutable reference they get, each change stays with its element: it is not lost, undone or applied to a copy, also when a later call panics; and parallel operations never show an element to two tasks at a time.",
  ["inputs", "fault_sequences", "schedules"], "arrangements, panicking calls, orders of tasks, layouts",
  "Elements which are moved to a temporary and written back from a stale copy look right unless they change meanwhile; the tests' elements never do.",
  sorted(set(U + S + PS + PU)), m(("pivot moved to the stack and written back", "src/partition.rs partition, partition_equal, CopyOnDrop; src/par/partition.rs"), ("insertion hole", "src/insertion_sort.rs InsertionHole; src/par/insertion_sort.rs; src/par/merge_sort.rs")),
  ["elements after the call"], "cfg(verif_small), cfg(verif_fallback)")

p("C27", "The amount of work stays within the documented complexity",
  "Not only comparisons but all that an operation does grows as documented: sorting, by cached keys too, with n log n in the worst case, selection, deduplication, reversing and scanning with n, bulk selection of m indices with n (1 + log m), binary search with log n.",
  ["inputs"], "input patterns, symbolic elements, adaptive adversaries, lengths",
  "Moving elements more often than needed leaves results and comparison counts alone; the tests' arrays are too short for it to be noticed.",
  ["src/lib.rs"] + sorted(set(U + S + PU + PS + ["src/partition_dedup.rs"]) - {"src/lib.rs"}), m(("cycles of the permutation", "src/lib.rs sort_by_cached_key, par_sort_by_cached_key"), ("limit of bad pivots and fallback", "src/quick_sort.rs recurse; src/partition.rs partition_at_index_loop"), ("shifting of elements", "src/insertion_sort.rs; src/heap_sort.rs sift_down")),
  ["instructions executed"], "cfg(verif_fallback)")

p("C28", "Builds without debug assertions behave alike",
  "Compiled as users compile it, without debug assertions and with wrapping arithmetic, every operation does the same as in the builds the tests run in: it sorts, selects, searches, deduplicates and reverses rightly, panics for invalid indices and keeps every element if a callback panics.",
  ["inputs", "configurations", "fault_sequences"], "arrangements, indices, lengths, layouts, panicking calls",
  "The tests run in a build where overflow panics and assertions are evaluated; what an assertion does on the side, or an underflow that it stops, is seen in other builds only.",
  sorted(set(U + S + PU + PS + ["src/partition_dedup.rs"])), m(("debug assertions", "src/partition.rs, src/merge_sort.rs, src/lib.rs, src/par/*"), ("bounds of indices", "src/partition.rs partition_at_index; src/par/partition.rs")),
  ["results and panics"], "cfg(verif_small), cfg(verif_fallback)")

if __name__ == "__main__":
    d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(f"{d}/properties.jsonl", "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
