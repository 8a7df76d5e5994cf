"""Bounds, assumptions and technique notes per property, for the evidence files and MANIFEST.json."""

COMMON = [
    "The LLVM IR rustc emits for /repo's crate, the standard library and ndarray at opt-level 1 with debug assertions and overflow checks stands for the crate: same source, generic code instantiated with the harness's element types.",
    "The executor's semantics of the IR (engine/src) is right; sampled paths of every execution are run natively and must give the same observations.",
    "z3's answers are right.",
    "rayon's joins are replaced by a stand-in which runs both sides one after the other in either order (vendor/rayon-core/src/verif.rs) and tells the executor where tasks begin and end; rayon itself is not checked.",
    "The allocator never fails; memory is byte-granular with provenance by object; padding and uninitialised bytes are tracked.",
    "cfg(verif_small) replaces length thresholds by small ones, the code is otherwise the same; the original thresholds are covered with structured inputs in which few keys are symbolic.",
]

SORTB = "small thresholds: all keys symbolic up to {a} elements (one method up to {b}), 1-bit keys up to {c}, one symbolic key among 8..{d} elements in {p} base patterns, two at 9, 13, 17, 24; original thresholds: all symbolic up to 5, one symbolic key among structured ones up to {e} elements; strides 1, 2, -1, -3; elements of 1, 4, 12, 40 bytes; 70000 concrete elements"

PROPS = {
    "C01": dict(bounds=SORTB.format(a="5", b="7", c="10", d="39", p="6", e="550")),
    "C02": dict(bounds=SORTB.format(a="5", b="7", c="11", d="47", p="6", e="333")),
    "C03": dict(bounds="all keys symbolic up to 4 elements (6 for one key type), key types of 1, 2, 4, 8, 3 bytes and one that owns memory; one symbolic key up to 39 elements; lengths 254..258 and 65535..65537 with mostly concrete keys; order of joins symbolic for the first 3"),
    "C04": dict(bounds=SORTB.format(a="5", b="6", c="10", d="43", p="5", e="150") + "; 2001..6500 elements with at most one symbolic key; order of joins symbolic up to 4, else both fixed orders"),
    "C05": dict(bounds=SORTB.format(a="5", b="7", c="10", d="43", p="6", e="550") + "; 4100..6000 elements concrete; order of joins symbolic up to 4, else both fixed orders"),
    "C06": dict(bounds="small thresholds: all keys and the index symbolic up to 5 elements (one method up to 7), 1-bit keys up to 9, one symbolic key and any index up to 35 elements; original thresholds: one symbolic key up to 550 elements; any 64-bit index for the panic"),
    "C07": dict(bounds="small thresholds: all keys and every set of indices up to 4 elements, 2-bit keys at 5; one symbolic key up to 39 elements; original thresholds up to 550 elements with up to 16 indices; any 64-bit indices (at most 3) for the panics"),
    "C08": dict(bounds="as C07, order of the first 3 joins symbolic; up to 4200 elements concretely"),
    "C09": dict(bounds="allowance of bad pivots zero: small thresholds with all keys symbolic up to 5 elements (7 for one method), one symbolic key up to 39; original constants with one symbolic key at 11..59, 120..149, 300, 600, 1025, 2100 elements"),
    "C10": dict(bounds="the panicking call is symbolic (every call of the run), once or from then on; small thresholds: all keys symbolic up to 4 elements (5 without layouts), concrete patterns at 9, 16, 25; original thresholds: concrete patterns at 22, 31, 60 elements, and one of 40 calls spread over the run at 300"),
    "C11": dict(bounds="the panicking call is symbolic, once or from then on; order of the first 3 joins symbolic; all keys symbolic up to 4 elements, concrete patterns at 9, 16, 25 (small) and 24, 45 (original thresholds); one of 12 calls in each of two windows at 2100..5200 elements, beyond the sequential limits"),
    "C12": dict(bounds="the first 5 to 7 answers of the comparison are arbitrary, later ones come from a fixed irregular sequence; 2..33 elements (small), 25, 53, 300, for parallel operations 2100..5200 (original thresholds)"),
    "C13": dict(bounds="strides 1, 2, -1, -3, 5; elements owning heap memory; all keys symbolic for 1, 3, 4 elements, one symbolic key at 12 (small), 24, 53, 300 and for parallel operations 2100..4200 (original thresholds); every operation; order of ties against a contiguous view: 3 elements arbitrary, 14..300 with at most one symbolic key"),
    "C14": dict(bounds="up to 12 arbitrary sorted 16-bit keys and any value; any split of up to 257 elements; any answers of the comparator up to 39 elements; broadcast views up to 1000; any length up to 2^62 with the split at the front or every element a match, and nine lengths from 2^31 to 2^63 with any 16 splits in each of five regions"),
    "C15": dict(bounds="arbitrary keys and arbitrary relations up to 8 elements; one symbolic key up to 69, two at 130 and 300; runs and first duplicates at any position of ranges up to 66000 elements"),
    "C16": dict(bounds="arbitrary contents up to 13 elements (contains: 23), arbitrary relation; two symbolic keys up to 257 elements; a single fault or element at any position of ranges up to 66000 elements"),
    "C17": dict(bounds="0 to 119 elements (symbolic) with arbitrary contents, distinct contents at 120 to 319, 500, 1020, 2050 and 4100 elements, five strides"),
    "C18": dict(bounds="lengths 0..9, four strides, and any length up to 2^63 for sorting and selecting; arbitrary answers of callbacks where one is asked"),
    "C19": dict(bounds="order of the first 5 joins symbolic, thread counts; all keys symbolic up to 4 elements, one symbolic key up to 30; 4100..10100 elements with the original thresholds, 3 joins symbolic; races are looked for between the two sides of every join on every path"),
    "C20": dict(bounds="original thresholds; one symbolic key in 12 patterns up to 64 elements, concrete patterns up to 700, an adaptive adversary whose first 1 to 4 choices are symbolic at 300 and 1000 elements; the constants of the bounds are those in vf/props.py",
                assumptions=["O(f) is taken as at most c f comparisons with the constants c of vf/props.py, about twice of what the original code needs"]),
    "C21": dict(bounds="3 and 4 elements with arbitrary keys, six kinds of storage, twelve operations"),
    "C22": dict(bounds="all keys symbolic up to 4 elements; one symbolic key up to 39 (small), 400 (original thresholds); up to 2100 elements, in parallel 4200, concretely"),
    "C23": dict(bounds="feature sets none, alloc, std+stacker (the default), std+rayon+stacker: all keys symbolic up to 3 elements (4 for one method), one symbolic key up to 59; every panicking call at 3 and 12 elements; the first 3 answers to whether the stack has to grow symbolic; the default set also with the original thresholds at 24, 53, 130, 300 elements",
                assumptions=["stacker is replaced by a stand-in (vendor/stacker) which does not switch stacks"]),
    "C24": dict(bounds="original thresholds, as such and with the fallbacks from the start: one symbolic key at 64 elements, structured and irregular patterns up to 2000, parallel operations up to 10100 elements; an adversary at 300 and 1000 elements whose first 1 to 3 choices are symbolic; bulk selection of up to all indices; at most 24 + 6 log2 n nested calls",
                assumptions=["depth is counted in frames of the IR (after inlining); natively 512 bytes count as one"]),
    "C25": dict(bounds="small thresholds: all keys symbolic up to 3 elements (1-bit keys at 4), one symbolic key among many ties at 8..39; original thresholds: one symbolic key at 22..89, concrete at 130, 300, 700, parallel operations at 4200 and 5200 elements; order of the first 3 joins of the second run symbolic, else reversed"),
    "C26": dict(bounds="small thresholds: all keys symbolic up to 4 elements (with a panic at any of the first 12 calls up to 3), one symbolic key at 8..39, a panic at one of 24 calls spread over the run; original thresholds: 16..57 elements likewise, concrete at 150, 300, parallel operations up to 5200 elements; heap sort and median of medians from the start at 16..57 elements; races are looked for between the two sides of every join"),
    "C27": dict(bounds="original thresholds: one symbolic key at 64 (and two patterns at 200) elements, 13 patterns at 200 and 1000 elements, cached keys up to 3000, an adversary at 300 and 1000 elements whose first 2 or 3 choices are symbolic; the fallbacks from the start at 700 elements; parallel operations at 4200 to 10100 elements, and at 1000 with small thresholds; the constants of the bounds are those in vf/props.py",
                assumptions=["O(f) is taken as at most c f instructions of the optimised IR with the constants c of vf/props.py, about three times of what the original code needs; copying 16 bytes counts as one instruction"]),
    "C28": dict(bounds="IR without debug assertions and overflow checks; small thresholds: all keys symbolic up to 4 elements, one symbolic key up to 59; original thresholds: all symbolic at 4, one symbolic key up to 60, concrete up to 300, parallel sorts 4100..6500; any 64-bit index for the panics; every panicking call at 3, 12 and 25 elements"),
}

TECH = "symbolic execution of the compiled LLVM IR with z3"
NOTE = "Bounded: every input, index, panicking call, comparator answer and join order within the bounds of the evidence file is decided by the solver on the real code's IR; nothing is claimed beyond. Trusts rustc's IR generation, the executor's semantics (cross-checked natively on sampled paths), z3 and the stand-in for rayon's scheduler."
