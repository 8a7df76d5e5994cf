"""What each check runs: units (harness features x build configuration) and jobs (entry + parameters).

A job is one symbolic execution of a harness entry; its parameters are concrete, its inputs
(`verif_any` in the harness) symbolic.
"""

REAL = ""
SMALL = "--cfg verif_small"
SFB = "--cfg verif_small --cfg verif_fallback"
FB = "--cfg verif_fallback"
# as users build: no debug assertions, wrapping arithmetic
PLAIN = "-C debug-assertions=no -C overflow-checks=no"

SORTS = "u,s,c,ps,pc,pu"
ALL = "u,s,c,ps,pc,pu,nth,many,pmany"


class Jobs:
    def __init__(self, tier, seed):
        self.tier, self.seed, self.thorough = tier, seed, tier == "thorough"
        self.units = {}
        self.jobs = []

    def unit(self, name, features, cfg):
        # unless it names features of the crate: all but `stacker`
        self.units[name] = (features if "f_" in features else "full," + features, cfg)
        return name

    def add(self, unit, entry, p, need=(1,), insts=None, sample=1):
        self.jobs.append(dict(unit=unit, entry=entry, p=list(p), need=list(need), insts=insts, sample=sample))

    def t(self, quick, thorough):
        return thorough if self.thorough else quick


def structured(j, unit, entry, ops, ns, pats, nsym, layouts, tail=(), seeds=1, need=(1,)):
    """Every n with every pattern; ops and layouts rotate so that each meets each pattern."""
    k = 0
    for n in ns:
        for pat in pats:
            for s in range(seeds):
                op = ops[k % len(ops)]
                lay = layouts[(k // len(ops)) % len(layouts)]
                j.add(unit, entry, [op, n, lay, pat, nsym, j.seed + 3 * k + s] + list(tail), need)
                k += 1


PATS = list(range(1, 15))


# ---------------------------------------------------------------- C01 .. C05: sorting

def c01(j):
    s = j.unit("small", "u,m_sorts,sizes", SMALL)
    r = j.unit("real", "u,m_sorts,sizes", REAL)
    for op in (0, 1, 2):
        for n in range(0, 6):
            for lay in (0, 2) if n == 5 else (0, 1, 3):
                j.add(s, "h_sort", [op, n, lay, 0, 0, 0])
            j.add(r, "h_sort", [op, n, (n + op) % 4, 0, 0, 0])
    j.add(s, "h_sort", [1, 6, 1, 0, 0, 0])
    j.add(s, "h_sort", [0, j.t(7, 8), 0, 0, 0, 0])
    j.add(s, "h_sort", [2, 9, 0, 0, 1, 0])
    j.add(s, "h_sort", [0, j.t(10, 12), 0, 0, 1, 0])
    j.add(s, "h_sort", [1, j.t(8, 9), 0, 0, 2, 0])
    j.add(r, "h_sort", [0, 6, 0, 0, 0, 0])
    for n in (3, 5):
        for e in ("h_sort_12", "h_sort_40", "h_sort_1"):
            j.add(s, e, [n % 3, n, 0, 0, 3 if e == "h_sort_1" else 0, 0])
    for n in (2, 4, 5):
        j.add(s, "h_sort_desc", [1 + n % 2, n, 0, 0, 0, 0])
    structured(j, s, "h_sort", (0, 1, 2), range(8, j.t(40, 80)), (1, 2, 6, 7, 8, 12), 1, (0, 1, 2, 3))
    structured(j, s, "h_sort", (0, 1, 2), (9, 13, 17, 24), PATS, 2, (0, 1))
    # original thresholds
    structured(j, r, "h_sort", (0, 1, 2), range(19, 64), (1, 2, 3, 4, 7, 12), 1, (0, 1, 2, 3))
    structured(j, r, "h_sort", (0, 1, 2), (21, 27, 50), PATS, 2 if j.thorough else 1, (0, 1))
    structured(j, r, "h_sort", (0, 1, 2), j.t((130, 257, 300, 550), (129, 130, 200, 255, 256, 257, 258, 300, 400, 512, 513, 550, 800, 1100)),
               (1, 2, 4, 5, 7, 9, 12, 14), 1, (0, 2, 1))
    for e in ("h_sort_12", "h_sort_40"):
        structured(j, r, e, (0, 1, 2), (30, 60), (7, 2, 4), 1, (0, 1))
    # more elements than 16 bits index
    j.add(r, "h_sort_wide", [0, 70000, 0, 7, 0, j.seed], insts=2_000_000_000)


def c02(j):
    s = j.unit("small", "s,m_sorts,sizes", SMALL)
    r = j.unit("real", "s,m_sorts,sizes", REAL)
    for op in (3, 4, 5):
        for n in range(0, 6):
            for lay in (0, 2) if n == 5 else (0, 1, 3):
                j.add(s, "h_sort", [op, n, lay, 0, 0, 0])
            j.add(r, "h_sort", [op, n, (n + op) % 4, 0, 0, 0])
    j.add(s, "h_sort", [4, 6, 1, 0, 0, 0])
    j.add(s, "h_sort", [3, j.t(7, 8), 0, 0, 0, 0])
    j.add(s, "h_sort", [5, 9, 0, 0, 1, 0])
    j.add(s, "h_sort", [3, j.t(11, 13), 0, 0, 1, 0])
    j.add(s, "h_sort", [4, j.t(8, 9), 0, 0, 2, 0])
    j.add(r, "h_sort", [3, 7, 0, 0, 0, 0])
    for n in (3, 5):
        for e in ("h_sort_12", "h_sort_40", "h_sort_1"):
            j.add(s, e, [3 + n % 3, n, 0, 0, 3 if e == "h_sort_1" else 0, 0])
    for n in (2, 4, 5):
        j.add(s, "h_sort_desc", [4 + n % 2, n, 0, 0, 0, 0])
    structured(j, s, "h_sort", (3, 4, 5), range(8, j.t(48, 90)), (1, 2, 7, 8, 9, 13), 1, (0, 1, 2, 3))
    structured(j, s, "h_sort", (3, 4, 5), (9, 13, 17, 24), PATS, 2, (0, 1))
    structured(j, r, "h_sort", (3, 4, 5), range(19, 64), (1, 2, 7, 8, 10, 13), 1, (0, 1, 2, 3))
    structured(j, r, "h_sort", (3, 4, 5), (21, 30, 50), PATS, 2 if j.thorough else 1, (0, 1))
    structured(j, r, "h_sort", (3, 4, 5), j.t((110, 150, 333), (110, 150, 200, 256, 333, 500, 700)), PATS, 1, (0, 2, 1))
    for e in ("h_sort_12", "h_sort_40"):
        structured(j, r, e, (3, 4, 5), (30, 60), (7, 2, 10), 1, (0, 1))
    # more elements than 16 bits index
    j.add(r, "h_sort_wide", [3, 70000, 0, 7, 0, j.seed], insts=2_000_000_000)


def c03(j):
    s = j.unit("small", "c,pc,m_cached", SMALL)
    for kt in range(6):
        for n in (0, 1, 2, 3, 4):
            j.add(s, "h_cached", [0, n, kt % 4, 0, 0, 0, kt])
            j.add(s, "h_cached", [1, n, kt % 4, 0, 0, 0, kt, 2, 3, 3 if n < 4 else 0])
    j.add(s, "h_cached", [0, 5, 0, 0, 0, 0, 1])
    j.add(s, "h_cached", [0, j.t(6, 7), 1, 0, 0, 0, 5])
    j.add(s, "h_cached", [1, 4, 2, 0, 0, 0, 5, 2, 4, 4])
    j.add(s, "h_cached", [1, 5, 0, 0, 0, 0, 2, 1, 0, 0])
    j.add(s, "h_cached", [1, j.t(5, 6), 0, 0, 2, 0, 4, 2, 3, 3])
    k = 0
    for n in list(range(6, j.t(40, 70))):
        for pat in (1, 2, 7, 8):
            j.add(s, "h_cached", [k % 2, n, k % 4, pat, 1, j.seed + k, 1 + k % 5, 0, 0, 0])
            k += 1
    # index types: 8 bit up to 256 elements, 16 bit up to 65536, 32 bit beyond
    for n in (254, 255, 256, 257, 258):
        for kt in (1, 2, 3, 4):
            for par in (0, 1):
                j.add(s, "h_cached", [par, n, 0, 5 if kt % 2 else 7, 0, j.seed, kt, 0, 0, 0])
        j.add(s, "h_cached", [0, n, 0, 4, 0, j.seed, 0])  # 8-bit keys
        j.add(s, "h_cached", [n % 2, n, 1, 1, 1, j.seed, 5])
        j.add(s, "h_cached", [1 - n % 2, n, 0, 3, 1, j.seed, 2, 0, 0, 0])
    for n in j.t((65535, 65536, 65537), (65535, 65536, 65537, 65538)):
        for kt in (0, 1) if not j.thorough else (0, 1, 2, 3, 4):
            for par in (0, 1):
                j.add(s, "h_cached_wide", [par, n, 0, 4, 0, j.seed, kt, 0, 0, 0], insts=400_000_000)


def par_scheds(j):
    # schedule mode, symbolic joins
    return [(0, 0), (1, 0), (2, 2)]


def c04(j):
    s = j.unit("small", "ps,m_sorts,sizes", SMALL)
    r = j.unit("real", "ps,m_sorts,sizes", REAL)
    for op in (7, 8, 9):
        for n in range(0, 5):
            for lay in (0, 1, 2, 3):
                j.add(s, "h_sort", [op, n, lay, 0, 0, 0, 2, 4, 0])
            j.add(r, "h_sort", [op, n, (n + op) % 4, 0, 0, 0, 0, 0, 0])
        j.add(s, "h_sort", [op, 5, 0, 0, 0, 0, 2, 2, 0])
    j.add(s, "h_sort", [8, j.t(6, 7), 0, 0, 0, 0, 1, 0, 0])
    j.add(s, "h_sort", [7, j.t(6, 7), 1, 0, 0, 0, 0, 0, 0])
    j.add(s, "h_sort", [9, 9, 0, 0, 1, 0, 0, 0, 0])
    j.add(s, "h_sort", [7, j.t(10, 12), 0, 0, 1, 0, 1, 0, 0])
    j.add(s, "h_sort", [8, j.t(7, 8), 0, 0, 2, 0, 0, 0, 0])
    for n in (3, 5):
        for e in ("h_sort_12", "h_sort_40", "h_sort_1"):
            j.add(s, e, [7 + n % 3, n, 0, 0, 3 if e == "h_sort_1" else 0, 0, 1, 0, 0])
    for n in (2, 4, 5):
        j.add(s, "h_sort_desc", [8 + n % 2, n, 0, 0, 0, 0, 0, 0, 0])
    k = 0
    for n in range(8, j.t(44, 80)):
        for pat in (1, 2, 7, 8, 13):
            sch = par_scheds(j)[k % 3]
            j.add(s, "h_sort", [7 + k % 3, n, (k // 3) % 4, pat, 1, j.seed + k, sch[0], sch[1], 0])
            k += 1
    for n in (9, 13, 17, 24):
        for pat in PATS:
            sch = par_scheds(j)[k % 2]
            j.add(s, "h_sort", [7 + k % 3, n, (k // 3) % 4, pat, 2, j.seed + k, sch[0], sch[1], 0])
            k += 1
    structured(j, r, "h_sort", (7, 8, 9), range(19, 64, j.t(2, 1)), (1, 2, 7, 8, 10, 13), 1, (0, 1, 2, 3), (0, 0, 0))
    structured(j, r, "h_sort", (7, 8, 9), (110, 150), PATS, 1, (0, 2, 1), (0, 0, 0))
    # more than one chunk of 2000, parallel merges beyond 5000
    for n, pat, nsym in j.t([(2001, 7, 0), (2001, 2, 1), (4100, 1, 0), (5200, 7, 0), (6500, 6, 0), (6500, 9, 0)],
                           [(2001, 7, 1), (2001, 2, 1), (4100, 1, 1), (5200, 7, 1), (6500, 6, 1), (6500, 9, 1), (8500, 8, 0), (10100, 13, 0), (12001, 10, 0)]):
        j.add(r, "h_sort", [7 + n % 3, n, 0, pat, nsym, j.seed, 1, 0, 0], insts=400_000_000)
    # more elements than 16 bits index
    j.add(r, "h_sort_wide", [7, 70000, 0, 7, 0, j.seed, 0, 0, 0], insts=2_000_000_000)


def c05(j):
    s = j.unit("small", "pu,m_sorts,sizes", SMALL)
    r = j.unit("real", "pu,m_sorts,sizes", REAL)
    for op in (11, 12, 13):
        for n in range(0, 5):
            for lay in (0, 1, 2, 3):
                j.add(s, "h_sort", [op, n, lay, 0, 0, 0, 2, 4, 0])
            j.add(r, "h_sort", [op, n, (n + op) % 4, 0, 0, 0, 0, 0, 0])
        j.add(s, "h_sort", [op, 5, 0, 0, 0, 0, 2, 3, 0])
    j.add(s, "h_sort", [12, j.t(6, 7), 0, 0, 0, 0, 1, 0, 0])
    j.add(s, "h_sort", [11, j.t(7, 8), 1, 0, 0, 0, 0, 0, 0])
    j.add(s, "h_sort", [13, 9, 0, 0, 1, 0, 0, 0, 0])
    j.add(s, "h_sort", [11, j.t(10, 12), 0, 0, 1, 0, 1, 0, 0])
    j.add(s, "h_sort", [12, j.t(8, 9), 0, 0, 2, 0, 0, 0, 0])
    for n in (3, 5):
        for e in ("h_sort_12", "h_sort_40", "h_sort_1"):
            j.add(s, e, [11 + n % 3, n, 0, 0, 3 if e == "h_sort_1" else 0, 0, 1, 0, 0])
    for n in (2, 4, 5):
        j.add(s, "h_sort_desc", [12 + n % 2, n, 0, 0, 0, 0, 0, 0, 0])
    k = 0
    for n in range(8, j.t(44, 80)):
        for pat in (1, 2, 6, 7, 8, 12):
            sch = par_scheds(j)[k % 3]
            j.add(s, "h_sort", [11 + k % 3, n, (k // 3) % 4, pat, 1, j.seed + k, sch[0], sch[1], 0])
            k += 1
    for n in (9, 13, 17, 24):
        for pat in PATS:
            sch = par_scheds(j)[k % 2]
            j.add(s, "h_sort", [11 + k % 3, n, (k // 3) % 4, pat, 2, j.seed + k, sch[0], sch[1], 0])
            k += 1
    structured(j, r, "h_sort", (11, 12, 13), range(19, 64, j.t(2, 1)), (1, 2, 3, 4, 7, 12), 1, (0, 1, 2, 3), (0, 0, 0))
    structured(j, r, "h_sort", (11, 12, 13), j.t((130, 300, 550), (130, 200, 257, 300, 550, 1100)), (1, 2, 4, 5, 7, 9, 12, 14), 1, (0, 2, 1), (1, 0, 0))
    # both sides of a partition above the sequential limit of 2000
    for n, pat in j.t([(4100, 7), (6000, 12), (6000, 2)], [(4100, 7), (6000, 12), (6000, 2), (9000, 8), (9000, 7), (12000, 14)]):
        j.add(r, "h_sort", [11 + n % 3, n, 0, pat, 0, j.seed, 1, 0, 0], insts=400_000_000)
    # more elements than 16 bits index
    j.add(r, "h_sort_wide", [11, 70000, 0, 7, 0, j.seed, 0, 0, 0], insts=2_000_000_000)


# ---------------------------------------------------------------- C06 .. C08: selection

def c06(j):
    s = j.unit("small", "nth,m_select,sizes", SMALL)
    r = j.unit("real", "nth,m_select,sizes", REAL)
    for op in (0, 1, 2):
        for n in range(1, 6):
            for lay in (0, 1, 2, 3) if n < 5 else (0, 2):
                j.add(s, "h_nth", [op, n, lay, 0, 0, 0, 0])
            j.add(r, "h_nth", [op, n, (n + op) % 4, 0, 0, 0, 0])
        for n in (0, 1, 2, 4):
            j.add(s, "h_nth_bounds", [op, n, n % 4, 0, 0, 0], (1, 2) if n else (2,))
        j.add(r, "h_nth_bounds", [op, 3, 0, 0, 0, 0], (1, 2))
    j.add(s, "h_nth", [0, j.t(7, 8), 0, 0, 0, 0, 0])
    j.add(s, "h_nth", [1, 6, 1, 0, 0, 0, 0])
    j.add(s, "h_nth", [2, j.t(9, 10), 0, 0, 1, 0, 0])
    for n in (3, 4):
        j.add(s, "h_nth_40", [n % 3, n, 0, 0, 0, 0, 0])
    structured(j, s, "h_nth", (0, 1, 2), range(6, j.t(36, 60)), (1, 2, 6, 7, 8, 12), 1, (0, 1, 2, 3), (0,))
    structured(j, s, "h_nth", (0, 1, 2), (9, 13, 17), PATS, 2, (0, 1), (5,))
    structured(j, r, "h_nth", (0, 1, 2), range(11, 56, j.t(2, 1)), (1, 2, 3, 4, 7, 12), 1, (0, 1, 2, 3), (0,))
    for n in j.t((130, 300, 550), (130, 257, 300, 513, 550, 1100)):
        for i in (0, 1, n // 3, n // 2, n - 2, n - 1):
            structured(j, r, "h_nth", (0, 1, 2), (n,), (1, 2, 4, 7, 12), 1, (0, 2, 1), (i + 1,))
    structured(j, r, "h_nth_40", (0, 1, 2), (30, 60), (7, 2, 4), 1, (0, 1), (8,))


def many(j, ops, sched, unit_features):
    s = j.unit("small", unit_features, SMALL)
    r = j.unit("real", unit_features, REAL)
    for k, op in enumerate(ops):
        for n in range(0, 5):
            for lay in (0, 1, 2) if n < 4 else (k,):
                j.add(s, "h_many", [op, n, lay, 0, 0, 0, 0, 0, (k + n) % 3, n % 3] + sched)
        j.add(s, "h_many", [op, 5, k, 0, j.t(2, 3), 0, 0, 0, k, 1] + sched)
        j.add(r, "h_many", [op, 4, k, 0, 0, 0, 0, 0, k, 1] + sched)
        for n, m in ((0, 0), (0, 1), (1, 1), (3, 1), (4, 2), (3, 3), (1, 2)):
            need = []
            if m <= n:
                need.append(1)
            if m > 0:
                need.append(2)
            if n < 4 or op % 3 == 0 or j.thorough:
                j.add(s, "h_many_bounds", [op, n, 0, 0, 0, 0, m], need)
        j.add(s, "h_many_agree", [op, 4, k, 0, 0, 0, 0, 0, 0, 0] + sched)
    k = 0
    for n in range(6, j.t(40, 64)):
        for pat in (1, 2, 7, 8, 12):
            m = 1 + (k * 7) % n if k % 4 else n
            j.add(s, "h_many", [ops[k % 3], n, k % 4, pat, 1, j.seed + k, 1 + k, m, k % 3, k % 3] + sched)
            k += 1
    for n in range(12, 56, j.t(3, 1)):
        for pat in (1, 2, 4, 7, 12):
            m = 1 + (k * 5) % n
            j.add(r, "h_many", [ops[k % 3], n, k % 4, pat, 1, j.seed + k, 1 + k, m, k % 3, k % 3] + sched)
            k += 1
    for n in j.t((130, 300, 550), (130, 257, 300, 550, 1100)):
        for m in (1, 2, 5, 16):
            for pat in (2, 4, 7):
                j.add(r, "h_many", [ops[k % 3], n, k % 3, pat, 1, j.seed + k, 1 + k, m, k % 3, 0] + sched)
                k += 1
    return s, r


def c07(j):
    many(j, (0, 1, 2), [0, 0], "many,m_select")


def c08(j):
    s, r = many(j, (3, 4, 5), [2, 3], "many,pmany,m_select")
    j.add(s, "h_many", [4, 4, 1, 0, 0, 0, 0, 0, 1, 1, 1, 0])
    j.add(s, "h_many", [5, 5, 0, 0, 2, 0, 0, 0, 1, 1, 2, 6])
    # bulk selection beyond the sequential limit of 2000 elements
    for n, m, pat in j.t([(2100, 9, 7), (4200, 16, 2), (4200, 3, 12)], [(2100, 9, 7), (4200, 16, 2), (4200, 3, 12), (6500, 33, 7), (9000, 20, 8)]):
        j.add(r, "h_many", [3 + n % 3, n, 0, pat, 0, j.seed, 1, m, 0, 0, 1, 0], insts=400_000_000)


# ---------------------------------------------------------------- C09: fallbacks

def c09(j):
    s = j.unit("smallfb", "u,pu,nth,many,pmany,m_sorts,m_select", SFB)
    f = j.unit("fb", "u,pu,nth,many,pmany,m_sorts,m_select", FB)
    for op in (0, 1, 2, 11, 12, 13):
        for n in range(0, 6):
            j.add(s, "h_sort", [op, n, n % 4, 0, 0, 0, 2, 2, 0])
    j.add(s, "h_sort", [0, j.t(7, 8), 1, 0, 0, 0, 0, 0, 0])
    j.add(s, "h_sort", [11, j.t(7, 8), 0, 0, 0, 0, 0, 0, 0])
    j.add(s, "h_sort", [1, 9, 0, 0, 1, 0, 0, 0, 0])
    j.add(s, "h_sort", [12, 9, 0, 0, 1, 0, 0, 0, 0])
    structured(j, s, "h_sort", (0, 1, 2, 11, 12, 13), range(8, 34), (1, 2, 7, 12), 1, (0, 1, 2, 3), (0, 0, 0))
    for op in (0, 1, 2):
        for n in range(1, 6):
            j.add(s, "h_nth", [op, n, n % 4, 0, 0, 0, 0])
    j.add(s, "h_nth", [0, j.t(7, 8), 0, 0, 0, 0, 0])
    j.add(s, "h_nth", [1, 9, 0, 0, 1, 0, 0])
    structured(j, s, "h_nth", (0, 1, 2), range(6, 40), (1, 2, 6, 7, 8, 12), 1, (0, 1, 2, 3), (0,))
    structured(j, s, "h_nth", (0, 1, 2), (9, 12, 17), PATS, 2, (0, 1), (4,))
    for op in range(6):
        j.add(s, "h_many", [op, 4, op % 3, 0, 0, 0, 0, 0, op % 3, 1, 2, 2])
        k = 0
        for n in range(6, 26, 2):
            for pat in (2, 7):
                j.add(s, "h_many", [op, n, k % 4, pat, 1, j.seed + k, 1 + k, 1 + (k * 5) % n, 0, 0, 1, 0])
                k += 1
    structured(j, f, "h_sort", (0, 1, 2, 11, 12, 13), range(20, 60, j.t(3, 1)), (1, 2, 4, 7, 12), 1, (0, 1, 2), (0, 0, 0))
    # median of medians with its original constants
    structured(j, f, "h_nth", (0, 1, 2), range(11, 60), (1, 2, 7, 12), 1, (0, 1, 2), (0,))
    for n in j.t(range(120, 150, 3), range(110, 170)):
        for pat in (1, 2, 7, 12):
            for i in (0, n // 2, n - 1):
                j.add(f, "h_nth", [(n + i) % 3, n, 0, pat, 1, j.seed + n, i + 1])
    for n in (300, 600):
        for pat in (1, 7):
            for i in (0, n // 2, n - 1):
                j.add(f, "h_nth", [i % 3, n, 0, pat, 1, j.seed + n, i + 1])
    # more than 1024 elements: other samples
    for n in j.t((1025, 2100), (1024, 1025, 1026, 1500, 2100, 4200)):
        for pat in (1, 7):
            for i in (0, n // 2, n - 1):
                j.add(f, "h_nth", [i % 3, n, 0, pat, 0, j.seed + n, i + 1], insts=400_000_000)
    for op, n in ((0, 130), (1, 300), (11, 300), (12, 2100)):
        j.add(f, "h_sort", [op, n, 0, 7, 0, j.seed, 1, 0, 0], insts=400_000_000)
    for op, n in ((3, 1300), (4, 2100), (5, 4200)):
        j.add(f, "h_many", [op, n, 0, 7, 0, j.seed, 1, 9, 0, 0, 1, 0], insts=400_000_000)
    for n in (40, 133, 150):
        for op in range(6):
            j.add(f, "h_many", [op, n, op % 3, 7, 1, j.seed + op, 1 + op, 6, 0, 0, 1, 0])


# ---------------------------------------------------------------- C10 .. C12: panics, inconsistent orders

SEQ_OPS = (0, 1, 2, 3, 4, 5, 6, 20, 21, 22, 23, 24, 25)
PAR_OPS = (7, 8, 9, 10, 11, 12, 13, 26, 27, 28)


def pmask(op, n):
    if 20 <= op <= 22:
        return 4
    if 23 <= op <= 28 or op == 32:
        return 0b1011 if n <= 4 else (0b10110101 | 1 << (n - 1)) & ((1 << n) - 1)
    return 0


def c10(j):
    s = j.unit("small", "u,s,c,nth,many,m_panics", SMALL)
    r = j.unit("real", "u,s,c,nth,many,m_panics", REAL)
    for k, op in enumerate(SEQ_OPS + (29, 30, 31, 32, 33, 34, 35)):
        for n in (2, 3, 4):
            j.add(s, "h_panic", [op, n, (k + n) % 4, 0, 0, 0, 0, 0, 0, (k + n) % 2, pmask(op, n), 0], (1, 2))
        j.add(s, "h_panic", [op, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], ())
        if op < 33:
            j.add(s, "h_panic", [op, j.t(5, 6), 0, 0, 0, 0, 0, 0, 0, k % 2, pmask(op, 5), 0], (1, 2))
            j.add(s, "h_owned", [op, 4, k % 4, 0, 0, 0, 0, 0, 0, 0, pmask(op, 4)])
    # one or no symbolic key, any call may panic
    k = 0
    for op in SEQ_OPS:
        for n in (9, 16, 25):
            for pat in (1, 2, 7, 8, 12, 13):
                j.add(s, "h_panic", [op, n, k % 4, pat, 0, j.seed + k, 0, 0, 0, k % 2, pmask(op, n) if op < 23 else 0b100100101, 0], (1, 2))
                k += 1
    for op in SEQ_OPS:
        for n in (22, 31, 60) if not j.thorough else (21, 22, 25, 31, 40, 50, 60, 75):
            for pat in (1, 2, 7, 10):
                j.add(r, "h_panic", [op, n, k % 4, pat, 0, j.seed + k, 0, 0, 0, k % 2, pmask(op, n) if op < 23 else 0x10204081, 0], (1, 2))
                k += 1
    # beyond a block of 128 elements: some of the calls, spread over all
    for op in SEQ_OPS:
        lin = op == 6 or op >= 20
        for n, pat in j.t(((300, 7), (300, 2)), ((140, 4), (300, 7), (300, 2), (300, 13), (600, 8))):
            calls = n * 4 if lin else n * 10
            m = j.t(40, 120)
            j.add(r, "h_panic", [op, n, k % 4, pat, 0, j.seed + k, 0, 0, 0, k % 2, 4 if op < 23 else 0x10204081, k % 5, m, max(1, calls // m)], (2,))
            k += 1


def c11(j):
    s = j.unit("small", "ps,pc,pu,pmany,m_panics", SMALL)
    r = j.unit("real", "ps,pc,pu,pmany,m_panics", REAL)
    for k, op in enumerate(PAR_OPS):
        for n in (2, 3, 4):
            j.add(s, "h_panic", [op, n, (k + n) % 4, 0, 0, 0, 2, 3, 2 if op == 10 and n < 4 else 0, (k + n) % 2, pmask(op, n), 0], (1, 2))
        j.add(s, "h_panic", [op, j.t(5, 6), 0, 0, j.t(2, 0), 0, 2, 2, 0, k % 2, pmask(op, 5), 0], (1, 2))
        j.add(s, "h_owned", [op, 4, k % 4, 0, 0, 0, 2, 3, 0, 0, pmask(op, 4)])
    k = 0
    for op in PAR_OPS:
        for n in (9, 16, 25):
            for pat in (1, 2, 7, 8, 12, 13):
                j.add(s, "h_panic", [op, n, k % 4, pat, 0, j.seed + k, k % 2, 0, 0, k // 2 % 2, 0b100100101, 0], (1, 2))
                k += 1
        for n in (24, 45):
            for pat in (2, 7, 13):
                j.add(r, "h_panic", [op, n, k % 4, pat, 0, j.seed + k, k % 2, 0, 0, k // 2 % 2, 0x10204081, 0], (1, 2))
                k += 1
    # beyond the sequential limits of 2000 and 5000 elements: some of the calls, spread over all
    for op, n, pat, calls in ((7, 2100, 7, 22000), (8, 5200, 7, 60000), (9, 5200, 9, 50000), (11, 4200, 7, 50000), (12, 2100, 2, 26000), (13, 4200, 12, 40000),
                              (26, 2100, 7, 9000), (27, 4200, 2, 16000), (28, 4200, 7, 18000), (10, 300, 7, 300)):
        for w in range(j.t(2, 8)):
            m = j.t(12, 24)
            j.add(r, "h_panic", [op, n, 0, pat, 0, j.seed + op, w % 2, 0, 0, 0, 0x10204081, 3 + w * calls // m // 2, m, max(1, calls // m)], (2,), insts=2_000_000_000)


def c12(j):
    s = j.unit("small", ALL + ",m_panics", SMALL)
    r = j.unit("real", ALL + ",m_panics", REAL)
    f = j.unit("smallfb", "u,pu,nth,many,pmany,m_panics", SFB)
    for k, op in enumerate(SEQ_OPS + PAR_OPS + (29, 30, 33, 34)):
        if op in (6, 10):
            continue
        sched = [1, 0] if k % 2 else [0, 0]
        for n, bud in ((2, 6), (3, 7), (4, 7), (5, 7), (7, 7), (10, 7)):
            j.add(s, "h_inconsistent", [op, n, (k + n) % 4, 3, 0, 0] + sched + [bud, j.seed + n, pmask(op, n)])
        for n in (14, 20, 33):
            for sd in range(2):
                j.add(s, "h_inconsistent", [op, n, (k + n) % 4, 3, 0, 0] + sched + [5, j.seed + 7 * sd, pmask(op, 14)])
        for n in (25, 53):
            j.add(r, "h_inconsistent", [op, n, (k + n) % 4, 3, 0, 0] + sched + [5, j.seed + n, pmask(op, 14)])
        if op in (0, 1, 2, 11, 12, 13) or 20 <= op <= 28:
            for n in (4, 6, 9, 17):
                j.add(f, "h_inconsistent", [op, n, (k + n) % 4, 3, 0, 0] + sched + [6, j.seed + n, pmask(op, n)])
    # beyond a block of 128 elements
    for op in (1, 12, 4, 8, 21, 24, 27):
        j.add(r, "h_inconsistent", [op, 300, 0, 3, 0, 0, 0, 0, 5, j.seed, pmask(op, 40)])
    # beyond the sequential limits
    for op, n in ((7, 2100), (9, 5200), (11, 4200), (13, 2100), (26, 2100), (28, 4200)):
        j.add(r, "h_inconsistent", [op, n, 0, 3, 0, 0, op % 2, 0, 3, j.seed, pmask(op, 40)], insts=2_000_000_000)


# ---------------------------------------------------------------- C13: layouts

def c13(j):
    s = j.unit("small", ALL + ",m_panics", SMALL)
    r = j.unit("real", ALL + ",m_panics", REAL)
    for op in SEQ_OPS + PAR_OPS + (29, 30, 31):
        for lay in range(5):
            for n in (1, 3, 4):
                j.add(s, "h_owned", [op, n, lay, 0, 0, 0, 0, 0, 0, 0, pmask(op, n)], (1,))
            j.add(s, "h_owned", [op, 12, lay, 7, 1, j.seed, 1, 0, 0, 0, pmask(op, 12)], (1,))
            j.add(r, "h_owned", [op, 24, lay, 7, 1, j.seed + lay, 1, 0, 0, 0, pmask(op, 14)], (1,))
            j.add(r, "h_owned", [op, 53, lay, 2, 1, j.seed + lay, 1, 0, 0, 0, pmask(op, 14)], (1,))
            if lay in (op % 5, 2):
                j.add(r, "h_owned", [op, 300, lay, 7, 0, j.seed + lay, 1, 0, 0, 0, pmask(op, 40)], (1,))
    # ties included, the outcome is that of a contiguous view
    s, r2 = j.unit("small2", ALL + ",m_repeat", SMALL), j.unit("real2", ALL + ",m_repeat", REAL)
    k = 0
    for op in REP + (3, 6, 7, 10):
        for lay in (1, 2, 3):
            j.add(s, "h_repeat", [op, 3, lay, 0, 1, 0, 0, 0, 3, 3, 1])
            j.add(s, "h_repeat", [op, 14, lay, 2, 1, j.seed + k, 0, 0, k % 8, 1 + k % 14, 1])
            j.add(s, "h_repeat", [op, 33, lay, 8, 1, j.seed + k, 0, 0, k % 8, 1 + k % 33, 1])
            j.add(r2, "h_repeat", [op, 27 + k % 60, lay, 4 + k % 2 * 4, 1, j.seed + k, 0, 0, k % 8, 1 + k % 27, 1])
            j.add(r2, "h_repeat", [op, 300, lay, 8, 0, j.seed + k, 0, 0, k % 8, 1 + k % 33, 1])
            k += 1
    # beyond the sequential limits
    for op, n, lay in ((7, 2100, 2), (8, 5200, 1), (11, 4200, 3), (12, 4200, 1), (26, 2100, 2), (27, 4200, 1), (28, 4200, 3)):
        j.add(r, "h_owned", [op, n, lay, 7, 0, j.seed, 1, 0, 0, 0, pmask(op, 40)], (1,), insts=2_000_000_000)


# ---------------------------------------------------------------- C14 .. C17

def c14(j):
    r = j.unit("real", "m_search", REAL)
    for op in (0, 1, 2):
        for n in range(0, j.t(13, 24)):
            j.add(r, "h_binary_search", [op, n, (op + n) % 5, 0, 16, 0], (2,) if n == 0 else (1, 2))
    for n in list(range(0, 140)) + [200, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 3000] + j.t([], list(range(140, 300))):
        j.add(r, "h_binary_split", [0, n, n % 5], (2,) if n == 0 else (1, 2))
    for n in range(0, j.t(40, 70)):
        j.add(r, "h_binary_any", [0, n, n % 5])
    for n in (0, 1, 2, 3, 7, 1000):
        j.add(r, "h_broadcast", [0, n])
    for at in (0, 1):
        j.add(r, "h_search_far", [at], (2,) if at == 0 else (1,))
    for n in (2**31 - 1, 2**32 - 1, 2**32, 2**32 + 1, 2**40 + 12345, 2**53 + 1, 2**62 - 1, 2**62, 2**63 - 99):
        for sh in j.t((0, 19, 28), range(0, 60, 4)):
            for m in (0, 1, 2**20 + 1):
                j.add(r, "h_search_huge", [n, m, sh, (n // 3) & ~(15 << sh)], (2,) if m == 0 else (1,))
        for base in (0, (n - 1) & ~15):
            j.add(r, "h_search_huge", [n, 0, 0, base], (2,))
            j.add(r, "h_search_huge", [n, 3, 0, base], (1,))


def c15(j):
    r = j.unit("real", "m_dedup", REAL)
    for op in range(5):
        for n in range(0, j.t(9, 11)):
            for lay in range(5) if n < 7 else (0, 1):
                if op == 2 and n == 8 and lay:
                    continue
                j.add(r, "h_dedup", [op, n, lay, 0, 3 if op == 4 else 0, 0], (1, 2) if n > 1 else (1,))
    structured(j, r, "h_dedup", (0, 1, 2), range(9, 70), (3, 4, 5, 8, 10), 1, (0, 1, 2, 3, 4))
    structured(j, r, "h_dedup", (0, 1, 2), (127, 128, 129, 130, 255, 256, 257, 300, 513, 1025), (3, 4, 5, 8, 10), 2, (0, 1, 2))
    far_scans(j, r, (3, 4))


def far_scans(j, r, ops):
    for op in ops:
        for n, base, bits in ((40, 0, 6), (300, 0, 9), (600, 0, 10), (1030, 1020, 4), (2060, 2040, 5), (4110, 4090, 5), (66000, 65530, 4), (66000, 0, 1)):
            j.add(r, "h_scan", [op, n, (op + bits) % 5 if n < 60000 else bits % 2, base, bits], (1, 2) if base == 0 else (1,), insts=2_000_000_000)


def c16(j):
    far_scans(j, j.unit("scan", "m_dedup", REAL), (0, 1, 2))
    r = j.unit("real", "m_search", REAL)
    for op in range(6):
        for n in range(0, j.t(14, 40)):
            for lay in range(5) if n < 6 else (n % 5,):
                j.add(r, "h_is_sorted", [op, n, lay, 0, 0 if n < 8 else 16, 0], (2,) if n < 2 else (1, 2))
    for n in range(0, j.t(24, 60)):
        for lay in (n % 5, (n + 2) % 5):
            j.add(r, "h_contains", [0, n, lay, 0, 16, 0], (1,) if n == 0 else (1, 2))
    structured(j, r, "h_is_sorted", (0, 1, 2, 5), list(range(14, 70)) + [100, 127, 128, 129, 255, 256, 257, 512, 513, 1000], (1, 11, 14), 2, (0, 1, 2))
    structured(j, r, "h_contains", (0,), (31, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 512, 1000), (1, 7), 1, (0, 1, 2))
    for n in (0, 1, 2, 5):
        j.add(r, "h_broadcast", [0, n])


def c17(j):
    r = j.unit("real", "m_dedup", REAL)
    for lay in range(5):
        for lo in range(0, j.t(120, 300), 20):
            j.add(r, "h_reverse", [lo, lo + 20, lay])
        for lo in list(range(120, 320, 20)) + [500, 1010, 2040, 4090]:
            j.add(r, "h_reverse", [lo, lo + 20, lay, 1])


# ---------------------------------------------------------------- C18: zero-sized

def c18(j):
    for u, cfg in (("small", SMALL), ("real", REAL)):
        s = j.unit(u, ALL + ",m_zst", cfg)
        for op in range(15):
            for n in (0, 1, 2, 3, 4, 5, 9):
                for step, neg in ((1, 0), (2, 0), (3, 1), (1, 1)):
                    need = [1]
                    if op == 7:
                        need += [11] + ([10] if n else [])
                    if op in (8, 9):
                        need += [11] + ([10] if n > 1 else [])
                    if n > 5 and op in (2, 5, 10, 11, 12, 14) and not j.thorough:
                        continue
                    j.add(s, "h_zst", [op, n, step, neg], need)
        for op in range(8):
            j.add(s, "h_zst_far", [op], [1] if op < 4 else [1, 10, 11])


# ---------------------------------------------------------------- C19: schedules

def c19(j):
    s = j.unit("small", ALL + ",m_par", SMALL)
    r = j.unit("real", ALL + ",m_par", REAL)
    k = 0
    for op in (7, 8, 9, 10, 11, 12, 13, 26 - 3, 27 - 3, 28 - 3):
        for n in (2, 3, 4):
            j.add(s, "h_schedules", [op, n, (k + n) % 4, 0, 0, 0, 2, 5, 2 if op == 10 else 0, 2 if n < 4 else 0, 2])
            k += 1
        j.add(s, "h_schedules", [op, 5, k % 4, 0, 2 if op < 11 else 0, 0, 2, 4, 0, 0, 3])
        for n in (8, 12, 20, 30):
            for pat in (2, 7, 8, 13):
                j.add(s, "h_schedules", [op, n, k % 4, pat, 1, j.seed + k, 2, 5, 0, k % 2, 2 + n // 3])
                k += 1
    for op in (8, 12, 24, 10):
        for n in (9, 14):
            for pat in (7, 2):
                j.add(s, "h_schedules", [op, n, k % 4, pat, 0, j.seed + k, 2, j.t(9, 11), 0, 0, 5])
                k += 1
    for op, n, pat in [(8, 4100, 7), (8, 6500, 2), (7, 10100, 7), (9, 8200, 13), (12, 4200, 7), (12, 9000, 12), (11, 6500, 2), (13, 6000, 8),
                       (24, 4200, 7), (24, 9000, 2), (23, 6500, 12), (25, 4200, 8)] + j.t([], [(8, 12001, 8), (7, 20100, 7), (12, 16500, 7), (24, 16500, 7)]):
        for bud in j.t((3,), (2, 6)):
            j.add(r, "h_schedules", [op, n, 0, pat, 0, j.seed, 2, bud, 2 if op < 10 else 0, 0, 12], insts=2_000_000_000)
    # pieces which are made of runs of certain lengths
    for op, n, pat in RUNS:
        j.add(r, "h_schedules", [op, n, 0, pat, 0, j.seed, 2, 1, 3, 0, 12], insts=2_000_000_000)


# parallel stable sorts of runs of certain lengths, also in each of the pieces
RUNS = [(8, 4000, 1000), (7, 4001, 11000), (8, 4000, 667), (7, 6000, 1000), (8, 4000, 999), (9, 4000, 1001), (8, 4400, 10500), (7, 4100, 300), (8, 6100, 2000), (8, 5999, 12000)]

# ---------------------------------------------------------------- C20: cost

def c20(j):
    r = j.unit("real", ALL + ",m_cost", REAL)
    # [.., bound kind (0: f n, 1: f n log2 n, 2: f n (1 + log2 m)) and f, addend, index, m, _, free decisions]
    k = 0
    for op in (0, 1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 13):
        par = op >= 7
        # sorted, reversed and constant input: linear
        for n in (21, 49, 50, 51, 130, 300, 700):
            for pat in (1, 2, 3):
                if n < 50 and pat == 2 and op in (0, 1, 2, 11, 12, 13):
                    continue  # too short for reversals to be looked for
                j.add(r, "h_cost", [op, n, k % 4, pat, 0, 0, 0, 2, 60, 0, 0])
                k += 1
        for n in (15, 21, 33, 64):
            for pat in (1, 2, 4, 6, 7, 8, 9, 10, 11, 12, 13, 14):
                j.add(r, "h_cost", [op, n, k % 4, pat, 1, j.seed + k, 1, 2, 30, 0, 0])
                k += 1
        for n in j.t((300,), (300, 600, 1000)):
            for pat in (4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14):
                j.add(r, "h_cost", [op, n, k % 4, pat, 0, j.seed + k, 1, 2, 30, 0, 0])
                k += 1
        for n, free in j.t(((300, 4), (1000, 2)), ((300, 8), (1000, 5), (2000, 4))) if op in (1, 4, 8, 12) else ():
            j.add(r, "h_adversary", [op, n, k % 3, 0, 0, 0, 1, 4, 100, 0, 0, 0, free])
            k += 1
    for op in (20, 21, 22):
        for n in (15, 33, 64):
            for pat in (1, 2, 4, 6, 7, 8, 12, 14):
                j.add(r, "h_cost", [op, n, k % 4, pat, 1, j.seed + k, 0, 12, 60, (k * 7) % n, 0])
                k += 1
        for n in (300, 700):
            for pat in (1, 2, 4, 6, 7, 8, 12, 14):
                j.add(r, "h_cost", [op, n, k % 4, pat, 0, j.seed + k, 0, 12, 60, (0, n // 2, n - 1, n // 3)[k % 4], 0])
                k += 1
        for n, free in j.t(((300, 4), (1000, 2)), ((300, 8), (1000, 5), (2000, 4))) if op == 21 else ():
            for i in (1, n // 4, n // 2, n - 2):
                j.add(r, "h_adversary", [op, n, k % 3, 0, 0, 0, 0, 30, 100, i, 0, 0, free])
                k += 1
    for op in range(23, 29):
        for n, m in ((33, 5), (64, 64), (300, 1), (300, 9), (300, 100)):
            for pat in (1, 2, 7, 8, 12):
                j.add(r, "h_cost", [op, n, k % 4, pat, 1 if n < 100 else 0, j.seed + k, 2, 12, 60, 0, m])
                k += 1
        for n, m, free in ((1000, 8, 2), (1000, 60, 1)) if op in (24, 27) else ():
            j.add(r, "h_adversary", [op, n, k % 3, 0, 0, 0, 2, 30, 100, 0, m, 0, free])
            k += 1


def c21(j):
    s = j.unit("small", ALL + ",m_shared", SMALL)
    r = j.unit("real", ALL + ",m_shared", REAL)
    for op in range(12):
        for kind in range(6):
            for n in (3, 4) if not j.thorough else (3, 4, 5):
                j.add(s, "h_shared", [op, n, kind])
            j.add(r, "h_shared", [op, 3, kind])


def c22(j):
    s = j.unit("small", ALL + ",m_space", SMALL)
    r = j.unit("real", ALL + ",m_space", REAL)
    k = 0
    for op in tuple(range(14)) + (20, 21, 22) + tuple(range(30, 37)):
        main = op < 6 or 20 <= op <= 32
        for n in (0, 1, 2, 3, 4) if main else (0, 1, 2, 3):
            if 20 <= op <= 22 and n == 0:
                continue
            j.add(s, "h_space", [op, n, n % 4, 0, 0, 0])
        for n in range(8, 40, 3 if main else 5):
            j.add(s, "h_space", [op, n, n % 4, 7, 1, j.seed + n])
        for n in range(15, 75, j.t(4 if main else 9, 1)):
            j.add(r, "h_space", [op, n, n % 4, (1, 2, 7, 10, 13)[n % 5], 1, j.seed + n])
        for n in (150, 400):
            j.add(r, "h_space", [op, n, 0, 7, 1 if main or op > 29 else 0, j.seed + n])
            j.add(r, "h_space", [op, n, 0, 10, 1 if main or op > 29 else 0, j.seed + n])
    # beyond the sequential limits
    for op in (7, 8, 9, 11, 12, 13):
        for pat in (1, 2, 7):
            j.add(r, "h_space", [op, 4200, k % 4, pat, 0, j.seed + k], insts=2_000_000_000)
            k += 1
    for op in (0, 1, 2, 3, 4, 5, 20, 21, 22):
        for n in (1040, 2100):
            j.add(r, "h_space", [op, n, k % 4, (7, 10)[k % 2], 0, j.seed + k], insts=2_000_000_000)
            k += 1


# ---------------------------------------------------------------- C23, C24: feature sets, depth

def c23(j):
    # the crate's features, and what they offer
    none = j.unit("none", "f_none,u,nth,many,m_sorts,m_select,m_search,m_dedup,m_panics", SMALL)
    alloc = j.unit("alloc", "f_alloc,u,s,nth,many,m_sorts,m_select,m_search,m_dedup,m_panics", SMALL)
    dflt = j.unit("default", "f_std,f_stacker,u,s,c,nth,many,m_sorts,m_cached,m_select,m_panics", SMALL)
    every = j.unit("every", "f_std,f_rayon,f_stacker," + ALL + ",m_sorts,m_cached,m_select,m_panics", SMALL)
    real = j.unit("default-real", "f_std,f_stacker,u,s,c,nth,many,m_sorts,m_select", REAL)
    have = {none: (0, 1, 2), alloc: (0, 1, 2, 3, 4, 5), dflt: (0, 1, 2, 3, 4, 5), every: (0, 1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 13)}
    k = 0
    for u, ops in have.items():
        for op in ops:
            for n in (0, 1, 3) if not j.thorough else range(6):
                j.add(u, "h_sort", [op, n, (op + n) % 4, 0, 0, 0, 0, 0, 0])
        j.add(u, "h_sort", [len(ops) % 3, j.t(4, 6), 0, 0, 0, 0, 0, 0, 0])
        for n in range(8, 60, j.t(3, 1)):
            for pat in (1, 2, 7):
                j.add(u, "h_sort", [ops[k % len(ops)], n, k % 4, pat, 1, j.seed + k, k % 2, 0, 0])
                k += 1
        for op in (0, 1, 2):
            for n in (1, 2, 3) + j.t((), (4, 5)):
                j.add(u, "h_nth", [op, n, n % 4, 0, 0, 0, 0])
            j.add(u, "h_nth_bounds", [op, 2, 0, 0, 0, 0], (1, 2))
        for n in range(7, 40, j.t(4, 1)):
            for pat in (2, 7):
                j.add(u, "h_nth", [k % 3, n, k % 4, pat, 1, j.seed + k, 0])
                k += 1
        for op in (0, 1, 2) + ((3, 4, 5) if u == every else ()):
            for n in (0, 1, 3) + j.t((), (4,)):
                j.add(u, "h_many", [op, n, n % 4, 0, 0, 0, 0, 0, n % 3, 1, op % 2, 0])
            j.add(u, "h_many_bounds", [op, 3, 0, 0, 0, 0, 1], (1, 2))
            for n in range(8, 40, j.t(4, 1)):
                j.add(u, "h_many", [op, n, k % 4, 7, 1, j.seed + k, 1 + k, 1 + (k * 5) % n, 0, 0, op % 2, 0])
                k += 1
        for op in ops + (20, 21, 22, 23, 24, 25) + ((26, 27, 28) if u == every else ()):
            for n in (3, 12):
                j.add(u, "h_panic", [op, n, k % 4, 7 if n > 4 else 0, 0, j.seed, 0, 0, 0, 0, pmask(op, n), 0], (1, 2))
                k += 1
    for u in (none, alloc):
        for op in (0, 1, 2):
            for n in (0, 1, 2, 5):
                j.add(u, "h_is_sorted", [op, n, n % 5, 0, 0, 0], (2,) if n < 2 else (1, 2))
                j.add(u, "h_binary_search", [op, n, n % 5, 0, 16, 0], (2,) if n == 0 else (1, 2))
                j.add(u, "h_dedup", [op, n, n % 5, 0, 0, 0], (1, 2) if n > 1 else (1,))
        j.add(u, "h_contains", [0, 4, 1, 0, 16, 0], (1, 2))
        j.add(u, "h_reverse", [0, 20, 1])
    for u in (dflt, every):
        for par in (0, 1) if u == every else (0,):
            for n in (0, 1, 3) + j.t((), (4,)):
                j.add(u, "h_cached", [par, n, n % 4, 0, 0, 0, 1 + n, 0, 0, 0])
            for n in (9, 20, 33):
                j.add(u, "h_cached", [par, n, n % 4, 7, 1, j.seed, 1 + n % 5, 0, 0, 0])
    for n in (24, 53, 130, 300):
        sym = int(n < 130 or j.thorough)
        for op in (0, 1, 2, 3, 4, 5):
            j.add(real, "h_sort", [op, n, op % 4, (2, 7, 8)[op % 3], sym, j.seed + n])
        for op in (0, 1, 2):
            j.add(real, "h_nth", [op, n, op % 4, 7, sym, j.seed + n, n // 2])
            j.add(real, "h_many", [op, n, op % 4, 7, sym, j.seed + n, 1 + n, 1 + n // 9, 0, 0, 0, 0])


def c28(j):
    f = ALL + ",m_sorts,m_cached,m_select,m_search,m_dedup,m_panics"
    s = j.unit("plain-small", f, SMALL + " " + PLAIN)
    r = j.unit("plain", f, PLAIN)
    b = j.unit("plain-fallback", "pu,u,nth,many,m_sorts,m_select", SFB + " " + PLAIN)
    sorts = (0, 1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 13)
    k = 0
    for op in sorts:
        for n in range(5) if not j.thorough else range(6):
            j.add(s, "h_sort", [op, n, (op + n) % 4, 0, 0, 0, 0, 0, 0])
        j.add(r, "h_sort", [op, 4, op % 4, 0, 0, 0, 0, 0, 0])
    for n in range(8, 60, j.t(2, 1)):
        for pat in (1, 2, 7, 8):
            j.add(s, "h_sort", [sorts[k % len(sorts)], n, k % 4, pat, 1, j.seed + k, k % 2, 0, 0])
            k += 1
    for n in (21, 24, 38, 53, 60, 130, 257, 300):
        for op in sorts:
            j.add(r, "h_sort", [op, n, k % 4, PATS[k % len(PATS)], int(n < 100), j.seed + k, k % 2, 0, 0])
            k += 1
    for op, n in ((7, 4100), (9, 6500), (11, 4100), (12, 6000)):
        for pat in (1, 2, 7):
            j.add(r, "h_sort", [op, n, 0, pat, 0, j.seed, 1, 0, 0], insts=400_000_000)
    for op in (0, 1, 2):
        for n in (1, 2, 3, 4):
            j.add(s, "h_nth", [op, n, n % 4, 0, 0, 0, 0])
        for u in (s, r):
            j.add(u, "h_nth_bounds", [op, 2, 0, 0, 0, 0], (1, 2))
            j.add(u, "h_nth_bounds", [op, 24, 0, 7, 0, j.seed], (1, 2))
        for n in (24, 60, 130, 300):
            j.add(r, "h_nth", [op, n, k % 4, (2, 7, 8)[k % 3], int(n < 100), j.seed + k, n // 2])
            k += 1
    for n in range(7, 40, j.t(3, 1)):
        for pat in (2, 7, 12):
            j.add(s, "h_nth", [k % 3, n, k % 4, pat, 1, j.seed + k, 0])
            k += 1
    for op in range(6):
        for n in (0, 1, 3):
            j.add(s, "h_many", [op, n, n % 4, 0, 0, 0, 0, 0, n % 3, 1, op % 2, 0])
        for u in (s, r):
            j.add(u, "h_many_bounds", [op, 3, 0, 0, 0, 0, 1], (1, 2))
            j.add(u, "h_many_bounds", [op, 3, 0, 0, 0, 0, 2], (1, 2))
        for n in range(8, 40, j.t(3, 1)):
            j.add(s, "h_many", [op, n, k % 4, 7, 1, j.seed + k, 1 + k, 1 + (k * 5) % n, 0, 0, op % 2, 0])
            k += 1
        for n in (24, 60, 300):
            j.add(r, "h_many", [op, n, k % 4, 7, int(n < 100), j.seed + k, 1 + k, 1 + n // 9, 0, 0, op % 2, 0])
            k += 1
    for op in sorts + (20, 21, 22, 23, 24, 25, 26, 27, 28):
        for u, n in ((s, 3), (s, 12), (r, 25)):
            j.add(u, "h_panic", [op, n, k % 4, 7 if n > 4 else 0, 0, j.seed, 0, 0, 0, 0, pmask(op, min(n, 14)), 0], (1, 2))
            k += 1
    for op in (0, 1, 2):
        for n in (0, 1, 2, 5):
            j.add(r, "h_is_sorted", [op, n, n % 5, 0, 0, 0], (2,) if n < 2 else (1, 2))
            j.add(r, "h_binary_search", [op, n, n % 5, 0, 16, 0], (2,) if n == 0 else (1, 2))
            j.add(r, "h_dedup", [op, n, n % 5, 0, 0, 0], (1, 2) if n > 1 else (1,))
    for at in (0, 1):
        j.add(r, "h_search_far", [at], (2,) if at == 0 else (1,))
    for n in (2**32, 2**62, 2**63 - 99):
        j.add(r, "h_search_huge", [n, 0, 19, (n // 3) & ~(15 << 19)], (2,))
    j.add(r, "h_contains", [0, 4, 1, 0, 16, 0], (1, 2))
    for lo, hi in ((0, 20), (126, 131), (254, 259)):
        j.add(r, "h_reverse", [lo, hi, lo % 4])
    for par in (0, 1):
        for n in (0, 1, 3):
            j.add(s, "h_cached", [par, n, n % 4, 0, 0, 0, 1 + n, 0, 0, 0])
        for n in (9, 20, 33):
            j.add(s, "h_cached", [par, n, n % 4, 7, 1, j.seed, 1 + n % 5, 0, 0, 0])
        for n in (255, 256, 257, 300):
            j.add(r, "h_cached", [par, n, 0, 5 if par else 7, 0, j.seed, 1 + n % 4, 0, 0, 0])
    for op in (0, 1, 2, 11):
        for n in (3, 12, 24):
            j.add(b, "h_sort", [op, n, n % 4, 0 if n < 4 else 7, int(n > 3), j.seed, 0, 0, 0])
    for op in (0, 1, 2):
        for n in (3, 4):
            j.add(b, "h_nth", [op, n, n % 4, 0, 0, 0, 0])
        for n in range(12, 40, 5):
            j.add(b, "h_nth", [op, n, n % 4, 7, 1, j.seed + n, 0])
            j.add(b, "h_many", [op, n, n % 4, 7, 1, j.seed + n, 1 + n, 1 + n // 4, 0, 0, op % 2, 0])


def c24(j):
    r = j.unit("real", ALL + ",m_depth", REAL)
    f = j.unit("fb", ALL + ",m_depth", FB)
    k = 0
    for u in (r, f):
        for op in (0, 1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 13, 20, 21, 22, 23, 24, 25, 26, 27, 28):
            if u == f and (op in (3, 4, 5, 7, 8, 9)):
                continue
            many = op >= 23
            for pat in (2, 4, 7, 8, 12):
                j.add(u, "h_depth", [op, 64, k % 4, pat, 1, j.seed + k, k % 2, 0, 0, k % 64, 64 if k % 3 else 30])
                k += 1
            for n in j.t((600, 2000), (600, 1200, 2000)):
                for pat in (2, 7):
                    j.add(u, "h_depth", [op, n, k % 3, pat, 0, j.seed + k, k % 2, 0, 0, (n // 2, 0, n - 1)[k % 3], (n, n // 3, 200)[k % 3]], insts=2_000_000_000)
                    k += 1
            if op in (1, 12, 21, 24, 27):
                for n, free in ((300, 3), (1000, 1)):
                    j.add(u, "h_depth", [op, n, k % 3, 0, 0, 0, k % 2, 0, 0, n // 2, 9, 1, free], insts=2_000_000_000)
    for op, n, m in ((7, 5200, 0), (8, 10100, 0), (11, 4200, 0), (12, 9000, 0), (26, 4200, 4200), (27, 9000, 500), (24, 9000, 9000)):
        for sch in (0, 1):
            j.add(r, "h_depth", [op, n, 0, 7, 0, j.seed, sch, 0, 0, 0, m], insts=2_000_000_000)


# ---------------------------------------------------------------- C25, C26: determinism, interior mutability

REP = (0, 1, 2, 11, 12, 13, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31)


def c25(j):
    s = j.unit("small", ALL + ",m_repeat", SMALL)
    r = j.unit("real", ALL + ",m_repeat", REAL)
    k = 0
    for op in REP + (3, 4, 6, 7, 8, 10):
        for n in (1, 2, 3, 4):
            j.add(s, "h_repeat", [op, n, (op + n) % 4, 0, 1 if n == 4 else 0, 0, 2, 3, n, n])
        for n in range(8, 40, j.t(5, 1)):
            for pat in (2, 5, 8):
                j.add(s, "h_repeat", [op, n, k % 4, pat, 1, j.seed + k, 1 + k % 2, 3, k % 8, 1 + (k * 3) % n])
                k += 1
        for n in range(22, 90, j.t(9, 2)):
            for pat in (4, 8):
                j.add(r, "h_repeat", [op, n, k % 4, pat, 1, j.seed + k, 1 + k % 2, 2, k % 8, 1 + (k * 3) % n])
                k += 1
        for n in (130, 300, 700):
            for pat in (2, 8, 12):
                j.add(r, "h_repeat", [op, n, k % 4, pat, 0, j.seed + k, 1, 0, k % 8, 1 + (k * 3) % n])
                k += 1
    for op, n, m in ((7, 4200, 0), (11, 4200, 0), (12, 5200, 0), (26, 4200, 90), (27, 4200, 2000)):
        j.add(r, "h_repeat", [op, n, 0, 8, 0, j.seed, 1, 0, 1, m], insts=2_000_000_000)


def c26(j):
    s = j.unit("small", ALL + ",m_cells", SMALL)
    r = j.unit("real", ALL + ",m_cells", REAL)
    f = j.unit("sfb", ALL + ",m_cells", SFB)
    k = 0
    for op in SEQ_OPS + PAR_OPS + (29, 30, 31, 32, 33):
        for n in (1, 2, 3, 4):
            j.add(s, "h_cells", [op, n, (op + n) % 4, 0, 0, 0, 2, 3, n, n])
        for n in (2, 3):
            j.add(s, "h_cells", [op, n, (op + n) % 4, 0, 0, 0, 2, 3, n, n, 1, 12, 1], (2,))
        for n in range(8, 40, j.t(5, 1)):
            for pat in (2, 7):
                j.add(s, "h_cells", [op, n, k % 4, pat, 1, j.seed + k, k % 2, 0, k % 8, 1 + (k * 3) % n])
                k += 1
            j.add(s, "h_cells", [op, n, k % 4, 7, 0, j.seed + k, k % 2, 0, k % 8, 1 + (k * 3) % n, 1, 24, 1 + n // 4], (2,))
        for n in (16, 23, 24, 33, 57):
            j.add(r, "h_cells", [op, n, k % 4, (2, 7, 8)[k % 3], 1, j.seed + k, k % 2, 0, k % 8, 1 + (k * 3) % n])
            j.add(r, "h_cells", [op, n, k % 4, 7, 0, j.seed + k, k % 2, 0, k % 8, 1 + (k * 3) % n, 1, 24, 1 + n // 4], (2,))
            j.add(f, "h_cells", [op, n, k % 4, (2, 7, 8)[k % 3], 0, j.seed + k, k % 2, 0, k % 8, 1 + (k * 3) % n])
            k += 1
        for n in (150, 300):
            j.add(r, "h_cells", [op, n, k % 4, (2, 7, 8)[k % 3], 0, j.seed + k, k % 2, 0, k % 8, 1 + (k * 3) % n])
            k += 1
    for op, n, m in ((7, 2100, 0), (8, 5200, 0), (11, 4200, 0), (12, 4200, 0), (26, 2100, 50), (27, 4200, 700)):
        j.add(r, "h_cells", [op, n, 0, 7, 0, j.seed, 1, 0, 1, m], insts=2_000_000_000)


# instructions allowed, about three times what the original code needs
WORK_SORT, WORK_CACHED, WORK_SORT_ADV, WORK_SELECT, WORK_SELECT_ADV, WORK_MANY, WORK_MANY_ADV = 500, 180, 1400, 1800, 6000, 900, 2400
WORK_LINE = {29: 450, 30: 450, 31: 200, 32: 150, 33: 150, 34: 80, 35: 200, 36: 200}


def c27(j, see=0):
    r = j.unit("real", ALL + ",m_work", REAL)
    f = j.unit("rfb", ALL + ",m_work", FB)
    s = j.unit("small", ALL + ",m_work", SMALL)
    # [.., bound kind (0: f n, 1: f n log2 n, 2: f n (1 + log2 m), 3: f log2 n), f, _, index or value, m, adversary, free decisions]
    PATS = (1, 2, 3, 4, 7, 8, 9, 10, 12, 13, 14, 15, 16)
    k = 0
    for op in range(14):
        w = WORK_CACHED if op in (6, 10) else WORK_SORT
        for n in (64, 200):
            for pat in PATS:
                j.add(r, "h_work", [op, n, k % 5, pat, 1 if n < 100 or pat in (7, 12) else 0, j.seed + k, 1, w, see, 0, 0])
                k += 1
        for n in j.t((1000,), (600, 1000, 3000)):
            for pat in PATS:
                j.add(r, "h_work", [op, n, k % 5, pat, 0, j.seed + k, 1, w, see, 0, 0])
                k += 1
        if op in (6, 10):
            for pat in (15, 16):
                j.add(r, "h_work", [op, 3000, k % 5, pat, 0, j.seed + k, 1, w, see, 0, 0])
                k += 1
        j.add(f, "h_work", [op, 700, k % 5, 7, 0, j.seed + k, 1, w, see, 0, 0])
        if op in (1, 4, 8, 12):
            for n, free in j.t(((300, 3), (1000, 2)), ((300, 6), (1000, 4), (2000, 3))):
                j.add(r, "h_work", [op, n, k % 5, 0, 0, 0, 1, WORK_SORT_ADV, see, 0, 0, 1, free])
                k += 1
    for op in (20, 21, 22):
        for n in (64, 1000):
            for pat in PATS:
                j.add(r, "h_work", [op, n, k % 5, pat, 1 if n < 100 else 0, j.seed + k, 0, WORK_SELECT, see, (k * 37) % n, 0])
                k += 1
        j.add(f, "h_work", [op, 700, k % 5, 7, 0, j.seed + k, 0, WORK_SELECT, see, 333, 0])
        if op == 21:
            for i in (1, 250, 500, 998):
                j.add(r, "h_work", [op, 1000, k % 5, 0, 0, 0, 0, WORK_SELECT_ADV, see, i, 0, 1, 2])
                k += 1
    for op in range(23, 29):
        for n, m in ((64, 64), (1000, 1), (1000, 30), (1000, 1000)):
            for pat in (1, 2, 7, 8, 12, 15):
                j.add(r, "h_work", [op, n, k % 5, pat, 1 if n < 100 else 0, j.seed + k, 2, WORK_MANY, see, 0, m])
                k += 1
        if op in (24, 27):
            j.add(r, "h_work", [op, 1000, k % 5, 0, 0, 0, 2, WORK_MANY_ADV, see, 0, 30, 1, 1])
    # beyond the sequential limits, and with many pieces
    for op in (7, 8, 9, 11, 12, 13):
        for pat in (2, 7, 8, 12, 1000 if op < 10 else 15):
            j.add(r, "h_work", [op, (5200, 10100)[k % 2], k % 5, pat, 0, j.seed + k, 1, WORK_SORT, see, 0, 0], insts=2_000_000_000)
            k += 1
    for op in (26, 27, 28):
        for n, m in ((4200, 30), (4200, 4200)):
            j.add(r, "h_work", [op, n, k % 5, 7, 0, j.seed + k, 2, WORK_MANY, see, 0, m], insts=2_000_000_000)
            k += 1
    for op in (7, 8, 11, 12):
        for pat in (2, 4, 7, 8, 12, 13, 15, 16, 100):
            j.add(s, "h_work", [op, 1000, k % 5, pat, 0, j.seed + k, 1, 1300 if op < 10 else 750, see, 0, 0])
            k += 1
    for op in (26, 27):
        for m in (10, 1000):
            j.add(s, "h_work", [op, 1000, k % 5, 7, 0, j.seed + k, 2, WORK_MANY, see, 0, m])
            k += 1
    for op in range(29, 37):
        for n in (64, 1000):
            for pat in (1, 2, 3, 5, 7, 8, 12):
                j.add(r, "h_work", [op, n, k % 5, pat, 1 if n < 100 and op < 35 else 0, j.seed + k, 3 if op > 34 else 0, WORK_LINE[op], see, 2 * ((k * 37) % n), 0])
                k += 1


CHECKS = {k.upper(): f for k, f in list(globals().items()) if len(k) == 3 and k[0] == "c" and k[1:].isdigit()}
