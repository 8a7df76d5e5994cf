#!/usr/bin/env python3
"""check.py ID: decides one property by symbolic execution of /repo's current code.

Builds the harness with /repo's working tree to LLVM IR, executes the entries the property lists
(vf/props.py) symbolically with engine/, replays every counterexample natively and writes
evidence/<ID>.json. Exit 0: held within the bounds; 1: VIOLATION; 2: no answer.
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vf import props, meta

T0 = time.time()
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
IRFLAGS = "--cap-lints=allow --emit=llvm-ir,link -C no-vectorize-loops -C no-vectorize-slp -Zshare-generics=no"
SYMEX = f"{HERE}/engine/target/release/symex"
LIMIT = {"quick": 840, "thorough": 6 * 3600}


class NoAnswer(Exception):
    pass


def say(*a):
    print(*a, flush=True)


def env(**kw):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k != "CARGO_HOME" or k in ("RUSTFLAGS", "RUSTDOCFLAGS", "RUSTC_WRAPPER", "RUST_BACKTRACE"):
            del e[k]
    e.update(CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN=TOOLCHAIN, RUSTC_BOOTSTRAP="1", RUST_BACKTRACE="0", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    e.update(kw)
    return e


def run(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, **kw)


def build_engine():
    os.makedirs(f"{HERE}/build", exist_ok=True)
    with open(f"{HERE}/build/engine.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = run(["cargo", "build", "--release", "--offline"], cwd=f"{HERE}/engine", env=env())
        if r.returncode:
            raise NoAnswer("engine does not build:\n" + r.stdout[-3000:])


def unit_dir(features, cfg, extra=""):
    h = hashlib.sha1(f"{features}|{cfg}|{extra}".encode()).hexdigest()[:10]
    return f"{HERE}/build/u-{h}"


def cargo_unit(d, features, cfg, flags, profile="release", extra=()):
    """Builds the harness against /repo; what depends on /repo is always built anew."""
    for p in ("ndarray_slice", "ndarray-slice", "harness"):
        for f in glob.glob(f"{d}/**/{profile}/.fingerprint/{p}-*", recursive=True) + glob.glob(f"{d}/{profile}/.fingerprint/{p}-*"):
            shutil.rmtree(f, ignore_errors=True)
        for f in glob.glob(f"{d}/**/deps/{p}-*", recursive=True):
            os.path.isfile(f) and os.remove(f)
    r = run(["cargo", "build", "--release", "--offline", "--target-dir", d, "--no-default-features", "--features", features, *extra],
            cwd=f"{HERE}/harness", env=env(RUSTFLAGS=f"{flags} {cfg}".strip()))
    if r.returncode:
        raise NoAnswer(f"the harness does not build with /repo ({features}; {cfg}):\n" + r.stdout[-4000:])


def ir_files(d):
    fs = [f for f in sorted(glob.glob(f"{d}/release/deps/*.ll")) if not re.search(r"/(autocfg|matrixmultiply|replay|build_script)[^/]*$", f)]
    # one module per crate, the latest
    best = {}
    for f in fs:
        c = os.path.basename(f).rsplit("-", 1)[0]
        if c not in best or os.path.getmtime(f) > os.path.getmtime(best[c]):
            best[c] = f
    for c in ("harness", "ndarray_slice", "rayon_core"):
        if c not in best:
            raise NoAnswer(f"no IR of {c}")
    return sorted(best.values())


def std_files():
    """IR of libcore and liballoc, from the bitcode in the toolchain: what the compiler left out of the other crates' modules because an instance exists there."""
    out = f"{HERE}/build/std"
    os.makedirs(out, exist_ok=True)
    with open(f"{out}/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(["rustc", "--print", "sysroot"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env())
        lib = f"{r.stdout.strip()}/lib/rustlib/x86_64-unknown-linux-gnu"
        fs = []
        for c in ("core", "alloc"):
            rlib = glob.glob(f"{lib}/lib/lib{c}-*.rlib")
            if len(rlib) != 1:
                return []
            ll = f"{out}/{os.path.basename(rlib[0])[3:-5]}.ll"
            if not os.path.exists(ll):
                for f in glob.glob(f"{out}/*.o") + glob.glob(f"{out}/bc"):
                    os.remove(f)
                ok = run([f"{lib}/bin/llvm-ar", "x", rlib[0]], cwd=out).returncode == 0
                objs = [f for f in glob.glob(f"{out}/*.o")]
                ok = ok and len(objs) == 1
                ok = ok and run([f"{lib}/bin/llvm-objcopy", "--dump-section", f".llvmbc={out}/bc", objs[0], "/dev/null"]).returncode == 0
                ok = ok and run([f"{lib}/bin/llvm-dis", f"{out}/bc", "-o", ll + ".part"]).returncode == 0
                if not ok:
                    return []
                os.rename(ll + ".part", ll)
            fs.append(ll)
        return fs


def case_line(jid, job, inputs):
    return f"case {jid} {job['entry']} p={','.join(map(str, job['p']))} i={','.join(map(str, inputs))}"


def native(binary, lines, timeout, wrap=(), threads=False, **ev):
    """Runs cases natively; {id: (status, detail)}."""
    e = env(**ev)
    if threads:
        e["VERIF_REPLAY_THREADS"] = "1"
    out, rc = "", None
    try:
        p = subprocess.run([*wrap, binary], input="\n".join(lines) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, env=e, cwd="/tmp")
        out, rc, err = p.stdout, p.returncode, p.stderr
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b"").decode(errors="replace")
        err = (x.stderr or b"").decode(errors="replace")
    res, started = {}, None
    for l in out.splitlines():
        f = l.split(" ", 3)
        if f[0] == "start":
            started = f[1]
        elif f[0] == "result":
            res[f[1]] = (f[2], f[3] if len(f) > 3 else "")
            started = None
    if started is not None:
        res[started] = ("HANG", f"still running after {timeout} s") if rc is None else ("CRASH", f"exit status {rc}: {err.strip()[-600:]}")
    return res, rc, err


def work_bound(p):
    """As in `h_work`."""
    n = p[1]
    return {0: n, 1: n * n.bit_length(), 2: n * (1 + p[10].bit_length())}.get(p[6], n.bit_length()) * p[7] + 2000


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in LIMIT:
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.j = props.Jobs(self.tier, self.seed % 1000)
        props.CHECKS[pid](self.j)
        for k, x in enumerate(self.j.jobs):
            x["id"] = f"j{k}"
        self.by_id = {x["id"]: x for x in self.j.jobs}
        self.res, self.raw, self.errors = {}, {}, []
        self.times = {}

    def left(self):
        return LIMIT[self.tier] - (time.time() - T0)

    def unit(self, name):
        try:
            features, cfg = self.j.units[name]
            d = unit_dir(features, cfg)
            os.makedirs(d, exist_ok=True)
            with open(f"{d}/verif.lock", "w") as lk:
                fcntl.flock(lk, fcntl.LOCK_EX)
                t = time.time()
                cargo_unit(d, features, cfg, IRFLAGS)
                lls = ir_files(d)
                self.times[name] = {"build_s": round(time.time() - t, 1)}
                jobs = [x for x in self.j.jobs if x["unit"] == name]
                jf, of = f"{d}/{self.pid}.jobs", f"{d}/{self.pid}.out.json"
                with open(jf, "w") as f:
                    for x in jobs:
                        f.write(f"{x['id']} {x['entry']} p={','.join(map(str, x['p']))} sample={x['sample']}" + (f" insts={x['insts']}" if x["insts"] else "") + "\n")
                cmd = [SYMEX, "run"]
                for f in lls + std_files():
                    cmd += ["--ll", f]
                dl = max(30, self.left() - 120)
                cmd += ["--jobs", jf, "--out", of, "--threads", str(os.cpu_count() or 8), "--deadline", f"{dl:.0f}", "--seed", str(self.seed), "--qtimeout", "20000"]
                if os.path.exists(of):
                    os.remove(of)
                t = time.time()
                r = run(cmd, timeout=dl + 100)
                if r.returncode:
                    raise NoAnswer(f"symex ended with {r.returncode}: {r.stdout[-2000:]}")
                self.times[name]["symex_s"] = round(time.time() - t, 1)
                raw = json.load(open(of))
                for x in raw["jobs"]:
                    self.res[x["id"]] = x
                self.raw[name] = raw
                shutil.copy2(f"{d}/release/replay", f"{d}/replay.{self.pid}")
        except NoAnswer as e:
            self.errors.append(f"[{name}] {e}")
        except Exception as e:
            self.errors.append(f"[{name}] {type(e).__name__}: {e}")

    def binary(self, unit):
        return f"{unit_dir(*self.j.units[unit])}/replay.{self.pid}"

    # ----- counterexamples -----

    def reproduce(self, job, v):
        """How the counterexample shows natively, or None."""
        line = case_line("v", job, v["inputs"])
        b = self.binary(job["unit"])
        bad = ("FAIL", "CRASH", "HANG")
        res, rc, err = native(b, [line], 40)
        st, det = res.get("v", ("CRASH", f"exit status {rc}"))
        if st in bad:
            return f"{st} {det}"
        features, cfg = self.j.units[job["unit"]]
        if v["kind"] in ("memory", "uninit", "ub", "assert", "panic", "abort", "deadlock"):
            d = unit_dir(features, cfg, "asan")
            try:
                cargo_unit(d, features, cfg, "--cap-lints=allow -Zsanitizer=address", extra=("--target", "x86_64-unknown-linux-gnu"))
                res, rc, err = native(f"{d}/x86_64-unknown-linux-gnu/release/replay", [line], 120, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0")
                st, det = res.get("v", ("CRASH", f"exit status {rc}"))
                m = re.search(r"ERROR: AddressSanitizer: .*", err)
                if m:
                    return f"AddressSanitizer: {m.group(0)}"
                if st in bad:
                    return f"{st} {det} (address sanitizer build)"
            except NoAnswer as e:
                self.errors.append(str(e)[:500])
            res, rc, err = native(b, [line], 200, wrap=("valgrind", "-q", "--error-exitcode=77", "--track-origins=no"))
            m = re.search(r"==\d+== (Conditional jump.*|Use of uninit.*|Invalid (?:read|write).*|Invalid free.*|Source and destination overlap.*)", err)
            if m:
                return f"valgrind: {m.group(1)}"
        if v["msg"].startswith("amount of work"):
            # as many instructions more than nothing at all takes
            n = [0, 0]
            for k, lines in enumerate(([], [line])):
                res, rc, err = native(b, lines, 200, wrap=("valgrind", "--tool=callgrind", "--callgrind-out-file=/dev/null"))
                m = re.search(r"Collected : (\d+)", err)
                n[k] = int(m.group(1)) if m else 0
            allowed = work_bound(job["p"])
            if n[0] and n[1] - n[0] > 0.6 * allowed:
                return f"{n[1] - n[0]} machine instructions where {allowed} of the intermediate code are allowed"
        if v["kind"] == "race":
            for tool in ("helgrind", "drd"):
                for _ in range(3):
                    res, rc, err = native(b, [line], 200, wrap=("valgrind", f"--tool={tool}", "-q"), threads=True)
                    st, det = res.get("v", ("CRASH", f"exit status {rc}"))
                    if st in bad:
                        return f"{st} {det} (with threads)"
                    for blk in re.split(r"(?m)^==\d+== *$", err):
                        if re.search(r"data race|Conflicting (load|store)", blk) and "ndarray_slice" in blk:
                            return f"{tool}: " + re.sub(r"==\d+== ?", "", blk).strip().split("\n")[0]
        return None

    def known(self, job, v):
        for k in load_known():
            if k["property"] == self.pid and k["entry"] == job["entry"] and k["match"] in f"{v['kind']}: {v['msg']} {v['panic']}" and all(str(job["p"][int(i)]) == x for i, x in k["params"]):
                return k
        return None

    def main(self):
        build_engine()
        ths = [threading.Thread(target=self.unit, args=(u,)) for u in self.j.units]
        [t.start() for t in ths]
        [t.join() for t in ths]
        viols = []
        for jid, r in self.res.items():
            for v in r["violations"]:
                viols.append((self.by_id[jid], v))
        # one per entry, operation, kind and message first, small ones first
        viols.sort(key=lambda x: (len(x[1]["inputs"]), x[0]["p"][1] if len(x[0]["p"]) > 1 else 0, x[1]["steps"]))
        groups = {}
        for job, v in viols:
            groups.setdefault((job["entry"], v["kind"], v["msg"][:80], v["panic"]), []).append((job, v))
        order = sorted(groups.values(), key=lambda g: g[0][1]["kind"] in ("hang", "race"))
        reported, unreproduced, knowns = [], [], []
        for g in order:
            hit = None
            k = self.known(*g[0])
            if k and all(self.known(*x) for x in g):
                knowns.append((k, g[0]))
                continue
            for job, v in g[:3]:
                if reported and self.left() < 200 or self.left() < 30:
                    break
                how = self.reproduce(job, v)
                if how:
                    hit = (job, v, how)
                    break
            (reported if hit else unreproduced).append(hit or g[0])
            if len(reported) >= 4:
                break
        validated = 0 if reported else self.validate()
        if not reported:
            self.complete()
        self.evidence(validated, reported, viols)
        for k, (job, v) in knowns:
            say(f"KNOWN-FINDING: property={self.pid} {k['text']}")
        if reported:
            for n, (job, v, how) in enumerate(reported):
                path = self.replay_file(n, job, v, how)
                say(f"violation: {job['entry']} p={job['p']} ({job['unit']}): {v['kind']}: {v['msg']} {v['panic']}")
                say(f"  inputs {v['inputs']}; natively: {how}")
                say(f"VIOLATION property={self.pid} replay={path}")
            return 1
        for job, v in unreproduced:
            self.errors.append(f"counterexample not reproduced natively: {job['entry']} p={job['p']} ({job['unit']}) inputs={v['inputs']} {v['kind']}: {v['msg']} {v['panic']} at {v['trace'][:4]}")
        if self.errors:
            for e in self.errors[:12]:
                say("ERROR", e)
            return 2
        s = self.summary
        say(f"{self.pid}: held on {s['paths']} paths of {len(self.res)} symbolic executions, {s['asserts']} assertions decided ({s['queries']} solver queries, {s['solver_s']:.1f} s), {validated} paths replayed natively; {time.time() - T0:.0f} s")
        return 0

    def replay_file(self, n, job, v, how):
        os.makedirs(f"{HERE}/evidence/replay", exist_ok=True)
        p = f"{HERE}/evidence/replay/{self.pid}-{n}.txt"
        features, cfg = self.j.units[job["unit"]]
        with open(p, "w") as f:
            f.write(f"# property {self.pid}: {v['kind']}: {v['msg']} {v['panic']}\n# natively: {' '.join(how.split())}\n")
            f.write(f"# run with: /verif/replay.sh {p}\n# features {features}\n# cfg {cfg}\n")
            for t in v["trace"][:12]:
                f.write(f"#   at {t}\n")
            f.write(case_line("v", job, v["inputs"]) + "\n")
        return p

    # ----- a run without violations -----

    def validate(self):
        """Sampled paths behave natively as the symbolic execution says."""
        n = 0
        for u in self.j.units:
            lines, want = [], {}
            for x in self.j.jobs:
                r = self.res.get(x["id"])
                if x["unit"] != u or r is None:
                    continue
                for k, s in enumerate(r["samples"]):
                    i = f"{x['id']}.{k}"
                    lines.append(case_line(i, x, s["inputs"]))
                    want[i] = (x, s)
            if not lines or not os.path.exists(self.binary(u)):
                continue
            res, rc, err = native(self.binary(u), lines, 200)
            for i, (x, s) in want.items():
                st, det = res.get(i, ("MISSING", f"exit status {rc} {err[-300:]}"))
                exp = f"obs={','.join(map(str, s['obs']))} covers={','.join(map(str, s['covers']))} used={len(s['inputs'])}"
                if st == "ok" and det == exp:
                    n += 1
                elif len(self.errors) < 30:
                    self.errors.append(f"native run of a sampled path differs: {x['entry']} p={x['p']} ({u}) inputs={s['inputs']}: {st} {det[:300]} expected {exp[:300]}")
        return n

    def complete(self):
        for x in self.j.jobs:
            r = self.res.get(x["id"])
            what = f"{x['entry']} p={x['p']} ({x['unit']})"
            if r is None:
                self.errors.append(f"no result: {what}")
                continue
            for e in r["errors"][:1]:
                self.errors.append(f"{what}: {e[:600]}")
            if not r["complete"] and not r["errors"] and not r["violations"]:
                self.errors.append(f"not explored completely: {what}")
            for c in x["need"]:
                if r["complete"] and not r["violations"] and not r["covers"].get(str(c)):
                    self.errors.append(f"vacuous: witness {c} not reached: {what}")

    def evidence(self, validated, reported, viols):
        R = list(self.res.values())
        tot = lambda k: sum(r[k] for r in R)
        sol = {k: sum(raw["solver"][k] for raw in self.raw.values()) for k in ("queries", "sat", "unsat", "unknown", "time_s")}
        funcs = {}
        for raw in self.raw.values():
            for name, c, t in raw["functions"]:
                if "ndarray_slice" in name:
                    a = funcs.setdefault(name, [0, 0])
                    a[0] = max(a[0], c)
                    a[1] = max(a[1], t)
        top = sorted(R, key=lambda r: -r["paths"])
        samples = []
        for r in top[:2] + R[-2:]:
            for s in r["samples"][:1]:
                x = self.by_id[r["id"]]
                samples.append({"entry": x["entry"], "params": x["p"], "unit": x["unit"], "inputs": s["inputs"][:40], "observed": s["obs"][:40]})
        self.summary = dict(paths=tot("paths"), asserts=tot("asserts_solver") + tot("asserts_const"), queries=sol["queries"], solver_s=sol["time_s"])
        m = meta.PROPS[self.pid]
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": tot("paths"),
                "transitions": tot("insts"),
                "traces_validated_against_impl": validated,
                "samples": samples,
                "exhaustive": False,
                "explanation": "states: feasible paths of the symbolic executions, each standing for every input that takes it; transitions: IR instructions executed; each path's assertions are decided for all of its inputs",
                "jobs": len(R), "jobs_planned": len(self.j.jobs), "jobs_complete": sum(r["complete"] for r in R),
                "paths_nontrivial": tot("nontrivial"), "forks": tot("forks"), "infeasible": tot("infeasible"),
                "assertions_decided_by_solver": tot("asserts_solver"), "assertions_decided_by_rewriting": tot("asserts_const"),
                "joins_checked_for_races": tot("joins"),
                "solver": {"name": "z3", **{k: (round(v, 3) if k == "time_s" else v) for k, v in sol.items()}},
                "bounds": m["bounds"],
                "units": {u: {"features": f, "cfg": c or "(none: original constants)", **self.times.get(u, {})} for u, (f, c) in self.j.units.items()},
                "entries": {e: sum(1 for x in self.j.jobs if x["entry"] == e) for e in sorted({x["entry"] for x in self.j.jobs})},
                "functions_encoded": len(funcs),
                "functions": [f"{n}: {c} of {t} basic blocks reached" for n, (c, t) in sorted(funcs.items())][:80],
                "errors": self.errors[:10],
            },
            "assumptions": meta.COMMON + m.get("assumptions", []),
            "wall_s": round(time.time() - T0, 1),
            "violations": len(viols),
        }
        os.makedirs(f"{HERE}/evidence", exist_ok=True)
        with open(f"{HERE}/evidence/{self.pid}.json", "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")


def load_known():
    """known: property=C00 entry=h_x params=0:3,1:5 match=<text of the violation> | <description>"""
    out = []
    try:
        for l in open(f"{HERE}/known-findings.txt"):
            m = re.match(r"known: property=(\S+) entry=(\S+) params=(\S*) match=(.*?) \| (.*)", l)
            if m:
                ps = [tuple(x.split(":")) for x in m.group(3).split(",") if x]
                out.append(dict(property=m.group(1), entry=m.group(2), params=ps, match=m.group(4), text=m.group(5).strip()))
    except FileNotFoundError:
        pass
    return out


if __name__ == "__main__":
    c = None
    if sys.argv[1:] == ["--setup"]:
        try:
            build_engine()
            sys.exit(0)
        except NoAnswer as e:
            say("ERROR", e)
            sys.exit(2)
    try:
        c = Check(sys.argv[1])
        rc = c.main()
    except NoAnswer as e:
        say("ERROR", e)
        rc = 2
    if "--times" in sys.argv and c:
        for r in sorted(c.res.values(), key=lambda r: -r["cpu_s"])[:25]:
            x = c.by_id[r["id"]]
            say(f"{r['cpu_s']:8.1f} cpu {r['paths']:7} paths {r['insts'] / 1e6:8.1f} Minst {x['unit']} {x['entry']} {x['p']}")
        say(c.times, "cpu", round(sum(r["cpu_s"] for r in c.res.values())), {u: round(sum(c.res[x['id']]['cpu_s'] for x in c.j.jobs if x['unit'] == u and x['id'] in c.res)) for u in c.j.units})
    sys.exit(rc)
