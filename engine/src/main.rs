//! symex: bounded symbolic execution of rustc-emitted LLVM IR with Z3.
//!
//! usage: symex run  --ll FILE... --jobs FILE --out FILE [--threads N] [--deadline S] [--qtimeout MS]
//!        symex list --ll FILE...
mod exec;
mod expr;
mod ir;
mod link;
mod ll;
mod mem;
mod z3;

use exec::*;
use link::*;
use std::collections::{BTreeMap, VecDeque};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
struct Viol { kind: String, msg: String, inputs: Vec<u64>, trace: Vec<String>, panic: String, path: u64 }
#[derive(Clone)]
struct Sample { hash: u64, inputs: Vec<u64>, obs: Vec<u64>, covers: Vec<u32> }

#[derive(Default)]
struct JobRes {
    stats: Stats,
    viols: Vec<Viol>,
    errors: Vec<String>,
    samples: Vec<Sample>,
    wall: f64,
    incomplete: bool,
}

struct Shared {
    queue: Mutex<VecDeque<(usize, Vec<Dec>)>>,
    cv: Condvar,
    outstanding: Vec<AtomicUsize>,
    total: AtomicUsize,
    idle: AtomicUsize,
    stop: Vec<AtomicBool>,
    res: Vec<Mutex<JobRes>>,
    queries: AtomicU64,
    sat: AtomicU64,
    unsat: AtomicU64,
    unknown: AtomicU64,
    solver_us: AtomicU64,
    max_query_us: AtomicU64,
    deadline: Instant,
    /// Milliseconds after the start at which the exploration ends early, once a violation is known.
    cut: AtomicU64,
    start: Instant,
    grace: f64,
    seed: u64,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl<T: std::fmt::Display>(v: &[T]) -> String {
    let mut o = String::from("[");
    for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } let _ = write!(o, "{x}"); }
    o.push(']');
    o
}

fn hash_decs(d: &[Dec], seed: u64) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
    let mut mix = |x: u64| { h ^= x; h = h.wrapping_mul(0x100000001b3); h ^= h >> 29; };
    for x in d {
        match x {
            Dec::Bool(b, false) => mix(1 + *b as u64),
            Dec::Val(v, e, false) => mix(v.wrapping_mul(4) + 1 + *e as u64),
            _ => {}
        }
    }
    h ^ h >> 32
}

fn worker(sh: &Shared, prog: &Arc<Program>, jobs: &[Job], qtimeout: u32, trace: bool) {
    let mut w = Worker::new(prog.clone(), qtimeout);
    let flush = |w: &mut Worker| {
        sh.queries.fetch_add(w.solver.queries, SeqCst);
        sh.sat.fetch_add(w.solver.sat, SeqCst);
        sh.unsat.fetch_add(w.solver.unsat, SeqCst);
        sh.unknown.fetch_add(w.solver.unknown, SeqCst);
        sh.solver_us.fetch_add((w.solver.time * 1e6) as u64, SeqCst);
        sh.max_query_us.fetch_max((w.solver.max_query * 1e6) as u64, SeqCst);
        w.solver.queries = 0; w.solver.sat = 0; w.solver.unsat = 0; w.solver.unknown = 0; w.solver.time = 0.0;
    };
    loop {
        let item = {
            let mut q = sh.queue.lock().unwrap();
            loop {
                if let Some(x) = q.pop_front() { break Some(x); }
                if sh.total.load(SeqCst) == 0 { break None; }
                sh.idle.fetch_add(1, SeqCst);
                q = sh.cv.wait_timeout(q, Duration::from_millis(50)).unwrap().0;
                sh.idle.fetch_sub(1, SeqCst);
            }
        };
        let Some((ji, prefix)) = item else { flush(&mut w); sh.cv.notify_all(); return };
        if w.ar.nodes.len() > 3_000_000 { flush(&mut w); w = Worker::new(prog.clone(), qtimeout); }
        let t0 = Instant::now();
        let job = &jobs[ji];
        w.stats = Stats::default();
        w.work.clear();
        let st = w.start(job, prefix);
        w.work.push(st);
        let mut viols = Vec::new();
        let mut errors = Vec::new();
        let mut samples: Vec<Sample> = Vec::new();
        let mut incomplete = false;
        let mut last_steal = Instant::now();
        while let Some(mut st) = w.work.pop() {
            if sh.stop[ji].load(Relaxed) { w.work.clear(); incomplete = true; break; }
            if Instant::now() > sh.deadline || sh.start.elapsed().as_millis() as u64 > sh.cut.load(Relaxed) { w.work.clear(); incomplete = true; break; }
            let mut stop = w.run(&mut st);
            if !matches!(stop, Stop::Infeasible | Stop::Error(_)) {
                if let Err(e) = w.witness_ok(&mut st) { stop = e; }
            }
            match stop {
                Stop::Done => {
                    w.stats.paths += 1;
                    for c in &st.covers { *w.stats.covers.entry(*c).or_insert(0) += 1; }
                    if st.decs.iter().any(|d| matches!(d, Dec::Bool(_, false) | Dec::Val(_, _, false))) { w.stats.nontrivial += 1; }
                    if job.sample > 0 {
                        let h = hash_decs(&st.decs, sh.seed);
                        if samples.len() < job.sample as usize || h < samples.last().unwrap().hash {
                            let s = Sample { hash: h, inputs: w.model_inputs(&st), obs: w.model_obs(&st), covers: st.covers.clone() };
                            let k = samples.partition_point(|x| x.hash < h);
                            samples.insert(k, s);
                            samples.truncate(job.sample as usize);
                        }
                    }
                    if trace { let (i, o) = (w.model_inputs(&st), w.model_obs(&st)); eprintln!("path {} inputs {i:?} obs {o:?} decs {} insts {}", w.stats.paths, st.decs.len(), st.icount); }
                }
                Stop::Infeasible => w.stats.infeasible += 1,
                Stop::Violation(kind, msg) => {
                    w.stats.paths += 1;
                    let v = Viol { kind, msg, inputs: w.model_inputs(&st), trace: w.trace(&st), panic: st.last_panic.as_ref().map(|s| s.to_string()).unwrap_or_default(), path: st.icount };
                    viols.push(v);
                    sh.cut.fetch_min((sh.start.elapsed().as_secs_f64() * 1e3 + sh.grace * 1e3) as u64, SeqCst);
                    if viols.len() >= 6 { sh.stop[ji].store(true, SeqCst); }
                }
                Stop::Error(e) => {
                    errors.push(format!("{e} [in {}]", w.trace(&st).join(" < ")));
                    sh.stop[ji].store(true, SeqCst);
                }
            }
            // hand over the oldest alternatives to idle workers
            if w.work.len() >= 2 && sh.idle.load(Relaxed) > 0 && last_steal.elapsed() > Duration::from_millis(2) {
                let mut q = sh.queue.lock().unwrap();
                if q.len() < 16 {
                    let give = (w.work.len() / 2).min(4);
                    for s in w.work.drain(..give) {
                        sh.outstanding[ji].fetch_add(1, SeqCst);
                        sh.total.fetch_add(1, SeqCst);
                        let p = s.full_prefix();
                        q.push_front((ji, p));
                    }
                    sh.cv.notify_all();
                }
                last_steal = Instant::now();
            }
        }
        {
            let mut r = sh.res[ji].lock().unwrap();
            let s = &w.stats;
            r.stats.paths += s.paths; r.stats.infeasible += s.infeasible; r.stats.forks += s.forks; r.stats.insts += s.insts;
            r.stats.max_path = r.stats.max_path.max(s.max_path);
            r.stats.asserts_solver += s.asserts_solver; r.stats.asserts_const += s.asserts_const;
            r.stats.joins += s.joins; r.stats.race_bytes += s.race_bytes; r.stats.nontrivial += s.nontrivial;
            for (k, v) in &s.covers { *r.stats.covers.entry(*k).or_insert(0) += v; }
            r.viols.extend(viols);
            r.errors.extend(errors);
            r.samples.extend(samples);
            r.samples.sort_by_key(|x| x.hash);
            r.samples.truncate(job.sample as usize);
            r.incomplete |= incomplete;
            r.wall += t0.elapsed().as_secs_f64();
        }
        flush(&mut w);
        sh.outstanding[ji].fetch_sub(1, SeqCst);
        sh.total.fetch_sub(1, SeqCst);
        sh.cv.notify_all();
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut lls = Vec::new();
    let (mut jobsf, mut out) = (String::new(), String::new());
    let (mut threads, mut deadline, mut qt, mut seed) = (8usize, 600.0f64, 20000u32, 1u64);
    let mut trace = false;
    let mut grace = 20.0f64;
    let mut i = 2;
    while i < args.len() {
        let nx = || args[i + 1].clone();
        match args[i].as_str() {
            "--ll" => { lls.push(nx()); i += 1; }
            "--jobs" => { jobsf = nx(); i += 1; }
            "--out" => { out = nx(); i += 1; }
            "--threads" => { threads = nx().parse().unwrap(); i += 1; }
            "--deadline" => { deadline = nx().parse().unwrap(); i += 1; }
            "--qtimeout" => { qt = nx().parse().unwrap(); i += 1; }
            "--seed" => { seed = nx().parse().unwrap(); i += 1; }
            "--grace" => { grace = nx().parse().unwrap(); i += 1; }
            "--trace" => trace = true,
            a => { eprintln!("unknown argument {a}"); std::process::exit(2); }
        }
        i += 1;
    }
    let t0 = Instant::now();
    std::panic::set_hook(Box::new(|_| {}));
    let mods: Vec<ir::Module> = std::thread::scope(|s| {
        let hs: Vec<_> = lls.iter().enumerate().map(|(k, f)| s.spawn(move || {
            let t = std::fs::read_to_string(f).unwrap_or_else(|e| { eprintln!("{f}: {e}"); std::process::exit(2) });
            ll::parse_module(&t, k as u32)
        })).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let _ = std::panic::take_hook();
    let prog = Arc::new(link(mods));
    let load_s = t0.elapsed().as_secs_f64();
    if args[1] == "list" {
        println!("{} functions, {} globals, loaded in {load_s:.2}s", prog.funcs.len(), prog.globals.len());
        return;
    }
    let text = std::fs::read_to_string(&jobsf).unwrap();
    let mut jobs = Vec::new();
    let mut bad = Vec::new();
    for l in text.lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        if f.is_empty() || f[0].starts_with('#') { continue; }
        let Some(&e) = prog.by_name.get(f[1]) else { bad.push(f[1].to_string()); continue };
        let mut j = Job { id: f[0].into(), entry: e, params: vec![], max_insts: 50_000_000, sample: 8 };
        for x in &f[2..] {
            if let Some(v) = x.strip_prefix("p=") { j.params = v.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(); }
            if let Some(v) = x.strip_prefix("insts=") { j.max_insts = v.parse().unwrap(); }
            if let Some(v) = x.strip_prefix("sample=") { j.sample = v.parse().unwrap(); }
        }
        jobs.push(j);
    }
    if !bad.is_empty() { eprintln!("no such entry: {bad:?}"); std::process::exit(2); }
    let n = jobs.len();
    let sh = Shared {
        queue: Mutex::new((0..n).map(|k| (k, vec![])).collect()),
        cv: Condvar::new(),
        outstanding: (0..n).map(|_| AtomicUsize::new(1)).collect(),
        total: AtomicUsize::new(n),
        idle: AtomicUsize::new(0),
        stop: (0..n).map(|_| AtomicBool::new(false)).collect(),
        res: (0..n).map(|_| Mutex::new(JobRes::default())).collect(),
        queries: AtomicU64::new(0), sat: AtomicU64::new(0), unsat: AtomicU64::new(0), unknown: AtomicU64::new(0), solver_us: AtomicU64::new(0), max_query_us: AtomicU64::new(0),
        deadline: Instant::now() + Duration::from_secs_f64(deadline),
        cut: AtomicU64::new(u64::MAX),
        start: Instant::now(),
        grace,
        seed,
    };
    let t1 = Instant::now();
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads).map(|_| {
            std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, || worker(&sh, &prog, &jobs, qt, trace)).unwrap()
        }).collect();
        for h in hs { if h.join().is_err() { eprintln!("worker panicked"); std::process::exit(3); } }
    });
    let run_s = t1.elapsed().as_secs_f64();
    // report
    let mut o = String::from("{\n\"jobs\":[\n");
    for (k, j) in jobs.iter().enumerate() {
        let r = sh.res[k].lock().unwrap();
        if k > 0 { o.push_str(",\n"); }
        let s = &r.stats;
        let _ = write!(o, "{{\"id\":{},\"complete\":{},\"paths\":{},\"infeasible\":{},\"forks\":{},\"insts\":{},\"max_path\":{},\"asserts_solver\":{},\"asserts_const\":{},\"joins\":{},\"race_bytes\":{},\"nontrivial\":{},\"cpu_s\":{:.3}",
            js(&j.id), !r.incomplete && r.errors.is_empty(), s.paths, s.infeasible, s.forks, s.insts, s.max_path, s.asserts_solver, s.asserts_const, s.joins, s.race_bytes, s.nontrivial, r.wall);
        let cv: Vec<String> = s.covers.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect();
        let _ = write!(o, ",\"covers\":{{{}}}", cv.join(","));
        let es: Vec<String> = r.errors.iter().map(|e| js(e)).collect();
        let _ = write!(o, ",\"errors\":{}", jl(&es));
        let vs: Vec<String> = r.viols.iter().map(|v| {
            let t: Vec<String> = v.trace.iter().map(|x| js(x)).collect();
            format!("{{\"kind\":{},\"msg\":{},\"panic\":{},\"steps\":{},\"inputs\":{},\"trace\":{}}}", js(&v.kind), js(&v.msg), js(&v.panic), v.path, jl(&v.inputs), jl(&t))
        }).collect();
        let _ = write!(o, ",\"violations\":{}", jl(&vs));
        let ss: Vec<String> = r.samples.iter().map(|v| format!("{{\"inputs\":{},\"obs\":{},\"covers\":{}}}", jl(&v.inputs), jl(&v.obs), jl(&v.covers))).collect();
        let _ = write!(o, ",\"samples\":{}}}", jl(&ss));
    }
    o.push_str("\n],\n");
    let mut fc: BTreeMap<String, (usize, usize)> = BTreeMap::new();
    for (k, f) in prog.funcs.iter().enumerate() {
        let c = prog.cov[k].iter().filter(|x| x.load(Relaxed) != 0).count();
        if c > 0 {
            let e = fc.entry(pretty(&f.name)).or_insert((0, 0));
            e.0 += c;
            e.1 += prog.cov[k].len();
        }
    }
    let fs: Vec<String> = fc.iter().map(|(n, (c, t))| format!("[{},{c},{t}]", js(n))).collect();
    let _ = write!(o, "\"functions\":{},\n\"solver\":{{\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"time_s\":{:.3},\"max_query_s\":{:.4}}},\n\"load_s\":{load_s:.3},\"run_s\":{run_s:.3}}}\n",
        jl(&fs), sh.queries.load(SeqCst), sh.sat.load(SeqCst), sh.unsat.load(SeqCst), sh.unknown.load(SeqCst), sh.solver_us.load(SeqCst) as f64 / 1e6, sh.max_query_us.load(SeqCst) as f64 / 1e6);
    std::fs::write(&out, o).unwrap();
}
