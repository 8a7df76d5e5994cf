//! Symbolic interpreter: executes the program on every feasible path.
use crate::expr::*;
use crate::ir::*;
use crate::link::*;
use crate::mem::*;
use crate::z3::{Sat, Solver};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::sync::Arc;
use std::sync::atomic::Ordering::Relaxed;

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    E(Ex),
    U,
    A(Arc<Vec<Val>>),
}

/// One decision of a path, enough to re-execute it without the solver.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dec {
    Bool(bool, bool),
    Val(u64, bool, bool),
}

#[derive(Clone)]
pub struct Frame {
    func: u32,
    block: u32,
    ip: u32,
    prev: u32,
    base: u32,
    allocas: Vec<u64>,
}

/// Byte-granular access log of a task since its join began.
#[derive(Clone, Default)]
pub struct Log {
    /// address -> flags: 1 read, 2 write
    plain: HashMap<u64, Rc<Vec<u8>>>,
    /// accesses made under locks or atomically: (addr, len, write, atomic, locks)
    special: Rc<std::collections::BTreeSet<(u64, u32, bool, bool, Vec<u64>)>>,
}

#[derive(Clone)]
struct Task {
    birth: u64,
    first: Option<Rc<Log>>,
    log: Rc<Log>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    regs: Vec<Val>,
    mem: Mem,
    pub pc: Vec<Ex>,
    known: Vec<Ex>,
    conc: Vec<(Ex, u64)>,
    model: Rc<Vec<u128>>,
    model_ok: bool,
    pub inputs: Vec<(Ex, u32)>,
    pub obs: Vec<Val>,
    pub covers: Vec<u32>,
    pub decs: Vec<Dec>,
    forced: Rc<Vec<Dec>>,
    fpos: usize,
    pub icount: u64,
    exc: Vec<(u64, u64)>,
    cur_exc: u64,
    panics: u64,
    pub last_panic: Option<Rc<String>>,
    tasks: Vec<Task>,
    locks: Vec<u64>,
    nsyms: u32,
    pub asserts: u32,
}

#[derive(Debug)]
pub enum Stop {
    Done,
    Infeasible,
    Violation(String, String),
    Error(String),
}

type R<T> = Result<T, Stop>;

pub struct Job {
    pub id: String,
    pub entry: u32,
    pub params: Vec<u64>,
    pub max_insts: u64,
    pub sample: u32,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub infeasible: u64,
    pub forks: u64,
    pub insts: u64,
    pub max_path: u64,
    pub asserts_solver: u64,
    pub asserts_const: u64,
    pub joins: u64,
    pub race_bytes: u64,
    pub covers: BTreeMap<u32, u64>,
    pub nontrivial: u64,
}

pub struct Worker {
    pub prog: Arc<Program>,
    pub ar: Arena,
    pub solver: Solver,
    pub base: Rc<Vec<Rc<Obj>>>,
    pub work: Vec<State>,
    pub stats: Stats,
    pub params: Vec<u64>,
    pub max_insts: u64,
}

macro_rules! fault {
    ($k:expr, $($t:tt)*) => { Stop::Violation($k.to_string(), format!($($t)*)) };
}

impl Worker {
    pub fn new(prog: Arc<Program>, timeout_ms: u32) -> Self {
        let base = base_globals(&prog);
        Worker { prog, ar: Arena::new(), solver: Solver::new(timeout_ms), base, work: vec![], stats: Stats::default(), params: vec![], max_insts: 0 }
    }
    pub fn start(&mut self, job: &Job, prefix: Vec<Dec>) -> State {
        self.params = job.params.clone();
        self.max_insts = job.max_insts;
        let f = &self.prog.funcs[job.entry as usize];
        let regs = vec![Val::U; f.nregs as usize];
        let model_ok = prefix.is_empty();
        State {
            frames: vec![Frame { func: job.entry, block: 0, ip: 0, prev: 0, base: 0, allocas: vec![] }],
            regs,
            mem: Mem::new(self.base.clone()),
            pc: vec![],
            known: vec![],
            conc: vec![],
            model: Rc::new(vec![]),
            model_ok,
            inputs: vec![],
            obs: vec![],
            covers: vec![],
            decs: vec![],
            forced: Rc::new(prefix),
            fpos: 0,
            icount: 0,
            exc: vec![],
            cur_exc: 0,
            panics: 0,
            last_panic: None,
            tasks: vec![],
            locks: vec![],
            nsyms: 0,
            asserts: 0,
        }
    }
    pub fn model_inputs(&mut self, st: &State) -> Vec<u64> {
        st.inputs.iter().map(|&(e, _)| self.ar.eval(e, &st.model) as u64).collect()
    }
    pub fn model_obs(&mut self, st: &State) -> Vec<u64> {
        st.obs.clone().iter().map(|v| match v {
            Val::C(c) => *c,
            Val::E(e) => self.ar.eval(*e, &st.model) as u64,
            _ => 0,
        }).collect()
    }
    pub fn trace(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().map(|f| pretty(&self.prog.funcs[f.func as usize].name)).take(24).collect()
    }

    // ----- decisions -----

    fn ensure_model(&mut self, st: &mut State) -> R<()> {
        if st.model_ok { return Ok(()); }
        let (r, m) = self.solver.check(&self.ar, &st.pc, None, st.nsyms as usize);
        match r {
            Sat::Sat => { st.model = Rc::new(m); st.model_ok = true; Ok(()) }
            Sat::Unsat => Err(Stop::Error("re-executed prefix is infeasible".into())),
            Sat::Unknown => Err(Stop::Error("solver gave up".into())),
        }
    }
    fn add(&mut self, st: &mut State, c: Ex, implied: bool) {
        st.known.push(c);
        if !implied { st.pc.push(c); }
    }
    fn next_forced(&mut self, st: &mut State) -> Option<Dec> {
        if st.fpos < st.forced.len() {
            let d = st.forced[st.fpos];
            st.fpos += 1;
            if st.fpos == st.forced.len() { st.forced = Rc::new(vec![]); st.fpos = 0; }
            Some(d)
        } else { None }
    }
    fn known_value(&mut self, st: &State, c: Ex) -> Option<bool> {
        if let Some(k) = self.ar.is_const(c) { return Some(k != 0); }
        if st.known.contains(&c) { return Some(true); }
        let n = self.ar.not(c);
        if st.known.contains(&n) { return Some(false); }
        None
    }
    pub fn decide(&mut self, st: &mut State, c: Ex) -> R<bool> {
        if let Some(b) = self.known_value(st, c) { return Ok(b); }
        if self.ar.tainted[c as usize] {
            // resolve the defined part of the condition first
            if let Node::Ite(k, a, b) = self.ar.node(c) {
                if !self.ar.tainted[k as usize] {
                    return if self.decide(st, k)? { self.decide(st, a) } else { self.decide(st, b) };
                }
            }
            if let Node::Bin(op @ (Op::And | Op::Or), a, b) = self.ar.node(c) {
                for (x, y) in [(a, b), (b, a)] {
                    if !self.ar.tainted[x as usize] {
                        let v = self.decide(st, x)?;
                        if (op == Op::And && !v) || (op == Op::Or && v) { return Ok(v); }
                        return self.decide(st, y);
                    }
                }
            }
            return Err(fault!("uninit", "decision depends on an uninitialised value"));
        }
        let n = self.ar.not(c);
        if let Some(d) = self.next_forced(st) {
            let Dec::Bool(b, implied) = d else { return Err(Stop::Error("decision replay mismatch".into())); };
            self.add(st, if b { c } else { n }, implied);
            st.decs.push(d);
            return Ok(b);
        }
        self.ensure_model(st)?;
        let b = self.ar.eval(c, &st.model.clone()) != 0;
        let (this, other) = if b { (c, n) } else { (n, c) };
        let (r, m) = self.solver.check(&self.ar, &st.pc, Some(other), st.nsyms as usize);
        match r {
            Sat::Unsat => {
                self.add(st, this, true);
                st.decs.push(Dec::Bool(b, true));
            }
            Sat::Sat => {
                self.stats.forks += 1;
                let mut alt = st.clone();
                alt.model = Rc::new(m);
                alt.forced = Rc::new(vec![Dec::Bool(!b, false)]);
                alt.fpos = 0;
                self.work.push(alt);
                self.add(st, this, false);
                st.decs.push(Dec::Bool(b, false));
            }
            Sat::Unknown => return Err(Stop::Error("solver gave up on a branch".into())),
        }
        Ok(b)
    }
    fn concretize(&mut self, st: &mut State, v: &Val) -> R<u64> {
        let mut e = match v {
            Val::C(c) => return Ok(*c),
            Val::U => return Err(fault!("uninit", "uninitialised value used as an address or size")),
            Val::A(_) => return Err(Stop::Error("aggregate used as a scalar".into())),
            Val::E(e) => *e,
        };
        loop {
            if let Some(k) = self.ar.is_const(e) { return Ok(k as u64); }
            if let Some(&(_, k)) = st.conc.iter().find(|x| x.0 == e) { return Ok(k); }
            if let Node::Ite(c, a, b) = self.ar.node(e) {
                e = if self.decide(st, c)? { a } else { b };
                continue;
            }
            if self.ar.tainted[e as usize] { return Err(fault!("uninit", "uninitialised value used as an address or size")); }
            let w = self.ar.w(e);
            if let Some(d) = self.next_forced(st) {
                let Dec::Val(v, eq, implied) = d else { return Err(Stop::Error("decision replay mismatch".into())); };
                let k = self.ar.constant(v as u128, w);
                let c = self.ar.bin(Op::Eq, e, k);
                st.decs.push(d);
                if eq {
                    self.add(st, c, implied);
                    st.conc.push((e, v));
                    return Ok(v);
                }
                let n = self.ar.not(c);
                self.add(st, n, false);
                continue;
            }
            self.ensure_model(st)?;
            let v = self.ar.eval(e, &st.model.clone()) as u64;
            let k = self.ar.constant(v as u128, w);
            let c = self.ar.bin(Op::Eq, e, k);
            let n = self.ar.not(c);
            let (r, m) = self.solver.check(&self.ar, &st.pc, Some(n), st.nsyms as usize);
            match r {
                Sat::Unsat => {
                    self.add(st, c, true);
                    st.decs.push(Dec::Val(v, true, true));
                }
                Sat::Sat => {
                    self.stats.forks += 1;
                    let mut alt = st.clone();
                    alt.model = Rc::new(m);
                    alt.forced = Rc::new(vec![Dec::Val(v, false, false)]);
                    alt.fpos = 0;
                    self.work.push(alt);
                    self.add(st, c, false);
                    st.decs.push(Dec::Val(v, true, false));
                }
                Sat::Unknown => return Err(Stop::Error("solver gave up on a value".into())),
            }
            st.conc.push((e, v));
            return Ok(v);
        }
    }

    // ----- values -----

    fn ex(&mut self, v: &Val, w: u32) -> Ex {
        match v {
            Val::C(c) => self.ar.constant(*c as u128, w),
            Val::E(e) => *e,
            Val::U => self.ar.undef(w),
            Val::A(_) => panic!("aggregate as scalar"),
        }
    }
    fn val(&self, e: Ex) -> Val {
        match self.ar.node(e) {
            Node::Const(c) if self.ar.w(e) <= 64 => Val::C(c as u64),
            _ => Val::E(e),
        }
    }
    fn opv(&mut self, st: &State, base: u32, o: &Opnd) -> Val {
        match o {
            Opnd::Reg(r) => st.regs[(base + r) as usize].clone(),
            Opnd::K(k) => Val::C(*k),
            Opnd::Undef => Val::U,
            Opnd::Wide(n) => Val::E(self.ar.constant(*n, 128)),
            Opnd::Agg(v) => {
                let x: Vec<Val> = v.iter().map(|o| self.opv(st, base, o)).collect();
                Val::A(Arc::new(x))
            }
            _ => Val::U,
        }
    }
    fn bin(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = if w >= 64 { u64::MAX } else { (1u64 << w) - 1 };
            let s = |v: u64| ((v << (64 - w)) as i64) >> (64 - w);
            let r = match op {
                BinOp::Add => x.wrapping_add(y) & m,
                BinOp::Sub => x.wrapping_sub(y) & m,
                BinOp::Mul => x.wrapping_mul(y) & m,
                BinOp::And => x & y,
                BinOp::Or => x | y,
                BinOp::Xor => x ^ y,
                BinOp::Shl => if y >= w as u64 { return Ok(Val::U) } else { (x << y) & m },
                BinOp::LShr => if y >= w as u64 { return Ok(Val::U) } else { x >> y },
                BinOp::AShr => if y >= w as u64 { return Ok(Val::U) } else { (s(x) >> y) as u64 & m },
                BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem if y == 0 => return Err(fault!("ub", "division by zero")),
                BinOp::UDiv => x / y,
                BinOp::URem => x % y,
                BinOp::SDiv => s(x).wrapping_div(s(y)) as u64 & m,
                BinOp::SRem => s(x).wrapping_rem(s(y)) as u64 & m,
            };
            return Ok(Val::C(r));
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let o = match op {
            BinOp::Add => Op::Add, BinOp::Sub => Op::Sub, BinOp::Mul => Op::Mul, BinOp::UDiv => Op::UDiv, BinOp::SDiv => Op::SDiv,
            BinOp::URem => Op::URem, BinOp::SRem => Op::SRem, BinOp::Shl => Op::Shl, BinOp::LShr => Op::LShr, BinOp::AShr => Op::AShr,
            BinOp::And => Op::And, BinOp::Or => Op::Or, BinOp::Xor => Op::Xor,
        };
        let e = self.ar.bin(o, x, y);
        Ok(self.val(e))
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let s = |v: u64| ((v << (64 - w)) as i64) >> (64 - w);
            let r = match p {
                Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Ugt => x > y, Pred::Uge => x >= y,
                Pred::Slt => s(x) < s(y), Pred::Sle => s(x) <= s(y), Pred::Sgt => s(x) > s(y), Pred::Sge => s(x) >= s(y),
            };
            return Val::C(r as u64);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = match p {
            Pred::Eq => self.ar.bin(Op::Eq, x, y),
            Pred::Ne => { let t = self.ar.bin(Op::Eq, x, y); self.ar.not(t) }
            Pred::Ult => self.ar.bin(Op::Ult, x, y),
            Pred::Ule => self.ar.bin(Op::Ule, x, y),
            Pred::Ugt => self.ar.bin(Op::Ult, y, x),
            Pred::Uge => self.ar.bin(Op::Ule, y, x),
            Pred::Slt => self.ar.bin(Op::Slt, x, y),
            Pred::Sle => self.ar.bin(Op::Sle, x, y),
            Pred::Sgt => self.ar.bin(Op::Slt, y, x),
            Pred::Sge => self.ar.bin(Op::Sle, y, x),
        };
        self.val(e)
    }
    fn trunc(&mut self, v: &Val, from: u32, to: u32) -> Val {
        match v {
            Val::C(c) => Val::C(c & mask(to) as u64),
            Val::U => Val::U,
            _ => { let x = self.ex(v, from); let e = self.ar.extract(x, 0, to); self.val(e) }
        }
    }
    fn zext(&mut self, v: &Val, from: u32, to: u32) -> Val {
        match v {
            Val::C(c) if to <= 64 => Val::C(*c),
            _ => { let x = self.ex(v, from); let e = self.ar.zext(x, to); self.val(e) }
        }
    }
    fn sext(&mut self, v: &Val, from: u32, to: u32) -> Val {
        let x = self.ex(v, from);
        let e = self.ar.sext(x, to);
        self.val(e)
    }
    fn ite(&mut self, c: Ex, w: Option<u32>, a: &Val, b: &Val) -> Option<Val> {
        match (w, a, b) {
            (_, Val::A(x), Val::A(y)) => {
                let mut v = Vec::new();
                for (p, q) in x.iter().zip(y.iter()) {
                    match (p, q) {
                        (Val::C(m), Val::C(n)) if m == n => v.push(p.clone()),
                        _ => return None,
                    }
                }
                Some(Val::A(Arc::new(v)))
            }
            (Some(w), _, _) => {
                let (x, y) = (self.ex(a, w), self.ex(b, w));
                let e = self.ar.ite(c, x, y);
                Some(self.val(e))
            }
            _ => None,
        }
    }

    // ----- memory -----

    fn note(&mut self, st: &mut State, addr: u64, n: u64, write: bool, atomic: bool) {
        if st.tasks.is_empty() || n == 0 { return; }
        let birth = st.tasks.last().unwrap().birth;
        let (objbase, size, obirth) = match st.mem.get(addr, n) {
            Ok((o, off)) => {
                if o.kind == Kind::Const { return; }
                (addr - off as u64, o.bytes.len(), o.birth)
            }
            _ => return,
        };
        if obirth > birth { return; }
        let t = st.tasks.last_mut().unwrap();
        let log = Rc::make_mut(&mut t.log);
        if atomic || !st.locks.is_empty() {
            let k = (addr, n as u32, write, atomic, st.locks.clone());
            if !log.special.contains(&k) { Rc::make_mut(&mut log.special).insert(k); }
        } else {
            let v = log.plain.entry(objbase).or_insert_with(|| Rc::new(vec![0; size]));
            let o = (addr - objbase) as usize;
            let f = if write { 2 } else { 1 };
            let slice = &v[o..o + n as usize];
            if slice.iter().any(|x| x & f == 0) {
                for x in &mut Rc::make_mut(v)[o..o + n as usize] { *x |= f; }
            }
        }
    }
    fn load_bits(&mut self, st: &State, addr: u64, n: u64, w: u32) -> R<Val> {
        let (o, off) = st.mem.get(addr, n).map_err(|m| fault!("memory", "read: {m}"))?;
        let sh_ = &o.shadow[off..off + n as usize];
        if sh_.iter().all(|&s| s == 0) {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n as usize].copy_from_slice(&o.bytes[off..off + n as usize]);
                let v = u64::from_le_bytes(b);
                return Ok(Val::C(if w < 64 { v & ((1u64 << w) - 1) } else { v }));
            }
            let mut b = [0u8; 16];
            b[..n as usize].copy_from_slice(&o.bytes[off..off + n as usize]);
            return Ok(Val::E(self.ar.constant(u128::from_le_bytes(b), w)));
        }
        if sh_.iter().all(|&s| s == UNINIT) { return Ok(Val::U); }
        // whole expression
        let (e0, i0) = if sh_[0] > 1 { sh_expr(sh_[0]) } else { (0, 1) };
        if sh_[0] > 1 && i0 == 0 && sh_.iter().enumerate().all(|(k, &s)| s > 1 && sh_expr(s) == (e0, k as u32)) {
            let ew = self.ar.w(e0);
            let r = if ew == w { e0 } else if ew > w { self.ar.extract(e0, 0, w) } else { self.ar.zext(e0, w) };
            return Ok(self.val(r));
        }
        let bytes: Vec<(u8, u32)> = (0..n as usize).map(|k| (o.bytes[off + k], sh_[k])).collect();
        let mut acc: Option<Ex> = None;
        for (b, s) in bytes {
            let x = self.byte_ex(b, s);
            acc = Some(match acc { None => x, Some(a) => self.ar.bin(Op::Concat, x, a) });
        }
        let e = acc.unwrap();
        let e = self.ar.extract(e, 0, w);
        Ok(self.val(e))
    }
    fn byte_ex(&mut self, b: u8, s: u32) -> Ex {
        match s {
            0 => self.ar.constant(b as u128, 8),
            UNINIT => self.ar.undef(8),
            _ => {
                let (e, i) = sh_expr(s);
                let w = self.ar.w(e);
                let lo = i * 8;
                let k = 8.min(w - lo);
                let x = self.ar.extract(e, lo, k);
                self.ar.zext(x, 8)
            }
        }
    }
    fn load(&mut self, st: &mut State, addr: u64, ty: &Ty, atomic: bool) -> R<Val> {
        if ty.is_agg() {
            let n = ty.nfields();
            let mut v = Vec::with_capacity(n);
            for i in 0..n {
                let f = ty.field(i);
                v.push(self.load(st, addr + ty.field_offset(i), &f, atomic)?);
            }
            return Ok(Val::A(Arc::new(v)));
        }
        let Some(w) = ty.width() else { return Err(Stop::Error("load of an unsupported type".into())) };
        let n = ty.store_size();
        let v = self.load_bits(st, addr, n, w)?;
        self.note(st, addr, n, false, atomic);
        Ok(v)
    }
    fn store(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &Val, atomic: bool) -> R<()> {
        if ty.is_agg() {
            let n = ty.nfields();
            for i in 0..n {
                let f = ty.field(i);
                let x = match v { Val::A(a) => a[i].clone(), _ => Val::U };
                self.store(st, addr + ty.field_offset(i), &f, &x, atomic)?;
            }
            return Ok(());
        }
        let Some(w) = ty.width() else { return Err(Stop::Error("store of an unsupported type".into())) };
        let n = ty.store_size();
        self.note(st, addr, n, true, atomic);
        let (o, off) = st.mem.get_mut(addr, n).map_err(|m| fault!("memory", "write: {m}"))?;
        let r = off..off + n as usize;
        match v {
            Val::C(c) => {
                let b = c.to_le_bytes();
                o.bytes[r.clone()].copy_from_slice(&b[..n as usize]);
                o.shadow[r].fill(0);
            }
            Val::U => o.shadow[r].fill(UNINIT),
            Val::E(e) => {
                if let Some(k) = self.ar.is_const(*e) {
                    o.bytes[r.clone()].copy_from_slice(&k.to_le_bytes()[..n as usize]);
                    o.shadow[r].fill(0);
                } else {
                    let e = if w % 8 == 0 { *e } else { self.ar.zext(*e, n as u32 * 8) };
                    if matches!(self.ar.node(e), Node::Undef(_)) { o.shadow[r].fill(UNINIT); return Ok(()); }
                    for k in 0..n as u32 { o.shadow[off + k as usize] = sh(e, k); }
                }
            }
            Val::A(_) => return Err(Stop::Error("aggregate stored as a scalar".into())),
        }
        Ok(())
    }
    fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64, overlap_ok: bool) -> R<()> {
        if n == 0 { return Ok(()); }
        let (b, s) = {
            let (o, off) = st.mem.get(src, n).map_err(|m| fault!("memory", "copy source: {m}"))?;
            (o.bytes[off..off + n as usize].to_vec(), o.shadow[off..off + n as usize].to_vec())
        };
        if !overlap_ok && src != dst && src >> 32 == dst >> 32 && src.abs_diff(dst) < n {
            return Err(fault!("ub", "copy_nonoverlapping on overlapping ranges"));
        }
        self.note(st, src, n, false, false);
        self.note(st, dst, n, true, false);
        let (o, off) = st.mem.get_mut(dst, n).map_err(|m| fault!("memory", "copy destination: {m}"))?;
        o.bytes[off..off + n as usize].copy_from_slice(&b);
        o.shadow[off..off + n as usize].copy_from_slice(&s);
        Ok(())
    }
    fn read_bytes(&self, st: &State, addr: u64, n: u64) -> Option<Vec<u8>> {
        let (o, off) = st.mem.get(addr, n).ok()?;
        if o.shadow[off..off + n as usize].iter().any(|&s| s != 0) { return None; }
        Some(o.bytes[off..off + n as usize].to_vec())
    }
    fn read_u64(&self, st: &State, addr: u64) -> Option<u64> {
        Some(u64::from_le_bytes(self.read_bytes(st, addr, 8)?.try_into().ok()?))
    }
    fn read_str(&self, st: &State, p: u64, n: u64) -> String {
        if n > 4096 { return String::new(); }
        self.read_bytes(st, p, n).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default()
    }
    /// `core::panic::Location` at `p`, if that is what it is.
    fn location(&self, st: &State, p: u64) -> Option<String> {
        let b = self.read_bytes(st, p, 24)?;
        let fp = u64::from_le_bytes(b[0..8].try_into().unwrap());
        let n = u64::from_le_bytes(b[8..16].try_into().unwrap());
        let line = u32::from_le_bytes(b[16..20].try_into().unwrap());
        let col = u32::from_le_bytes(b[20..24].try_into().unwrap());
        if n == 0 || n > 512 || line > 1_000_000 { return None; }
        let s = self.read_str(st, fp, n);
        let s = s.trim_end_matches('\0').to_string();
        if !s.ends_with(".rs") && !s.contains('/') { return None; }
        Some(format!("{s}:{line}:{col}"))
    }

    // ----- tasks -----

    fn task(&mut self, st: &mut State, kind: u64) -> R<()> {
        match kind {
            0 => {
                st.mem.births += 1;
                let b = st.mem.births;
                st.tasks.push(Task { birth: b, first: None, log: Rc::new(Log::default()) });
            }
            1 => {
                let t = st.tasks.last_mut().unwrap();
                t.first = Some(std::mem::take(&mut t.log));
            }
            _ => {
                let t = st.tasks.pop().unwrap();
                let a = t.first.unwrap_or_default();
                let b = t.log;
                self.stats.joins += 1;
                // conflicts
                for (base, fa) in &a.plain {
                    if let Some(fb) = b.plain.get(base) {
                        for (k, (x, y)) in fa.iter().zip(fb.iter()).enumerate() {
                            if (*x & 2 != 0 && *y != 0) || (*y & 2 != 0 && *x != 0) {
                                return Err(fault!("race", "two sides of a parallel join access byte {k} of one object without synchronisation (flags {x} and {y}; 2 = write)"));
                            }
                        }
                    }
                    self.stats.race_bytes += fa.len() as u64;
                }
                for (l, r) in [(&a, &b), (&b, &a)] {
                    for (addr, n, w, _, _) in l.special.iter() {
                        for k in 0..*n as u64 {
                            let p = addr + k;
                            for (base, f) in &r.plain {
                                if p >= *base && p < base + f.len() as u64 {
                                    let y = f[(p - base) as usize];
                                    if (*w && y != 0) || y & 2 != 0 {
                                        return Err(fault!("race", "a synchronised access of one side of a parallel join conflicts with a plain access of the other"));
                                    }
                                }
                            }
                        }
                    }
                }
                for (addr, n, w, at, locks) in a.special.iter() {
                    for (addr2, n2, w2, at2, locks2) in b.special.iter() {
                        if addr < &(addr2 + *n2 as u64) && addr2 < &(addr + *n as u64) && (*w || *w2) && !(*at && *at2) && !locks.iter().any(|l| locks2.contains(l)) {
                            return Err(fault!("race", "two sides of a parallel join access shared memory under different locks"));
                        }
                    }
                }
                // merge into the parent
                if let Some(p) = st.tasks.last_mut() {
                    let pb = p.birth;
                    let log = Rc::make_mut(&mut p.log);
                    for src in [&a, &b] {
                        for (base, f) in &src.plain {
                            let ob = match st.mem.get(*base, 0) { Ok((o, _)) => o.birth, _ => continue };
                            if ob > pb { continue; }
                            let v = log.plain.entry(*base).or_insert_with(|| Rc::new(vec![0; f.len()]));
                            let v = Rc::make_mut(v);
                            for (x, y) in v.iter_mut().zip(f.iter()) { *x |= y; }
                        }
                        for s in src.special.iter() {
                            let ob = match st.mem.get(s.0, 0) { Ok((o, _)) => o.birth, _ => continue };
                            if ob > pb { continue; }
                            Rc::make_mut(&mut log.special).insert(s.clone());
                        }
                    }
                }
            }
        }
        Ok(())
    }

    // ----- control -----

    fn goto(&mut self, st: &mut State, to: u32) {
        let f = st.frames.last_mut().unwrap();
        let from = f.block;
        f.prev = from;
        f.block = to;
        f.ip = 0;
        let (func, base) = (f.func, f.base);
        let prog = self.prog.clone();
        let c = &prog.cov[func as usize][to as usize];
        if c.load(Relaxed) == 0 { c.store(1, Relaxed); }
        let phis = &prog.funcs[func as usize].blocks[to as usize].phis;
        match phis.len() {
            0 => {}
            1 => {
                let (d, srcs) = &phis[0];
                let o = &srcs.iter().find(|x| x.0 == from).expect("phi edge").1;
                let v = self.opv(st, base, o);
                st.regs[(base + d) as usize] = v;
            }
            _ => {
                let mut vs: Vec<(u32, Val)> = Vec::with_capacity(phis.len());
                for (d, srcs) in phis {
                    let o = &srcs.iter().find(|x| x.0 == from).expect("phi edge").1;
                    vs.push((*d, self.opv(st, base, o)));
                }
                for (d, v) in vs { st.regs[(base + d) as usize] = v; }
            }
        }
    }
    fn pop_frame(&mut self, st: &mut State) {
        let f = st.frames.pop().unwrap();
        for a in f.allocas { st.mem.dealloc(a); }
        st.regs.truncate(f.base as usize);
    }
    /// Start or continue unwinding with exception token `exc`, from the current instruction of the top frame.
    fn unwind(&mut self, st: &mut State, exc: u64) -> R<()> {
        let prog = self.prog.clone();
        loop {
            let Some(f) = st.frames.last() else {
                let m = st.last_panic.as_ref().map(|s| s.to_string()).unwrap_or_default();
                return Err(fault!("panic", "uncaught panic: {m}"));
            };
            let inst = &prog.funcs[f.func as usize].blocks[f.block as usize].insts[f.ip as usize];
            if let Inst::Call { unwind: Some((_, u)), .. } = inst {
                st.cur_exc = exc;
                let u = *u;
                self.goto(st, u);
                return Ok(());
            }
            if st.frames.len() == 1 {
                let m = st.last_panic.as_ref().map(|s| s.to_string()).unwrap_or_default();
                return Err(fault!("panic", "uncaught panic: {m}"));
            }
            self.pop_frame(st);
        }
    }
    fn set_panic_count(&mut self, st: &mut State) {
        let a = self.prog.panic_count;
        let n = st.panics;
        if let Ok((o, off)) = st.mem.get_mut(a, 8) {
            o.bytes[off..off + 8].copy_from_slice(&n.to_le_bytes());
        }
    }
    fn ret(&mut self, st: &mut State, v: Option<Val>) -> R<()> {
        self.pop_frame(st);
        if st.frames.is_empty() { return Err(Stop::Done); }
        let prog = self.prog.clone();
        let f = st.frames.last().unwrap();
        let inst = &prog.funcs[f.func as usize].blocks[f.block as usize].insts[f.ip as usize];
        if let Inst::Call { dst, unwind, .. } = inst {
            if let (Some(d), Some(v)) = (dst, v) {
                let base = f.base;
                st.regs[(base + d) as usize] = v;
            }
            match unwind {
                Some((n, _)) => { let n = *n; self.goto(st, n); }
                None => st.frames.last_mut().unwrap().ip += 1,
            }
            Ok(())
        } else { Err(Stop::Error("return to a non-call".into())) }
    }
    fn finish_call(&mut self, st: &mut State, inst: &Inst, v: Option<Val>) {
        if let Inst::Call { dst, unwind, .. } = inst {
            let base = st.frames.last().unwrap().base;
            if let (Some(d), Some(v)) = (dst, v) { st.regs[(base + d) as usize] = v; }
            match unwind {
                Some((n, _)) => self.goto(st, *n),
                None => st.frames.last_mut().unwrap().ip += 1,
            }
        }
    }

    /// Run one path to its end.
    pub fn run(&mut self, st: &mut State) -> Stop {
        let prog = self.prog.clone();
        let start = st.icount;
        let r = loop {
            st.icount += 1;
            if st.icount > self.max_insts {
                break fault!("hang", "path executed more than {} instructions", self.max_insts);
            }
            let f = st.frames.last().unwrap();
            let inst = &prog.funcs[f.func as usize].blocks[f.block as usize].insts[f.ip as usize];
            let base = f.base;
            if let Err(s) = self.step(st, &prog, inst, base) { break s; }
        };
        self.stats.insts += st.icount - start;
        if st.icount > self.stats.max_path { self.stats.max_path = st.icount; }
        r
    }

    #[inline]
    fn set(&mut self, st: &mut State, base: u32, d: Reg, v: Val) {
        st.regs[(base + d) as usize] = v;
        st.frames.last_mut().unwrap().ip += 1;
    }

    fn step(&mut self, st: &mut State, prog: &Arc<Program>, inst: &Inst, base: u32) -> R<()> {
        match inst {
            Inst::Bin(op, w, d, a, b) => {
                let (x, y) = (self.opv(st, base, a), self.opv(st, base, b));
                let v = self.bin(*op, *w, &x, &y)?;
                self.set(st, base, *d, v);
            }
            Inst::Icmp(p, w, d, a, b) => {
                let (x, y) = (self.opv(st, base, a), self.opv(st, base, b));
                let v = self.icmp(*p, *w, &x, &y);
                self.set(st, base, *d, v);
            }
            Inst::Fbin(op, w, d, a, b) => {
                let (x, y) = (self.opv(st, base, a), self.opv(st, base, b));
                let (x, y) = (self.concretize(st, &x)?, self.concretize(st, &y)?);
                let f = |op: FOp| -> u64 {
                    // each operation rounds once
                    if *w == 32 {
                        let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                        (match op { FOp::Add => x + y, FOp::Sub => x - y, FOp::Mul => x * y, FOp::Div => x / y, FOp::Rem => x % y, FOp::Neg => -x }).to_bits() as u64
                    } else {
                        let (x, y) = (f64::from_bits(x), f64::from_bits(y));
                        (match op { FOp::Add => x + y, FOp::Sub => x - y, FOp::Mul => x * y, FOp::Div => x / y, FOp::Rem => x % y, FOp::Neg => -x }).to_bits()
                    }
                };
                let v = Val::C(f(*op));
                self.set(st, base, *d, v);
            }
            Inst::Fcmp(p, w, d, a, b) => {
                let (x, y) = (self.opv(st, base, a), self.opv(st, base, b));
                let (x, y) = (self.concretize(st, &x)?, self.concretize(st, &y)?);
                let g = |x: u64| if *w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                let r = match g(x).partial_cmp(&g(y)) { None => p[3], Some(o) => p[(o as i8 + 1) as usize] };
                self.set(st, base, *d, Val::C(r as u64));
            }
            Inst::Fcast(k, f, t, d, a) => {
                let x = self.opv(st, base, a);
                let x = self.concretize(st, &x)?;
                let g = || if *f == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                let s = || (x << (64 - f)) as i64 >> (64 - f);
                let r = match k {
                    FCast::FromS => if *t == 32 { (s() as f32).to_bits() as u64 } else { (s() as f64).to_bits() },
                    FCast::FromU => if *t == 32 { (x as f32).to_bits() as u64 } else { (x as f64).to_bits() },
                    FCast::ToS => g() as i64 as u64 & mask(*t) as u64,
                    FCast::ToU => g() as u64 & mask(*t) as u64,
                    FCast::Ext => g().to_bits(),
                    FCast::Trunc => (f64::from_bits(x) as f32).to_bits() as u64,
                };
                self.set(st, base, *d, Val::C(r));
            }
            Inst::Zext(f, t, d, a) => {
                let x = self.opv(st, base, a);
                let v = match x {
                    // a predicate that becomes a count or an index: one path each
                    Val::E(e) if *f == 1 && *t == 64 && !self.ar.tainted[e as usize] => Val::C(self.decide(st, e)? as u64),
                    _ => self.zext(&x, *f, *t),
                };
                self.set(st, base, *d, v);
            }
            Inst::Sext(f, t, d, a) => { let x = self.opv(st, base, a); let v = self.sext(&x, *f, *t); self.set(st, base, *d, v); }
            Inst::Trunc(f, t, d, a) => { let x = self.opv(st, base, a); let v = self.trunc(&x, *f, *t); self.set(st, base, *d, v); }
            Inst::Mov(d, a) => { let v = self.opv(st, base, a); self.set(st, base, *d, v); }
            Inst::Select(w, d, k, a, b) => {
                let c = self.opv(st, base, k);
                let (x, y) = (self.opv(st, base, a), self.opv(st, base, b));
                let v = match c {
                    Val::C(k) => if k & 1 != 0 { x } else { y },
                    Val::E(e) => {
                        let tainted = |s: &Self, v: &Val| matches!(v, Val::U) || matches!(v, Val::E(e) if s.ar.tainted[*e as usize]);
                        // a choice between two indices or addresses: one path each
                        let fork = *w == Some(64) && matches!((&x, &y), (Val::C(p), Val::C(q)) if p != q);
                        let merged = if fork || self.ar.tainted[e as usize] || tainted(self, &x) || tainted(self, &y) { None } else { self.ite(e, *w, &x, &y) };
                        match merged { Some(v) => v, None => if self.decide(st, e)? { x } else { y } }
                    }
                    _ => match (&x, &y) {
                        (Val::C(p), Val::C(q)) if p == q => x,
                        _ => Val::U,
                    },
                };
                self.set(st, base, *d, v);
            }
            Inst::Load(d, ty, p, at) => {
                let p = self.opv(st, base, p);
                let a = self.concretize(st, &p)?;
                let v = self.load(st, a, ty, *at)?;
                if *at && !st.locks.is_empty() { /* atomics do not change locks on load */ }
                self.set(st, base, *d, v);
            }
            Inst::Store(ty, v, p, at) => {
                let p = self.opv(st, base, p);
                let a = self.concretize(st, &p)?;
                let v = self.opv(st, base, v);
                self.store(st, a, ty, &v, *at)?;
                if *at {
                    if let Val::C(0) = v { st.locks.retain(|&l| l != a); }
                }
                st.frames.last_mut().unwrap().ip += 1;
            }
            Inst::Gep(d, b, off, terms) => {
                let mut v = self.opv(st, base, b);
                if *off != 0 { v = self.bin(BinOp::Add, 64, &v, &Val::C(*off as u64))?; }
                for (o, w, sc) in terms {
                    let mut t = self.opv(st, base, o);
                    if *w != 64 { t = self.sext(&t, *w, 64); }
                    if *sc != 1 { t = self.bin(BinOp::Mul, 64, &t, &Val::C(*sc as u64))?; }
                    v = self.bin(BinOp::Add, 64, &v, &t)?;
                }
                self.set(st, base, *d, v);
            }
            Inst::Alloca(d, size, align) => {
                let a = st.mem.alloc(*size, *align, Kind::Stack, false);
                st.frames.last_mut().unwrap().allocas.push(a);
                self.set(st, base, *d, Val::C(a));
            }
            Inst::Br(t) => self.goto(st, *t),
            Inst::CondBr(k, a, b) => {
                let c = self.opv(st, base, k);
                let t = match c {
                    Val::C(k) => k & 1 != 0,
                    Val::E(e) => self.decide(st, e)?,
                    _ => return Err(fault!("uninit", "branch on an uninitialised value")),
                };
                self.goto(st, if t { *a } else { *b });
            }
            Inst::Switch(w, v, dl, cases) => {
                let x = self.opv(st, base, v);
                let t = match x {
                    Val::C(k) => cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*dl),
                    Val::U | Val::A(_) => return Err(fault!("uninit", "switch on an uninitialised value")),
                    Val::E(e) => {
                        let mut r = *dl;
                        for (k, l) in cases {
                            let kk = self.ar.constant(*k as u128, *w);
                            let c = self.ar.bin(Op::Eq, e, kk);
                            if self.decide(st, c)? { r = *l; break; }
                        }
                        r
                    }
                };
                self.goto(st, t);
            }
            Inst::Ret(o) => {
                let v = o.as_ref().map(|o| self.opv(st, base, o));
                return self.ret(st, v);
            }
            Inst::Unreachable => return Err(fault!("ub", "unreachable code reached")),
            Inst::Resume(o) => {
                let v = self.opv(st, base, o);
                let exc = match &v { Val::A(a) => match a[0] { Val::C(c) => c, _ => st.cur_exc }, _ => st.cur_exc };
                if st.frames.len() == 1 {
                    let m = st.last_panic.as_ref().map(|s| s.to_string()).unwrap_or_default();
                    return Err(fault!("panic", "uncaught panic: {m}"));
                }
                self.pop_frame(st);
                return self.unwind(st, exc);
            }
            Inst::Landingpad { dst, cleanup, catch, filter } => {
                let sel = if *catch { 1 } else if *filter { u32::MAX as u64 } else { 0 };
                let _ = cleanup;
                let v = Val::A(Arc::new(vec![Val::C(st.cur_exc), Val::C(sel)]));
                self.set(st, base, *dst, v);
            }
            Inst::ExtractValue(d, a, idx) => {
                let mut v = self.opv(st, base, a);
                for i in idx {
                    v = match v { Val::A(x) => x[*i as usize].clone(), _ => Val::U };
                }
                self.set(st, base, *d, v);
            }
            Inst::InsertValue(d, ty, a, b, idx) => {
                let v = self.opv(st, base, a);
                let x = self.opv(st, base, b);
                let r = insert(ty, v, x, idx);
                self.set(st, base, *d, r);
            }
            Inst::AtomicRmw(op, w, d, p, v) => {
                let p = self.opv(st, base, p);
                let a = self.concretize(st, &p)?;
                let v = self.opv(st, base, v);
                let ty = Ty::Int(*w);
                let old = self.load(st, a, &ty, true)?;
                let new = match op {
                    Rmw::Xchg => v.clone(),
                    Rmw::Add => self.bin(BinOp::Add, *w, &old, &v)?,
                    Rmw::Sub => self.bin(BinOp::Sub, *w, &old, &v)?,
                    Rmw::And => self.bin(BinOp::And, *w, &old, &v)?,
                    Rmw::Or => self.bin(BinOp::Or, *w, &old, &v)?,
                    Rmw::Xor => self.bin(BinOp::Xor, *w, &old, &v)?,
                    Rmw::Nand => {
                        let t = self.bin(BinOp::And, *w, &old, &v)?;
                        self.bin(BinOp::Xor, *w, &t, &Val::C(mask(*w) as u64))?
                    }
                    Rmw::Max | Rmw::Min | Rmw::UMax | Rmw::UMin => {
                        let p = if matches!(op, Rmw::UMax | Rmw::UMin) { Pred::Ult } else { Pred::Slt };
                        let (x, y) = if matches!(op, Rmw::UMax | Rmw::Max) { (&v, &old) } else { (&old, &v) };
                        match self.icmp(p, *w, &old, &v) {
                            Val::C(k) => if k != 0 { x.clone() } else { y.clone() },
                            Val::E(e) => match self.ite(e, Some(*w), x, y) { Some(v) => v, None => return Err(Stop::Error("atomic minimum of an undefined value".into())) },
                            _ => return Err(Stop::Error("atomic minimum of an undefined value".into())),
                        }
                    }
                };
                self.store(st, a, &ty, &new, true)?;
                if *op == Rmw::Xchg { if let Val::C(0) = v { st.locks.retain(|&l| l != a); } }
                self.set(st, base, *d, old);
            }
            Inst::CmpXchg(w, d, p, c, n) => {
                let p = self.opv(st, base, p);
                let a = self.concretize(st, &p)?;
                let (c, n) = (self.opv(st, base, c), self.opv(st, base, n));
                let ty = Ty::Int(*w);
                let old = self.load_bits(st, a, ty.store_size(), *w)?;
                let eq = self.icmp(Pred::Eq, *w, &old, &c);
                let ok = match eq { Val::C(k) => k != 0, Val::E(e) => self.decide(st, e)?, _ => return Err(fault!("uninit", "compare-exchange on an uninitialised value")) };
                self.note(st, a, ty.store_size(), ok, true);
                if ok {
                    self.store(st, a, &ty, &n, true)?;
                    if let (Val::C(0), Val::C(1)) = (&c, &n) { if *w == 32 { st.locks.push(a); } }
                }
                self.set(st, base, *d, Val::A(Arc::new(vec![old, Val::C(ok as u64)])));
            }
            Inst::Fence => st.frames.last_mut().unwrap().ip += 1,
            Inst::Freeze(d, ty, a) => {
                let v = self.opv(st, base, a);
                let _ = ty;
                self.set(st, base, *d, v);
            }
            Inst::Unsupported(s) => return Err(Stop::Error(format!("unsupported instruction: {s}"))),
            Inst::Call { callee, args, .. } => {
                let fi = match callee {
                    Callee::Builtin(b) => return self.builtin(st, *b, inst, args, base),
                    Callee::Func(i) => *i,
                    Callee::Ind(o) => {
                        let v = self.opv(st, base, o);
                        let a = self.concretize(st, &v)?;
                        if a >> GEN_SHIFT != GEN_FUNC || a & 0xFFFF_FFFF != 0 { return Err(fault!("memory", "call through invalid function pointer {a:#x}")); }
                        (a >> SLOT_SHIFT & SLOT_MASK) as u32 - 1
                    }
                    Callee::Missing(n) => return Err(Stop::Error(format!("call of external function {n}"))),
                    Callee::Name(_) => unreachable!(),
                };
                if st.frames.len() > 4000 { return Err(fault!("hang", "call depth exceeds 4000")); }
                let f = &prog.funcs[fi as usize];
                let nb = st.regs.len() as u32;
                let mut vals: Vec<Val> = Vec::with_capacity(f.nregs as usize);
                for (_, a) in args.iter() { vals.push(self.opv(st, base, a)); }
                vals.truncate(f.nparams as usize);
                st.regs.extend(vals);
                st.regs.resize((nb + f.nregs) as usize, Val::U);
                st.frames.push(Frame { func: fi, block: 0, ip: 0, prev: 0, base: nb, allocas: vec![] });
                let c = &prog.cov[fi as usize][0];
                if c.load(Relaxed) == 0 { c.store(1, Relaxed); }
            }
        }
        Ok(())
    }

    fn builtin(&mut self, st: &mut State, b: Builtin, inst: &Inst, args: &[(Ty, Opnd)], base: u32) -> R<()> {
        use Builtin::*;
        let mut v: Vec<Val> = Vec::with_capacity(args.len());
        for (_, a) in args { v.push(self.opv(st, base, a)); }
        let w0 = args.first().and_then(|a| a.0.width()).unwrap_or(64);
        let mut out: Option<Val> = None;
        match b {
            Nop => {}
            LockWake => {}
            // alloc::sync::arcinner_layout_for_value_layout(Layout { align, size }): two counters in front
            ArcLayout => {
                let (a, n) = (self.concretize(st, &v[0])?, self.concretize(st, &v[1])?);
                if !a.is_power_of_two() || n > 1 << 40 { return Err(Stop::Error("layout of an unexpected form".into())); }
                let al = a.max(8);
                let off = (16 + a - 1) & !(a - 1);
                out = Some(Val::A(Arc::new(vec![Val::C(al), Val::C((off + n + al - 1) & !(al - 1))])));
            }
            Assume => match v[0] {
                Val::C(0) => return Err(fault!("ub", "violated compiler assumption")),
                _ => {}
            },
            Memcpy | Memmove => {
                let n = self.concretize(st, &v[2])?;
                if n > 0 {
                    let d = self.concretize(st, &v[0])?;
                    let s = self.concretize(st, &v[1])?;
                    st.icount += n / 16;
                    self.copy(st, d, s, n, b == Memmove)?;
                }
                out = Some(v[0].clone());
            }
            Memset => {
                let n = self.concretize(st, &v[2])?;
                if n > 0 {
                    let d = self.concretize(st, &v[0])?;
                    let x = v[1].clone();
                    self.note(st, d, n, true, false);
                    let xe = if let Val::E(e) = x { Some(self.ar.extract(e, 0, 8)) } else { None };
                    let (o, off) = st.mem.get_mut(d, n).map_err(|m| fault!("memory", "fill: {m}"))?;
                    for k in off..off + n as usize {
                        match x {
                            Val::C(c) => { o.bytes[k] = c as u8; o.shadow[k] = 0; }
                            Val::E(_) => o.shadow[k] = sh(xe.unwrap(), 0),
                            _ => o.shadow[k] = UNINIT,
                        }
                    }
                }
                out = Some(v[0].clone());
            }
            Overflow(op, signed) => {
                let w = w0;
                let r = self.bin(op, w, &v[0], &v[1])?;
                let o = match (&v[0], &v[1]) {
                    (Val::C(x), Val::C(y)) => {
                        let ov = if signed {
                            let (x, y) = (sext128(*x as u128, w), sext128(*y as u128, w));
                            let t = match op { BinOp::Add => x + y, BinOp::Sub => x - y, _ => x.wrapping_mul(y) };
                            t != sext128(t as u128 & mask(w), w)
                        } else {
                            let (x, y) = (*x as u128, *y as u128);
                            match op { BinOp::Add => x + y > mask(w), BinOp::Sub => x < y, _ => x * y > mask(w) }
                        };
                        Val::C(ov as u64)
                    }
                    _ => {
                        if w > 63 && op == BinOp::Mul && w > 64 { return Err(Stop::Error("wide multiplication overflow".into())); }
                        let (x, y) = (self.ex(&v[0], w), self.ex(&v[1], w));
                        let w2 = if op == BinOp::Mul { 2 * w } else { w + 1 };
                        let (x2, y2) = if signed { (self.ar.sext(x, w2), self.ar.sext(y, w2)) } else { (self.ar.zext(x, w2), self.ar.zext(y, w2)) };
                        let o = match op { BinOp::Add => Op::Add, BinOp::Sub => Op::Sub, _ => Op::Mul };
                        if !signed && op == BinOp::Sub {
                            let e = self.ar.bin(Op::Ult, x, y);
                            self.val(e)
                        } else {
                            let t = self.ar.bin(o, x2, y2);
                            let lo = self.ar.extract(t, 0, w);
                            let back = if signed { self.ar.sext(lo, w2) } else { self.ar.zext(lo, w2) };
                            let eq = self.ar.bin(Op::Eq, t, back);
                            let e = self.ar.not(eq);
                            self.val(e)
                        }
                    }
                };
                out = Some(Val::A(Arc::new(vec![r, o])));
            }
            UMax | UMin | SMax | SMin => {
                let p = if matches!(b, UMax | UMin) { Pred::Ult } else { Pred::Slt };
                let c = self.icmp(p, w0, &v[0], &v[1]);
                let (x, y) = if matches!(b, UMax | SMax) { (v[1].clone(), v[0].clone()) } else { (v[0].clone(), v[1].clone()) };
                out = Some(match c {
                    Val::C(k) => if k != 0 { x } else { y },
                    Val::E(e) => self.ite(e, Some(w0), &x, &y).unwrap(),
                    _ => Val::U,
                });
            }
            USubSat => {
                let c = self.icmp(Pred::Ult, w0, &v[0], &v[1]);
                let r = self.bin(BinOp::Sub, w0, &v[0], &v[1])?;
                out = Some(match c { Val::C(1) => self.zext(&Val::C(0), w0, w0), Val::C(_) => r, Val::E(e) => { let z = Val::C(0); self.ite(e, Some(w0), &z, &r).unwrap() } _ => Val::U });
            }
            UAddSat => {
                let r = self.bin(BinOp::Add, w0, &v[0], &v[1])?;
                let c = self.icmp(Pred::Ult, w0, &r, &v[0]);
                let mx = self.ar.constant(mask(w0), w0);
                let mx = self.val(mx);
                out = Some(match c { Val::C(1) => mx, Val::C(_) => r, Val::E(e) => self.ite(e, Some(w0), &mx, &r).unwrap(), _ => Val::U });
            }
            SSubSat | SAddSat => {
                if w0 > 64 { return Err(Stop::Error("wide saturating arithmetic".into())); }
                let (x, y) = (self.concretize(st, &v[0])?, self.concretize(st, &v[1])?);
                let s = |x: u64| ((x << (64 - w0)) as i64 >> (64 - w0)) as i128;
                let r = if b == SSubSat { s(x) - s(y) } else { s(x) + s(y) };
                let m = 1i128 << (w0 - 1);
                out = Some(Val::C((r.clamp(-m, m - 1) as u128 & mask(w0)) as u64));
            }
            F(f) => {
                use FFn::*;
                let mut x = [0u64; 3];
                for (x, v) in x.iter_mut().zip(v.iter()) { *x = self.concretize(st, v)?; }
                let g = |x: u64| if w0 == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                let (p, q) = (g(x[0]), g(x[1]));
                let rw = if let Inst::Call { ret, .. } = inst { ret.width().unwrap_or(64) } else { 64 };
                let r = match f {
                    Sqrt => p.sqrt(), Log2 => p.log2(), Log10 => p.log10(), Ln => p.ln(), Exp => p.exp(), Exp2 => p.exp2(), Cbrt => p.cbrt(),
                    Pow => p.powf(q), Powi => p.powi(x[1] as u32 as i32), Floor => p.floor(), Ceil => p.ceil(), Round => p.round(),
                    RoundEven => p.round_ties_even(), Trunc => p.trunc(), Abs => p.abs(), Copysign => p.copysign(q), Min => p.min(q), Max => p.max(q),
                    Fma => p.mul_add(q, g(x[2])),
                    ToUSat | ToSSat => 0.0,
                };
                out = Some(Val::C(match f {
                    ToUSat => (p as u128).min(mask(rw)) as u64,
                    ToSSat => ((p as i128).clamp(-(1i128 << (rw - 1)), (1i128 << (rw - 1)) - 1) as u128 & mask(rw)) as u64,
                    _ => fbits(r, w0),
                }));
            }
            Ctpop | Ctlz | Cttz | Bswap | Bitreverse => {
                let x = match &v[0] {
                    Val::C(c) => *c as u128,
                    Val::E(e) => match self.ar.is_const(*e) { Some(c) => c, None => self.concretize(st, &v[0])? as u128 },
                    _ => return Err(Stop::Error("bit count of an undefined value".into())),
                };
                let w = w0;
                let r: u128 = match b {
                    Ctpop => x.count_ones() as u128,
                    Ctlz => (x.leading_zeros() - (128 - w)) as u128,
                    Cttz => if x == 0 { w as u128 } else { x.trailing_zeros() as u128 },
                    Bswap => x.swap_bytes() >> (128 - w),
                    _ => x.reverse_bits() >> (128 - w),
                };
                let e = self.ar.constant(r, w);
                out = Some(self.val(e));
            }
            Abs => {
                let z = Val::C(0);
                let n = self.bin(BinOp::Sub, w0, &z, &v[0])?;
                let c = self.icmp(Pred::Slt, w0, &v[0], &z);
                out = Some(match c { Val::C(k) => if k != 0 { n } else { v[0].clone() }, Val::E(e) => self.ite(e, Some(w0), &n, &v[0]).unwrap(), _ => Val::U });
            }
            Fshl | Fshr => {
                let s = self.concretize(st, &v[2])? % w0 as u64;
                let (x, y) = (self.ex(&v[0], w0), self.ex(&v[1], w0));
                let r = if s == 0 { if b == Fshl { x } else { y } } else {
                    let k = if b == Fshl { s } else { w0 as u64 - s } as u32;
                    // high part: x << k, low part: y >> (w - k)
                    let hi = self.ar.extract(x, 0, w0 - k);
                    let lo = self.ar.extract(y, w0 - k, k);
                    self.ar.bin(Op::Concat, hi, lo)
                };
                out = Some(self.val(r));
            }
            UCmp | SCmp => {
                let rw = if let Inst::Call { ret, .. } = inst { ret.width().unwrap_or(8) } else { 8 };
                let p = if b == UCmp { Pred::Ult } else { Pred::Slt };
                let lt = self.icmp(p, w0, &v[0], &v[1]);
                let gt = self.icmp(p, w0, &v[1], &v[0]);
                let m1 = Val::C(mask(rw) as u64);
                let inner = match gt { Val::C(k) => Val::C(k), Val::E(e) => self.ite(e, Some(rw), &Val::C(1), &Val::C(0)).unwrap(), o => o };
                out = Some(match lt { Val::C(k) => if k != 0 { m1 } else { inner }, Val::E(e) => self.ite(e, Some(rw), &m1, &inner).unwrap(), _ => Val::U });
            }
            Expect => out = Some(v[0].clone()),
            IsConstant => out = Some(Val::C(0)),
            TlsAddr => out = Some(v[0].clone()),
            EhTypeid => out = Some(Val::C(1)),
            Trap => return Err(fault!("abort", "trap instruction reached")),
            Alloc | AllocZeroed => {
                let n = self.concretize(st, &v[0])?;
                let a = self.concretize(st, &v[1])?;
                if n == 0 { return Err(fault!("ub", "allocation of zero bytes")); }
                if n > 1 << 30 { return Err(Stop::Error("allocation of more than 1 GiB".into())); }
                if !a.is_power_of_two() { return Err(fault!("ub", "allocation with alignment {a}")); }
                let p = st.mem.alloc(n, a, Kind::Heap, b == AllocZeroed);
                out = Some(Val::C(p));
            }
            Dealloc => {
                let p = self.concretize(st, &v[0])?;
                let n = self.concretize(st, &v[1])?;
                let a = self.concretize(st, &v[2])?;
                self.check_heap(st, p, n, a)?;
                self.note(st, p, n, true, false);
                st.mem.dealloc(p);
            }
            Realloc => {
                let p = self.concretize(st, &v[0])?;
                let n = self.concretize(st, &v[1])?;
                let a = self.concretize(st, &v[2])?;
                let m = self.concretize(st, &v[3])?;
                self.check_heap(st, p, n, a)?;
                let q = st.mem.alloc(m, a, Kind::Heap, false);
                self.copy(st, q, p, n.min(m), true)?;
                self.note(st, p, n, true, false);
                st.mem.dealloc(p);
                out = Some(Val::C(q));
            }
            Panic => {
                let mut m = String::new();
                for (i, x) in v.iter().enumerate() {
                    if let Val::C(p) = x {
                        if let Some(l) = self.location(st, *p) { m.push_str(&format!(" at {l}")); }
                        else if let Some(Val::C(n)) = v.get(i + 1) {
                            if *n > 0 && *n < 400 { let s = self.read_str(st, *p, *n); if !s.is_empty() { m.push_str(&format!(" '{s}'")); } }
                        }
                    }
                }
                st.last_panic = Some(Rc::new(m.trim().to_string()));
                st.panics += 1;
                self.set_panic_count(st);
                st.exc.push((1, self.prog.unit_vtable));
                let t = (GEN_EXC << GEN_SHIFT) | st.exc.len() as u64;
                return self.unwind(st, t);
            }
            ResumeUnwind => {
                let d = self.concretize(st, &v[0])?;
                let vt = self.concretize(st, &v[1])?;
                st.panics += 1;
                self.set_panic_count(st);
                st.exc.push((d, vt));
                let t = (GEN_EXC << GEN_SHIFT) | st.exc.len() as u64;
                return self.unwind(st, t);
            }
            CatchCleanup => {
                let t = self.concretize(st, &v[0])?;
                if t >> GEN_SHIFT != GEN_EXC { return Err(Stop::Error("foreign exception".into())); }
                let (d, vt) = st.exc[(t & 0xFFFF) as usize - 1];
                st.panics -= 1;
                self.set_panic_count(st);
                out = Some(Val::A(Arc::new(vec![Val::C(d), Val::C(vt)])));
            }
            PanickingSlow => out = Some(Val::C((st.panics == 0) as u64)),
            PanicNounwind => return Err(fault!("abort", "panic in a context that must not unwind (abort)")),
            Abort => return Err(fault!("abort", "process abort")),
            LockContended => return Err(fault!("deadlock", "lock requested while already held")),
            Memcmp => {
                let n = self.concretize(st, &v[2])?;
                let mut r = 0i64;
                if n > 0 {
                    let a = self.concretize(st, &v[0])?;
                    let c = self.concretize(st, &v[1])?;
                    for k in 0..n {
                        let x = self.load_bits(st, a + k, 1, 8)?;
                        let y = self.load_bits(st, c + k, 1, 8)?;
                        let eq = self.icmp(Pred::Eq, 8, &x, &y);
                        let e = match eq { Val::C(k) => k != 0, Val::E(e) => self.decide(st, e)?, _ => return Err(fault!("uninit", "comparison of uninitialised memory")) };
                        if !e {
                            let lt = self.icmp(Pred::Ult, 8, &x, &y);
                            let l = match lt { Val::C(k) => k != 0, Val::E(e) => self.decide(st, e)?, _ => false };
                            r = if l { -1 } else { 1 };
                            break;
                        }
                    }
                    self.note(st, a, n, false, false);
                    self.note(st, c, n, false, false);
                }
                out = Some(Val::C(r as u32 as u64));
            }
            VAny => {
                let w = self.concretize(st, &v[0])? as u32;
                let e = self.ar.sym(st.nsyms, w);
                st.nsyms += 1;
                st.inputs.push((e, w));
                let z = self.ar.zext(e, 64);
                out = Some(self.val(z));
            }
            VAssume => {
                let c = self.ex(&v[0], 1);
                match self.known_value(st, c) {
                    Some(true) => {}
                    Some(false) => return Err(Stop::Infeasible),
                    None => {
                        if st.model_ok && self.ar.eval(c, &st.model.clone()) != 0 {
                            self.add(st, c, false);
                        } else {
                            self.add(st, c, false);
                            let pending = st.fpos < st.forced.len();
                            if pending { st.model_ok = false; } else {
                                let (r, m) = self.solver.check(&self.ar, &st.pc, None, st.nsyms as usize);
                                match r {
                                    Sat::Sat => { st.model = Rc::new(m); st.model_ok = true; }
                                    Sat::Unsat => return Err(Stop::Infeasible),
                                    Sat::Unknown => return Err(Stop::Error("solver gave up on an assumption".into())),
                                }
                            }
                        }
                    }
                }
            }
            VAssert => {
                let c = self.ex(&v[0], 1);
                let msg = |s: &mut Self, st: &mut State| -> R<String> { let p = s.concretize(st, &v[1])?; let n = s.concretize(st, &v[2])?; Ok(s.read_str(st, p, n)) };
                st.asserts += 1;
                if self.ar.tainted[c as usize] {
                    let m = msg(self, st)?;
                    return Err(fault!("uninit", "checked result depends on uninitialised memory: {m}"));
                }
                match self.ar.is_const(c) {
                    Some(0) => {
                        self.ensure_model(st)?;
                        let m = msg(self, st)?;
                        return Err(fault!("assert", "{m}"));
                    }
                    Some(_) => self.stats.asserts_const += 1,
                    None => {
                        if st.fpos < st.forced.len() {
                            // decided already on the path this prefix was taken from
                            self.add(st, c, true);
                        } else if self.known_value(st, c) != Some(true) {
                            let n = self.ar.not(c);
                            let (r, m) = self.solver.check(&self.ar, &st.pc, Some(n), st.nsyms as usize);
                            match r {
                                Sat::Unsat => { self.stats.asserts_solver += 1; self.add(st, c, true); }
                                Sat::Sat => {
                                    st.model = Rc::new(m);
                                    st.model_ok = true;
                                    let m = msg(self, st)?;
                                    return Err(fault!("assert", "{m}"));
                                }
                                Sat::Unknown => return Err(Stop::Error("solver gave up on an assertion".into())),
                            }
                        } else { self.stats.asserts_const += 1; }
                    }
                }
            }
            VFail => {
                let p = self.concretize(st, &v[0])?;
                let n = self.concretize(st, &v[1])?;
                let m = self.read_str(st, p, n);
                self.ensure_model(st)?;
                return Err(fault!("assert", "{m}"));
            }
            VObserve => {
                if let Val::U = v[0] { return Err(fault!("uninit", "observed value is uninitialised")); }
                st.obs.push(v[0].clone());
            }
            VCover => { let k = self.concretize(st, &v[0])? as u32; if !st.covers.contains(&k) { st.covers.push(k); } }
            VTask => { let k = self.concretize(st, &v[0])?; self.task(st, k)?; }
            VParam => { let k = self.concretize(st, &v[0])? as usize; out = Some(Val::C(self.params.get(k).copied().unwrap_or(0))); }
            VConcretize => { let k = self.concretize(st, &v[0])?; out = Some(Val::C(k)); }
            VSplit => {}
            VHeap => { let k = self.concretize(st, &v[0])?; out = Some(Val::C(match k { 0 => st.mem.heap_live, 1 => st.mem.heap_allocs, 3 => st.frames.len() as u64, 4 => st.icount, _ => st.mem.heap_total })); }
            VLive => out = Some(Val::C(st.mem.heap_live)),
            VLog => {
                let p = self.concretize(st, &v[0])?;
                let n = self.concretize(st, &v[1])?;
                let s = self.read_str(st, p, n);
                let x = match &v[2] { Val::C(c) => format!("{c} {c:#x}"), Val::E(e) => self.ar.show(*e, 6), _ => "undef".into() };
                eprintln!("[log] {s} {x}");
            }
        }
        self.finish_call(st, inst, out);
        Ok(())
    }
    fn check_heap(&mut self, st: &State, p: u64, n: u64, a: u64) -> R<()> {
        let (o, off) = st.mem.get(p, 0).map_err(|m| fault!("memory", "deallocation: {m}"))?;
        if o.kind != Kind::Heap || off != 0 { return Err(fault!("memory", "deallocation of a non-heap pointer")); }
        if o.bytes.len() as u64 != n || o.align != a {
            return Err(fault!("memory", "deallocation with layout (size {n}, align {a}) of an allocation made with (size {}, align {})", o.bytes.len(), o.align));
        }
        Ok(())
    }
    pub fn live_heap(&self, st: &State) -> u64 { st.mem.heap_live }
    pub fn witness_ok(&mut self, st: &mut State) -> Result<(), Stop> { self.ensure_model(st) }
}

fn insert(ty: &Ty, v: Val, x: Val, idx: &[u32]) -> Val {
    if idx.is_empty() { return x; }
    let mut a = match v { Val::A(a) => (*a).clone(), _ => vec![Val::U; ty.nfields()] };
    let i = idx[0] as usize;
    let sub = ty.field(i);
    a[i] = insert(&sub, a[i].clone(), x, &idx[1..]);
    Val::A(Arc::new(a))
}

impl State {
    /// Every decision from the start of the path, including the one still to be taken.
    pub fn full_prefix(&self) -> Vec<Dec> {
        let mut v = self.decs.clone();
        v.extend_from_slice(&self.forced[self.fpos..]);
        v
    }
}

fn fbits(x: f64, w: u32) -> u64 {
    if w == 32 { (x as f32).to_bits() as u64 } else { x.to_bits() }
}
