//! Minimal binding to the Z3 C API: one incremental QF_BV solver per worker.
use crate::expr::{Arena, Ex, Node, Op};
use std::ffi::{CString, c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;

#[link(name = "z3")]
unsafe extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_tactic(c: P, n: *const c_char) -> P;
    fn Z3_tactic_inc_ref(c: P, t: P);
    fn Z3_tactic_dec_ref(c: P, t: P);
    fn Z3_mk_solver_from_tactic(c: P, t: P) -> P;
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_params_dec_ref(c: P, p: P);
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, n: *const c_char, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}

pub struct Solver {
    ctx: P,
    s: P,
    bv: Vec<P>,
    bo: Vec<P>,
    /// Asserted constraints, one scope per entry.
    stack: Vec<Ex>,
    syms: Vec<(u32, Ex)>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub retried: u64,
    retry_ms: u32,
    pub time: f64,
    pub max_query: f64,
    pub slow: f64,
}

extern "C" fn on_err(c: P, code: c_int) {
    let m = unsafe { std::ffi::CStr::from_ptr(Z3_get_error_msg(c, code)) };
    eprintln!("z3 error {code}: {}", m.to_string_lossy());
    std::process::exit(3);
}

impl Solver {
    /// A second opinion from a solver which is not incremental but preprocesses, when the
    /// incremental one gave up. The solver is left for the caller to take the model from.
    unsafe fn retry(&mut self, ar: &Arena, extra: Option<Ex>) -> (c_int, P) {
        unsafe {
            let t = CString::new("qfbv").unwrap();
            let t = Z3_mk_tactic(self.ctx, t.as_ptr());
            Z3_tactic_inc_ref(self.ctx, t);
            let s = Z3_mk_solver_from_tactic(self.ctx, t);
            Z3_solver_inc_ref(self.ctx, s);
            Z3_tactic_dec_ref(self.ctx, t);
            let p = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.ctx, p, Z3_mk_string_symbol(self.ctx, k.as_ptr()), self.retry_ms);
            Z3_solver_set_params(self.ctx, s, p);
            Z3_params_dec_ref(self.ctx, p);
            for e in self.stack.clone().into_iter().chain(extra) {
                let t = self.tb(ar, e);
                Z3_solver_assert(self.ctx, s, t);
            }
            (Z3_solver_check(self.ctx, s), s)
        }
    }
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            let s = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, s);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, t.as_ptr()), timeout_ms);
            Z3_solver_set_params(ctx, s, p);
            Solver { ctx, s, bv: Vec::new(), bo: Vec::new(), stack: Vec::new(), syms: Vec::new(), queries: 0, sat: 0, unsat: 0, unknown: 0, retried: 0, retry_ms: timeout_ms.saturating_mul(10), time: 0.0, max_query: 0.0, slow: std::env::var("SYMEX_SLOW").ok().and_then(|x| x.parse().ok()).unwrap_or(0.0) }
        }
    }
    unsafe fn num(&self, v: u128, w: u32) -> P {
        let n = CString::new(v.to_string()).unwrap();
        unsafe { Z3_mk_numeral(self.ctx, n.as_ptr(), Z3_mk_bv_sort(self.ctx, w)) }
    }
    fn grow(&mut self, e: Ex) {
        let n = e as usize + 1;
        if self.bv.len() < n {
            self.bv.resize(n + 256, std::ptr::null_mut());
            self.bo.resize(n + 256, std::ptr::null_mut());
        }
    }
    /// Boolean term for a width-1 expression.
    fn tb(&mut self, ar: &Arena, e: Ex) -> P {
        self.grow(e);
        if !self.bo[e as usize].is_null() {
            return self.bo[e as usize];
        }
        debug_assert!(ar.w(e) == 1);
        let c = self.ctx;
        let r = unsafe {
            match ar.node(e) {
                Node::Const(v) => if v != 0 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                Node::Bin(op, a, b) => match op {
                    Op::Eq => {
                        if ar.w(a) == 1 {
                            let (x, y) = (self.tb(ar, a), self.tb(ar, b));
                            Z3_mk_eq(c, x, y)
                        } else {
                            let (x, y) = (self.tv(ar, a), self.tv(ar, b));
                            Z3_mk_eq(c, x, y)
                        }
                    }
                    Op::Ult => { let (x, y) = (self.tv(ar, a), self.tv(ar, b)); Z3_mk_bvult(c, x, y) }
                    Op::Ule => { let (x, y) = (self.tv(ar, a), self.tv(ar, b)); Z3_mk_bvule(c, x, y) }
                    Op::Slt => { let (x, y) = (self.tv(ar, a), self.tv(ar, b)); Z3_mk_bvslt(c, x, y) }
                    Op::Sle => { let (x, y) = (self.tv(ar, a), self.tv(ar, b)); Z3_mk_bvsle(c, x, y) }
                    Op::And => { let t = [self.tb(ar, a), self.tb(ar, b)]; Z3_mk_and(c, 2, t.as_ptr()) }
                    Op::Or => { let t = [self.tb(ar, a), self.tb(ar, b)]; Z3_mk_or(c, 2, t.as_ptr()) }
                    Op::Xor => {
                        if ar.is_const(b) == Some(1) {
                            let x = self.tb(ar, a);
                            Z3_mk_not(c, x)
                        } else {
                            let (x, y) = (self.tb(ar, a), self.tb(ar, b));
                            Z3_mk_xor(c, x, y)
                        }
                    }
                    _ => { let v = self.tv(ar, e); let o = self.num(1, 1); Z3_mk_eq(c, v, o) }
                },
                Node::Ite(k, a, b) => {
                    let (x, y, z) = (self.tb(ar, k), self.tb(ar, a), self.tb(ar, b));
                    Z3_mk_ite(c, x, y, z)
                }
                _ => { let v = self.tv(ar, e); let o = self.num(1, 1); Z3_mk_eq(c, v, o) }
            }
        };
        self.bo[e as usize] = r;
        r
    }
    fn tv(&mut self, ar: &Arena, e: Ex) -> P {
        self.grow(e);
        if !self.bv[e as usize].is_null() {
            return self.bv[e as usize];
        }
        let c = self.ctx;
        let w = ar.w(e);
        let r = unsafe {
            match ar.node(e) {
                Node::Const(v) => self.num(v, w),
                Node::Sym(k) => {
                    let n = CString::new(format!("s{k}_{w}")).unwrap();
                    let t = Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), Z3_mk_bv_sort(c, w));
                    self.syms.push((k, e));
                    t
                }
                Node::Undef(k) => {
                    let n = CString::new(format!("u{k}_{w}")).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), Z3_mk_bv_sort(c, w))
                }
                Node::Bin(op, a, b) => {
                    if matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) {
                        let t = self.tb(ar, e);
                        let (o, z) = (self.num(1, 1), self.num(0, 1));
                        Z3_mk_ite(c, t, o, z)
                    } else {
                        let (x, y) = (self.tv(ar, a), self.tv(ar, b));
                        match op {
                            Op::Add => Z3_mk_bvadd(c, x, y),
                            Op::Sub => Z3_mk_bvsub(c, x, y),
                            Op::Mul => Z3_mk_bvmul(c, x, y),
                            Op::UDiv => Z3_mk_bvudiv(c, x, y),
                            Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                            Op::URem => Z3_mk_bvurem(c, x, y),
                            Op::SRem => Z3_mk_bvsrem(c, x, y),
                            Op::Shl => Z3_mk_bvshl(c, x, y),
                            Op::LShr => Z3_mk_bvlshr(c, x, y),
                            Op::AShr => Z3_mk_bvashr(c, x, y),
                            Op::And => Z3_mk_bvand(c, x, y),
                            Op::Or => Z3_mk_bvor(c, x, y),
                            Op::Xor => Z3_mk_bvxor(c, x, y),
                            Op::Concat => Z3_mk_concat(c, x, y),
                            _ => unreachable!(),
                        }
                    }
                }
                Node::Ite(k, a, b) => {
                    let x = self.tb(ar, k);
                    let (y, z) = (self.tv(ar, a), self.tv(ar, b));
                    Z3_mk_ite(c, x, y, z)
                }
                Node::Extract(a, lo) => { let x = self.tv(ar, a); Z3_mk_extract(c, lo as u32 + w - 1, lo as u32, x) }
                Node::Zext(a) => { let x = self.tv(ar, a); Z3_mk_zero_ext(c, w - ar.w(a), x) }
                Node::Sext(a) => { let x = self.tv(ar, a); Z3_mk_sign_ext(c, w - ar.w(a), x) }
            }
        };
        self.bv[e as usize] = r;
        r
    }
    fn sync(&mut self, ar: &Arena, pc: &[Ex]) {
        let mut k = 0;
        while k < pc.len() && k < self.stack.len() && pc[k] == self.stack[k] {
            k += 1;
        }
        unsafe {
            if self.stack.len() > k {
                Z3_solver_pop(self.ctx, self.s, (self.stack.len() - k) as u32);
                self.stack.truncate(k);
            }
            for &e in &pc[k..] {
                let t = self.tb(ar, e);
                Z3_solver_push(self.ctx, self.s);
                Z3_solver_assert(self.ctx, self.s, t);
                self.stack.push(e);
            }
        }
    }
    /// Is `pc && extra` satisfiable? With a model of the first `nsyms` symbols when it is.
    pub fn check(&mut self, ar: &Arena, pc: &[Ex], extra: Option<Ex>, nsyms: usize) -> (Sat, Vec<u128>) {
        self.sync(ar, pc);
        unsafe {
            let t0 = Instant::now();
            if let Some(e) = extra {
                let t = self.tb(ar, e);
                Z3_solver_push(self.ctx, self.s);
                Z3_solver_assert(self.ctx, self.s, t);
            }
            let mut r = Z3_solver_check(self.ctx, self.s);
            let mut from = self.s;
            if r == 0 {
                (r, from) = self.retry(ar, extra);
                self.retried += 1;
            }
            self.queries += 1;
            let mut model = Vec::new();
            let res = match r {
                1 => {
                    self.sat += 1;
                    model = vec![0u128; nsyms];
                    let m = Z3_solver_get_model(self.ctx, from);
                    Z3_model_inc_ref(self.ctx, m);
                    for i in 0..self.syms.len() {
                        let (k, e) = self.syms[i];
                        if (k as usize) < nsyms {
                            let mut v: P = std::ptr::null_mut();
                            if Z3_model_eval(self.ctx, m, self.bv[e as usize], true, &mut v) {
                                let s = std::ffi::CStr::from_ptr(Z3_get_numeral_string(self.ctx, v));
                                let n: u128 = s.to_str().unwrap().parse().unwrap();
                                // symbols of one index but another width belong to other paths
                                if n != 0 { model[k as usize] = n; }
                            }
                        }
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    Sat::Sat
                }
                -1 => {
                    self.unsat += 1;
                    Sat::Unsat
                }
                _ => {
                    self.unknown += 1;
                    Sat::Unknown
                }
            };
            if from != self.s {
                Z3_solver_dec_ref(self.ctx, from);
            }
            if extra.is_some() {
                Z3_solver_pop(self.ctx, self.s, 1);
            }
            let dt = t0.elapsed().as_secs_f64();
            self.time += dt;
            if dt > self.max_query { self.max_query = dt; }
            if self.slow > 0.0 && dt > self.slow { eprintln!("slow {dt:.4} {:?} pc={} {}", res, pc.len(), extra.map(|e| ar.show(e, 12)).unwrap_or_default()); }
            let _ = Z3_get_error_code(self.ctx);
            (res, model)
        }
    }
}
