//! Links parsed modules into one program: resolves names, lays out globals.
use crate::ir::*;
use std::collections::HashMap;
use std::sync::Arc;
use std::sync::atomic::AtomicU32;

pub const GEN_SHIFT: u32 = 51;
pub const SLOT_SHIFT: u32 = 32;
pub const SLOT_MASK: u64 = (1 << 19) - 1;
pub const GEN_GLOBAL: u64 = 0xFFE;
pub const GEN_FUNC: u64 = 0xFFF;
pub const GEN_EXC: u64 = 0xFFD;
pub const OFF0: u64 = 0x1000;

pub struct GlobalObj {
    pub name: Arc<str>,
    pub bytes: Vec<u8>,
    pub uninit: Vec<(usize, usize)>,
    pub constant: bool,
}

pub struct Program {
    pub funcs: Vec<Func>,
    pub globals: Vec<GlobalObj>,
    pub by_name: HashMap<Arc<str>, u32>,
    pub cov: Vec<Vec<AtomicU32>>,
    pub unit_vtable: u64,
    pub panic_count: u64,
}

pub fn global_addr(i: usize) -> u64 {
    (GEN_GLOBAL << GEN_SHIFT) | ((i as u64 + 1) << SLOT_SHIFT) | OFF0
}
pub fn func_addr(i: u32) -> u64 {
    (GEN_FUNC << GEN_SHIFT) | ((i as u64 + 1) << SLOT_SHIFT)
}

/// Crude reading of a mangled name: the identifiers of its path.
pub fn pretty(name: &str) -> String {
    if !name.starts_with("_R") { return name.to_string(); }
    let b = name.as_bytes();
    let mut i = 2;
    let mut out: Vec<String> = Vec::new();
    while i < b.len() {
        if b[i] == b's' && i > 0 {
            // disambiguator s<base62>_
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() { j += 1; }
            if j < b.len() && b[j] == b'_' && j - i < 14 { i = j + 1; continue; }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() { j += 1; }
            let n: usize = name[i..j].parse().unwrap_or(0);
            if j < b.len() && b[j] == b'_' { j += 1; }
            if n > 0 && j + n <= b.len() {
                out.push(name[j..j + n].to_string());
                i = j + n;
                continue;
            }
        }
        i += 1;
    }
    let take: Vec<String> = out.into_iter().filter(|s| s.len() < 40).take(7).collect();
    take.join("::")
}

fn ffn(head: &str, all: &str) -> Option<FFn> {
    use FFn::*;
    Some(match head {
        "sqrt" => Sqrt, "log2" => Log2, "log10" => Log10, "log" => Ln, "exp" => Exp, "exp2" => Exp2, "pow" => Pow, "powi" => Powi,
        "floor" => Floor, "ceil" => Ceil, "round" => Round, "roundeven" | "rint" | "nearbyint" => RoundEven, "trunc" => Trunc, "fabs" => Abs,
        "fma" | "fmuladd" => Fma, "copysign" => Copysign, "minnum" | "fmin" | "minimumnum" => Min, "maxnum" | "fmax" | "maximumnum" => Max, "cbrt" => Cbrt,
        "fptoui" if all.starts_with("fptoui.sat") => ToUSat,
        "fptosi" if all.starts_with("fptosi.sat") => ToSSat,
        _ => return None,
    })
}

pub fn builtin_for(n: &str) -> Option<Builtin> {
    use Builtin::*;
    if let Some(r) = n.strip_prefix("llvm.") {
        let b = |o: &str| match o { "add" => BinOp::Add, "sub" => BinOp::Sub, _ => BinOp::Mul };
        if r.contains(".with.overflow.") {
            let signed = r.starts_with('s');
            return Some(Overflow(b(&r[1..4]), signed));
        }
        let t = |p: &str| r.starts_with(p);
        return Some(
            if t("lifetime") || t("experimental.noalias") || t("dbg") || t("x86.sse2.pause") || t("prefetch") || t("invariant") || t("donothing") || t("fake.use") { Nop }
            else if t("assume") { Assume }
            else if t("memcpy") { Memcpy }
            else if t("memmove") { Memmove }
            else if t("memset") { Memset }
            else if t("umax") { UMax } else if t("umin") { UMin } else if t("smax") { SMax } else if t("smin") { SMin }
            else if t("usub.sat") { USubSat } else if t("uadd.sat") { UAddSat } else if t("ssub.sat") { SSubSat } else if t("sadd.sat") { SAddSat }
            else if t("ctpop") { Ctpop } else if t("ctlz") { Ctlz } else if t("cttz") { Cttz } else if t("abs") { Abs }
            else if t("fshl") { Fshl } else if t("fshr") { Fshr } else if t("bswap") { Bswap } else if t("bitreverse") { Bitreverse }
            else if t("ucmp") { UCmp } else if t("scmp") { SCmp } else if t("expect") { Expect } else if t("is.constant") { IsConstant }
            else if t("threadlocal.address") { TlsAddr } else if t("trap") || t("debugtrap") { Trap } else if t("eh.typeid") { EhTypeid }
            else { return ffn(r.split('.').next().unwrap_or(""), r).map(F) },
        );
    }
    match n {
        "verif_any" => return Some(VAny),
        "verif_assume" => return Some(VAssume),
        "verif_assert" => return Some(VAssert),
        "verif_observe" => return Some(VObserve),
        "verif_cover" => return Some(VCover),
        "verif_task" => return Some(VTask),
        "verif_param" => return Some(VParam),
        "verif_fail" => return Some(VFail),
        "verif_concretize" => return Some(VConcretize),
        "verif_split" => return Some(VSplit),
        "verif_live" => return Some(VLive),
        "verif_log" => return Some(VLog),
        "verif_heap" => return Some(VHeap),
        "memcpy" => return Some(Memcpy),
        "memmove" => return Some(Memmove),
        "memset" => return Some(Memset),
        "memcmp" | "bcmp" => return Some(Memcmp),
        "abort" => return Some(Abort),
        _ => {}
    }
    if n.len() < 12 {
        if let Some(f) = ffn(n, n).or_else(|| n.strip_suffix('f').and_then(|m| ffn(m, m))) { return Some(F(f)); }
    }
    if !n.starts_with("_R") { return None; }
    let near = |p: &str, lim: usize| n.find(p).is_some_and(|i| i < lim);
    if n.ends_with("___rust_alloc") { return Some(Alloc); }
    if n.ends_with("___rust_alloc_zeroed") { return Some(AllocZeroed); }
    if n.ends_with("___rust_dealloc") { return Some(Dealloc); }
    if n.ends_with("___rust_realloc") { return Some(Realloc); }
    if n.contains("___rust_no_alloc_shim_is_unstable") { return Some(Nop); }
    if near("4core9panicking", 50) {
        return Some(if n.contains("nounwind") || n.contains("cannot_unwind") || n.contains("in_cleanup") { PanicNounwind } else { Panic });
    }
    if near("3std9panicking11begin_panic", 50) { return Some(Panic); }
    if near("3std9panicking12catch_unwind7cleanup", 60) { return Some(CatchCleanup); }
    if n.contains("11panic_count17is_zero_slow_path") { return Some(PanickingSlow); }
    if n.contains("3std5panic13resume_unwind") { return Some(ResumeUnwind); }
    for p in ["6option13expect_failed", "6option13unwrap_failed", "6result13unwrap_failed", "slice_index_fail", "slice_error_fail", "len_mismatch_fail",
        "13assert_failed", "7raw_vec12handle_error", "7raw_vec17capacity_overflow", "4cell22panic_already_borrowed", "4cell30panic_already_mutably_borrowed",
        "slice_start_index_len_fail", "22panic_on_ord_violation", "slice_end_index_len_fail", "slice_index_order_fail"] {
        if near(p, 90) { return Some(Panic); }
    }
    if n.contains("3std7process5abort") || n.contains("18handle_alloc_error") { return Some(Abort); }
    if n.contains("5alloc4sync32arcinner_layout_for_value_layout") { return Some(ArcLayout); }
    if n.contains("5mutex5futexNtB2_5Mutex14lock_contended") { return Some(LockContended); }
    if n.contains("5mutex5futexNtB2_5Mutex4wake") { return Some(LockWake); }
    None
}

pub fn link(mods: Vec<Module>) -> Program {
    let mut funcs: Vec<Func> = Vec::new();
    let mut gdefs: Vec<Global> = Vec::new();
    let mut aliases = Vec::new();
    for m in mods {
        funcs.extend(m.funcs);
        gdefs.extend(m.globals);
        aliases.extend(m.aliases);
    }
    // symbol tables: global and per module
    let mut fglob: HashMap<Arc<str>, u32> = HashMap::new();
    let mut floc: HashMap<(u32, Arc<str>), u32> = HashMap::new();
    for (i, f) in funcs.iter().enumerate() {
        floc.insert((f.module, f.name.clone()), i as u32);
        if !f.internal { fglob.entry(f.name.clone()).or_insert(i as u32); }
    }
    for (a, t) in aliases {
        if let Some(&i) = fglob.get(&t) { fglob.entry(a).or_insert(i); }
        else if let Some((_, &i)) = floc.iter().find(|((_, n), _)| *n == t) { fglob.entry(a).or_insert(i); }
    }
    let mut gglob: HashMap<Arc<str>, usize> = HashMap::new();
    let mut gloc: HashMap<(u32, Arc<str>), usize> = HashMap::new();
    for (i, g) in gdefs.iter().enumerate() {
        if g.init.is_some() {
            gloc.insert((g.module, g.name.clone()), i);
            if !g.internal { gglob.entry(g.name.clone()).or_insert(i); }
        }
    }
    let mut missing: HashMap<Arc<str>, usize> = HashMap::new();
    let mut extra: Vec<(Arc<str>, u64)> = Vec::new();
    for g in gdefs.iter() {
        if g.init.is_none() && !gglob.contains_key(&g.name) && !missing.contains_key(&g.name) {
            missing.insert(g.name.clone(), gdefs.len() + extra.len());
            extra.push((g.name.clone(), g.ty.size().max(8)));
        }
    }
    let ext_fn = std::cell::RefCell::new((HashMap::<Arc<str>, u32>::new(), Vec::<Arc<str>>::new()));
    let nf = funcs.len() as u32;
    let resolve = |module: u32, n: &Arc<str>| -> u64 {
        if let Some(&i) = gloc.get(&(module, n.clone())) { return global_addr(i); }
        if let Some(&i) = floc.get(&(module, n.clone())) { return func_addr(i); }
        if let Some(&i) = gglob.get(n) { return global_addr(i); }
        if let Some(&i) = fglob.get(n) { return func_addr(i); }
        if let Some(&i) = missing.get(n) { return global_addr(i); }
        // address of a function that has no definition here
        let mut e = ext_fn.borrow_mut();
        if let Some(&i) = e.0.get(n) { return func_addr(i); }
        let i = nf + e.1.len() as u32;
        e.0.insert(n.clone(), i);
        e.1.push(n.clone());
        func_addr(i)
    };
    // globals
    let mut globals = Vec::new();
    for g in gdefs.iter() {
        let mut bytes = vec![0u8; g.ty.size() as usize];
        let mut uninit = Vec::new();
        if let Some(c) = &g.init { fill(&mut bytes, &mut uninit, 0, &g.ty, c, &|n| resolve(g.module, n)); }
        globals.push(GlobalObj { name: g.name.clone(), bytes, uninit, constant: g.constant });
    }
    let mut panic_count = 0;
    for (n, sz) in &extra {
        if n.contains("GLOBAL_PANIC_COUNT") { panic_count = global_addr(globals.len()); }
        globals.push(GlobalObj { name: n.clone(), bytes: vec![0; *sz as usize], uninit: vec![], constant: false });
    }
    let unit_vtable = global_addr(globals.len());
    let mut vt = vec![0u8; 32];
    vt[16] = 1;
    globals.push(GlobalObj { name: "unit_vtable".into(), bytes: vt, uninit: vec![], constant: true });
    if panic_count == 0 {
        panic_count = global_addr(globals.len());
        globals.push(GlobalObj { name: "panic_count".into(), bytes: vec![0; 8], uninit: vec![], constant: false });
    }
    // operands and callees
    for f in funcs.iter_mut() {
        let module = f.module;
        let fix = |o: &mut Opnd| fix_opnd(o, &|n| resolve(module, n));
        for b in f.blocks.iter_mut() {
            for (_, v) in b.phis.iter_mut() { for (_, o) in v.iter_mut() { fix(o); } }
            for i in b.insts.iter_mut() {
                match i {
                    Inst::Bin(_, _, _, a, b) | Inst::Icmp(_, _, _, a, b) | Inst::Fbin(_, _, _, a, b) | Inst::Fcmp(_, _, _, a, b) => { fix(a); fix(b); }
                    Inst::Zext(_, _, _, a) | Inst::Sext(_, _, _, a) | Inst::Trunc(_, _, _, a) | Inst::Mov(_, a) | Inst::Load(_, _, a, _)
                    | Inst::CondBr(a, ..) | Inst::Switch(_, a, ..) | Inst::Resume(a) | Inst::ExtractValue(_, a, _) | Inst::Freeze(_, _, a) | Inst::Fcast(_, _, _, _, a) => fix(a),
                    Inst::Select(_, _, a, b, c) => { fix(a); fix(b); fix(c); }
                    Inst::Store(_, a, b, _) | Inst::InsertValue(_, _, a, b, _) | Inst::AtomicRmw(_, _, _, a, b) => { fix(a); fix(b); }
                    Inst::CmpXchg(_, _, a, b, c) => { fix(a); fix(b); fix(c); }
                    Inst::Gep(_, a, _, t) => { fix(a); for (o, _, _) in t.iter_mut() { fix(o); } }
                    Inst::Ret(Some(a)) => fix(a),
                    Inst::Call { callee, args, .. } => {
                        for (_, a) in args.iter_mut() { fix(a); }
                        match callee {
                            Callee::Ind(o) => {
                                fix(o);
                            }
                            Callee::Name(n) => {
                                let n = n.clone();
                                *callee = if let Some(b) = builtin_for(&n) { Callee::Builtin(b) }
                                    else if let Some(&i) = floc.get(&(module, n.clone())) { Callee::Func(i) }
                                    else if let Some(&i) = fglob.get(&n) { Callee::Func(i) }
                                    else { Callee::Missing(n) };
                            }
                            _ => {}
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    let cov = funcs.iter().map(|f| f.blocks.iter().map(|_| AtomicU32::new(0)).collect()).collect();
    // stubs for address-taken functions without a definition
    let mut funcs = funcs;
    let mut cov: Vec<Vec<AtomicU32>> = cov;
    for n in ext_fn.into_inner().1 {
        let callee = match builtin_for(&n) { Some(b) => Callee::Builtin(b), None => Callee::Missing(n.clone()) };
        let insts = match callee {
            Callee::Builtin(Builtin::Panic) => vec![Inst::Call { dst: None, ret: Ty::Void, callee, args: vec![], unwind: None }, Inst::Unreachable],
            _ => vec![Inst::Unsupported(format!("call of external function {n}").into())],
        };
        funcs.push(Func { name: n, nparams: 0, nregs: 16, blocks: vec![Block { phis: vec![], insts }], internal: false, module: u32::MAX });
        cov.push(vec![AtomicU32::new(0)]);
    }
    Program { funcs, globals, by_name: fglob, cov, unit_vtable, panic_count }
}

fn fix_opnd(o: &mut Opnd, r: &dyn Fn(&Arc<str>) -> u64) {
    match o {
        Opnd::Cst(Cst::Global(n, off)) => *o = Opnd::K(r(n).wrapping_add(*off as u64)),
        Opnd::Cst(_) => *o = Opnd::Bad,
        Opnd::Agg(v) => {
            let mut w: Vec<Opnd> = (**v).clone();
            for x in w.iter_mut() { fix_opnd(x, r); }
            *o = Opnd::Agg(Arc::new(w));
        }
        _ => {}
    }
}

fn fill(b: &mut [u8], un: &mut Vec<(usize, usize)>, off: usize, ty: &Ty, c: &Cst, r: &dyn Fn(&Arc<str>) -> u64) {
    match c {
        Cst::Zero => {}
        Cst::Int(n) => {
            let k = ty.store_size() as usize;
            b[off..off + k].copy_from_slice(&n.to_le_bytes()[..k]);
        }
        Cst::Undef => un.push((off, ty.size() as usize)),
        Cst::Bytes(v) => b[off..off + v.len()].copy_from_slice(v),
        Cst::Global(n, o) => {
            let a = r(n).wrapping_add(*o as u64);
            b[off..off + 8].copy_from_slice(&a.to_le_bytes());
        }
        Cst::Agg(v) => {
            for (i, (t, x)) in v.iter().enumerate() {
                fill(b, un, off + ty.field_offset(i) as usize, t, x, r);
            }
        }
        Cst::Bad(_) => un.push((off, ty.size() as usize)),
    }
}
