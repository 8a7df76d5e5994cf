//! Decoded LLVM IR.
use std::sync::Arc;

pub type Reg = u32;

#[derive(Clone, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Struct(Arc<Vec<Ty>>, bool),
    Array(u64, Arc<Ty>),
    Vector(u64, Arc<Ty>),
    Opaque,
}

fn up(x: u64, a: u64) -> u64 {
    x.div_ceil(a) * a
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Opaque => 1,
            Ty::Int(w) => ((*w as u64).div_ceil(8)).next_power_of_two().min(16),
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Struct(f, packed) => if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            Ty::Array(_, t) => t.align(),
            Ty::Vector(..) => self.store_size().next_power_of_two(),
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Opaque => 0,
            Ty::Int(w) => (*w as u64).div_ceil(8),
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Vector(n, t) => (n * t.bits()).div_ceil(8),
            _ => self.size(),
        }
    }
    pub fn bits(&self) -> u64 {
        match self {
            Ty::Int(w) => *w as u64,
            Ty::Ptr | Ty::Double => 64,
            Ty::Float => 32,
            _ => self.size() * 8,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !*packed { o = up(o, t.align()); }
                    o += t.size();
                }
                if !*packed { o = up(o, self.align()); }
                o
            }
            Ty::Array(n, t) => n * t.size(),
            _ => up(self.store_size(), self.align()),
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !*packed { o = up(o, t.align()); }
                    if k == i { return o; }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Array(_, t) | Ty::Vector(_, t) => t.size() * i as u64,
            _ => panic!("field_offset of scalar"),
        }
    }
    pub fn field(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Array(_, t) | Ty::Vector(_, t) => (**t).clone(),
            _ => panic!("field of scalar"),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Array(n, _) | Ty::Vector(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Struct(..) | Ty::Array(..))
    }
    pub fn width(&self) -> Option<u32> {
        match self {
            Ty::Int(w) => Some(*w),
            Ty::Ptr | Ty::Double => Some(64),
            Ty::Float => Some(32),
            _ => None,
        }
    }
}

/// Constants before linking.
#[derive(Clone, Debug)]
pub enum Cst {
    Int(u128),
    Undef,
    Zero,
    Global(Arc<str>, i64),
    Bytes(Arc<Vec<u8>>),
    Agg(Arc<Vec<(Ty, Cst)>>),
    Bad(Arc<str>),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    Reg(Reg),
    /// Constant of at most 64 bits.
    K(u64),
    Wide(u128),
    Undef,
    Agg(Arc<Vec<Opnd>>),
    /// Replaced by K at link time.
    Cst(Cst),
    Bad,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rmw { Xchg, Add, Sub, And, Or, Xor, Nand, Max, Min, UMax, UMin }

#[derive(Clone, Debug)]
pub enum Callee {
    Name(Arc<str>),
    Ind(Opnd),
    Func(u32),
    Builtin(Builtin),
    Missing(Arc<str>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FOp { Add, Sub, Mul, Div, Rem, Neg }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FCast { FromS, FromU, ToS, ToU, Ext, Trunc }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FFn { Sqrt, Log2, Log10, Ln, Exp, Exp2, Pow, Powi, Floor, Ceil, Round, RoundEven, Trunc, Abs, Fma, Copysign, Min, Max, ToUSat, ToSSat, Cbrt }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Builtin {
    Nop,
    Assume,
    Memcpy,
    Memmove,
    Memset,
    Overflow(BinOp, bool),
    /// Floating point function, concrete arguments only.
    F(FFn),
    UMax, UMin, SMax, SMin,
    USubSat, UAddSat, SSubSat, SAddSat,
    Ctpop, Ctlz, Cttz, Abs, Fshl, Fshr, Bswap, Bitreverse,
    UCmp, SCmp,
    Expect,
    TlsAddr,
    Trap,
    IsConstant,
    Alloc, AllocZeroed, Dealloc, Realloc,
    Panic, PanicNounwind,
    Abort,
    CatchCleanup,
    ResumeUnwind,
    PanickingSlow,
    Memcmp,
    LockContended, LockWake,
    EhTypeid,
    ArcLayout,
    // harness interface
    VAny, VAssume, VAssert, VObserve, VCover, VTask, VParam, VFail, VConcretize, VSplit, VLive, VLog, VHeap,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(BinOp, u32, Reg, Opnd, Opnd),
    Icmp(Pred, u32, Reg, Opnd, Opnd),
    Zext(u32, u32, Reg, Opnd),
    Sext(u32, u32, Reg, Opnd),
    Trunc(u32, u32, Reg, Opnd),
    Mov(Reg, Opnd),
    Select(Option<u32>, Reg, Opnd, Opnd, Opnd),
    Load(Reg, Ty, Opnd, bool),
    Store(Ty, Opnd, Opnd, bool),
    Gep(Reg, Opnd, i64, Vec<(Opnd, u32, i64)>),
    Alloca(Reg, u64, u64),
    Call { dst: Option<Reg>, ret: Ty, callee: Callee, args: Vec<(Ty, Opnd)>, unwind: Option<(u32, u32)> },
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(u32, Opnd, u32, Vec<(u64, u32)>),
    Ret(Option<Opnd>),
    Unreachable,
    Resume(Opnd),
    Landingpad { dst: Reg, cleanup: bool, catch: bool, filter: bool },
    ExtractValue(Reg, Opnd, Vec<u32>),
    InsertValue(Reg, Ty, Opnd, Opnd, Vec<u32>),
    AtomicRmw(Rmw, u32, Reg, Opnd, Opnd),
    CmpXchg(u32, Reg, Opnd, Opnd, Opnd),
    Fence,
    Freeze(Reg, Ty, Opnd),
    /// Width, destination, operands.
    Fbin(FOp, u32, Reg, Opnd, Opnd),
    /// The LLVM predicate: ordered results for less, equal, greater, and the result for unordered.
    Fcmp([bool; 4], u32, Reg, Opnd, Opnd),
    Fcast(FCast, u32, u32, Reg, Opnd),
    Unsupported(Arc<str>),
}

pub struct Block {
    pub phis: Vec<(Reg, Vec<(u32, Opnd)>)>,
    pub insts: Vec<Inst>,
}

pub struct Func {
    pub name: Arc<str>,
    pub nparams: u32,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub internal: bool,
    pub module: u32,
}

pub struct Global {
    pub name: Arc<str>,
    pub ty: Ty,
    pub init: Option<Cst>,
    pub constant: bool,
    pub internal: bool,
    pub module: u32,
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub globals: Vec<Global>,
    pub aliases: Vec<(Arc<str>, Arc<str>)>,
}
