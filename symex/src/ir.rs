//! In-memory form of the LLVM IR subset the executor understands.

use std::rc::Rc;

/// A runtime value: concrete word, symbolic term, aggregate or undefined.
#[derive(Clone, Debug)]
pub enum Val {
    /// Concrete integer or pointer of at most 64 bits (zero-extended).
    C(u64),
    /// Concrete wide integer (65..=128 bits).
    W(Box<u128>),
    /// Symbolic term (index into the term arena).
    S(u32),
    /// Aggregate.
    A(Rc<Vec<Val>>),
    /// undef / poison / uninitialised.
    U,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    I(u32),
    Ptr,
    Void,
    Float(u32),
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Vec(u64, Box<Ty>),
    Other,
}

impl Ty {
    /// The number of bytes a load or store of this type touches.
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::I(w) => (*w as u64).div_ceil(8).max(1),
            t => t.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::I(w) => {
                let b = (*w as u64).div_ceil(8);
                if b <= 1 {
                    b.max(1)
                } else {
                    b.next_power_of_two()
                }
            }
            Ty::Ptr => 8,
            Ty::Void | Ty::Other => 0,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => n * t.size(),
            Ty::Struct(ts, packed) => {
                let mut off = 0u64;
                let mut al = 1;
                for t in ts {
                    let a = if *packed { 1 } else { t.align() };
                    al = al.max(a);
                    off = off.div_ceil(a) * a;
                    off += t.size();
                }
                off.div_ceil(al) * al
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::I(_) | Ty::Float(_) => self.size().clamp(1, 16),
            Ty::Ptr => 8,
            Ty::Void | Ty::Other => 1,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().max(1),
            Ty::Struct(ts, packed) => {
                if *packed {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
        }
    }
    /// Offset of the `i`th field of a struct.
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(ts, packed) => {
                let mut off = 0u64;
                for (k, t) in ts.iter().enumerate() {
                    let a = if *packed { 1 } else { t.align() };
                    off = off.div_ceil(a) * a;
                    if k == i {
                        return off;
                    }
                    off += t.size();
                }
                panic!("field_off")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off of {:?}", self),
        }
    }
    pub fn width(&self) -> u32 {
        match self {
            Ty::I(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp {
    ZExt,
    SExt,
    Trunc,
    /// ptrtoint / inttoptr / bitcast between same-width words
    Word,
}

#[derive(Clone, Debug)]
pub enum Callee {
    /// Defined function, by index in `Module::funcs`.
    Func(u32),
    /// Declared-only symbol or intrinsic, by resolved builtin.
    Builtin(Builtin),
    /// Indirect call through a pointer.
    Ind(Opd),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Builtin {
    Nop,
    NopTrue,
    Expect,
    Memcpy,
    Memset,
    Memcmp,
    AddOv(bool),
    SubOv(bool),
    MulOv(bool),
    UMin,
    UMax,
    SMin,
    SMax,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    Ctpop,
    Ctlz,
    Cttz,
    Bswap,
    Bitreverse,
    Fshl,
    Fshr,
    Abs,
    UCmp,
    SCmp,
    LoadRelative,
    IsConstant,
    Trap,
    SymAlloc,
    SymFree,
    SymPanic,
    SymVar(u32),
    SymRange,
    SymAssume,
    SymAssert,
    SymCover,
    SymTry,
    SymLive,
    SymStackBegin,
    SymStackEnd,
    SymWorkBegin,
    SymWorkEnd,
    SymNative,
    SymLog,
    SymParam,
    SymConcretize,
    Unknown(u32),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Alloca { dst: u32, off: u64 },
    Load { dst: u32, ty: Ty, ptr: Opd },
    Store { ty: Ty, val: Opd, ptr: Opd },
    Gep { dst: u32, base: Opd, off: i64, vars: Vec<(Opd, u32, i64)> },
    Bin { dst: u32, op: BinOp, w: u32, a: Opd, b: Opd },
    Icmp { dst: u32, p: Pred, w: u32, a: Opd, b: Opd },
    Cast { dst: u32, op: CastOp, from: u32, to: u32, a: Opd },
    Select { dst: u32, w: u32, c: Opd, a: Opd, b: Opd },
    Freeze { dst: u32, a: Opd },
    Call { dst: Option<u32>, ret: Ty, callee: Callee, args: Vec<(Opd, u32)>, unwind: Option<u32> },
    LandingPad { dst: Option<u32> },
    Resume,
    Extract { dst: u32, a: Opd, path: Vec<u32> },
    Insert { dst: u32, a: Opd, ty: Ty, v: Opd, path: Vec<u32> },
    Br { to: u32 },
    CondBr { c: Opd, t: u32, f: u32 },
    Switch { v: Opd, w: u32, default: u32, cases: Vec<(u64, u32)> },
    Ret { v: Option<Opd> },
    Unreachable,
    Unsupported(String),
}

#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub insts: Vec<Inst>,
    /// Debug location id (DILocation metadata number) for each instruction; 0 = none.
    pub dbg: Vec<u32>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub frame_size: u64,
    pub blocks: Vec<Block>,
    pub subprogram: u32,
}

pub struct Global {
    pub name: String,
    pub data: Vec<u8>,
    pub constant: bool,
}

/// What a global index (address region) refers to.
#[derive(Clone, Debug)]
pub enum GRef {
    Data(u32),
    Func(u32),
    Ext(String),
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub globals: Vec<Global>,
    /// Global address index -> referent.
    pub grefs: Vec<GRef>,
    pub by_name: std::collections::HashMap<String, u32>,
    pub unknown: Vec<String>,
    /// DILocation id -> (line, scope id); DILocation inlinedAt ignored.
    pub dilocs: std::collections::HashMap<u32, (u32, u32)>,
    /// scope id -> (file path, is subprogram name)
    pub scopes: std::collections::HashMap<u32, String>,
}

pub const GBASE: u64 = 1 << 44;
pub const HBASE: u64 = 2 << 44;
pub const SBASE: u64 = 3 << 44;
pub const SHIFT: u32 = 24;
