//! Parser for the textual LLVM IR produced by `llvm-dis`.

use crate::ir::*;
use std::collections::HashMap;
use std::rc::Rc;

struct P<'a> {
    s: &'a [u8],
    i: usize,
}

type R<T> = Result<T, String>;

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> P<'a> {
    fn new(s: &'a str) -> Self {
        P { s: s.as_bytes(), i: 0 }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t.as_bytes()) {
            let last = *t.as_bytes().last().unwrap();
            let end = self.i + t.len();
            if is_id(last) && end < self.s.len() && is_id(self.s[end]) {
                return false;
            }
            self.i = end;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, t: &str) -> R<()> {
        if self.eat(t) {
            Ok(())
        } else {
            Err(format!("expected `{}` at `{}`", t, self.rest()))
        }
    }
    fn rest(&self) -> String {
        String::from_utf8_lossy(&self.s[self.i.min(self.s.len())..]).chars().take(160).collect()
    }
    fn word(&mut self) -> String {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && is_id(self.s[self.i]) {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
    }
    fn peek_word(&mut self) -> String {
        let sv = self.i;
        let w = self.word();
        self.i = sv;
        w
    }
    fn name(&mut self) -> R<String> {
        // after % or @
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            self.i += 1;
            let st = self.i;
            while self.i < self.s.len() && self.s[self.i] != b'"' {
                self.i += 1;
            }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
            self.i += 1;
            Ok(r)
        } else {
            let st = self.i;
            while self.i < self.s.len() && is_id(self.s[self.i]) {
                self.i += 1;
            }
            if st == self.i {
                return Err(format!("name expected at {}", self.rest()));
            }
            Ok(String::from_utf8_lossy(&self.s[st..self.i]).into_owned())
        }
    }
    fn skip_balanced(&mut self) {
        // at '('
        let mut d = 0;
        while self.i < self.s.len() {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.i < self.s.len() && self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn num(&mut self) -> R<i128> {
        self.ws();
        let st = self.i;
        if self.i < self.s.len() && self.s[self.i] == b'-' {
            self.i += 1;
        }
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[st..self.i])
            .unwrap()
            .parse::<i128>()
            .map_err(|e| format!("num: {} at {}", e, self.rest()))
    }
}

pub struct Ctx {
    pub grefs: Vec<GRef>,
    pub gaddr: HashMap<String, u64>,
    pub named_ty: HashMap<String, Ty>,
    pub unknown: Vec<String>,
    pub fidx: HashMap<String, u32>,
}

fn mask(v: i128, w: u32) -> u128 {
    if w >= 128 {
        v as u128
    } else {
        (v as u128) & ((1u128 << w) - 1)
    }
}

impl Ctx {
    fn ty(&self, p: &mut P) -> R<Ty> {
        let c = p.peek();
        let base = match c {
            b'i' if p.s.get(p.i + 1).is_some_and(|c| c.is_ascii_digit()) => {
                p.i += 1;
                Ty::I(p.num()? as u32)
            }
            b'[' => {
                p.i += 1;
                let n = p.num()? as u64;
                p.expect("x")?;
                let t = self.ty(p)?;
                p.expect("]")?;
                Ty::Arr(n, Box::new(t))
            }
            b'<' => {
                p.i += 1;
                if p.peek() == b'{' {
                    let t = self.struct_ty(p, true)?;
                    p.expect(">")?;
                    t
                } else {
                    let n = p.num()? as u64;
                    p.expect("x")?;
                    let t = self.ty(p)?;
                    p.expect(">")?;
                    Ty::Vec(n, Box::new(t))
                }
            }
            b'{' => self.struct_ty(p, false)?,
            b'%' => {
                p.i += 1;
                let n = p.name()?;
                self.named_ty.get(&n).cloned().ok_or(format!("unknown type {}", n))?
            }
            _ => {
                let w = p.word();
                match w.as_str() {
                    "ptr" => {
                        if p.eat("addrspace") {
                            p.ws();
                            p.skip_balanced();
                        }
                        Ty::Ptr
                    }
                    "void" => Ty::Void,
                    "float" => Ty::Float(32),
                    "double" => Ty::Float(64),
                    "half" => Ty::Float(16),
                    "metadata" | "label" | "token" | "fp128" | "opaque" | "x86_fp80" => Ty::Other,
                    _ => return Err(format!("type? `{}` {}", w, p.rest())),
                }
            }
        };
        // function type: ret (args...)
        Ok(base)
    }
    fn struct_ty(&self, p: &mut P, packed: bool) -> R<Ty> {
        p.expect("{")?;
        let mut v = vec![];
        if p.peek() != b'}' {
            loop {
                v.push(self.ty(p)?);
                if !p.eat(",") {
                    break;
                }
            }
        }
        p.expect("}")?;
        Ok(Ty::Struct(v, packed))
    }

    fn zero(&self, ty: &Ty) -> Val {
        match ty {
            Ty::I(w) if *w > 64 => Val::W(Box::new(0)),
            Ty::I(_) | Ty::Ptr | Ty::Float(_) => Val::C(0),
            Ty::Arr(n, t) | Ty::Vec(n, t) => Val::A(Rc::new((0..*n).map(|_| self.zero(t)).collect())),
            Ty::Struct(ts, _) => Val::A(Rc::new(ts.iter().map(|t| self.zero(t)).collect())),
            _ => Val::U,
        }
    }

    fn kint(v: i128, w: u32) -> Val {
        if w > 64 {
            Val::W(Box::new(mask(v, w)))
        } else {
            Val::C(mask(v, w) as u64)
        }
    }

    /// Parses a constant of type `ty`.
    fn konst(&mut self, p: &mut P, ty: &Ty) -> R<Val> {
        let c = p.peek();
        match c {
            b'@' => {
                p.i += 1;
                let n = p.name()?;
                let a = self.gaddr.get(&n).copied().ok_or(format!("unknown global {}", n))?;
                return Ok(Val::C(a));
            }
            b'-' | b'0'..=b'9' => {
                if matches!(ty, Ty::Float(_)) {
                    // float literal: decimal or 0x hex
                    let w = p.word();
                    let mut s = w;
                    if p.peek() == b'+' {
                        p.i += 1;
                        s.push('+');
                        s.push_str(&p.word());
                    }
                    if let Some(h) = s.strip_prefix("0x") {
                        let b = u64::from_str_radix(h, 16).unwrap_or(0);
                        if *ty == Ty::Float(32) {
                            return Ok(Val::C((f64::from_bits(b) as f32).to_bits() as u64));
                        }
                        return Ok(Val::C(b));
                    }
                    let f: f64 = s.parse().unwrap_or(0.0);
                    return Ok(Val::C(if *ty == Ty::Float(32) { (f as f32).to_bits() as u64 } else { f.to_bits() }));
                }
                let v = p.num()?;
                return Ok(Self::kint(v, ty.width()));
            }
            b'c' if p.s.get(p.i + 1) == Some(&b'"') => {
                p.i += 2;
                let mut v = vec![];
                while p.s[p.i] != b'"' {
                    if p.s[p.i] == b'\\' && p.s[p.i + 1] == b'\\' {
                        v.push(Val::C(b'\\' as u64));
                        p.i += 2;
                    } else if p.s[p.i] == b'\\' {
                        let h = std::str::from_utf8(&p.s[p.i + 1..p.i + 3]).unwrap();
                        v.push(Val::C(u8::from_str_radix(h, 16).map_err(|e| e.to_string())? as u64));
                        p.i += 3;
                    } else {
                        v.push(Val::C(p.s[p.i] as u64));
                        p.i += 1;
                    }
                }
                p.i += 1;
                return Ok(Val::A(Rc::new(v)));
            }
            b'[' | b'{' | b'<' => {
                let packed = c == b'<' && p.s.get(p.i + 1) == Some(&b'{');
                let (open, close) = match c {
                    b'[' => ("[", "]"),
                    b'{' => ("{", "}"),
                    _ if packed => ("<{", "}>"),
                    _ => ("<", ">"),
                };
                p.expect(open)?;
                let mut v = vec![];
                p.ws();
                if !p.s[p.i..].starts_with(close.as_bytes()) {
                    loop {
                        let t = self.ty(p)?;
                        v.push(self.konst(p, &t)?);
                        if !p.eat(",") {
                            break;
                        }
                    }
                }
                p.expect(close)?;
                return Ok(Val::A(Rc::new(v)));
            }
            _ => {}
        }
        let w = p.word();
        match w.as_str() {
            "true" => Ok(Val::C(1)),
            "false" => Ok(Val::C(0)),
            "null" => Ok(Val::C(0)),
            "undef" | "poison" => Ok(match ty {
                Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..) => self.undef(ty),
                _ => Val::U,
            }),
            "zeroinitializer" => Ok(self.zero(ty)),
            "none" => Ok(Val::U),
            "splat" => {
                p.expect("(")?;
                let t = self.ty(p)?;
                let v = self.konst(p, &t)?;
                p.expect(")")?;
                if let Ty::Vec(n, _) = ty {
                    Ok(Val::A(Rc::new((0..*n).map(|_| v.clone()).collect())))
                } else {
                    Ok(v)
                }
            }
            "getelementptr" => {
                loop {
                    if p.peek() == b'(' {
                        break;
                    }
                    let w = p.word();
                    if w.is_empty() {
                        return Err(format!("gep const {}", p.rest()));
                    }
                    if w == "inrange" && p.peek() == b'(' {
                        p.skip_balanced();
                    }
                }
                p.expect("(")?;
                let sty = self.ty(p)?;
                p.expect(",")?;
                let t = self.ty(p)?;
                let b = self.konst(p, &t)?;
                let mut idx = vec![];
                while p.eat(",") {
                    let t = self.ty(p)?;
                    let v = self.konst(p, &t)?;
                    idx.push((t, v));
                }
                p.expect(")")?;
                let Val::C(mut a) = b else { return Err("gep base".into()) };
                let mut cur = sty;
                for (k, (t, v)) in idx.iter().enumerate() {
                    let Val::C(v) = v else { return Err("gep idx".into()) };
                    let iv = sext(*v, t.width());
                    if k == 0 {
                        a = a.wrapping_add((iv as u64).wrapping_mul(cur.size()));
                    } else {
                        match cur.clone() {
                            Ty::Struct(ts, _) => {
                                a = a.wrapping_add(cur.field_off(iv as usize));
                                cur = ts[iv as usize].clone();
                            }
                            Ty::Arr(_, t) => {
                                a = a.wrapping_add((iv as u64).wrapping_mul(t.size()));
                                cur = *t;
                            }
                            _ => return Err("gep type".into()),
                        }
                    }
                }
                Ok(Val::C(a))
            }
            "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "ptrtoaddr" | "addrspacecast" => {
                p.expect("(")?;
                let t = self.ty(p)?;
                let v = self.konst(p, &t)?;
                p.expect("to")?;
                let to = self.ty(p)?;
                p.expect(")")?;
                Ok(match v {
                    Val::C(x) => Val::C(mask(x as i128, to.width().clamp(1, 64)) as u64),
                    v => v,
                })
            }
            "add" | "sub" | "xor" | "mul" => {
                while p.peek() != b'(' {
                    if p.word().is_empty() {
                        return Err("binop const".into());
                    }
                }
                p.expect("(")?;
                let t = self.ty(p)?;
                let a = self.konst(p, &t)?;
                p.expect(",")?;
                let t2 = self.ty(p)?;
                let b = self.konst(p, &t2)?;
                p.expect(")")?;
                let (Val::C(a), Val::C(b)) = (a, b) else { return Err("binop const".into()) };
                let r = match w.as_str() {
                    "add" => a.wrapping_add(b),
                    "sub" => a.wrapping_sub(b),
                    "xor" => a ^ b,
                    _ => a.wrapping_mul(b),
                };
                Ok(Val::C(mask(r as i128, t.width()) as u64))
            }
            _ => Err(format!("constant? `{}` {}", w, p.rest())),
        }
    }

    fn undef(&self, ty: &Ty) -> Val {
        match ty {
            Ty::Arr(n, t) | Ty::Vec(n, t) => Val::A(Rc::new((0..*n).map(|_| self.undef(t)).collect())),
            Ty::Struct(ts, _) => Val::A(Rc::new(ts.iter().map(|t| self.undef(t)).collect())),
            _ => Val::U,
        }
    }
}

pub fn sext(v: u64, w: u32) -> i64 {
    if w >= 64 || w == 0 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

/// Serialises a constant into bytes.
pub fn bytes_of(v: &Val, ty: &Ty, out: &mut [u8]) {
    match (v, ty) {
        (Val::U, _) => {}
        (Val::C(x), _) => {
            let n = (ty.size() as usize).min(8);
            out[..n].copy_from_slice(&x.to_le_bytes()[..n]);
        }
        (Val::W(x), _) => out[..16].copy_from_slice(&x.to_le_bytes()),
        (Val::A(vs), Ty::Arr(_, t)) | (Val::A(vs), Ty::Vec(_, t)) => {
            let s = t.size() as usize;
            for (i, v) in vs.iter().enumerate() {
                bytes_of(v, t, &mut out[i * s..]);
            }
        }
        (Val::A(vs), Ty::Struct(ts, _)) => {
            for (i, v) in vs.iter().enumerate() {
                let o = ty.field_off(i) as usize;
                bytes_of(v, &ts[i], &mut out[o..]);
            }
        }
        _ => panic!("bytes_of {:?} {:?}", v, ty),
    }
}

struct FnCtx {
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
    nb: u32,
}

impl FnCtx {
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn blk(&mut self, n: &str) -> u32 {
        if let Some(b) = self.blocks.get(n) {
            return *b;
        }
        let k = self.nb;
        self.nb += 1;
        self.blocks.insert(n.to_string(), k);
        k
    }
}

impl Ctx {
    fn opd(&mut self, p: &mut P, f: &mut FnCtx, ty: &Ty) -> R<Opd> {
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name()?;
            Ok(Opd::R(f.reg(&n)))
        } else {
            Ok(Opd::K(self.konst(p, ty)?))
        }
    }
    fn tyopd(&mut self, p: &mut P, f: &mut FnCtx) -> R<(Ty, Opd)> {
        let t = self.ty(p)?;
        let o = self.opd(p, f, &t)?;
        Ok((t, o))
    }
    fn label(&mut self, p: &mut P, f: &mut FnCtx) -> R<u32> {
        p.expect("label")?;
        p.expect("%")?;
        let n = p.name()?;
        Ok(f.blk(&n))
    }
    fn skip_attrs(&mut self, p: &mut P) {
        loop {
            let c = p.peek();
            if c == b'"' {
                // string attribute "k"="v"
                p.i += 1;
                while p.i < p.s.len() && p.s[p.i] != b'"' {
                    p.i += 1;
                }
                p.i += 1;
                if p.peek() == b'=' {
                    p.i += 1;
                }
                continue;
            }
            if !c.is_ascii_lowercase() {
                return;
            }
            if c == b'c' && p.s.get(p.i + 1) == Some(&b'"') {
                return;
            }
            let w = p.peek_word();
            match w.as_str() {
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr"
                | "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "splat" | "none" | "sub" | "add" | "xor" | "mul" | "ptrtoaddr" => return,
                "align" => {
                    p.word();
                    if p.peek() == b'(' {
                        p.skip_balanced();
                    } else {
                        let _ = p.num();
                    }
                }
                "ptr" | "void" | "float" | "double" | "half" | "metadata" | "token" => return,
                _ => {
                    if w.starts_with('i') && w[1..].chars().all(|c| c.is_ascii_digit()) && w.len() > 1 {
                        return;
                    }
                    p.word();
                    if p.peek() == b'(' {
                        p.skip_balanced();
                    }
                }
            }
        }
    }

    fn builtin(&mut self, name: &str) -> Builtin {
        use Builtin::*;
        let n = name;
        let st = |p: &str| n.starts_with(p);
        if st("llvm.lifetime") || st("llvm.experimental.noalias") || st("llvm.assume") || st("llvm.dbg") || st("llvm.donothing") || st("llvm.invariant") || st("llvm.prefetch") || st("llvm.pseudoprobe") {
            return Nop;
        }
        if st("llvm.memcpy") || st("llvm.memmove") || n == "memcpy" || n == "memmove" {
            return Memcpy;
        }
        if st("llvm.memset") || n == "memset" {
            return Memset;
        }
        if n == "memcmp" || n == "bcmp" {
            return Memcmp;
        }
        let ov = [
            ("llvm.uadd.with.overflow", AddOv(false)),
            ("llvm.sadd.with.overflow", AddOv(true)),
            ("llvm.usub.with.overflow", SubOv(false)),
            ("llvm.ssub.with.overflow", SubOv(true)),
            ("llvm.umul.with.overflow", MulOv(false)),
            ("llvm.smul.with.overflow", MulOv(true)),
            ("llvm.umin", UMin),
            ("llvm.umax", UMax),
            ("llvm.smin", SMin),
            ("llvm.smax", SMax),
            ("llvm.uadd.sat", UAddSat),
            ("llvm.usub.sat", USubSat),
            ("llvm.sadd.sat", SAddSat),
            ("llvm.ssub.sat", SSubSat),
            ("llvm.ctpop", Ctpop),
            ("llvm.ctlz", Ctlz),
            ("llvm.cttz", Cttz),
            ("llvm.bswap", Bswap),
            ("llvm.bitreverse", Bitreverse),
            ("llvm.fshl", Fshl),
            ("llvm.fshr", Fshr),
            ("llvm.abs", Abs),
            ("llvm.ucmp", UCmp),
            ("llvm.scmp", SCmp),
            ("llvm.load.relative", LoadRelative),
            ("llvm.is.constant", IsConstant),
            ("llvm.expect", Expect),
            ("llvm.threadlocal.address", Expect),
            ("llvm.ssa.copy", Expect),
            ("llvm.trap", Trap),
            ("llvm.ubsantrap", Trap),
            ("llvm.debugtrap", Trap),
        ];
        for (k, b) in ov {
            if st(k) {
                return b;
            }
        }
        match n {
            "abort" => Trap,
            "sym_alloc" => SymAlloc,
            "sym_free" => SymFree,
            "sym_panic" => SymPanic,
            "sym_bool" => SymVar(1),
            "sym_u8" => SymVar(8),
            "sym_u16" => SymVar(16),
            "sym_u32" => SymVar(32),
            "sym_u64" | "sym_usize" => SymVar(64),
            "sym_range" => SymRange,
            "sym_assume" => SymAssume,
            "sym_assert" => SymAssert,
            "sym_cover" => SymCover,
            "sym_try" => SymTry,
            "sym_live" => SymLive,
            "sym_stack_begin" => SymStackBegin,
            "sym_stack_end" => SymStackEnd,
            "sym_work_begin" => SymWorkBegin,
            "sym_work_end" => SymWorkEnd,
            "sym_native" => SymNative,
            "sym_log" => SymLog,
            "sym_param" => SymParam,
            "sym_concretize" => SymConcretize,
            _ => {
                self.unknown.push(n.to_string());
                Unknown(self.unknown.len() as u32 - 1)
            }
        }
    }

    fn gep(&mut self, p: &mut P, f: &mut FnCtx, dst: u32) -> R<Inst> {
        // flags
        loop {
            let w = p.peek_word();
            if matches!(w.as_str(), "inbounds" | "nuw" | "nusw" | "nsw") {
                p.word();
            } else if w == "inrange" {
                p.word();
                p.ws();
                p.skip_balanced();
            } else {
                break;
            }
        }
        let sty = self.ty(p)?;
        p.expect(",")?;
        let (_, base) = self.tyopd(p, f)?;
        let mut off = 0i64;
        let mut vars = vec![];
        let mut cur = sty;
        let mut k = 0;
        while p.peek() == b',' {
            let sv = p.i;
            p.i += 1;
            if p.peek() == b'!' {
                p.i = sv;
                break;
            }
            let (t, o) = self.tyopd(p, f)?;
            let w = t.width();
            let scale;
            if k == 0 {
                scale = cur.size() as i64;
            } else {
                match cur.clone() {
                    Ty::Struct(ts, _) => {
                        let Opd::K(Val::C(v)) = &o else { return Err("struct gep var".into()) };
                        off += cur.field_off(*v as usize) as i64;
                        cur = ts[*v as usize].clone();
                        k += 1;
                        continue;
                    }
                    Ty::Arr(_, t) | Ty::Vec(_, t) => {
                        scale = t.size() as i64;
                        cur = *t;
                    }
                    _ => return Err("gep type".into()),
                }
            }
            match &o {
                Opd::K(Val::C(v)) => off = off.wrapping_add(sext(*v, w).wrapping_mul(scale)),
                _ => vars.push((o, w, scale)),
            }
            k += 1;
        }
        Ok(Inst::Gep { dst, base, off, vars })
    }

    fn call(&mut self, p: &mut P, f: &mut FnCtx, dst: Option<u32>) -> R<Inst> {
        // [fast-math] [cconv] [ret attrs] ty callee(args)
        self.skip_attrs(p);
        let ret = self.ty(p)?;
        // optional function type
        if p.peek() == b'(' {
            p.skip_balanced();
        }
        let callee;
        match p.peek() {
            b'@' => {
                p.i += 1;
                let n = p.name()?;
                if let Some(i) = self.fidx.get(&n) {
                    callee = Callee::Func(*i);
                } else {
                    let b = self.builtin(&n);
                    callee = Callee::Builtin(b);
                }
            }
            b'%' => {
                p.i += 1;
                let n = p.name()?;
                callee = Callee::Ind(Opd::R(f.reg(&n)));
            }
            _ => return Err(format!("callee? {}", p.rest())),
        }
        p.expect("(")?;
        let mut args = vec![];
        if p.peek() != b')' {
            loop {
                let t = self.ty(p)?;
                self.skip_attrs(p);
                if t == Ty::Other {
                    // metadata argument: skip to , or )
                    let mut d = 0;
                    while p.i < p.s.len() {
                        match p.s[p.i] {
                            b'(' => d += 1,
                            b')' if d == 0 => break,
                            b')' => d -= 1,
                            b',' if d == 0 => break,
                            _ => {}
                        }
                        p.i += 1;
                    }
                    args.push((Opd::K(Val::U), 0));
                } else {
                    let o = self.opd(p, f, &t)?;
                    args.push((o, t.width()));
                }
                if !p.eat(",") {
                    break;
                }
            }
        }
        p.expect(")")?;
        Ok(Inst::Call { dst, ret, callee, args, unwind: None })
    }

    fn inst(&mut self, line: &str, f: &mut FnCtx, frame: &mut u64) -> R<Inst> {
        let p = &mut P::new(line);
        let mut dst: Option<u32> = None;
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name()?;
            dst = Some(f.reg(&n));
            p.expect("=")?;
        }
        let op = p.word();
        let d = || dst.ok_or("no dst".to_string());
        let flags = |p: &mut P| {
            while matches!(p.peek_word().as_str(), "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "volatile" | "atomic" | "fast" | "nnan" | "ninf" | "nsz") {
                p.word();
            }
        };
        match op.as_str() {
            "alloca" => {
                let t = self.ty(p)?;
                let mut n = 1u64;
                let mut al = t.align();
                while p.eat(",") {
                    if p.eat("align") {
                        al = p.num()? as u64;
                    } else if p.peek() == b'!' {
                        break;
                    } else {
                        let (_, o) = self.tyopd(p, f)?;
                        let Opd::K(Val::C(k)) = o else { return Err("dynamic alloca".into()) };
                        n = k;
                    }
                }
                let al = al.max(1);
                let off = frame.div_ceil(al) * al;
                *frame = off + (t.size() * n).max(1);
                Ok(Inst::Alloca { dst: d()?, off })
            }
            "load" => {
                flags(p);
                let ty = self.ty(p)?;
                p.expect(",")?;
                let (_, ptr) = self.tyopd(p, f)?;
                Ok(Inst::Load { dst: d()?, ty, ptr })
            }
            "store" => {
                flags(p);
                let (ty, val) = self.tyopd(p, f)?;
                p.expect(",")?;
                let (_, ptr) = self.tyopd(p, f)?;
                Ok(Inst::Store { ty, val, ptr })
            }
            "getelementptr" => self.gep(p, f, d()?),
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                flags(p);
                let ty = self.ty(p)?;
                if matches!(ty, Ty::Vec(..)) {
                    return Err("vector op".into());
                }
                let a = self.opd(p, f, &ty)?;
                p.expect(",")?;
                let b = self.opd(p, f, &ty)?;
                use BinOp::*;
                let o = match op.as_str() {
                    "add" => Add,
                    "sub" => Sub,
                    "mul" => Mul,
                    "udiv" => UDiv,
                    "sdiv" => SDiv,
                    "urem" => URem,
                    "srem" => SRem,
                    "shl" => Shl,
                    "lshr" => LShr,
                    "ashr" => AShr,
                    "and" => And,
                    "or" => Or,
                    _ => Xor,
                };
                Ok(Inst::Bin { dst: d()?, op: o, w: ty.width(), a, b })
            }
            "icmp" => {
                flags(p);
                let pr = p.word();
                let ty = self.ty(p)?;
                if matches!(ty, Ty::Vec(..)) {
                    return Err("vector op".into());
                }
                let a = self.opd(p, f, &ty)?;
                p.expect(",")?;
                let b = self.opd(p, f, &ty)?;
                use Pred::*;
                let pp = match pr.as_str() {
                    "eq" => Eq,
                    "ne" => Ne,
                    "ult" => Ult,
                    "ule" => Ule,
                    "ugt" => Ugt,
                    "uge" => Uge,
                    "slt" => Slt,
                    "sle" => Sle,
                    "sgt" => Sgt,
                    "sge" => Sge,
                    _ => return Err(format!("pred {}", pr)),
                };
                Ok(Inst::Icmp { dst: d()?, p: pp, w: ty.width(), a, b })
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
                flags(p);
                let (t, a) = self.tyopd(p, f)?;
                p.expect("to")?;
                let to = self.ty(p)?;
                if matches!(t, Ty::Vec(..) | Ty::Float(_)) || matches!(to, Ty::Vec(..) | Ty::Float(_)) {
                    return Err("vector/float cast".into());
                }
                let (fw, tw) = (t.width(), to.width());
                let o = match op.as_str() {
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "trunc" => CastOp::Trunc,
                    _ if fw == tw => CastOp::Word,
                    _ if fw < tw => CastOp::ZExt,
                    _ => CastOp::Trunc,
                };
                Ok(Inst::Cast { dst: d()?, op: o, from: fw, to: tw, a })
            }
            "select" => {
                flags(p);
                let (ct, c) = self.tyopd(p, f)?;
                if matches!(ct, Ty::Vec(..)) {
                    return Err("vector select".into());
                }
                p.expect(",")?;
                let (t, a) = self.tyopd(p, f)?;
                p.expect(",")?;
                let (_, b) = self.tyopd(p, f)?;
                Ok(Inst::Select { dst: d()?, w: t.width(), c, a, b })
            }
            "freeze" => {
                let (_, a) = self.tyopd(p, f)?;
                Ok(Inst::Freeze { dst: d()?, a })
            }
            "extractvalue" => {
                let (_, a) = self.tyopd(p, f)?;
                let mut path = vec![];
                while p.eat(",") {
                    if p.peek() == b'!' {
                        break;
                    }
                    path.push(p.num()? as u32);
                }
                Ok(Inst::Extract { dst: d()?, a, path })
            }
            "insertvalue" => {
                let (ty, a) = self.tyopd(p, f)?;
                p.expect(",")?;
                let (_, v) = self.tyopd(p, f)?;
                let mut path = vec![];
                while p.eat(",") {
                    if p.peek() == b'!' {
                        break;
                    }
                    path.push(p.num()? as u32);
                }
                Ok(Inst::Insert { dst: d()?, a, ty, v, path })
            }
            "br" => {
                if p.peek_word() == "label" {
                    Ok(Inst::Br { to: self.label(p, f)? })
                } else {
                    let (_, c) = self.tyopd(p, f)?;
                    p.expect(",")?;
                    let t = self.label(p, f)?;
                    p.expect(",")?;
                    let fl = self.label(p, f)?;
                    Ok(Inst::CondBr { c, t, f: fl })
                }
            }
            "switch" => {
                let (ty, v) = self.tyopd(p, f)?;
                p.expect(",")?;
                let default = self.label(p, f)?;
                p.expect("[")?;
                let mut cases = vec![];
                while p.peek() != b']' && p.peek() != 0 {
                    let t = self.ty(p)?;
                    let Val::C(k) = self.konst(p, &t)? else { return Err("switch case".into()) };
                    p.expect(",")?;
                    let l = self.label(p, f)?;
                    cases.push((k, l));
                }
                Ok(Inst::Switch { v, w: ty.width(), default, cases })
            }
            "ret" => {
                if p.eat("void") {
                    Ok(Inst::Ret { v: None })
                } else {
                    let (_, o) = self.tyopd(p, f)?;
                    Ok(Inst::Ret { v: Some(o) })
                }
            }
            "unreachable" => Ok(Inst::Unreachable),
            "landingpad" => Ok(Inst::LandingPad { dst }),
            "resume" => Ok(Inst::Resume),
            "tail" | "musttail" | "notail" => {
                p.expect("call")?;
                self.call(p, f, dst)
            }
            "call" => self.call(p, f, dst),
            "invoke" => {
                // "... to label %a unwind label %b": completed by the caller.
                self.call(p, f, dst)
            }
            _ => Err(format!("opcode {}", op)),
        }
    }

    fn phi(&mut self, line: &str, f: &mut FnCtx) -> R<(u32, Vec<(u32, Opd)>)> {
        let p = &mut P::new(line);
        p.expect("%")?;
        let n = p.name()?;
        let dst = f.reg(&n);
        p.expect("=")?;
        p.expect("phi")?;
        let ty = self.ty(p)?;
        let mut v = vec![];
        loop {
            p.expect("[")?;
            let o = self.opd(p, f, &ty)?;
            p.expect(",")?;
            p.expect("%")?;
            let b = p.name()?;
            let b = f.blk(&b);
            p.expect("]")?;
            v.push((b, o));
            if !p.eat(",") || p.peek() == b'!' {
                break;
            }
        }
        Ok((dst, v))
    }
}

fn fn_name(line: &str) -> Option<String> {
    // define ... @name(
    let at = line.find('@')?;
    let mut p = P::new(line);
    p.i = at + 1;
    p.name().ok()
}

fn dbg_of(line: &str) -> u32 {
    if let Some(k) = line.rfind("!dbg !") {
        let s = &line[k + 6..];
        let e = s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len());
        s[..e].parse().unwrap_or(0)
    } else {
        0
    }
}

fn field<'a>(l: &'a str, k: &str) -> Option<&'a str> {
    let i = l.find(k)?;
    Some(&l[i + k.len()..])
}
fn num_at(s: &str) -> u32 {
    let e = s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len());
    s[..e].parse().unwrap_or(0)
}

pub fn parse(text: &str) -> R<Module> {
    let lines: Vec<&str> = text.lines().collect();
    let mut cx = Ctx { grefs: vec![], gaddr: HashMap::new(), named_ty: HashMap::new(), unknown: vec![], fidx: HashMap::new() };
    let mut glines = vec![];
    let mut aliases = vec![];
    let mut nf = 0u32;
    let mut ng = 0u32;
    let mut dilocs = HashMap::new();
    let mut scopes_file: HashMap<u32, u32> = HashMap::new();
    let mut files: HashMap<u32, String> = HashMap::new();
    for l in &lines {
        if l.starts_with('%') {
            let mut p = P::new(l);
            p.i = 1;
            let n = p.name()?;
            p.expect("=")?;
            p.expect("type")?;
            if let Ok(t) = cx.ty(&mut p) {
                cx.named_ty.insert(n, t);
            }
        } else if l.starts_with('@') {
            let mut p = P::new(l);
            p.i = 1;
            let n = p.name()?;
            if l.contains(" alias ") {
                aliases.push((n, *l));
                continue;
            }
            let addr = GBASE + ((cx.grefs.len() as u64) << SHIFT);
            cx.gaddr.insert(n.clone(), addr);
            let ext = l.contains(" external ");
            if ext {
                cx.grefs.push(GRef::Ext(n));
            } else {
                cx.grefs.push(GRef::Data(ng));
                ng += 1;
                glines.push((n, *l));
            }
        } else if l.starts_with("define ") {
            let n = fn_name(l).ok_or("fn name")?;
            cx.gaddr.insert(n.clone(), GBASE + ((cx.grefs.len() as u64) << SHIFT));
            cx.grefs.push(GRef::Func(nf));
            cx.fidx.insert(n, nf);
            nf += 1;
        } else if l.starts_with("declare ") {
            let n = fn_name(l).ok_or("fn name")?;
            cx.gaddr.insert(n.clone(), GBASE + ((cx.grefs.len() as u64) << SHIFT));
            cx.grefs.push(GRef::Ext(n));
        } else if l.starts_with('!') {
            let id = num_at(&l[1..]);
            if l.contains("!DILocation(") {
                let line = field(l, "line: ").map(num_at).unwrap_or(0);
                let sc = field(l, "scope: !").map(num_at).unwrap_or(0);
                dilocs.insert(id, (line, sc));
            } else if l.contains("!DISubprogram(") || l.contains("!DILexicalBlock") {
                if let Some(fl) = field(l, "file: !") {
                    scopes_file.insert(id, num_at(fl));
                }
            } else if l.contains("!DIFile(") {
                let fname = field(l, "filename: \"").map(|s| s[..s.find('"').unwrap()].to_string()).unwrap_or_default();
                let dir = field(l, "directory: \"").map(|s| s[..s.find('"').unwrap()].to_string()).unwrap_or_default();
                let full = if fname.starts_with('/') { fname } else { format!("{}/{}", dir, fname) };
                files.insert(id, full);
            }
        }
    }
    for (n, l) in aliases {
        // @a = ... alias ty, ptr @target
        if let Some(k) = l.rfind('@') {
            let mut p = P::new(l);
            p.i = k + 1;
            let t = p.name()?;
            if let Some(a) = cx.gaddr.get(&t).copied() {
                cx.gaddr.insert(n.clone(), a);
                if let Some(i) = cx.fidx.get(&t).copied() {
                    cx.fidx.insert(n, i);
                }
            }
        }
    }
    let mut globals = vec![];
    for (n, l) in glines {
        let mut p = P::new(l);
        p.i = 1;
        p.name()?;
        p.expect("=")?;
        let constant;
        loop {
            let w = p.word();
            if w == "constant" {
                constant = true;
                break;
            }
            if w == "global" {
                constant = false;
                break;
            }
            if w.is_empty() {
                return Err(format!("global? {}", l));
            }
            if p.peek() == b'(' {
                p.skip_balanced();
            }
        }
        let ty = cx.ty(&mut p)?;
        let v = cx.konst(&mut p, &ty).map_err(|e| format!("{} in global {}", e, n))?;
        let mut data = vec![0u8; ty.size() as usize];
        bytes_of(&v, &ty, &mut data);
        globals.push(Global { name: n, data, constant });
    }
    // functions
    let mut funcs = vec![];
    let mut by_name = HashMap::new();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if !l.starts_with("define ") {
            i += 1;
            continue;
        }
        let name = fn_name(l).unwrap();
        let subprogram = dbg_of(l);
        let mut fc = FnCtx { regs: HashMap::new(), blocks: HashMap::new(), nb: 0 };
        // params
        let mut params = vec![];
        let mut unnamed = 0;
        {
            let mut p = P::new(l);
            p.i = l.find('@').unwrap() + 1;
            p.name()?;
            p.expect("(")?;
            let mut k = 0;
            if p.peek() != b')' {
                loop {
                    if p.eat("...") {
                        break;
                    }
                    cx.ty(&mut p)?;
                    cx.skip_attrs(&mut p);
                    let nm = if p.peek() == b'%' {
                        p.i += 1;
                        p.name()?
                    } else {
                        format!("{}", k)
                    };
                    k += 1;
                    if nm.bytes().all(|c| c.is_ascii_digit()) {
                        unnamed += 1;
                    }
                    params.push(fc.reg(&nm));
                    if !p.eat(",") {
                        break;
                    }
                }
            }
        }
        i += 1;
        let mut blocks: Vec<Block> = vec![];
        let mut cur: Option<u32> = None;
        let mut frame = 0u64;
        let mut order: Vec<(u32, Block)> = vec![];
        let mut curb = Block::default();
        let mut first_unnamed = true;
        while lines[i] != "}" {
            let l = lines[i];
            i += 1;
            if l.trim().is_empty() {
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let lab = if let Some(r) = l.strip_prefix('"') {
                    r[..r.find('"').unwrap()].to_string()
                } else {
                    l[..l.find(':').ok_or(format!("label? {}", l))?].to_string()
                };
                if let Some(c) = cur {
                    order.push((c, std::mem::take(&mut curb)));
                }
                cur = Some(fc.blk(&lab));
                first_unnamed = false;
                continue;
            }
            if first_unnamed {
                // unnamed entry block: its label is the next number
                let lab = format!("{}", unnamed);
                cur = Some(fc.blk(&lab));
                first_unnamed = false;
            }
            let t = l.trim_start();
            if t.starts_with("#dbg") {
                continue;
            }
            // The clauses of a landing pad: every pad takes every panic.
            if t == "cleanup" || t.starts_with("catch ") || t.starts_with("filter ") {
                continue;
            }
            let mut full = t.to_string();
            if t.starts_with("switch ") {
                while !lines[i - 1].trim_start().starts_with(']') {
                    full.push(' ');
                    full.push_str(lines[i].trim());
                    i += 1;
                }
            }
            let is_invoke = t.starts_with("invoke ") || t.contains(" = invoke ");
            let mut extra = String::new();
            if is_invoke {
                extra = lines[i].trim().to_string();
                i += 1;
            }
            let dbg = if is_invoke { dbg_of(&extra) } else { dbg_of(&full) };
            if t.contains(" = phi ") {
                match cx.phi(&full, &mut fc) {
                    Ok(ph) => {
                        curb.phis.push(ph);
                        continue;
                    }
                    Err(e) => {
                        curb.insts.push(Inst::Unsupported(format!("{}: {}", e, full)));
                        curb.dbg.push(dbg);
                        continue;
                    }
                }
            }
            let mut ins = cx.inst(&full, &mut fc, &mut frame).unwrap_or_else(|e| Inst::Unsupported(format!("{}: {}", e, full)));
            let mut to = 0;
            if is_invoke {
                let mut p = P::new(&extra);
                p.expect("to")?;
                to = cx.label(&mut p, &mut fc)?;
                p.expect("unwind")?;
                let pad = cx.label(&mut p, &mut fc)?;
                if let Inst::Call { unwind, .. } = &mut ins {
                    *unwind = Some(pad);
                }
            }
            curb.insts.push(ins);
            curb.dbg.push(dbg);
            if is_invoke {
                curb.insts.push(Inst::Br { to });
                curb.dbg.push(dbg);
            }
        }
        i += 1;
        if let Some(c) = cur {
            order.push((c, curb));
        }
        // Remap so that block numbers are dense and the entry block is first.
        let mut map: HashMap<u32, u32> = HashMap::new();
        for (k, (c, _)) in order.iter().enumerate() {
            map.insert(*c, k as u32);
        }
        for (_, mut b) in order {
            let m = |x: &mut u32| *x = *map.get(x).unwrap_or(&u32::MAX);
            for (_, v) in b.phis.iter_mut() {
                for (p, _) in v.iter_mut() {
                    m(p);
                }
            }
            for ins in b.insts.iter_mut() {
                match ins {
                    Inst::Br { to } => m(to),
                    Inst::Call { unwind: Some(u), .. } => m(u),
                    Inst::CondBr { t, f, .. } => {
                        m(t);
                        m(f);
                    }
                    Inst::Switch { default, cases, .. } => {
                        m(default);
                        for (_, c) in cases.iter_mut() {
                            m(c);
                        }
                    }
                    _ => {}
                }
            }
            blocks.push(b);
        }
        by_name.insert(name.clone(), funcs.len() as u32);
        funcs.push(Func { name, params, nregs: fc.regs.len() as u32, frame_size: frame, blocks, subprogram });
    }
    let scopes = scopes_file.into_iter().filter_map(|(s, f)| files.get(&f).map(|n| (s, n.clone()))).collect();
    Ok(Module { funcs, globals, grefs: cx.grefs, by_name, unknown: cx.unknown, dilocs, scopes })
}
