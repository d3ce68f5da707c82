//! Hash-consed bit-vector terms (width 1..=64).

use std::collections::HashMap;

pub type T = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Var,
    Const,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    ZExt,
    SExt,
    /// extract low bits starting at `c`, width `w`
    Extract,
    /// concat(a = high, b = low)
    Concat,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: T,
    pub b: T,
    pub c: T,
    pub k: u64,
}

pub struct Terms {
    pub nodes: Vec<Node>,
    map: HashMap<Node, T>,
    pub nvars: u32,
}

pub fn msk(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
pub fn sx(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

/// Concrete semantics of the binary operators (SMT-LIB semantics for division by zero).
pub fn cbin(op: Op, a: u64, b: u64, w: u32) -> u64 {
    let m = msk(w);
    let r = match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u64
            }
        }
        Op::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u64
            }
        }
        Op::Shl => {
            if b >= w as u64 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u64 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = b.min(w as u64 - 1);
            (sx(a, w) >> s) as u64
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Eq => (a == b) as u64,
        Op::Ult => (a < b) as u64,
        Op::Ule => (a <= b) as u64,
        Op::Slt => (sx(a, w) < sx(b, w)) as u64,
        Op::Sle => (sx(a, w) <= sx(b, w)) as u64,
        _ => unreachable!(),
    };
    match op {
        Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => r,
        _ => r & m,
    }
}

fn is_cmp(op: Op) -> bool {
    matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle)
}

impl Terms {
    pub fn new() -> Self {
        Terms { nodes: vec![], map: HashMap::new(), nvars: 0 }
    }
    fn mk(&mut self, n: Node) -> T {
        if let Some(t) = self.map.get(&n) {
            return *t;
        }
        let t = self.nodes.len() as T;
        self.nodes.push(n);
        self.map.insert(n, t);
        t
    }
    pub fn w(&self, t: T) -> u32 {
        self.nodes[t as usize].w as u32
    }
    pub fn var(&mut self, idx: u32, w: u32) -> T {
        self.nvars = self.nvars.max(idx + 1);
        self.mk(Node { op: Op::Var, w: w as u8, a: 0, b: 0, c: 0, k: ((idx as u64) << 8) | w as u64 })
    }
    pub fn konst(&mut self, v: u64, w: u32) -> T {
        self.mk(Node { op: Op::Const, w: w as u8, a: 0, b: 0, c: 0, k: v & msk(w) })
    }
    pub fn as_const(&self, t: T) -> Option<u64> {
        let n = &self.nodes[t as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn bin(&mut self, op: Op, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        let rw = if is_cmp(op) { 1 } else { w };
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = cbin(op, x, y, w);
            return self.konst(v, rw);
        }
        // simplifications
        match (op, ca, cb) {
            (Op::Add, Some(0), _) | (Op::Or, Some(0), _) | (Op::Xor, Some(0), _) => return b,
            (Op::Add, _, Some(0)) | (Op::Sub, _, Some(0)) | (Op::Or, _, Some(0)) | (Op::Xor, _, Some(0)) | (Op::Shl, _, Some(0)) | (Op::LShr, _, Some(0)) => return a,
            (Op::And, Some(0), _) | (Op::And, _, Some(0)) | (Op::Mul, Some(0), _) | (Op::Mul, _, Some(0)) => return self.konst(0, w),
            (Op::And, Some(x), _) if x == msk(w) => return b,
            (Op::And, _, Some(x)) if x == msk(w) => return a,
            (Op::Or, Some(x), _) if x == msk(w) => return a,
            (Op::Or, _, Some(x)) if x == msk(w) => return b,
            (Op::Mul, Some(1), _) => return b,
            (Op::Mul, _, Some(1)) => return a,
            (Op::Ult, _, Some(0)) => return self.konst(0, 1),
            (Op::Ule, Some(0), _) => return self.konst(1, 1),
            _ => {}
        }
        if a == b {
            match op {
                Op::Eq | Op::Ule | Op::Sle => return self.konst(1, 1),
                Op::Ult | Op::Slt => return self.konst(0, 1),
                Op::Xor | Op::Sub => return self.konst(0, w),
                Op::And | Op::Or => return a,
                _ => {}
            }
        }
        // not(not x)
        if op == Op::Xor {
            if let Some(k) = cb {
                let n = self.nodes[a as usize];
                if n.op == Op::Xor {
                    if let Some(k2) = self.as_const(n.b) {
                        let kk = self.konst(k ^ k2, w);
                        return self.bin(Op::Xor, n.a, kk);
                    }
                }
            } else if ca.is_some() {
                return self.bin(op, b, a);
            }
        }
        if op == Op::Eq {
            if ca.is_some() {
                return self.bin(op, b, a);
            }
            if let Some(k) = cb {
                if w == 1 {
                    return if k == 1 { a } else { self.not(a) };
                }
                let n = self.nodes[a as usize];
                match n.op {
                    Op::Ite => {
                        let (x, y) = (self.as_const(n.b), self.as_const(n.c));
                        if x.is_some() || y.is_some() {
                            let kt = self.konst(k, w);
                            let e1 = self.bin(Op::Eq, n.b, kt);
                            let e2 = self.bin(Op::Eq, n.c, kt);
                            return self.ite(n.a, e1, e2);
                        }
                    }
                    Op::ZExt => {
                        let iw = self.w(n.a);
                        if k > msk(iw) {
                            return self.konst(0, 1);
                        }
                        let kt = self.konst(k, iw);
                        return self.bin(Op::Eq, n.a, kt);
                    }
                    _ => {}
                }
            }
            if a > b && cb.is_none() {
                return self.bin(op, b, a);
            }
        }
        self.mk(Node { op, w: rw as u8, a, b, c: 0, k: 0 })
    }
    pub fn not(&mut self, a: T) -> T {
        let o = self.konst(1, 1);
        self.bin(Op::Xor, a, o)
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if let Some(k) = self.as_const(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        if self.w(a) == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, a);
                }
                _ => {}
            }
        }
        let w = self.w(a);
        self.mk(Node { op: Op::Ite, w: w as u8, a: c, b: a, c: b, k: 0 })
    }
    pub fn zext(&mut self, a: T, w: u32) -> T {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(k) = self.as_const(a) {
            return self.konst(k, w);
        }
        let n = self.nodes[a as usize];
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        self.mk(Node { op: Op::ZExt, w: w as u8, a, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, a: T, w: u32) -> T {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(k) = self.as_const(a) {
            return self.konst(sx(k, aw) as u64, w);
        }
        self.mk(Node { op: Op::SExt, w: w as u8, a, b: 0, c: 0, k: 0 })
    }
    pub fn extract(&mut self, a: T, lo: u32, w: u32) -> T {
        let aw = self.w(a);
        if lo == 0 && aw == w {
            return a;
        }
        if let Some(k) = self.as_const(a) {
            return self.konst(k >> lo, w);
        }
        let n = self.nodes[a as usize];
        match n.op {
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo >= iw {
                    return self.konst(0, w);
                }
                if lo == 0 {
                    return self.zext(n.a, w);
                }
            }
            Op::Extract => return self.extract(n.a, n.k as u32 + lo, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
            }
            Op::Ite if self.as_const(n.b).is_some() && self.as_const(n.c).is_some() => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        self.mk(Node { op: Op::Extract, w: w as u8, a, b: 0, c: 0, k: lo as u64 })
    }
    pub fn concat(&mut self, hi: T, lo: T) -> T {
        let w = self.w(hi) + self.w(lo);
        if let (Some(h), Some(l)) = (self.as_const(hi), self.as_const(lo)) {
            let lw = self.w(lo);
            return self.konst((h << lw) | l, w);
        }
        if self.as_const(hi) == Some(0) {
            return self.zext(lo, w);
        }
        let (nh, nl) = (self.nodes[hi as usize], self.nodes[lo as usize]);
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + self.w(lo) as u64 {
            return self.extract(nh.a, nl.k as u32, w);
        }
        self.mk(Node { op: Op::Concat, w: w as u8, a: hi, b: lo, c: 0, k: 0 })
    }
    /// Evaluates `t` under `model` (indexed by variable index; missing = 0).
    pub fn eval(&self, t: T, model: &[u64]) -> u64 {
        let n = &self.nodes[t as usize];
        let w = n.w as u32;
        match n.op {
            Op::Const => n.k,
            Op::Var => model.get((n.k >> 8) as usize).copied().unwrap_or(0) & msk(w),
            Op::Ite => {
                if self.eval(n.a, model) == 1 {
                    self.eval(n.b, model)
                } else {
                    self.eval(n.c, model)
                }
            }
            Op::ZExt => self.eval(n.a, model),
            Op::SExt => sx(self.eval(n.a, model), self.w(n.a)) as u64 & msk(w),
            Op::Extract => (self.eval(n.a, model) >> n.k) & msk(w),
            Op::Concat => (self.eval(n.a, model) << self.w(n.b)) | self.eval(n.b, model),
            op => cbin(op, self.eval(n.a, model), self.eval(n.b, model), self.w(n.a)),
        }
    }
}
