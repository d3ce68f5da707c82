//! SMT solver back end: one incremental z3 process spoken to over SMT-LIB 2.

use crate::term::*;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

pub struct Solver {
    _child: Child,
    bin: String,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    /// Terms already defined in the solver (global declarations).
    defined: Vec<bool>,
    stack: Vec<T>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub cached: u64,
    pub time_us: u64,
    cache: HashMap<(Vec<T>, T), bool>,
    pub timeout_ms: u64,
    log: Option<std::fs::File>,
}

#[derive(Debug, PartialEq)]
pub enum Res {
    Sat(Vec<u64>),
    Unsat,
}

impl Solver {
    /// A solver of the same kind without any state.
    pub fn fresh(&self) -> Result<Self, String> {
        Solver::new(&self.bin, self.timeout_ms)
    }

    pub fn new(bin: &str, timeout_ms: u64) -> Result<Self, String> {
        let mut child = Command::new(bin)
            .args(["-in", "-smt2"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .map_err(|e| format!("cannot start {}: {}", bin, e))?;
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        let log = std::env::var("SYMEX_SMTLOG").ok().and_then(|p| std::fs::File::create(p).ok());
        let mut s = Solver {
            _child: child,
            bin: bin.to_string(),
            inp,
            out,
            defined: vec![],
            stack: vec![],
            queries: 0,
            sat: 0,
            unsat: 0,
            cached: 0,
            time_us: 0,
            cache: HashMap::new(),
            timeout_ms,
            log,
        };
        s.send(&format!(
            "(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :timeout {})\n(set-logic QF_BV)\n",
            timeout_ms
        ))?;
        Ok(s)
    }
    fn send(&mut self, s: &str) -> Result<(), String> {
        if let Some(l) = &mut self.log {
            let _ = l.write_all(s.as_bytes());
        }
        self.inp.write_all(s.as_bytes()).map_err(|e| format!("solver write: {}", e))
    }
    fn line(&mut self) -> Result<String, String> {
        self.inp.flush().map_err(|e| e.to_string())?;
        let mut l = String::new();
        let n = self.out.read_line(&mut l).map_err(|e| e.to_string())?;
        if n == 0 {
            return Err("solver died".into());
        }
        if l.contains("(error") {
            return Err(format!("solver error: {}", l));
        }
        Ok(l)
    }

    fn define(&mut self, ts: &Terms, t: T, buf: &mut String) {
        if self.defined.len() < ts.nodes.len() {
            self.defined.resize(ts.nodes.len(), false);
        }
        if self.defined[t as usize] {
            return;
        }
        let n = ts.nodes[t as usize];
        self.defined[t as usize] = true;
        use std::fmt::Write as _;
        match n.op {
            Op::Var => {
                let _ = writeln!(buf, "(declare-const v{}_{} (_ BitVec {}))", n.k >> 8, n.w, n.w);
                return;
            }
            Op::Const => return,
            Op::Ite => {
                self.define(ts, n.a, buf);
                self.define(ts, n.b, buf);
                self.define(ts, n.c, buf);
            }
            Op::ZExt | Op::SExt | Op::Extract => self.define(ts, n.a, buf),
            _ => {
                self.define(ts, n.a, buf);
                self.define(ts, n.b, buf);
            }
        }
        let r = |t: T| Self::refr(ts, t);
        let w = n.w as u32;
        let e = match n.op {
            Op::Add => format!("(bvadd {} {})", r(n.a), r(n.b)),
            Op::Sub => format!("(bvsub {} {})", r(n.a), r(n.b)),
            Op::Mul => format!("(bvmul {} {})", r(n.a), r(n.b)),
            Op::UDiv => format!("(bvudiv {} {})", r(n.a), r(n.b)),
            Op::URem => format!("(bvurem {} {})", r(n.a), r(n.b)),
            Op::SDiv => format!("(bvsdiv {} {})", r(n.a), r(n.b)),
            Op::SRem => format!("(bvsrem {} {})", r(n.a), r(n.b)),
            Op::Shl => format!("(bvshl {} {})", r(n.a), r(n.b)),
            Op::LShr => format!("(bvlshr {} {})", r(n.a), r(n.b)),
            Op::AShr => format!("(bvashr {} {})", r(n.a), r(n.b)),
            Op::And => format!("(bvand {} {})", r(n.a), r(n.b)),
            Op::Or => format!("(bvor {} {})", r(n.a), r(n.b)),
            Op::Xor => format!("(bvxor {} {})", r(n.a), r(n.b)),
            Op::Eq => format!("(ite (= {} {}) #b1 #b0)", r(n.a), r(n.b)),
            Op::Ult => format!("(ite (bvult {} {}) #b1 #b0)", r(n.a), r(n.b)),
            Op::Ule => format!("(ite (bvule {} {}) #b1 #b0)", r(n.a), r(n.b)),
            Op::Slt => format!("(ite (bvslt {} {}) #b1 #b0)", r(n.a), r(n.b)),
            Op::Sle => format!("(ite (bvsle {} {}) #b1 #b0)", r(n.a), r(n.b)),
            Op::Ite => format!("(ite (= {} #b1) {} {})", r(n.a), r(n.b), r(n.c)),
            Op::ZExt => format!("((_ zero_extend {}) {})", w - ts.w(n.a), r(n.a)),
            Op::SExt => format!("((_ sign_extend {}) {})", w - ts.w(n.a), r(n.a)),
            Op::Extract => format!("((_ extract {} {}) {})", n.k as u32 + w - 1, n.k, r(n.a)),
            Op::Concat => format!("(concat {} {})", r(n.a), r(n.b)),
            Op::Var | Op::Const => unreachable!(),
        };
        let _ = writeln!(buf, "(define-fun t{} () (_ BitVec {}) {})", t, n.w, e);
    }
    fn refr(ts: &Terms, t: T) -> String {
        let n = &ts.nodes[t as usize];
        match n.op {
            Op::Var => format!("v{}_{}", n.k >> 8, n.w),
            Op::Const => format!("(_ bv{} {})", n.k, n.w),
            _ => format!("t{}", t),
        }
    }

    /// Is `pc ∧ extra` satisfiable? On sat returns a model for `vars`.
    pub fn check(&mut self, ts: &Terms, pc: &[T], extra: T, vars: &[T]) -> Result<Res, String> {
        if let Some(k) = ts.as_const(extra) {
            if k == 0 {
                return Ok(Res::Unsat);
            }
        }
        let key = (pc.to_vec(), extra);
        if let Some(false) = self.cache.get(&key) {
            self.cached += 1;
            return Ok(Res::Unsat);
        }
        let t0 = Instant::now();
        let mut common = 0;
        while common < pc.len() && common < self.stack.len() && pc[common] == self.stack[common] {
            common += 1;
        }
        let mut buf = String::new();
        if self.stack.len() > common {
            buf.push_str(&format!("(pop {})\n", self.stack.len() - common));
            self.stack.truncate(common);
        }
        for &t in &pc[common..] {
            self.define(ts, t, &mut buf);
            buf.push_str(&format!("(push 1)\n(assert (= {} #b1))\n", Self::refr(ts, t)));
            self.stack.push(t);
        }
        self.define(ts, extra, &mut buf);
        for &v in vars {
            self.define(ts, v, &mut buf);
        }
        buf.push_str(&format!("(push 1)\n(assert (= {} #b1))\n(check-sat)\n", Self::refr(ts, extra)));
        self.send(&buf)?;
        let r = self.line()?;
        self.queries += 1;
        let res = match r.trim() {
            "unsat" => {
                self.unsat += 1;
                self.cache.insert(key, false);
                Res::Unsat
            }
            "sat" => {
                self.sat += 1;
                let mut model = vec![0u64; ts.nvars as usize];
                if !vars.is_empty() {
                    let names: Vec<String> = vars.iter().map(|v| Self::refr(ts, *v)).collect();
                    self.send(&format!("(get-value ({}))\n", names.join(" ")))?;
                    // read until balanced
                    let mut acc = String::new();
                    loop {
                        acc.push_str(&self.line()?);
                        let d: i32 = acc.chars().map(|c| if c == '(' { 1 } else if c == ')' { -1 } else { 0 }).sum();
                        if d == 0 && !acc.trim().is_empty() {
                            break;
                        }
                    }
                    for (v, part) in vars.iter().zip(acc.split('(').filter(|s| s.starts_with('v'))) {
                        let val = part.split_whitespace().nth(1).ok_or("model parse")?.trim_end_matches(')');
                        let x = if let Some(h) = val.strip_prefix("#x") {
                            u64::from_str_radix(h, 16).map_err(|e| e.to_string())?
                        } else if let Some(b) = val.strip_prefix("#b") {
                            u64::from_str_radix(b, 2).map_err(|e| e.to_string())?
                        } else {
                            return Err(format!("model value {}", val));
                        };
                        model[(ts.nodes[*v as usize].k >> 8) as usize] = x;
                    }
                }
                Res::Sat(model)
            }
            o => return Err(format!("solver answered `{}`", o)),
        };
        self.send("(pop 1)\n")?;
        self.time_us += t0.elapsed().as_micros() as u64;
        Ok(res)
    }
}
