//! The symbolic executor: path-forking symbolic execution of LLVM IR.

use crate::par;
use crate::ir::*;
use crate::solver::*;
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone)]
pub struct Alloc {
    data: Vec<u8>,
    /// Symbolic cells, sorted by offset, non-overlapping: (offset, bytes, term).
    sym: Vec<(u32, u32, T)>,
    constant: bool,
}

#[derive(Clone)]
struct Frame {
    f: u32,
    blk: u32,
    ip: u32,
    regs: Vec<Val>,
    /// Register of the caller that receives the result.
    ret: Option<u32>,
    stack_base: u64,
    /// Called by `sym_try`: a panic ends here.
    catch: bool,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    heap: Vec<Option<Rc<Alloc>>>,
    stack: Vec<Rc<Alloc>>,
    globals: Rc<Vec<Rc<Alloc>>>,
    pc: Vec<T>,
    /// A model of `pc`.
    model: Vec<u64>,
    /// Inputs drawn so far: (term, range bound or 0).
    inputs: Vec<T>,
    fixed: u128,
    /// Panics caught so far.
    panics: u32,
    /// The number of frames when the measurement began, and the largest since then.
    stack_at: usize,
    stack_max: usize,
    work_at: u64,
    live: i64,
    log: Vec<Val>,
    steps: u64,
    covers: BTreeSet<Rc<str>>,
    forks: u32,
    fhash: u64,
    /// A digest of the assertions passed, compared with the native replay.
    ahash: u64,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<u64>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub paths_with_panics: u64,
    pub assumed_out: u64,
    pub insts: u64,
    pub max_path_insts: u64,
    pub forks: u64,
    pub asserts: u64,
    pub asserts_symbolic: u64,
    pub covers: BTreeMap<String, u64>,
    pub funcs: BTreeSet<u32>,
    pub violations: Vec<Violation>,
    pub samples: Vec<(Vec<u64>, Vec<u64>)>,
    pub lines: BTreeSet<(String, u32)>,
    pub max_inputs: usize,
}

pub struct Opts {
    pub shard: u64,
    pub nshards: u64,
    pub jobs: usize,
    pub params: Vec<u64>,
    pub split: u32,
    pub max_steps: u64,
    pub max_violations: usize,
    pub nsamples: usize,
    pub seed: u64,
    pub deadline: Option<std::time::Instant>,
    /// Assertions whose message contains one of these are skipped.
    pub mute: Vec<String>,
    /// If not empty: assertions whose message contains none of these are assumed, not asserted.
    pub only: Vec<String>,
}

pub struct Exec<'m> {
    pub m: &'m Module,
    pub ts: Terms,
    support: Vec<u128>,
    pub solver: Solver,
    pub stats: Stats,
    work: Vec<State>,
    pub opts: Opts,
    init_globals: Rc<Vec<Rc<Alloc>>>,
    /// For each function, block, instruction: executed? (line coverage)
    hit: Vec<Vec<bool>>,
    rng: u64,
    /// The states distributed over the workers, and the queue of their indices.
    shared: Vec<Option<State>>,
    queue: Option<i32>,
    /// In a worker: the pipe of idle workers (both ends), and the one that reports to the parent.
    idle: Option<(i32, i32, i32)>,
    /// Whether this is a worker.
    pub child: bool,
    cov_names: HashMap<(u64, u64), Rc<str>>,
}

const MAX_DEPTH: usize = 4000;
const DEPTH: &str = "call depth";

enum Flow {
    Next,
    /// Re-execute or continue elsewhere; the state has been fully updated.
    Stay,
    /// Path finished.
    End,
}

type R<X> = Result<X, String>;

fn mix(h: u64, v: u64) -> u64 {
    let mut x = h ^ v.wrapping_add(0x9E37_79B9_7F4A_7C15).wrapping_add(h << 6).wrapping_add(h >> 2);
    x ^= x >> 30;
    x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x ^= x >> 27;
    x = x.wrapping_mul(0x94D0_49BB_1331_11EB);
    x ^ (x >> 31)
}

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, solver: Solver, opts: Opts) -> Self {
        let globals = m
            .globals
            .iter()
            .map(|g| Rc::new(Alloc { data: g.data.clone(), sym: vec![], constant: g.constant }))
            .collect();
        let hit = m.funcs.iter().map(|f| vec![false; f.blocks.len()]).collect();
        let rng = mix(opts.seed, opts.shard ^ 0x5555);
        Exec {
            m,
            ts: Terms::new(),
            support: vec![],
            solver,
            stats: Stats::default(),
            work: vec![],
            opts,
            init_globals: Rc::new(globals),
            hit,
            rng,
            shared: vec![],
            queue: None,
            idle: None,
            child: false,
            cov_names: HashMap::new(),
        }
    }

    fn supp(&mut self, t: T) -> u128 {
        while self.support.len() < self.ts.nodes.len() {
            let n = self.ts.nodes[self.support.len()];
            let s = match n.op {
                Op::Var => 1u128.checked_shl((n.k >> 8) as u32).unwrap_or(1 << 127),
                Op::Const => 0,
                Op::Ite => self.support[n.a as usize] | self.support[n.b as usize] | self.support[n.c as usize],
                Op::ZExt | Op::SExt | Op::Extract => self.support[n.a as usize],
                _ => self.support[n.a as usize] | self.support[n.b as usize],
            };
            self.support.push(s);
        }
        self.support[t as usize]
    }

    /// If `t` depends on fixed inputs only, its value.
    fn known(&mut self, st: &State, t: T) -> Option<u64> {
        if let Some(k) = self.ts.as_const(t) {
            return Some(k);
        }
        let s = self.supp(t);
        if s & !st.fixed == 0 && s >> 127 == 0 {
            Some(self.ts.eval(t, &st.model))
        } else {
            None
        }
    }

    pub fn run(&mut self, entry: u32) -> R<()> {
        let f = &self.m.funcs[entry as usize];
        let mut st = State {
            frames: vec![],
            heap: vec![],
            stack: vec![],
            globals: self.init_globals.clone(),
            pc: vec![],
            model: vec![],
            inputs: vec![],
            fixed: 0,
            panics: 0,
            stack_at: 0,
            stack_max: 0,
            work_at: 0,
            live: 0,
            log: vec![],
            steps: 0,
            covers: BTreeSet::new(),
            forks: 0,
            fhash: 0x1234_5678,
            ahash: 0,
        };
        if !f.params.is_empty() {
            return Err("entry function takes parameters".into());
        }
        self.push_frame(&mut st, entry, vec![], None)?;
        self.work.push(st);
        if self.opts.jobs > 1 {
            self.parallel()?;
        }
        let mut next = 0;
        loop {
            let st = match self.work.pop() {
                Some(st) => st,
                None => match self.claim(&mut next) {
                    Some(st) => st,
                    None => break,
                },
            };
            self.run_path(st)?;
            self.share()?;
            if self.stats.violations.len() >= self.opts.max_violations {
                // The other workers need not go on either.
                while self.claim(&mut next).is_some() {}
                break;
            }
            if let Some(d) = self.opts.deadline {
                if std::time::Instant::now() > d {
                    return Err("deadline exceeded before all paths were explored".into());
                }
            }
        }
        // line coverage
        for (fi, f) in self.m.funcs.iter().enumerate() {
            for (bi, b) in f.blocks.iter().enumerate() {
                if !self.hit[fi][bi] {
                    continue;
                }
                for d in &b.dbg {
                    if let Some((line, sc)) = self.m.dilocs.get(d) {
                        if let Some(file) = self.m.scopes.get(sc) {
                            if *line > 0 {
                                self.stats.lines.insert((file.clone(), *line));
                            }
                        }
                    }
                }
            }
        }
        Ok(())
    }

    /// Takes one of the states that were distributed over the workers.
    fn claim(&mut self, _next: &mut usize) -> Option<State> {
        let fd = self.queue?;
        let mut b = [0u8; 2];
        if par::read_exact(fd, &mut b) {
            return self.shared[u16::from_le_bytes(b) as usize].take();
        }
        None
    }

    /// Explores breadth-first until there is work for all, then goes on in `jobs` processes that
    /// claim the pending states from a common queue. In the parent, no work is left afterwards.
    fn parallel(&mut self) -> R<()> {
        let jobs = self.opts.jobs;
        let mut q: std::collections::VecDeque<State> = std::mem::take(&mut self.work).into();
        let t = std::time::Instant::now();
        while q.len() < 4000 && (q.len() < 8 * jobs || t.elapsed().as_secs_f64() < 0.7) {
            let Some(st) = q.pop_front() else { break };
            self.run_path(st)?;
            if self.stats.violations.len() >= self.opts.max_violations {
                return Ok(());
            }
            q.extend(self.work.drain(..));
        }
        if q.is_empty() {
            return Ok(());
        }
        let n = q.len();
        self.shared = q.into_iter().map(Some).collect();
        let fd = par::queue(n)?;
        let (idle_r, idle_w) = par::pipe_pair(true)?;
        let (done_r, done_w) = par::pipe_pair(false)?;
        for _ in 0..jobs {
            if !par::put(done_w, b'F') {
                return Err("pipe".into());
            }
            if par::fork()? == 0 {
                par::close(done_r);
                self.queue = Some(fd);
                self.idle = Some((idle_r, idle_w, done_w));
                return self.become_worker();
            }
        }
        for fd in [fd, idle_r, idle_w, done_w] {
            par::close(fd);
        }
        self.shared.clear();
        // Until the last worker has exited.
        let (mut started, mut done) = (0, 0);
        while let Some(b) = par::get(done_r) {
            if b == b'F' {
                started += 1;
            } else {
                done += 1;
            }
        }
        if started != done {
            return Err("a worker died".into());
        }
        Ok(())
    }

    fn become_worker(&mut self) -> R<()> {
        self.child = true;
        self.stats = Stats::default();
        self.rng = mix(self.opts.seed, std::process::id() as u64);
        for f in &mut self.hit {
            f.iter_mut().for_each(|b| *b = false);
        }
        let fresh = self.solver.fresh()?;
        std::mem::forget(std::mem::replace(&mut self.solver, fresh));
        Ok(())
    }

    /// Gives half of the pending states to a new worker, if some worker has run out of work.
    fn share(&mut self) -> R<()> {
        let Some((idle_r, _, done_w)) = self.idle else { return Ok(()) };
        if self.work.len() < 2 || par::get(idle_r).is_none() {
            return Ok(());
        }
        if !par::put(done_w, b'F') {
            return Err("pipe".into());
        }
        let child = par::fork()? == 0;
        let mut k = 0;
        self.work.retain(|_| {
            k += 1;
            (k % 2 == 0) == child
        });
        if child {
            self.queue = None;
            self.shared.clear();
            self.become_worker()?;
        }
        Ok(())
    }

    /// A worker is done: its results are written.
    pub fn worker_done(&mut self) {
        if let Some((_, idle_w, done_w)) = self.idle {
            par::put(idle_w, b'I');
            par::put(done_w, b'D');
        }
    }

    fn push_frame(&mut self, st: &mut State, f: u32, args: Vec<Val>, ret: Option<u32>) -> R<()> {
        let fun = &self.m.funcs[f as usize];
        if st.frames.len() > MAX_DEPTH {
            return Err(DEPTH.into());
        }
        let mut regs = vec![Val::U; fun.nregs as usize];
        for (p, a) in fun.params.iter().zip(args) {
            regs[*p as usize] = a;
        }
        let mut stack_base = 0;
        if fun.frame_size > 0 {
            stack_base = SBASE + ((st.stack.len() as u64) << SHIFT);
            st.stack.push(Rc::new(Alloc { data: vec![0xA5; fun.frame_size as usize], sym: vec![], constant: false }));
        }
        self.stats.funcs.insert(f);
        self.hit[f as usize][0] = true;
        st.frames.push(Frame { f, blk: 0, ip: 0, regs, ret, stack_base, catch: false });
        st.stack_max = st.stack_max.max(st.frames.len());
        Ok(())
    }

    fn opd(&self, fr: &Frame, o: &Opd) -> Val {
        match o {
            Opd::R(r) => fr.regs[*r as usize].clone(),
            Opd::K(v) => v.clone(),
        }
    }

    fn term(&mut self, v: &Val, w: u32) -> R<T> {
        match v {
            Val::C(k) => Ok(self.ts.konst(*k, w)),
            Val::S(t) => Ok(*t),
            Val::U => Ok(self.ts.konst(0, w)),
            v => Err(format!("term of {:?}", v)),
        }
    }
    fn val(&self, t: T) -> Val {
        match self.ts.as_const(t) {
            Some(k) => Val::C(k),
            None => Val::S(t),
        }
    }

    // ---- memory -------------------------------------------------------------------------

    fn alloc_ref<'s>(&self, st: &'s State, addr: u64, n: u64) -> R<(&'s Alloc, usize)> {
        let off = (addr & ((1 << SHIFT) - 1)) as usize;
        let a: &'s Alloc = if addr >= SBASE && addr < SBASE + (1 << 44) {
            let i = ((addr - SBASE) >> SHIFT) as usize;
            st.stack.get(i).ok_or_else(|| format!("stack access out of range {:#x}", addr))?
        } else if addr >= HBASE && addr < SBASE {
            let i = ((addr - HBASE) >> SHIFT) as usize;
            st.heap
                .get(i)
                .and_then(|a| a.as_ref())
                .ok_or_else(|| format!("use of freed or unallocated heap memory {:#x}", addr))?
        } else if addr >= GBASE && addr < HBASE {
            let i = ((addr - GBASE) >> SHIFT) as usize;
            match &self.m.grefs[i] {
                GRef::Data(d) => &st.globals[*d as usize],
                o => return Err(format!("data access to {:?}", o)),
            }
        } else {
            return Err(format!("invalid address {:#x}", addr));
        };
        if off + n as usize > a.data.len() {
            return Err(format!("out-of-bounds access at {:#x}+{} (size {})", addr, n, a.data.len()));
        }
        Ok((a, off))
    }

    fn alloc_mut<'s>(&self, st: &'s mut State, addr: u64, n: u64) -> R<(&'s mut Alloc, usize)> {
        let off = (addr & ((1 << SHIFT) - 1)) as usize;
        let rc: &'s mut Rc<Alloc> = if addr >= SBASE && addr < SBASE + (1 << 44) {
            let i = ((addr - SBASE) >> SHIFT) as usize;
            st.stack.get_mut(i).ok_or_else(|| format!("stack access out of range {:#x}", addr))?
        } else if addr >= HBASE && addr < SBASE {
            let i = ((addr - HBASE) >> SHIFT) as usize;
            st.heap
                .get_mut(i)
                .and_then(|a| a.as_mut())
                .ok_or_else(|| format!("use of freed or unallocated heap memory {:#x}", addr))?
        } else if addr >= GBASE && addr < HBASE {
            let i = ((addr - GBASE) >> SHIFT) as usize;
            match &self.m.grefs[i] {
                GRef::Data(d) => &mut Rc::make_mut(&mut st.globals)[*d as usize],
                o => return Err(format!("data access to {:?}", o)),
            }
        } else {
            return Err(format!("invalid address {:#x}", addr));
        };
        if off + n as usize > rc.data.len() {
            return Err(format!("out-of-bounds access at {:#x}+{} (size {})", addr, n, rc.data.len()));
        }
        if rc.constant {
            return Err(format!("write to constant memory {:#x}", addr));
        }
        Ok((Rc::make_mut(rc), off))
    }

    /// Reads `n` (1..=8) bytes.
    fn read(&mut self, st: &State, addr: u64, n: u64) -> R<Val> {
        if n == 0 {
            return Ok(Val::U);
        }
        let (a, off) = self.alloc_ref(st, addr, n)?;
        if a.sym.is_empty() || !a.sym.iter().any(|(o, s, _)| (*o as usize) < off + n as usize && off < (*o + *s) as usize) {
            let mut b = [0u8; 8];
            b[..n as usize].copy_from_slice(&a.data[off..off + n as usize]);
            return Ok(Val::C(u64::from_le_bytes(b)));
        }
        if let Some((_, _, t)) = a.sym.iter().find(|(o, s, _)| *o as usize == off && *s as u64 == n) {
            return Ok(Val::S(*t));
        }
        // compose bytewise
        let cells = a.sym.clone();
        let bytes: Vec<u8> = a.data[off..off + n as usize].to_vec();
        let mut acc: Option<T> = None;
        for i in 0..n as usize {
            let p = off + i;
            let bt = match cells.iter().find(|(o, s, _)| (*o as usize) <= p && p < (*o + *s) as usize) {
                Some((o, _, t)) => self.ts.extract(*t, ((p - *o as usize) * 8) as u32, 8),
                None => self.ts.konst(bytes[i] as u64, 8),
            };
            acc = Some(match acc {
                None => bt,
                Some(lo) => self.ts.concat(bt, lo),
            });
        }
        Ok(self.val(acc.unwrap()))
    }

    fn clear_sym(ts: &mut Terms, a: &mut Alloc, off: usize, n: usize) {
        if a.sym.is_empty() {
            return;
        }
        let mut add = vec![];
        a.sym.retain(|(o, s, t)| {
            let (o, s) = (*o as usize, *s as usize);
            if o + s <= off || off + n <= o {
                return true;
            }
            for p in o..o + s {
                if p < off || p >= off + n {
                    add.push((p as u32, 1, ts.extract(*t, ((p - o) * 8) as u32, 8)));
                }
            }
            false
        });
        for (p, s, t) in add {
            if let Some(k) = ts.as_const(t) {
                a.data[p as usize] = k as u8;
            } else {
                a.sym.push((p, s, t));
            }
        }
    }

    fn write(&mut self, st: &mut State, addr: u64, n: u64, v: &Val) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let mut ts = std::mem::replace(&mut self.ts, Terms::new());
        let r = (|| {
            let (a, off) = self.alloc_mut(st, addr, n)?;
            Self::clear_sym(&mut ts, a, off, n as usize);
            match v {
                Val::C(k) => a.data[off..off + n as usize].copy_from_slice(&k.to_le_bytes()[..n as usize]),
                Val::U => {}
                Val::S(t) => {
                    let w = ts.w(*t);
                    let t = if (w as u64) < n * 8 { ts.zext(*t, n as u32 * 8) } else { *t };
                    a.sym.push((off as u32, n as u32, t));
                }
                v => return Err(format!("write of {:?}", v)),
            }
            Ok(())
        })();
        self.ts = ts;
        r
    }

    fn load(&mut self, st: &State, addr: u64, ty: &Ty) -> R<Val> {
        match ty {
            Ty::I(w) if *w > 64 => {
                let lo = self.read(st, addr, 8)?;
                let hi = self.read(st, addr + 8, 8)?;
                match (lo, hi) {
                    (Val::C(l), Val::C(h)) => Ok(Val::W(Box::new(((h as u128) << 64) | l as u128))),
                    _ => Err("symbolic wide load".into()),
                }
            }
            Ty::I(w) => {
                let v = self.read(st, addr, ty.store_size())?;
                Ok(match v {
                    Val::C(k) => Val::C(k & msk(*w)),
                    Val::S(t) => {
                        let t = self.ts.extract(t, 0, *w);
                        self.val(t)
                    }
                    v => v,
                })
            }
            Ty::Ptr | Ty::Float(_) => self.read(st, addr, ty.size()),
            Ty::Struct(ts, _) => {
                let mut v = vec![];
                for (i, t) in ts.iter().enumerate() {
                    v.push(self.load(st, addr + ty.field_off(i), t)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load(st, addr + i * t.size(), t)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            t => Err(format!("load of {:?}", t)),
        }
    }

    fn store(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &Val) -> R<()> {
        match (ty, v) {
            (Ty::I(w), Val::W(x)) if *w > 64 => {
                self.write(st, addr, 8, &Val::C(**x as u64))?;
                self.write(st, addr + 8, 8, &Val::C((**x >> 64) as u64))
            }
            (Ty::Struct(ts, _), Val::A(vs)) => {
                for (i, t) in ts.iter().enumerate() {
                    self.store(st, addr + ty.field_off(i), t, &vs[i])?;
                }
                Ok(())
            }
            (Ty::Arr(_, t), Val::A(vs)) | (Ty::Vec(_, t), Val::A(vs)) => {
                for (i, v) in vs.iter().enumerate() {
                    self.store(st, addr + i as u64 * t.size(), t, v)?;
                }
                Ok(())
            }
            (Ty::Struct(..), Val::U) | (Ty::Arr(..), Val::U) | (Ty::Vec(..), Val::U) => Ok(()),
            (ty, Val::U) if ty.size() > 8 => Ok(()),
            (ty, v) => self.write(st, addr, ty.store_size(), v),
        }
    }

    fn memcpy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (a, off) = self.alloc_ref(st, src, n)?;
        let data = a.data[off..off + n as usize].to_vec();
        let cells: Vec<(u32, u32, T)> = a
            .sym
            .iter()
            .filter(|(o, s, _)| (*o as usize) < off + n as usize && off < (*o + *s) as usize)
            .cloned()
            .collect();
        let mut out = vec![];
        for (o, s, t) in cells {
            let (o, s) = (o as usize, s as usize);
            if o >= off && o + s <= off + n as usize {
                out.push(((o - off) as u32, s as u32, t));
            } else {
                for p in o.max(off)..(o + s).min(off + n as usize) {
                    let t = self.ts.extract(t, ((p - o) * 8) as u32, 8);
                    out.push(((p - off) as u32, 1, t));
                }
            }
        }
        let mut ts = std::mem::replace(&mut self.ts, Terms::new());
        let r = (|| {
            let (a, off) = self.alloc_mut(st, dst, n)?;
            Self::clear_sym(&mut ts, a, off, n as usize);
            a.data[off..off + n as usize].copy_from_slice(&data);
            for (o, s, t) in out {
                a.sym.push((o + off as u32, s, t));
            }
            Ok(())
        })();
        self.ts = ts;
        r
    }

    // ---- path management ----------------------------------------------------------------

    /// Registers a fork decision; returns false if the state belongs to another shard.
    fn decide(&mut self, st: &mut State, choice: u64) -> bool {
        if st.forks < self.opts.split {
            st.forks += 1;
            st.fhash = mix(st.fhash, choice);
            if st.forks == self.opts.split {
                return st.fhash % self.opts.nshards == self.opts.shard;
            }
        }
        true
    }

    fn inputs_of(&self, st: &State, model: &[u64]) -> Vec<u64> {
        st.inputs.iter().map(|t| self.ts.eval(*t, model)).collect()
    }

    fn violation(&mut self, st: &State, model: &[u64], kind: &str, msg: String) {
        let v = Violation { kind: kind.into(), msg, inputs: self.inputs_of(st, model) };
        self.stats.violations.push(v);
    }

    fn end(&mut self, st: &mut State) {
        if st.forks < self.opts.split && st.fhash % self.opts.nshards != self.opts.shard {
            return;
        }
        let stats = &mut self.stats;
        stats.paths += 1;
        if st.panics > 0 {
            stats.paths_with_panics += 1;
        }
        stats.max_path_insts = stats.max_path_insts.max(st.steps);
        stats.max_inputs = stats.max_inputs.max(st.inputs.len());
        for c in &st.covers {
            *stats.covers.entry(c.to_string()).or_insert(0) += 1;
        }
        // reservoir sample
        let n = self.opts.nsamples as u64;
        if n > 0 {
            self.rng = mix(self.rng, stats.paths);
            let k = if stats.paths <= n { stats.paths - 1 } else { self.rng % stats.paths };
            if k < n {
                // Another model of the path condition, where possible.
                for i in 0..st.model.len() {
                    self.rng = mix(self.rng, i as u64);
                    let old = st.model[i];
                    st.model[i] = self.rng & 0xff;
                    if !st.pc.iter().all(|c| self.ts.eval(*c, &st.model) == 1) {
                        st.model[i] = old;
                    }
                }
                let inp = st.inputs.iter().map(|t| self.ts.eval(*t, &st.model)).collect();
                let mut log: Vec<u64> = st
                    .log
                    .iter()
                    .map(|v| match v {
                        Val::C(k) => *k,
                        Val::S(t) => self.ts.eval(*t, &st.model),
                        _ => 0,
                    })
                    .collect();
                log.push(st.ahash);
                log.push(st.live as u64);
                let s = (inp, log);
                if (k as usize) < stats.samples.len() {
                    stats.samples[k as usize] = s;
                } else {
                    stats.samples.push(s);
                }
            }
        }
    }

    fn assume(&mut self, st: &mut State, v: Val) -> Result<Flow, String> {
        match v {
            Val::C(k) => {
                if k & 1 == 0 {
                    self.stats.assumed_out += 1;
                    return Ok(Flow::End);
                }
            }
            Val::S(t) => {
                if let Some(k) = self.known(st, t) {
                    if k == 0 {
                        self.stats.assumed_out += 1;
                        return Ok(Flow::End);
                    }
                } else if self.ts.eval(t, &st.model) == 1 {
                    self.add_pc(st, t);
                } else {
                    match self.query(st, t)? {
                        Res::Unsat => {
                            self.stats.assumed_out += 1;
                            return Ok(Flow::End);
                        }
                        Res::Sat(m) => {
                            st.model = m;
                            self.add_pc(st, t);
                        }
                    }
                }
            }
            _ => return Err("assume of undefined".into()),
        }
        Ok(Flow::Next)
    }

    /// Adds a constraint known to be satisfied by `st.model`.
    fn add_pc(&mut self, st: &mut State, c: T) {
        if self.ts.as_const(c).is_some() {
            return;
        }
        st.pc.push(c);
        // x == k with x a variable fixes x
        let n = self.ts.nodes[c as usize];
        if n.op == Op::Eq && self.ts.as_const(n.b).is_some() {
            let x = self.ts.nodes[n.a as usize];
            if x.op == Op::Var && (x.k >> 8) < 127 {
                st.fixed |= 1 << (x.k >> 8);
            }
        } else if n.op == Op::Var && (n.k >> 8) < 127 {
            st.fixed |= 1 << (n.k >> 8);
        } else if n.op == Op::Xor && self.ts.as_const(n.b) == Some(1) {
            let x = self.ts.nodes[n.a as usize];
            if x.op == Op::Var && (x.k >> 8) < 127 {
                st.fixed |= 1 << (x.k >> 8);
            }
        }
    }

    fn query(&mut self, st: &State, c: T) -> R<Res> {
        let vars = st.inputs.clone();
        self.solver.check(&self.ts, &st.pc, c, &vars)
    }

    /// Branches on a symbolic condition. Returns the value taken by `st`; pushes the other side
    /// via `other`.
    fn branch(&mut self, st: &mut State, c: T, other: impl Fn(&mut State, bool)) -> R<Option<bool>> {
        if let Some(k) = self.known(st, c) {
            return Ok(Some(k == 1));
        }
        let cur = self.ts.eval(c, &st.model) == 1;
        let nc = self.ts.not(c);
        let (tc, oc) = if cur { (c, nc) } else { (nc, c) };
        match self.query(st, oc)? {
            Res::Unsat => Ok(Some(cur)),
            Res::Sat(model) => {
                self.stats.forks += 1;
                let mut o = st.clone();
                o.model = model;
                self.add_pc(&mut o, oc);
                other(&mut o, !cur);
                if self.decide(&mut o, !cur as u64) {
                    self.work.push(o);
                }
                self.add_pc(st, tc);
                if self.decide(st, cur as u64) {
                    Ok(Some(cur))
                } else {
                    Ok(None)
                }
            }
        }
    }

    /// Makes register operand `o` concrete, forking over all its feasible values.
    /// Returns None when the current state was dropped.
    fn concretize(&mut self, st: &mut State, o: &Opd) -> R<Option<u64>> {
        let v = self.opd(st.frames.last().unwrap(), o);
        let t = match v {
            Val::C(k) => return Ok(Some(k)),
            Val::S(t) => t,
            Val::U => return Ok(Some(0)),
            v => return Err(format!("concretize {:?}", v)),
        };
        let Opd::R(r) = o else { return Err("symbolic constant".into()) };
        let r = *r as usize;
        if let Some(k) = self.known(st, t) {
            st.frames.last_mut().unwrap().regs[r] = Val::C(k);
            return Ok(Some(k));
        }
        let w = self.ts.w(t);
        // enumerate feasible values
        let first = self.ts.eval(t, &st.model);
        let mut vals: Vec<(u64, Vec<u64>)> = vec![(first, st.model.clone())];
        let mut excl = {
            let k = self.ts.konst(first, w);
            let e = self.ts.bin(Op::Eq, t, k);
            self.ts.not(e)
        };
        loop {
            match self.query(st, excl)? {
                Res::Unsat => break,
                Res::Sat(m) => {
                    let v = self.ts.eval(t, &m);
                    vals.push((v, m));
                    if vals.len() > 512 {
                        return Err("too many values for a symbolic address/length".into());
                    }
                    let k = self.ts.konst(v, w);
                    let e = self.ts.bin(Op::Eq, t, k);
                    let ne = self.ts.not(e);
                    excl = self.ts.bin(Op::And, excl, ne);
                }
            }
        }
        // Deterministic order, independent of solver model choice.
        vals.sort_by_key(|(v, _)| *v);
        let forked = vals.len() > 1;
        let sup = self.supp(t);
        let mut mine = None;
        for (i, (v, m)) in vals.into_iter().enumerate().rev() {
            let mut o = st.clone();
            o.model = m;
            let k = self.ts.konst(v, w);
            let e = self.ts.bin(Op::Eq, t, k);
            self.add_pc(&mut o, e);
            if sup.count_ones() == 1 && sup & o.fixed == 0 {
                // is the single input determined now?
                let idx = sup.trailing_zeros();
                if let Some(&x) = o.inputs.iter().find(|x| {
                    let n = self.ts.nodes[**x as usize];
                    n.op == Op::Var && (n.k >> 8) as u32 == idx
                }) {
                    let xv = self.ts.eval(x, &o.model);
                    let xw = self.ts.w(x);
                    let k = self.ts.konst(xv, xw);
                    let e = self.ts.bin(Op::Eq, x, k);
                    let ne = self.ts.not(e);
                    if self.query(&o, ne)? == Res::Unsat {
                        self.add_pc(&mut o, e);
                    }
                }
            }
            o.frames.last_mut().unwrap().regs[r] = Val::C(v);
            if forked {
                self.stats.forks += 1;
                if !self.decide(&mut o, v) {
                    continue;
                }
            }
            if i == 0 || mine.is_none() {
                if let Some(prev) = mine.replace((v, o)) {
                    self.work.push(prev.1);
                }
            } else {
                self.work.push(o);
            }
        }
        match mine {
            None => Ok(None),
            Some((v, o)) => {
                *st = o;
                Ok(Some(v))
            }
        }
    }

    fn cstr(&mut self, st: &State, p: u64, n: u64) -> R<String> {
        if n == 0 {
            return Ok(String::new());
        }
        let (a, off) = self.alloc_ref(st, p, n)?;
        Ok(String::from_utf8_lossy(&a.data[off..off + n as usize]).into_owned())
    }

    // ---- instruction execution ------------------------------------------------------------

    fn goto(&mut self, st: &mut State, to: u32) -> R<()> {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.blk;
        let b = &self.m.funcs[fr.f as usize].blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals: Vec<(u32, Val)> = Vec::with_capacity(b.phis.len());
            for (d, inc) in &b.phis {
                let o = &inc.iter().find(|(p, _)| *p == from).ok_or("phi without incoming edge")?.1;
                let v = match o {
                    Opd::R(r) => fr.regs[*r as usize].clone(),
                    Opd::K(v) => v.clone(),
                };
                vals.push((*d, v));
            }
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        fr.blk = to;
        fr.ip = 0;
        self.hit[fr.f as usize][to as usize] = true;
        Ok(())
    }

    fn run_path(&mut self, mut st: State) -> R<()> {
        let m = self.m;
        loop {
            let fr = st.frames.last().unwrap();
            let (fi, bi, ip) = (fr.f, fr.blk, fr.ip);
            let f = &m.funcs[fi as usize];
            let ins = &f.blocks[bi as usize].insts[ip as usize];
            st.steps += 1;
            self.stats.insts += 1;
            if st.steps > self.opts.max_steps {
                let model = st.model.clone();
                self.violation(&st, &model, "nontermination", format!("no termination within {} IR steps (in {})", self.opts.max_steps, f.name));
                return Ok(());
            }
            let r = self.step(&mut st, ins);
            if matches!(&r, Err(e) if e == DEPTH) {
                let model = st.model.clone();
                self.violation(&st, &model, "recursion", format!("calls nested more than {} deep (in {})", MAX_DEPTH, f.name));
                return Ok(());
            }
            let r = r.map_err(|e| format!("{} (in {} block {} inst {}: {:?})", e, f.name, bi, ip, ins))?;
            match r {
                Flow::Next => st.frames.last_mut().unwrap().ip += 1,
                Flow::Stay => {}
                Flow::End => return Ok(()),
            }
        }
    }

    fn set(st: &mut State, d: u32, v: Val) {
        st.frames.last_mut().unwrap().regs[d as usize] = v;
    }

    fn binop(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> R<Val> {
        let top = match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            BinOp::Mul => Op::Mul,
            BinOp::UDiv => Op::UDiv,
            BinOp::SDiv => Op::SDiv,
            BinOp::URem => Op::URem,
            BinOp::SRem => Op::SRem,
            BinOp::Shl => Op::Shl,
            BinOp::LShr => Op::LShr,
            BinOp::AShr => Op::AShr,
            BinOp::And => Op::And,
            BinOp::Or => Op::Or,
            BinOp::Xor => Op::Xor,
        };
        match (a, b) {
            (Val::C(x), Val::C(y)) => Ok(Val::C(cbin(top, *x, *y, w))),
            (Val::W(_), _) | (_, Val::W(_)) => {
                let g = |v: &Val| -> R<u128> {
                    match v {
                        Val::W(x) => Ok(**x),
                        Val::C(x) => Ok(*x as u128),
                        _ => Err("symbolic wide arithmetic".into()),
                    }
                };
                let (x, y) = (g(a)?, g(b)?);
                let r = match op {
                    BinOp::Add => x.wrapping_add(y),
                    BinOp::Sub => x.wrapping_sub(y),
                    BinOp::Mul => x.wrapping_mul(y),
                    BinOp::UDiv if y != 0 => x / y,
                    BinOp::URem if y != 0 => x % y,
                    BinOp::Shl => x.checked_shl(y as u32).unwrap_or(0),
                    BinOp::LShr => x.checked_shr(y as u32).unwrap_or(0),
                    BinOp::And => x & y,
                    BinOp::Or => x | y,
                    BinOp::Xor => x ^ y,
                    _ => return Err("wide arithmetic".into()),
                };
                let r = if w < 128 { r & ((1u128 << w) - 1) } else { r };
                Ok(Val::W(Box::new(r)))
            }
            (Val::U, Val::C(0)) | (Val::C(0), Val::U) if op == BinOp::And => Ok(Val::C(0)),
            (Val::U, Val::C(k)) | (Val::C(k), Val::U) if op == BinOp::Or && *k == msk(w) => Ok(Val::C(*k)),
            (Val::U, Val::S(_)) | (Val::S(_), Val::U) if w == 1 && matches!(op, BinOp::And | BinOp::Or) => {
                // `and`/`or` of a defined condition and a speculated one: take the undefined
                // operand as the neutral element.
                Ok(if let Val::U = a { b.clone() } else { a.clone() })
            }
            (Val::U, _) | (_, Val::U) => Ok(Val::U),
            _ => {
                let (x, y) = (self.term(a, w)?, self.term(b, w)?);
                let t = self.ts.bin(top, x, y);
                Ok(self.val(t))
            }
        }
    }

    fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::W(_), _) | (_, Val::W(_)) = (a, b) {
            let g = |v: &Val| -> R<u128> {
                match v {
                    Val::W(x) => Ok(**x),
                    Val::C(x) => Ok(*x as u128),
                    _ => Err("symbolic wide compare".into()),
                }
            };
            let (x, y) = (g(a)?, g(b)?);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                _ => return Err("signed wide compare".into()),
            };
            return Ok(Val::C(r as u64));
        }
        if let (Val::U, _) | (_, Val::U) = (a, b) {
            // Speculated by the optimiser: an error only if the result is branched on.
            return Ok(Val::U);
        }
        let (op, swap, neg) = match p {
            Pred::Eq => (Op::Eq, false, false),
            Pred::Ne => (Op::Eq, false, true),
            Pred::Ult => (Op::Ult, false, false),
            Pred::Ule => (Op::Ule, false, false),
            Pred::Ugt => (Op::Ult, true, false),
            Pred::Uge => (Op::Ule, true, false),
            Pred::Slt => (Op::Slt, false, false),
            Pred::Sle => (Op::Sle, false, false),
            Pred::Sgt => (Op::Slt, true, false),
            Pred::Sge => (Op::Sle, true, false),
        };
        let (a, b) = if swap { (b, a) } else { (a, b) };
        if let (Val::C(x), Val::C(y)) = (a, b) {
            return Ok(Val::C(cbin(op, *x, *y, w) ^ neg as u64));
        }
        let (x, y) = (self.term(a, w)?, self.term(b, w)?);
        let mut t = self.ts.bin(op, x, y);
        if neg {
            t = self.ts.not(t);
        }
        Ok(self.val(t))
    }

    fn cast(&mut self, op: CastOp, from: u32, to: u32, a: Val) -> R<Val> {
        Ok(match (op, a) {
            (_, Val::U) => Val::U,
            (CastOp::Word, v) => v,
            (CastOp::ZExt, Val::C(k)) => {
                if to > 64 {
                    Val::W(Box::new(k as u128))
                } else {
                    Val::C(k)
                }
            }
            (CastOp::SExt, Val::C(k)) => {
                if to > 64 {
                    Val::W(Box::new(sx(k, from) as i128 as u128))
                } else {
                    Val::C(sx(k, from) as u64 & msk(to))
                }
            }
            (CastOp::Trunc, Val::C(k)) => Val::C(k & msk(to)),
            (CastOp::Trunc, Val::W(k)) => {
                if to > 64 {
                    Val::W(k)
                } else {
                    Val::C(*k as u64 & msk(to))
                }
            }
            (CastOp::ZExt, Val::W(k)) => Val::W(k),
            (op, Val::S(t)) => {
                if to > 64 {
                    return Err("symbolic wide cast".into());
                }
                let r = match op {
                    CastOp::ZExt => self.ts.zext(t, to),
                    CastOp::SExt => self.ts.sext(t, to),
                    _ => self.ts.extract(t, 0, to),
                };
                self.val(r)
            }
            (_, v) => return Err(format!("cast of {:?}", v)),
        })
    }

    fn step(&mut self, st: &mut State, ins: &Inst) -> R<Flow> {
        macro_rules! fr {
            () => {
                st.frames.last().unwrap()
            };
        }
        match ins {
            Inst::Alloca { dst, off } => {
                let b = fr!().stack_base;
                Self::set(st, *dst, Val::C(b + off));
                Ok(Flow::Next)
            }
            Inst::Load { dst, ty, ptr } => {
                let Some(a) = self.concretize(st, ptr)? else { return Ok(Flow::End) };
                let v = self.load(st, a, ty)?;
                Self::set(st, *dst, v);
                Ok(Flow::Next)
            }
            Inst::Store { ty, val, ptr } => {
                let Some(a) = self.concretize(st, ptr)? else { return Ok(Flow::End) };
                let v = self.opd(fr!(), val);
                self.store(st, a, ty, &v)?;
                Ok(Flow::Next)
            }
            Inst::Gep { dst, base, off, vars } => {
                let mut v = self.opd(fr!(), base);
                if vars.is_empty() {
                    if let Val::C(k) = v {
                        Self::set(st, *dst, Val::C(k.wrapping_add(*off as u64)));
                        return Ok(Flow::Next);
                    }
                }
                v = self.binop(BinOp::Add, 64, &v, &Val::C(*off as u64))?;
                for (o, w, scale) in vars {
                    let x = self.opd(fr!(), o);
                    let x = if *w < 64 { self.cast(CastOp::SExt, *w, 64, x)? } else { x };
                    let x = self.binop(BinOp::Mul, 64, &x, &Val::C(*scale as u64))?;
                    v = self.binop(BinOp::Add, 64, &v, &x)?;
                }
                Self::set(st, *dst, v);
                Ok(Flow::Next)
            }
            Inst::Bin { dst, op, w, a, b } => {
                let (a, b) = (self.opd(fr!(), a), self.opd(fr!(), b));
                let v = self.binop(*op, *w, &a, &b)?;
                Self::set(st, *dst, v);
                Ok(Flow::Next)
            }
            Inst::Icmp { dst, p, w, a, b } => {
                let (a, b) = (self.opd(fr!(), a), self.opd(fr!(), b));
                let v = self.icmp(*p, *w, &a, &b)?;
                Self::set(st, *dst, v);
                Ok(Flow::Next)
            }
            Inst::Cast { dst, op, from, to, a } => {
                let a = self.opd(fr!(), a);
                let v = self.cast(*op, *from, *to, a)?;
                Self::set(st, *dst, v);
                Ok(Flow::Next)
            }
            Inst::Select { dst, w, c, a, b } => {
                let cv = self.opd(fr!(), c);
                let (a, b) = (self.opd(fr!(), a), self.opd(fr!(), b));
                let v = match cv {
                    Val::C(k) => {
                        if k & 1 == 1 {
                            a
                        } else {
                            b
                        }
                    }
                    Val::S(t) => {
                        if let Some(k) = self.known(st, t) {
                            if k == 1 {
                                a
                            } else {
                                b
                            }
                        } else if *w == 0 || *w > 64 || matches!(a, Val::A(_) | Val::W(_)) || matches!(b, Val::A(_) | Val::W(_)) {
                            // aggregate select: fork
                            let d = *dst;
                            let (ac, bc) = (a.clone(), b.clone());
                            let r = self.branch(st, t, |o, taken| {
                                Self::set(o, d, if taken { ac.clone() } else { bc.clone() });
                                o.frames.last_mut().unwrap().ip += 1;
                            })?;
                            match r {
                                Some(true) => a,
                                Some(false) => b,
                                None => return Ok(Flow::End),
                            }
                        } else {
                            let (x, y) = (self.term(&a, *w)?, self.term(&b, *w)?);
                            let r = self.ts.ite(t, x, y);
                            self.val(r)
                        }
                    }
                    Val::U => Val::U,
                    v => return Err(format!("select on {:?}", v)),
                };
                Self::set(st, *dst, v);
                Ok(Flow::Next)
            }
            Inst::Freeze { dst, a } => {
                let v = self.opd(fr!(), a);
                let v = if let Val::U = v { Val::C(0) } else { v };
                Self::set(st, *dst, v);
                Ok(Flow::Next)
            }
            Inst::Extract { dst, a, path } => {
                let mut v = self.opd(fr!(), a);
                for i in path {
                    v = match v {
                        Val::A(vs) => vs[*i as usize].clone(),
                        Val::U => Val::U,
                        v => return Err(format!("extractvalue of {:?}", v)),
                    };
                }
                Self::set(st, *dst, v);
                Ok(Flow::Next)
            }
            Inst::Insert { dst, a, ty, v, path } => {
                let base = self.opd(fr!(), a);
                let x = self.opd(fr!(), v);
                fn ins(base: Val, ty: &Ty, path: &[u32], x: Val) -> Val {
                    if path.is_empty() {
                        return x;
                    }
                    let n = match ty {
                        Ty::Struct(ts, _) => ts.len(),
                        Ty::Arr(n, _) => *n as usize,
                        _ => 0,
                    };
                    let mut vs = match base {
                        Val::A(vs) => (*vs).clone(),
                        _ => vec![Val::U; n],
                    };
                    let i = path[0] as usize;
                    let sub = match ty {
                        Ty::Struct(ts, _) => ts[i].clone(),
                        Ty::Arr(_, t) => (**t).clone(),
                        _ => Ty::Other,
                    };
                    vs[i] = ins(vs[i].clone(), &sub, &path[1..], x);
                    Val::A(Rc::new(vs))
                }
                let r = ins(base, ty, path, x);
                Self::set(st, *dst, r);
                Ok(Flow::Next)
            }
            Inst::Br { to } => {
                self.goto(st, *to)?;
                Ok(Flow::Stay)
            }
            Inst::CondBr { c, t, f } => {
                let cv = self.opd(fr!(), c);
                let taken = match cv {
                    Val::C(k) => k & 1 == 1,
                    Val::S(c) => {
                        let n0 = self.work.len();
                        match self.branch(st, c, |_, _| {})? {
                            None => {
                                // the other side may have been pushed: fix its control flow
                                if self.work.len() > n0 {
                                    let mut o = self.work.pop().unwrap();
                                    let v = self.ts.eval(c, &o.model) == 1;
                                    self.goto(&mut o, if v { *t } else { *f })?;
                                    self.work.push(o);
                                }
                                return Ok(Flow::End);
                            }
                            Some(v) => {
                                if self.work.len() > n0 {
                                    let mut o = self.work.pop().unwrap();
                                    self.goto(&mut o, if v { *f } else { *t })?;
                                    self.work.push(o);
                                }
                                v
                            }
                        }
                    }
                    _ => return Err("branch on undefined value".into()),
                };
                self.goto(st, if taken { *t } else { *f })?;
                Ok(Flow::Stay)
            }
            Inst::Switch { v, w: _, default, cases } => {
                let x = self.opd(fr!(), v);
                if let Val::S(t) = x {
                    if self.known(st, t).is_none() {
                        // peel cases one by one: fork on x == case
                        for (k, to) in cases {
                            let w = self.ts.w(t);
                            let kt = self.ts.konst(*k, w);
                            let c = self.ts.bin(Op::Eq, t, kt);
                            if let Some(kv) = self.known(st, c) {
                                if kv == 1 {
                                    self.goto(st, *to)?;
                                    return Ok(Flow::Stay);
                                }
                                continue;
                            }
                            // Make st take "not equal" and push "equal" if feasible.
                            let n0 = self.work.len();
                            let r = self.branch(st, c, |_, _| {})?;
                            let other_pushed = self.work.len() > n0;
                            match r {
                                Some(true) => {
                                    // st is equal; the other (if any) re-executes the switch
                                    self.goto(st, *to)?;
                                    return Ok(Flow::Stay);
                                }
                                Some(false) => {
                                    if other_pushed {
                                        let mut o = self.work.pop().unwrap();
                                        self.goto(&mut o, *to)?;
                                        self.work.push(o);
                                    }
                                }
                                None => return Ok(Flow::End),
                            }
                        }
                        self.goto(st, *default)?;
                        return Ok(Flow::Stay);
                    }
                }
                let Some(k) = self.concretize(st, v)? else { return Ok(Flow::End) };
                let to = cases.iter().find(|(c, _)| *c == k).map(|(_, b)| *b).unwrap_or(*default);
                self.goto(st, to)?;
                Ok(Flow::Stay)
            }
            Inst::Ret { v } => {
                let v = v.as_ref().map(|o| self.opd(fr!(), o));
                let done = st.frames.pop().unwrap();
                if done.stack_base != 0 {
                    st.stack.pop();
                }
                if st.frames.is_empty() {
                    self.end(st);
                    return Ok(Flow::End);
                }
                if done.catch {
                    if let Some(d) = done.ret {
                        Self::set(st, d, Val::C(0));
                    }
                } else if let (Some(d), Some(v)) = (done.ret, v) {
                    Self::set(st, d, v);
                }
                // caller's ip was already advanced at the call
                Ok(Flow::Stay)
            }
            Inst::Unreachable => Err("unreachable executed".into()),
            Inst::Unsupported(s) => Err(format!("unsupported instruction: {}", s)),
            Inst::LandingPad { dst } => {
                if let Some(d) = dst {
                    Self::set(st, *d, Val::A(Rc::new(vec![Val::C(0), Val::C(0)])));
                }
                Ok(Flow::Next)
            }
            Inst::Resume => self.unwind(st),
            Inst::Call { dst, ret, callee, args, unwind: _ } => {
                match callee {
                    Callee::Func(f) => {
                        let a: Vec<Val> = args.iter().map(|(o, _)| self.opd(fr!(), o)).collect();
                        st.frames.last_mut().unwrap().ip += 1;
                        self.push_frame(st, *f, a, *dst)?;
                        Ok(Flow::Stay)
                    }
                    Callee::Ind(o) => {
                        let Some(p) = self.concretize(st, o)? else { return Ok(Flow::End) };
                        if p < GBASE || p >= HBASE {
                            return Err(format!("call of {:#x}", p));
                        }
                        match &self.m.grefs[((p - GBASE) >> SHIFT) as usize] {
                            GRef::Func(f) => {
                                let a: Vec<Val> = args.iter().map(|(o, _)| self.opd(fr!(), o)).collect();
                                st.frames.last_mut().unwrap().ip += 1;
                                self.push_frame(st, *f, a, *dst)?;
                                Ok(Flow::Stay)
                            }
                            g => Err(format!("indirect call of {:?}", g)),
                        }
                    }
                    Callee::Builtin(b) => self.builtin(st, *b, *dst, ret, args),
                }
            }
        }
    }

    /// Leaves the current function by a panic: up to the next landing pad or `sym_try`.
    fn unwind(&mut self, st: &mut State) -> R<Flow> {
        let m = self.m;
        loop {
            let Some(fr) = st.frames.last() else { return Err("unwinding out of the entry function".into()) };
            // The instruction pointer is already past the call.
            let insts = &m.funcs[fr.f as usize].blocks[fr.blk as usize].insts;
            if let Some(Inst::Call { unwind: Some(pad), .. }) = (fr.ip as usize).checked_sub(1).map(|i| &insts[i]) {
                self.goto(st, *pad)?;
                return Ok(Flow::Stay);
            }
            let done = st.frames.pop().unwrap();
            if done.stack_base != 0 {
                st.stack.pop();
            }
            if done.catch {
                st.panics += 1;
                if let Some(d) = done.ret {
                    Self::set(st, d, Val::C(1));
                }
                return Ok(Flow::Stay);
            }
        }
    }

    fn ov(&mut self, r: Val, o: Val) -> Val {
        Val::A(Rc::new(vec![r, o]))
    }

    fn builtin(&mut self, st: &mut State, b: Builtin, dst: Option<u32>, ret: &Ty, args: &[(Opd, u32)]) -> R<Flow> {
        use Builtin::*;
        let arg = |s: &Self, st: &State, i: usize| s.opd(st.frames.last().unwrap(), &args[i].0);
        let w = args.first().map(|a| a.1).unwrap_or(0);
        macro_rules! conc {
            ($i:expr) => {
                match self.concretize(st, &args[$i].0)? {
                    Some(k) => k,
                    None => return Ok(Flow::End),
                }
            };
        }
        let out: Option<Val> = match b {
            Nop => None,
            NopTrue => Some(Val::C(1)),
            Expect => Some(arg(self, st, 0)),
            IsConstant => Some(Val::C(0)),
            Trap => return Err("trap".into()),
            Memcpy => {
                let n = conc!(2);
                let d = conc!(0);
                let s = conc!(1);
                self.memcpy(st, d, s, n)?;
                Some(Val::C(d))
            }
            Memset => {
                let n = conc!(2);
                let d = conc!(0);
                let v = arg(self, st, 1);
                let v = self.cast(CastOp::Trunc, args[1].1.max(8), 8, v)?;
                for i in 0..n {
                    self.write(st, d + i, 1, &v)?;
                }
                Some(Val::C(d))
            }
            Memcmp => {
                let n = conc!(2);
                let a = conc!(0);
                let bb = conc!(1);
                let mut acc: Option<T> = None; // built from the last byte backwards
                let mut allc = true;
                let mut bytes = vec![];
                for i in 0..n {
                    let x = self.read(st, a + i, 1)?;
                    let y = self.read(st, bb + i, 1)?;
                    if !matches!((&x, &y), (Val::C(_), Val::C(_))) {
                        allc = false;
                    }
                    bytes.push((x, y));
                }
                if allc {
                    let mut r = 0u64;
                    for (x, y) in &bytes {
                        if let (Val::C(x), Val::C(y)) = (x, y) {
                            if x != y {
                                r = if x < y { msk(32) } else { 1 };
                                break;
                            }
                        }
                    }
                    Some(Val::C(r))
                } else {
                    for (x, y) in bytes.iter().rev() {
                        let (x, y) = (self.term(x, 8)?, self.term(y, 8)?);
                        let e = self.ts.bin(Op::Eq, x, y);
                        let l = self.ts.bin(Op::Ult, x, y);
                        let m1 = self.ts.konst(msk(32), 32);
                        let p1 = self.ts.konst(1, 32);
                        let d = self.ts.ite(l, m1, p1);
                        let z = acc.unwrap_or_else(|| self.ts.konst(0, 32));
                        acc = Some(self.ts.ite(e, z, d));
                    }
                    let t = acc.unwrap_or_else(|| self.ts.konst(0, 32));
                    Some(self.val(t))
                }
            }
            AddOv(signed) | SubOv(signed) => {
                let add = matches!(b, AddOv(_));
                let (x, y) = (arg(self, st, 0), arg(self, st, 1));
                let r = self.binop(if add { BinOp::Add } else { BinOp::Sub }, w, &x, &y)?;
                let o = match (add, signed) {
                    (true, false) => self.icmp(Pred::Ult, w, &r, &x)?,
                    (false, false) => self.icmp(Pred::Ult, w, &x, &y)?,
                    (true, true) => {
                        let p = self.binop(BinOp::Xor, w, &x, &r)?;
                        let q = self.binop(BinOp::Xor, w, &y, &r)?;
                        let z = self.binop(BinOp::And, w, &p, &q)?;
                        self.icmp(Pred::Slt, w, &z, &Val::C(0))?
                    }
                    (false, true) => {
                        let p = self.binop(BinOp::Xor, w, &x, &y)?;
                        let q = self.binop(BinOp::Xor, w, &x, &r)?;
                        let z = self.binop(BinOp::And, w, &p, &q)?;
                        self.icmp(Pred::Slt, w, &z, &Val::C(0))?
                    }
                };
                Some(self.ov(r, o))
            }
            MulOv(signed) => {
                let (x, y) = (arg(self, st, 0), arg(self, st, 1));
                if !signed && !matches!((&x, &y), (Val::C(_), Val::C(_))) {
                    // Overflow: x != 0 and x * y / x != y.
                    let r = self.binop(BinOp::Mul, w, &x, &y)?;
                    let (x, y, r) = (self.term(&x, w)?, self.term(&y, w)?, self.term(&r, w)?);
                    let (z, one) = (self.ts.konst(0, w), self.ts.konst(1, w));
                    let zero = self.ts.bin(Op::Eq, x, z);
                    let d = self.ts.ite(zero, one, x);
                    let q = self.ts.bin(Op::UDiv, r, d);
                    let same = self.ts.bin(Op::Eq, q, y);
                    let fine = self.ts.bin(Op::Or, zero, same);
                    let o = self.ts.not(fine);
                    let (r, o) = (self.val(r), self.val(o));
                    let v = self.ov(r, o);
                    if let Some(d) = dst {
                        Self::set(st, d, v);
                    }
                    return Ok(Flow::Next);
                }
                if signed && !matches!((&x, &y), (Val::C(_), Val::C(_))) {
                    // Overflow: x != 0 and (x * y / x != y or x = -1 and y = MIN).
                    let (x, y) = (self.term(&x, w)?, self.term(&y, w)?);
                    let r = self.ts.bin(Op::Mul, x, y);
                    let (z, one, m1, min) = (self.ts.konst(0, w), self.ts.konst(1, w), self.ts.konst(u64::MAX, w), self.ts.konst(1 << (w - 1), w));
                    let zero = self.ts.bin(Op::Eq, x, z);
                    let d = self.ts.ite(zero, one, x);
                    let q = self.ts.bin(Op::SDiv, r, d);
                    let same = self.ts.bin(Op::Eq, q, y);
                    let fine = self.ts.bin(Op::Or, zero, same);
                    let bad = self.ts.not(fine);
                    let xm = self.ts.bin(Op::Eq, x, m1);
                    let ym = self.ts.bin(Op::Eq, y, min);
                    let edge = self.ts.bin(Op::And, xm, ym);
                    let o = self.ts.bin(Op::Or, bad, edge);
                    let (r, o) = (self.val(r), self.val(o));
                    Some(self.ov(r, o))
                } else {
                let (Val::C(x), Val::C(y)) = (x, y) else { return Err("undefined operand of mul.with.overflow".into()) };
                let (r, o) = if signed {
                    let p = sx(x, w) as i128 * sx(y, w) as i128;
                    let r = p as u64 & msk(w);
                    (r, sx(r, w) as i128 != p)
                } else {
                    let p = x as u128 * y as u128;
                    (p as u64 & msk(w), p > msk(w) as u128)
                };
                Some(self.ov(Val::C(r), Val::C(o as u64)))
                }
            }
            UMin | UMax | SMin | SMax => {
                let (x, y) = (arg(self, st, 0), arg(self, st, 1));
                let p = match b {
                    UMin => Pred::Ult,
                    UMax => Pred::Ugt,
                    SMin => Pred::Slt,
                    _ => Pred::Sgt,
                };
                let c = self.icmp(p, w, &x, &y)?;
                Some(match c {
                    Val::C(1) => x,
                    Val::C(_) => y,
                    c => {
                        let (c, x, y) = (self.term(&c, 1)?, self.term(&x, w)?, self.term(&y, w)?);
                        let t = self.ts.ite(c, x, y);
                        self.val(t)
                    }
                })
            }
            UAddSat | USubSat => {
                let (x, y) = (arg(self, st, 0), arg(self, st, 1));
                let (r, c, sat) = if b == UAddSat {
                    let r = self.binop(BinOp::Add, w, &x, &y)?;
                    let c = self.icmp(Pred::Ult, w, &r, &x)?;
                    (r, c, msk(w))
                } else {
                    let r = self.binop(BinOp::Sub, w, &x, &y)?;
                    let c = self.icmp(Pred::Ult, w, &x, &y)?;
                    (r, c, 0)
                };
                let (c, s, r) = (self.term(&c, 1)?, self.ts.konst(sat, w), self.term(&r, w)?);
                let t = self.ts.ite(c, s, r);
                Some(self.val(t))
            }
            Ctpop | Ctlz | Cttz | Bswap | Bitreverse => {
                let x = arg(self, st, 0);
                if let Val::C(x) = x {
                    let r = match b {
                        Ctpop => x.count_ones() as u64,
                        Ctlz => (x.leading_zeros() - (64 - w)) as u64,
                        Cttz => x.trailing_zeros().min(w) as u64,
                        Bswap => x.swap_bytes() >> (64 - w),
                        _ => x.reverse_bits() >> (64 - w),
                    };
                    Some(Val::C(r))
                } else {
                    let t = self.term(&x, w)?;
                    let mut acc = match b {
                        Ctlz | Cttz => self.ts.konst(w as u64, w),
                        Ctpop => self.ts.konst(0, w),
                        _ => self.ts.extract(t, 0, if b == Bswap { 8 } else { 1 }),
                    };
                    for i in 0..w {
                        match b {
                            Ctpop => {
                                let e = self.ts.extract(t, i, 1);
                                let e = self.ts.zext(e, w);
                                acc = self.ts.bin(Op::Add, acc, e);
                            }
                            // The highest bit that is set decides: it comes last.
                            Ctlz => {
                                let e = self.ts.extract(t, i, 1);
                                let k = self.ts.konst((w - 1 - i) as u64, w);
                                acc = self.ts.ite(e, k, acc);
                            }
                            Cttz => {
                                let e = self.ts.extract(t, w - 1 - i, 1);
                                let k = self.ts.konst((w - 1 - i) as u64, w);
                                acc = self.ts.ite(e, k, acc);
                            }
                            Bswap => {
                                if i > 0 && i % 8 == 0 {
                                    let e = self.ts.extract(t, i, 8);
                                    acc = self.ts.concat(acc, e);
                                }
                            }
                            _ => {
                                if i > 0 {
                                    let e = self.ts.extract(t, i, 1);
                                    acc = self.ts.concat(acc, e);
                                }
                            }
                        }
                    }
                    Some(self.val(acc))
                }
            }
            Fshl | Fshr => {
                let (x, y, s) = (arg(self, st, 0), arg(self, st, 1), arg(self, st, 2));
                let (x, y, s) = (self.term(&x, w)?, self.term(&y, w)?, self.term(&s, w)?);
                let k = self.ts.konst(w as u64, w);
                let s = self.ts.bin(Op::URem, s, k);
                let r = self.ts.bin(Op::Sub, k, s);
                let (l, r) = if b == Fshl { (s, r) } else { (r, s) };
                let hi = self.ts.bin(Op::Shl, x, l);
                let lo = self.ts.bin(Op::LShr, y, r);
                let t = self.ts.bin(Op::Or, hi, lo);
                Some(self.val(t))
            }
            Abs => {
                let x = arg(self, st, 0);
                let t = self.term(&x, w)?;
                let z = self.ts.konst(0, w);
                let n = self.ts.bin(Op::Sub, z, t);
                let c = self.ts.bin(Op::Slt, t, z);
                let t = self.ts.ite(c, n, t);
                Some(self.val(t))
            }
            UCmp | SCmp => {
                let (x, y) = (arg(self, st, 0), arg(self, st, 1));
                let rw = ret.width();
                let l = self.icmp(if b == UCmp { Pred::Ult } else { Pred::Slt }, w, &x, &y)?;
                let e = self.icmp(Pred::Eq, w, &x, &y)?;
                let (l, e) = (self.term(&l, 1)?, self.term(&e, 1)?);
                let m1 = self.ts.konst(msk(rw), rw);
                let z = self.ts.konst(0, rw);
                let p1 = self.ts.konst(1, rw);
                let r = self.ts.ite(e, z, p1);
                let r = self.ts.ite(l, m1, r);
                Some(self.val(r))
            }
            SAddSat | SSubSat => {
                let (x, y) = (arg(self, st, 0), arg(self, st, 1));
                let (x, y) = (self.term(&x, w)?, self.term(&y, w)?);
                let r = self.ts.bin(if b == SAddSat { Op::Add } else { Op::Sub }, x, y);
                let p = self.ts.bin(Op::Xor, x, if b == SAddSat { r } else { y });
                let q = self.ts.bin(Op::Xor, if b == SAddSat { y } else { x }, r);
                let o = self.ts.bin(Op::And, p, q);
                let z = self.ts.konst(0, w);
                let o = self.ts.bin(Op::Slt, o, z);
                let neg = self.ts.bin(Op::Slt, x, z);
                let (min, max) = (self.ts.konst(1 << (w - 1), w), self.ts.konst(msk(w) >> 1, w));
                let sat = self.ts.ite(neg, min, max);
                let t = self.ts.ite(o, sat, r);
                Some(self.val(t))
            }
            LoadRelative => {
                let p = conc!(0);
                let o = conc!(1);
                let v = self.read(st, p.wrapping_add(o), 4)?;
                let Val::C(v) = v else { return Err("symbolic load.relative".into()) };
                Some(Val::C(p.wrapping_add(sx(v, 32) as u64)))
            }
            SymAlloc => {
                let n = conc!(0);
                if n >= 1 << SHIFT {
                    return Err(format!("allocation of {} bytes", n));
                }
                let a = HBASE + ((st.heap.len() as u64) << SHIFT);
                st.heap.push(Some(Rc::new(Alloc { data: vec![0xA5; n as usize], sym: vec![], constant: false })));
                st.live += 1;
                Some(Val::C(a))
            }
            SymFree => {
                let p = conc!(0);
                if p < HBASE || p >= SBASE || p & ((1 << SHIFT) - 1) != 0 {
                    return Err(format!("free of {:#x}", p));
                }
                let i = ((p - HBASE) >> SHIFT) as usize;
                let n = conc!(1);
                match st.heap.get_mut(i).and_then(|h| h.take()) {
                    None => return Err("double free".into()),
                    Some(a) if a.data.len() as u64 != n => return Err("free with another size".into()),
                    Some(_) => {}
                }
                st.live -= 1;
                None
            }
            SymPanic => {
                let (p, n, line, can_unwind) = (conc!(0), conc!(1), conc!(2), conc!(3));
                if can_unwind & 1 == 1 && st.frames.iter().any(|f| f.catch) {
                    st.frames.last_mut().unwrap().ip += 1;
                    return self.unwind(st);
                }
                let file = self.cstr(st, p, n)?;
                let model = st.model.clone();
                let what = if can_unwind & 1 == 1 { "panic" } else { "abort" };
                self.violation(st, &model, what, format!("{} at {}:{}", what, file, line));
                return Ok(Flow::End);
            }
            SymVar(vw) => {
                let idx = st.inputs.len() as u32;
                let t = self.ts.var(idx, vw);
                st.inputs.push(t);
                st.model.resize(idx as usize, 0);
                st.model.push(0);
                Some(Val::S(t))
            }
            SymRange => {
                let n = conc!(0);
                if n == 0 || n > 255 {
                    return Err("sym_range bound".into());
                }
                let idx = st.inputs.len() as u32;
                let t = self.ts.var(idx, 8);
                st.inputs.push(t);
                st.model.resize(idx as usize, 0);
                st.model.push(0);
                let k = self.ts.konst(n, 8);
                let c = self.ts.bin(Op::Ult, t, k);
                self.add_pc(st, c);
                if n == 1 {
                    let z = self.ts.konst(0, 8);
                    let c = self.ts.bin(Op::Eq, t, z);
                    self.add_pc(st, c);
                }
                let z = self.ts.zext(t, 64);
                Some(self.val(z))
            }
            SymConcretize => {
                let k = conc!(0);
                Some(Val::C(k))
            }
            SymAssume => {
                let v = arg(self, st, 0);
                return self.assume(st, v);
            }
            SymAssert => {
                self.stats.asserts += 1;
                let v = arg(self, st, 0);
                let (p, n) = (conc!(1), conc!(2));
                st.ahash = st.ahash.wrapping_mul(31).wrapping_add(n);
                let mut assume = false;
                if !self.opts.mute.is_empty() || !self.opts.only.is_empty() {
                    let msg = self.cstr(st, p, n)?;
                    if self.opts.mute.iter().any(|s| msg.contains(s.as_str())) {
                        return Ok(Flow::Next);
                    }
                    assume = !self.opts.only.is_empty() && !self.opts.only.iter().any(|s| msg.contains(s.as_str()));
                }
                if assume {
                    return self.assume(st, v);
                }
                match v {
                    Val::C(k) => {
                        if k & 1 == 0 {
                            let msg = self.cstr(st, p, n)?;
                            let model = st.model.clone();
                            self.violation(st, &model, "assert", msg);
                            return Ok(Flow::End);
                        }
                    }
                    Val::S(t) => {
                        self.stats.asserts_symbolic += 1;
                        let nt = self.ts.not(t);
                        if let Res::Sat(m) = self.query(st, nt)? {
                            let msg = self.cstr(st, p, n)?;
                            self.violation(st, &m, "assert", msg);
                            return Ok(Flow::End);
                        }
                    }
                    _ => return Err("assert of undefined".into()),
                }
                None
            }
            SymCover => {
                let (p, n) = (conc!(0), conc!(1));
                let c = match self.cov_names.get(&(p, n)) {
                    Some(c) => c.clone(),
                    None => {
                        let s: Rc<str> = self.cstr(st, p, n)?.into();
                        self.cov_names.insert((p, n), s.clone());
                        s
                    }
                };
                st.covers.insert(c);
                None
            }
            SymTry => {
                let (f, data) = (conc!(0), arg(self, st, 1));
                let Some(GRef::Func(f)) = (GBASE..HBASE).contains(&f).then(|| &self.m.grefs[((f - GBASE) >> SHIFT) as usize]) else {
                    return Err("sym_try of something else than a function".into());
                };
                let f = *f;
                st.frames.last_mut().unwrap().ip += 1;
                self.push_frame(st, f, vec![data], dst)?;
                st.frames.last_mut().unwrap().catch = true;
                return Ok(Flow::Stay);
            }
            SymStackBegin => {
                st.stack_at = st.frames.len();
                st.stack_max = st.stack_at;
                None
            }
            SymStackEnd => Some(Val::C((st.stack_max - st.stack_at) as u64)),
            SymWorkBegin => {
                st.work_at = st.steps;
                None
            }
            SymWorkEnd => Some(Val::C(st.steps - st.work_at)),
            SymNative => Some(Val::C(0)),
            SymLive => Some(Val::C(st.live as u64)),
            SymParam => {
                let i = conc!(0) as usize;
                match self.opts.params.get(i) {
                    Some(v) => Some(Val::C(*v)),
                    None => Some(Val::C(0)),
                }
            }
            SymLog => {
                let v = arg(self, st, 0);
                st.log.push(v);
                None
            }
            Unknown(i) => return Err(format!("call of unmodelled external function `{}`", self.m.unknown[i as usize])),
        };
        if let (Some(d), Some(v)) = (dst, out) {
            Self::set(st, d, v);
        }
        Ok(Flow::Next)
    }
}
