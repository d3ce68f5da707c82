//! Native replay of a harness on concrete inputs, against the real build of the crate.
//!
//! Usage: replay HARNESS PARAMS V0 V1 ...   (PARAMS: numbers separated by commas, or `-`)
//! HX_MUTE, HX_ONLY: as `--mute` and `--only` of the executor.
//! Prints `log: ...`, `covers: ...` and one `outcome: ...` line. Exit status:
//! 0 = held, 10 = assertion failed, 11 = unexpected panic,
//! 13 = assumption failed, 14 = bad usage or inputs.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicI64, Ordering};

struct A;
static LIVE: AtomicI64 = AtomicI64::new(0);
static BASE: AtomicI64 = AtomicI64::new(0);
static LIVE_AT_END: AtomicI64 = AtomicI64::new(0);

unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(1, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(1, Ordering::Relaxed);
        System.dealloc(p, l)
    }
}

#[global_allocator]
static G: A = A;

thread_local! {
    static IN: RefCell<(Vec<u64>, usize)> = const { RefCell::new((Vec::new(), 0)) };
    static LOG: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
    static COV: RefCell<Vec<&'static str>> = const { RefCell::new(Vec::new()) };
    static PARAMS: RefCell<Vec<usize>> = const { RefCell::new(Vec::new()) };
    static AHASH: Cell<u64> = const { Cell::new(0) };
    static CATCH: Cell<u32> = const { Cell::new(0) };
}

fn finish(code: i32, what: &str) -> ! {
    sym_log(AHASH.with(|a| a.get()));
    sym_log(LIVE_AT_END.load(Ordering::Relaxed) as u64);
    LOG.with(|l| println!("log: {}", l.borrow().iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")));
    COV.with(|c| {
        let mut c = c.borrow().clone();
        c.sort();
        c.dedup();
        println!("covers: {}", c.join(" "));
    });
    println!("outcome: {}", what);
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(code)
}

fn next() -> u64 {
    IN.with(|i| {
        let mut i = i.borrow_mut();
        let k = i.1;
        i.1 += 1;
        match i.0.get(k) {
            Some(v) => *v,
            None => {
                drop(i);
                finish(14, "inputs exhausted")
            }
        }
    })
}

#[no_mangle]
pub extern "C" fn sym_bool() -> bool {
    next() & 1 == 1
}
#[no_mangle]
pub extern "C" fn sym_u8() -> u8 {
    next() as u8
}
#[no_mangle]
pub extern "C" fn sym_usize() -> usize {
    next() as usize
}
#[no_mangle]
pub extern "C" fn sym_range(n: usize) -> usize {
    let v = next() as usize;
    if v >= n {
        finish(14, "input out of range");
    }
    v
}
#[no_mangle]
pub extern "C" fn sym_concretize(v: usize) -> usize {
    v
}
#[no_mangle]
pub extern "C" fn sym_assume(b: bool) {
    if !b {
        finish(13, "assumption failed");
    }
}
#[no_mangle]
pub extern "C" fn sym_assert(b: bool, p: *const u8, n: usize) {
    AHASH.with(|a| a.set(a.get().wrapping_mul(31).wrapping_add(n as u64)));
    if !b {
        let s = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) };
        let listed = |v: &str| std::env::var(v).is_ok_and(|l| l.split(',').any(|m| s.contains(m)));
        if listed("HX_MUTE") {
            return;
        }
        if std::env::var("HX_ONLY").is_ok() && !listed("HX_ONLY") {
            finish(13, "assumption failed");
        }
        finish(10, &format!("assertion failed: {}", s));
    }
}
#[no_mangle]
pub extern "C" fn sym_cover(p: *const u8, n: usize) {
    let s: &'static str = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) };
    COV.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() < c.capacity() {
            c.push(s)
        }
    });
}
#[no_mangle]
pub extern "C" fn sym_log(v: u64) {
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        if l.len() < l.capacity() {
            l.push(v)
        }
    });
}
#[no_mangle]
pub extern "C" fn sym_param(i: usize) -> usize {
    PARAMS.with(|p| p.borrow().get(i).copied().unwrap_or(0))
}
#[no_mangle]
pub extern "C" fn sym_live() -> i64 {
    LIVE.load(Ordering::Relaxed) - BASE.load(Ordering::Relaxed)
}
/// How much of the stack below the current frame is looked at.
const STACK: usize = 4 << 20;

/// The lowest address of that part of the stack.
#[inline(never)]
fn stack_low() -> usize {
    let here = 0u8;
    ((&here as *const u8 as usize) & !0xfff) - 0x1000 - STACK
}
/// Fills the unused part of the stack.
#[no_mangle]
#[inline(never)]
pub extern "C" fn sym_stack_begin() {
    let low = stack_low();
    let mut p = low + STACK;
    while p > low {
        p -= 8;
        unsafe { (p as *mut u64).write_volatile(0x5a5a_a5a5_5a5a_a5a5) };
    }
}
/// How much of it was used since.
#[no_mangle]
#[inline(never)]
pub extern "C" fn sym_stack_end() -> usize {
    let low = stack_low();
    let mut p = low;
    while p < low + STACK && unsafe { (p as *const u64).read_volatile() } == 0x5a5a_a5a5_5a5a_a5a5 {
        p += 8;
    }
    low + STACK - p
}
// Called at every edge of the code under test (see tools/build.py).
std::arch::global_asm!(
    ".globl __sanitizer_cov_trace_pc",
    "__sanitizer_cov_trace_pc:",
    "inc qword ptr [rip + {edges}]",
    "ret",
    edges = sym EDGES,
);
static mut EDGES: u64 = 0;
static mut WORK: u64 = 0;
#[no_mangle]
pub extern "C" fn sym_work_begin() {
    unsafe { WORK = (&raw const EDGES).read_volatile() };
}
#[no_mangle]
pub extern "C" fn sym_work_end() -> usize {
    unsafe { ((&raw const EDGES).read_volatile() - WORK) as usize }
}
#[no_mangle]
pub extern "C" fn sym_native() -> usize {
    1
}
#[no_mangle]
pub extern "C" fn sym_try(f: extern "C-unwind" fn(*mut u8), data: *mut u8) -> i32 {
    CATCH.with(|c| c.set(c.get() + 1));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(data)));
    CATCH.with(|c| c.set(c.get() - 1));
    r.is_err() as i32
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        for (n, _) in hx::all() {
            println!("{}", n);
        }
        return;
    }
    let Some((_, f)) = hx::all().into_iter().find(|(n, _)| *n == args[1]) else {
        println!("outcome: no such harness");
        std::process::exit(14);
    };
    let vals: Vec<u64> = args[3..].iter().map(|s| s.parse().expect("number")).collect();
    let params = args[2].split(',').filter(|s| *s != "-").map(|s| s.parse().expect("number")).collect();
    PARAMS.with(|p| *p.borrow_mut() = params);
    IN.with(|i| *i.borrow_mut() = (vals, 0));
    LOG.with(|l| *l.borrow_mut() = Vec::with_capacity(100_000));
    COV.with(|l| *l.borrow_mut() = Vec::with_capacity(100_000));
    std::panic::set_hook(Box::new(|i| {
        if CATCH.with(|c| c.get()) > 0 {
            return;
        }
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        finish(11, &format!("panic at {}: {}", loc, msg));
    }));
    BASE.store(LIVE.load(Ordering::Relaxed), Ordering::Relaxed);
    f();
    LIVE_AT_END.store(sym_live(), Ordering::Relaxed);
    finish(0, "held");
}
