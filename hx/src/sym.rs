//! The interface between a harness and its two hosts: the symbolic executor (every `sym_*`
//! function is interpreted there) and the native replayer.

extern "C" {
    fn sym_bool() -> bool;
    fn sym_u8() -> u8;
    fn sym_usize() -> usize;
    fn sym_range(n: usize) -> usize;
    fn sym_concretize(v: usize) -> usize;
    fn sym_assume(b: bool);
    fn sym_assert(b: bool, p: *const u8, n: usize);
    fn sym_cover(p: *const u8, n: usize);
    fn sym_try(f: extern "C-unwind" fn(*mut u8), data: *mut u8) -> i32;
    fn sym_live() -> i64;
    fn sym_stack_begin();
    fn sym_stack_end() -> usize;
    fn sym_work_begin();
    fn sym_work_end() -> usize;
    fn sym_native() -> usize;
    fn sym_log(v: u64);
    fn sym_param(i: usize) -> usize;
}

/// An unconstrained boolean.
#[inline(never)]
pub fn any_bool() -> bool {
    unsafe { sym_bool() }
}
/// An unconstrained byte.
pub fn any_u8() -> u8 {
    unsafe { sym_u8() }
}
/// An unconstrained machine word.
pub fn any_usize() -> usize {
    unsafe { sym_usize() }
}
/// A symbolic value `0 <= v < n`, `n <= 255`.
pub fn range(n: usize) -> usize {
    unsafe { sym_range(n) }
}
/// A value `0 <= v < n`; the path forks over its values.
pub fn choose(n: usize) -> usize {
    unsafe { sym_concretize(sym_range(n)) }
}
/// A boolean; the path forks over it.
pub fn flip() -> bool {
    unsafe { sym_concretize(sym_range(2)) == 1 }
}
/// Forks over the values of `v`.
pub fn concretize(v: usize) -> usize {
    unsafe { sym_concretize(v) }
}
pub fn assume(b: bool) {
    unsafe { sym_assume(b) }
}
pub fn assert_msg(b: bool, m: &'static str) {
    unsafe { sym_assert(b, m.as_ptr(), m.len()) }
}
pub fn cover_msg(m: &'static str) {
    unsafe { sym_cover(m.as_ptr(), m.len()) }
}
/// Runs `f`; `None` if it panicked.
pub fn catch<R, F: FnOnce() -> R>(f: F) -> Option<R> {
    struct Cell<R, F> {
        f: Option<F>,
        r: Option<R>,
    }
    extern "C-unwind" fn run<R, F: FnOnce() -> R>(p: *mut u8) {
        let c = unsafe { &mut *(p as *mut Cell<R, F>) };
        if let Some(f) = c.f.take() {
            c.r = Some(f());
        }
    }
    let mut c = Cell { f: Some(f), r: None };
    let panicked = unsafe { sym_try(run::<R, F>, &mut c as *mut Cell<R, F> as *mut u8) } != 0;
    assert_msg(panicked == c.r.is_none(), "harness: the result of a panic");
    c.r
}
/// Runs `f`, which has to panic if `must` (and then yields `None`).
pub fn panics<R>(must: bool, f: impl FnOnce() -> R) -> Option<R> {
    if must {
        let r = catch(f);
        assert_msg(r.is_none(), "a required panic did not happen");
        r
    } else {
        Some(f())
    }
}
/// The number of live heap allocations.
pub fn live() -> i64 {
    unsafe { sym_live() }
}
/// The stack `f` needs: nested calls in the executor, bytes in the replay.
pub fn stack_use(f: impl FnOnce()) -> usize {
    unsafe {
        sym_stack_begin();
        f();
        sym_stack_end()
    }
}
/// The work `f` takes: instructions in the executor, basic blocks in the replay.
pub fn work(f: impl FnOnce()) -> usize {
    unsafe {
        sym_work_begin();
        f();
        sym_work_end()
    }
}
/// Whether this is the replay.
pub fn native() -> bool {
    unsafe { sym_native() == 1 }
}
/// A bound of this run (a size or a length).
pub fn param(i: usize) -> usize {
    unsafe { sym_param(i) }
}
/// Records a value that the symbolic path and its native replay must agree on.
pub fn log(v: u64) {
    unsafe { sym_log(v) }
}

#[macro_export]
macro_rules! check {
    ($c:expr, $m:expr) => {
        $crate::sym::assert_msg($c, $m)
    };
}
#[macro_export]
macro_rules! cover {
    ($m:expr) => {
        $crate::sym::cover_msg($m)
    };
}
