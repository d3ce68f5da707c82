//! Entry crate for the symbolic executor: everything the harnesses need from the environment is
//! an external `sym_*` function, which the executor models.
#![no_std]
#![feature(lang_items, panic_can_unwind)]
#![allow(internal_features)]

use core::alloc::{GlobalAlloc, Layout};

#[allow(unused_imports)]
use hx as _;

extern "C" {
    fn sym_alloc(size: usize, align: usize) -> *mut u8;
    fn sym_free(p: *mut u8, size: usize);
}

extern "C-unwind" {
    fn sym_panic(file: *const u8, len: usize, line: u32, can_unwind: bool) -> !;
}

/// Unwinding is done by the executor: it follows the landing pads itself.
#[lang = "eh_personality"]
fn eh_personality() {}

struct A;

unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        sym_alloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sym_free(p, l.size())
    }
}

#[global_allocator]
static G: A = A;

#[panic_handler]
fn on_panic(i: &core::panic::PanicInfo) -> ! {
    unsafe {
        match i.location() {
            Some(l) => sym_panic(l.file().as_ptr(), l.file().len(), l.line(), i.can_unwind()),
            None => sym_panic(core::ptr::null(), 0, 0, i.can_unwind()),
        }
    }
}
