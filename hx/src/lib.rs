//! Harnesses over the real crate: each drives its public API with symbolic inputs and compares
//! every observation with a reference model.
#![no_std]
#![allow(deprecated)]

#[macro_use]
pub mod sym;
pub mod cost;
pub mod data;
pub mod debug;
pub mod edit;
pub mod fault;
pub mod life;
pub mod live;
pub mod lock;
pub mod macros;
pub mod many;
pub mod model;
pub mod reenter;
pub mod serial;
pub mod stack;
pub mod trav;

/// Declares the harnesses: `hx_NAME` is the entry for the executor, `all()` the list for replay.
macro_rules! harnesses {
    ($($name:ident = $f:expr;)*) => {
        pub mod entry {
            $(
                #[no_mangle]
                pub extern "C" fn $name() {
                    use $crate::p;
                    let _ = p;
                    $f
                }
            )*
        }
        pub fn all() -> [(&'static str, extern "C" fn()); { [$(stringify!($name)),*].len() }] {
            [$((stringify!($name), entry::$name as extern "C" fn())),*]
        }
    };
}

use sym::param as p;

harnesses! {
    hx_create = crate::edit::create(p(0));
    hx_create_api = crate::edit::create_api(p(0));
    hx_interrupt = crate::edit::interrupt(p(0));
    hx_replace = crate::edit::replace(p(0));
    hx_detach = crate::edit::detach(p(0));
    hx_move_same = crate::edit::move_same(p(0));
    hx_move_other = crate::edit::move_other(p(0), p(1));
    hx_clone_sub = crate::edit::clone_sub(p(0));
    hx_clone_ins_same = crate::edit::clone_ins_same(p(0));
    hx_clone_ins_other = crate::edit::clone_ins_other(p(0), p(1));
    hx_history = crate::edit::history(p(0), p(1));
    hx_depth_first = crate::trav::depth_first(p(0));
    hx_close_current = crate::trav::close_current(p(0));
    hx_event_steps = crate::trav::event_steps(p(0));
    hx_axes = crate::trav::axes(p(0));
    hx_stable_siblings = crate::trav::stable_siblings(p(0));
    hx_stable_dft = crate::trav::stable_dft(p(0));
    hx_shallow = crate::trav::shallow(p(0));
    hx_breadth_first = crate::trav::breadth_first(p(0));
    hx_lifetime = crate::life::lifetime(p(0), p(1));
    hx_weak = crate::life::weak(p(0), p(1));
    hx_reentrant = crate::life::reentrant(p(0), p(1));
    hx_exclusion = crate::lock::exclusion(p(0), p(1));
    hx_follow = crate::lock::follow(p(0), p(1));
    hx_foreign = crate::lock::foreign(p(0));
    hx_to_events = crate::serial::to_events(p(0));
    hx_roundtrip = crate::serial::roundtrip(p(0));
    hx_from_dft = crate::serial::from_dft(p(0));
    hx_builder = crate::serial::builder(p(0), p(1), 0);
    hx_builder_edited = crate::serial::builder(p(0), p(1), p(2));
    hx_batch = crate::serial::batch(p(0));
    hx_borrows = crate::data::borrows(p(0));
    hx_edit_while_borrowed = crate::data::edit_while_borrowed(p(0), p(1));
    hx_clone_borrowed = crate::data::clone_borrowed(p(0), p(1));
    hx_equality = crate::data::equality(p(0), p(1));
    hx_equality_mixed = crate::data::equality_mixed(p(0), p(1));
    hx_pretty_print = crate::debug::pretty_print(p(0));
    hx_debug_print = crate::debug::debug_print(p(0));
    hx_macros = crate::macros::macros();
    hx_rejected = crate::edit::rejected(p(0), p(1));
    hx_membership = crate::edit::membership(p(0), p(1), p(2));
    hx_fault_clones = crate::fault::clones(p(0), p(1));
    hx_fault_drops = crate::fault::drops(p(0), p(1));
    hx_fault_reads = crate::fault::reads(p(0), p(1));
    hx_fault_sources = crate::fault::sources(p(0), p(1));
    hx_reenter_reads = crate::reenter::reads(p(0), p(1));
    hx_reenter_drops = crate::reenter::drops(p(0), p(1));
    hx_many_locks = crate::many::locks(p(0));
    hx_many_follow = crate::many::locks_follow(p(0));
    hx_many_handles = crate::many::handles(p(0));
    hx_many_children = crate::many::children(p(0), p(1));
    hx_many_edits = crate::many::edits(p(0), p(1));
    hx_many_items = crate::many::items(p(0), p(1));
    hx_many_levels = crate::many::levels(p(0), p(1));
    hx_live_edited = crate::live::edited(p(0), p(1));
    hx_live_locked = crate::live::locked(p(0));
    hx_stack = crate::stack::stack(p(0), p(1));
    hx_apart = crate::cost::apart(p(0), p(1), p(2));
    hx_linear = crate::cost::linear(p(0));
    hx_views = crate::trav::views(p(0));
}
