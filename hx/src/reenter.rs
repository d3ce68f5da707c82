//! User code that edits trees while the crate calls it.

use crate::edit::*;
use crate::fault::*;
use crate::life::*;
use crate::model::*;
use crate::sym::*;
use core::fmt::Write;
use dendron::traverse::DftEvent;
use dendron::Node;

/// The forest, for the user code that is called.
static mut WORLD: Option<W> = None;
/// What it does, and what came of it.
static mut INNER: Option<Op> = None;
static mut DID: Option<Want> = None;
/// Whether it drops all its handles then.
static mut FORGET: bool = false;

#[allow(static_mut_refs)]
fn world() -> &'static mut W {
    match unsafe { &mut *core::ptr::addr_of_mut!(WORLD) } {
        Some(w) => w,
        None => unreachable!(),
    }
}

#[inline(never)]
fn act() {
    unsafe {
        THEN = None;
        if let Some(op) = INNER {
            DID = Some(step(world(), op, 0));
            if FORGET {
                world().release(0);
            }
        }
    }
}

fn prime(kind: usize, n: usize, op: Op) {
    unsafe {
        INNER = Some(op);
        DID = None;
        THEN = Some(act);
    }
    arm(kind, n);
}

/// What was done, if the user code was called often enough.
fn outcome(kind: usize) -> Option<Want> {
    arm(kind, 0);
    unsafe {
        THEN = None;
        INNER = None;
        DID
    }
}

/// A printed text.
#[derive(Clone, Copy, PartialEq)]
struct Text(u64);
impl Write for Text {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for b in s.bytes() {
            self.0 = (self.0 ^ b as u64).wrapping_mul(0x100_0000_01b3).rotate_left(5);
        }
        Ok(())
    }
}
fn print(x: &Node<Tok>, how: usize) -> Text {
    let mut t = Text(1);
    let r = match how {
        6 => write!(t, "{}", x.debug_pretty_print()),
        7 => write!(t, "{:?}", x.debug_print_subtree()),
        8 => write!(t, "{:?}", x.tree().debug_print()),
        _ => write!(t, "{:?}", x),
    };
    check!(r.is_ok(), "printing");
    t
}

/// Whether the subtrees of `a` are the same.
fn same(m: &Model, o: &Model, a: usize) -> bool {
    let mut i = a;
    let mut j = a;
    while i != NONE && i == j {
        if m.nk(i) != o.nk(i) {
            return false;
        }
        i = m.pre_next(a, i);
        j = o.pre_next(a, j);
    }
    i == j
}

/// Adds a copy of the subtree that `a` had in `o`, as a tree of its own; returns its root.
fn clone_of(m: &mut Model, o: &Model, a: usize) -> usize {
    let base = m.n;
    let mut map = [0u8; N];
    let mut i = a;
    while i != NONE {
        map[i] = m.add_node(o.data[i]) as u8;
        i = o.pre_next(a, i);
    }
    let mut i = a;
    while i != NONE {
        let mut j = 0;
        while j < o.nk(i) {
            m.link(map[i] as usize, j, map[o.kid(i, j)] as usize);
            j += 1;
        }
        i = o.pre_next(a, i);
    }
    base
}

/// A tree nothing is known about is consistent at least.
fn well_formed(top: &Node<Tok>) {
    let t = top.tree();
    let mut open = 0;
    for e in top.depth_first_traverse() {
        match e {
            DftEvent::Open(n) => {
                open += 1;
                check!(n.belongs_to(&t), "the tree of a node");
                let mut k = 0;
                let mut prev: Option<Node<Tok>> = None;
                for c in n.children() {
                    check!(matches!(c.parent(), Some(p) if p.ptr_eq(&n)), "the parent of a child");
                    check!(c.prev_sibling().is_some() == prev.is_some(), "the previous sibling of a child");
                    if let (Some(p), Some(q)) = (c.prev_sibling(), &prev) {
                        check!(p.ptr_eq(q), "the previous sibling of a child");
                    }
                    k += 1;
                    prev = Some(c);
                }
                check!(n.num_children() == k, "the number of children");
                check!(n.last_child().is_some() == prev.is_some(), "the last child");
                if let (Some(p), Some(q)) = (n.last_child(), &prev) {
                    check!(p.ptr_eq(q), "the last child");
                }
            }
            DftEvent::Close(_) => open -= 1,
        }
    }
    check!(open == 0, "a node is not closed");
}

fn end() {
    let w = world();
    if unsafe { FORGET } {
        check_alive_trees(w);
    } else {
        w.reacquire();
        w.check_all();
    }
    check_alive(w);
    unsafe { WORLD = None };
    check!(live() == 0, "memory is leaked");
}

/// C32: clones, comparisons and printers that edit trees.
pub fn reads(k1: usize, k2: usize) {
    let mut f = forest(k1, k2);
    let n = f.m.n;
    let a = if f.large { [0, 1, n / 2][choose(3)] } else { pick(n) };
    let how = choose(10);
    let kind = match how {
        0..=4 => CLONE,
        5 => EQ,
        _ => PRINT,
    };
    let mut b = NONE;
    if how == 5 {
        b = clone_model(&mut f.m, a);
        f.h[b] = Some(f.n(a).clone_subtree());
        f.reacquire();
    }
    let top = if how == 2 { f.m.root(a) } else { a };
    let nth = 1 + nth(f.large, f.m.size(top));
    let op = edit_of::<Tok>(&f.m, !0, f.large);
    let dest_of = if how == 1 {
        if f.large {
            (n / 2, 1)
        } else {
            (pick(n), choose(4))
        }
    } else {
        (a, 0)
    };
    let x = f.n(top).clone();
    let y = f.n(if b != NONE { b } else { dest_of.0 }).clone();
    let to = f.hot(dest_of.0);
    let old = f.m;
    let forget = flip();
    unsafe {
        WORLD = Some(f);
        FORGET = forget;
    }
    let plain = if kind == PRINT { print(&x, how) } else { Text(0) };
    let mut text = plain;
    prime(kind, nth, op);
    let none = |_| BORROW;
    let got: Result<Option<Node<Tok>>, u32> = match how {
        0 => x.try_clone_subtree().map(Some).map_err(none),
        1 => x.try_clone_insert_subtree(dest(&to, dest_of.1)).map(|x| Some(x.plain())).map_err(crate::edit::kind),
        2 => x.tree().try_clone_tree().map(|t| Some(t.root())).map_err(none),
        3 => {
            let mut bad = false;
            let r: Result<Node<Tok>, _> = x
                .to_events()
                .filter_map(|e| {
                    bad |= e.is_err();
                    e.ok()
                })
                .collect();
            check!(!bad, "a borrow error without a borrow");
            r.map(Some).map_err(|_| 0)
        }
        4 => x.depth_first_traverse().collect::<Result<Node<Tok>, _>>().map(Some).map_err(|_| 0),
        5 => match x.try_eq(&y) {
            Ok(true) => Ok(None),
            Ok(false) => Err(0),
            Err(_) => Err(BORROW),
        },
        _ => {
            text = print(&x, how);
            Ok(None)
        }
    };
    let did = outcome(kind);
    drop(to);
    let w = world();
    if did == Some(Want::Done) {
        cover!("edited");
    }
    check!(!matches!(got, Err(BORROW)), "a borrow error without a borrow");
    let kept = same(&w.m, &old, top) && (b == NONE || same(&w.m, &old, b));
    if kept {
        cover!("kept");
    } else {
        cover!("changed");
    }
    match how {
        0 | 2 => match got {
            // The structure is the one of the time of the call.
            Ok(Some(c)) => {
                let i = clone_of(&mut w.m, &old, top);
                w.h[i] = Some(c);
            }
            _ => check!(false, "a subtree cannot be cloned"),
        },
        3 | 4 => match got {
            Ok(Some(c)) if kept => {
                let i = clone_model(&mut w.m, top);
                w.h[i] = Some(c);
            }
            Ok(Some(c)) => well_formed(&c),
            _ => check!(!kept, "a subtree cannot be cloned"),
        },
        1 => {
            let (p, at) = w.m.place(dest_of.0, dest_of.1);
            match got {
                Ok(Some(c)) => {
                    check!(p != NONE, "an invalid edit was accepted");
                    let i = clone_of(&mut w.m, &old, top);
                    if p != NONE {
                        w.m.link(p, at, i);
                    }
                    w.h[i] = Some(c);
                }
                Ok(None) => {}
                Err(e) => check!(p == NONE && e == NOPARENT, "a valid edit was rejected"),
            }
        }
        5 => check!(!kept || got == Ok(None), "a subtree is different from its clone"),
        // The node's own neighbours are printed too.
        9 => {}
        8 => check!(text == plain || !same(&w.m, &old, old.root(a)), "a text is disturbed"),
        _ => check!(text == plain || !kept, "a text is disturbed"),
    }
    // The handles this operation had.
    w.h[top] = Some(x);
    w.h[if b != NONE { b } else { dest_of.0 }] = Some(y);
    end();
}

/// C32: destructors that edit trees, while an edit or the end of a tree runs them.
pub fn drops(k1: usize, k2: usize) {
    let mut f = forest(k1, k2);
    let n = f.m.n;
    let op = match choose(4) {
        0 => Op::Detach(pick(n)),
        1 => Op::Move(pick(n), pick(n), if f.large { 1 } else { choose(4) }),
        2 => Op::Replace(pick(n)),
        // A handle of the first tree is dropped.
        _ => Op::CloneSub(n - 1),
    };
    let end_of_tree = matches!(op, Op::CloneSub(_));
    let old = f.m;
    if !end_of_tree {
        if spec(&mut f, op) != Want::Done {
            return;
        }
    }
    // What is in the trees of the operands stays.
    let mut stay = 0;
    let ops = operands(op);
    let mut i = 0;
    while i < n {
        let mut j = 0;
        while j < n {
            if ops & bit(j) != 0 && f.m.root(i) == f.m.root(j) {
                stay |= bit(i);
            }
            j += 1;
        }
        i += 1;
    }
    // The other nodes of the trees that are still held when the edit begins die.
    let held = if end_of_tree { bit(0) } else { ops };
    let mut dies = 0;
    let mut i = 0;
    while i < n {
        let mut j = 0;
        while j < n && !(held & bit(j) != 0 && old.root(i) == old.root(j)) {
            j += 1;
        }
        dies += (stay & bit(i) == 0 && j < n) as usize;
        i += 1;
    }
    if dies == 0 {
        return;
    }
    let nth = 1 + nth(f.large, dies);
    let edit = edit_of::<Tok>(&f.m, stay, f.large);
    let mut view = W::new();
    view.m = old;
    let mut i = 0;
    while i < n {
        if ops & bit(i) != 0 {
            view.h[i] = Some(f.n(i).clone());
        }
        i += 1;
    }
    if end_of_tree {
        view.h[0] = Some(f.n(0).clone());
    }
    f.release(stay);
    unsafe {
        WORLD = Some(f);
        FORGET = false;
    }
    let api = choose(2);
    prime(DROP, nth, edit);
    if end_of_tree {
        view.h[0] = None;
    } else {
        check!(real(&view, op, api).is_ok(), "a valid edit was rejected");
    }
    let did = outcome(DROP);
    check!(did.is_some(), "a tree without handles is still alive");
    if did == Some(Want::Done) {
        cover!("edited");
    }
    drop(view);
    let w = world();
    check_alive_trees(w);
    check_alive(w);
    unsafe { WORLD = None };
    check!(live() == 0, "memory is leaked");
}
