//! Traversals of trees that change while they are under way.

use crate::edit::*;
use crate::life::*;
use crate::model::*;
use crate::sym::*;
use crate::trav::hint_ok;
use dendron::traverse::*;
use dendron::{FrozenNode, Node};

/// An event of a node, by the index of the node: `2 * node + (1 if Close)`.
fn next_event(m: &Model, e: usize) -> usize {
    let i = e / 2;
    if e & 1 == 0 {
        if m.nk(i) > 0 {
            2 * m.first(i)
        } else {
            e + 1
        }
    } else if m.next(i) != NONE {
        2 * m.next(i)
    } else if m.parent(i) != NONE {
        2 * m.parent(i) + 1
    } else {
        NONE
    }
}
fn prev_event(m: &Model, e: usize) -> usize {
    let i = e / 2;
    if e & 1 == 1 {
        if m.nk(i) > 0 {
            2 * m.last(i) + 1
        } else {
            e - 1
        }
    } else if m.prev(i) != NONE {
        2 * m.prev(i) + 1
    } else if m.parent(i) != NONE {
        2 * m.parent(i)
    } else {
        NONE
    }
}

fn tag(n: &Node<Tok>) -> usize {
    match n.try_borrow_data() {
        Ok(d) => d.tag() as usize,
        Err(_) => NONE,
    }
}
fn etag(e: &DftEvent<Node<Tok>>) -> usize {
    match e {
        DftEvent::Open(n) => 2 * tag(n),
        DftEvent::Close(n) => 2 * tag(n) + 1,
    }
}

/// Steps the traverser, edits, and lets the traverser and a clone of it finish.
/// `cur`: the item that is ready; `step`: the one after an item, in the current structure.
fn go<I: Iterator + Clone>(
    mut w: W,
    mut it: I,
    mut cur: usize,
    event: bool,
    step1: impl Fn(&Model, usize) -> usize,
    code: impl Fn(&I::Item) -> usize,
    peek: impl Fn(&I) -> Option<usize>,
) {
    let want = |m: &Model, c: usize| {
        if event {
            2 * m.data[c / 2] as usize + (c & 1)
        } else {
            m.data[c] as usize
        }
    };
    // Some steps before the edit.
    let mut k = if w.large { 2 * choose(2) } else { choose(3) };
    while k > 0 && cur != NONE {
        check!(matches!(it.next(), Some(x) if code(&x) == want(&w.m, cur)), "an item before the edit");
        cur = step1(&w.m, cur);
        k -= 1;
    }
    let n = w.m.n;
    let a = pick(n);
    let op = match choose(7) {
        0 => Op::Create(a, choose(4), Tok::any_tag()),
        1 => Op::Detach(a),
        2 => Op::Move(a, pick(n), if w.large { 1 } else { choose(4) }),
        3 => Op::Replace(a),
        4 => Op::IntParent(a, Tok::any_tag()),
        5 => Op::IntChild(a, Tok::any_tag()),
        _ => Op::CloneIns(a, pick(n), 1),
    };
    let mut other = it.clone();
    if step(&mut w, op, 0) == Want::Done {
        cover!("edited");
    }
    if matches!(op, Op::CloneIns(..)) {
        // The handles of the inner nodes of the clone.
        w.reacquire();
    }
    // Only the traversers hold the trees from now on.
    w.release(0);
    let mut left = 0;
    let mut c = cur;
    while c != NONE {
        left += 1;
        c = step1(&w.m, c);
    }
    let first = w.large || flip();
    let mut round = 0;
    while round < 2 {
        let it = if first == (round == 0) { &mut it } else { &mut other };
        let mut c = cur;
        let mut l = left;
        while c != NONE {
            check!(hint_ok(it.size_hint(), l), "size_hint");
            check!(peek(it) == Some(want(&w.m, c)), "the item that is ready");
            match it.next() {
                Some(x) => check!(code(&x) == want(&w.m, c), "an item after the edit"),
                None => check!(false, "the traversal ended early"),
            }
            if l < left {
                cover!("went_on");
            }
            c = step1(&w.m, c);
            l -= 1;
        }
        check!(it.next().is_none(), "the traversal goes on after its last item");
        check!(it.next().is_none(), "the traversal is fused");
        round += 1;
    }
    drop(other);
    drop(it);
    drop(w);
    check!(live() == 0, "memory is leaked");
}

/// C29: a plain traversal under way yields the item it had ready, and goes on from there in the
/// structure it finds.
pub fn edited(k1: usize, k2: usize) {
    let w = forest(k1, k2);
    let a = pick(w.m.n);
    let x = w.n(a).clone();
    let m = w.m;
    match choose(6) {
        0 => go(w, drop_of(x, |x| x.children()), m.first(a), false, |m, i| m.next(i), tag, |t| t.peek().map(tag)),
        1 => {
            go(w, drop_of(x, |x| x.preceding_siblings_reverse()), m.prev(a), false, |m, i| m.prev(i), tag, |t| t.peek().map(tag))
        }
        2 => go(w, drop_of(x, |x| x.children_reverse()), m.last(a), false, |m, i| m.prev(i), tag, |t| t.peek().map(tag)),
        3 => go(w, drop_of(x, |x| x.ancestors_or_self()), a, false, |m, i| m.parent(i), tag, |t| t.peek().map(tag)),
        4 => {
            let end = 2 * a + 1;
            go(
                w,
                drop_of(x, |x| x.depth_first_traverse()),
                2 * a,
                true,
                |m, e| if e == end { NONE } else { next_event(m, e) },
                etag,
                |t| t.peek().map(etag),
            )
        }
        _ => {
            let end = 2 * a;
            go(
                w,
                drop_of(x, |x| x.depth_first_reverse_traverse()),
                2 * a + 1,
                true,
                |m, e| if e == end { NONE } else { prev_event(m, e) },
                etag,
                |t| t.peek().map(etag),
            )
        }
    }
}

/// Steps a stable traverser; the tree is locked while it has items, and while items are held.
fn hold<I: Iterator>(
    w: &World,
    mut it: I,
    left: usize,
    node: impl Fn(I::Item) -> FrozenNode<u8>,
    next: impl Fn(&mut I, bool) -> Option<I::Item>,
) {
    let t = w.n(0).tree();
    let mut item = None;
    // On a large tree: where to stop, and where to turn from one end to the other.
    let (stop, turn, start) = if w.large { (pick_event(left + 1), pick(left / 2 + 1), flip()) } else { (0, 0, false) };
    let mut i = 0;
    while i < left {
        check!(t.grant_hierarchy_edit().is_err(), "a tree can be edited during a stable traversal");
        check!(t.prohibit_hierarchy_edit().is_ok(), "a stable traversal locks out others");
        // Abandoned on the way.
        if if w.large { i == stop } else { flip() } {
            cover!("abandoned");
            break;
        }
        let front = if w.large { start == (i < turn) } else { flip() };
        item = next(&mut it, front).map(&node);
        check!(item.is_some(), "the traversal ended early");
        i += 1;
    }
    if i == left {
        cover!("finished");
        check!(it.next().is_none(), "the traversal goes on after its last item");
    }
    drop(it);
    check!(t.grant_hierarchy_edit().is_ok() == item.is_none(), "the last item alone locks the tree");
    drop(item);
    check!(t.grant_hierarchy_edit().is_ok(), "a traversal left a lock behind");
}

/// C29: a stable traversal keeps the tree as it is while it has items to yield.
pub fn locked(k: usize) {
    let mut w = World::new();
    w.build_upto(k);
    let a = pick(w.m.n);
    let m = w.m;
    let x = w.frozen(a);
    let after = m.nsib(a) - 1 - m.pos(a);
    let ev = |e: DftEvent<FrozenNode<u8>>| e.into_value();
    match choose(8) {
        0 => hold(&w, drop_of(x, |x| x.children_stable()), m.nk(a), |n| n, |t, f| if f { t.next() } else { t.next_back() }),
        1 => hold(&w, drop_of(x, |x| x.siblings_stable()), m.nsib(a), |n| n, |t, f| if f { t.next() } else { t.next_back() }),
        2 => {
            hold(&w, drop_of(x, |x| x.following_siblings_stable()), after, |n| n, |t, f| if f { t.next() } else { t.next_back() })
        }
        3 => hold(
            &w,
            drop_of(x, |x| x.preceding_siblings_stable()),
            m.pos(a),
            |n| n,
            |t, f| if f { t.next() } else { t.next_back() },
        ),
        4 => {
            hold(
                &w,
                drop_of(x, |x| x.depth_first_traverse_stable()),
                2 * m.size(a),
                ev,
                |t, f| {
                    if f {
                        t.next()
                    } else {
                        t.next_back()
                    }
                },
            )
        }
        5 => hold(
            &w,
            drop_of(x, |x| x.shallow_depth_first_traverse_stable(Some(99))),
            2 * m.size(a),
            |e| e.into_value().0,
            |t, f| if f { t.next() } else { t.next_back() },
        ),
        6 => hold(&w, drop_of(x, |x| x.allocating_breadth_first_traverse_stable(0)), m.size(a), |n| n.0, |t, _| t.next()),
        _ => hold(&w, drop_of(x, |x| x.non_allocating_breadth_first_traverse_stable(0)), m.size(a), |n| n.0, |t, _| t.next()),
    }
    w.check_all();
}

/// Makes a traverser and drops the node it was made from.
fn drop_of<X, I>(x: X, f: impl Fn(&X) -> I) -> I {
    f(&x)
}
