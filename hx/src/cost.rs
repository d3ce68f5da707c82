//! The amount of work.

use crate::model::*;
use crate::stack::{more, MORE, READS};
use crate::sym::*;
use dendron::serial::{Event, TreeBuilder};
use dendron::{HotNode, InsertAs, Node};

fn must<T, E>(r: Result<T, E>) -> T {
    match r {
        Ok(x) => x,
        Err(_) => {
            check!(false, "harness: an operation failed");
            loop {}
        }
    }
}

/// Adds `n` descendants to a node: a chain, a node with leaves, or leaves.
fn fill(at: &HotNode<u8>, shape: usize, n: usize, front: bool) -> HotNode<u8> {
    let add = |x: &HotNode<u8>| {
        if front {
            x.create_as_first_child(0)
        } else {
            x.create_as_last_child(0)
        }
    };
    let mut x = at.clone();
    let mut i = 0;
    while i < n {
        let y = add(&x);
        if shape == 0 || (shape == 1 && i == 0) {
            x = y;
        }
        i += 1;
    }
    x
}

/// A tree of the shape of the model.
fn copy(m: &Model) -> WorldOf<u8> {
    let mut w = World::new();
    w.m = *m;
    w.h[0] = Some(HotNode::new_tree(m.data[0]).plain());
    let mut i = 1;
    while i < m.n {
        let x = w.hot(m.parent(i)).create_as_last_child(m.data[i]).plain();
        w.h[i] = Some(x);
        i += 1;
    }
    w
}

#[derive(Clone, Copy)]
struct Case {
    op: usize,
    a: usize,
    b: usize,
    q: usize,
    /// Where the additional nodes are: below a node, or (`NONE`) in another tree.
    at: usize,
    shape: usize,
    front: bool,
}

const OPS: usize = 17;

fn place<X>(q: usize, x: X) -> InsertAs<X> {
    match q {
        0 => InsertAs::FirstChildOf(x),
        1 => InsertAs::LastChildOf(x),
        2 => InsertAs::PreviousSiblingOf(x),
        _ => InsertAs::NextSiblingOf(x),
    }
}

/// The work of looking around from a node, or of single steps, through any kind of handle.
macro_rules! reads {
    ($op:expr, $x:expr, $y:expr) => {{
        let (x, y) = (&$x, &$y);
        match $op {
            0 => work(|| {
                let _ = x.num_children()
                    + x.has_children() as usize
                    + x.has_one_child() as usize
                    + x.has_multiple_children() as usize;
            }),
            1 => work(|| {
                let _ = (x.first_child(), x.last_child(), x.first_last_child());
                let _ = (x.parent(), x.next_sibling(), x.prev_sibling());
                let _ = (x.first_sibling(), x.last_sibling(), x.first_last_sibling());
                let _ = (x.is_root(), x.has_prev_sibling(), x.has_next_sibling(), x.ptr_eq(y));
            }),
            _ => {
                // Single steps.
                let mut d = x.depth_first_traverse();
                let mut r = x.depth_first_reverse_traverse();
                let mut s = x.children();
                let mut t = x.children_reverse();
                work(|| {
                    let _ = (d.next(), r.next(), s.next(), t.next());
                    let _ = (d.peek(), r.peek(), s.peek(), t.peek());
                    let _ = (d.next(), r.next());
                })
            }
        }
    }};
}

/// The work of an operation, with `n` additional nodes elsewhere; and whether it succeeded.
fn measure(m: &Model, c: Case, n: usize) -> (usize, bool) {
    let w = copy(m);
    let other = HotNode::new_tree(1);
    let ochild = other.create_as_first_child(2);
    // Nothing dies with the operation.
    let filled = if c.at == NONE { fill(&other, c.shape, n, c.front) } else { fill(&w.hot(c.at), c.shape, n, c.front) };
    let filled = {
        let x = filled.plain();
        drop(filled);
        x
    };
    let x = w.n(c.a);
    let y = w.n(c.b);
    let hx = w.hot(c.a);
    let hy = w.hot(c.b);
    let mut done = true;
    let mut keep: [Option<HotNode<u8>>; 2] = [None, None];
    let mut copied: Option<Node<u8>> = None;
    let used = match c.op {
        0 | 1 | 15 => match c.q {
            0 => reads!(c.op, x, y),
            1 => reads!(c.op, hx, hy),
            _ => {
                drop(hx);
                drop(hy);
                let fx = must(x.clone().bundle_new_hierarchy_edit_prohibition());
                let fy = must(y.clone().bundle_new_hierarchy_edit_prohibition());
                let u = match c.op {
                    15 => {
                        let mut d = fx.depth_first_traverse_stable();
                        let mut s = fx.children_stable();
                        let mut p = fx.siblings_stable();
                        let mut a = fx.ancestors();
                        work(|| {
                            let _ = (d.next(), d.next_back(), s.next(), s.next_back(), p.next(), p.next_back(), a.next());
                            let _ = (d.peek(), d.peek_back(), s.peek(), s.peek_back(), a.peek());
                            let _ = (d.next(), s.next(), p.next());
                        }) + reads!(c.op, fx, fy)
                    }
                    _ => reads!(c.op, fx, fy),
                };
                drop(fx);
                drop(fy);
                drop(filled);
                return (u, true);
            }
        },
        2 => work(|| {
            let _ = (x.root(), x.tree(), hx.belongs_to_same_tree(&other), x.belongs_to_same_tree(y));
            let _ = x.downgrade().upgrade();
            let _ = x.clone().bundle_new_hierarchy_edit_grant();
            let _ = hx.clone();
        }),
        3 => work(|| {
            let r = match c.q {
                0 => Ok(hx.create_as_first_child(9)),
                1 => Ok(hx.create_as_last_child(9)),
                2 => hx.try_create_as_prev_sibling(9),
                _ => hx.try_create_as_next_sibling(9),
            };
            done = r.is_ok();
            keep[0] = r.ok();
        }),
        4 => work(|| {
            keep[0] = Some(hx.create_as_interrupting_parent(9));
        }),
        5 => work(|| keep[0] = Some(hx.create_as_interrupting_child(9))),
        6 => work(|| done = hx.try_replace_with_children().is_ok()),
        7 => work(|| hx.detach_subtree()),
        8 => work(|| done = hx.try_detach_insert_subtree(place(c.q, &hy)).is_ok()),
        9 => work(|| done = hx.try_detach_insert_subtree(place(c.q, &ochild)).is_ok()),
        10 => work(|| {
            let r = hx.try_clone_insert_subtree(place(c.q, &hy));
            done = r.is_ok();
            keep[0] = r.ok();
        }),
        11 => work(|| {
            let r = hx.try_clone_insert_subtree(place(c.q, &ochild));
            done = r.is_ok();
            keep[0] = r.ok();
        }),
        12 => work(|| copied = hx.try_clone_subtree().ok()),
        13 => {
            let z = hx.clone_subtree();
            work(|| done = hx == z)
        }
        14 => work(|| {
            for e in x.to_events() {
                done &= e.is_ok();
            }
            done &= x.depth_first_traverse().count() == x.depth_first_reverse_traverse().count();
        }),
        _ => {
            hx.detach_subtree();
            let i = w.m.n;
            check!(i > 0, "harness: a tree");
            let k = x.clone();
            drop(hx);
            drop(hy);
            // The subtree dies, and the rest stays.
            let mut w = w;
            let mut j = 0;
            while j < i {
                if m.anc_or_self(c.a, j) {
                    w.h[j] = None;
                }
                j += 1;
            }
            let u = work(|| drop(k));
            return (u, true);
        }
    };
    drop(filled);
    drop(copied);
    drop(keep);
    (used, done)
}

/// C31: what an operation costs does not depend on nodes it does not concern.
pub fn apart(k: usize, small: usize, big: usize) {
    let m = {
        let mut w = World::new();
        w.build_upto(k);
        w.m
    };
    let op = choose(OPS);
    let a = pick(m.n);
    let b = if matches!(op, 2 | 8 | 10) { pick(m.n) } else { 0 };
    let q = match op {
        0 | 1 | 15 => choose(3),
        3 | 8 | 9 | 10 | 11 => choose(4),
        _ => 0,
    };
    let at = choose(m.n + 1);
    let at = if at == m.n { NONE } else { at };
    let shape = choose(3);
    let front = flip();
    let concerned = match op {
        // The children.
        5 | 6 => at == a && shape == 2,
        // The subtree.
        7 | 9 | 10 | 11 | 12 | 13 | 14 => at != NONE && m.anc_or_self(a, at),
        16 => at != NONE && m.anc_or_self(a, at),
        _ => false,
    };
    if concerned {
        return;
    }
    // The least that a visit of a node can cost, in the unit of the host.
    let (scale, visit) = if native() { (50, 1) } else { (1, 6) };
    let c = Case { op, a, b, q, at, shape, front };
    let (x, ok1) = measure(&m, c, small);
    let (y, ok2) = measure(&m, c, big * scale);
    check!(ok1 == ok2, "an operation depends on nodes it does not concern");
    cover!("apart");
    if ok1 {
        cover!("done");
    } else {
        cover!("failed");
    }
    check!(y <= x + visit * (big * scale - small), "the cost of an operation grows with nodes it does not concern");
}

/// A chain, a star, or a chain with a leaf at each of its nodes, of `n` nodes below the root.
fn make(shape: usize, n: usize) -> HotNode<u8> {
    let root = HotNode::new_tree(0);
    let mut last = root.create_as_first_child(0);
    let mut i = 1;
    while i < n {
        match shape {
            0 => last = last.create_as_first_child(0),
            1 => drop(root.create_as_last_child(0)),
            _ => {
                let next = last.create_as_first_child(0);
                if i & 1 == 0 {
                    last = next;
                }
            }
        }
        i += 1;
    }
    root
}

/// The work of one operation on such a tree.
fn whole(op: usize, shape: usize, n: usize) -> usize {
    let root = make(shape, n);
    let mut keep: Option<Node<u8>> = None;
    match op {
        0 => work(|| drop(root)),
        1 => {
            let x = root.plain();
            drop(root);
            work(|| drop(x))
        }
        2 => {
            let t = root.tree();
            drop(root);
            work(|| drop(t))
        }
        3 => work(|| keep = Some(root.clone_subtree())),
        4 => {
            let t = root.tree();
            work(|| keep = Some(t.clone_tree().root()))
        }
        5 => {
            let z = root.clone_subtree();
            work(|| check!(root == z, "a clone is equal"))
        }
        6 => {
            let p = root.create_as_interrupting_parent(1);
            let other = HotNode::new_tree(1);
            let u = work(|| must(root.try_detach_insert_subtree(InsertAs::FirstChildOf(&other))));
            drop(p);
            u
        }
        7 => {
            let p = root.create_as_interrupting_parent(1);
            let u = work(|| root.detach_subtree());
            drop(p);
            u
        }
        8 => {
            let other = HotNode::new_tree(1);
            work(|| keep = Some(must(root.try_clone_insert_subtree(InsertAs::FirstChildOf(&other))).plain()))
        }
        9 => work(|| keep = Some(must(root.try_clone_insert_subtree(InsertAs::FirstChildOf(&root))).plain())),
        10 => {
            let x = root.plain();
            work(|| {
                let mut ok = true;
                for e in x.to_events() {
                    ok &= e.is_ok();
                }
                check!(ok, "harness: serializing")
            })
        }
        11 => {
            let x = root.plain();
            work(|| keep = Some(must(x.to_events().map(must).collect::<Result<Node<u8>, _>>())))
        }
        12 => {
            let x = root.plain();
            work(|| {
                let mut b = TreeBuilder::new();
                check!(b.push_event(Event::Open(0)).is_ok(), "harness: the builder");
                check!(b.push_dft_events(x.depth_first_traverse()).is_ok(), "harness: the builder");
            })
        }
        13 => work(|| check!(root.depth_first_traverse().count() == 2 * n + 2, "harness: the traversal")),
        14 => work(|| check!(root.depth_first_reverse_traverse().count() == 2 * n + 2, "harness: the traversal")),
        15..=17 => {
            let x = root.plain();
            drop(root);
            let f = must(x.bundle_new_hierarchy_edit_prohibition());
            work(|| match op {
                15 => {
                    let mut t = f.depth_first_traverse_stable();
                    while t.next().is_some() {}
                }
                16 => {
                    let mut t = f.depth_first_traverse_stable();
                    while t.next_back().is_some() {}
                }
                _ => {
                    let mut t = f.allocating_breadth_first_traverse_stable(0);
                    while t.next().is_some() {}
                }
            })
        }
        18 => {
            let p = root.create_as_interrupting_parent(1);
            let u = work(|| root.replace_with_children());
            drop(p);
            u
        }
        19 => work(|| keep = Some(root.create_as_interrupting_child(1).plain())),
        20 => work(|| {
            check!(root.children().count() + root.children_reverse().count() == 2 * root.num_children(), "harness: children")
        }),
        _ => work(|| {
            let mut x = root.plain();
            while let Some(c) = x.last_child() {
                x = c;
            }
            let _ = x.ancestors_or_self().count() + x.siblings().count() + x.count_preceding_siblings();
        }),
    }
}

/// C31: an operation on a whole tree takes time in proportion to its size.
pub fn linear(k: usize) {
    let op = choose(22 + MORE);
    let shape = choose(3);
    let at = if op < 22 { 0 } else { choose(3) };
    // Printing a tree of depth `n` is quadratic in `n`, since each line is indented.
    if op >= 22 && op < 22 + 3 * READS && (op - 22) % READS == READS - 1 {
        return;
    }
    let whole = |n: usize| match op {
        0..=21 => whole(op, shape, n),
        _ => more(op - 22, at, make(shape, n), n, |f| work(|| f())),
    };
    let k = if native() { 20 * k } else { k };
    let a = whole(k);
    let b = whole(2 * k);
    let c = whole(3 * k);
    cover!("measured");
    // The last `k` nodes cost what the `k` before them did.
    check!(c <= b + b.saturating_sub(a) + 8 * k + 300, "the cost of an operation grows faster than the tree");
}
