//! The need for stack space.

use crate::sym::*;
use core::fmt::{self, Write};
use dendron::serial::{Event, TreeBuilder};
use dendron::traverse::DftEvent;
use dendron::{HotNode, InsertAs, Node, Tree};

struct Null;
impl Write for Null {
    fn write_str(&mut self, _: &str) -> fmt::Result {
        Ok(())
    }
}

/// A chain, a star, or a chain with a leaf at each of its nodes, of `n` nodes below the root.
/// Nothing else holds it, and its first child has all the others as its descendants or siblings.
fn make(shape: usize, n: usize) -> HotNode<u8> {
    let root = HotNode::new_tree(0);
    let mut last = root.create_as_first_child(0);
    let mut i = 1;
    while i < n {
        match shape {
            0 => last = last.create_as_first_child(0),
            1 => drop(root.create_as_last_child(0)),
            _ => {
                let next = last.create_as_first_child(0);
                if i & 1 == 0 {
                    last = next;
                }
            }
        }
        i += 1;
    }
    root
}

fn must<T, E>(r: Result<T, E>) -> T {
    match r {
        Ok(x) => x,
        Err(_) => {
            check!(false, "harness: an operation failed");
            loop {}
        }
    }
}

/// The stack that one operation on such a tree needs.
fn need(op: usize, shape: usize, n: usize) -> usize {
    let root = make(shape, n);
    let first = must(root.first_child().ok_or(()));
    let mut keep: Option<Node<u8>> = None;
    let used = match op {
        // The last handle of a tree, by kind of handle.
        0 => {
            drop(first);
            stack_use(|| drop(root))
        }
        1 => {
            let x = first.plain();
            drop(first);
            drop(root);
            stack_use(|| drop(x))
        }
        2 => {
            let t = root.tree();
            drop(first);
            drop(root);
            stack_use(|| drop(t))
        }
        3 => {
            let x = root.plain();
            drop(first);
            drop(root);
            let x = must(x.bundle_new_hierarchy_edit_prohibition());
            stack_use(|| drop(x))
        }
        4 => stack_use(|| keep = Some(root.clone_subtree())),
        5 => {
            let other = root.clone_subtree();
            stack_use(|| check!(root == other, "a clone is equal"))
        }
        6 => stack_use(|| first.detach_subtree()),
        7 => {
            // The rest of the tree dies during the edit.
            let last = must(root.last_child().ok_or(()));
            let g = last.plain();
            drop(last);
            drop(root);
            drop(first);
            let g = must(g.bundle_new_hierarchy_edit_grant());
            stack_use(|| g.detach_subtree())
        }
        8 => {
            let other = HotNode::new_tree(1);
            let r = stack_use(|| first.detach_insert_subtree(InsertAs::FirstChildOf(&other)));
            keep = Some(other.plain());
            r
        }
        9 => {
            let other = HotNode::new_tree(1);
            let r = stack_use(|| drop(root.clone_insert_subtree(InsertAs::LastChildOf(&other))));
            keep = Some(other.plain());
            r
        }
        10 => {
            let mut it = root.to_events();
            stack_use(|| while it.next().is_some() {})
        }
        11 => {
            let x = root.plain();
            stack_use(|| keep = Some(must(x.to_events().map(must).collect::<Result<Node<u8>, _>>())))
        }
        12 => {
            let t: Tree<u8> = root.tree();
            stack_use(|| keep = Some(t.clone_tree().root()))
        }
        13 => {
            let p = root.debug_pretty_print();
            stack_use(|| check!(write!(&mut Null, "{}", p).is_ok(), "printing failed"))
        }
        14 => {
            let mut it = root.depth_first_traverse();
            stack_use(|| {
                let _ = it.close_current();
                while it.next().is_some() {}
            })
        }
        15 => {
            let x = root.plain();
            drop(first);
            drop(root);
            let f = must(x.bundle_new_hierarchy_edit_prohibition());
            stack_use(|| {
                let mut it = f.depth_first_traverse_stable();
                while it.next().is_some() && it.next_back().is_some() {}
                let mut it = f.shallow_depth_first_traverse_stable(Some(1));
                while it.next().is_some() && it.next_back().is_some() {}
                let mut it = f.allocating_breadth_first_traverse_stable(0);
                while it.next().is_some() {}
            })
        }
        16 => {
            let x = root.plain();
            drop(first);
            drop(root);
            let f = must(x.bundle_new_hierarchy_edit_prohibition());
            stack_use(|| {
                let mut it = f.non_allocating_breadth_first_traverse_stable(0);
                while it.next().is_some() {}
            })
        }
        17 => stack_use(|| drop(first.create_as_interrupting_child(1))),
        18 => stack_use(|| drop(root.create_as_interrupting_parent(1))),
        19 => stack_use(|| first.replace_with_children()),
        20 => {
            let mut x = first;
            while let Some(c) = x.last_child() {
                x = c;
            }
            stack_use(|| {
                check!(x.root().ptr_eq(&root), "root");
                let _ = x.ancestors().count() + x.siblings().count() + x.count_preceding_siblings();
            })
        }
        21 => {
            // A builder that is given up.
            let mut b = TreeBuilder::new();
            check!(b.push_event(Event::Open(0)).is_ok(), "harness: the builder");
            check!(b.push_dft_events(root.depth_first_traverse()).is_ok(), "harness: the builder");
            stack_use(|| drop(b))
        }
        _ => {
            let x = root.plain();
            drop(first);
            drop(root);
            let it = x.depth_first_traverse();
            drop(x);
            // A traverser that holds the tree.
            stack_use(|| drop(it))
        }
    };
    drop(keep);
    used
}

/// Reads through any kind of handle.
macro_rules! reads {
    ($op:expr, $measure:expr, $x:expr, $root:expr) => {{
        let (x, root) = (&$x, &$root);
        $measure(&mut || match $op {
            0 => check!(x.root().ptr_eq(root) && x.is_root() == x.ptr_eq(root), "root"),
            1 => check!(x.count_ancestors() == x.ancestors().count(), "count_ancestors"),
            2 => check!(x.ancestors_or_self().last().is_some(), "ancestors"),
            3 => check!(x.count_children() == x.num_children(), "count_children"),
            4 => check!(x.children().count() == x.children_reverse().count(), "children"),
            5 => {
                let k = x.siblings().count();
                check!(k == x.siblings_reverse().count(), "siblings");
                check!(k == x.count_preceding_siblings() + x.count_following_siblings() + 1, "the number of siblings");
            }
            6 => {
                check!(x.preceding_siblings_reverse().count() + 1 == x.preceding_siblings_or_self_reverse().count(), "siblings");
                check!(x.following_siblings().count() + 1 == x.following_siblings_or_self().count(), "siblings");
            }
            7 => {
                let _ = (x.first_sibling(), x.last_sibling(), x.first_last_sibling());
                let _ = (x.next_sibling(), x.prev_sibling(), x.parent());
                let _ = (x.first_child(), x.last_child(), x.first_last_child());
                let _ =
                    (x.has_next_sibling(), x.has_prev_sibling(), x.has_children(), x.has_one_child(), x.has_multiple_children());
            }
            8 => {
                let a = x.depth_first_traverse().count();
                check!(a == x.depth_first_reverse_traverse().count(), "the number of events");
            }
            9 => {
                let t = x.tree();
                check!(x.belongs_to(&t) && x.belongs_to_same_tree(root) && t.root().ptr_eq(&root.plain()), "the tree");
                let w = x.plain().downgrade();
                let v = t.downgrade();
                check!(w.upgrade().is_some() && v.upgrade().is_some(), "upgrade");
                let _ = (w, v, x.clone());
            }
            10 => check!(x == x, "equality"),
            11 => {
                let p = x.debug_print_local();
                check!(write!(&mut Null, "{:?}", p).is_ok() && write!(&mut Null, "{:?}", x).is_ok(), "printing");
            }
            12 => {
                let p = x.to_events();
                check!(p.count() > 0, "events");
            }
            _ => {
                // Too deep for a check of the cost.
                let p = x.debug_pretty_print();
                check!(write!(&mut Null, "{}", p).is_ok() && write!(&mut Null, "{:#?}", p).is_ok(), "printing");
            }
        })
    }};
}
pub const READS: usize = 14;

/// Further operations: reads through each kind of handle, steps of events, edits far from the root.
pub const MORE: usize = 3 * READS + 14;
pub fn more(op: usize, at: usize, root: HotNode<u8>, n: usize, measure: fn(&mut dyn FnMut()) -> usize) -> usize {
    let x = match at {
        0 => root.clone(),
        1 => must(root.first_child().ok_or(())),
        _ => {
            let mut x = root.clone();
            while let Some(c) = x.last_child() {
                x = c;
            }
            x
        }
    };
    if op < READS {
        return reads!(op, measure, x, root);
    }
    if op < 3 * READS {
        let (y, r) = (x.plain(), root.plain());
        drop((x, root));
        if op < 2 * READS {
            // `plain` of a plain node.
            trait Plain {
                fn plain(&self) -> Node<u8>;
            }
            impl Plain for Node<u8> {
                fn plain(&self) -> Node<u8> {
                    self.clone()
                }
            }
            return reads!(op - READS, measure, y, r);
        }
        let (y, r) = (must(y.bundle_new_hierarchy_edit_prohibition()), must(r.bundle_new_hierarchy_edit_prohibition()));
        return reads!(op - 2 * READS, measure, y, r);
    }
    let other = HotNode::new_tree(1);
    match op - 3 * READS {
        0 => measure(&mut || {
            let mut e = DftEvent::Open(x.plain());
            while let Some(f) = e.next() {
                e = f;
            }
            while let Some(f) = e.prev() {
                e = f;
            }
        }),
        1 => measure(&mut || drop(DftEvent::Open(x.plain()).close_current())),
        2 => measure(&mut || {
            check!(root.try_detach_insert_subtree(InsertAs::FirstChildOf(&x)).is_err(), "a node cannot be its own descendant")
        }),
        3 => measure(&mut || {
            let _ = x.try_detach_insert_subtree(InsertAs::FirstChildOf(&root));
            let _ = x.try_detach_insert_subtree(InsertAs::LastChildOf(&root));
            let _ = must(root.first_child().ok_or(())).try_detach_insert_subtree(InsertAs::PreviousSiblingOf(&x));
        }),
        4 => measure(&mut || {
            let _ = (x.create_as_first_child(0), x.create_as_last_child(0));
            let _ = (x.try_create_as_next_sibling(0), x.try_create_as_prev_sibling(0));
        }),
        5 => measure(&mut || {
            let _ = (x.create_as_interrupting_child(0), x.create_as_interrupting_parent(0));
        }),
        6 => measure(&mut || {
            let _ = x.try_replace_with_children();
        }),
        7 => measure(&mut || x.detach_subtree()),
        8 => measure(&mut || {
            let _ = x.try_detach_insert_subtree(InsertAs::LastChildOf(&other));
        }),
        9 => {
            // The last data cannot be read.
            let mut z = root.clone();
            while let Some(c) = z.last_child() {
                z = c;
            }
            let g = must(z.try_borrow_data_mut());
            let u = measure(&mut || {
                check!(root.try_clone_subtree().is_err(), "a clone of borrowed data");
                check!(root.try_clone_insert_subtree(InsertAs::LastChildOf(&other)).is_err(), "a clone of borrowed data");
                check!(root.plain().try_eq(&other.plain()).is_ok() || n > 0, "equality");
            });
            drop(g);
            u
        }
        10 => {
            let k = root.clone_subtree();
            measure(&mut || {
                check!(matches!(root.plain().try_eq(&k), Ok(true)) && root.plain() == k, "a clone is equal");
                check!(matches!(root.tree().try_eq(&k.tree()), Ok(true)) && root.tree() == k.tree(), "a clone is equal");
            })
        }
        11 => measure(&mut || {
            let mut b = TreeBuilder::with_root(root.clone());
            let (mut i, mut ok) = (0, true);
            while i < n {
                ok &= b.open(0).is_ok();
                i += 1;
            }
            check!(ok && b.close(n).is_ok() && b.open(0).is_ok(), "harness: the builder");
            check!(b.close(n + 3).is_err(), "harness: the builder");
            check!(b.finish_opt().is_some(), "harness: the builder");
        }),
        12 => measure(&mut || {
            let mut b = TreeBuilder::new();
            let (mut i, mut ok) = (0, true);
            while i < n {
                ok &= b.push_events([Event::Open(0), Event::Close(i & 1)]).is_ok();
                i += 1;
            }
            check!(ok, "harness: the builder");
            drop(b);
        }),
        _ => {
            // Grants and prohibitions, whatever else holds the tree.
            let t = root.tree();
            let y = x.plain();
            let u = measure(&mut || {
                drop(t.grant_hierarchy_edit());
                drop(t.prohibit_hierarchy_edit());
                drop(y.clone().bundle_new_hierarchy_edit_grant());
                drop(y.clone().bundle_new_hierarchy_edit_prohibition());
                drop(y.clone().bundle_hierarchy_edit_grant(&x.extract_hierarchy_edit_grant()));
            });
            drop(y);
            u
        }
    }
}

/// C30: no operation needs more stack for a larger tree.
pub fn stack(small: usize, big: usize) {
    let op = choose(23 + MORE);
    let shape = choose(3);
    let at = if op < 23 { 0 } else { choose(3) };
    let need = |n: usize| match op {
        0..=22 => need(op, shape, n),
        _ => more(op - 23, at, make(shape, n), n, |f| stack_use(|| f())),
    };
    // The executor counts nested calls. The replay measures bytes, and much larger trees.
    let (scale, slack) = if native() { (100, 16 << 10) } else { (1, 3) };
    let a = need(small);
    let b = need(big * scale);
    check!(b <= a + slack, "an operation needs more stack for a larger tree");
    cover!("measured");
}
