//! Panics in the code of the user: clones, destructors, comparisons, printers, iterators.

use crate::edit::*;
use crate::life::*;
use crate::model::*;
use crate::sym::*;
use core::fmt::{self, Write};
use dendron::serial::{Event, TreeBuilder};
use dendron::{HotNode, Node, Tree};

pub struct Null;
impl Write for Null {
    fn write_str(&mut self, _: &str) -> fmt::Result {
        Ok(())
    }
}

/// Everything is as the model says, and nothing more is alive.
fn intact(w: &mut W) {
    w.reacquire();
    w.check_all();
    check_alive(w);
}

/// The trees can still be edited.
fn usable(w: &mut W) {
    let a = pick(w.m.n);
    step(w, Op::Create(a, 1, Tok::any_tag()), 0);
    step(w, Op::Detach(a), 0);
    w.check_links();
    check_alive(w);
}

fn end(w: W) {
    drop(w);
    check!(live() == 0, "memory is leaked");
}

/// C28: a clone that panics leaves no trace.
pub fn clones(k1: usize, k2: usize) {
    let mut w = forest(k1, k2);
    let a = pick(w.m.n);
    let how = choose(4);
    let op = if how == 3 { Op::CloneIns(a, pick(w.m.n), if w.large { 1 } else { choose(4) }) } else { Op::CloneSub(a) };
    let size = w.m.size(a);
    let n = 1 + pick(size);
    let api = match how {
        0 | 3 if w.large => 0,
        0 | 3 => choose(4),
        _ => 0,
    };
    if how == 1 && w.m.parent(a) != NONE {
        return;
    }
    let old = w.m.n;
    let saved = w.m;
    let want = spec(&mut w, op);
    let before = live();
    arm(CLONE, n);
    let r = catch(|| match how {
        0 | 3 => real(&w, op, api),
        1 => match w.n(a).tree().try_clone_tree() {
            Ok(t) => Ok(Some(t.root())),
            Err(_) => Err(BORROW),
        },
        _ => {
            let r: Result<Node<Tok>, _> = w
                .n(a)
                .to_events()
                .map(|e| match e {
                    Ok(e) => e,
                    Err(_) => Event::Close(99),
                })
                .collect();
            match r {
                Ok(n) => Ok(Some(n)),
                Err(_) => Err(BORROW),
            }
        }
    });
    arm(CLONE, 0);
    w.m = saved;
    match r {
        None => {
            cover!("panicked");
            check!(live() == before, "memory is leaked after a panic");
        }
        Some(Err(_)) => check!(want != Want::Done, "a valid clone was rejected"),
        Some(Ok(_)) => check!(false, "a subtree was cloned without cloning the data of each node"),
    }
    check!(w.m.n == old, "harness: the model");
    intact(&mut w);
    usable(&mut w);
    end(w);
}

/// Which call of `Drop` panics.
pub fn nth(large: bool, total: usize) -> usize {
    if large {
        [0, total / 2, total - 1][choose(3)]
    } else {
        pick(total)
    }
}

/// C28: a destructor that panics does not keep anything else from being destroyed, and an edit
/// that lets a tree die is complete nevertheless.
pub fn drops(k1: usize, k2: usize) {
    let mut w = forest(k1, k2);
    let total = w.m.n;
    let op = match choose(4) {
        0 => Some(Op::Detach(pick(total))),
        1 => Some(Op::Move(pick(total), pick(total), if w.large { 1 } else { choose(4) })),
        2 => Some(Op::Replace(pick(total))),
        _ => None,
    };
    if let Some(op) = op {
        w.release(operands(op));
        let saved = (w.m, w.tr);
        let want = spec(&mut w, op);
        let api = if w.large { 0 } else { choose(2) };
        arm(DROP, 1 + nth(w.large, total));
        let r = catch(|| real(&w, op, api));
        arm(DROP, 0);
        match r {
            None => {
                cover!("edit_panicked");
                check!(want == Want::Done, "a rejected edit drops data");
            }
            Some(Ok(_)) => {
                check!(want == Want::Done || want == Want::Stay, "an invalid edit was accepted")
            }
            Some(Err(_)) => check!(matches!(want, Want::Err(_)), "a valid edit was rejected"),
        }
        if want != Want::Done {
            (w.m, w.tr) = saved;
        }
        check_alive(&w);
        check_alive_trees(&mut w);
    }
    // The remaining handles.
    let mut i = 0;
    let mut armed = false;
    while i < N {
        if w.h[i].is_some() && (armed || !flip()) {
            w.h[i] = None;
            check_alive(&w);
        } else if w.h[i].is_some() {
            // As a handle of some kind.
            let x = w.n(i);
            let (mut plain, mut hot, mut frozen, mut tree) = (None, None, None, None);
            armed = true;
            match choose(4) {
                0 => plain = Some(x.clone()),
                1 => hot = Some(w.hot(i)),
                2 => frozen = Some(w.frozen(i)),
                _ => tree = Some(x.tree()),
            }
            check_alive(&w);
            w.h[i] = None;
            arm(DROP, 1 + nth(w.large, total));
            if catch(|| {
                drop(plain);
                drop(hot);
                drop(frozen);
                drop(tree);
            })
            .is_none()
            {
                cover!("drop_panicked");
            }
            arm(DROP, 0);
            check_alive(&w);
        }
        i += 1;
    }
    end(w);
}

/// The trees that are still alive have their links.
pub fn check_alive_trees(w: &mut W) {
    let mut i = 0;
    while i < w.m.n {
        if let Some(x) = &w.h[i] {
            let r = w.m.root(i);
            let mut n = 0;
            let mut j = r;
            for c in x.root().depth_first_traverse() {
                if let dendron::traverse::DftEvent::Open(c) = c {
                    check!(j != NONE, "a tree has too many nodes");
                    if j != NONE {
                        check!(matches!(c.try_borrow_data(), Ok(d) if d.tag() == w.m.data[j]), "a node of a surviving tree");
                        check!(c.num_children() == w.m.nk(j), "the children of a surviving node");
                        check!(c.belongs_to_same_tree(x), "the tree of a surviving node");
                        j = w.m.pre_next(r, j);
                    }
                    n += 1;
                }
            }
            check!(n == w.m.size(r), "a surviving tree lost nodes");
            check!(x.tree().grant_hierarchy_edit().is_ok(), "a lock was left behind");
            check!(x.tree().prohibit_hierarchy_edit().is_ok(), "a lock was left behind");
        }
        i += 1;
    }
}

/// C28: comparing and printing leave no borrow and no lock behind if they panic.
pub fn reads(k1: usize, k2: usize) {
    let mut w = forest(k1, k2);
    let a = pick(w.m.n);
    let before = live();
    let n = 1 + pick(w.m.n);
    let r = if flip() {
        // The same subtree, or a clone.
        let other = if flip() { w.n(a).clone() } else { w.n(a).clone_subtree() };
        arm(EQ, n);
        catch(|| match choose(4) {
            0 => check!(matches!(w.n(a).try_eq(&other), Ok(true)), "equality"),
            1 => check!(*w.n(a) == other, "equality"),
            2 => check!(w.hot(a) == other, "equality"),
            _ => check!(w.n(a).tree() == w.n(a).tree(), "equality"),
        })
    } else {
        arm(PRINT, n);
        let f = &mut Null;
        catch(|| {
            let _ = match choose(6) {
                0 => write!(f, "{:?}", w.n(a)),
                1 => write!(f, "{:?}", w.hot(a)),
                2 => write!(f, "{:?}", w.frozen(a)),
                3 => write!(f, "{:?}", w.n(a).debug_print_subtree()),
                4 => write!(f, "{}", w.n(a).debug_pretty_print()),
                _ => write!(f, "{:?}", w.n(a).tree().debug_print()),
            };
        })
    };
    if r.is_none() {
        cover!("panicked");
    }
    arm(EQ, 0);
    arm(PRINT, 0);
    check!(live() == before, "memory is leaked after a panic");
    let mut i = 0;
    while i < w.m.n {
        check!(w.n(i).try_borrow_data_mut().is_ok(), "a borrow was left behind");
        i += 1;
    }
    intact(&mut w);
    end(w);
}

/// Yields events, then panics.
struct Source<'a> {
    open: &'a [bool; 8],
    at: usize,
    n: usize,
}

impl Iterator for Source<'_> {
    type Item = Event<Tok>;
    fn next(&mut self) -> Option<Event<Tok>> {
        if self.at == self.n {
            panic!("user code panics");
        }
        self.at += 1;
        Some(if self.open[self.at - 1] { Event::Open(Tok::make(Tok::any_tag())) } else { Event::Close(1) })
    }
}

/// C28: what an iterator of events had delivered before it panicked is in the builder, and gone
/// with the builder if the tree is a new one.
pub fn sources(k: usize, len: usize) {
    let mut w = W::new();
    w.build_upto(k);
    let top = pick(w.m.n);
    let how = choose(5);
    let n = choose(len + 1);
    let before = live();
    let mut open = [false; 8];
    let mut depth = 0;
    let mut i = 0;
    while i < n {
        open[i] = depth == 0 || flip();
        depth = if open[i] { depth + 1 } else { depth - 1 };
        i += 1;
    }
    let src = Source { open: &open, at: 0, n };
    if how == 0 {
        // The nodes are added to an existing tree.
        let mut cur = top;
        let mut tag = Tok::any_tag();
        let mut i = 0;
        while i < n {
            if open[i] {
                let j = w.m.add_node(tag);
                tag += 1;
                let at = w.m.nk(cur);
                w.m.link(cur, at, j);
                cur = j;
            } else {
                cur = w.m.parent(cur);
            }
            i += 1;
        }
        let mut b = TreeBuilder::with_root(w.hot(top));
        check!(catch(|| b.push_events(src).is_ok()).is_none(), "a panic is lost");
        cover!("panicked");
        check!(matches!(b.finish(), Ok(n) if n.ptr_eq(w.n(top))), "the root is another node");
    } else {
        let r = catch(|| match how {
            1 => src.collect::<Result<Node<Tok>, _>>().is_ok(),
            2 => src.collect::<Result<Tree<Tok>, _>>().is_ok(),
            3 => src.collect::<Result<HotNode<Tok>, _>>().is_ok(),
            _ => {
                let mut b = TreeBuilder::new();
                b.push_events(src).is_ok() && b.finish().is_ok()
            }
        });
        match r {
            None => {
                cover!("panicked");
            }
            // A second root is refused before the panic.
            Some(ok) => check!(!ok, "a tree was built from incomplete events"),
        }
        check!(live() == before, "memory is leaked after a panic");
    }
    intact(&mut w);
    usable(&mut w);
    end(w);
}
