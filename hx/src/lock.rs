//! Hierarchy edit grants and prohibitions.

use crate::edit::*;
use crate::model::*;
use crate::sym::*;
use dendron::{FrozenNode, HierarchyEditGrant, HierarchyEditProhibition, HotNode};

enum Lock {
    None,
    Grant(HierarchyEditGrant<u8>),
    Proh(HierarchyEditProhibition<u8>),
    Hot(HotNode<u8>),
    Frozen(FrozenNode<u8>),
}

impl Lock {
    fn is_grant(&self) -> bool {
        matches!(self, Lock::Grant(_) | Lock::Hot(_))
    }
    fn is_proh(&self) -> bool {
        matches!(self, Lock::Proh(_) | Lock::Frozen(_))
    }
}

const S: usize = 5;

/// C13: any sequence of acquisitions, clones and releases of locks of one tree.
pub fn exclusion(k: usize, len: usize) {
    let mut w = World::new();
    w.build_upto(k);
    let other = dendron::Node::new_tree(0u8);
    let tree = w.n(0).tree();
    let mut s = [const { Lock::None }; S];
    let mut n = 0; // used slots
    let mut step = 0;
    while step < len {
        let mut g = 0;
        let mut p = 0;
        let mut i = 0;
        while i < n {
            if s[i].is_grant() {
                g += 1;
            }
            if s[i].is_proh() {
                p += 1;
            }
            i += 1;
        }
        let mut new = Lock::None;
        let mut made = true;
        match choose(if n == 0 { 4 } else { 8 }) {
            0 => match tree.grant_hierarchy_edit() {
                Ok(x) => {
                    check!(p == 0, "granted while prohibited");
                    new = Lock::Grant(x);
                }
                Err(_) => {
                    cover!("refused_grant");
                    check!(p > 0, "a grant was refused without a prohibition");
                    made = false;
                }
            },
            1 => match tree.prohibit_hierarchy_edit() {
                Ok(x) => {
                    check!(g == 0, "prohibited while granted");
                    new = Lock::Proh(x);
                }
                Err(_) => {
                    cover!("refused_prohibition");
                    check!(g > 0, "a prohibition was refused without a grant");
                    made = false;
                }
            },
            2 => match w.n(pick(w.m.n)).clone().bundle_new_hierarchy_edit_grant() {
                Ok(x) => {
                    check!(p == 0, "granted while prohibited");
                    new = Lock::Hot(x);
                }
                Err(_) => {
                    cover!("refused_grant");
                    check!(p > 0, "a grant was refused without a prohibition");
                    made = false;
                }
            },
            3 => match w.n(pick(w.m.n)).clone().bundle_new_hierarchy_edit_prohibition() {
                Ok(x) => {
                    check!(g == 0, "prohibited while granted");
                    new = Lock::Frozen(x);
                }
                Err(_) => {
                    cover!("refused_prohibition");
                    check!(g > 0, "a prohibition was refused without a grant");
                    made = false;
                }
            },
            4 => {
                // clone
                let i = pick(n);
                match &s[i] {
                    Lock::None => made = false,
                    Lock::Grant(x) => match x.try_clone() {
                        Ok(x) => new = Lock::Grant(x),
                        Err(_) => check!(false, "a grant cannot be cloned"),
                    },
                    Lock::Proh(x) => match x.try_clone() {
                        Ok(x) => new = Lock::Proh(x),
                        Err(_) => check!(false, "a prohibition cannot be cloned"),
                    },
                    Lock::Hot(x) => new = Lock::Hot(x.clone()),
                    Lock::Frozen(x) => new = Lock::Frozen(x.clone()),
                }
                cover!("cloned");
            }
            5 => {
                // token -> node, node -> token
                let i = pick(n);
                match &s[i] {
                    Lock::None => made = false,
                    Lock::Grant(x) => new = Lock::Hot(w.n(pick(w.m.n)).clone().bundle_hierarchy_edit_grant(x)),
                    Lock::Proh(x) => new = Lock::Frozen(w.n(pick(w.m.n)).clone().bundle_hierarchy_edit_prohibition(x)),
                    Lock::Hot(x) => new = Lock::Grant(x.extract_hierarchy_edit_grant()),
                    Lock::Frozen(x) => new = Lock::Proh(x.extract_hierarchy_edit_prohibition()),
                }
                cover!("converted");
            }
            6 => {
                // navigation yields locked nodes
                let i = pick(n);
                match &s[i] {
                    Lock::Hot(x) => match x.first_child() {
                        Some(c) => new = Lock::Hot(c),
                        None => new = Lock::Hot(x.root()),
                    },
                    Lock::Frozen(x) => match x.first_child() {
                        Some(c) => new = Lock::Frozen(c),
                        None => new = Lock::Frozen(x.root()),
                    },
                    _ => made = false,
                }
                cover!("navigated");
            }
            _ => {
                // release
                let i = pick(n);
                s[i] = Lock::None;
                made = false;
                cover!("released");
            }
        }
        if made {
            s[n] = new;
            n += 1;
        }
        probe(&tree, &s, n);
        step += 1;
    }
    // Tokens are valid for the nodes of their tree only.
    let mut i = 0;
    while i < n {
        let j = w.m.n - 1;
        match &s[i] {
            Lock::Grant(x) => {
                check!(x.is_valid_for_node(w.n(0)) && x.is_valid_for_node(w.n(j)), "validity for the tree");
                check!(!x.is_valid_for_node(&other), "validity for another tree");
            }
            Lock::Proh(x) => {
                check!(x.is_valid_for_node(w.n(0)) && x.is_valid_for_node(w.n(j)), "validity for the tree");
                check!(!x.is_valid_for_node(&other), "validity for another tree");
            }
            _ => {}
        }
        i += 1;
    }
    // Everything is released one by one.
    let mut i = 0;
    while i < n {
        s[i] = Lock::None;
        probe(&tree, &s, n);
        i += 1;
    }
    check!(other.tree().prohibit_hierarchy_edit().is_ok(), "another tree is affected");
    w.check_unlocked();
    w.check_links();
    drop(tree);
    drop(w);
    drop(s);
    drop(other);
    check!(live() == 0, "memory is leaked");
}

/// A grant is available iff no prohibition is held, and vice versa.
fn probe(tree: &dendron::Tree<u8>, s: &[Lock; S], n: usize) {
    let mut g = false;
    let mut p = false;
    let mut i = 0;
    while i < n {
        g |= s[i].is_grant();
        p |= s[i].is_proh();
        i += 1;
    }
    check!(!(g && p), "grants and prohibitions are held at once");
    check!(tree.grant_hierarchy_edit().is_ok() == !p, "a grant is available iff there are no prohibitions");
    check!(tree.prohibit_hierarchy_edit().is_ok() == !g, "a prohibition is available iff there are no grants");
}

/// Locks held during an edit: on a node or on a tree (index of the tree slot).
struct Held {
    lock: Lock,
    node: usize,
    slot: usize,
}

/// The root of the tree a held lock belongs to, in the model.
fn home(w: &World, h: &Held) -> usize {
    match h.lock {
        Lock::None => NONE,
        Lock::Hot(_) => w.m.root(h.node),
        _ => w.tr[h.slot] as usize,
    }
}

/// Every tree is locked iff some held lock belongs to it.
fn probe_all(w: &World, held: &[Held; 2]) {
    let mut i = 0;
    while i < w.m.n {
        if w.m.parent(i) == NONE {
            let locked = home(w, &held[0]) == i || home(w, &held[1]) == i;
            let t = w.n(i).tree();
            check!(t.prohibit_hierarchy_edit().is_ok() == !locked, "the edit grants of a tree after an edit");
            check!(t.grant_hierarchy_edit().is_ok(), "a prohibition was left behind");
            if locked {
                cover!("locked");
            } else {
                cover!("unlocked");
            }
        }
        i += 1;
    }
    let mut k = 0;
    while k < 2 {
        match &held[k].lock {
            Lock::Hot(x) => {
                check!(x.ptr_eq_plain(w.n(held[k].node)), "a locked node is another node");
                check!(x.tree().ptr_eq(&w.n(held[k].node).tree()), "the tree of a locked node");
            }
            Lock::Grant(g) => {
                let r = w.tr[held[k].slot] as usize;
                let mut j = 0;
                while j < w.m.n {
                    check!(g.is_valid_for_node(w.n(j)) == (w.m.root(j) == r), "the nodes a grant is valid for");
                    j += 1;
                }
            }
            _ => {}
        }
        k += 1;
    }
}

/// C14: locks follow the nodes through edits.
pub fn follow(k1: usize, k2: usize) {
    let mut w = World::new();
    w.build_upto(k1);
    let n1 = w.m.n;
    w.build_upto(k2);
    let n = w.m.n;
    w.keep_tree(0, 0);
    w.keep_tree(1, n1);
    let mut held: [Held; 2] = [const { Held { lock: Lock::None, node: 0, slot: 0 } }; 2];
    let mut k = 0;
    while k < 2 {
        match if k == 1 && w.large { 3 } else { choose(if k == 0 { 2 } else { 4 }) } {
            0 => {
                let i = pick(n);
                held[k] = Held { lock: Lock::Hot(w.hot(i)), node: i, slot: 0 };
            }
            1 => {
                let t = choose(2);
                let g = grant(&w, if t == 0 { 0 } else { n1 });
                held[k] = Held { lock: Lock::Grant(g), node: 0, slot: t };
            }
            2 => {
                // A second handle of the same lock.
                let new = match &held[0].lock {
                    Lock::Hot(x) => Lock::Hot(x.clone()),
                    Lock::Grant(x) => Lock::Grant(x.clone()),
                    _ => Lock::None,
                };
                held[1] = Held { lock: new, node: held[0].node, slot: held[0].slot };
            }
            _ => {}
        }
        k += 1;
    }
    probe_all(&w, &held);
    let a = pick(n);
    let op = match choose(6) {
        0 => Op::Detach(a),
        1 => Op::Move(a, pick(n), 1 + choose(2)),
        2 => Op::Replace(a),
        3 => Op::IntParent(a, 0),
        4 => Op::IntChild(a, 0),
        _ => Op::Create(a, 1, 0),
    };
    step(&mut w, op, choose(2));
    probe_all(&w, &held);
    let first = if w.large || flip() { 0 } else { 1 };
    held[first].lock = Lock::None;
    probe_all(&w, &held);
    held[1 - first].lock = Lock::None;
    probe_all(&w, &held);
    w.check_links();
    drop(held);
    drop(w);
    check!(live() == 0, "memory is leaked");
}

/// C14: a grant of another tree is refused by every operation that takes one.
pub fn foreign(k: usize) {
    let mut w = World::new();
    w.build_upto(k);
    let n1 = w.m.n;
    w.build(1);
    let a = pick(n1);
    let (g, p, valid) = match choose(5) {
        0 => {
            cover!("other_tree");
            (Some(grant(&w, n1)), None, false)
        }
        1 => {
            // The node leaves the tree of the grant.
            cover!("left");
            let g = grant(&w, 0);
            step(&mut w, Op::Detach(a), 0);
            (Some(g), None, w.m.root(a) == 0)
        }
        2 => {
            cover!("left");
            let g = grant(&w, 0);
            let want = step(&mut w, Op::Move(a, n1, 1), 0);
            (Some(g), None, want != Want::Done)
        }
        3 => {
            // A grant of a tree that is gone.
            cover!("dead");
            let g = grant(&w, n1);
            w.h[n1] = None;
            w.m.n = n1;
            (Some(g), None, false)
        }
        _ => {
            cover!("prohibition");
            let p = match w.n(n1).tree().prohibit_hierarchy_edit() {
                Ok(p) => p,
                Err(_) => {
                    check!(false, "an edit prohibition is available");
                    return;
                }
            };
            (None, Some(p), false)
        }
    };
    if valid {
        return;
    }
    let x = w.n(a).clone();
    if let Some(p) = p {
        check!(!p.is_valid_for_node(&x), "validity for another tree");
        let y = x.clone();
        let f = panics(true, || y.bundle_hierarchy_edit_prohibition(&p));
        drop(f);
        drop(p);
        w.check_all();
        return;
    }
    let Some(g) = g else { return };
    check!(!g.is_valid_for_node(&x), "validity for another tree");
    let which = choose(14);
    // A destination for the edit that moves the node.
    let to = w.hot(a);
    let y = x.clone();
    let r = panics(true, || match which {
        0 => drop(x.try_create_node_as(&g, 0, adopt(choose(4)))),
        1 => drop(x.create_as_first_child(&g, 0)),
        2 => drop(x.create_as_last_child(&g, 0)),
        3 => drop(x.try_create_as_prev_sibling(&g, 0)),
        4 => drop(x.create_as_prev_sibling(&g, 0)),
        5 => drop(x.try_create_as_next_sibling(&g, 0)),
        6 => drop(x.create_as_next_sibling(&g, 0)),
        7 => drop(x.create_as_interrupting_parent(&g, 0)),
        8 => drop(x.create_as_interrupting_child(&g, 0)),
        9 => drop(x.try_replace_with_children(&g)),
        10 => x.detach_subtree(&g),
        11 => drop(x.try_detach_insert_subtree(&g, dest(&to, choose(4)))),
        12 => drop(x.create_node_as(&g, 0, adopt(choose(4)))),
        _ => drop(y.bundle_hierarchy_edit_grant(&g)),
    });
    check!(r.is_none(), "a foreign grant was accepted");
    // Nothing changed.
    drop(to);
    drop(g);
    drop(x);
    w.check_all();
    drop(w);
    check!(live() == 0, "memory is leaked");
}
