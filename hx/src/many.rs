//! Large numbers: of locks, of handles, of children, of levels. The counts around a power of two
//! are tried, where a counter that is too narrow wraps around.

extern crate alloc;

use crate::life::*;
use crate::model::Elem;
use crate::sym::*;
use alloc::vec::Vec;
use core::fmt::{self, Write};
use dendron::serial::{Event, TreeBuilder};
use dendron::traverse::DftEvent;
use dendron::{FrozenNode, HotNode, InsertAs, Node, Tree};

fn must<T, E>(r: Result<T, E>) -> T {
    match r {
        Ok(x) => x,
        Err(_) => {
            check!(false, "an operation failed");
            loop {}
        }
    }
}
fn some<T>(r: Option<T>) -> T {
    must(r.ok_or(()))
}

/// `n - 1`, `n` or `n + 1`.
fn around(n: usize) -> usize {
    n - 1 + choose(3)
}

fn is(n: &Node<u8>, d: u8) -> bool {
    matches!(n.try_borrow_data(), Ok(x) if *x == d)
}

/// C13: any number of locks exclude the other kind until the last of them is gone.
pub fn locks(n: usize) {
    let n = around(n);
    let hot = HotNode::new_tree(0u8);
    let kid = hot.create_as_last_child(1).plain();
    let root = hot.plain();
    drop(hot);
    let tree = root.tree();
    let free = |g: bool, p: bool| {
        check!(tree.grant_hierarchy_edit().is_ok() == g, "whether a grant is available");
        check!(tree.prohibit_hierarchy_edit().is_ok() == p, "whether a prohibition is available");
    };
    free(true, true);
    let how = choose(6);
    let half = flip();
    // All locks but one are released, then that one.
    macro_rules! go {
        ($grant:expr, $first:expr, $more:expr) => {{
            let first = $first;
            let mut v = Vec::with_capacity(n);
            let mut i = 1;
            while i < n {
                v.push($more(&first));
                i += 1;
            }
            free($grant, !$grant);
            if half {
                drop(first);
                while v.len() > 1 {
                    v.pop();
                }
                free($grant, !$grant);
                drop(v);
            } else {
                drop(v);
                free($grant, !$grant);
                drop(first);
            }
            free(true, true);
            cover!("locked");
        }};
    }
    match how {
        0 => go!(true, must(tree.grant_hierarchy_edit()), |_: &_| must(tree.grant_hierarchy_edit())),
        1 => go!(true, must(tree.grant_hierarchy_edit()), Clone::clone),
        2 => go!(false, must(tree.prohibit_hierarchy_edit()), |_: &_| must(tree.prohibit_hierarchy_edit())),
        3 => go!(true, must(kid.clone().bundle_new_hierarchy_edit_grant()), HotNode::clone),
        4 => go!(false, must(kid.clone().bundle_new_hierarchy_edit_prohibition()), FrozenNode::clone),
        _ => {
            go!(true, must(kid.clone().bundle_new_hierarchy_edit_grant()), |h: &HotNode<u8>| some(some(h.parent()).first_child()))
        }
    }
    drop(tree);
    drop(root);
    check!(live() > 0, "a tree dies too early");
    drop(kid);
    check!(live() == 0, "memory is leaked");
}

/// C14: a node takes any number of grants to another tree.
pub fn locks_follow(n: usize) {
    let n = around(n);
    let root = HotNode::new_tree(0u8);
    let kid = root.create_as_last_child(1);
    let mut v = Vec::with_capacity(n);
    let mut i = 1;
    while i < n {
        v.push(kid.clone());
        i += 1;
    }
    let old = root.plain();
    drop(root);
    let moved = flip();
    let other = HotNode::new_tree(2u8);
    if moved {
        kid.detach_insert_subtree(InsertAs::LastChildOf(&other));
    } else {
        kid.detach_subtree();
    }
    drop(other);
    // The old tree is free.
    check!(old.tree().prohibit_hierarchy_edit().is_ok(), "a lock was left behind");
    let tree = kid.tree();
    drop(kid);
    check!(tree.prohibit_hierarchy_edit().is_err(), "a lock did not follow its node");
    check!(tree.grant_hierarchy_edit().is_ok(), "a lock did not follow its node");
    while v.len() > 1 {
        v.pop();
        if v.len() == 1 {
            check!(tree.prohibit_hierarchy_edit().is_err(), "a lock did not follow its node");
        }
    }
    drop(v);
    check!(tree.prohibit_hierarchy_edit().is_ok(), "a lock was left behind");
    cover!("followed");
    drop(tree);
    drop(old);
    check!(live() == 0, "memory is leaked");
}

fn tok() -> Tok {
    Tok::make(Tok::any_tag())
}

/// C11, C12: any number of handles of a node, and the tree lives until the last of them is gone.
pub fn handles(n: usize) {
    let n = around(n);
    let root = HotNode::new_tree(tok());
    let kid = root.create_as_last_child(tok()).plain();
    let weak = kid.downgrade();
    let top = if flip() { Some(root.plain()) } else { None };
    drop(root);
    let mut v = Vec::with_capacity(n);
    let how = choose(4);
    let mut i = 1;
    while i < n {
        v.push(match how {
            0 => kid.clone(),
            1 => some(weak.upgrade()),
            2 => some(some(kid.parent()).first_child()),
            _ => some(kid.root().first_child()),
        });
        i += 1;
    }
    let cut = flip();
    if cut {
        must(kid.clone().bundle_new_hierarchy_edit_grant()).detach_subtree();
    }
    check!(alive(0) == (!cut || top.is_some()) as usize, "the life of the rest of the tree");
    drop(top);
    check!(alive(0) == !cut as usize, "the life of the rest of the tree");
    drop(kid);
    while v.len() > 1 {
        v.pop();
    }
    check!(alive(0) == !cut as usize, "the life of the rest of the tree");
    check!(alive(1) == 1, "the data of a node in a live tree was dropped");
    check!(weak.upgrade().is_some(), "upgrade of a weak node reference");
    check!(some(v.first()).is_root() == cut, "is_root");
    cover!("counted");
    drop(v);
    check!(alive(0) == 0 && alive(1) == 0, "the data of a node of a dead tree is still alive");
    check!(weak.upgrade().is_none(), "upgrade of a weak node reference");
    drop(weak);
    check!(live() == 0, "memory is leaked");
}

/// C09, C16: any number of children. The second parameter selects what is tried.
pub fn children(n: usize, what: usize) {
    let n = around(n);
    let root = HotNode::new_tree(0u8);
    let back = flip();
    let mut i = 0;
    while i < n {
        let d = if back { n - i } else { i + 1 } as u8;
        if back {
            root.create_as_first_child(d);
        } else {
            root.create_as_last_child(d);
        }
        i += 1;
    }
    let mut at = n / 2;
    let mid = must(some(root.children().nth(at)).bundle_new_hierarchy_edit_grant());
    let mut want = n;
    // The children from there on, and their data in order.
    match if what == 16 { 8 } else { choose(8) } {
        0 => {
            mid.detach_subtree();
            want -= 1;
        }
        1 => {
            // The children of a child.
            let sub = mid.create_as_last_child(1);
            mid.create_as_last_child(2);
            drop(sub);
            mid.replace_with_children();
            want += 1;
        }
        2 => {
            mid.create_as_next_sibling(9);
            want += 1;
        }
        3 => {
            mid.create_as_interrupting_parent(9);
        }
        4 => {
            // All children are the children of a child, and become those of the root again.
            let x = root.create_as_interrupting_child(9);
            check!(root.num_children() == 1 && x.num_children() == n, "num_children");
            x.replace_with_children();
        }
        5 => {
            let x = some(root.first_child());
            x.detach_insert_subtree(InsertAs::LastChildOf(&root));
            at -= 1;
        }
        6 => {
            let x = some(root.last_child());
            x.detach_insert_subtree(InsertAs::FirstChildOf(&mid));
            want -= 1;
        }
        7 => {
            let c = must(root.try_clone_subtree());
            check!(c == root, "a clone is different");
            check!(c.num_children() == n, "num_children");
        }
        _ => {}
    }
    check!(root.num_children() == want, "num_children");
    check!(root.count_children() == want, "count_children");
    check!(root.has_multiple_children() && !root.has_one_child() && root.has_children(), "has_children");
    check!(root.children().count() == want, "the number of children that are traversed");
    check!(root.children_reverse().count() == want, "the number of children that are traversed backwards");
    let (f, l) = some(root.plain().first_last_child());
    check!(f.count_following_siblings() == want - 1 && f.count_preceding_siblings() == 0, "count_following_siblings");
    check!(l.count_preceding_siblings() == want - 1 && l.count_following_siblings() == 0, "count_preceding_siblings");
    check!(f.prev_sibling().is_none() && l.next_sibling().is_none(), "the ends of the siblings");
    if mid.parent().map_or(false, |p| p.ptr_eq(&root)) {
        check!(mid.count_preceding_siblings() == at, "count_preceding_siblings");
        check!(
            mid.count_following_siblings() == want - 1 - at || mid.plain().next_sibling().map_or(false, |x| is(&x, 9)),
            "count_following_siblings"
        );
    }
    cover!("counted");
    drop((f, l, mid));
    drop(root);
    check!(live() == 0, "memory is leaked");
}

/// Compares the printed chain with what it should be.
struct Lines {
    line: usize,
    col: usize,
    n: usize,
}

impl Lines {
    fn want(&self) -> Option<u8> {
        let (l, c) = (self.line, self.col);
        if l > self.n + 1 {
            return None;
        }
        if l == self.n + 1 {
            return b"`-- 77\n".get(c).copied();
        }
        if c < 4 * l {
            return Some(if l == 1 {
                b"|-- "[c]
            } else if c >= 4 * (l - 1) {
                b"`-- "[c % 4]
            } else if c == 0 {
                b'|'
            } else {
                b' '
            });
        }
        let d = l as u8;
        let digit = match (d > 9, d > 99) {
            (false, _) => [d, 255, 255],
            (_, false) => [d / 10, d % 10, 255],
            _ => [d / 100, d / 10 % 10, d % 10],
        };
        match digit.get(c - 4 * l) {
            Some(255) | None => Some(b'\n'),
            Some(x) => Some(b'0' + x),
        }
    }
}

impl Write for Lines {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for &b in s.as_bytes() {
            if self.want() != Some(b) {
                return Err(fmt::Error);
            }
            self.col += 1;
            if b == b'\n' {
                self.line += 1;
                self.col = 0;
            }
        }
        Ok(())
    }
}

/// C08, C15, C16, C18, C19, C21, C22, C24, C25, C26: any depth. The second parameter selects what is tried.
pub fn levels(n: usize, what: usize) {
    let n = around(n);
    // A chain of `n` nodes below the root, and a leaf after the first of them.
    let (root, leaf, deep);
    if what == 26 {
        let mut b = TreeBuilder::new();
        let mut i = 0;
        while i <= n {
            must(b.push_event(Event::Open(i as u8)));
            i += 1;
        }
        must(b.close(n));
        must(b.open(77));
        check!(b.close(3).is_err(), "more nodes are closed than are open");
        root = must(b.finish());
        leaf = some(root.last_child());
        check!(is(&leaf, 77) && root.num_children() == 2, "the node at which a closing of many levels ends");
        let mut d = some(root.first_child());
        while let Some(c) = d.first_child() {
            d = c;
        }
        deep = d;
        check!(is(&deep, n as u8), "the data of the deepest node");
        let mut k = 0;
        let mut up = deep.clone();
        while let Some(p) = up.parent() {
            up = p;
            k += 1;
        }
        check!(k == n, "the depth of the deepest node");
    } else {
        let r = HotNode::new_tree(0u8);
        let mut d = r.clone();
        let mut i = 1;
        while i <= n {
            d = d.create_as_last_child(i as u8);
            i += 1;
        }
        leaf = r.create_as_last_child(77).plain();
        root = r.plain();
        deep = d.plain();
    }
    match what {
        8 => {
            let h = must(root.clone().bundle_new_hierarchy_edit_grant());
            let c: Node<u8> = if flip() {
                must(h.try_clone_subtree())
            } else {
                let c = must(some(h.first_child()).try_clone_insert_subtree(InsertAs::LastChildOf(&h)));
                check!(h.num_children() == 3, "the place of a clone");
                c.plain()
            };
            let mut k = 0;
            let (mut x, mut y) = (c.clone(), root.clone());
            if !c.is_root() {
                y = some(y.first_child());
            }
            loop {
                let same = matches!((x.try_borrow_data(), y.try_borrow_data()), (Ok(a), Ok(b)) if *a == *b);
                check!(same, "the data of a clone");
                k += 1;
                match (x.first_child(), y.first_child()) {
                    (Some(a), Some(b)) => (x, y) = (a, b),
                    (None, None) => break,
                    _ => check!(false, "the shape of a clone"),
                }
            }
            check!(k == if c.is_root() { n + 1 } else { n }, "the depth of a clone");
        }
        15 => {
            let back = flip();
            let mut k = 0;
            let mut depth = 0;
            let mut most = 0;
            let mut step = |e: DftEvent<Node<u8>>| {
                match &e {
                    DftEvent::Open(_) => depth += 1,
                    DftEvent::Close(_) => depth -= 1,
                }
                most = if depth > most { depth } else { most };
                k += 1;
            };
            if back {
                for e in root.depth_first_reverse_traverse() {
                    step(match e {
                        DftEvent::Open(n) => DftEvent::Close(n),
                        DftEvent::Close(n) => DftEvent::Open(n),
                    });
                }
            } else {
                for e in root.depth_first_traverse() {
                    step(e);
                }
            }
            check!(k == 2 * (n + 2) && depth == 0 && most == n as i64 + 1, "the number of events");
        }
        16 => {
            check!(deep.ancestors().count() == n && deep.ancestors_or_self().count() == n + 1, "the number of ancestors");
            check!(deep.count_ancestors() == n, "count_ancestors");
            check!(deep.root().ptr_eq(&root), "root");
        }
        18 => {
            let f = must(root.clone().bundle_new_hierarchy_edit_prohibition());
            let limit = n - choose(2);
            let back = flip();
            let mut t = f.shallow_depth_first_traverse_stable(Some(limit));
            let (mut k, mut most) = (0, 0);
            loop {
                match if back { t.next_back() } else { t.next() } {
                    Some(DftEvent::Open((_, d)) | DftEvent::Close((_, d))) => most = if d > most { d } else { most },
                    None => break,
                }
                k += 1;
            }
            check!(most == limit, "the depth of a limited traversal");
            check!(k == 2 * (limit + 2), "the number of events");
        }
        19 => {
            let f = must(root.clone().bundle_new_hierarchy_edit_prohibition());
            let start = n - choose(2);
            let (mut k, mut last) = (0, 0);
            if flip() {
                for (_, d) in f.allocating_breadth_first_traverse_stable(start) {
                    k += 1;
                    last = d;
                }
            } else {
                for (_, d) in f.non_allocating_breadth_first_traverse_stable(start) {
                    k += 1;
                    last = d;
                }
            }
            check!(k == n + 1 - start && last == n, "the nodes from a depth on");
        }
        21 => {
            let (mut opened, mut closed, mut most) = (0, 0, 0);
            for e in root.to_events() {
                match must(e) {
                    Event::Open(_) => opened += 1,
                    Event::Close(c) => {
                        closed += c;
                        most = if c > most { c } else { most };
                    }
                }
            }
            check!(opened == n + 2, "the number of nodes that are opened");
            check!(most == n && (closed == n + 1 || closed == n + 2), "the number of levels that are closed at once");
        }
        22 => {
            let x = must(root.try_clone_subtree());
            let same = flip();
            if !same {
                // The deepest node differs.
                let mut d = some(x.first_child());
                while let Some(c) = d.first_child() {
                    d = c;
                }
                *must(d.try_borrow_data_mut()) ^= 1;
            }
            check!((x == root) == same && matches!(root.try_eq(&x), Ok(e) if e == same), "equality");
        }
        24 => {
            let up = n / 2;
            let mut from = some(root.first_child());
            let mut i = 1;
            while i < up {
                from = some(from.first_child());
                i += 1;
            }
            // Into the deepest node, and out of the node where the traversal began.
            let mut t = from.depth_first_traverse();
            let mut k = 0;
            while k < n + 1 - up {
                some(t.next());
                k += 1;
            }
            let mut closed = 0;
            while t.close_current().is_some() {
                closed += 1;
            }
            check!(closed == n + 1 - up && t.next().is_none(), "the nodes that are closed one by one");
            let mut e = DftEvent::Open(root.clone());
            let mut k = 0;
            while let Some(x) = e.next() {
                e = x;
                k += 1;
            }
            check!(k == 2 * (n + 2) - 1, "the number of steps from the first event to the last");
            while let Some(x) = e.prev() {
                e = x;
                k -= 1;
            }
            check!(k == 0, "the number of steps from the last event to the first");
        }
        25 => {
            let mut s = Lines { line: 0, col: 0, n };
            let p = root.debug_pretty_print();
            let r = match choose(4) {
                0 => write!(s, "{}", p),
                1 => write!(s, "{:?}", p),
                2 => write!(s, "{:#}", p),
                _ => write!(s, "{:#?}", p),
            };
            check!(r.is_ok(), "a line of a printed tree");
            check!((s.line == n + 1 && s.col == 6) || (s.line == n + 2 && s.col == 0), "the end of a printed tree");
        }
        _ => {}
    }
    cover!("counted");
    drop((leaf, deep));
    drop(root);
    check!(live() == 0, "memory is leaked");
}

/// Adds `n` nodes below a node: a chain, leaves, or a chain with a leaf at each of its nodes.
/// Returns the last of them in the order of the tree.
fn grow(at: &HotNode<u8>, shape: usize, n: usize) -> HotNode<u8> {
    let mut x = at.clone();
    let mut i = 1;
    while i <= n {
        let y = x.create_as_last_child(i as u8);
        if shape == 0 || (shape == 2 && i & 1 == 0) || i == n {
            x = y;
        }
        i += 1;
    }
    x
}

type Shape = Vec<(usize, u8)>;

/// The depths and data of a subtree in order. Checks all links, and that the nodes are in the tree.
fn walk(x: &Node<u8>, tree: Option<&Tree<u8>>) -> Shape {
    let mut v = Vec::new();
    let mut up: Vec<Node<u8>> = Vec::new();
    let mut kids: Vec<usize> = Vec::new();
    let mut at = x.clone();
    let mut ok = true;
    loop {
        v.push((up.len(), *must(at.try_borrow_data())));
        if let Some(t) = tree {
            ok &= at.belongs_to(t);
        }
        if let Some(c) = at.first_child() {
            ok &= c.prev_sibling().is_none() && c.parent().map_or(false, |p| p.ptr_eq(&at));
            up.push(at);
            kids.push(1);
            at = c;
            continue;
        }
        ok &= at.num_children() == 0 && at.last_child().is_none();
        loop {
            let p = match up.last() {
                Some(p) => p,
                None => {
                    check!(ok, "the links between the nodes");
                    return v;
                }
            };
            if let Some(s) = at.next_sibling() {
                ok &= s.prev_sibling().map_or(false, |q| q.ptr_eq(&at)) && s.parent().map_or(false, |q| q.ptr_eq(p));
                if let Some(k) = kids.last_mut() {
                    *k += 1;
                }
                at = s;
                break;
            }
            ok &= p.last_child().map_or(false, |q| q.ptr_eq(&at)) && Some(p.num_children()) == kids.pop();
            at = some(up.pop());
        }
    }
}

/// C01-C08, C10, C11, C14, C21, C22: any number of nodes in the subtree. The second parameter
/// selects what is tried.
pub fn edits(n: usize, what: usize) {
    let n = around(n);
    let shape = choose(3);
    let root = HotNode::new_tree(0u8);
    let x = root.create_as_last_child(200);
    let z = grow(&x, shape, n);
    let s = if what == 8 || flip() { root.create_as_last_child(201) } else { root.create_as_first_child(201) };
    let first = s.next_sibling().is_some();
    let other = HotNode::new_tree(202);
    let ochild = other.create_as_last_child(203);
    let mut sub = walk(&x.plain(), None);
    check!(sub.len() == n + 1, "harness: the size of the subtree");
    // What the tree of a node consists of, with the subtree at a depth, or without it.
    let tree = |s1: &[(usize, u8)], sub: &[(usize, u8)], d: usize, s2: &[(usize, u8)]| -> Shape {
        let mut v: Shape = Vec::from(s1);
        v.extend(sub.iter().map(|(k, x)| (*k + d, *x)));
        v.extend(s2);
        v
    };
    let is = |x: &HotNode<u8>, want: Shape| check!(walk(&x.plain(), None) == want, "the nodes and their order");
    // The root with the subtree where it was.
    let all = |sub: &[(usize, u8)]| {
        if first {
            tree(&[(0, 0), (1, 201)], sub, 1, &[])
        } else {
            tree(&[(0, 0)], sub, 1, &[(1, 201)])
        }
    };
    // A node (at depth 1, the only child of its parent or the sibling of the subtree) with the subtree next to it.
    let by = |head: u8, anchor: u8, q: usize, sub: &[(usize, u8)]| match q {
        0 | 1 => tree(&[(0, head), (1, anchor)], sub, 2, &[]),
        2 => tree(&[(0, head)], sub, 1, &[(1, anchor)]),
        _ => tree(&[(0, head), (1, anchor)], sub, 1, &[]),
    };
    fn to<'a>(q: usize, x: &'a HotNode<u8>) -> InsertAs<&'a HotNode<u8>> {
        match q {
            0 => InsertAs::FirstChildOf(x),
            1 => InsertAs::LastChildOf(x),
            2 => InsertAs::PreviousSiblingOf(x),
            _ => InsertAs::NextSiblingOf(x),
        }
    }
    let gone = [(0, 0), (1, 201)];
    match what {
        1 => {
            let d = sub[n].0;
            match choose(4) {
                0 => {
                    z.create_as_first_child(99);
                    sub.push((d + 1, 99));
                }
                1 => {
                    z.create_as_last_child(99);
                    sub.push((d + 1, 99));
                }
                2 => {
                    z.create_as_prev_sibling(99);
                    sub.insert(n, (d, 99));
                }
                _ => {
                    z.create_as_next_sibling(99);
                    sub.push((d, 99));
                }
            }
            is(&root, all(&sub));
        }
        2 => {
            let want = match choose(3) {
                0 => {
                    x.create_as_interrupting_parent(99);
                    tree(&[(0, 99)], &sub, 1, &[])
                }
                1 => {
                    x.create_as_interrupting_child(99);
                    tree(&[(0, 200), (1, 99)], &sub[1..], 1, &[])
                }
                _ => {
                    z.create_as_interrupting_parent(99);
                    let (d, v) = sub[n];
                    tree(&sub[..n], &[(0, 99), (1, v)], d, &[])
                }
            };
            is(&root, all(&want));
        }
        3 => {
            x.replace_with_children();
            for e in &mut sub {
                e.0 = e.0.wrapping_sub(1);
            }
            is(&root, all(&sub[1..]));
            is(&x, Vec::from([(0, 200)]));
        }
        4 | 10 | 11 if what == 4 || flip() => {
            let old = root.tree();
            x.detach_subtree();
            if what == 11 {
                drop(x);
                // The rest of the nodes depends on one far down.
                let z = {
                    let y = z.plain();
                    drop(z);
                    y
                };
                check!(walk(&z.root(), None) == sub, "the nodes and their order");
                let a = live();
                drop(z);
                check!(live() < a, "the nodes of a tree without handles are still alive");
            } else {
                let new = if what == 10 { Some(x.tree()) } else { None };
                check!(walk(&x.plain(), new.as_ref()) == sub, "the nodes and their order");
                if let Some(t) = new {
                    check!(!t.ptr_eq(&old) && z.belongs_to(&t) && !z.belongs_to(&old), "the tree of a node");
                }
                drop(z);
            }
            is(&root, Vec::from(gone));
        }
        5 => {
            let q = choose(4);
            x.detach_insert_subtree(to(q, &s));
            is(&root, by(0, 201, q, &sub));
            is(&x, sub);
        }
        6 | 10 | 11 => {
            let q = if what == 6 { choose(4) } else { choose(2) };
            let old = root.tree();
            x.detach_insert_subtree(to(q, &ochild));
            is(&root, Vec::from(gone));
            is(&other, by(202, 203, q, &sub));
            if what == 10 {
                let t = other.tree();
                let _ = walk(&other.plain(), Some(&t));
                check!(!z.belongs_to(&old), "the tree of a node");
            }
            if what == 11 {
                // Both trees are gone but for one node far down.
                drop((x, s, root, old, ochild, other));
                let y = z.plain();
                drop(z);
                check!(walk(&y.root(), None) == by(202, 203, q, &sub), "the nodes and their order");
                drop(y);
                check!(live() < 4096, "the nodes of a tree without handles are still alive");
                cover!("counted");
                return;
            }
        }
        7 => {
            let q = choose(4);
            let r = if flip() { &x } else { &root };
            check!(r.try_detach_insert_subtree(to(q, &z)).is_err(), "a node became its own descendant");
            is(&root, all(&sub));
        }
        8 => {
            let q = choose(5);
            if q == 4 {
                let c = x.clone_subtree();
                check!(walk(&c, None) == sub && c.is_root(), "the nodes of a clone");
            } else if flip() {
                let c = x.clone_insert_subtree(to(q, &ochild));
                is(&other, by(202, 203, q, &sub));
                is(&c, sub.clone());
            } else {
                // Below its own last node.
                let d = sub[n].0 + 2;
                let c = x.clone_insert_subtree(to(q & 1, &z));
                is(&c, sub.clone());
                let both = tree(&sub, &sub, d - 1, &[]);
                check!(both.len() == 2 * n + 2, "harness: the size of the subtree");
                is(&root, all(&both));
                sub = both;
            }
            is(&root, all(&sub));
        }
        14 => {
            // Each of the nodes carries a grant.
            let mut v = Vec::with_capacity(n + 1);
            for e in x.plain().depth_first_traverse() {
                if let DftEvent::Open(y) = e {
                    v.push(must(y.bundle_new_hierarchy_edit_grant()));
                }
            }
            let (old, new) = (root.tree(), other.tree());
            drop((z, s, root));
            x.detach_insert_subtree(to(0, &ochild));
            drop((x, ochild, other));
            check!(old.prohibit_hierarchy_edit().is_ok(), "a lock was left behind");
            check!(
                new.prohibit_hierarchy_edit().is_err() && new.grant_hierarchy_edit().is_ok(),
                "a lock did not follow its node"
            );
            while v.len() > 1 {
                v.pop();
            }
            check!(new.prohibit_hierarchy_edit().is_err(), "a lock did not follow its node");
            drop(v);
            check!(new.prohibit_hierarchy_edit().is_ok(), "a lock was left behind");
            cover!("counted");
            return;
        }
        21 => {
            let c = must(x.to_events().map(must).collect::<Result<Node<u8>, _>>());
            check!(walk(&c, None) == sub, "the nodes after a round trip");
        }
        22 => {
            let c = x.clone_subtree();
            let how = choose(4);
            let mut y = c.clone();
            while let Some(k) = y.last_child() {
                y = k;
            }
            match how {
                0 => {}
                1 => *must(y.try_borrow_data_mut()) ^= 1,
                2 => drop(must(y.bundle_new_hierarchy_edit_grant()).create_as_last_child(0)),
                _ => must(y.bundle_new_hierarchy_edit_grant()).detach_subtree(),
            }
            check!((x.plain() == c) == (how == 0), "equality");
            check!((c == x.plain()) == (how == 0), "equality");
        }
        _ => {}
    }
    cover!("counted");
}

/// The nodes of a subtree in order, and for each event of its traversal whether it opens and which node.
fn events(x: &Node<u8>) -> (Vec<Node<u8>>, Vec<(bool, usize, usize)>) {
    let mut v = Vec::new();
    let mut e = Vec::new();
    let mut open: Vec<usize> = Vec::new();
    let mut at = x.clone();
    loop {
        e.push((true, v.len(), open.len()));
        open.push(v.len());
        v.push(at.clone());
        if let Some(c) = at.first_child() {
            at = c;
            continue;
        }
        loop {
            let i = some(open.pop());
            e.push((false, i, open.len()));
            if open.is_empty() {
                return (v, e);
            }
            if let Some(s) = v[i].next_sibling() {
                at = s;
                break;
            }
        }
    }
}

/// C15, C17-C20, C24: any number of items of a traversal. The second parameter selects what is tried.
pub fn items(n: usize, what: usize) {
    let n = around(n);
    let shape = choose(3);
    let top = HotNode::new_tree(0u8);
    let x = top.create_as_last_child(200);
    drop(top.create_as_last_child(201));
    drop(grow(&x, shape, n));
    let x = {
        let y = x.plain();
        drop((x, top));
        must(y.bundle_new_hierarchy_edit_prohibition())
    };
    let (v, ev) = events(&x.plain());
    let of = |e: Option<DftEvent<FrozenNode<u8>>>, w: Option<&(bool, usize, usize)>| match (e, w) {
        (Some(DftEvent::Open(y)), Some((true, i, _))) => y.plain().ptr_eq(&v[*i]),
        (Some(DftEvent::Close(y)), Some((false, i, _))) => y.plain().ptr_eq(&v[*i]),
        (None, None) => true,
        _ => false,
    };
    let mut ok = true;
    match what {
        17 => {
            // From which end the next item is taken.
            let how = choose(3);
            let end = |i: usize| how == 1 || (how == 2 && i % 3 == 1);
            if flip() {
                let mut t = x.depth_first_traverse_stable();
                let (mut a, mut b) = (0, ev.len());
                while a < b {
                    if end(a + ev.len() - b) {
                        b -= 1;
                        ok &= of(t.next_back(), ev.get(b));
                    } else {
                        ok &= of(t.next(), ev.get(a));
                        a += 1;
                    }
                }
                check!(ok && t.next().is_none() && t.next_back().is_none(), "the events of a double-ended traversal");
            } else {
                let k = x.num_children();
                let at = if shape == 1 { choose(3) } else { 0 };
                // All children, or those from or up to one of them.
                let m = some(x.children().nth(k / 2)).bundle_new_hierarchy_edit_prohibition();
                let m = must(m);
                let (mut t, mut a, mut b) = match at {
                    0 => (x.children_stable(), 0, k),
                    1 => (m.following_siblings_or_self_stable(), k / 2, k),
                    _ => (m.preceding_siblings_or_self_stable(), 0, k / 2 + 1),
                };
                let mut kids = Vec::with_capacity(k);
                let mut c = x.plain().first_child();
                while let Some(y) = c {
                    c = y.next_sibling();
                    kids.push(y);
                }
                let same = |y: Option<FrozenNode<u8>>, i: usize| y.map_or(false, |y| y.plain().ptr_eq(&kids[i]));
                let from = a;
                while a < b {
                    if end(a + k - b - from) {
                        b -= 1;
                        ok &= same(t.next_back(), b);
                    } else {
                        ok &= same(t.next(), a);
                        a += 1;
                    }
                }
                check!(ok && t.next().is_none() && t.next_back().is_none(), "the siblings of a double-ended traversal");
            }
        }
        18 => {
            let how = choose(3);
            let limit = if shape == 1 { choose(2) } else { [n / 4, n / 2, n, usize::MAX][choose(4)] };
            let want: Vec<&(bool, usize, usize)> = ev.iter().filter(|e| e.2 <= limit).collect();
            let mut t = x.shallow_depth_first_traverse_stable(Some(limit));
            let same = |e: Option<DftEvent<(FrozenNode<u8>, usize)>>, w: &(bool, usize, usize)| match e {
                Some(DftEvent::Open((y, d))) => w.0 && d == w.2 && y.plain().ptr_eq(&v[w.1]),
                Some(DftEvent::Close((y, d))) => !w.0 && d == w.2 && y.plain().ptr_eq(&v[w.1]),
                None => false,
            };
            let (mut a, mut b) = (0, want.len());
            while a < b {
                if how == 1 || (how == 2 && (a + b) % 3 == 1) {
                    b -= 1;
                    ok &= same(t.next_back(), want[b]);
                } else {
                    ok &= same(t.next(), want[a]);
                    a += 1;
                }
            }
            check!(ok && t.next().is_none() && t.next_back().is_none(), "the events of a limited traversal");
        }
        20 => {
            macro_rules! hints {
                ($t:expr, $peek:expr, $same:expr) => {{
                    let mut t = $t;
                    let mut left = t.clone().count();
                    loop {
                        let (lo, hi) = t.size_hint();
                        ok &= lo <= left && hi.map_or(true, |h| h >= left);
                        let p = $peek(&t);
                        let e = t.next();
                        ok &= match (&p, &e) {
                            (Some(p), Some(e)) => $same(p, e),
                            (p, e) => p.is_none() && e.is_none(),
                        };
                        if e.is_none() {
                            break;
                        }
                        left -= 1;
                    }
                    ok &= left == 0 && t.next().is_none();
                    check!(ok, "the size hints and peeks");
                }};
            }
            let m = x.plain();
            let deep = some(v.last());
            let eq = |a: &Node<u8>, b: &Node<u8>| a.ptr_eq(b);
            let feq = |a: &FrozenNode<u8>, b: &FrozenNode<u8>| a.ptr_eq(b);
            let eeq = |a: &DftEvent<Node<u8>>, b: &DftEvent<Node<u8>>| match (a, b) {
                (DftEvent::Open(a), DftEvent::Open(b)) | (DftEvent::Close(a), DftEvent::Close(b)) => a.ptr_eq(b),
                _ => false,
            };
            match choose(9) {
                0 => hints!(m.depth_first_traverse(), |t: &dendron::traverse::DepthFirstTraverser<u8>| t.peek().cloned(), eeq),
                1 => hints!(
                    m.depth_first_reverse_traverse(),
                    |t: &dendron::traverse::ReverseDepthFirstTraverser<u8>| t.peek().cloned(),
                    eeq
                ),
                2 => hints!(m.children(), |t: &dendron::traverse::SiblingsTraverser<u8>| t.peek().cloned(), eq),
                3 => hints!(m.children_reverse(), |t: &dendron::traverse::ReverseSiblingsTraverser<u8>| t.peek().cloned(), eq),
                4 => hints!(deep.ancestors(), |t: &dendron::traverse::AncestorsTraverser<u8>| t.peek().cloned(), eq),
                5 => hints!(
                    x.depth_first_traverse_stable(),
                    |t: &dendron::traverse::StableDepthFirstTraverser<u8>| t.peek().cloned(),
                    |a: &DftEvent<FrozenNode<u8>>, b: &DftEvent<FrozenNode<u8>>| a.as_value().ptr_eq(b.as_value())
                ),
                6 => {
                    hints!(x.children_stable(), |t: &dendron::traverse::StableSiblingsTraverser<u8>| t.peek().cloned(), feq)
                }
                7 => hints!(
                    x.shallow_depth_first_traverse_stable(Some(n - choose(2))),
                    |t: &dendron::traverse::StableShallowDepthFirstTraverser<u8>| t.peek().cloned(),
                    |a: &DftEvent<(FrozenNode<u8>, usize)>, b: &DftEvent<(FrozenNode<u8>, usize)>| {
                        a.as_value().0.ptr_eq(&b.as_value().0) && a.as_value().1 == b.as_value().1
                    }
                ),
                _ => hints!(
                    x.allocating_breadth_first_traverse_stable(choose(2)),
                    |t: &dendron::traverse::AllocatingBreadthFirstTraverser<u8>| t.peek(),
                    |a: &(FrozenNode<u8>, usize), b: &(FrozenNode<u8>, usize)| a.0.ptr_eq(&b.0) && a.1 == b.1
                ),
            }
        }
        24 => {
            // Steps to an event in the middle, and closes from there.
            let k = [1, ev.len() / 3, ev.len() / 2, ev.len() - 1][choose(4)];
            // The node that is open there: the first closing at a lesser depth than the next event's.
            let depth = if ev[k - 1].0 { ev[k - 1].2 } else { ev[k - 1].2.wrapping_sub(1) };
            let at = ev.iter().enumerate().position(|(i, e)| i >= k && !e.0 && e.2 == depth);
            let want = at.map(|i| &v[ev[i].1]);
            let next = at.and_then(|i| ev.get(i + 1));
            let same = |y: Option<Node<u8>>| match (&y, want) {
                (Some(y), Some(w)) => y.ptr_eq(w),
                (None, None) => true,
                _ => false,
            };
            match choose(3) {
                0 => {
                    let mut t = x.plain().depth_first_traverse();
                    let _ = t.nth(k - 1);
                    ok &= same(t.close_current());
                    ok &= match (t.next(), next) {
                        (Some(DftEvent::Open(y)), Some((true, i, _))) => y.ptr_eq(&v[*i]),
                        (Some(DftEvent::Close(y)), Some((false, i, _))) => y.ptr_eq(&v[*i]),
                        (None, None) => true,
                        _ => false,
                    };
                }
                1 => {
                    let mut t = x.depth_first_traverse_stable();
                    let _ = t.nth(k - 1);
                    ok &= same(t.close_current().map(|y| y.plain()));
                    ok &= of(t.next(), next);
                }
                _ => {
                    let mut t = x.shallow_depth_first_traverse_stable(None);
                    let _ = t.nth(k - 1);
                    ok &= same(t.close_current().map(|y| y.0.plain()));
                    ok &= of(t.next().map(|e| e.map(|y| y.0)), next);
                }
            }
            check!(ok, "the rest of a traversal after a closing");
        }
        15 => {
            let back = flip();
            let mut i = 0;
            let from = [0, ev.len() / 2, ev.len() - 1][choose(3)];
            let start = |i: usize| {
                let y = v[ev[i].1].clone();
                if ev[i].0 {
                    DftEvent::Open(y)
                } else {
                    DftEvent::Close(y)
                }
            };
            let same = |e: &DftEvent<Node<u8>>, w: &(bool, usize, usize)| match e {
                DftEvent::Open(y) => w.0 && y.ptr_eq(&v[w.1]),
                DftEvent::Close(y) => !w.0 && y.ptr_eq(&v[w.1]),
            };
            let m = x.plain();
            if back {
                let mut t = dendron::traverse::ReverseDepthFirstTraverser::with_next_event(m, Some(start(from)));
                while let Some(e) = t.next() {
                    ok &= i <= from && same(&e, &ev[from - i]);
                    i += 1;
                }
                ok &= i == from + 1;
            } else {
                let mut t = dendron::traverse::DepthFirstTraverser::with_next_event(m, Some(start(from)));
                while let Some(e) = t.next() {
                    ok &= ev.get(from + i).map_or(false, |w| same(&e, w));
                    i += 1;
                }
                ok &= i == ev.len() - from;
            }
            check!(ok, "the events of a traversal");
        }
        19 => {
            let from = [0, 1, n / 2][choose(3)];
            let mut want: Vec<(usize, usize)> = Vec::with_capacity(n + 1);
            let mut d = from;
            loop {
                let k = want.len();
                want.extend(ev.iter().filter(|e| e.0 && e.2 == d).map(|e| (e.1, d)));
                if want.len() == k {
                    break;
                }
                d += 1;
            }
            let mut i = 0;
            let mut step = |(y, d): (FrozenNode<u8>, usize)| {
                ok &= want.get(i).map_or(false, |w| w.1 == d && y.plain().ptr_eq(&v[w.0]));
                i += 1;
            };
            if flip() {
                x.allocating_breadth_first_traverse_stable(from).for_each(&mut step);
            } else {
                x.non_allocating_breadth_first_traverse_stable(from).for_each(&mut step);
            }
            check!(ok && i == want.len(), "the nodes of a breadth-first traversal");
        }
        _ => {}
    }
    cover!("counted");
}
