//! The reference model: an ordered forest with plain arrays, and a world that pairs it with the
//! real nodes.

use crate::sym::*;
use dendron::{HotNode, Node, Tree};

/// Capacity of a world (nodes).
pub const N: usize = 40;
pub const NONE: usize = 0xff;
/// The number of shapes of large trees.
pub const SHAPES: usize = 8;

/// An arbitrary one of `n` nodes; of very many nodes, one of the first, the middle and the last.
pub fn pick(n: usize) -> usize {
    pick_over(12, n)
}
/// The same of events.
pub fn pick_event(n: usize) -> usize {
    pick_over(26, n)
}
fn pick_over(many: usize, n: usize) -> usize {
    if n <= many {
        choose(n)
    } else {
        [0, 1, 2, n / 3, n / 2, n - 2, n - 1][choose(7)]
    }
}

#[derive(Clone, Copy)]
pub struct Model {
    pub n: usize,
    pub par: [u8; N],
    pub nk: [u8; N],
    pub kids: [[u8; N]; N],
    pub data: [u8; N],
}

impl Model {
    pub const fn new() -> Self {
        Model { n: 0, par: [0xff; N], nk: [0; N], kids: [[0xff; N]; N], data: [0; N] }
    }
    pub fn parent(&self, i: usize) -> usize {
        self.par[i] as usize
    }
    pub fn nk(&self, i: usize) -> usize {
        self.nk[i] as usize
    }
    pub fn kid(&self, i: usize, j: usize) -> usize {
        self.kids[i][j] as usize
    }
    pub fn first(&self, i: usize) -> usize {
        if self.nk[i] == 0 {
            NONE
        } else {
            self.kid(i, 0)
        }
    }
    pub fn last(&self, i: usize) -> usize {
        if self.nk[i] == 0 {
            NONE
        } else {
            self.kid(i, self.nk(i) - 1)
        }
    }
    /// Position among the siblings.
    pub fn pos(&self, i: usize) -> usize {
        let p = self.parent(i);
        if p == NONE {
            return 0;
        }
        let mut j = 0;
        while self.kid(p, j) != i {
            j += 1;
        }
        j
    }
    /// The number of siblings, including `i`.
    pub fn nsib(&self, i: usize) -> usize {
        let p = self.parent(i);
        if p == NONE {
            1
        } else {
            self.nk(p)
        }
    }
    /// The `j`-th among the siblings of `i`.
    pub fn sib(&self, i: usize, j: usize) -> usize {
        let p = self.parent(i);
        if p == NONE {
            i
        } else {
            self.kid(p, j)
        }
    }
    pub fn next(&self, i: usize) -> usize {
        let j = self.pos(i) + 1;
        if j < self.nsib(i) {
            self.sib(i, j)
        } else {
            NONE
        }
    }
    pub fn prev(&self, i: usize) -> usize {
        let j = self.pos(i);
        if j > 0 {
            self.sib(i, j - 1)
        } else {
            NONE
        }
    }
    pub fn root(&self, i: usize) -> usize {
        let mut i = i;
        while self.parent(i) != NONE {
            i = self.parent(i);
        }
        i
    }
    pub fn depth(&self, i: usize) -> usize {
        let mut i = i;
        let mut d = 0;
        while self.parent(i) != NONE {
            i = self.parent(i);
            d += 1;
        }
        d
    }
    /// Whether `a` is `b` or an ancestor of `b`.
    pub fn anc_or_self(&self, a: usize, b: usize) -> bool {
        let mut b = b;
        while b != NONE {
            if a == b {
                return true;
            }
            b = self.parent(b);
        }
        false
    }
    /// The next node of the subtree of `top` in preorder.
    pub fn pre_next(&self, top: usize, i: usize) -> usize {
        if self.nk[i] > 0 {
            return self.kid(i, 0);
        }
        let mut i = i;
        while i != top {
            let s = self.next(i);
            if s != NONE {
                return s;
            }
            i = self.parent(i);
        }
        NONE
    }
    pub fn size(&self, top: usize) -> usize {
        let mut i = top;
        let mut k = 0;
        while i != NONE {
            k += 1;
            i = self.pre_next(top, i);
        }
        k
    }
    pub fn add_node(&mut self, data: u8) -> usize {
        let i = self.n;
        self.n += 1;
        self.data[i] = data;
        i
    }
    pub fn link(&mut self, p: usize, j: usize, c: usize) {
        let mut k = self.nk(p);
        while k > j {
            self.kids[p][k] = self.kids[p][k - 1];
            k -= 1;
        }
        self.kids[p][j] = c as u8;
        self.nk[p] += 1;
        self.par[c] = p as u8;
    }
    pub fn unlink(&mut self, c: usize) {
        let p = self.parent(c);
        if p == NONE {
            return;
        }
        let mut j = self.pos(c);
        let n = self.nk(p) - 1;
        while j < n {
            self.kids[p][j] = self.kids[p][j + 1];
            j += 1;
        }
        self.nk[p] -= 1;
        self.par[c] = 0xff;
    }
    /// Where `pos` of `anchor` is: (parent, index), or NONE if the anchor is a root and a
    /// sibling is asked for. 0 = first child, 1 = last child, 2 = previous, 3 = next sibling.
    pub fn place(&self, anchor: usize, pos: usize) -> (usize, usize) {
        match pos {
            0 => (anchor, 0),
            1 => (anchor, self.nk(anchor)),
            _ => {
                let p = self.parent(anchor);
                if p == NONE {
                    (NONE, 0)
                } else {
                    (p, self.pos(anchor) + if pos == 3 { 1 } else { 0 })
                }
            }
        }
    }
}

/// Node data.
pub trait Elem: Clone {
    /// The tag of the next new element; arbitrary if tags are data.
    fn any_tag() -> u8;
    fn make(tag: u8) -> Self;
    fn tag(&self) -> u8;
}

impl Elem for u8 {
    fn any_tag() -> u8 {
        any_u8()
    }
    fn make(tag: u8) -> u8 {
        tag
    }
    fn tag(&self) -> u8 {
        *self
    }
}

pub type World = WorldOf<u8>;

/// The real nodes next to the model.
pub struct WorldOf<T> {
    pub m: Model,
    pub h: [Option<Node<T>>; N],
    /// Tree handles, and the index of the root each one is expected to have.
    pub t: [Option<Tree<T>>; 3],
    pub tr: [u8; 3],
    /// Whether one of the trees is one of the large ones.
    pub large: bool,
}

impl<T: Elem> WorldOf<T> {
    pub fn new() -> Self {
        WorldOf { m: Model::new(), h: [const { None }; N], t: [const { None }; 3], tr: [0xff; 3], large: false }
    }
    /// Keeps a tree handle of the tree with the root `r`.
    pub fn keep_tree(&mut self, slot: usize, r: usize) {
        self.t[slot] = Some(self.n(r).tree());
        self.tr[slot] = r as u8;
    }
    /// The root of a tree is now another node.
    pub fn root_changed(&mut self, from: usize, to: usize) {
        let mut i = 0;
        while i < 3 {
            if self.tr[i] as usize == from {
                self.tr[i] = to as u8;
            }
            i += 1;
        }
    }
    pub fn n(&self, i: usize) -> &Node<T> {
        match &self.h[i] {
            Some(n) => n,
            None => {
                check!(false, "harness: missing handle");
                loop {}
            }
        }
    }
    pub fn hot(&self, i: usize) -> HotNode<T> {
        match self.n(i).clone().bundle_new_hierarchy_edit_grant() {
            Ok(n) => n,
            Err(_) => {
                check!(false, "an edit grant is available when no prohibition is active");
                loop {}
            }
        }
    }
    /// Adds an arbitrary ordered tree of exactly `k` nodes with arbitrary data; returns its root.
    pub fn build(&mut self, k: usize) -> usize {
        self.build_of(k, NONE)
    }
    /// The depth of the `c`-th node (in preorder) of the large tree of `k` nodes.
    fn shape(s: usize, k: usize, c: usize) -> usize {
        match s {
            // A chain, a star.
            0 => c,
            1 => 1,
            // A chain with a leaf after, or before, each of its nodes.
            2 => {
                let h = (k + 1) / 2;
                if c < h {
                    c
                } else {
                    2 * h - c - k % 2
                }
            }
            3 => (c + 1) / 2,
            // Three-node chains side by side.
            4 => 1 + (c - 1) % 3,
            // A chain that ends in a star.
            5 => {
                if c < k / 2 {
                    c
                } else {
                    k / 2
                }
            }
            // A star with a star in it.
            6 => 1 + (c > k / 3 && c < k - k / 3) as usize,
            // Two levels of branches.
            _ => 1 + (c % 3 != 1) as usize,
        }
    }
    /// Adds a tree of `k` nodes: an arbitrary one, or the one of a large shape.
    fn build_of(&mut self, k: usize, shape: usize) -> usize {
        let d = T::any_tag();
        let r = self.m.add_node(d);
        let root = HotNode::new_tree(T::make(d));
        self.h[r] = Some(root.plain());
        let mut last = r;
        let mut c = 1;
        while c < k {
            // In preorder, the parent of the next node is the last node or one of its ancestors.
            let deep = self.m.depth(last) + 1;
            let up = if shape == NONE { choose(deep) } else { deep - Self::shape(shape, k, c) };
            let mut p = last;
            let mut j = 0;
            while j < up {
                p = self.m.parent(p);
                j += 1;
            }
            let d = T::any_tag();
            let i = self.m.add_node(d);
            let at = self.m.nk(p);
            self.m.link(p, at, i);
            let new = self.hot(p).create_as_last_child(T::make(d));
            self.h[i] = Some(new.plain());
            last = i;
            c += 1;
        }
        r
    }
    /// An arbitrary tree of 1 to `k` nodes. With `k = 100 * l + k'`, an arbitrary tree of 1 to
    /// `k'` nodes or one of the large trees of `l` nodes.
    pub fn build_upto(&mut self, k: usize) -> usize {
        let (l, k) = (k / 100, k % 100);
        let n = choose(k + if l > 0 { SHAPES } else { 0 });
        if n < k {
            self.build(n + 1)
        } else {
            self.large = true;
            self.build_of(l, n - k)
        }
    }

    fn is(&self, got: Option<Node<T>>, want: usize) -> bool {
        match got {
            None => want == NONE,
            Some(g) => want != NONE && g.ptr_eq(self.n(want)),
        }
    }
    fn is2(&self, got: Option<(Node<T>, Node<T>)>, a: usize, b: usize) -> bool {
        match got {
            None => a == NONE,
            Some((g, l)) => a != NONE && g.ptr_eq(self.n(a)) && l.ptr_eq(self.n(b)),
        }
    }

    /// Every link of every node is the one of the model.
    pub fn check_links(&self) {
        let m = &self.m;
        let mut i = 0;
        while i < m.n {
            let x = self.n(i);
            check!(self.is(x.parent(), m.parent(i)), "parent");
            check!(self.is(x.first_child(), m.first(i)), "first_child");
            check!(self.is(x.last_child(), m.last(i)), "last_child");
            check!(self.is(x.next_sibling(), m.next(i)), "next_sibling");
            check!(self.is(x.prev_sibling(), m.prev(i)), "prev_sibling");
            log(x.num_children() as u64);
            check!(x.num_children() == m.nk(i), "num_children");
            check!(x.is_root() == (m.parent(i) == NONE), "is_root");
            i += 1;
        }
    }

    /// Every derived observation of every node is the one of the model.
    pub fn check_derived(&self) {
        let m = &self.m;
        let mut i = 0;
        while i < m.n {
            let x = self.n(i);
            let nk = m.nk(i);
            let ns = m.nsib(i);
            let pos = m.pos(i);
            let fs = m.sib(i, 0);
            let ls = m.sib(i, ns - 1);
            check!(x.first_sibling().ptr_eq(self.n(fs)), "first_sibling");
            check!(x.last_sibling().ptr_eq(self.n(ls)), "last_sibling");
            check!(self.is2(Some(x.first_last_sibling()), fs, ls), "first_last_sibling");
            check!(self.is2(x.first_last_child(), m.first(i), m.last(i)), "first_last_child");
            check!(x.has_prev_sibling() == (pos > 0), "has_prev_sibling");
            check!(x.has_next_sibling() == (pos + 1 < ns), "has_next_sibling");
            check!(x.has_children() == (nk > 0), "has_children");
            check!(x.has_one_child() == (nk == 1), "has_one_child");
            check!(x.has_multiple_children() == (nk > 1), "has_multiple_children");
            check!(x.count_children() == nk, "count_children");
            check!(x.count_preceding_siblings() == pos, "count_preceding_siblings");
            check!(x.count_following_siblings() == ns - 1 - pos, "count_following_siblings");
            check!(x.count_ancestors() == m.depth(i), "count_ancestors");
            i += 1;
        }
    }

    /// The membership of every node is the one of the model.
    pub fn check_membership(&self) {
        let m = &self.m;
        let mut i = 0;
        while i < m.n {
            let x = self.n(i);
            let r = m.root(i);
            let t: Tree<T> = x.tree();
            check!(x.root().ptr_eq(self.n(r)), "root");
            check!(t.root().ptr_eq(self.n(r)), "tree().root()");
            let mut j = 0;
            while j < m.n {
                let same = m.root(j) == r;
                let y = self.n(j);
                check!(x.belongs_to_same_tree(y) == same, "belongs_to_same_tree");
                check!(y.belongs_to(&t) == same, "belongs_to");
                j += 1;
            }
            i += 1;
        }
        let mut k = 0;
        while k < 3 {
            if let Some(t) = &self.t[k] {
                let r = self.tr[k] as usize;
                check!(t.root().ptr_eq(self.n(r)), "root() of a tree handle");
                let mut j = 0;
                while j < m.n {
                    check!(self.n(j).belongs_to(t) == (m.root(j) == r), "belongs_to a tree handle");
                    j += 1;
                }
            }
            k += 1;
        }
    }

    /// No edit left a lock behind: every tree can be locked either way.
    pub fn check_unlocked(&self) {
        let mut i = 0;
        while i < self.m.n {
            if self.m.parent(i) == NONE {
                let t = self.n(i).tree();
                check!(t.prohibit_hierarchy_edit().is_ok(), "an edit grant was left behind");
                check!(t.grant_hierarchy_edit().is_ok(), "an edit prohibition was left behind");
            }
            i += 1;
        }
    }

    pub fn check_data(&self) {
        let mut i = 0;
        while i < self.m.n {
            if let Ok(d) = self.n(i).try_borrow_data() {
                log(d.tag() as u64);
            }
            check!(
                match self.n(i).try_borrow_data() {
                    Ok(d) => d.tag() == self.m.data[i],
                    Err(_) => false,
                },
                "node data"
            );
            i += 1;
        }
    }

    pub fn check_all(&self) {
        self.check_links();
        self.check_derived();
        self.check_membership();
        self.check_unlocked();
        self.check_data();
    }

    /// Drops the handles of all nodes except those of the set `keep` (a bit mask).
    pub fn release(&mut self, keep: u64) {
        let mut i = 0;
        while i < self.m.n {
            if keep & (1 << i) == 0 {
                self.h[i] = None;
            }
            i += 1;
        }
    }

    /// Whether a tree handle holds the tree of `i`.
    pub fn held(&self, i: usize) -> bool {
        let r = self.m.root(i);
        let mut k = 0;
        while k < 3 {
            if self.t[k].is_some() && self.tr[k] as usize == r {
                return true;
            }
            k += 1;
        }
        false
    }

    /// Gets the missing handles back by navigating from those that are left.
    pub fn reacquire(&mut self) {
        let mut i = 0;
        while i < self.m.n {
            if self.h[i].is_none() {
                // some kept node of the same tree
                let r = self.m.root(i);
                let mut k = 0;
                while k < self.m.n && !(self.h[k].is_some() && self.m.root(k) == r) {
                    k += 1;
                }
                let mut x = if k < self.m.n {
                    self.n(k).root()
                } else {
                    let mut j = 0;
                    while j < 3 && !(self.t[j].is_some() && self.tr[j] as usize == r) {
                        j += 1;
                    }
                    check!(j < 3, "harness: no handle of the tree is left");
                    match &self.t[j] {
                        Some(t) => t.root(),
                        None => loop {},
                    }
                };
                // the path from the root
                let mut path = [0usize; N];
                let mut d = 0;
                let mut c = i;
                while self.m.parent(c) != NONE {
                    path[d] = self.m.pos(c);
                    d += 1;
                    c = self.m.parent(c);
                }
                let mut ok = true;
                while d > 0 && ok {
                    d -= 1;
                    match x.children().nth(path[d]) {
                        Some(c) => x = c,
                        None => ok = false,
                    }
                }
                check!(ok, "a node is not reachable from the root of its tree");
                cover!("reacquired");
                self.h[i] = Some(x);
            }
            i += 1;
        }
        // Distinct nodes stay distinct.
        let mut i = 0;
        while i < self.m.n {
            let mut j = 0;
            while j < i {
                check!(!self.n(i).ptr_eq(self.n(j)), "two positions hold the same node");
                j += 1;
            }
            i += 1;
        }
    }
}
