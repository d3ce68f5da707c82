//! Lifetimes of nodes and trees, and weak references.

use crate::edit::*;
use crate::model::*;
use crate::sym::*;
use dendron::{Node, NodeWeak, Tree, TreeWeak};

const TAGS: usize = 24;

static mut NEXT: usize = 0;
/// The number of live elements with each tag.
static mut ALIVE: [u8; TAGS] = [0; TAGS];
/// Weak references to the nodes, for use while an element is dropped.
static mut WEAK: [Option<NodeWeak<Tok>>; N] = [const { None }; N];
/// While this is set, every drop of an element upgrades every weak reference.
static mut SPY: bool = false;
/// The nodes that are still alive once the current operation is done.
static mut STAY: u64 = 0;
/// The tag of the root of each of them.
static mut ROOT_TAG: [u8; N] = [0; N];

/// What panics: the `FUSE`-th call of that kind, if not 0.
static mut FUSE: [usize; 4] = [0; 4];
/// What happens then instead of a panic.
pub static mut THEN: Option<fn()> = None;
pub const CLONE: usize = 0;
pub const DROP: usize = 1;
pub const EQ: usize = 2;
pub const PRINT: usize = 3;

/// Lets the `n`-th call of the kind panic (0: none).
pub fn arm(kind: usize, n: usize) {
    unsafe { FUSE[kind] = n };
}
fn burn(kind: usize) {
    unsafe {
        if FUSE[kind] > 0 {
            FUSE[kind] -= 1;
            if FUSE[kind] == 0 {
                cover!("fired");
                match THEN {
                    Some(f) => f(),
                    None => panic!("user code panics"),
                }
            }
        }
    }
}

/// An element that counts its live instances, and whose code can panic.
pub struct Tok(u8);

impl PartialEq for Tok {
    fn eq(&self, o: &Tok) -> bool {
        burn(EQ);
        self.0 == o.0
    }
}
impl core::fmt::Debug for Tok {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        burn(PRINT);
        f.write_str("x")
    }
}
impl core::fmt::Display for Tok {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        burn(PRINT);
        f.write_str("x")
    }
}

impl Elem for Tok {
    fn any_tag() -> u8 {
        unsafe { NEXT as u8 }
    }
    fn make(tag: u8) -> Self {
        unsafe {
            NEXT += 1;
            ALIVE[tag as usize] += 1;
        }
        Tok(tag)
    }
    fn tag(&self) -> u8 {
        self.0
    }
}

impl Clone for Tok {
    fn clone(&self) -> Self {
        burn(CLONE);
        unsafe { ALIVE[self.0 as usize] += 1 };
        Tok(self.0)
    }
}

impl Drop for Tok {
    fn drop(&mut self) {
        unsafe {
            check!(ALIVE[self.0 as usize] > 0, "data is dropped twice");
            ALIVE[self.0 as usize] -= 1;
            if SPY {
                let mut j = 0;
                while j < N {
                    if let Some(wk) = &*core::ptr::addr_of!(WEAK[j]) {
                        let up = wk.upgrade();
                        let stays = STAY & bit(j) != 0;
                        check!(up.is_some() == stays, "upgrade of a weak reference while data is dropped");
                        if let Some(n) = up {
                            cover!("spied");
                            let r = n.root();
                            check!(n.tree().root().ptr_eq(&r), "the tree of a node while data is dropped");
                            check!(n.belongs_to_same_tree(&r), "the tree of the root while data is dropped");
                            check!(
                                matches!(r.try_borrow_data(), Ok(d) if d.tag() == ROOT_TAG[j]),
                                "the root of a node while data is dropped"
                            );
                        }
                    }
                    j += 1;
                }
                cover!("drop_seen");
            }
        }
        burn(DROP);
    }
}

pub type W = WorldOf<Tok>;

/// The number of live elements with the tag.
pub fn alive(tag: usize) -> usize {
    unsafe { ALIVE[tag] as usize }
}

/// Whether some handle keeps the tree of `i` alive.
pub fn tree_alive(w: &W, i: usize) -> bool {
    let r = w.m.root(i);
    let mut k = 0;
    while k < 3 {
        if w.t[k].is_some() && w.tr[k] as usize == r {
            return true;
        }
        k += 1;
    }
    let mut j = 0;
    while j < w.m.n {
        if w.h[j].is_some() && w.m.root(j) == r {
            return true;
        }
        j += 1;
    }
    false
}

/// The number of live elements of every tag is the number of its nodes in live trees.
pub fn check_alive(w: &W) {
    let mut want = [0u8; TAGS];
    let mut i = 0;
    while i < w.m.n {
        if tree_alive(w, i) {
            want[w.m.data[i] as usize] += 1;
        }
        i += 1;
    }
    let mut t = 0;
    while t < TAGS {
        unsafe {
            check!(ALIVE[t] >= want[t], "the data of a node in a live tree was dropped");
            check!(ALIVE[t] <= want[t], "the data of a node of a dead tree is still alive");
        }
        t += 1;
    }
}

/// An arbitrary edit, or none; fewer places than `any_op`.
pub fn some_op(w: &W) -> Option<Op> {
    let n = w.m.n;
    let k = choose(9);
    if k == 8 {
        return None;
    }
    let a = pick(n);
    Some(match k {
        0 => Op::Create(a, 1 + choose(2), Tok::any_tag()),
        1 => Op::Detach(a),
        2 => Op::Move(a, pick(n), 1 + choose(2)),
        3 => Op::Replace(a),
        4 => Op::IntParent(a, Tok::any_tag()),
        5 => Op::IntChild(a, Tok::any_tag()),
        6 => Op::CloneSub(a),
        _ => Op::CloneIns(a, pick(n), 1 + choose(2)),
    })
}

/// The nodes the edit needs handles of.
pub fn operands(op: Op) -> u64 {
    match op {
        Op::Create(a, ..) | Op::Detach(a) | Op::Replace(a) | Op::IntParent(a, _) | Op::IntChild(a, _) | Op::CloneSub(a) => bit(a),
        Op::Move(a, b, _) | Op::CloneIns(a, b, _) => bit(a) | bit(b),
    }
}

/// Drops one handle: `0..n` are nodes, `n..n + 3` are trees.
pub fn drop_handle(w: &mut W, i: usize) {
    if i < N {
        w.h[i] = None;
    } else {
        w.t[i - N] = None;
    }
}

fn has_handle(w: &W, i: usize) -> bool {
    if i < N {
        i < w.m.n && w.h[i].is_some()
    } else {
        w.t[i - N].is_some()
    }
}

/// Chooses one of the handles that are left, except `not`; NONE if there is none.
pub fn choose_handle(w: &W, not: usize) -> usize {
    let mut list = [0u8; N + 3];
    let mut n = 0;
    let mut i = 0;
    while i < N + 3 {
        if i != not && has_handle(w, i) {
            list[n] = i as u8;
            n += 1;
        }
        i += 1;
    }
    if n == 0 {
        NONE
    } else {
        list[pick(n)] as usize
    }
}

/// An arbitrary forest of one or two trees, with or without tree handles.
pub fn forest(k1: usize, k2: usize) -> W {
    let mut w = W::new();
    w.build_upto(k1);
    let two = k2 > 0 && flip();
    if two {
        w.build_upto(k2);
    }
    w
}

pub fn keep_roots(w: &mut W) {
    w.keep_tree(0, 0);
    let mut r = 1;
    while r < w.m.n && w.m.parent(r) != NONE {
        r += 1;
    }
    if r < w.m.n {
        w.keep_tree(1, r);
    }
}

/// Passes a handle through one of the conversions between the kinds of handles.
fn convert(n: Node<Tok>, how: usize) -> Node<Tok> {
    let hot = |n: Node<Tok>| {
        let r = n.bundle_new_hierarchy_edit_grant();
        check!(r.is_ok(), "a grant is refused");
        match r {
            Ok(h) => h,
            Err(_) => unreachable!(),
        }
    };
    let frozen = |n: Node<Tok>| {
        let r = n.bundle_new_hierarchy_edit_prohibition();
        check!(r.is_ok(), "a prohibition is refused");
        match r {
            Ok(f) => f,
            Err(_) => unreachable!(),
        }
    };
    match how {
        0 => n,
        1 => Node::from(hot(n)),
        2 => Node::from(frozen(n)),
        3 => hot(n).plain(),
        4 => frozen(n).plain(),
        5 => {
            let h = hot(n);
            let g = h.extract_hierarchy_edit_grant();
            let c = h.clone();
            drop(h);
            let p = c.plain().bundle_hierarchy_edit_grant(&g);
            drop(c);
            drop(g);
            Node::from(p)
        }
        6 => {
            let f = frozen(n);
            let g = f.extract_hierarchy_edit_prohibition();
            let c = f.clone();
            drop(f);
            let p = c.plain().bundle_hierarchy_edit_prohibition(&g);
            drop(c);
            drop(g);
            Node::from(p)
        }
        7 => {
            let u = n.downgrade().upgrade();
            check!(u.is_some(), "a weak reference to a live node");
            u.unwrap_or(n)
        }
        _ => {
            let r = n.root();
            drop(n.tree());
            drop(r.clone());
            drop(r);
            n
        }
    }
}

/// C11: data lives exactly as long as some handle of its tree.
pub fn lifetime(k1: usize, k2: usize) {
    let mut w = forest(k1, k2);
    let op = some_op(&w);
    if flip() {
        keep_roots(&mut w);
    }
    if let Some(op) = op {
        if flip() {
            w.release(operands(op));
            check_alive(&w);
        }
        step(&mut w, op, 0);
        check_alive(&w);
        cover!("edited");
    }
    // All handles but two are dropped, then those.
    let x = choose_handle(&w, NONE);
    let y = if w.large { NONE } else { choose_handle(&w, x) };
    let mut i = 0;
    while i < N + 3 {
        if i != x && i != y {
            drop_handle(&mut w, i);
        }
        i += 1;
    }
    check_alive(&w);
    if x < N {
        let how = match (&op, w.m.n > 12) {
            (_, true) => 0,
            (None, _) => choose(9),
            _ => 3 * choose(3),
        };
        if how > 0 {
            cover!("converted");
        }
        if let Some(n) = w.h[x].take() {
            w.h[x] = Some(convert(n, how));
        }
        check_alive(&w);
    }
    drop_handle(&mut w, x);
    check_alive(&w);
    if y != NONE {
        cover!("two");
        drop_handle(&mut w, y);
    }
    check_alive(&w);
    drop(w);
    check!(live() == 0, "memory is leaked");
}

/// Every weak reference upgrades exactly if its target is alive, and to its target.
fn check_weak(w: &W, nw: &[Option<NodeWeak<Tok>>; N], tw: &[Option<TreeWeak<Tok>>; 2], tr: &[u8; 2]) {
    let mut i = 0;
    while i < w.m.n {
        if let Some(x) = &nw[i] {
            let up = x.upgrade();
            check!(up.is_some() == tree_alive(w, i), "upgrade of a weak node reference");
            if let Some(n) = up {
                cover!("upgraded");
                check!(matches!(n.try_borrow_data(), Ok(d) if d.tag() == w.m.data[i]), "the data of an upgraded node");
                if let Some(h) = &w.h[i] {
                    check!(h.ptr_eq(&n), "an upgraded node is another node");
                }
            } else {
                cover!("dead");
            }
        }
        i += 1;
    }
    let mut k = 0;
    while k < 2 {
        if let Some(x) = &tw[k] {
            let up = x.upgrade();
            let r = tr[k] as usize;
            check!(up.is_some() == tree_alive(w, r), "upgrade of a weak tree reference");
            if let Some(t) = up {
                check!(matches!(t.root().try_borrow_data(), Ok(d) if d.tag() == w.m.data[r]), "the root of an upgraded tree");
            }
        }
        k += 1;
    }
}

/// C12: weak references upgrade exactly while their target is alive.
pub fn weak(k1: usize, k2: usize) {
    let mut w = forest(k1, k2);
    let mut nw: [Option<NodeWeak<Tok>>; N] = [const { None }; N];
    let mut i = 0;
    while i < w.m.n {
        nw[i] = Some(w.n(i).downgrade());
        i += 1;
    }
    keep_roots(&mut w);
    let mut tw = [w.t[0].as_ref().map(Tree::downgrade), w.t[1].as_ref().map(Tree::downgrade)];
    let op = some_op(&w);
    if let Some(op) = op {
        if flip() {
            w.t[0] = None;
            w.t[1] = None;
            w.release(operands(op));
            check_weak(&w, &nw, &tw, &[w.tr[0], w.tr[1]]);
        }
        step(&mut w, op, 0);
        cover!("edited");
    }
    // References that are clones.
    if op.is_none() {
        let mut i = 0;
        while i < w.m.n {
            nw[i] = nw[i].clone();
            i += 1;
        }
        tw = tw.clone();
        w.t[0] = w.t[0].clone();
    }
    // `tr` follows the roots of the trees even without the handles.
    let tr = [w.tr[0], w.tr[1]];
    check_weak(&w, &nw, &tw, &tr);
    let x = choose_handle(&w, NONE);
    let mut i = 0;
    while i < N + 3 {
        if i != x {
            drop_handle(&mut w, i);
        }
        i += 1;
    }
    check_weak(&w, &nw, &tw, &tr);
    // An upgraded reference keeps the tree alive.
    let mut up: Option<Node<Tok>> = None;
    let mut i = 0;
    while i < w.m.n && up.is_none() {
        if let Some(x) = &nw[i] {
            up = x.upgrade();
        }
        i += 1;
    }
    if let Some(n) = up {
        i -= 1;
        drop_handle(&mut w, x);
        w.h[i] = Some(n);
        check_weak(&w, &nw, &tw, &tr);
        check_alive(&w);
        w.h[i] = None;
    } else {
        drop_handle(&mut w, x);
    }
    check_weak(&w, &nw, &tw, &tr);
    check_alive(&w);
    let mut i = 0;
    while i < N {
        nw[i] = None;
        i += 1;
    }
    tw = [None, None];
    drop(tw);
    drop(nw);
    drop(w);
    check!(live() == 0, "memory is leaked");
}

/// Sets what a dropped element must find.
fn expect_stay(w: &W) {
    unsafe {
        STAY = 0;
        let mut i = 0;
        while i < w.m.n {
            if tree_alive(w, i) {
                STAY |= bit(i);
                ROOT_TAG[i] = w.m.data[w.m.root(i)];
            }
            i += 1;
        }
    }
}

/// C12: weak references can be used while data is being dropped, also in the middle of an edit.
pub fn reentrant(k1: usize, k2: usize) {
    let mut w = forest(k1, k2);
    let mut i = 0;
    while i < w.m.n {
        unsafe { WEAK[i] = Some(w.n(i).downgrade()) };
        i += 1;
    }
    let n = w.m.n;
    let a = pick(n);
    let op = match choose(4) {
        0 => Some(Op::Detach(a)),
        1 => Some(Op::Move(a, pick(n), choose(4))),
        2 => Some(Op::Replace(a)),
        _ => None,
    };
    if let Some(op) = op {
        // The operands only: what is left behind dies during the edit.
        unsafe { SPY = false };
        w.release(operands(op));
        let saved = w.m;
        let tr = w.tr;
        // The trees of the released nodes are dead already.
        let want = spec(&mut w, op);
        if want == Want::Done {
            expect_stay(&w);
        }
        w.m = saved;
        w.tr = tr;
        if want != Want::Done {
            expect_stay(&w);
        }
        unsafe { SPY = true };
        step(&mut w, op, choose(2));
        cover!("edited");
    }
    // The remaining handles, one by one in either order.
    let up = flip();
    let mut i = 0;
    while i < N {
        let j = if up { i } else { N - 1 - i };
        if w.h[j].is_some() {
            let h = w.h[j].take();
            expect_stay(&w);
            unsafe { SPY = true };
            drop(h);
        }
        i += 1;
    }
    unsafe {
        SPY = false;
        let mut i = 0;
        while i < N {
            WEAK[i] = None;
            i += 1;
        }
    }
    check_alive(&w);
    drop(w);
    check!(live() == 0, "memory is leaked");
}
