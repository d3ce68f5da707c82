//! Structural edits: one arbitrary edit of an arbitrary forest, and histories of edits.

use crate::model::*;
use crate::sym::*;
use dendron::{AdoptAs, HierarchyError, HotNode, InsertAs, Node};

pub fn adopt(pos: usize) -> AdoptAs {
    match pos {
        0 => AdoptAs::FirstChild,
        1 => AdoptAs::LastChild,
        2 => AdoptAs::PreviousSibling,
        _ => AdoptAs::NextSibling,
    }
}

pub fn dest<T>(h: &HotNode<T>, pos: usize) -> InsertAs<&HotNode<T>> {
    match pos {
        0 => InsertAs::FirstChildOf(h),
        1 => InsertAs::LastChildOf(h),
        2 => InsertAs::PreviousSiblingOf(h),
        _ => InsertAs::NextSiblingOf(h),
    }
}

#[derive(Clone, Copy)]
pub enum Op {
    Create(usize, usize, u8),
    Detach(usize),
    Move(usize, usize, usize),
    Replace(usize),
    IntParent(usize, u8),
    IntChild(usize, u8),
    CloneIns(usize, usize, usize),
    CloneSub(usize),
}

pub const LOOP: u32 = 1;
pub const EMPTY: u32 = 2;
pub const NOPARENT: u32 = 4;
pub const BORROW: u32 = 8;

/// What an edit has to do.
#[derive(Clone, Copy, PartialEq)]
pub enum Want {
    Done,
    /// Rejected, with one of these errors.
    Err(u32),
    /// The node is asked to move next to itself: nothing changes.
    Stay,
}

pub fn kind(e: HierarchyError) -> u32 {
    match e {
        HierarchyError::AncestorDescendantLoop => LOOP,
        HierarchyError::EmptyTree => EMPTY,
        HierarchyError::SiblingsWithoutParent => NOPARENT,
        HierarchyError::BorrowNodeData(_) => BORROW,
        _ => 0,
    }
}

/// The specification of every edit on the model: the outcome, and (when it succeeds) the effect.
/// New nodes get the next free indices, in preorder.
pub fn spec<T: Elem>(w: &mut WorldOf<T>, op: Op) -> Want {
    let m = &mut w.m;
    match op {
        Op::Create(a, pos, d) => {
            let (p, at) = m.place(a, pos);
            if p == NONE {
                return Want::Err(NOPARENT);
            }
            let i = m.add_node(d);
            m.link(p, at, i);
        }
        Op::Detach(a) => m.unlink(a),
        Op::Move(a, b, pos) => {
            if pos >= 2 && a == b {
                return if m.parent(a) == NONE { Want::Err(NOPARENT | LOOP) } else { Want::Stay };
            }
            let (p, _) = m.place(b, pos);
            if p == NONE {
                return Want::Err(if m.parent(a) == NONE && m.root(b) != a {
                    NOPARENT | EMPTY
                } else if m.anc_or_self(a, b) {
                    NOPARENT | LOOP
                } else {
                    NOPARENT
                });
            }
            if m.anc_or_self(a, p) {
                return Want::Err(LOOP);
            }
            if m.parent(a) == NONE {
                // The root of another tree: its tree would be left without nodes.
                return Want::Err(EMPTY);
            }
            m.unlink(a);
            let (p, at) = m.place(b, pos);
            m.link(p, at, a);
        }
        Op::Replace(a) => {
            let p = m.parent(a);
            if p == NONE {
                if m.nk(a) == 0 {
                    return Want::Err(EMPTY);
                }
                if m.nk(a) > 1 {
                    return Want::Err(NOPARENT);
                }
                let c = m.kid(a, 0);
                m.unlink(c);
                w.root_changed(a, c);
            } else {
                let mut at = m.pos(a);
                m.unlink(a);
                while m.nk(a) > 0 {
                    let c = m.kid(a, 0);
                    m.unlink(c);
                    m.link(p, at, c);
                    at += 1;
                }
            }
        }
        Op::IntParent(a, d) => {
            let i = m.add_node(d);
            let p = m.parent(a);
            if p == NONE {
                m.link(i, 0, a);
                w.root_changed(a, i);
            } else {
                let at = m.pos(a);
                m.unlink(a);
                m.link(i, 0, a);
                m.link(p, at, i);
            }
        }
        Op::IntChild(a, d) => {
            let i = m.add_node(d);
            while m.nk(a) > 0 {
                let c = m.kid(a, 0);
                m.unlink(c);
                let at = m.nk(i);
                m.link(i, at, c);
            }
            m.link(a, 0, i);
        }
        Op::CloneIns(a, b, pos) => {
            let (p, at) = m.place(b, pos);
            if p == NONE {
                return Want::Err(NOPARENT);
            }
            let i = clone_model(m, a);
            m.link(p, at, i);
        }
        Op::CloneSub(a) => {
            clone_model(m, a);
        }
    }
    Want::Done
}

/// Adds a copy of the subtree of `a` as a tree of its own; returns its root.
pub fn clone_model(m: &mut Model, a: usize) -> usize {
    let base = m.n;
    let mut map = [0u8; N];
    let mut i = a;
    while i != NONE {
        let c = m.add_node(m.data[i]);
        map[i] = c as u8;
        i = m.pre_next(a, i);
    }
    let mut i = a;
    while i != NONE {
        let mut j = 0;
        while j < m.nk(i) {
            m.link(map[i] as usize, j, map[m.kid(i, j)] as usize);
            j += 1;
        }
        i = m.pre_next(a, i);
    }
    base
}

/// Performs the edit on the real nodes, through one of the four API flavours: `HotNode` or
/// `Node` with a grant, fallible or panicking.
pub fn real<T: Elem>(w: &WorldOf<T>, op: Op, api: usize) -> Result<Option<Node<T>>, u32> {
    let hot = api & 1 == 0;
    let strict = api & 2 != 0;
    let r = match op {
        Op::Create(a, pos, d) => {
            if hot {
                let x = w.hot(a);
                if strict {
                    Ok(Some(x.create_node_as(T::make(d), adopt(pos)).plain()))
                } else {
                    x.try_create_node_as(T::make(d), adopt(pos)).map(|x| Some(x.plain()))
                }
            } else {
                let x = w.n(a);
                let g = grant(w, a);
                if strict {
                    Ok(Some(x.create_node_as(&g, T::make(d), adopt(pos))))
                } else {
                    x.try_create_node_as(&g, T::make(d), adopt(pos)).map(Some)
                }
            }
        }
        Op::Detach(a) => {
            if hot {
                w.hot(a).detach_subtree();
            } else {
                w.n(a).detach_subtree(&grant(w, a));
            }
            Ok(None)
        }
        Op::Move(a, b, pos) => {
            let anchor = w.hot(b);
            let to = dest(&anchor, pos);
            if hot {
                let x = w.hot(a);
                if strict {
                    x.detach_insert_subtree(to);
                    Ok(None)
                } else {
                    x.try_detach_insert_subtree(to).map(|_| None)
                }
            } else {
                let g = grant(w, a);
                if strict {
                    w.n(a).detach_insert_subtree(&g, to);
                    Ok(None)
                } else {
                    w.n(a).try_detach_insert_subtree(&g, to).map(|_| None)
                }
            }
        }
        Op::Replace(a) => {
            if hot {
                let x = w.hot(a);
                if strict {
                    x.replace_with_children();
                    Ok(None)
                } else {
                    x.try_replace_with_children().map(|_| None)
                }
            } else {
                let g = grant(w, a);
                if strict {
                    w.n(a).replace_with_children(&g);
                    Ok(None)
                } else {
                    w.n(a).try_replace_with_children(&g).map(|_| None)
                }
            }
        }
        Op::IntParent(a, d) => Ok(Some(if hot {
            w.hot(a).create_as_interrupting_parent(T::make(d)).plain()
        } else {
            w.n(a).create_as_interrupting_parent(&grant(w, a), T::make(d))
        })),
        Op::IntChild(a, d) => Ok(Some(if hot {
            w.hot(a).create_as_interrupting_child(T::make(d)).plain()
        } else {
            w.n(a).create_as_interrupting_child(&grant(w, a), T::make(d))
        })),
        Op::CloneIns(a, b, pos) => {
            let anchor = w.hot(b);
            let to = dest(&anchor, pos);
            if hot {
                let x = w.hot(a);
                if strict {
                    Ok(Some(x.clone_insert_subtree(to).plain()))
                } else {
                    x.try_clone_insert_subtree(to).map(|x| Some(x.plain()))
                }
            } else if !strict && !w.n(a).belongs_to_same_tree(w.n(b)) && flip() {
                // Only the destination is locked for edits.
                let x = w.frozen(a);
                x.try_clone_insert_subtree(to).map(|x| Some(x.plain()))
            } else if strict {
                // The same place, said in another way.
                let to = to.as_ref().map(|x| *x);
                Ok(Some(w.n(a).clone_insert_subtree(to).plain()))
            } else {
                w.n(a).try_clone_insert_subtree(to).map(|x| Some(x.plain()))
            }
        }
        Op::CloneSub(a) => {
            let x = if hot {
                let x = w.hot(a);
                if strict {
                    Ok(x.clone_subtree())
                } else {
                    x.try_clone_subtree()
                }
            } else if flip() {
                let x = w.frozen(a);
                if strict {
                    Ok(x.clone_subtree())
                } else {
                    x.try_clone_subtree()
                }
            } else if strict {
                Ok(w.n(a).clone_subtree())
            } else {
                w.n(a).try_clone_subtree()
            };
            match x {
                Ok(n) => Ok(Some(n)),
                Err(_) => return Err(BORROW),
            }
        }
    };
    r.map_err(kind)
}

pub fn grant<T: Elem>(w: &WorldOf<T>, a: usize) -> dendron::HierarchyEditGrant<T> {
    match w.n(a).tree().grant_hierarchy_edit() {
        Ok(g) => g,
        Err(_) => {
            check!(false, "an edit grant is available when no prohibition is active");
            loop {}
        }
    }
}

/// Performs `op` in the model and for real, and compares the outcomes. Returns the node the edit
/// created, by index.
pub fn step<T: Elem>(w: &mut WorldOf<T>, op: Op, api: usize) -> Want {
    let old = w.m.n;
    let saved = w.m;
    let want = spec(w, op);
    // The real edit sees the forest before the edit: `hot`/`n` use handles only.
    let strict = api & 2 != 0 && !matches!(op, Op::Detach(_) | Op::IntParent(..) | Op::IntChild(..));
    if want == Want::Stay && strict {
        // Left open: the panicking flavour may panic here.
        assume(false);
    }
    let must_panic = strict && matches!(want, Want::Err(_));
    if must_panic {
        cover!("must_panic");
    }
    let Some(got) = panics(must_panic, || real(w, op, api)) else {
        // As if it had returned an error.
        w.m = saved;
        cover!("rejected");
        return want;
    };
    match (want, got) {
        (Want::Done, Ok(new)) => {
            cover!("done");
            check!(new.is_some() == (w.m.n > old), "whether a node is returned");
            if let Some(n) = new {
                w.h[old] = Some(n);
            }
        }
        (Want::Done, Err(_)) => check!(false, "a valid edit was rejected"),
        (Want::Err(k), Err(e)) => {
            cover!("rejected");
            check!(k & e != 0, "the kind of the error");
            w.m = saved;
        }
        (Want::Err(_), Ok(_)) => check!(false, "an invalid edit was accepted"),
        (Want::Stay, _) => {
            cover!("stay");
            w.m = saved;
        }
    }
    want
}

/// How much of the forest is kept alive by handles during an edit.
/// 0: every node and the trees; 1: the nodes in `need` and the trees; 2: the nodes in `need`.
pub fn handles<T: Elem>(w: &mut WorldOf<T>, need: u64) {
    match choose(3) {
        0 => {
            w.keep_tree(0, 0);
            let mut r = 1;
            while r < w.m.n && w.m.parent(r) != NONE {
                r += 1;
            }
            if r < w.m.n {
                w.keep_tree(1, r);
            }
        }
        1 => {
            w.keep_tree(0, 0);
            let mut r = 1;
            while r < w.m.n && w.m.parent(r) != NONE {
                r += 1;
            }
            if r < w.m.n {
                w.keep_tree(1, r);
            }
            w.release(need);
        }
        _ => {
            w.release(need);
        }
    }
}

/// Bits of the nodes in the tree of `i`.
pub fn bit(i: usize) -> u64 {
    1 << i
}

fn finish(mut w: World) {
    w.reacquire();
    w.check_all();
    drop(w);
    check!(live() == 0, "memory is leaked");
}

/// C01: creation puts exactly one new node at the stated place.
pub fn create(k: usize) {
    let mut w = World::new();
    w.build_upto(k);
    let a = pick(w.m.n);
    let pos = choose(4);
    let d = any_u8();
    handles(&mut w, bit(a));
    step(&mut w, Op::Create(a, pos, d), choose(4));
    finish(w);
}

/// C01: every creation method, against the same specification.
pub fn create_api(k: usize) {
    let mut w = World::new();
    w.build_upto(k);
    let a = pick(w.m.n);
    let d = any_u8();
    let which = choose(8);
    let hot = flip();
    let pos = match which {
        0 => 0,
        1 => 1,
        2 | 3 => 2,
        4 | 5 => 3,
        6 => 0,
        _ => 1,
    };
    w.keep_tree(0, 0);
    let saved = w.m;
    let want = spec(&mut w, Op::Create(a, pos, d));
    let strict = which == 3 || which == 5;
    let got = panics(strict && want != Want::Done, || {
        if hot {
            let x = w.hot(a);
            match which {
                0 | 6 => Ok(x.create_as_first_child(d)),
                1 | 7 => Ok(x.create_as_last_child(d)),
                2 => x.try_create_as_prev_sibling(d),
                3 => Ok(x.create_as_prev_sibling(d)),
                4 => x.try_create_as_next_sibling(d),
                _ => Ok(x.create_as_next_sibling(d)),
            }
            .map(|x| x.plain())
        } else {
            let x = w.n(a);
            let g = grant(&w, a);
            match which {
                0 | 6 => Ok(x.create_as_first_child(&g, d)),
                1 | 7 => Ok(x.create_as_last_child(&g, d)),
                2 => x.try_create_as_prev_sibling(&g, d),
                3 => Ok(x.create_as_prev_sibling(&g, d)),
                4 => x.try_create_as_next_sibling(&g, d),
                _ => Ok(x.create_as_next_sibling(&g, d)),
            }
        }
    });
    let Some(got) = got else {
        cover!("rejected");
        w.m = saved;
        w.check_all();
        return;
    };
    match got {
        Ok(n) => {
            check!(want == Want::Done, "a sibling of a root was created");
            cover!("done");
            let i = w.m.n - 1;
            w.h[i] = Some(n);
        }
        Err(e) => {
            check!(want != Want::Done, "a valid creation was rejected");
            check!(kind(e) == NOPARENT, "the kind of the error");
            cover!("rejected");
            w.m = saved;
        }
    }
    w.check_all();
}

/// C02: interrupting parent / child.
pub fn interrupt(k: usize) {
    let mut w = World::new();
    w.build_upto(k);
    let a = pick(w.m.n);
    let d = any_u8();
    handles(&mut w, bit(a));
    let op = if flip() { Op::IntParent(a, d) } else { Op::IntChild(a, d) };
    step(&mut w, op, choose(2));
    finish(w);
}

/// C03: replacement of a node by its children.
pub fn replace(k: usize) {
    let mut w = World::new();
    w.build_upto(k);
    let a = pick(w.m.n);
    let p = w.m.parent(a);
    let keep = if p != NONE { bit(a) | bit(p) } else { bit(a) | if w.m.nk(a) > 0 { bit(w.m.kid(a, 0)) } else { 0 } };
    handles(&mut w, keep);
    step(&mut w, Op::Replace(a), choose(4));
    finish(w);
}

/// C04: detaching a subtree.
pub fn detach(k: usize) {
    let mut w = World::new();
    w.build_upto(k);
    let a = pick(w.m.n);
    let p = w.m.parent(a);
    let keep = if p != NONE { bit(a) | bit(p) } else { bit(a) };
    handles(&mut w, keep);
    step(&mut w, Op::Detach(a), choose(2));
    finish(w);
}

/// C05: moving within a tree.
pub fn move_same(k: usize) {
    let mut w = World::new();
    w.build_upto(k);
    let a = pick(w.m.n);
    let b = pick(w.m.n);
    let pos = choose(4);
    handles(&mut w, bit(a) | bit(b));
    let api = if w.m.n > 12 { 0 } else { choose(4) };
    step(&mut w, Op::Move(a, b, pos), api);
    finish(w);
}

/// C06: moving to another tree.
pub fn move_other(k1: usize, k2: usize) {
    let mut w = World::new();
    w.build_upto(k1);
    let n1 = w.m.n;
    w.build_upto(k2);
    let a = pick(n1);
    let b = n1 + pick(w.m.n - n1);
    let pos = choose(4);
    // Something has to keep each tree alive, before and after.
    let p = w.m.parent(a);
    let keep = bit(a) | bit(b) | if p != NONE { bit(p) } else { 0 };
    handles(&mut w, keep);
    let api = if w.m.n > 12 { 0 } else { choose(4) };
    step(&mut w, Op::Move(a, b, pos), api);
    finish(w);
}

/// C08: cloning a subtree.
pub fn clone_sub(k: usize) {
    let mut w = World::new();
    w.build_upto(k);
    let a = pick(w.m.n);
    handles(&mut w, bit(a));
    step(&mut w, Op::CloneSub(a), choose(4));
    finish(w);
}

/// C08: cloning a subtree into the same tree.
pub fn clone_ins_same(k: usize) {
    let mut w = World::new();
    w.build_upto(k);
    let a = pick(w.m.n);
    let b = pick(w.m.n);
    let pos = choose(4);
    handles(&mut w, bit(a) | bit(b));
    let api = if w.m.n > 12 { 0 } else { choose(4) };
    step(&mut w, Op::CloneIns(a, b, pos), api);
    finish(w);
}

/// C08: cloning a subtree into another tree.
pub fn clone_ins_other(k1: usize, k2: usize) {
    let mut w = World::new();
    w.build_upto(k1);
    let n1 = w.m.n;
    w.build_upto(k2);
    let a = pick(n1);
    let b = n1 + pick(w.m.n - n1);
    let pos = choose(4);
    handles(&mut w, bit(a) | bit(b));
    let api = if w.m.n > 12 { 0 } else { choose(4) };
    step(&mut w, Op::CloneIns(a, b, pos), api);
    finish(w);
}

/// An arbitrary edit with arbitrary operands.
pub fn any_op(w: &World) -> Op {
    let n = w.m.n;
    let k = choose(7);
    let a = pick(n);
    match k {
        0 => Op::Create(a, choose(4), any_u8()),
        1 => Op::Detach(a),
        2 => Op::Move(a, pick(n), choose(4)),
        3 => Op::Replace(a),
        4 => Op::IntParent(a, any_u8()),
        5 => Op::IntChild(a, any_u8()),
        _ => Op::CloneIns(a, pick(n), choose(4)),
    }
}

/// An arbitrary edit of the nodes in `set`; in a large forest, of the first, middle and last one.
pub fn edit_of<T: Elem>(m: &Model, set: u64, large: bool) -> Op {
    let mut list = [0u8; N];
    let mut n = 0;
    let mut i = 0;
    while i < m.n {
        if set & bit(i) != 0 {
            list[n] = i as u8;
            n += 1;
        }
        i += 1;
    }
    let any = || list[if large { [0, n / 2, n - 1][choose(3)] } else { choose(n) }] as usize;
    let place = || if large { 1 } else { choose(4) };
    let a = any();
    match choose(7) {
        0 => Op::Create(a, place(), T::any_tag()),
        1 => Op::Detach(a),
        2 => Op::Move(a, any(), place()),
        3 => Op::Replace(a),
        4 => Op::IntParent(a, T::any_tag()),
        5 => Op::IntChild(a, T::any_tag()),
        _ => Op::CloneIns(a, any(), if large { 1 } else { choose(2) }),
    }
}

/// C07: an edit that is not possible is refused with its error, and changes nothing.
pub fn rejected(k1: usize, k2: usize) {
    let mut w = World::new();
    w.build_upto(k1);
    if k2 > 0 {
        w.build_upto(k2);
    }
    let n = w.m.n;
    let a = pick(n);
    let op = match choose(4) {
        0 => Op::Create(a, choose(4), any_u8()),
        1 => Op::Move(a, pick(n), choose(4)),
        2 => Op::Replace(a),
        _ => Op::CloneIns(a, pick(n), choose(4)),
    };
    let (saved, tr) = (w.m, w.tr);
    let want = spec(&mut w, op);
    w.m = saved;
    w.tr = tr;
    if want == Want::Done {
        return;
    }
    w.keep_tree(0, 0);
    if k2 > 0 {
        w.keep_tree(1, n - 1);
        w.tr[1] = w.m.root(n - 1) as u8;
    }
    let api = if w.m.n > 12 { choose(2) } else { choose(4) };
    step(&mut w, op, api);
    finish(w);
}

/// Drops the handles of some nodes the edit does not need; a node without a handle holds its
/// membership in another way than one with a handle, and the edit has to update it as well.
/// Every tree stays alive.
fn release_some(w: &mut World, op: Op, any: bool) {
    let mut keep = match op {
        Op::Move(a, b, _) | Op::CloneIns(a, b, _) => bit(a) | bit(b),
        // The child takes over the tree.
        Op::Replace(a) if w.m.nk(a) > 0 => bit(a) | if w.held(a) { 0 } else { bit(w.m.kid(a, 0)) },
        Op::Create(a, ..) | Op::Detach(a) | Op::Replace(a) | Op::IntParent(a, _) | Op::IntChild(a, _) | Op::CloneSub(a) => bit(a),
    };
    let mut i = 0;
    while i < w.m.n {
        if w.m.parent(i) == NONE && !w.held(i) {
            keep |= bit(i);
        }
        i += 1;
    }
    if any && w.large {
        // None, all, or one more.
        let x = if w.m.n > 12 { w.m.n * choose(2) + 1 } else { choose(w.m.n + 2) };
        if x == w.m.n + 1 {
            return;
        }
        keep |= if x < w.m.n { bit(x) } else { 0 };
    } else if any {
        let mut i = 0;
        while i < w.m.n {
            if keep & bit(i) == 0 && flip() {
                keep |= bit(i);
            }
            i += 1;
        }
    } else if flip() {
        return;
    }
    w.release(keep);
}

/// C10: after any history of edits every node belongs to the tree of its root, and every tree
/// handle to the tree of its own.
pub fn membership(k1: usize, k2: usize, len: usize) {
    let mut w = World::new();
    w.build_upto(k1);
    w.keep_tree(0, 0);
    if k2 > 0 {
        let r = w.m.n;
        w.build_upto(k2);
        w.keep_tree(1, r);
    }
    let mut i = 0;
    while i < len {
        let op = any_op(&w);
        if let Op::CloneIns(a, _, _) = op {
            assume(w.m.n + w.m.size(a) <= N);
        }
        release_some(&mut w, op, len == 1);
        step(&mut w, op, i & 1);
        w.reacquire();
        w.check_membership();
        i += 1;
    }
    w.check_unlocked();
    finish(w);
}

/// C09: after any history of edits the links are those of the model.
pub fn history(k: usize, len: usize) {
    let mut w = World::new();
    w.build_upto(k);
    let mut i = 0;
    while i < len {
        let op = any_op(&w);
        if let Op::CloneIns(a, _, _) = op {
            assume(w.m.n + w.m.size(a) <= N);
        }
        step(&mut w, op, 0);
        w.reacquire();
        w.check_links();
        i += 1;
    }
    w.check_all();
}
