//! Node data: borrows, structural equality, and clones of borrowed data.

use crate::edit::*;
use crate::model::*;
use crate::sym::*;
use core::cell::{Ref, RefMut};
use dendron::{FrozenNode, HotNode, Node};

enum Any<T> {
    Plain(Node<T>),
    Hot(HotNode<T>),
    Frozen(FrozenNode<T>),
}

fn flavour<T: Elem>(w: &WorldOf<T>, a: usize, f: usize) -> Any<T> {
    match f {
        0 => Any::Plain(w.n(a).clone()),
        1 => Any::Hot(w.hot(a)),
        _ => Any::Frozen(w.frozen(a)),
    }
}

impl<T> Any<T> {
    fn get(&self) -> Option<Ref<'_, T>> {
        match self {
            Any::Plain(x) => x.try_borrow_data().ok(),
            Any::Hot(x) => x.try_borrow_data().ok(),
            Any::Frozen(x) => x.try_borrow_data().ok(),
        }
    }
    fn get_mut(&self) -> Option<RefMut<'_, T>> {
        match self {
            Any::Plain(x) => x.try_borrow_data_mut().ok(),
            Any::Hot(x) => x.try_borrow_data_mut().ok(),
            Any::Frozen(x) => x.try_borrow_data_mut().ok(),
        }
    }
    fn strict(&self) -> Ref<'_, T> {
        match self {
            Any::Plain(x) => x.borrow_data(),
            Any::Hot(x) => x.borrow_data(),
            Any::Frozen(x) => x.borrow_data(),
        }
    }
    fn strict_mut(&self) -> RefMut<'_, T> {
        match self {
            Any::Plain(x) => x.borrow_data_mut(),
            Any::Hot(x) => x.borrow_data_mut(),
            Any::Frozen(x) => x.borrow_data_mut(),
        }
    }
}

/// C23: a borrow of the data of one node restricts that node only, through every handle type.
pub fn borrows(k: usize) {
    let mut w = World::new();
    w.build_upto(k);
    let b = pick(w.m.n);
    let f = choose(3);
    let x = flavour(&w, b, f);
    let excl = flip();
    let new = any_u8();
    let mut shared = None;
    let mut unique = None;
    if excl {
        unique = x.get_mut();
        check!(unique.is_some(), "data cannot be borrowed exclusively");
        if let Some(g) = &mut unique {
            check!(**g == w.m.data[b], "the borrowed data");
            **g = new;
            w.m.data[b] = new;
        }
    } else {
        shared = x.get();
        check!(matches!(&shared, Some(g) if **g == w.m.data[b]), "the borrowed data");
    }
    // Every node, through a handle of a compatible type.
    let f2 = choose(3);
    assume(!(f == 1 && f2 == 2) && !(f == 2 && f2 == 1));
    let mut i = 0;
    while i < w.m.n {
        let y = flavour(&w, i, f2);
        let free = i != b;
        check!(y.get_mut().is_some() == free, "whether data can be borrowed exclusively");
        match y.get() {
            Some(d) => {
                check!(free || !excl, "data is shared while it is borrowed exclusively");
                check!(*d == w.m.data[i], "the data of a node");
            }
            None => check!(!free && excl, "data cannot be shared"),
        }
        i += 1;
    }
    // The panicking flavours.
    let c = pick(w.m.n);
    let y = flavour(&w, c, f2);
    if flip() {
        if let Some(d) = panics(c == b && excl, || y.strict()) {
            check!(*d == w.m.data[c], "the data of a node");
        }
        cover!("shared");
    } else {
        if let Some(mut d) = panics(c == b, || y.strict_mut()) {
            let v = any_u8();
            *d = v;
            w.m.data[c] = v;
        }
        cover!("exclusive");
    }
    drop(y);
    // Links are not affected by borrows of data.
    w.check_links();
    drop(shared);
    drop(unique);
    drop(x);
    w.check_all();
}

/// C23: edits of the hierarchy neither need nor disturb borrows of data.
pub fn edit_while_borrowed(k1: usize, k2: usize) {
    let mut w = World::new();
    w.build_upto(k1);
    if k2 > 0 {
        w.build_upto(k2);
    }
    let b = pick(w.m.n);
    let x = w.n(b).clone();
    let excl = flip();
    let mut shared = None;
    let mut unique = None;
    if excl {
        unique = x.try_borrow_data_mut().ok();
    } else {
        shared = x.try_borrow_data().ok();
    }
    check!(shared.is_some() || unique.is_some(), "data cannot be borrowed");
    let n = w.m.n;
    let a = pick(n);
    let op = match choose(6) {
        0 => Op::Create(a, choose(4), any_u8()),
        1 => Op::Detach(a),
        2 => Op::Move(a, pick(n), choose(4)),
        3 => Op::Replace(a),
        4 => Op::IntParent(a, any_u8()),
        _ => Op::IntChild(a, any_u8()),
    };
    step(&mut w, op, choose(2));
    w.check_links();
    check!(x.try_borrow_data_mut().is_err(), "an edit released a borrow");
    check!(x.try_borrow_data().is_ok() != excl, "an edit changed a borrow");
    if let Some(g) = &mut unique {
        check!(**g == w.m.data[b], "an edit changed borrowed data");
        let v = any_u8();
        **g = v;
        w.m.data[b] = v;
    }
    if let Some(g) = &shared {
        check!(**g == w.m.data[b], "an edit changed borrowed data");
    }
    drop(shared);
    drop(unique);
    drop(x);
    w.check_all();
}

/// C08: a clone fails exactly if data of the subtree is borrowed exclusively; then nothing changes.
pub fn clone_borrowed(k1: usize, k2: usize) {
    let mut w = World::new();
    w.build_upto(k1);
    let n1 = w.m.n;
    if k2 > 0 {
        w.build_upto(k2);
    }
    let b = pick(w.m.n);
    let x = w.n(b).clone();
    let excl = flip();
    let mut shared = None;
    let mut unique = None;
    if excl {
        unique = x.try_borrow_data_mut().ok();
    } else {
        shared = x.try_borrow_data().ok();
    }
    check!(shared.is_some() || unique.is_some(), "data cannot be borrowed");
    let a = pick(n1);
    let fails = excl && w.m.anc_or_self(a, b);
    let insert = flip();
    let c = if !insert {
        0
    } else if w.large {
        [0, n1 / 2, w.m.n - 1][choose(3)]
    } else {
        pick(w.m.n)
    };
    let pos = match (insert, w.large) {
        (false, _) => 0,
        (_, true) => 1 + 2 * choose(2),
        _ => choose(4),
    };
    let op = if insert { Op::CloneIns(a, c, pos) } else { Op::CloneSub(a) };
    let api = if w.large { 4 * choose(2) } else { choose(5) };
    let old = w.m.n;
    let saved = w.m;
    let want = spec(&mut w, op);
    let strict = api == 2 || api == 3;
    if api == 4 && insert && w.m.root(a) == w.m.root(c) {
        return;
    }
    let got = if api == 4 {
        // through a frozen node, or the tree
        if insert {
            let anchor = w.hot(c);
            w.frozen(a).try_clone_insert_subtree(dest(&anchor, pos)).map(|n| Some(n.plain())).map_err(kind)
        } else if saved.parent(a) == NONE {
            cover!("clone_tree");
            match w.n(a).tree().try_clone_tree() {
                Ok(t) => Ok(Some(t.root())),
                Err(_) => Err(BORROW),
            }
        } else {
            match w.frozen(a).try_clone_subtree() {
                Ok(n) => Ok(Some(n)),
                Err(_) => Err(BORROW),
            }
        }
    } else {
        match panics(strict && (fails || want != Want::Done), || real(&w, op, api)) {
            Some(r) => r,
            // As if it had returned an error.
            None => Err(!0),
        }
    };
    match got {
        Ok(n) => {
            check!(!fails, "data was cloned while it was borrowed exclusively");
            check!(want == Want::Done, "an invalid clone was accepted");
            cover!("cloned");
            w.h[old] = n;
            w.reacquire();
        }
        Err(e) => {
            let mut allowed = 0;
            if fails {
                cover!("borrowed");
                allowed |= BORROW;
            }
            if let Want::Err(k) = want {
                allowed |= k;
            }
            check!(e & allowed != 0, "the kind of the error of a clone");
            w.m = saved;
        }
    }
    w.check_links();
    drop(shared);
    drop(unique);
    drop(x);
    w.check_all();
    drop(w);
    check!(live() == 0, "memory is leaked");
}

/// Data of another type that `u8` can be compared with.
#[derive(Clone)]
pub struct Other(u8);

impl Elem for Other {
    fn any_tag() -> u8 {
        any_u8()
    }
    fn make(tag: u8) -> Self {
        Other(tag)
    }
    fn tag(&self) -> u8 {
        self.0
    }
}
impl PartialEq<Other> for u8 {
    fn eq(&self, o: &Other) -> bool {
        *self == o.0
    }
}
impl PartialEq for Other {
    fn eq(&self, o: &Other) -> bool {
        self.0 == o.0
    }
}

/// Whether the subtrees have the same shape, and whether their data are pairwise equal.
fn same(m: &Model, a: usize, n: &Model, b: usize) -> (bool, bool) {
    let mut i = a;
    let mut j = b;
    let mut eq = true;
    while i != NONE && j != NONE {
        if m.nk(i) != n.nk(j) {
            return (false, false);
        }
        eq &= m.data[i] == n.data[j];
        i = m.pre_next(a, i);
        j = n.pre_next(b, j);
    }
    (i == NONE && j == NONE, eq)
}

/// C22: two subtrees are equal iff they have the same shape and data; of one type.
pub fn equality(k1: usize, k2: usize) {
    let mut w = World::new();
    w.build_upto(k1);
    let n1 = w.m.n;
    if k2 > 0 {
        w.build_upto(k2);
    }
    let a = pick(w.m.n);
    let b = if k2 > 0 { n1 + pick(w.m.n - n1) } else { pick(w.m.n) };
    let (shape, data) = same(&w.m, a, &w.m, b);
    let want = shape & data;
    let got = match choose(8) {
        0 => matches!(w.n(a).try_eq(w.n(b)), Ok(true)),
        1 => w.n(a) == w.n(b),
        2 => w.hot(a) == w.hot(b),
        3 => w.frozen(a) == w.frozen(b),
        4 => {
            let (x, y) = (w.hot(a), w.n(b));
            all([x == *y, *y == x, !(x != *y), x == y, *y == &x, &x == *y, y == x])
        }
        5 => {
            let (x, y) = (w.frozen(a), w.n(b));
            all([x == *y, *y == x, !(x != *y), x == y, *y == &x, &x == *y, y == x])
        }
        6 => {
            if k2 == 0 || a >= n1 {
                return;
            }
            let (x, y) = (w.frozen(a), w.hot(b));
            all([x == y, y == x, !(x != y), x == &y, y == &x, &x == y, &y == x])
        }
        _ => {
            if w.m.parent(a) != NONE || w.m.parent(b) != NONE {
                return;
            }
            cover!("trees");
            let (s, t) = (w.n(a).tree(), w.n(b).tree());
            let e = s == t;
            check!(matches!(s.try_eq(&t), Ok(x) if x == e), "try_eq of trees");
            e
        }
    };
    if got {
        cover!("equal");
    } else {
        cover!("different");
    }
    check!(got == want, "equality of subtrees");
    w.check_links();
    w.check_data();
}

/// The comparisons agree.
fn all(e: [bool; 7]) -> bool {
    let mut i = 1;
    while i < 7 {
        check!(e[i] == e[0], "forms of comparison differ");
        i += 1;
    }
    e[0]
}

/// C22: equality of subtrees with different types of data, and with borrowed data.
pub fn equality_mixed(k1: usize, k2: usize) {
    let mut w = World::new();
    w.build_upto(k1);
    let mut v = WorldOf::<Other>::new();
    v.build_upto(k2);
    let a = pick(w.m.n);
    let b = pick(v.m.n);
    let (shape, data) = same(&w.m, a, &v.m, b);
    let want = shape & data;
    // Possibly one node is borrowed exclusively.
    let busy = choose(w.m.n + v.m.n + 1);
    let mut x = None;
    let mut y = None;
    let mut inside = false;
    if busy < w.m.n {
        inside = w.m.anc_or_self(a, busy);
        x = Some(w.n(busy).clone());
    } else if busy < w.m.n + v.m.n {
        inside = v.m.anc_or_self(b, busy - w.m.n);
        y = Some(v.n(busy - w.m.n).clone());
    }
    let g = x.as_ref().map(|x| x.borrow_data_mut());
    let h = y.as_ref().map(|y| y.borrow_data_mut());
    match w.n(a).try_eq(v.n(b)) {
        Ok(got) => {
            check!(got == want, "equality of subtrees");
            check!(!(got && inside), "equal although data cannot be read");
            cover!("compared");
        }
        Err(_) => {
            check!(inside, "a borrow error without a borrow");
            cover!("borrowed");
        }
    }
    drop(g);
    drop(h);
    w.check_data();
    v.check_data();
}
