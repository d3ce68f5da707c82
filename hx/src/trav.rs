//! Traversals.

use crate::model::*;
use crate::sym::*;
use dendron::traverse::*;
use dendron::{FrozenNode, Node};

impl<T: Elem> WorldOf<T> {
    pub fn frozen(&self, i: usize) -> FrozenNode<T> {
        match self.n(i).clone().bundle_new_hierarchy_edit_prohibition() {
            Ok(n) => n,
            Err(_) => {
                check!(false, "an edit prohibition is available when no grant is active");
                loop {}
            }
        }
    }
}

/// The events of a depth-first traversal, in order: `2 * node + (1 if Close)`.
pub struct Events {
    pub ev: [u8; 2 * N],
    /// Depth of the node below the toplevel.
    pub depth: [u8; 2 * N],
    pub n: usize,
}

pub fn events(m: &Model, top: usize) -> Events {
    let mut e = Events { ev: [0; 2 * N], depth: [0; 2 * N], n: 0 };
    let mut d = 0usize;
    let mut i = top;
    let mut open = true;
    loop {
        e.ev[e.n] = (2 * i) as u8 + if open { 0 } else { 1 };
        e.depth[e.n] = d as u8;
        e.n += 1;
        if open {
            if m.nk(i) > 0 {
                i = m.kid(i, 0);
                d += 1;
            } else {
                open = false;
            }
        } else {
            if i == top {
                return e;
            }
            let s = m.next(i);
            if s != NONE {
                i = s;
                open = true;
            } else {
                i = m.parent(i);
                d -= 1;
            }
        }
    }
}

fn is_ev(w: &World, got: &DftEvent<Node<u8>>, want: u8) -> bool {
    let n = w.n((want >> 1) as usize);
    match got {
        DftEvent::Open(x) => want & 1 == 0 && x.ptr_eq(n),
        DftEvent::Close(x) => want & 1 == 1 && x.ptr_eq(n),
    }
}
fn is_fev(w: &World, got: &DftEvent<FrozenNode<u8>>, want: u8) -> bool {
    let n = w.n((want >> 1) as usize);
    match got {
        DftEvent::Open(x) => want & 1 == 0 && x.plain().ptr_eq(n),
        DftEvent::Close(x) => want & 1 == 1 && x.plain().ptr_eq(n),
    }
}

pub fn hint_ok(h: (usize, Option<usize>), left: usize) -> bool {
    h.0 <= left
        && match h.1 {
            None => true,
            Some(u) => u >= left,
        }
}

fn dft(w: &World, i: usize, ty: usize) -> DepthFirstTraverser<u8> {
    match ty {
        0 => w.n(i).depth_first_traverse(),
        1 => w.hot(i).depth_first_traverse(),
        _ => w.frozen(i).depth_first_traverse(),
    }
}
fn rdft(w: &World, i: usize, ty: usize) -> ReverseDepthFirstTraverser<u8> {
    match ty {
        0 => w.n(i).depth_first_reverse_traverse(),
        1 => w.hot(i).depth_first_reverse_traverse(),
        _ => w.frozen(i).depth_first_reverse_traverse(),
    }
}

/// C15: depth-first traversals emit every event of the subtree once, in document order.
pub fn depth_first(k: usize) {
    let mut w = World::new();
    w.build_upto(k);
    let a = pick(w.m.n);
    let ty = choose(3);
    let e = events(&w.m, a);
    // Optionally start in the middle.
    let from = if flip() { pick_event(e.n) } else { 0 };
    let mid = from != 0;
    let ev = |c: u8| {
        let x = w.n((c >> 1) as usize).clone();
        if c & 1 == 0 {
            DftEvent::Open(x)
        } else {
            DftEvent::Close(x)
        }
    };
    if flip() {
        cover!("forward");
        let mut t = if mid { DepthFirstTraverser::with_next_event(w.n(a).clone(), Some(ev(e.ev[from]))) } else { dft(&w, a, ty) };
        let mut i = from;
        while i < e.n {
            check!(hint_ok(t.size_hint(), e.n - i), "size_hint");
            check!(matches!(t.peek(), Some(p) if is_ev(&w, p, e.ev[i])), "peek");
            match next(&mut t, i & 1 == 0, |g| is_ev(&w, g, e.ev[i])) {
                Some(g) => check!(is_ev(&w, &g, e.ev[i]), "next event"),
                None => check!(false, "the traversal ended early"),
            }
            i += 1;
        }
        check!(t.peek().is_none(), "peek at the end");
        check!(t.size_hint() == (0, Some(0)), "size_hint at the end");
        check!(t.next().is_none(), "the traversal goes on after its last event");
        check!(t.next().is_none(), "the traversal is fused");
    } else {
        cover!("reverse");
        let mut t = if mid {
            ReverseDepthFirstTraverser::with_next_event(w.n(a).clone(), Some(ev(e.ev[e.n - 1 - from])))
        } else {
            rdft(&w, a, ty)
        };
        let mut i = from;
        while i < e.n {
            let want = e.ev[e.n - 1 - i];
            check!(hint_ok(t.size_hint(), e.n - i), "size_hint");
            check!(matches!(t.peek(), Some(p) if is_ev(&w, p, want)), "peek");
            match next(&mut t, i & 1 == 0, |g| is_ev(&w, g, want)) {
                Some(g) => check!(is_ev(&w, &g, want), "next event"),
                None => check!(false, "the traversal ended early"),
            }
            i += 1;
        }
        check!(t.peek().is_none(), "peek at the end");
        check!(t.size_hint() == (0, Some(0)), "size_hint at the end");
        check!(t.next().is_none(), "the traversal goes on after its last event");
        check!(t.next().is_none(), "the traversal is fused");
    }
}

/// The position of the event that closes the node that is current before position `at`.
fn close_at(e: &Events, at: usize) -> usize {
    let mut d = 0usize;
    let mut i = at;
    while i < e.n {
        if e.ev[i] & 1 == 0 {
            d += 1;
        } else if d == 0 {
            return i;
        } else {
            d -= 1;
        }
        i += 1;
    }
    NONE
}

/// Drives a traverser: `back` steps from the back, then any pattern of stepping and closing (on
/// a large tree: steps, and then closes, or closes and steps by turns).
macro_rules! close_pattern {
    ($large:expr, $t:expr, $e:expr, $back:expr, $event:expr, $node:expr, $next_back:expr) => {{
        let t = &mut $t;
        let e = $e;
        let back: usize = $back;
        let mut b = e.n;
        while b > e.n - back {
            let _ = $next_back(&mut *t);
            b -= 1;
        }
        let mut f = 0;
        let (turn, alternate) = if $large { (pick_event(e.n - back + 1), flip()) } else { (0, false) };
        let mut steps = 0;
        loop {
            let s = steps;
            steps += 1;
            if if $large { s >= turn && !(alternate && (s - turn) & 1 == 1) } else { flip() } {
                let c = close_at(e, f);
                let got = t.close_current();
                if c == NONE || c >= b {
                    // Nothing is open, or its close was already taken from the back.
                    if c == NONE {
                        cover!("nothing_to_close");
                    }
                    check!(got.is_none(), "nothing is open");
                    check!(t.next().is_none(), "the traversal has ended");
                    break;
                }
                cover!("closed");
                match got {
                    Some(g) => $node(g, c),
                    None => check!(false, "nothing was closed"),
                }
                f = c + 1;
            } else if f == b {
                check!(t.next().is_none(), "the traversal has ended");
                break;
            } else {
                check!(matches!(t.next(), Some(g) if $event(&g, f)), "event after the close");
                f += 1;
            }
        }
    }};
}

/// C24: `close_current` of the traversers skips to the close of the current node.
pub fn close_current(k: usize) {
    let mut w = World::new();
    w.build_upto(k);
    let a = pick(w.m.n);
    let e = events(&w.m, a);
    match choose(3) {
        0 => {
            let mut t = dft(&w, a, choose(3));
            close_pattern!(
                w.large,
                t,
                &e,
                0,
                |g: &DftEvent<Node<u8>>, i: usize| is_ev(&w, g, e.ev[i]),
                |g: Node<u8>, c: usize| check!(g.ptr_eq(w.n((e.ev[c] >> 1) as usize)), "the closed node"),
                |_: &mut _| ()
            );
        }
        1 => {
            let mut t = w.frozen(a).depth_first_traverse_stable();
            close_pattern!(
                w.large,
                t,
                &e,
                if w.large { [0, e.n / 3, e.n - 1][choose(3)] } else { pick_event(e.n + 1) },
                |g: &DftEvent<FrozenNode<u8>>, i: usize| is_fev(&w, g, e.ev[i]),
                |g: FrozenNode<u8>, c: usize| check!(g.plain().ptr_eq(w.n((e.ev[c] >> 1) as usize)), "the closed node"),
                |t: &mut StableDepthFirstTraverser<u8>| t.next_back()
            );
        }
        _ => {
            let max = any_usize();
            let lim = if flip() { Some(max) } else { None };
            let mut t = w.frozen(a).shallow_depth_first_traverse_stable(lim);
            let e = limited(&e, lim);
            close_pattern!(
                w.large,
                t,
                &e,
                if w.large { [0, e.n / 3, e.n - 1][choose(3)] } else { pick_event(e.n + 1) },
                |g: &DftEvent<(FrozenNode<u8>, usize)>, i: usize| is_sev(&w, g, &e, i),
                |g: (FrozenNode<u8>, usize), c: usize| {
                    check!(g.0.plain().ptr_eq(w.n((e.ev[c] >> 1) as usize)), "the closed node");
                    check!(g.1 == e.depth[c] as usize, "the depth of the closed node");
                },
                |t: &mut StableShallowDepthFirstTraverser<u8>| t.next_back()
            );
        }
    }
}

/// C24: stepping single events forward and backward, and closing from an event.
pub fn event_steps(k: usize) {
    let mut w = World::new();
    let r = w.build_upto(k);
    let e = events(&w.m, r);
    let at = pick_event(e.n);
    let i = (e.ev[at] >> 1) as usize;
    let c = close_at(&e, at + 1);
    macro_rules! go {
        ($x:expr, $eq:expr) => {{
            let ev = if e.ev[at] & 1 == 0 { DftEvent::Open($x) } else { DftEvent::Close($x) };
            let eq = $eq;
            let is = |g: &DftEvent<_>, want: u8| match g {
                DftEvent::Open(x) => want & 1 == 0 && eq(x, (want >> 1) as usize),
                DftEvent::Close(x) => want & 1 == 1 && eq(x, (want >> 1) as usize),
            };
            check!(eq(ev.as_value(), i), "the node of an event");
            let mut moved = ev.clone().map(|x| (x, 1));
            moved.as_value_mut().1 = 2;
            check!(matches!(&moved, DftEvent::Open(_)) == (e.ev[at] & 1 == 0), "the kind of a mapped event");
            let v = moved.clone().into_value();
            check!(eq(&v.0, i) && v.1 == 2, "the value of an event");
            match (moved.clone().into_open(), moved.into_close()) {
                (Some(v), None) => {
                    check!(e.ev[at] & 1 == 0 && eq(&v.0, i), "the value of an open event")
                }
                (None, Some(v)) => {
                    check!(e.ev[at] & 1 == 1 && eq(&v.0, i), "the value of a close event")
                }
                _ => check!(false, "an event opens or closes"),
            }
            match ev.next() {
                Some(g) => {
                    cover!("next");
                    check!(at + 1 < e.n && is(&g, e.ev[at + 1]), "next of an event");
                }
                None => check!(at + 1 == e.n, "an event has no next"),
            }
            match ev.prev() {
                Some(g) => {
                    cover!("prev");
                    check!(at > 0 && is(&g, e.ev[at - 1]), "previous of an event");
                }
                None => check!(at == 0, "an event has no previous"),
            }
            match ev.close_current() {
                Some(g) => {
                    cover!("close");
                    check!(c != NONE && eq(&g, (e.ev[c] >> 1) as usize), "the closed node");
                }
                None => check!(c == NONE, "an event closes nothing"),
            }
        }};
    }
    match choose(3) {
        0 => go!(w.n(i).clone(), |x: &Node<u8>, j: usize| x.ptr_eq(w.n(j))),
        1 => go!(w.hot(i), |x: &dendron::HotNode<u8>, j: usize| x.ptr_eq_plain(w.n(j))),
        _ => go!(w.frozen(i), |x: &FrozenNode<u8>, j: usize| x.plain().ptr_eq(w.n(j))),
    }
}

/// A list of node indices.
pub struct List {
    pub v: [u8; N],
    pub n: usize,
}
impl List {
    fn new() -> Self {
        List { v: [0; N], n: 0 }
    }
    fn push(&mut self, i: usize) {
        self.v[self.n] = i as u8;
        self.n += 1;
    }
}

/// `next` of an iterator and of a clone of it, which have to agree from there on.
fn next<I: Iterator + Clone>(it: &mut I, odd: bool, is: impl Fn(&I::Item) -> bool) -> Option<I::Item> {
    let mut c = it.clone();
    let got = it.next();
    let same = match (c.next(), &got) {
        (Some(x), Some(_)) => is(&x),
        (None, None) => true,
        _ => false,
    };
    check!(same, "a clone of a traverser goes on differently");
    if odd {
        core::mem::swap(it, &mut c);
    }
    got
}

/// The same at the other end.
fn next_back<I: DoubleEndedIterator + Clone>(it: &mut I, odd: bool, is: impl Fn(&I::Item) -> bool) -> Option<I::Item> {
    let mut c = it.clone();
    let got = it.next_back();
    let same = match (c.next_back(), &got) {
        (Some(x), Some(_)) => is(&x),
        (None, None) => true,
        _ => false,
    };
    check!(same, "a clone of a traverser goes on differently");
    if odd {
        core::mem::swap(it, &mut c);
    }
    got
}

fn run_list<I: Iterator<Item = Node<u8>> + Clone>(w: &World, mut it: I, peek: impl Fn(&I) -> Option<Node<u8>>, want: &List) {
    let mut i = 0;
    while i < want.n {
        check!(hint_ok(it.size_hint(), want.n - i), "size_hint");
        let x = w.n(want.v[i] as usize);
        check!(matches!(peek(&it), Some(p) if p.ptr_eq(x)), "peek");
        match next(&mut it, i & 1 == 0, |g| g.ptr_eq(x)) {
            Some(g) => check!(g.ptr_eq(x), "the next node"),
            None => check!(false, "the iteration ended early"),
        }
        i += 1;
    }
    check!(hint_ok(it.size_hint(), 0), "size_hint at the end");
    check!(peek(&it).is_none(), "peek at the end");
    check!(it.next().is_none(), "the iteration goes on after its last node");
    check!(it.next().is_none(), "the iteration is fused");
}

/// The nodes each of the ten axes has to yield from node `a`.
pub fn axis(m: &Model, a: usize, which: usize) -> List {
    let mut l = List::new();
    let ns = m.nsib(a);
    let pos = m.pos(a);
    match which {
        0 | 1 => {
            let n = m.nk(a);
            let mut j = 0;
            while j < n {
                l.push(m.kid(a, if which == 0 { j } else { n - 1 - j }));
                j += 1;
            }
        }
        2 | 3 => {
            let mut i = if which == 2 { m.parent(a) } else { a };
            while i != NONE {
                l.push(i);
                i = m.parent(i);
            }
        }
        4 | 5 => {
            let mut j = 0;
            while j < ns {
                l.push(m.sib(a, if which == 4 { j } else { ns - 1 - j }));
                j += 1;
            }
        }
        6 | 7 => {
            let mut j = if which == 6 { pos + 1 } else { pos };
            while j > 0 {
                j -= 1;
                l.push(m.sib(a, j));
            }
        }
        _ => {
            let mut j = if which == 8 { pos } else { pos + 1 };
            while j < ns {
                l.push(m.sib(a, j));
                j += 1;
            }
        }
    }
    l
}

/// C16: the children, sibling and ancestor axes.
pub fn axes(k: usize) {
    let mut w = World::new();
    w.build_upto(k);
    let a = pick(w.m.n);
    let which = choose(10);
    let want = axis(&w.m, a, which);
    macro_rules! go {
        ($x:expr) => {{
            let x = $x;
            match which {
                0 => run_list(&w, x.children(), |i| i.peek().cloned(), &want),
                1 => run_list(&w, x.children_reverse(), |i| i.peek().cloned(), &want),
                2 => run_list(&w, x.ancestors(), |i| i.peek().cloned(), &want),
                3 => run_list(&w, x.ancestors_or_self(), |i| i.peek().cloned(), &want),
                4 => run_list(&w, x.siblings(), |i| i.peek().cloned(), &want),
                5 => run_list(&w, x.siblings_reverse(), |i| i.peek().cloned(), &want),
                6 => run_list(&w, x.preceding_siblings_or_self_reverse(), |i| i.peek().cloned(), &want),
                7 => run_list(&w, x.preceding_siblings_reverse(), |i| i.peek().cloned(), &want),
                8 => run_list(&w, x.following_siblings_or_self(), |i| i.peek().cloned(), &want),
                _ => run_list(&w, x.following_siblings(), |i| i.peek().cloned(), &want),
            }
        }};
    }
    if want.n == 0 {
        cover!("empty");
    } else {
        cover!("nonempty");
    }
    match choose(3) {
        0 => go!(w.n(a)),
        1 => go!(w.hot(a)),
        _ => go!(w.frozen(a)),
    }
}

/// Drives a double-ended iterator with an arbitrary interleaving of `next` and `next_back`; for
/// a large tree, with any number of calls at one end, and then calls at the other end or at both
/// ends alternately.
fn run_both<X, I: DoubleEndedIterator<Item = X> + Clone>(
    large: bool,
    mut it: I,
    n: usize,
    is: impl Fn(&X, usize) -> bool,
    peek: impl Fn(&I) -> (Option<X>, Option<X>),
) {
    let mut f = 0;
    let mut b = n;
    let (turn, start, alternate) = if large { (pick_event(n + 1), flip(), flip()) } else { (0, false, false) };
    while f < b {
        check!(hint_ok(it.size_hint(), b - f), "size_hint");
        let (pf, pb) = peek(&it);
        let s = f + n - b;
        let front = if !large { flip() } else { start == (s < turn || (alternate && (s - turn) & 1 == 1)) };
        check!(matches!(pf, Some(x) if is(&x, f)), "peek");
        check!(matches!(pb, Some(x) if is(&x, b - 1)), "peek_back");
        if front {
            match next(&mut it, f & 1 == 0, |g| is(g, f)) {
                Some(g) => check!(is(&g, f), "next"),
                None => check!(false, "next ended early"),
            }
            f += 1;
        } else {
            cover!("back");
            match next_back(&mut it, b & 1 == 0, |g| is(g, b - 1)) {
                Some(g) => check!(is(&g, b - 1), "next_back"),
                None => check!(false, "next_back ended early"),
            }
            b -= 1;
        }
    }
    check!(hint_ok(it.size_hint(), 0), "size_hint at the end");
    let (pf, pb) = peek(&it);
    check!(pf.is_none() && pb.is_none(), "peek at the end");
    check!(it.next().is_none(), "next after the end");
    check!(it.next_back().is_none(), "next_back after the end");
    check!(it.next().is_none(), "next after the end");
    cover!("exhausted");
}

/// C17: stable sibling traversals, from both ends.
pub fn stable_siblings(k: usize) {
    let mut w = World::new();
    w.build_upto(k);
    let a = pick(w.m.n);
    let which = choose(6);
    let x = w.frozen(a);
    let m = &w.m;
    let (it, want) = match which {
        0 => (x.children_stable(), axis(m, a, 0)),
        1 => (x.siblings_stable(), axis(m, a, 4)),
        2 => (x.following_siblings_or_self_stable(), axis(m, a, 8)),
        3 => (x.following_siblings_stable(), axis(m, a, 9)),
        _ => {
            let mut l = List::new();
            let mut j = 0;
            while j < m.pos(a) + if which == 4 { 1 } else { 0 } {
                l.push(m.sib(a, j));
                j += 1;
            }
            (if which == 4 { x.preceding_siblings_or_self_stable() } else { x.preceding_siblings_stable() }, l)
        }
    };
    drop(x);
    run_both(
        w.large,
        it,
        want.n,
        |x: &FrozenNode<u8>, i| x.plain().ptr_eq(w.n(want.v[i] as usize)),
        |it| (it.peek().cloned(), it.peek_back().cloned()),
    );
}

/// C17: the stable depth-first traversal, from both ends.
pub fn stable_dft(k: usize) {
    let mut w = World::new();
    w.build_upto(k);
    let a = pick(w.m.n);
    let e = events(&w.m, a);
    let x = w.frozen(a);
    if flip() {
        run_both(
            w.large,
            x.depth_first_traverse_stable(),
            e.n,
            |g: &DftEvent<FrozenNode<u8>>, i| is_fev(&w, g, e.ev[i]),
            |it| (it.peek().cloned(), it.peek_back().cloned()),
        );
    } else {
        // Any range of events.
        let f = pick_event(e.n);
        let l = f + pick_event(e.n - f);
        let ev = |c: u8| {
            let x = w.frozen((c >> 1) as usize);
            if c & 1 == 0 {
                DftEvent::Open(x)
            } else {
                DftEvent::Close(x)
            }
        };
        let mut it = StableDepthFirstTraverser::with_first_last_event(ev(e.ev[f]), ev(e.ev[l]));
        let mut i = f;
        let front = flip();
        while i <= l {
            let j = if front { i } else { l - (i - f) };
            check!(hint_ok(it.size_hint(), l + 1 - i), "size_hint");
            let g = if front { it.next() } else { it.next_back() };
            check!(matches!(g, Some(g) if is_fev(&w, &g, e.ev[j])), "an event of the range");
            i += 1;
        }
        cover!("range");
        check!(it.next().is_none(), "the range has ended");
        check!(it.next_back().is_none(), "the range has ended");
    }
}

fn limited(e: &Events, max: Option<usize>) -> Events {
    let mut o = Events { ev: [0; 2 * N], depth: [0; 2 * N], n: 0 };
    let mut i = 0;
    while i < e.n {
        let d = e.depth[i] as usize;
        let keep = match max {
            None => true,
            Some(m) => d <= m,
        };
        if keep {
            o.ev[o.n] = e.ev[i];
            o.depth[o.n] = e.depth[i];
            o.n += 1;
        }
        i += 1;
    }
    o
}

fn is_sev(w: &World, got: &DftEvent<(FrozenNode<u8>, usize)>, e: &Events, i: usize) -> bool {
    let n = w.n((e.ev[i] >> 1) as usize);
    match got {
        DftEvent::Open((x, d)) => e.ev[i] & 1 == 0 && x.plain().ptr_eq(n) && *d == e.depth[i] as usize,
        DftEvent::Close((x, d)) => e.ev[i] & 1 == 1 && x.plain().ptr_eq(n) && *d == e.depth[i] as usize,
    }
}

/// C18: the depth-limited traversal is the unlimited one without the deeper nodes; the limit is
/// an arbitrary machine word.
pub fn shallow(k: usize) {
    let mut w = World::new();
    w.build_upto(k);
    let a = pick(w.m.n);
    let max = any_usize();
    let lim = if flip() { Some(max) } else { None };
    let it = w.frozen(a).shallow_depth_first_traverse_stable(lim);
    check!(
        it.max_depth()
            == match lim {
                Some(m) => m,
                None => usize::MAX,
            },
        "max_depth"
    );
    let all = events(&w.m, a);
    let e = limited(&all, lim);
    if e.n < all.n {
        cover!("limited");
    } else {
        cover!("unlimited");
    }
    run_both(
        w.large,
        it,
        e.n,
        |g: &DftEvent<(FrozenNode<u8>, usize)>, i| is_sev(&w, g, &e, i),
        |it| (it.peek().cloned(), it.peek_back().cloned()),
    );
}

/// C19: breadth-first traversals yield the nodes level by level from an arbitrary start depth.
pub fn breadth_first(k: usize) {
    let mut w = World::new();
    w.build_upto(k);
    let a = pick(w.m.n);
    let start = any_usize();
    // The nodes of the subtree, level by level.
    let mut q = List::new();
    let mut d = [0u8; N];
    q.push(a);
    let mut i = 0;
    while i < q.n {
        let x = q.v[i] as usize;
        let mut j = 0;
        while j < w.m.nk(x) {
            d[q.n] = d[i] + 1;
            q.push(w.m.kid(x, j));
            j += 1;
        }
        i += 1;
    }
    let mut i = 0;
    while i < q.n && (d[i] as usize) < start {
        i += 1;
    }
    if i == q.n {
        cover!("below");
    } else {
        cover!("some");
    }
    if flip() {
        let mut it = w.frozen(a).non_allocating_breadth_first_traverse_stable(start);
        while i < q.n {
            check!(hint_ok(it.size_hint(), q.n - i), "size_hint");
            let is = |g: &(FrozenNode<u8>, usize)| g.0.plain().ptr_eq(w.n(q.v[i] as usize)) && g.1 == d[i] as usize;
            match next(&mut it, i & 1 == 0, is) {
                Some((x, dd)) => {
                    check!(x.plain().ptr_eq(w.n(q.v[i] as usize)), "the next node");
                    check!(dd == d[i] as usize, "the depth of the next node");
                }
                None => check!(false, "the traversal ended early"),
            }
            i += 1;
        }
        check!(hint_ok(it.size_hint(), 0), "size_hint at the end");
        check!(it.next().is_none(), "the traversal goes on after its last node");
        check!(it.next().is_none(), "the traversal is fused");
        cover!("non_allocating");
    } else {
        let mut it = w.frozen(a).allocating_breadth_first_traverse_stable(start);
        while i < q.n {
            check!(hint_ok(it.size_hint(), q.n - i), "size_hint");
            match it.peek() {
                Some((x, dd)) => {
                    check!(x.plain().ptr_eq(w.n(q.v[i] as usize)), "peek");
                    check!(dd == d[i] as usize, "the depth of peek");
                }
                None => check!(false, "peek found nothing"),
            }
            let is = |g: &(FrozenNode<u8>, usize)| g.0.plain().ptr_eq(w.n(q.v[i] as usize)) && g.1 == d[i] as usize;
            match next(&mut it, i & 1 == 0, is) {
                Some((x, dd)) => {
                    check!(x.plain().ptr_eq(w.n(q.v[i] as usize)), "the next node");
                    check!(dd == d[i] as usize, "the depth of the next node");
                }
                None => check!(false, "the traversal ended early"),
            }
            if i == 1 {
                match choose(3) {
                    0 => it.shrink_to_fit(),
                    1 => it.shrink_to(any_u8() as usize),
                    _ => {}
                }
                check!(it.capacity() >= it.size_hint().0, "the capacity of the queue");
            }
            i += 1;
        }
        check!(hint_ok(it.size_hint(), 0), "size_hint at the end");
        check!(it.peek().is_none(), "peek at the end");
        check!(it.next().is_none(), "the traversal goes on after its last node");
        check!(it.next().is_none(), "the traversal ends for good");
        cover!("allocating");
    }
}

/// C09: every getter of the two locked node types agrees with the model as well.
pub fn views(k: usize) {
    let mut w = World::new();
    w.build_upto(k);
    let i = pick(w.m.n);
    let m = &w.m;
    let tree = w.n(0).tree();
    let (nk, ns, pos) = (m.nk(i), m.nsib(i), m.pos(i));
    let (fs, ls) = (m.sib(i, 0), m.sib(i, ns - 1));
    macro_rules! go {
        ($mk:ident) => {{
            let x = w.$mk(i);
            macro_rules! is {
                ($g:expr, $want:expr) => {
                    match $g {
                        None => $want == NONE,
                        Some(g) => $want != NONE && g.plain().ptr_eq(w.n($want)),
                    }
                };
            }
            check!(x.plain().ptr_eq(w.n(i)), "plain");
            check!(is!(x.parent(), m.parent(i)), "parent");
            check!(is!(x.first_child(), m.first(i)), "first_child");
            check!(is!(x.last_child(), m.last(i)), "last_child");
            check!(is!(x.next_sibling(), m.next(i)), "next_sibling");
            check!(is!(x.prev_sibling(), m.prev(i)), "prev_sibling");
            check!(is!(Some(x.first_sibling()), fs), "first_sibling");
            check!(is!(Some(x.last_sibling()), ls), "last_sibling");
            let (f, l) = x.first_last_sibling();
            check!(is!(Some(f), fs) && is!(Some(l), ls), "first_last_sibling");
            check!(
                match x.first_last_child() {
                    None => nk == 0,
                    Some((f, l)) => nk > 0 && is!(Some(f), m.first(i)) && is!(Some(l), m.last(i)),
                },
                "first_last_child"
            );
            check!(is!(Some(x.root()), 0), "root");
            check!(x.is_root() == (i == 0), "is_root");
            check!(x.num_children() == nk, "num_children");
            check!(x.has_prev_sibling() == (pos > 0), "has_prev_sibling");
            check!(x.has_next_sibling() == (pos + 1 < ns), "has_next_sibling");
            check!(x.has_children() == (nk > 0), "has_children");
            check!(x.has_one_child() == (nk == 1), "has_one_child");
            check!(x.has_multiple_children() == (nk > 1), "has_multiple_children");
            check!(x.count_children() == nk, "count_children");
            check!(x.count_preceding_siblings() == pos, "count_preceding_siblings");
            check!(x.count_following_siblings() == ns - 1 - pos, "count_following_siblings");
            check!(x.count_ancestors() == m.depth(i), "count_ancestors");
            check!(x.tree().ptr_eq(&tree), "tree");
            check!(x.belongs_to(&tree), "belongs_to");
            check!(matches!(x.try_borrow_data(), Ok(d) if *d == m.data[i]), "data");
            let mut j = 0;
            while j < m.n {
                let y = w.$mk(j);
                check!(x.ptr_eq(&y) == (i == j), "ptr_eq");
                check!(x.belongs_to_same_tree(&y), "belongs_to_same_tree");
                j += 1;
            }
        }};
    }
    if flip() {
        cover!("hot");
        go!(hot);
    } else {
        cover!("frozen");
        go!(frozen);
    }
    w.check_unlocked();
}
