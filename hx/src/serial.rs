//! Serialization: trees to events and events to trees.

use crate::model::*;
use crate::sym::*;
use dendron::serial::{Event, TreeBuildError, TreeBuilder};
use dendron::traverse::DftEvent;
use dendron::{FrozenNode, HotNode, Node, Tree};

/// The events of the subtree of `a`: `0x100 + i` opens the node `i`, `k` closes `k` nodes.
fn events(m: &Model, a: usize, out: &mut [usize; 2 * N]) -> usize {
    let mut n = 0;
    let mut i = a;
    loop {
        out[n] = 0x100 + i;
        n += 1;
        if m.nk(i) > 0 {
            i = m.kid(i, 0);
            continue;
        }
        // Leave as many nodes as possible.
        let mut up = 1;
        while i != a && m.next(i) == NONE {
            i = m.parent(i);
            up += 1;
        }
        out[n] = up;
        n += 1;
        if i == a {
            return n;
        }
        i = m.next(i);
    }
}

enum Any {
    Plain(Node<u8>),
    Hot(HotNode<u8>),
    Frozen(FrozenNode<u8>),
}

fn flavour(w: &World, a: usize) -> Any {
    match choose(3) {
        0 => Any::Plain(w.n(a).clone()),
        1 => Any::Hot(w.hot(a)),
        _ => Any::Frozen(frozen(w, a)),
    }
}

fn frozen(w: &World, a: usize) -> FrozenNode<u8> {
    match w.n(a).clone().bundle_new_hierarchy_edit_prohibition() {
        Ok(n) => n,
        Err(_) => {
            check!(false, "a prohibition is available when no grant is active");
            loop {}
        }
    }
}

/// C21: `to_events` yields the events of the subtree, whichever node is mutably borrowed.
pub fn to_events(k: usize) {
    let mut w = World::new();
    w.build_upto(k);
    let a = pick(w.m.n);
    let b = pick(w.m.n + 1);
    let busy = if b < w.m.n { Some(w.n(b).clone()) } else { None };
    let guard = busy.as_ref().map(|x| x.borrow_data_mut());
    let mut want = [0; 2 * N];
    let n = events(&w.m, a, &mut want);
    let x = flavour(&w, a);
    let mut it = match &x {
        Any::Plain(x) => x.to_events(),
        Any::Hot(x) => x.to_events(),
        Any::Frozen(x) => x.to_events(),
    };
    let mut i = 0;
    while i < n {
        match it.next() {
            Some(Ok(Event::Open(d))) => {
                check!(want[i] >= 0x100, "a node is opened instead of closed");
                let j = want[i] & 0xff;
                check!(j != b, "the data of a mutably borrowed node was read");
                check!(d == w.m.data[j], "the data of an open event");
            }
            Some(Ok(Event::Close(c))) => check!(c == want[i], "the number of closed nodes"),
            Some(Err(_)) => {
                cover!("borrowed");
                check!(want[i] >= 0x100 && want[i] & 0xff == b, "a borrow error without a borrow");
            }
            None => check!(false, "the events end early"),
        }
        i += 1;
    }
    check!(it.next().is_none(), "too many events");
    check!(it.next().is_none(), "events after the end");
    cover!("serialized");
    drop(guard);
    drop(busy);
    drop(it);
    drop(x);
    w.check_all();
}

/// C21: the events of a tree build an equal, independent tree.
pub fn roundtrip(k: usize) {
    let mut w = World::new();
    w.build_upto(k);
    let a = pick(w.m.n);
    let base = crate::edit::clone_model(&mut w.m, a);
    let x = w.n(a).clone();
    let unwrap = |e: Result<Event<u8>, _>| match e {
        Ok(e) => e,
        Err(_) => {
            check!(false, "a borrow error without a borrow");
            loop {}
        }
    };
    // A close of several nodes and several closes are the same.
    let built: Result<Node<u8>, TreeBuildError> = match choose(8) {
        0 => x.to_events().map(unwrap).collect(),
        1 => x.to_events().map(unwrap).collect::<Result<Tree<u8>, _>>().map(|t| t.root()),
        2 => x.to_events().map(unwrap).collect::<Result<HotNode<u8>, _>>().map(|n| {
            check!(n.is_root(), "the root of a tree from events");
            check!(n.tree().prohibit_hierarchy_edit().is_err(), "a hot node without a grant");
            n.plain()
        }),
        3 => x.to_events().map(unwrap).collect::<Result<FrozenNode<u8>, _>>().map(|n| {
            check!(n.tree().grant_hierarchy_edit().is_err(), "a frozen node without a prohibition");
            n.plain()
        }),
        4 => x.depth_first_traverse().collect(),
        6 => {
            // One at a time, with other data in between.
            let mut b = TreeBuilder::new();
            let mut r = Ok(());
            for e in x.depth_first_traverse() {
                if r.is_ok() {
                    r = b.push_dft_event(e);
                }
            }
            let n = match r {
                Ok(()) => b.finish(),
                Err(e) => Err(e),
            };
            match n {
                Ok(n) => n.to_events().map(unwrap).map(|e| e.map(|d| d as u32 + 7)).map(|e| e.map(|d| (d - 7) as u8)).collect(),
                Err(e) => Err(e),
            }
        }
        5 => {
            let mut b = TreeBuilder::new();
            match b.push_dft_events(x.depth_first_traverse()) {
                Ok(()) => {
                    check!(b.is_root_closed(), "the builder is complete");
                    b.finish()
                }
                Err(e) => Err(e),
            }
        }
        _ => {
            let mut b = TreeBuilder::new();
            let f = frozen(&w, a);
            let mut r = Ok(());
            for e in f.depth_first_traverse() {
                let e: Result<Event<u8>, _> = e.try_into();
                if let Ok(e) = e {
                    if r.is_ok() {
                        r = b.push_event(e);
                    }
                } else {
                    check!(false, "a borrow error without a borrow");
                }
            }
            match r {
                Ok(()) => b.finish(),
                Err(e) => Err(e),
            }
        }
    };
    match built {
        Ok(n) => {
            cover!("built");
            w.h[base] = Some(n);
        }
        Err(_) => check!(false, "the events of a tree do not build a tree"),
    }
    drop(x);
    w.reacquire();
    w.check_all();
    drop(w);
    check!(live() == 0, "memory is leaked");
}

/// C21: traversal events convert into builder events, unless the data is borrowed.
pub fn from_dft(k: usize) {
    let mut w = World::new();
    w.build_upto(k);
    let a = pick(w.m.n);
    let b = pick(w.m.n);
    let close = flip();
    let excl = flip();
    let y = w.n(b).clone();
    let mut g1 = None;
    let mut g2 = None;
    if excl {
        g1 = Some(y.borrow_data_mut());
    } else {
        g2 = Some(y.borrow_data());
    }
    let e: Result<Event<u8>, _> = match flavour(&w, a) {
        Any::Plain(x) => (if close { DftEvent::Close(x) } else { DftEvent::Open(x) }).try_into(),
        Any::Hot(x) => (if close { DftEvent::Close(x) } else { DftEvent::Open(x) }).try_into(),
        Any::Frozen(x) => (if close { DftEvent::Close(x) } else { DftEvent::Open(x) }).try_into(),
    };
    match e {
        Ok(Event::Open(d)) => {
            check!(!close, "a close event became an open event");
            check!(!(excl && a == b), "the data of a mutably borrowed node was read");
            check!(d == w.m.data[a], "the data of an open event");
            cover!("open");
        }
        Ok(Event::Close(c)) => {
            check!(close && c == 1, "an event closes exactly one node");
            cover!("close");
        }
        Err(_) => {
            check!(!close && excl && a == b, "a borrow error without a borrow");
            cover!("borrowed");
        }
    }
    drop(g1);
    drop(g2);
    // The builder keeps what was built before a borrow error.
    let x = w.n(a).clone();
    let inside = w.m.anc_or_self(a, b);
    let g = y.borrow_data_mut();
    let mut t = TreeBuilder::new();
    let r = t.push_dft_events(x.depth_first_traverse());
    match r {
        Ok(()) => check!(!inside, "the data of a mutably borrowed node was read"),
        Err(TreeBuildError::BorrowData(_)) => check!(inside, "a borrow error without a borrow"),
        Err(_) => check!(false, "the kind of the error"),
    }
    let mut before = 0;
    let mut i = a;
    while i != NONE && !(inside && i == b) {
        before += 1;
        i = w.m.pre_next(a, i);
    }
    match t.finish_opt() {
        None => check!(before == 0, "the nodes built before an error are lost"),
        Some(n) => {
            let mut got = 0;
            let mut i = a;
            for e in n.depth_first_traverse() {
                if let DftEvent::Open(n) = e {
                    check!(got < before, "a node is built after an error");
                    check!(matches!(n.try_borrow_data(), Ok(d) if *d == w.m.data[i]), "the data of a built node");
                    got += 1;
                    i = w.m.pre_next(a, i);
                }
            }
            check!(got == before, "the nodes built before an error");
        }
    }
    drop(g);
    drop(y);
    drop(x);
    w.check_all();
}

/// C26: any sequence of events, into a new tree or below a node of an existing one, which may be
/// edited up to `edits` times in between.
pub fn builder(k: usize, len: usize, mut edits: usize) {
    let mut w = World::new();
    let mut root = NONE;
    let mut cur = NONE;
    let mut b = if k > 0 {
        w.build_upto(k);
        root = if w.large && edits > 0 { [0, 1, w.m.n / 2][choose(3)] } else { pick(w.m.n) };
        cur = root;
        TreeBuilder::with_root(w.hot(root))
    } else {
        TreeBuilder::new()
    };
    // Every form of a call, unless the calls alternate with edits.
    let one = edits > 0;
    let event = !one && flip();
    let many = !one && flip();
    let mut i = 0;
    let mut failed = false;
    while i < len && !failed {
        if edits > 0 && flip() {
            edits -= 1;
            w.reacquire();
            let op = crate::edit::edit_of::<u8>(&w.m, !0, w.large);
            if crate::edit::step(&mut w, op, 0) == crate::edit::Want::Done {
                cover!("edited");
            }
            w.reacquire();
        }
        check!(b.is_root_available() == (root != NONE), "is_root_available");
        check!(b.is_root_closed() == (root != NONE && cur == NONE), "is_root_closed");
        if flip() {
            let d = any_u8();
            let r = if !event {
                b.open(d)
            } else if many {
                b.push_events([Event::Open(d)])
            } else {
                b.push_event(Event::Open(d))
            };
            if root != NONE && cur == NONE {
                cover!("open_after_close");
                check!(matches!(r, Err(TreeBuildError::RootClosed)), "a node is opened after the root was closed");
            } else {
                cover!("opened");
                check!(r.is_ok(), "a node cannot be opened");
                let i = w.m.add_node(d);
                if cur == NONE {
                    root = i;
                } else {
                    let at = w.m.nk(cur);
                    w.m.link(cur, at, i);
                }
                cur = i;
            }
        } else {
            let c = any_usize();
            let mut open = 0;
            let mut j = cur;
            while j != NONE {
                open += 1;
                j = if j == root { NONE } else { w.m.parent(j) };
            }
            let r = if !event {
                b.close(c)
            } else if many {
                b.push_events([Event::Close(c)])
            } else {
                b.push_event(Event::Close(c))
            };
            if c <= open {
                check!(r.is_ok(), "open nodes cannot be closed");
                let mut j = 0;
                while j < c {
                    cur = if cur == root { NONE } else { w.m.parent(cur) };
                    j += 1;
                }
                if c == 0 {
                    cover!("closed_none");
                }
                if c > 1 {
                    cover!("closed_several");
                }
                if c > 0 && cur == NONE {
                    cover!("closed_root");
                }
            } else {
                match r {
                    Ok(()) => check!(false, "more nodes are closed than are open"),
                    Err(TreeBuildError::RootNotOpened) => {
                        cover!("not_opened");
                        check!(root == NONE, "the root is open but reported as not opened")
                    }
                    Err(TreeBuildError::RootClosed) => {
                        cover!("over_closed");
                        check!(root != NONE, "the root is reported as closed before it is opened")
                    }
                    Err(_) => check!(false, "the kind of the error"),
                }
                // The rest of the builder's life is left open, except for the nodes.
                failed = true;
            }
        }
        i += 1;
    }
    if !failed {
        check!(b.is_root_available() == (root != NONE), "is_root_available");
        check!(b.is_root_closed() == (root != NONE && cur == NONE), "is_root_closed");
    }
    let opt = !one && flip();
    let got = if opt {
        b.finish_opt()
    } else {
        match b.finish() {
            Ok(n) => Some(n),
            Err(e) => {
                check!(matches!(e, TreeBuildError::RootNotOpened), "the kind of the error");
                None
            }
        }
    };
    match got {
        None => check!(root == NONE, "the root is lost"),
        Some(n) => {
            cover!("finished");
            check!(root != NONE, "a root out of nowhere");
            if k > 0 {
                check!(n.ptr_eq(w.n(root)), "the root is another node");
            } else {
                w.h[root] = Some(n);
            }
        }
    }
    w.reacquire();
    w.check_all();
    drop(w);
    check!(live() == 0, "memory is leaked");
}

/// C26: a batch of events does what the events do one by one, up to the first that fails.
pub fn batch(len: usize) {
    let mut w = World::new();
    let n = choose(len + 1);
    let dft = flip();
    let mut ev = [None; N];
    // 0: no error, 1: closed before it is opened, 2: the root is closed already.
    let mut want = 0;
    let mut root = NONE;
    let mut cur = NONE;
    let mut i = 0;
    while i < n {
        if flip() {
            let d = any_u8();
            ev[i] = Some(Event::Open(d));
            if want == 0 && root != NONE && cur == NONE {
                want = 2;
            } else if want == 0 {
                let x = w.m.add_node(d);
                if cur == NONE {
                    root = x;
                } else {
                    let at = w.m.nk(cur);
                    w.m.link(cur, at, x);
                }
                cur = x;
            }
        } else {
            let c = if dft { 1 } else { any_usize() };
            ev[i] = Some(Event::Close(c));
            let open = if cur == NONE { 0 } else { w.m.depth(cur) + 1 };
            if want == 0 && c <= open {
                let mut j = 0;
                while j < c {
                    cur = w.m.parent(cur);
                    j += 1;
                }
            } else if want == 0 {
                want = if root == NONE { 1 } else { 2 };
            }
        }
        i += 1;
    }
    let first = if want == 0 && root == NONE { 1 } else { want };
    let source = HotNode::new_tree(0u8).plain();
    let list = ev.into_iter().flatten();
    let nodes = ev.into_iter().flatten().map(|e| match e {
        Event::Open(d) => DftEvent::Open(HotNode::new_tree(d).plain()),
        Event::Close(_) => DftEvent::Close(source.clone()),
    });
    let code = |e: &TreeBuildError| match e {
        TreeBuildError::RootNotOpened => 1,
        TreeBuildError::RootClosed => 2,
        _ => 3,
    };
    let how = choose(if dft { 2 } else { 5 });
    let built: Result<Node<u8>, TreeBuildError> = match (how, dft) {
        (0, _) => {
            // What was built before the error stays.
            let mut b = TreeBuilder::new();
            let r = if dft { b.push_dft_events(nodes) } else { b.push_events(list) };
            check!(r.as_ref().map_or_else(code, |_| 0) == want, "the result of a batch of events");
            check!(b.is_root_available() == (root != NONE), "is_root_available");
            cover!("pushed");
            match b.finish_opt() {
                Some(n) => {
                    want = 0;
                    Ok(n)
                }
                None => {
                    check!(root == NONE, "the nodes built before an error are lost");
                    return;
                }
            }
        }
        (_, true) => nodes.collect(),
        (1, _) => list.collect(),
        (2, _) => list.collect::<Result<Tree<u8>, _>>().map(|t| t.root()),
        (3, _) => list.collect::<Result<HotNode<u8>, _>>().map(|n| {
            check!(n.tree().prohibit_hierarchy_edit().is_err(), "a hot node without a grant");
            n.plain()
        }),
        _ => list.collect::<Result<FrozenNode<u8>, _>>().map(|n| {
            check!(n.tree().grant_hierarchy_edit().is_err(), "a frozen node without a prohibition");
            n.plain()
        }),
    };
    drop(source);
    match built {
        Ok(n) => {
            check!(root != NONE && (how == 0 || want == 0), "a wrong sequence of events is accepted");
            cover!("built");
            w.h[root] = Some(n);
            w.reacquire();
            w.check_all();
        }
        Err(e) => {
            check!(how > 0 && first != 0, "a sequence of events is refused");
            cover!("refused");
            check!(code(&e) == first, "the error for a sequence of events");
        }
    }
    drop(w);
    check!(live() == 0, "memory is leaked");
}
