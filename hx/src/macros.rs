//! The macros `tree_node!` and `tree!`, for every ordered tree of up to five nodes, and further forms.

use crate::model::*;
use crate::sym::*;
use dendron::{tree, tree_node, Node, Tree};

/// The parent of every node in preorder, for every tree of up to five nodes.
const SHAPES: [&[u8]; 28] = [
    &[255],
    &[255, 0],
    &[255, 0, 0],
    &[255, 0, 1],
    &[255, 0, 0, 0],
    &[255, 0, 0, 2],
    &[255, 0, 1, 0],
    &[255, 0, 1, 1],
    &[255, 0, 1, 2],
    &[255, 0, 0, 0, 0],
    &[255, 0, 0, 0, 3],
    &[255, 0, 0, 2, 0],
    &[255, 0, 0, 2, 2],
    &[255, 0, 0, 2, 3],
    &[255, 0, 1, 0, 0],
    &[255, 0, 1, 0, 3],
    &[255, 0, 1, 1, 0],
    &[255, 0, 1, 2, 0],
    &[255, 0, 1, 1, 1],
    &[255, 0, 1, 1, 3],
    &[255, 0, 1, 2, 1],
    &[255, 0, 1, 2, 2],
    &[255, 0, 1, 2, 3],
    // Empty lists, and a comma after the list of the root.
    &[255],
    &[255, 0, 0],
    &[255, 0, 0],
    &[255, 0, 1, 1],
    &[255, 0, 1, 2, 1, 0, 5, 0],
];

#[rustfmt::skip]
fn node(s: usize, d: &mut dyn FnMut() -> u8) -> Node<u8> {
    match s {
        0 => tree_node! { d() },
        1 => tree_node! { d(), [d(),], },
        2 => tree_node! { d(), [d(), d()] },
        3 => tree_node! { d(), [/(d(), [d(),]),], },
        4 => tree_node! { d(), [d(), d(), d()] },
        5 => tree_node! { d(), [d(), /(d(), [d(),]),], },
        6 => tree_node! { d(), [/(d(), [d()]), d()] },
        7 => tree_node! { d(), [/(d(), [d(), d(),]),], },
        8 => tree_node! { d(), [/(d(), [/(d(), [d()])])] },
        9 => tree_node! { d(), [d(), d(), d(), d(),], },
        10 => tree_node! { d(), [d(), d(), /(d(), [d()])] },
        11 => tree_node! { d(), [d(), /(d(), [d(),]), d(),], },
        12 => tree_node! { d(), [d(), /(d(), [d(), d()])] },
        13 => tree_node! { d(), [d(), /(d(), [/(d(), [d(),]),]),], },
        14 => tree_node! { d(), [/(d(), [d()]), d(), d()] },
        15 => tree_node! { d(), [/(d(), [d(),]), /(d(), [d(),]),], },
        16 => tree_node! { d(), [/(d(), [d(), d()]), d()] },
        17 => tree_node! { d(), [/(d(), [/(d(), [d(),]),]), d(),], },
        18 => tree_node! { d(), [/(d(), [d(), d(), d()])] },
        19 => tree_node! { d(), [/(d(), [d(), /(d(), [d(),]),]),], },
        20 => tree_node! { d(), [/(d(), [/(d(), [d()]), d()])] },
        21 => tree_node! { d(), [/(d(), [/(d(), [d(), d(),]),]),], },
        22 => tree_node! { d(), [/(d(), [/(d(), [/(d(), [d()])])])] },
        23 => tree_node! { d(), [] },
        24 => tree_node! { d(), [/(d(), []), d()] },
        25 => tree_node! { d(), [d(), /(d(), []),] },
        26 => tree_node! { d(), [/(d(), [/(d(), []), d()]),], },
        _ => tree_node! { d(), [/(d(), [/(d(), [d()]), d()]), /(d(), [d()]), d()], },
    }
}

#[rustfmt::skip]
fn tree(s: usize, d: &mut dyn FnMut() -> u8) -> Tree<u8> {
    match s {
        0 => tree! { d() },
        1 => tree! { d(), [d()] },
        2 => tree! { d(), [d(), d(),], },
        3 => tree! { d(), [/(d(), [d()])] },
        4 => tree! { d(), [d(), d(), d(),], },
        5 => tree! { d(), [d(), /(d(), [d()])] },
        6 => tree! { d(), [/(d(), [d(),]), d(),], },
        7 => tree! { d(), [/(d(), [d(), d()])] },
        8 => tree! { d(), [/(d(), [/(d(), [d(),]),]),], },
        9 => tree! { d(), [d(), d(), d(), d()] },
        10 => tree! { d(), [d(), d(), /(d(), [d(),]),], },
        11 => tree! { d(), [d(), /(d(), [d()]), d()] },
        12 => tree! { d(), [d(), /(d(), [d(), d(),]),], },
        13 => tree! { d(), [d(), /(d(), [/(d(), [d()])])] },
        14 => tree! { d(), [/(d(), [d(),]), d(), d(),], },
        15 => tree! { d(), [/(d(), [d()]), /(d(), [d()])] },
        16 => tree! { d(), [/(d(), [d(), d(),]), d(),], },
        17 => tree! { d(), [/(d(), [/(d(), [d()])]), d()] },
        18 => tree! { d(), [/(d(), [d(), d(), d(),]),], },
        19 => tree! { d(), [/(d(), [d(), /(d(), [d()])])] },
        20 => tree! { d(), [/(d(), [/(d(), [d(),]), d(),]),], },
        21 => tree! { d(), [/(d(), [/(d(), [d(), d()])])] },
        22 => tree! { d(), [/(d(), [/(d(), [/(d(), [d(),]),]),]),], },
        23 => tree! { d(), [], },
        24 => tree! { d(), [/(d(), []), d()], },
        25 => tree! { d(), [d(), /(d(), [])], },
        26 => tree! { d(), [/(d(), [/(d(), []), d()])] },
        _ => tree! { d(), [/(d(), [/(d(), [d()]), d(),]), /(d(), [d(),]), d()] },
    }
}

/// C26: the macros build the tree as written, and evaluate every expression once, in order.
pub fn macros() {
    let s = choose(SHAPES.len());
    let mut w = World::new();
    let mut i = 0;
    while i < SHAPES[s].len() {
        let c = w.m.add_node(0);
        let p = SHAPES[s][i] as usize;
        if p != NONE {
            let at = w.m.nk(p);
            w.m.link(p, at, c);
        }
        i += 1;
    }
    let mut count = 0;
    let data = &mut w.m.data;
    let mut next = || {
        let d = any_u8();
        if count < N {
            data[count] = d;
        }
        count += 1;
        d
    };
    let n = if flip() {
        cover!("tree_node");
        node(s, &mut next)
    } else {
        cover!("tree");
        let t = tree(s, &mut next);
        t.root()
    };
    check!(count == w.m.n, "the number of evaluated expressions");
    w.h[0] = Some(n);
    w.reacquire();
    w.check_all();
    drop(w);
    check!(live() == 0, "memory is leaked");
}
