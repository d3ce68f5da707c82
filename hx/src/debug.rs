//! Debug printing.

use crate::model::*;
use crate::sym::*;
use core::fmt::{self, Write};
use dendron::Node;

const CAP: usize = 4096;

struct Sink {
    buf: [u8; CAP],
    n: usize,
    cap: usize,
}

impl Sink {
    fn new(cap: usize) -> Self {
        Sink { buf: [0; CAP], n: 0, cap }
    }
    /// Removes the spaces before line ends and the end.
    fn trim(&mut self) {
        let mut n = 0;
        let mut i = 0;
        while i < self.n {
            if self.buf[i] == b'\n' {
                while n > 0 && self.buf[n - 1] == b' ' {
                    n -= 1;
                }
            }
            self.buf[n] = self.buf[i];
            n += 1;
            i += 1;
        }
        while n > 0 && self.buf[n - 1] == b' ' {
            n -= 1;
        }
        self.n = n;
    }
}

impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let b = s.as_bytes();
        let mut i = 0;
        while i < b.len() {
            if self.n >= self.cap {
                return Err(fmt::Error);
            }
            self.buf[self.n] = b[i];
            self.n += 1;
            i += 1;
        }
        Ok(())
    }
}

/// The lines the data prints, by tag. 0-9: one line; 10-19: two lines; 20-29: a blank line inside; 30-39: nothing;
/// 40-49: a blank line first.
fn lines(tag: u8) -> [&'static str; 3] {
    const NAME: [&str; 10] = ["A", "B", "C", "D", "E", "F", "G", "H", "I", "J"];
    let x = NAME[(tag % 10) as usize];
    match tag / 10 {
        0 => [x, "$", "$"],
        1 => [x, x, "$"],
        2 => [x, "", x],
        3 => ["", "$", "$"],
        _ => ["", x, "$"],
    }
}

#[derive(Clone)]
pub struct Text(u8);

static mut STYLE: u8 = 0;
static mut NEXT: u8 = 0;

impl Elem for Text {
    fn any_tag() -> u8 {
        unsafe { NEXT + STYLE }
    }
    fn make(tag: u8) -> Self {
        unsafe { NEXT += 1 };
        Text(tag)
    }
    fn tag(&self) -> u8 {
        self.0
    }
}

impl fmt::Display for Text {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let l = lines(self.0);
        // Alternate mode is passed on.
        if f.alternate() {
            f.write_char('#')?;
        }
        let mut i = 0;
        while i < 3 && l[i] != "$" {
            if i > 0 {
                f.write_char('\n')?;
            }
            f.write_str(l[i])?;
            i += 1;
        }
        Ok(())
    }
}
impl fmt::Debug for Text {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_char('?')?;
        fmt::Display::fmt(self, f)
    }
}

/// The documented format: one node after the other in preorder, with its ancestors as indents.
fn pretty(m: &Model, a: usize, b: usize, alt: bool, dbg: bool, out: &mut Sink) {
    let mut i = a;
    while i != NONE {
        let text = if i == b { ["(borrowed)", "$", "$"] } else { lines(m.data[i]) };
        let mut k = 0;
        while k < 3 && text[k] != "$" {
            if !(i == a && k == 0) {
                let _ = out.write_char('\n');
            }
            // The path below `a`.
            let mut path = [0usize; N];
            let mut d = 0;
            let mut j = i;
            while j != a {
                path[d] = j;
                d += 1;
                j = m.parent(j);
            }
            while d > 0 {
                d -= 1;
                let is_last = m.next(path[d]) == NONE;
                let own = path[d] == i && k == 0;
                let _ = out.write_str(match (is_last, own) {
                    (false, true) => "|-- ",
                    (true, true) => "`-- ",
                    (false, false) => "|   ",
                    (true, false) => "    ",
                });
            }
            if k == 0 && i != b {
                if dbg {
                    let _ = out.write_char('?');
                }
                if alt {
                    let _ = out.write_char('#');
                }
            }
            let _ = out.write_str(text[k]);
            k += 1;
        }
        i = m.pre_next(a, i);
    }
}

/// The node to print, and one that is borrowed (or none).
fn places(w: &WorldOf<Text>) -> (usize, usize) {
    let n = w.m.n;
    if w.large {
        (choose(2) * n / 2, [n, n - 1, n / 2][choose(3)])
    } else {
        (pick(n), pick(n + 1))
    }
}

/// C25: the pretty printer shows every node of the subtree once, at its place.
pub fn pretty_print(k: usize) {
    unsafe { STYLE = 10 * choose(5) as u8 };
    let mut w = WorldOf::<Text>::new();
    w.build_upto(k);
    let (a, b) = places(&w);
    let busy: Option<Node<Text>> = if b < w.m.n { Some(w.n(b).clone()) } else { None };
    let guard = busy.as_ref().map(|x| x.borrow_data_mut());
    let (alt, dbg) = (flip(), flip());
    let mut want = Sink::new(CAP);
    pretty(&w.m, a, b, alt, dbg, &mut want);
    // A writer that fails must be reported, without anything else happening.
    want.trim();
    let short = want.n > 0 && !w.large && flip();
    let mut got = Sink::new(if short { want.n / 2 } else { CAP });
    let which = if w.large { 0 } else { choose(4) };
    let r = match which {
        0 => {
            let p = w.n(a).debug_pretty_print();
            show(&mut got, &p, alt, dbg)
        }
        1 => {
            let h = w.hot(a);
            let p = h.debug_pretty_print();
            show(&mut got, &p, alt, dbg)
        }
        2 => {
            let h = w.frozen(a);
            let p = h.debug_pretty_print();
            show(&mut got, &p, alt, dbg)
        }
        _ => {
            if w.m.parent(a) != NONE {
                return;
            }
            let t = w.n(a).tree();
            let p = t.debug_pretty_print();
            show(&mut got, &p, alt, dbg)
        }
    };
    check!(r.is_err() == short, "a failing writer is reported");
    if !short {
        // Whether blank lines get trailing spaces is left open.
        got.trim();
        check!(got.n == want.n, "the length of the output");
    }
    let mut i = 0;
    while i < want.n && !short {
        check!(got.buf[i] == want.buf[i], "the output of the pretty printer");
        i += 1;
    }
    cover!("printed");
    if b < w.m.n && w.m.anc_or_self(a, b) {
        cover!("borrowed");
    }
    drop(guard);
    w.check_links();
    w.check_unlocked();
}

fn show<P: fmt::Display + fmt::Debug>(s: &mut Sink, p: &P, alt: bool, dbg: bool) -> fmt::Result {
    match (alt, dbg) {
        (false, false) => write!(s, "{}", p),
        (true, false) => write!(s, "{:#}", p),
        (false, true) => write!(s, "{:?}", p),
        (true, true) => write!(s, "{:#?}", p),
    }
}

/// The nodes in the output (names, or `<` for borrowed ones), and how many lists enclose each.
fn check_marks(m: &Model, a: usize, b: usize, all: bool, out: &Sink) {
    let mut depth = 0;
    let mut i = a;
    let mut p = 0;
    while p < out.n {
        let c = out.buf[p];
        if c == b'[' {
            depth += 1;
        } else if c == b']' {
            depth -= 1;
        } else if c == b'?' || c == b'<' {
            check!(i != NONE, "more nodes are printed than there are");
            if c == b'?' {
                let mut q = p + 1;
                if out.buf[q] == b'#' {
                    q += 1;
                }
                check!(out.buf[q] == b'A' + m.data[i] % 10, "the order of the printed nodes");
                check!(i != b, "the data of a mutably borrowed node was read");
            } else {
                check!(i == b, "a node is shown as borrowed");
            }
            if all {
                check!(depth == m.depth(i) - m.depth(a), "the nesting of a printed node");
                i = m.pre_next(a, i);
            } else {
                i = NONE;
            }
        }
        p += 1;
    }
    check!(i == NONE, "a node is not printed");
    check!(depth == 0, "lists are not closed");
}

/// C25: the other printers never fail and show each node once.
pub fn debug_print(k: usize) {
    let mut w = WorldOf::<Text>::new();
    w.build_upto(k);
    let (a, b) = places(&w);
    let busy: Option<Node<Text>> = if b < w.m.n { Some(w.n(b).clone()) } else { None };
    let guard = busy.as_ref().map(|x| x.borrow_data_mut());
    let alt = flip();
    let mut got = Sink::new(CAP);
    let s = &mut got;
    let which = choose(11);
    let mut top = a;
    let all = which >= 6;
    let r = match which {
        0 => dbg(s, w.n(a), alt),
        1 => dbg(s, &w.hot(a), alt),
        2 => dbg(s, &w.frozen(a), alt),
        3 => dbg(s, &w.n(a).debug_print_local(), alt),
        4 => {
            let x = w.hot(a);
            dbg(s, &x.debug_print_local(), alt)
        }
        5 => {
            let x = w.frozen(a);
            dbg(s, &x.debug_print_local(), alt)
        }
        6 => dbg(s, &w.n(a).debug_print_subtree(), alt),
        7 => {
            let x = w.hot(a);
            dbg(s, &x.debug_print_subtree(), alt)
        }
        8 => {
            let x = w.frozen(a);
            dbg(s, &x.debug_print_subtree(), alt)
        }
        9 => {
            top = w.m.root(a);
            let t = w.n(a).tree();
            dbg(s, &t.debug_print(), alt)
        }
        _ => {
            // These show no node.
            let t = w.n(a).tree();
            check!(dbg(s, &t, alt).is_ok(), "printing a tree failed");
            check!(dbg(s, &t.debug_print_local(), alt).is_ok(), "printing a tree failed");
            check!(dbg(s, &t.downgrade(), alt).is_ok(), "printing a weak reference failed");
            let weak = w.n(a).downgrade();
            check!(dbg(s, &weak, alt).is_ok(), "printing a weak reference failed");
            check!(write!(s, "{}", dendron::tree::HierarchyEditProhibitionError).is_ok(), "printing an error failed");
            check!(write!(s, "{}", dendron::tree::HierarchyEditGrantError).is_ok(), "printing an error failed");
            check!(write!(s, "{}", dendron::HierarchyError::EmptyTree).is_ok(), "printing an error failed");
            check!(write!(s, "{}", dendron::serial::TreeBuildError::RootClosed).is_ok(), "printing an error failed");
            if let Err(e) = w.n(a).try_clone_subtree() {
                let e = dendron::HierarchyError::BorrowNodeData(e);
                check!(write!(s, "{} {:?}", e, e).is_ok(), "printing an error failed");
            }
            cover!("others");
            return;
        }
    };
    check!(r.is_ok(), "printing failed");
    check_marks(&w.m, top, b, all, &got);
    cover!("printed");
    drop(guard);
    w.check_links();
    w.check_unlocked();
}

fn dbg<P: fmt::Debug>(s: &mut Sink, p: &P, alt: bool) -> fmt::Result {
    if alt {
        write!(s, "{:#?}", p)
    } else {
        write!(s, "{:?}", p)
    }
}
