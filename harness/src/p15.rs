//! P15 class algebra and minimum lengths
use crate::nd;
use crate::text::*;
use neure::ctx::*;
use neure::neu::*;

use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::{Arc, Mutex};

/// Items are shown one at a time: an arbitrary class is, on the item x it is
/// asked about, an arbitrary yes/no (the opposite on any other item), and
/// promises a minimum width that is right for x.
#[derive(Clone, Copy)]
struct A<T> {
    x: T,
    yes: bool,
    min: usize,
}
trait It: Copy + PartialEq + core::fmt::Debug + 'static {
    fn any() -> Self;
    fn w(&self) -> usize;
}
impl It for u8 {
    fn any() -> Self {
        nd::u8()
    }
    fn w(&self) -> usize {
        1
    }
}
impl It for char {
    fn any() -> Self {
        nd::char()
    }
    fn w(&self) -> usize {
        self.len_utf8()
    }
}
impl<T: It> A<T> {
    fn any(x: T) -> Self {
        let (yes, min) = (nd::bool(), nd::below(5));
        nd::assume(!yes || min <= x.w());
        A { x, yes, min }
    }
}
impl<T: It> Neu<T> for A<T> {
    fn is_match(&self, y: &T) -> bool {
        (*y == self.x) == self.yes
    }
    fn min_length(&self) -> usize {
        self.min
    }
}
fn same<T: It>(u: &impl Neu<T>, x: T, want: bool) -> bool {
    chk!(u.is_match(&x) == want, "not the Boolean combination of the operands");
    chk!(!want || u.min_length() <= x.w(), "promises more than the width of an item it accepts");
    want
}
fn ops<T: It>() -> bool {
    let x = T::any();
    let (a, b) = (A::any(x), A::any(x));
    let (p, q) = (a.yes, b.yes);
    same(&and(a, b), x, p & q);
    same(&a.and(b), x, p & q);
    same(&And::new(a, b), x, p & q);
    same(&or(a, b), x, p | q);
    same(&a.or(b), x, p | q);
    same(&Or::new(a, b), x, p | q);
    same(&not(a), x, !p);
    same(&NeuOp::not(a), x, !p);
    same(&Not::new(a), x, !p);
    same(&!a.and(b), x, !(p & q));
    same(&!a.or(b), x, !(p | q));
    same(&not(not(a)), x, p);
    same(&not(not(not(a))), x, !p);
    p
}
fn nested<T: It>() -> bool {
    let x = T::any();
    let (a, b, c, d) = (A::any(x), A::any(x), A::any(x), A::any(x));
    let (p, q, r, s) = (a.yes, b.yes, c.yes, d.yes);
    same(&a.and(b.or(c)), x, p & (q | r));
    same(&a.or(b.and(c)), x, p | (q & r));
    same(&a.or(b).and(c.or(d)), x, (p | q) & (r | s));
    same(&a.and(b).or(c.and(d)), x, (p & q) | (r & s));
    same(&not(a.and(not(b))).or(not(c).and(d)), x, !(p & !q) | (!r & s));
    same(&not(not(a).or(b.and(not(c)))).and(not(not(d))), x, !(!p | (q & !r)) & s);
    same(&a.or(b).or(c).or(d), x, p | q | r | s);
    same(&a.and(b).and(c).and(d), x, p & q & r & s);
    p & q & r & s
}
/// derived members of the operators
fn parts<T: It>() -> bool {
    let x = T::any();
    let (a, b, c) = (A::any(x), A::any(x), A::any(x));
    let mut n = not(a);
    chk!(n.unit().yes == a.yes, "unit");
    n.set_unit(b);
    same(&n, x, !b.yes);
    *n.unit_mut() = c;
    same(&n, x, !c.yes);
    let mut n = and(a, b);
    n.set_left(c);
    same(&n, x, c.yes & b.yes);
    n.set_right(a);
    same(&n, x, c.yes & a.yes);
    chk!(n.left().yes == c.yes && n.right().yes == a.yes, "left / right");
    let mut n = or(a, b);
    n.set_left(c);
    same(&n, x, c.yes | b.yes);
    n.set_right(a);
    same(&n, x, c.yes | a.yes);
    chk!(n.left().yes == c.yes && n.right().yes == a.yes, "left / right");
    let m = n.clone();
    same(&m, x, c.yes | a.yes)
}
fn keeps<T: It>(u: &impl Neu<T>, a: A<T>) -> bool {
    let x = a.x;
    same(u, x, a.yes);
    let y = T::any();
    chk!(u.is_match(&y) == a.is_match(&y), "answers differently through the wrapper");
    a.yes
}
fn wrap<T: It>(k: usize) -> bool {
    let x = T::any();
    let a = A::any(x);
    match k {
        0 => keeps(&(Box::new(a) as Box<dyn Neu<T>>), a),
        1 => keeps(&RefCell::new(a), a),
        2 => keeps(&Cell::new(a), a),
        3 => keeps(&Mutex::new(a), a),
        4 => keeps(&Arc::new(a), a),
        5 => keeps(&(Arc::new(a) as Arc<dyn Neu<T>>), a),
        6 => keeps(&Rc::new(a), a),
        7 => keeps(&(Rc::new(a) as Rc<dyn Neu<T>>), a),
        8 => keeps(&Rc::new(RefCell::new(a)), a),
        _ => keeps(&Arc::new(Mutex::new(a)), a),
    }
}
/// combinations through wrappers
fn wrap_mix() -> bool {
    let x = nd::char();
    let (a, b, c) = (A::any(x), A::any(x), A::any(x));
    let u = not(Rc::new(Cell::new(a))).and(RefCell::new(b)).or(Box::new(c) as Box<dyn Neu<char>>);
    same(&u, x, (!a.yes & b.yes) | c.yes)
}
/// a combination of characters, used as a pattern, on a text of one character
fn short(k: usize, w: usize) -> bool {
    let t = Lay::<1>::of([w]);
    let x = t.item(0);
    let (a, b) = (nd::char(), nd::char());
    let mut c = CharsCtx::new(t.get());
    let (want, r) = match k {
        0 => (x == a || x == b, c.try_mat(&a.or(b).once())),
        1 => (x == a && x == b, c.try_mat(&a.and(b).once())),
        2 => (x != a, c.try_mat(&not(a).once())),
        3 => (x != a && x != b, c.try_mat(&not(a.or(b)).many1())),
        4 => (x != a && x != b, c.try_mat(&not(a).and(not(b)).times(1..))),
        _ => (x != a || x == b, c.try_mat(&not(a).or(b).count::<1>())),
    };
    chk!(r.is_ok() == want, "an item is rejected although the class accepts it, or the other way round");
    chk!(!want || r.unwrap().len == t.len(), "span of one accepted character");
    want
}
/// a sequence of two, then exactly two, on a text of two characters
fn short2(k: usize) -> bool {
    let t = Text::<2, 8>::of(2);
    let (x, y) = (t.item(0), t.item(1));
    let (a, b) = (nd::char(), nd::char());
    let mut c = CharsCtx::new(t.get());
    let (want, r) = match k {
        0 => (x != a && (y == a || y == b), c.try_mat(&not(a).then(a.or(b)))),
        _ => ((x == a || x == b) && (y == a || y == b), c.try_mat(&a.or(b).count::<2>())),
    };
    chk!(r.is_ok() == want, "an item is rejected although the class accepts it, or the other way round");
    chk!(!want || r.unwrap().len == t.len(), "span of two accepted characters");
    want
}
hs! {
    ops_c [2, 2] ops::<char>();
    ops_b [2, 2] ops::<u8>();
    nested_c [2, 2] nested::<char>();
    nested_b [2, 2] nested::<u8>();
    parts_c [2, 2] parts::<char>();
    parts_b [2, 2] parts::<u8>();
    box_dyn [2, 2] wrap::<char>(0);
    refcell [2, 2] wrap::<char>(1);
    cell [2, 2] wrap::<char>(2);
    mutex [2, 2] wrap::<char>(3);
    arc [2, 2] wrap::<char>(4);
    arc_dyn [2, 2] wrap::<char>(5);
    rc [2, 2] wrap::<char>(6);
    rc_dyn [2, 2] wrap::<char>(7);
    rc_refcell [2, 2] wrap::<char>(8);
    arc_mutex [2, 2] wrap::<char>(9);
    box_dyn_b [2, 2] wrap::<u8>(0);
    refcell_b [2, 2] wrap::<u8>(1);
    cell_b [2, 2] wrap::<u8>(2);
    mutex_b [2, 2] wrap::<u8>(3);
    arc_b [2, 2] wrap::<u8>(4);
    rc_b [2, 2] wrap::<u8>(6);
    mix [2, 2] wrap_mix();
    short_or_1 [4, 4] short(0, 1);
    short_or_2 [4, 4] short(0, 2);
    short_or_3 [4, 4] short(0, 3);
    short_or_4 [4, 4] short(0, 4);
    short_and_1 [4, 4] short(1, 1);
    short_and_2 [4, 4] short(1, 2);
    short_and_3 [4, 4] short(1, 3);
    short_and_4 [4, 4] short(1, 4);
    short_not_1 [4, 4] short(2, 1);
    short_not_2 [4, 4] short(2, 2);
    short_not_3 [4, 4] short(2, 3);
    short_not_4 [4, 4] short(2, 4);
    short_nor_1 [4, 4] short(3, 1);
    short_nor_2 [4, 4] short(3, 2);
    short_nor_3 [4, 4] short(3, 3);
    short_nor_4 [4, 4] short(3, 4);
    short_nand_1 [4, 4] short(4, 1);
    short_nand_2 [4, 4] short(4, 2);
    short_nand_3 [4, 4] short(4, 3);
    short_nand_4 [4, 4] short(4, 4);
    short_not_or_1 [4, 4] short(5, 1);
    short_not_or_2 [4, 4] short(5, 2);
    short_not_or_3 [4, 4] short(5, 3);
    short_not_or_4 [4, 4] short(5, 4);
    short_then [4, 4] short2(0);
    short_two [4, 4] short2(1);
}
