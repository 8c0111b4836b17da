//! P19 wrapping a pattern does not change what it matches
//!
//! Every wrapper of the crate around an abstract sub-pattern with arbitrary
//! behaviour, compared with that sub-pattern used directly: result (span, value
//! or error), position afterwards (also where a failure leaves it), and the
//! handler being run once per match with the matched span.
use crate::abs::{M, N, Orc, Tab, Tok, W, tok};
use crate::nd;
use neure::ctor::{self, Ctor, CtorIntoHelper, CtorOps, CtorRefAsDynCtor, Handler};
use neure::ctx::Match;
use neure::err::Error;
use neure::regex::{self, RecParser, RecParserSync, RecursiveParser, RecursiveParserSync, Regex, RegexIntoHelper, RegexRefAsCtor, RegexRefAsDynRegex, rec_parser, rec_parser_sync};
use neure::span::Span;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::{Arc, Mutex, OnceLock};

type Rt = Result<Span, Error>;

/// Handler that may fail; remembers what it was given.
pub struct Hs {
    fail: bool,
    n: u8,
    last: Span,
}
impl Hs {
    fn new(fail: bool) -> Self {
        Hs { fail, n: 0, last: Span::new(0, 0) }
    }
}
impl Handler<M> for Hs {
    type Out = Tok;
    type Error = Error;
    fn invoke(&mut self, _: &M, s: &Span) -> Result<Tok, Error> {
        self.n += 1;
        self.last = *s;
        if self.fail { Err(Error::Uid(77)) } else { Ok(tok(9, s.beg, s.beg + s.len)) }
    }
}
/// A world with position 0 as base, so that spans fit a `Tok`.
fn world() -> W {
    let mut w = W::skipping();
    w.base = 0;
    w
}

/// recognising through `p` == recognising with the sub-pattern itself
fn same_rec<P: Regex<M> + ?Sized>(t: &Tab, w: &W, p: &P) -> bool {
    let (mut c, mut d) = (M::new(w), M::new(w));
    let a = t.orc(0, w.base).try_parse(&mut c);
    let b = p.try_parse(&mut d);
    chk!(a == b, "the wrapper recognises something else");
    chk!(c.off == d.off, "the wrapper leaves another position");
    a.is_ok()
}
/// matching through the context: same, including the text a policy skips
fn same_mat<P: Regex<M> + ?Sized>(t: &Tab, w: &W, p: &P) -> bool {
    let (mut c, mut d) = (M::new(w), M::new(w));
    let a = c.try_mat(&t.orc(0, w.base));
    let b = d.try_mat(p);
    chk!(a == b, "the wrapper matches something else");
    chk!(c.off == d.off, "the wrapper leaves another position");
    a.is_ok()
}
/// a pattern used as a builder: matches through the context, then runs the handler on the matched span
fn reg_bld<P: Ctor<M, Tok, Hs> + ?Sized>(t: &Tab, w: &W, p: &P) -> bool {
    let (mut c, mut d) = (M::new(w), M::new(w));
    let fail = nd::bool();
    let mut h = Hs::new(fail);
    let a = c.try_mat(&t.orc(0, w.base));
    let b = p.construct(&mut d, &mut h);
    match a {
        Err(e) => {
            chk!(b == Err(e), "the wrapper builds from a failed match");
            chk!(h.n == 0, "the handler ran although nothing matched");
        }
        Ok(s) => {
            chk!(h.n == 1, "the handler did not run exactly once");
            chk!(h.last == s, "the handler was given another span");
            if fail {
                chk!(b == Err(Error::Uid(77)), "the handler's error was lost");
            } else {
                chk!(b == Ok(tok(9, s.beg, s.beg + s.len)), "the handler's value was changed");
            }
        }
    }
    chk!(c.off == d.off, "the wrapper leaves another position");
    b.is_ok()
}
/// building through `p` == building with the builder itself
fn same_bld<P: Ctor<M, Tok, Hs> + ?Sized>(t: &Tab, w: &W, p: &P) -> bool {
    let (mut c, mut d) = (M::new(w), M::new(w));
    let (mut h, mut k) = (Hs::new(false), Hs::new(false));
    let a: Result<Tok, Error> = t.orc(0, w.base).construct(&mut c, &mut h);
    let b = p.construct(&mut d, &mut k);
    chk!(a == b, "the wrapper builds something else");
    chk!(c.off == d.off, "the wrapper leaves another position");
    chk!(h.n == k.n, "the wrapper runs the handler another number of times");
    a.is_ok()
}
fn tw() -> (Tab, W) {
    (Tab::any(), world())
}
/// A pattern wrapper: recognising directly, through the context, and building with a handler.
macro_rules! regw {
    (|$t:ident, $o:ident| $e:expr) => {{
        let (tab, w) = tw();
        let $t = &tab;
        let _ = $t;
        let $o = tab.orc(0, w.base);
        let p = $e;
        let a = same_rec(&tab, &w, &p);
        let b = same_mat(&tab, &w, &p);
        let c = reg_bld(&tab, &w, &p);
        if nd::bool() { a } else if nd::bool() { b } else { c }
    }};
}
/// A pattern wrapper that only recognises.
macro_rules! rego {
    (|$o:ident| $e:expr) => {{
        let (tab, w) = tw();
        let $o = tab.orc(0, w.base);
        let p = $e;
        let a = same_rec(&tab, &w, &p);
        let b = same_mat(&tab, &w, &p);
        if nd::bool() { a } else { b }
    }};
}
/// A builder wrapper: recognising and building.
macro_rules! ctow {
    (|$o:ident| $e:expr) => {{
        let (tab, w) = tw();
        let $o = tab.orc(0, w.base);
        let p = $e;
        let a = same_rec(&tab, &w, &p);
        let c = same_bld(&tab, &w, &p);
        if nd::bool() { a } else { c }
    }};
}
type DR<'b> = dyn Regex<M> + 'b;
type DRS<'b> = dyn Regex<M> + Send + 'b;
type DRY<'b> = dyn Regex<M> + Send + Sync + 'b;
type DC<'b> = dyn Ctor<M, Tok, Hs> + 'b;
type DCS<'b> = dyn Ctor<M, Tok, Hs> + Send + 'b;
type DCY<'b> = dyn Ctor<M, Tok, Hs> + Send + Sync + 'b;

/// an absent holder fails and consumes nothing, in both modes
fn absent<P: Ctor<M, Tok, Hs>>(p: &P, e: Error) -> bool {
    let w = world();
    let mut c = M::new(&w);
    chk!(p.try_parse(&mut c) == Err(e), "an absent pattern recognises something");
    chk!(c.rel() == w.s, "an absent pattern moves the position");
    let mut h = Hs::new(false);
    chk!(p.construct(&mut c, &mut h) == Err(e), "an absent pattern builds something");
    chk!(c.rel() == w.s && h.n == 0, "an absent pattern moves the position");
    chk!(c.try_mat(p) == Err(e), "an absent pattern matches something");
    chk!(c.rel() == w.s, "an absent pattern moves the position");
    nd::bool()
}

/// The same recursive grammar for both handles: R = A then R, or B.
/// Its meaning on a context that skips in front of every match:
/// the number of `A`s in front of the final `B`, and the end.
fn rec_model(build: bool, a: &Tab, b: &Tab, w: &W) -> Option<(u8, usize)> {
    // iterative: positions after k A's
    let mut pos = [0usize; N + 2];
    let mut k = 0;
    pos[0] = w.s;
    while k <= N {
        match w.m(build, a, pos[k]) {
            Some((_, e)) => {
                k += 1;
                pos[k] = e;
            }
            None => break,
        }
    }
    // innermost first: B after k A's, else give the last A back
    loop {
        if let Some((_, e)) = w.m(build, b, pos[k]) {
            return Some((k as u8, e));
        }
        if k == 0 {
            return None;
        }
        k -= 1;
    }
}
/// Runs a recursive handle in one mode and compares it with the model.
fn rec_chk<P: Ctor<M, u8, Hs>>(build: bool, a: &Tab, b: &Tab, w: &W, p: &P) -> bool {
    let want = rec_model(build, a, b, w);
    let mut c = M::new(w);
    if build {
        let r = p.construct(&mut c, &mut Hs::new(false));
        match want {
            Some((n, e)) => {
                chk!(r == Ok(n), "the recursive builder builds something else");
                chk!(c.rel() == e, "the recursive builder consumes something else");
            }
            None => chk!(r.is_err() && c.rel() == w.s, "the recursive builder matches something else"),
        }
        r.is_ok()
    } else {
        let r = c.try_mat(p);
        match want {
            Some((_, e)) => {
                chk!(r.is_ok(), "the recursive pattern matches something else");
                chk!(c.rel() == e, "the recursive pattern consumes something else");
            }
            None => chk!(r.is_err() && c.rel() == w.s, "the recursive pattern matches something else"),
        }
        r.is_ok()
    }
}
/// tables in which A always consumes something
fn rec_in() -> (Tab, Tab, W) {
    (Tab::any().progress(), Tab::any(), world())
}
macro_rules! body {
    ($a:expr, $b:expr, $h:expr) => {
        $a.then($h).map(|(_, n): (Tok, u8)| n + 1).or($b.map(|_: Tok| 0u8))
    };
}
/// a clone of the handle, never dropped
fn keep<T: Clone>(p: &T) -> std::mem::ManuallyDrop<T> {
    std::mem::forget(p.clone());
    std::mem::ManuallyDrop::new(p.clone())
}
fn recursive(build: bool) -> bool {
    let (a, b, w) = rec_in();
    let (x, y) = (a.orc(0, w.base), b.orc(1, w.base));
    let p = rec_parser::<M, u8, Hs, _>(move |h| body!(x, y, h));
    rec_chk(build, &a, &b, &w, &*keep(&p))
}
fn recursive_sync(build: bool) -> bool {
    let (a, b, w) = rec_in();
    let (x, y) = (a.orc(0, w.base), b.orc(1, w.base));
    let p = rec_parser_sync::<M, u8, _, Hs>(move |h| body!(x, y, h));
    rec_chk(build, &a, &b, &w, &*keep(&p))
}
/// the handles made through the `RecParser` types, used through a clone
fn recursive_ty(build: bool) -> bool {
    let (a, b, w) = rec_in();
    let (x, y) = (a.orc(0, w.base), b.orc(1, w.base));
    let p = <RecParser as RecursiveParser<M>>::build::<u8, _, Hs, _>(move |h| body!(x, y, h));
    rec_chk(build, &a, &b, &w, &*keep(&p))
}
fn recursive_ty_sync(build: bool) -> bool {
    let (a, b, w) = rec_in();
    let (x, y) = (a.orc(0, w.base), b.orc(1, w.base));
    let p = <RecParserSync as RecursiveParserSync<M>>::build::<u8, _, Hs, _>(move |h| body!(x, y, h));
    rec_chk(build, &a, &b, &w, &*keep(&p))
}
/// a handle used before it was given its pattern fails without consuming
fn uninit() -> bool {
    let p: regex::RecursiveCtor<'static, M, Tok, Hs> = Rc::new(RefCell::new(None));
    absent(&p, Error::Option)
}
fn uninit_sync() -> bool {
    let p: regex::RecursiveCtorSync<'static, M, Tok, Hs> = Arc::new(OnceLock::new());
    absent(&p, Error::Option)
}
/// a builder given as a function of context and handler
fn ctor_func() -> bool {
    let (tab, w) = tw();
    let o = tab.orc(0, w.base);
    let p = ctor::Adapter::<M, _>::func(move |c: &mut M, h: &mut Hs| -> Result<Tok, Error> { o.construct(c, h) });
    if nd::bool() { same_bld(&tab, &w, &p.clone()) } else { same_bld(&tab, &w, &p) }
}
fn once_lock(o: Orc<'_>) -> OnceLock<Orc<'_>> {
    let l = OnceLock::new();
    let _ = l.set(o);
    l
}

hs! {
    // patterns
    into_ctor [7, 9] regw!(|_t, o| RegexIntoHelper::<M>::into_ctor(o));
    into_box_regex [7, 9] regw!(|_t, o| RegexIntoHelper::<M>::into_box_regex(o));
    into_rc_regex [7, 9] regw!(|_t, o| RegexIntoHelper::<M>::into_rc_regex(o));
    into_arc_regex [7, 9] regw!(|_t, o| RegexIntoHelper::<M>::into_arc_regex(o));
    into_cell_regex [7, 9] regw!(|_t, o| RegexIntoHelper::<M>::into_cell_regex(o));
    into_refcell_regex [7, 9] regw!(|_t, o| RegexIntoHelper::<M>::into_refcell_regex(o));
    into_mutex_regex [7, 9] regw!(|_t, o| RegexIntoHelper::<M>::into_mutex_regex(o));
    into_dyn_regex [7, 9] regw!(|_t, o| RegexIntoHelper::<M>::into_dyn_regex(o));
    into_dyn_arc_regex [7, 9] regw!(|_t, o| RegexIntoHelper::<M>::into_dyn_arc_regex(o));
    into_dyn_rc_regex [7, 9] regw!(|_t, o| RegexIntoHelper::<M>::into_dyn_rc_regex(o));
    reg_dyn_box [7, 9] regw!(|_t, o| regex::Adapter::<M, Box<DR>>::dyn_box(o));
    reg_dyn_arc [7, 9] regw!(|_t, o| regex::Adapter::<M, Arc<DR>>::dyn_arc(o));
    reg_dyn_rc [7, 9] regw!(|_t, o| regex::Adapter::<M, Rc<DR>>::dyn_rc(o));
    reg_unwrapped [7, 9] rego!(|o| regex::Adapter::<M, _>::new(o).into_inner());
    reg_dyn_box_send [7, 9] regw!(|_t, o| regex::Adapter::<M, Box<DRS>>::dyn_box_send(o));
    reg_dyn_box_sync [7, 9] regw!(|_t, o| regex::Adapter::<M, Box<DRY>>::dyn_box_sync(o));
    reg_dyn_arc_send [7, 9] regw!(|_t, o| regex::Adapter::<M, Arc<DRS>>::dyn_arc_send(o));
    reg_dyn_arc_sync [7, 9] regw!(|_t, o| regex::Adapter::<M, Arc<DRY>>::dyn_arc_sync(o));
    reg_dyn_rc_send [7, 9] regw!(|_t, o| regex::Adapter::<M, Rc<DRS>>::dyn_rc_send(o));
    as_ctor [7, 9] regw!(|_t, o| RegexRefAsCtor::<M>::as_ctor(&o));
    as_dyn_regex [7, 9] regw!(|_t, o| RegexRefAsDynRegex::<M>::as_dyn_regex(&o));
    raw_box_dyn [7, 9] regw!(|_t, o| { let b: Box<DR> = Box::new(o); b });
    raw_box_dyn_send [7, 9] regw!(|_t, o| { let b: Box<DRS> = Box::new(o); b });
    raw_box_dyn_sync [7, 9] regw!(|_t, o| { let b: Box<DRY> = Box::new(o); b });
    raw_rc_dyn [7, 9] regw!(|_t, o| { let b: Rc<DR> = Rc::new(o); b });
    raw_rc_dyn_send [7, 9] regw!(|_t, o| { let b: Rc<DRS> = Rc::new(o); b });
    raw_arc_dyn [7, 9] rego!(|o| { let b: Arc<DR> = Arc::new(o); b });
    raw_arc_dyn_send [7, 9] rego!(|o| { let b: Arc<DRS> = Arc::new(o); b });
    raw_arc_dyn_sync [7, 9] rego!(|o| { let b: Arc<DRY> = Arc::new(o); b });
    closure [7, 9] regw!(|t, _o| { let t = *t; move |c: &mut M| -> Rt { t.orc(0, 0).try_parse(c) } });
    // builders
    into_box [7, 9] ctow!(|o| CtorIntoHelper::<M>::into_box(o));
    into_rc [7, 9] ctow!(|o| CtorIntoHelper::<M>::into_rc(o));
    into_arc [7, 9] ctow!(|o| CtorIntoHelper::<M>::into_arc(o));
    into_cell [7, 9] ctow!(|o| CtorIntoHelper::<M>::into_cell(o));
    into_refcell [7, 9] ctow!(|o| CtorIntoHelper::<M>::into_refcell(o));
    into_mutex [7, 9] ctow!(|o| CtorIntoHelper::<M>::into_mutex(o));
    into_dyn [7, 9] ctow!(|o| CtorIntoHelper::<M>::into_dyn::<Tok, Hs>(o));
    into_dyn_arc [7, 9] ctow!(|o| CtorIntoHelper::<M>::into_dyn_arc::<Tok, Hs>(o));
    into_dyn_rc [7, 9] ctow!(|o| CtorIntoHelper::<M>::into_dyn_rc::<Tok, Hs>(o));
    ctor_dyn_box [7, 9] ctow!(|o| ctor::Adapter::<M, Box<DC>>::dyn_box(o));
    ctor_dyn_arc [7, 9] ctow!(|o| ctor::Adapter::<M, Arc<DC>>::dyn_arc(o));
    ctor_dyn_rc [7, 9] ctow!(|o| ctor::Adapter::<M, Rc<DC>>::dyn_rc(o));
    ctor_unwrapped [7, 9] ctow!(|o| ctor::Adapter::<M, _>::new(o).into_inner());
    ctor_dyn_box_send [7, 9] ctow!(|o| ctor::Adapter::<M, Box<DCS>>::dyn_box_send(o));
    ctor_dyn_box_sync [7, 9] ctow!(|o| ctor::Adapter::<M, Box<DCY>>::dyn_box_sync(o));
    ctor_dyn_arc_send [7, 9] ctow!(|o| ctor::Adapter::<M, Arc<DCS>>::dyn_arc_send(o));
    ctor_dyn_arc_sync [7, 9] ctow!(|o| ctor::Adapter::<M, Arc<DCY>>::dyn_arc_sync(o));
    ctor_dyn_rc_send [7, 9] ctow!(|o| ctor::Adapter::<M, Rc<DCS>>::dyn_rc_send(o));
    as_dyn_ctor [7, 9] ctow!(|o| CtorRefAsDynCtor::<M, Tok, Hs>::as_dyn_ctor(&o));
    raw_box_ctor [7, 9] ctow!(|o| { let b: Box<DC> = Box::new(o); b });
    raw_box_ctor_send [7, 9] ctow!(|o| { let b: Box<DCS> = Box::new(o); b });
    raw_box_ctor_sync [7, 9] ctow!(|o| { let b: Box<DCY> = Box::new(o); b });
    raw_arc_ctor [7, 9] ctow!(|o| { let b: Arc<DC> = Arc::new(o); b });
    raw_arc_ctor_send [7, 9] ctow!(|o| { let b: Arc<DCS> = Arc::new(o); b });
    raw_arc_ctor_sync [7, 9] ctow!(|o| { let b: Arc<DCY> = Arc::new(o); b });
    raw_rc_ctor [7, 9] ctow!(|o| { let b: Rc<DC> = Rc::new(o); b });
    raw_rc_ctor_send [7, 9] ctow!(|o| { let b: Rc<DCS> = Rc::new(o); b });
    func_adapter [7, 9] ctor_func();
    // copies of wrappers
    into_ctor_copy [7, 9] regw!(|_t, o| RegexIntoHelper::<M>::into_ctor(o).clone());
    as_ctor_copy [7, 9] regw!(|_t, o| RegexRefAsCtor::<M>::as_ctor(&o).clone());
    as_dyn_regex_copy [7, 9] regw!(|_t, o| RegexRefAsDynRegex::<M>::as_dyn_regex(&o).clone());
    as_dyn_ctor_copy [7, 9] ctow!(|o| CtorRefAsDynCtor::<M, Tok, Hs>::as_dyn_ctor(&o).clone());
    into_arc_copy [7, 9] ctow!(|o| CtorIntoHelper::<M>::into_arc(o).clone());
    into_box_copy [7, 9] ctow!(|o| CtorIntoHelper::<M>::into_box(o).clone());
    // holders, both modes
    arc [7, 9] ctow!(|o| Arc::new(o));
    rc [7, 9] ctow!(|o| Rc::new(o));
    cell [7, 9] ctow!(|o| Cell::new(o));
    refcell [7, 9] ctow!(|o| RefCell::new(o));
    mutex [7, 9] ctow!(|o| Mutex::new(o));
    oncelock [7, 9] ctow!(|o| once_lock(o));
    option_some [7, 9] ctow!(|o| Some(o));
    nested [7, 9] ctow!(|o| Rc::new(RefCell::new(Some(Arc::new(Mutex::new(o))))));
    option_none [7, 9] absent(&None::<Orc<'static>>, Error::Option);
    oncelock_empty [7, 9] absent(&OnceLock::<Orc<'static>>::new(), Error::Option);
    // recursive handles
    rec_recognise [6, 8] recursive(false);
    rec_build [6, 8] recursive(true);
    rec_sync_recognise [6, 8] recursive_sync(false);
    rec_sync_build [6, 8] recursive_sync(true);
    rec_type_recognise [6, 8] recursive_ty(false);
    rec_type_build [6, 8] recursive_ty(true);
    rec_type_sync_recognise [6, 8] recursive_ty_sync(false);
    rec_type_sync_build [6, 8] recursive_ty_sync(true);
    rec_uninit [7, 9] uninit();
    rec_sync_uninit [7, 9] uninit_sync();
}
