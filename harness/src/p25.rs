//! P25 extracted values denote the matched text
#![allow(unused_imports)]
use crate::abs::{Fuel, M, N, Orc, Tab, Tok, W, tok};
use crate::leaf::*;
use crate::long::{L as LL, bytes_to};
use crate::nd;
use crate::text::*;
use neure::ctor::*;
use neure::ctx::*;
use neure::err::Error;
use neure::map::{FallibleMap, mapper};
use neure::neu::NeuIntoRegexOps;
use neure::regex::{self, Regex, consume, consume_all, empty, end, fail, literal, not, peek, start};
use neure::span::Span;
use std::cell::Cell;

type Want = Option<(usize, usize)>;

/// `got` is exactly the bytes `[beg, end)` of the input
fn is_sub(got: &[u8], all: &[u8], beg: usize, end: usize) {
    chk!(got.len() == end - beg, "the captured text has another length than the match");
    let mut i = 0;
    while i < end - beg {
        chk!(got[i] == all[beg + i], "the captured text is not the matched text");
        i += 1;
    }
}
/// A user's function: counts, remembers, may refuse.
struct User {
    refuse: bool,
    n: Cell<u8>,
    seen: Cell<Span>,
}
impl User {
    fn any() -> Self {
        User { refuse: nd::bool(), n: Cell::new(0), seen: Cell::new(Span::new(0, 0)) }
    }
    fn call(&self, s: &Span) -> Result<u8, Error> {
        self.n.set(self.n.get() + 1);
        self.seen.set(*s);
        self.out()
    }
    fn out(&self) -> Result<u8, Error> {
        if self.refuse { Err(Error::Uid(5)) } else { Ok(7) }
    }
    fn judge(&self, r: Result<u8, Error>, want: Want) {
        match want {
            Some((b, e)) => {
                chk!(self.n.get() == 1, "the user's function did not run exactly once");
                chk!(self.seen.get().beg == b && self.seen.get().len == e - b, "the user's function got another span");
                chk!(r == self.out(), "the user's outcome is not the result");
            }
            None => {
                chk!(self.n.get() == 0, "the user's function ran although nothing matched");
                chk!(r.is_err() && r != Err(Error::Uid(5)), "a value comes from a failed match");
            }
        }
    }
}
/// how a value is asked for
#[derive(Clone, Copy, PartialEq, Eq)]
enum How {
    CtorSpan,
    CtorWith,
    CtorHandler,
    Nothing,
    MapSpan,
    MapWith,
    MapHandler,
}
/// the pattern matches `want`, if it does
fn asked<'a, C, P>(how: How, c: &mut C, p: &P, want: Want) -> bool
where
    C: Match<'a> + Fuel,
    P: Regex<C> + Ctor<C, Span, Extract<Span>> + Ctor<C, (), Extract<()>> + Ctor<C, u8, Hn<'static>>,
{
    let off = c.offset();
    let u = Box::leak(Box::new(User::any()));
    let u: &'static User = u;
    match how {
        How::CtorSpan => {
            let r: Result<Span, Error> = c.ctor_span(p);
            match want {
                Some((b, e)) => chk!(r == Ok(Span::new(b, e - b)), "the captured span is not the matched one"),
                None => chk!(r.is_err(), "a span is captured although nothing matched"),
            }
        }
        How::Nothing => {
            let r: Result<(), Error> = c.ctor_handler(p, extract::<()>());
            chk!(r.is_ok() == want.is_some(), "capturing nothing does not go with matching");
        }
        How::CtorWith | How::CtorHandler => u.judge(c.ctor_handler(p, Hn(u)), want),
        How::MapSpan => u.judge(c.map_span(p, |s: Span| u.call(&s)), want),
        How::MapWith => u.judge(c.map_with(p, |_: &C, s: &Span| u.call(s)), want),
        How::MapHandler => u.judge(c.map_handler(p, Hn(u)), want),
    }
    match want {
        Some((_, e)) => chk!(c.offset() == e, "asking for a value consumes something else"),
        None => chk!(c.offset() == off, "a failed match moves the position"),
    }
    want.is_some()
}
#[derive(Clone, Copy)]
struct Hn<'u>(&'u User);
impl<C> Handler<C> for Hn<'_> {
    type Out = u8;
    type Error = Error;
    fn invoke(&mut self, _: &C, s: &Span) -> Result<u8, Error> {
        self.0.call(s)
    }
}
fn on_bytes(how: How) -> bool {
    let s = src_n();
    let off = nd::below(N + 1);
    let t = Tab::any();
    let want = t.rec(off).map(|e| (off, e));
    asked(how, &mut BytesCtx::new(s.get()).with_offset(off), &closure_like(&t), want)
}
fn on_skipping(how: How) -> bool {
    let s = src_n();
    let off = nd::below(N + 1);
    let (k, t) = (Tab::any(), Tab::any());
    let want = k.rec(off).and_then(|x| t.rec(x).map(|e| (x, e)));
    asked(how, &mut PolicyCtx::new(BytesCtx::new(s.get()).with_offset(off), k.orc(1, 0)), &closure_like(&t), want)
}
/// `ctor_with`: a function of the context and the span
fn ctor_with_() -> bool {
    let s = src_n();
    let off = nd::below(N + 1);
    let t = Tab::any();
    let want = t.rec(off).map(|e| (off, e));
    let mut c = BytesCtx::new(s.get()).with_offset(off);
    let u = User::any();
    let r: Result<u8, Error> = c.ctor_with(&closure_like(&t), |x: &BytesCtx, s: &Span| {
        chk!(x.offset() == s.beg + s.len, "the context handed to the user is not behind the match");
        u.call(s)
    });
    u.judge(r, want);
    want.is_some()
}
/// the text of the match itself
fn bytes_text(map: bool, skip: bool) -> bool {
    let s = src_n();
    let off = nd::below(N + 1);
    let (k, t) = (Tab::any(), Tab::any());
    let want = if skip { k.rec(off).and_then(|x| t.rec(x).map(|e| (x, e))) } else { t.rec(off).map(|e| (off, e)) };
    let c = BytesCtx::new(s.get()).with_offset(off);
    let p = closure_like(&t);
    let u = User::any();
    let see = |x: &[u8]| {
        if let Some((b, e)) = want {
            is_sub(x, s.get(), b, e);
            u.seen.set(Span::new(b, e - b));
        }
        u.n.set(u.n.get() + 1);
        u.out()
    };
    let r = match (map, skip) {
        (true, false) => { c }.map(&p, see),
        (true, true) => PolicyCtx::new(c, k.orc(1, 0)).map(&p, see),
        (false, false) => { c }.ctor(&p).and_then(see),
        (false, true) => PolicyCtx::new(c, k.orc(1, 0)).ctor(&p).and_then(see),
    };
    u.judge(r, want);
    want.is_some()
}
/// a pattern that reports less than it consumes: a value is made of what is reported
fn reported(k: u8) -> bool {
    let s: [u8; 3] = nd::bytes();
    let (off, end, b, e) = (nd::below(4), nd::below(4), nd::below(4), nd::below(4));
    nd::assume(off <= end && b <= e);
    let yes = nd::bool();
    let want = if yes { Some((b, e)) } else { None };
    let mut c = BytesCtx::new(&s).with_offset(off);
    let p = |c: &mut BytesCtx| {
        c.set_offset(end);
        if yes { Ok(Span::new(b, e - b)) } else { Err(Error::Uid(1)) }
    };
    let u = User::any();
    let see = |x: &[u8]| {
        if yes {
            is_sub(x, &s, b, e);
            u.seen.set(Span::new(b, e - b));
        }
        u.n.set(u.n.get() + 1);
        u.out()
    };
    let r = match k {
        0 => c.map(&p, see),
        1 => c.ctor(&p).and_then(see),
        2 => c.map_span(&p, |x: Span| u.call(&x)),
        3 => c.map_with(&p, |_: &BytesCtx, x: &Span| u.call(x)),
        4 => c.ctor_with(&p, |_: &BytesCtx, x: &Span| u.call(x)),
        5 => c.ctor_span(&p).and_then(|x| u.call(&x)),
        6 => c.ctor_handler(&p, Hn(&u)),
        _ => c.map_handler(&p, Hn(&u)),
    };
    u.judge(r, want);
    chk!(c.offset() == if yes { end } else { off }, "the position after asking for a value");
    yes
}
/// a behaviour that ends matches on character boundaries only
fn char_tab<const K: usize>(s: &Lay<K>) -> Tab {
    let t = Tab::any();
    let mut p = 0;
    while p <= N {
        if let Some(e) = t.rec(p) {
            nd::assume(s.at(e).is_some());
        }
        p += 1;
    }
    t
}
#[cfg(not(feature = "thorough"))]
const LAYS: [[usize; 2]; 2] = [[1, 2], [2, 1]];
#[cfg(feature = "thorough")]
const LAYS: [[usize; 2]; 2] = [[1, 4], [3, 2]];
/// 0: `&str`, 1: `String`, 2: a mapper of `&str`
fn chars_text(lay: usize, at: usize, kind: u8) -> bool {
    let s = Lay::of(LAYS[lay]);
    let off = s.pos(at);
    let t = char_tab(&s);
    let want = t.rec(off).map(|e| (off, e));
    let mut c = CharsCtx::new(s.get());
    c.set_offset(off);
    let p = closure_like(&t);
    let u = User::any();
    let all = s.get().as_bytes();
    let see = |x: &str| {
        if let Some((b, e)) = want {
            is_sub(x.as_bytes(), all, b, e);
            u.seen.set(Span::new(b, e - b));
        }
        u.n.set(u.n.get() + 1);
        u.out()
    };
    let r = match kind {
        0 => c.ctor(&p).and_then(see),
        1 => {
            let r: Result<String, Error> = c.ctor_handler(&p, extract::<String>());
            r.and_then(|x| see(&x))
        }
        _ => c.map(&p, see),
    };
    u.judge(r, want);
    match want {
        Some((_, e)) => chk!(c.offset() == e, "asking for a value consumes something else"),
        None => chk!(c.offset() == off, "a failed match moves the position"),
    }
    want.is_some()
}
/// `.map(f)` / `.try_map(f)` on a builder: f gets the built value, once, and its outcome is the result
fn mapped(fallible: bool) -> bool {
    let w = W::skipping();
    let t = Tab::any();
    let m = w.m(true, &t, w.s);
    let u = User::any();
    let f = |x: Tok| {
        if let Some((b, e)) = m {
            chk!(x == tok(1, b, e), "the converter got another value than the one built");
            u.seen.set(Span::new(b, e - b));
        }
        u.n.set(u.n.get() + 1);
        u.out()
    };
    let mut c = M::new(&w);
    let o = t.orc(1, w.base);
    let r: Result<u8, Error> = if fallible {
        o.try_map(f).construct(&mut c, &mut crate::abs::h0())
    } else {
        let r: Result<Result<u8, Error>, Error> = o.map(f).construct(&mut c, &mut crate::abs::h0());
        match (r, m) {
            (Ok(x), Some(_)) => x,
            (Err(e), None) => Err(e),
            _ => {
                chk!(false, "an infallible map changes the outcome");
                u.out()
            }
        }
    };
    u.judge(r, m);
    m.is_some()
}
/// Records every capture; may refuse the k-th.
struct Log {
    at: [Span; 8],
    n: usize,
    refuse: usize,
}
impl Log {
    fn any() -> Self {
        Log { at: [Span::new(0, 0); 8], n: 0, refuse: nd::below(4) }
    }
}
impl Handler<M> for Log {
    type Out = Span;
    type Error = Error;
    fn invoke(&mut self, _: &M, s: &Span) -> Result<Span, Error> {
        let i = self.n;
        chk!(i < 8, "too many captures");
        self.at[i] = *s;
        self.n += 1;
        if i == self.refuse { Err(Error::Uid(77)) } else { Ok(*s) }
    }
}
/// the captures there must have been, in order
struct Ev {
    w: W,
    at: [(usize, usize); 8],
    n: usize,
    refuse: usize,
}
impl Ev {
    fn new(w: &W, refuse: usize) -> Self {
        Ev { w: *w, at: [(0, 0); 8], n: 0, refuse }
    }
    /// capture of `t` at `p`: its end, if matched and not refused
    fn cap(&mut self, t: &Tab, p: usize) -> Option<usize> {
        match self.w.m(false, t, p) {
            Some(x) => {
                let i = self.n;
                self.at[i] = x;
                self.n += 1;
                if i == self.refuse { None } else { Some(x.1) }
            }
            None => None,
        }
    }
    /// match of `t` at `p` without a capture
    fn mat(&self, t: &Tab, p: usize) -> Option<usize> {
        self.w.m(false, t, p).map(|x| x.1)
    }
    fn same(&self, l: &Log, r: bool, want: bool) -> bool {
        chk!(r == want, "building does not go with matching and capturing");
        chk!(l.n == self.n, "the number of captures is not the number of matches");
        let mut i = 0;
        while i < self.n {
            let (b, e) = self.at[i];
            chk!(l.at[i].beg == self.w.base + b && l.at[i].len == e - b, "a capture is not the matched text");
            i += 1;
        }
        r
    }
    fn is(&self, i: usize, s: &Span) -> bool {
        let (b, e) = self.at[i];
        s.beg == self.w.base + b && s.len == e - b
    }
}
macro_rules! tabs {
    ($w:ident, $h:ident, $ev:ident, $c:ident; $($t:ident $o:ident $id:literal),*) => {
        let $w = W::skipping();
        $( let $t = Tab::any(); let $o = $crate::leaf::Pat($t.orc($id, $w.base)); )*
        let mut $h = Log::any();
        #[allow(unused_mut)]
        let mut $ev = Ev::new(&$w, $h.refuse);
        let mut $c = M::new(&$w);
    };
}
fn seq_captures() -> bool {
    tabs!(w, h, ev, c; a x 1, b y 2);
    let r: Result<(Span, Span), Error> = x.then(y).construct(&mut c, &mut h);
    let want = match ev.cap(&a, w.s) {
        Some(p) => ev.cap(&b, p),
        None => None,
    };
    if let Ok((s, t)) = &r {
        chk!(ev.n == 2 && ev.is(0, s) && ev.is(1, t), "the built pair is not the two captures");
    }
    ev.same(&h, r.is_ok(), want.is_some())
}
fn or_captures() -> bool {
    tabs!(w, h, ev, c; a x 1, b y 2);
    let r: Result<Span, Error> = x.or(y).construct(&mut c, &mut h);
    let want = match ev.cap(&a, w.s) {
        Some(p) => Some(p),
        None => ev.cap(&b, w.s),
    };
    if let Ok(s) = &r {
        chk!(ev.n > 0 && ev.is(ev.n - 1, s), "the built value is not the capture of the alternative that matched");
    }
    ev.same(&h, r.is_ok(), want.is_some())
}
fn enclose_captures() -> bool {
    tabs!(w, h, ev, c; l lo 1, a x 2, r_ ro 3);
    let r: Result<Span, Error> = x.enclose(lo, ro).construct(&mut c, &mut h);
    let want = match ev.mat(&l, w.s) {
        Some(p) => match ev.cap(&a, p) {
            Some(p) => ev.mat(&r_, p),
            None => None,
        },
        None => None,
    };
    if let Ok(s) = &r {
        chk!(ev.is(0, s), "the built value is not the enclosed capture");
    }
    ev.same(&h, r.is_ok(), want.is_some())
}
fn affix_captures(pre: bool) -> bool {
    tabs!(w, h, ev, c; a x 1, b y 2);
    let (r, want): (Result<Span, Error>, _) = if pre {
        let want = match ev.mat(&b, w.s) {
            Some(p) => ev.cap(&a, p),
            None => None,
        };
        (x.prefix(y).construct(&mut c, &mut h), want)
    } else {
        let want = match ev.cap(&a, w.s) {
            Some(p) => ev.mat(&b, p),
            None => None,
        };
        (x.suffix(y).construct(&mut c, &mut h), want)
    };
    if let Ok(s) = &r {
        chk!(ev.is(0, s), "the built value is not the capture");
    }
    ev.same(&h, r.is_ok(), want.is_some())
}
fn sep_once_captures() -> bool {
    tabs!(w, h, ev, c; a x 1, s so 2, b y 3);
    let r: Result<(Span, Span), Error> = x.sep_once(so, y).construct(&mut c, &mut h);
    let want = match ev.cap(&a, w.s) {
        Some(p) => match ev.mat(&s, p) {
            Some(p) => ev.cap(&b, p),
            None => None,
        },
        None => None,
    };
    if let Ok((s, t)) = &r {
        chk!(ev.n == 2 && ev.is(0, s) && ev.is(1, t), "the built pair is not the two captures");
    }
    ev.same(&h, r.is_ok(), want.is_some())
}
fn opt_captures() -> bool {
    tabs!(w, h, ev, c; a x 1);
    let r: Result<Option<Span>, Error> = x.opt().construct(&mut c, &mut h);
    let got = ev.cap(&a, w.s);
    match &r {
        Ok(Some(s)) => chk!(got.is_some() && ev.is(0, s), "the built value is not the capture"),
        _ => chk!(got.is_none(), "a capture is lost"),
    }
    let _ = ev.same(&h, true, true);
    got.is_some()
}
fn repeat_captures() -> bool {
    tabs!(w, h, ev, c; a x 1);
    let _ = a.progress();
    let r: Result<Vec<Span>, Error> = x.repeat(0..).construct(&mut c, &mut h);
    let (mut p, mut k) = (w.s, 0);
    while let Some(e) = ev.cap(&a, p) {
        p = e;
        k += 1;
    }
    if let Ok(v) = &r {
        chk!(v.len() == k, "the built list has another length than there are captures");
        let mut i = 0;
        while i < k {
            chk!(ev.is(i, &v[i]), "a built element is not its capture");
            i += 1;
        }
    }
    let _ = ev.same(&h, r.is_ok(), true);
    k > 1
}
/// captures of a pattern built from the previous capture
fn branch_captures() -> bool {
    tabs!(w, h, ev, c; a x 1, b y 2);
    let t = nd::bool();
    let r: Result<Span, Error> = branch(|_: &M| Ok(t), x, y).construct(&mut c, &mut h);
    let want = if t { ev.cap(&a, w.s) } else { ev.cap(&b, w.s) };
    if let Ok(s) = &r {
        chk!(ev.is(0, s), "the built value is not the capture");
    }
    ev.same(&h, r.is_ok(), want.is_some())
}
/// a long match: its span, text and bytes
fn long_text(kind: u8) -> bool {
    let f = nd::below(LL + 1);
    let buf = bytes_to(f, b'a', b'b');
    let s = unsafe { core::str::from_utf8_unchecked(&buf) };
    let same = |x: &[u8]| x.len() == f && (f == 0 || core::ptr::eq(&x[0], &buf[0]));
    let mut c = CharsCtx::new(s);
    let mut b = BytesCtx::new(&buf);
    match kind {
        0 => {
            let r: Result<Span, Error> = c.ctor_span(&'a'.many0());
            chk!(matches!(r, Ok(x) if x.beg == 0 && x.len == f), "the captured span is not the match (long input)");
        }
        1 => {
            let r: Result<&str, Error> = c.ctor(&'a'.many0());
            chk!(matches!(r, Ok(x) if same(x.as_bytes())), "the captured text is not the matched text (long input)");
        }
        2 => {
            let r: Result<&[u8], Error> = b.ctor(&b'a'.many0());
            chk!(matches!(r, Ok(x) if same(x)), "the captured text is not the matched text (long input)");
        }
        _ => {
            let r: Result<usize, Error> = c.map(&'a'.many0(), |x: &str| {
                chk!(same(x.as_bytes()), "a converter got another text than the matched one (long input)");
                Ok(x.len())
            });
            chk!(r == Ok(f), "the value is not the converter's (long input)");
        }
    }
    chk!((kind == 2 || c.offset() == f) && (kind != 2 || b.offset() == f), "asking for a value consumes something else (long input)");
    f > 9
}
with_leaves! { LA::Capture, inside;
    long_span [23, 43] long_text(0);
    long_str [23, 43] long_text(1);
    long_bytes [23, 43] long_text(2);
    long_map [23, 43] long_text(3);
    reported_map [6, 6] reported(0);
    reported_ctor [6, 6] reported(1);
    reported_map_span [6, 6] reported(2);
    reported_map_with [6, 6] reported(3);
    reported_ctor_with [6, 6] reported(4);
    reported_span [6, 6] reported(5);
    reported_handler [6, 6] reported(6);
    reported_map_handler [6, 6] reported(7);
    ctor_span [7, 9] on_bytes(How::CtorSpan);
    ctor_handler [7, 9] on_bytes(How::CtorHandler);
    ctor_with [7, 9] ctor_with_();
    ctor_nothing [7, 9] on_bytes(How::Nothing);
    map_span [7, 9] on_bytes(How::MapSpan);
    map_with [7, 9] on_bytes(How::MapWith);
    map_handler [7, 9] on_bytes(How::MapHandler);
    skip_ctor_span [7, 9] on_skipping(How::CtorSpan);
    skip_ctor_handler [7, 9] on_skipping(How::CtorHandler);
    skip_map_span [7, 9] on_skipping(How::MapSpan);
    skip_map_with [7, 9] on_skipping(How::MapWith);
    skip_map_handler [7, 9] on_skipping(How::MapHandler);
    bytes_ctor [7, 9] bytes_text(false, false);
    bytes_map [7, 9] bytes_text(true, false);
    skip_bytes_ctor [7, 9] bytes_text(false, true);
    skip_bytes_map [7, 9] bytes_text(true, true);
    chars_ctor_a [9, 11] chars_text(0, 0, 0);
    chars_ctor_b [9, 11] chars_text(1, 1, 0);
    chars_string_a [9, 11] chars_text(0, 1, 1);
    chars_string_b [9, 11] chars_text(1, 0, 1);
    chars_map_a [9, 11] chars_text(0, 0, 2);
    chars_map_b [9, 11] chars_text(1, 1, 2);
    map_value [7, 9] mapped(false);
    try_map_value [7, 9] mapped(true);
    captures_then [7, 9] seq_captures();
    captures_or [7, 9] or_captures();
    captures_enclose [7, 9] enclose_captures();
    captures_prefix [7, 9] affix_captures(true);
    captures_suffix [7, 9] affix_captures(false);
    captures_sep_once [7, 9] sep_once_captures();
    captures_opt [7, 9] opt_captures();
    captures_repeat [7, 9] repeat_captures();
    captures_branch [7, 9] branch_captures();
}
