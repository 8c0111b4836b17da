//! The crate's own leaf patterns on its own contexts: matching through the
//! context, building, capturing; from any position.
use crate::abs::{N, Orc, Tab};
use crate::nd;
use crate::text::*;
use neure::ctor::{Ctor, Handler};
use neure::ctx::*;
use neure::err::Error;
use neure::neu::*;
use neure::regex::*;
use neure::span::Span;

/// What a harness asserts.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum LA {
    /// P01: failure restores the position
    Rollback,
    /// P02: success reports what was consumed
    Spanned,
    /// P11: recognising and building agree
    Agree,
    /// P25: the handler gets the matched span, once, and its outcome is the result
    Capture,
    /// P23: nothing but that it returns
    Total,
}
/// A class: the low bit of the item's code.
#[derive(Clone, Copy, Debug, Default)]
pub struct Odd;
impl Neu<u8> for Odd {
    fn is_match(&self, x: &u8) -> bool {
        x & 1 == 1
    }
    fn min_length(&self) -> usize {
        1
    }
}
impl Neu<char> for Odd {
    fn is_match(&self, x: &char) -> bool {
        *x as u32 & 1 == 1
    }
    fn min_length(&self) -> usize {
        1
    }
}
/// A handler that may fail; remembers what it was given.
pub struct Hnd {
    pub fail: bool,
    pub n: u8,
    pub last: Span,
}
impl Hnd {
    pub fn new(fail: bool) -> Self {
        Hnd { fail, n: 0, last: Span::new(0, 0) }
    }
}
impl<C> Handler<C> for Hnd {
    type Out = Span;
    type Error = Error;
    fn invoke(&mut self, _: &C, s: &Span) -> Result<Span, Error> {
        self.n += 1;
        self.last = *s;
        if self.fail { Err(Error::Uid(77)) } else { Ok(*s) }
    }
}
/// `c` is at `off`; a match would begin at `begin` (behind skipped text).
pub fn leaf<'a, C, P>(asp: LA, c: &C, p: &P, begin: usize, boundary: impl Fn(usize) -> bool) -> bool
where
    C: Match<'a> + Copy,
    P: Ctor<C, Span, Hnd>,
{
    let off = c.offset();
    let mut d = *c;
    let r = d.try_mat(p);
    match asp {
        LA::Total => {
            let mut e = *c;
            let mut h = Hnd::new(nd::bool());
            let _ = p.construct(&mut e, &mut h);
        }
        LA::Rollback => {
            if r.is_err() {
                chk!(d.offset() == off, "matching failed but the position moved");
            }
            let mut e = *c;
            let mut h = Hnd::new(false);
            if p.construct(&mut e, &mut h).is_err() {
                chk!(e.offset() == off, "building failed but the position moved");
            }
        }
        LA::Spanned => {
            if let Ok(s) = &r {
                chk!(s.beg == begin, "the span does not start where matching started");
                chk!(s.beg.wrapping_add(s.len) == d.offset(), "the span does not end at the new position");
                chk!(d.offset() >= begin && d.offset() <= c.len(), "the span is outside the input");
                chk!(boundary(d.offset()), "the span ends inside a character");
            }
        }
        LA::Agree => {
            let mut e = *c;
            let mut h = Hnd::new(false);
            let b = p.construct(&mut e, &mut h);
            chk!(b.is_ok() == r.is_ok(), "recognising and building disagree on success");
            if r.is_ok() {
                chk!(e.offset() == d.offset(), "recognising and building consume different amounts");
            }
        }
        LA::Capture => {
            let mut e = *c;
            let mut h = Hnd::new(nd::bool());
            let b = p.construct(&mut e, &mut h);
            match &r {
                Ok(s) => {
                    chk!(h.n == 1, "the handler did not run exactly once");
                    chk!(h.last == *s, "the handler was given another span than the one matched");
                    if h.fail {
                        chk!(b == Err(Error::Uid(77)), "the handler's error is not the result");
                    } else {
                        chk!(b == Ok(*s), "the handler's value is not the result");
                    }
                }
                Err(_) => {
                    chk!(h.n == 0, "the handler ran although nothing matched");
                    chk!(b.is_err(), "a value was built from a failed match");
                }
            }
        }
    }
    r.is_ok()
}
/// every position there can be, near ones and far ones
pub fn anywhere(n: usize) -> usize {
    if nd::bool() { nd::below(n + 3) } else { nd::usize() }
}
macro_rules! at_off {
    (inside, $s:ident, $i0:expr) => {
        $s.pos($i0)
    };
    (anywhere, $s:ident, $i0:expr) => {
        anywhere($s.len())
    };
}
/// a leaf on bytes
macro_rules! lb {
    ($asp:expr, $off:ident, $p:expr) => {{
        let s = Bytes::<LB>::any();
        let mut c = BytesCtx::new(s.get());
        let i0 = nd::below(s.n() + 1);
        let off = at_off!($off, s, i0);
        c.set_offset(off);
        let p = $p;
        leaf($asp, &c, &p, off, |_| true)
    }};
}
/// a leaf on text of the given layout, from character `$i0` on
macro_rules! lt {
    ($asp:expr, $off:ident, $w:expr, $i0:expr, $p:expr) => {{
        let s = Lay::of($w);
        let mut c = CharsCtx::new(s.get());
        let off = at_off!($off, s, $i0);
        c.set_offset(off);
        let p = $p;
        leaf($asp, &c, &p, off, |e| s.at(e).is_some())
    }};
}
/// bytes of exactly the model's length, for abstract sub-patterns
pub fn src_n() -> Bytes<N> {
    let mut s = Bytes::<N>::any();
    s.n = N;
    s
}
/// an arbitrary pattern on the crate's plain context
pub fn orc_plain(asp: LA) -> bool {
    let s = src_n();
    let mut c = BytesCtx::new(s.get());
    let off = nd::below(N + 1);
    c.set_offset(off);
    let t = Tab::any();
    leaf(asp, &c, &closure_like(&t), off, |_| true)
}
/// an arbitrary pattern behind an arbitrary skipped pattern
pub fn orc_policy(asp: LA) -> bool {
    let s = src_n();
    let off = nd::below(N + 1);
    let (k, t) = (Tab::any(), Tab::any());
    let c = PolicyCtx::new(BytesCtx::new(s.get()).with_offset(off), k.orc(1, 0));
    leaf(asp, &c, &closure_like(&t), k.rec(off).unwrap_or(0), |_| true)
}
/// the abstract pattern as a user writes one: it captures what it matches
#[derive(Clone, Copy)]
pub struct Pat<'t>(pub Orc<'t>);
pub fn closure_like(t: &Tab) -> Pat<'_> {
    Pat(t.orc(2, 0))
}
impl<'a, C: Match<'a> + crate::abs::Fuel> Regex<C> for Pat<'_> {
    fn try_parse(&self, c: &mut C) -> Result<Span, Error> {
        self.0.try_parse(c)
    }
}
impl<'a, C: Match<'a> + crate::abs::Fuel, O, H: Handler<C, Out = O>> Ctor<C, O, H> for Pat<'_> {
    fn construct(&self, c: &mut C, h: &mut H) -> Result<O, Error> {
        neure::regex::RegexRefAsCtor::<C>::as_ctor(&self.0).construct(c, h)
    }
}

#[cfg(not(feature = "thorough"))]
pub const LB: usize = 3;
#[cfg(feature = "thorough")]
pub const LB: usize = 5;

/// All leaves in one aspect, followed by the module's other harnesses.
macro_rules! with_leaves {
    ($asp:expr, $off:ident; $($rest:tt)*) => {
        hs! {
            b_once [6, 8] lb!($asp, $off, Odd.once());
            b_opt [6, 8] lb!($asp, $off, Odd.opt()) & nd::bool();
            b_many0 [6, 8] lb!($asp, $off, Odd.many0()) & nd::bool();
            b_many1 [6, 8] lb!($asp, $off, Odd.many1());
            b_between [6, 8] lb!($asp, $off, Odd.between::<1, 2>());
            b_times [6, 8] lb!($asp, $off, Odd.times(2..));
            b_unit_then [6, 8] lb!($asp, $off, Odd.then(Odd));
            b_literal_slice [6, 8] lb!($asp, $off, &b"ab"[..]);
            b_literal_array [6, 8] lb!($asp, $off, [b'a', b'b']);
            b_literal_array_ref [6, 8] lb!($asp, $off, b"ab");
            b_literal_vec [6, 8] lb!($asp, $off, vec![b'a', b'b']);
            b_literal [6, 8] lb!($asp, $off, literal(b"ab"));
            b_consume [6, 8] lb!($asp, $off, consume(if nd::bool() { nd::below(LB + 2) } else { nd::usize() }));
            b_consume_all [6, 8] lb!($asp, $off, consume_all()) & nd::bool();
            b_empty [6, 8] lb!($asp, $off, empty()) & nd::bool();
            b_fail [6, 8] lb!($asp, $off, fail()) | nd::bool();
            b_start [6, 8] lb!($asp, $off, start());
            b_end [6, 8] lb!($asp, $off, end());
            b_peek [6, 8] lb!($asp, $off, peek(Odd.many1()));
            b_not [6, 8] lb!($asp, $off, not(Odd.many1()));
            t_once [9, 9] lt!($asp, $off, [2, 1], 1, Odd.once());
            t_opt [9, 9] lt!($asp, $off, [3, 1], 0, Odd.opt()) & nd::bool();
            t_many0 [9, 9] lt!($asp, $off, [1, 4], 0, Odd.many0()) & nd::bool();
            t_many1 [9, 9] lt!($asp, $off, [1, 2], 0, Odd.many1());
            t_between [9, 9] lt!($asp, $off, [2, 3], 0, Odd.between::<1, 2>());
            t_times [9, 9] lt!($asp, $off, [2, 2], 0, Odd.times(2..));
            t_unit_then [9, 9] lt!($asp, $off, [3, 1], 0, Odd.then(Odd));
            t_literal [9, 9] lt!($asp, $off, [2, 1], 0, "éa");
            t_literal_string [9, 9] lt!($asp, $off, [1, 2], 0, String::from("aé"));
            t_literal_str [9, 9] lt!($asp, $off, [1, 2], 1, literal("é"));
            t_consume [9, 9] lt!($asp, $off, if $asp == LA::Spanned { [1, 1] } else { [1, 2] }, 0, consume(if nd::bool() { nd::below(6) } else { nd::usize() }));
            t_consume_all [9, 9] lt!($asp, $off, [3, 1], 0, consume_all()) & nd::bool();
            t_end [9, 9] lt!($asp, $off, [2, 1], if nd::bool() { 1 } else { 2 }, end());
            t_peek [9, 9] lt!($asp, $off, [2, 1], 0, peek(Odd.once()));
            t_not [9, 9] lt!($asp, $off, [1, 3], 1, not(Odd.once()));
            any_pattern [7, 9] orc_plain($asp);
            any_pattern_skipping [7, 9] orc_policy($asp);
            $($rest)*
        }
    };
}
