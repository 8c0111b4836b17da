//! P03 repetition of units
use crate::long::{L, LT, bytes_to, text_to};
use crate::nd;
use crate::text::*;
use neure::ctx::*;
use neure::err::Error;
use neure::neu::*;
use neure::regex::Regex;
use neure::span::Span;
use core::ops::Bound;

#[cfg(not(feature = "thorough"))]
pub const KB: usize = 4;
#[cfg(feature = "thorough")]
pub const KB: usize = 6;
#[cfg(not(feature = "thorough"))]
pub const KT: usize = 3;
#[cfg(feature = "thorough")]
pub const KT: usize = 4;
const BT: usize = 4 * KT;

/// items a class can be asked about
pub trait It: Copy + PartialEq {
    fn code(self) -> u32;
    fn width(self) -> usize;
}
impl It for u8 {
    fn code(self) -> u32 {
        self as u32
    }
    fn width(self) -> usize {
        1
    }
}
impl It for char {
    fn code(self) -> u32 {
        self as u32
    }
    fn width(self) -> usize {
        self.len_utf8()
    }
}
/// A class: each item is in or out (bit `bit` of its code), and it promises a
/// minimum width it keeps.
#[derive(Clone, Copy, Debug)]
pub struct Cls {
    bit: u32,
    min: usize,
}
impl Cls {
    pub fn any(bit: u32) -> Self {
        Cls { bit, min: nd::below(5) }
    }
    pub fn acc<T: It>(&self, x: T) -> bool {
        (x.code() >> self.bit) & 1 == 1 && x.width() >= self.min
    }
}
impl<T: It> Neu<T> for Cls {
    fn is_match(&self, x: &T) -> bool {
        self.acc(*x)
    }
    fn min_length(&self) -> usize {
        self.min
    }
}

/// What the side condition answers for an item: rejects, fails, or accepts.
#[derive(Clone, Copy)]
pub struct Cnd {
    rej: u32,
    err: u32,
}
impl Cnd {
    pub fn any() -> Self {
        Cnd { rej: nd::u32(), err: nd::u32() }
    }
    pub fn none() -> Self {
        Cnd { rej: 0, err: 0 }
    }
    pub fn ask(&self, off: usize) -> Result<bool, Error> {
        if (self.err >> off) & 1 == 1 { Err(Error::Uid(7)) } else { Ok((self.rej >> off) & 1 == 0) }
    }
}

/// end of the match, by definition
pub fn model<S: Src>(s: &S, cls: Cls, c: Cnd, i0: usize, min: usize, max: usize) -> Option<usize>
where
    S::Item: It,
{
    let beg = s.pos(i0);
    let mut i = i0;
    let mut go = true;
    let mut k = 0;
    while k < KB {
        if go && i < s.n() && i - i0 < max {
            if !cls.acc(s.item(i)) {
                go = false;
            } else {
                match c.ask(s.pos(i) - beg) {
                    Ok(true) => i += 1,
                    Ok(false) => go = false,
                    Err(_) => return None,
                }
            }
        }
        k += 1;
    }
    if i - i0 >= min { Some(s.pos(i)) } else { None }
}
pub fn judge(r: &Result<Span, Error>, off: usize, beg: usize, m: Option<usize>) {
    match m {
        Some(e) => {
            chk!(r.is_ok(), "failed although the run reaches the minimum");
            let sp = *r.as_ref().unwrap();
            chk!(sp.beg == beg && sp.len == e - beg, "the span is not the longest run of accepted items");
            chk!(off == e, "did not consume exactly the run");
        }
        None => {
            chk!(r.is_err(), "succeeded although the run is shorter than the minimum or the condition failed");
            chk!(off == beg, "a failing repetition moved the position");
        }
    }
}

macro_rules! world {
    (B, $s:ident, $ctx:ident, $C:ident) => {
        let $s = Bytes::<KB>::any();
        let mut $ctx = BytesCtx::new($s.get());
        type $C<'a> = BytesCtx<'a>;
    };
    (B2, $s:ident, $ctx:ident, $C:ident) => {
        let $s = Bytes::<{ KB - 1 }>::any();
        let mut $ctx = BytesCtx::new($s.get());
        type $C<'a> = BytesCtx<'a>;
    };
    (T2, $s:ident, $ctx:ident, $C:ident) => {
        let $s = Text::<{ KT - 1 }, { BT - 4 }>::any();
        let mut $ctx = CharsCtx::new($s.get());
        type $C<'a> = CharsCtx<'a>;
    };
    (T, $s:ident, $ctx:ident, $C:ident) => {
        let $s = Text::<KT, BT>::any();
        let mut $ctx = CharsCtx::new($s.get());
        type $C<'a> = CharsCtx<'a>;
    };
}
/// runs a pattern from an item boundary of a symbolic input
macro_rules! unit {
    ($k:ident, $cnd:expr, |$cls:ident| $pat:expr, $min:expr, $max:expr) => {{
        world!($k, s, ctx, C);
        let i0 = nd::below(s.n() + 1);
        let beg = s.pos(i0);
        ctx.set_offset(beg);
        let $cls = Cls::any(0);
        let c: Cnd = $cnd;
        let m = model(&s, $cls, c, i0, $min, $max);
        let src = &s;
        let cond = move |x: &C<'_>, it: &(usize, _)| -> Result<bool, Error> {
            chk!(x.offset() == beg, "the condition sees another position");
            let i = src.at(beg + it.0);
            chk!(i.is_some() && i.unwrap() < src.n() && src.item(i.unwrap()) == it.1, "the condition sees an item that is not there");
            c.ask(it.0)
        };
        let pat = $pat.set_cond(cond);
        let r = pat.try_parse(&mut ctx);
        judge(&r, ctx.offset(), beg, m);
        m.is_some()
    }};
}
/// the same, with the condition given to the constructor
macro_rules! count_if {
    ($k:ident, $min:expr, $max:expr) => {{
        world!($k, s, ctx, C);
        let i0 = nd::below(s.n() + 1);
        let beg = s.pos(i0);
        ctx.set_offset(beg);
        let cls = Cls::any(0);
        let c = Cnd::any();
        let m = model(&s, cls, c, i0, $min, $max);
        let pat = neure::regex::count_if::<$min, $max, C<'_>, _, _>(cls, move |x: &C<'_>, it: &(usize, _)| -> Result<bool, Error> {
            chk!(x.offset() == beg, "the condition sees another position");
            c.ask(it.0)
        });
        let r = pat.try_parse(&mut ctx);
        judge(&r, ctx.offset(), beg, m);
        m.is_some()
    }};
}
/// the longest run a bound pair allows (min, max); None: it contains nothing
pub fn span_of(lo: Bound<usize>, hi: Bound<usize>) -> Option<(usize, usize)> {
    let min = match lo {
        Bound::Included(x) => x,
        Bound::Excluded(x) => x + 1,
        Bound::Unbounded => 0,
    };
    let max = match hi {
        Bound::Included(x) => x,
        Bound::Excluded(0) => return None,
        Bound::Excluded(x) => x - 1,
        Bound::Unbounded => MAX,
    };
    if min > max { None } else { Some((min, max)) }
}
fn bound(excl: bool) -> Bound<usize> {
    let v = nd::below(KB + 2);
    match nd::below(3) {
        0 => Bound::Included(v),
        1 => if excl { Bound::Excluded(v) } else { Bound::Included(v) },
        _ => Bound::Unbounded,
    }
}
macro_rules! times {
    ($k:ident, $lo:expr, $hi:expr, $r:expr) => {{
        let x = span_of($lo, $hi);
        // `times` asserts that the range is not empty
        nd::assume(x.is_some() || matches!($lo, Bound::<usize>::Unbounded));
        let (min, max) = x.unwrap_or((MAX, 0));
        unit!($k, Cnd::any(), |u| u.times($r), min, max)
    }};
}
/// a unit followed by a unit
macro_rules! then {
    ($k:ident) => {{
        world!($k, s, ctx, C);
        let i0 = nd::below(s.n() + 1);
        let beg = s.pos(i0);
        ctx.set_offset(beg);
        let (u, v) = (Cls::any(0), Cls::any(1));
        let c = Cnd::any();
        let m = if i0 + 2 <= s.n() {
            let (a, b) = (i0, i0 + 1);
            let ok = u.acc(s.item(a)) && c.ask(0) == Ok(true) && v.acc(s.item(b)) && c.ask(s.pos(b) - beg) == Ok(true);
            if ok { Some(s.pos(b + 1)) } else { None }
        } else {
            None
        };
        let src = &s;
        let pat = u.then(v).set_cond(move |x: &C<'_>, it: &(usize, _)| -> Result<bool, Error> {
            chk!(x.offset() == beg, "the condition sees another position");
            let i = src.at(beg + it.0);
            chk!(i.is_some() && i.unwrap() < src.n() && src.item(i.unwrap()) == it.1, "the condition sees an item that is not there");
            c.ask(it.0)
        });
        let r = pat.try_parse(&mut ctx);
        judge(&r, ctx.offset(), beg, m);
        m.is_some()
    }};
}
/// a pattern as the side condition: the item has to start a match of it
macro_rules! by_pattern {
    ($k:ident, |$cls:ident| $pat:expr, $min:expr, $max:expr) => {{
        world!($k, s, ctx, C);
        let i0 = nd::below(s.n() + 1);
        let beg = s.pos(i0);
        ctx.set_offset(beg);
        let $cls = Cls::any(0);
        let q = Cls { bit: 1, min: 0 };
        let mut c = Cnd::none();
        let mut i = i0;
        while i < s.n() {
            if !q.acc(s.item(i)) {
                c.rej |= 1 << (s.pos(i) - beg);
            }
            i += 1;
        }
        let m = model(&s, $cls, c, i0, $min, $max);
        let pat = $pat.set_cond(regex_cond(q.once()));
        let r = pat.try_parse(&mut ctx);
        judge(&r, ctx.offset(), beg, m);
        m.is_some()
    }};
}
const MAX: usize = usize::MAX;
// no condition at all
macro_rules! bare {
    ($k:ident, |$cls:ident| $pat:expr, $min:expr, $max:expr) => {{
        world!($k, s, ctx, C);
        let i0 = nd::below(s.n() + 1);
        let beg = s.pos(i0);
        ctx.set_offset(beg);
        let $cls = Cls::any(0);
        let m = model(&s, $cls, Cnd::none(), i0, $min, $max);
        fn go<'a, P: Regex<C<'a>>>(p: P, c: &mut C<'a>) -> Result<Span, Error> {
            p.try_parse(c)
        }
        let r = go($pat, &mut ctx);
        judge(&r, ctx.offset(), beg, m);
        m.is_some()
    }};
}
/// a long run: the class accepts the items in front of a symbolic position, the side
/// condition rejects a symbolic one
macro_rules! long_b {
    (|$u:ident| $pat:expr, $min:expr, $max:expr) => {{
        let (f, r) = (nd::below(L + 1), nd::below(L + 2));
        let buf = bytes_to(f, 1, 0);
        let mut ctx = BytesCtx::new(&buf);
        let e = f.min(r).min($max);
        let want = if e >= $min { Some(e) } else { None };
        let $u = Cls { bit: 0, min: 1 };
        let pat = $pat.set_cond(move |_: &BytesCtx<'_>, it: &(usize, u8)| -> Result<bool, Error> { Ok(it.0 != r) });
        let x = pat.try_parse(&mut ctx);
        judge(&x, ctx.offset(), 0, want);
        e > 9
    }};
}
macro_rules! long_t {
    (|$u:ident| $pat:expr, $min:expr, $max:expr) => {{
        let (f, r) = (nd::below(LT + 1), nd::below(LT + 2));
        let buf = text_to(f);
        let mut ctx = CharsCtx::new(unsafe { core::str::from_utf8_unchecked(&buf) });
        let e = f.min(r).min($max);
        let want = if e >= $min { Some(2 * e) } else { None };
        let $u = Cls { bit: 0, min: 1 };
        let pat = $pat.set_cond(move |_: &CharsCtx<'_>, it: &(usize, char)| -> Result<bool, Error> { Ok(it.0 != 2 * r) });
        let x = pat.try_parse(&mut ctx);
        judge(&x, ctx.offset(), 0, want);
        e > 5
    }};
}
hs! {
    long_many0_b [23, 43] long_b!(|u| u.many0(), 0, MAX);
    long_many1_b [23, 43] long_b!(|u| u.many1(), 1, MAX);
    long_at_least_b [23, 43] long_b!(|u| u.at_least::<7>(), 7, MAX);
    long_at_most_b [23, 43] long_b!(|u| u.at_most::<13>(), 0, 13);
    long_between_b [23, 43] long_b!(|u| u.between::<3, 11>(), 3, 11);
    long_count_b [23, 43] long_b!(|u| u.count::<12>(), 12, 12);
    long_times_b [23, 43] { let (a, b) = (nd::below(L + 2), nd::below(L + 2)); nd::assume(a <= b); long_b!(|u| u.times(a..=b), a, b) };
    long_many0_t [23, 43] long_t!(|u| u.many0(), 0, MAX);
    long_many1_t [23, 43] long_t!(|u| u.many1(), 1, MAX);
    long_between_t [23, 43] long_t!(|u| u.between::<3, 8>(), 3, 8);
    long_times_t [23, 43] { let (a, b) = (nd::below(LT + 2), nd::below(LT + 2)); nd::assume(a <= b); long_t!(|u| u.times(a..=b), a, b) };
    b_opt [6, 8] unit!(B, Cnd::any(), |u| u.opt(), 0, 1);
    b_many0 [6, 8] unit!(B, Cnd::any(), |u| u.many0(), 0, MAX);
    t_opt [5, 8] unit!(T, Cnd::any(), |u| u.opt(), 0, 1);
    t_many0 [5, 8] unit!(T2, Cnd::any(), |u| u.many0(), 0, MAX);
    b_bare_opt [6, 8] bare!(B, |u| u.opt(), 0, 1) & nd::bool();
    b_bare_many0 [6, 8] bare!(B, |u| u.many0(), 0, MAX) & nd::bool();
    t_bare_opt [5, 8] bare!(T2, |u| u.opt(), 0, 1) & nd::bool();
    t_bare_many0 [5, 8] bare!(T2, |u| u.many0(), 0, MAX) & nd::bool();
    b_once [6, 8] unit!(B, Cnd::any(), |u| u.once(), 1, 1);
    b_many1 [6, 8] unit!(B, Cnd::any(), |u| u.many1(), 1, MAX);
    b_between_0_0 [6, 8] unit!(B, Cnd::any(), |u| u.between::<0, 0>(), 0, 0) & nd::bool();
    b_between_0_2 [6, 8] unit!(B, Cnd::any(), |u| u.between::<0, 2>(), 0, 2);
    b_between_1_2 [6, 8] unit!(B, Cnd::any(), |u| u.between::<1, 2>(), 1, 2);
    b_between_2_2 [6, 8] unit!(B, Cnd::any(), |u| u.between::<2, 2>(), 2, 2);
    b_between_1_3 [6, 8] unit!(B, Cnd::any(), |u| u.between::<1, 3>(), 1, 3);
    b_at_least_2 [6, 8] unit!(B, Cnd::any(), |u| u.at_least::<2>(), 2, MAX);
    b_at_most_2 [6, 8] unit!(B, Cnd::any(), |u| u.at_most::<2>(), 0, 2);
    b_count_2 [6, 8] unit!(B, Cnd::any(), |u| u.count::<2>(), 2, 2);
    b_times_range [6, 8] { let (a, b) = (nd::below(KB + 2), nd::below(KB + 2)); times!(B, Bound::Included(a), Bound::Excluded(b), a..b) };
    b_times_incl [6, 8] { let (a, b) = (nd::below(KB + 2), nd::below(KB + 2)); times!(B, Bound::Included(a), Bound::Included(b), a..=b) };
    b_times_from [6, 8] { let a = nd::below(KB + 2); times!(B, Bound::Included(a), Bound::Unbounded, a..) };
    b_times_to [6, 8] { let b = nd::below(KB + 2); times!(B, Bound::Unbounded, Bound::Excluded(b), ..b) };
    b_times_to_incl [6, 8] { let b = nd::below(KB + 2); times!(B, Bound::Unbounded, Bound::Included(b), ..=b) };
    b_times_full [6, 8] times!(B, Bound::Unbounded, Bound::Unbounded, ..);
    b_times_n [6, 8] { let a = nd::below(KB + 2); times!(B, Bound::Included(a), Bound::Included(a), a) };
    b_times_bounds [6, 8] { let (a, b) = (bound(true), bound(true)); times!(B, a, b, (a, b)) };
    b_then [6, 8] then!(B);
    b_cond_pattern [6, 8] by_pattern!(B2, |u| u.many1(), 1, MAX);
    b_cond_pattern_between [6, 8] by_pattern!(B2, |u| u.between::<1, 2>(), 1, 2);
    b_bare_once [6, 8] bare!(B, |u| u.once(), 1, 1);
    b_bare_many1 [6, 8] bare!(B, |u| u.many1(), 1, MAX);
    b_bare_between [6, 8] bare!(B, |u| u.between::<1, 2>(), 1, 2);
    b_bare_times [6, 8] { let (a, b) = (nd::below(KB + 2), nd::below(KB + 2)); nd::assume(a <= b); bare!(B, |u| u.times(a..=b), a, b) };
    t_once [5, 8] unit!(T, Cnd::any(), |u| u.once(), 1, 1);
    t_many1 [5, 8] unit!(T, Cnd::any(), |u| u.many1(), 1, MAX);
    t_between_0_0 [5, 8] unit!(T2, Cnd::any(), |u| u.between::<0, 0>(), 0, 0) & nd::bool();
    t_between_0_2 [5, 8] unit!(T2, Cnd::any(), |u| u.between::<0, 2>(), 0, 2);
    t_between_1_2 [5, 8] unit!(T2, Cnd::any(), |u| u.between::<1, 2>(), 1, 2);
    t_between_2_2 [5, 8] unit!(T, Cnd::any(), |u| u.between::<2, 2>(), 2, 2);
    t_between_1_3 [5, 8] unit!(T, Cnd::any(), |u| u.between::<1, 3>(), 1, 3);
    t_at_least_2 [5, 8] unit!(T2, Cnd::any(), |u| u.at_least::<2>(), 2, MAX);
    t_at_most_2 [5, 8] unit!(T2, Cnd::any(), |u| u.at_most::<2>(), 0, 2);
    t_count_2 [5, 8] unit!(T2, Cnd::any(), |u| u.count::<2>(), 2, 2);
    t_times_incl [5, 8] { let (a, b) = (nd::below(KB + 2), nd::below(KB + 2)); times!(T2, Bound::Included(a), Bound::Included(b), a..=b) };
    t_times_bounds [5, 8] { let (a, b) = (bound(true), bound(true)); times!(T, a, b, (a, b)) };
    t_then [5, 8] then!(T);
    t_cond_pattern [5, 8] by_pattern!(T2, |u| u.between::<1, 2>(), 1, 2);
    t_bare_once [5, 8] bare!(T2, |u| u.once(), 1, 1);
    t_bare_many1 [5, 8] bare!(T2, |u| u.many1(), 1, MAX);
    t_bare_between [5, 8] bare!(T2, |u| u.between::<1, 2>(), 1, 2);
    t_bare_times [5, 8] { let (a, b) = (nd::below(KB + 2), nd::below(KB + 2)); nd::assume(a <= b); bare!(T2, |u| u.times(a..=b), a, b) };
    b_count_if [6, 8] count_if!(B, 1, 2);
    t_count_if [5, 8] count_if!(T2, 1, 2);
    b_fn_once [6, 8] bare!(B, |u| neure::regex::once(u), 1, 1);
    b_fn_opt [6, 8] bare!(B, |u| neure::regex::opt(u), 0, 1) & nd::bool();
    b_fn_many0 [6, 8] bare!(B, |u| neure::regex::many0(u), 0, MAX) & nd::bool();
    b_fn_many1 [6, 8] bare!(B, |u| neure::regex::many1(u), 1, MAX);
    b_fn_count [6, 8] bare!(B, |u| neure::regex::count::<1, 2, _, _>(u), 1, 2);
}
