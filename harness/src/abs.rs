//! Abstract sub-patterns over a model context.
//!
//! `M` implements the crate's public `Context` and `Match` traits over nothing
//! but a position; `Orc` is a sub-pattern whose behaviour at each position is a
//! row of a symbolic table.  A combinator of the real crate executed over them
//! is executed for *every* behaviour its sub-patterns can have.
use crate::nd;
use neure::ctor::{Ctor, Extract, Handler, extract};
use neure::ctx::{Context, Match};
use neure::err::Error;
use neure::regex::Regex;
use neure::span::Span;

/// Length of the model input.
#[cfg(not(feature = "thorough"))]
pub const N: usize = 3;
#[cfg(feature = "thorough")]
pub const N: usize = 5;

#[derive(Clone, Copy)]
pub struct M {
    pub base: usize,
    pub off: usize,
    pub calls: u32,
    /// text skipped in front of every match: position -> position (identity: none)
    pub sk: [u8; N + 1],
}
/// More sub-pattern calls than this on an input of length N means no progress.
#[cfg(not(feature = "thorough"))]
pub const CALLS: u32 = 24;
#[cfg(feature = "thorough")]
pub const CALLS: u32 = 40;

impl M {
    /// A context whose current position is `base + s`.
    pub fn new(w: &W) -> Self {
        M { base: w.base, off: w.base + w.s, calls: 0, sk: w.sk }
    }
    pub fn rel(&self) -> usize {
        self.off.wrapping_sub(self.base)
    }
}
impl<'a> Context<'a> for M {
    type Orig<'b> = ();
    type Item = u8;
    type Iter<'b> = core::iter::Empty<(usize, u8)>;
    fn len(&self) -> usize {
        self.base + N
    }
    fn offset(&self) -> usize {
        self.off
    }
    fn set_offset(&mut self, offset: usize) -> &mut Self {
        self.off = offset;
        self
    }
    fn inc(&mut self, offset: usize) -> &mut Self {
        self.off += offset;
        self
    }
    fn dec(&mut self, offset: usize) -> &mut Self {
        self.off -= offset;
        self
    }
    fn peek_at(&self, _: usize) -> Result<Self::Iter<'a>, Error> {
        Ok(core::iter::empty())
    }
    fn orig_sub(&self, offset: usize, len: usize) -> Result<(), Error> {
        if offset.wrapping_sub(self.base) <= N && len <= N && offset - self.base + len <= N { Ok(()) } else { Err(Error::OutOfBound) }
    }
    fn clone_at(&self, offset: usize) -> Result<Self, Error> {
        Ok(M { off: offset, ..*self })
    }
}
/// The documented contract of `Match::try_mat`: skip, match, and on failure leave
/// the position unchanged (P01 and P13 establish it for the crate's own contexts).
impl<'a> Match<'a> for M {
    fn try_mat<P: Regex<Self> + ?Sized>(&mut self, pat: &P) -> Result<Span, Error> {
        let off = self.off;
        let p = self.rel();
        if p <= N {
            self.off = self.base + self.sk[p] as usize;
        }
        let r = pat.try_parse(self);
        if r.is_err() {
            self.off = off;
        }
        r
    }
}

/// Behaviour of one abstract sub-pattern: row p is its behaviour at relative
/// position p.
#[derive(Clone, Copy)]
pub struct Tab {
    /// success with this length if `p + len <= N`, else failure
    pub len: [u8; N + 1],
    /// where a failing attempt leaves the cursor (relative)
    pub junk: [u8; N + 1],
    /// building fails although recognising succeeds (converter / handler error)
    pub cf: [bool; N + 1],
}
impl Tab {
    /// any behaviour
    pub fn any() -> Self {
        let mut t = Tab { len: [0; N + 1], junk: [0; N + 1], cf: [false; N + 1] };
        let mut i = 0;
        while i <= N {
            t.len[i] = nd::u8();
            let j = nd::u8();
            nd::assume(j as usize <= N);
            t.junk[i] = j;
            t.cf[i] = nd::bool();
            i += 1;
        }
        t
    }
    /// any behaviour in which building succeeds whenever recognising does
    pub fn any_nocf() -> Self {
        let mut t = Self::any();
        t.cf = [false; N + 1];
        t
    }
    /// every success consumes something
    pub fn progress(self) -> Self {
        let mut i = 0;
        while i <= N {
            nd::assume(self.len[i] != 0);
            i += 1;
        }
        self
    }
    /// end of the match at p, recognising
    #[inline(always)]
    pub fn rec(&self, p: usize) -> Option<usize> {
        if p <= N && self.len[p] as usize <= N - p { Some(p + self.len[p] as usize) } else { None }
    }
    /// end of the match at p, building
    #[inline(always)]
    pub fn bld(&self, p: usize) -> Option<usize> {
        if p <= N && self.cf[p] { None } else { self.rec(p) }
    }
    #[inline(always)]
    pub fn m(&self, build: bool, p: usize) -> Option<usize> {
        if build { self.bld(p) } else { self.rec(p) }
    }
    pub fn orc(&self, id: u8, base: usize) -> Orc<'_> {
        Orc { id, base, t: self }
    }
}
#[derive(Clone, Copy)]
pub struct Orc<'t> {
    pub id: u8,
    pub base: usize,
    pub t: &'t Tab,
}
/// What `Orc` builds: which sub-pattern matched, where.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Tok {
    pub id: u8,
    pub beg: u8,
    pub end: u8,
}
pub fn tok(id: u8, beg: usize, end: usize) -> Tok {
    Tok { id, beg: beg as u8, end: end as u8 }
}

/// Contexts the oracles can run on.
pub trait Fuel {
    fn fuel(&mut self);
}
impl Fuel for M {
    fn fuel(&mut self) {
        self.calls += 1;
        chk!(self.calls <= CALLS, "the pattern makes no progress (does not terminate)");
    }
}
impl<'a, T: ?Sized> Fuel for neure::ctx::RegexCtx<'a, T> {
    fn fuel(&mut self) {}
}
impl<I: Fuel, R> Fuel for neure::ctx::PolicyCtx<I, R> {
    fn fuel(&mut self) {
        self.inner_mut().fuel()
    }
}
impl<'a, C> Regex<C> for Orc<'_>
where
    C: Context<'a> + Fuel,
{
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        ctx.fuel();
        let p = ctx.offset().wrapping_sub(self.base);
        chk!(p <= N, "a sub-pattern was run outside the input");
        match self.t.rec(p) {
            Some(e) => {
                ctx.set_offset(self.base + e);
                Ok(Span::new(self.base + p, e - p))
            }
            None => {
                ctx.set_offset(self.base + self.t.junk[p] as usize);
                Err(Error::Uid(self.id as usize))
            }
        }
    }
}
impl<'a, C, H> Ctor<C, Tok, H> for Orc<'_>
where
    C: Match<'a> + Fuel,
    H: Handler<C>,
{
    fn construct(&self, ctx: &mut C, _: &mut H) -> Result<Tok, Error> {
        let span = ctx.try_mat(self);
        match span {
            Ok(s) => {
                let p = s.beg - self.base;
                if self.t.cf[p] { Err(Error::Uid(100 + self.id as usize)) } else { Ok(tok(self.id, p, p + s.len)) }
            }
            Err(e) => {
                // a user-written builder need not restore the position
                let p = ctx.offset() - self.base;
                ctx.set_offset(self.base + self.t.junk[p] as usize);
                Err(e)
            }
        }
    }
}

impl<'a, C, H> Ctor<C, (), H> for Orc<'_>
where
    C: Match<'a> + Fuel,
    H: Handler<C>,
{
    fn construct(&self, ctx: &mut C, h: &mut H) -> Result<(), Error> {
        let r: Result<Tok, Error> = self.construct(ctx, h);
        r.map(|_| ())
    }
}

/// Which part of the specification a harness asserts.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Asp {
    /// P01: failure restores the position
    Rollback,
    /// P02: success reports what was consumed
    Spanned,
    /// the combinator's own semantics: success, value, consumption
    Sem,
    /// P23: nothing but that it returns (the sub-patterns count their calls)
    Total,
}
/// The world a harness runs in: any start position of any 64-bit context
/// position, and what a skipping context would skip.
#[derive(Clone, Copy)]
pub struct W {
    pub base: usize,
    pub s: usize,
    pub sk: [u8; N + 1],
}
impl W {
    /// a context that skips nothing
    pub fn plain() -> Self {
        #[cfg(not(feature = "thorough"))]
        let base = 0;
        #[cfg(feature = "thorough")]
        let base = {
            let b = nd::usize();
            nd::assume(b <= (isize::MAX as usize) - N);
            b
        };
        let mut sk = [0; N + 1];
        let mut i = 0;
        while i <= N {
            sk[i] = i as u8;
            i += 1;
        }
        W { base, s: nd::below(N + 1), sk }
    }
    /// a context that skips some text in front of every match
    pub fn skipping() -> Self {
        let mut w = Self::plain();
        let mut i = N;
        // sk[i] is i (nothing to skip here) or sk[i + 1]
        while i > 0 {
            i -= 1;
            if nd::bool() {
                w.sk[i] = w.sk[i + 1];
            }
        }
        w
    }
    pub fn skip(&self, p: usize) -> usize {
        self.sk[p] as usize
    }
    /// `t` matched at `p` through the context: (begin, end)
    #[inline(always)]
    pub fn m(&self, build: bool, t: &Tab, p: usize) -> Option<(usize, usize)> {
        let b = self.skip(p);
        match t.m(build, b) {
            Some(e) => Some((b, e)),
            None => None,
        }
    }
}
pub type H0 = Extract<()>;
pub fn h0() -> H0 {
    extract::<()>()
}
/// Runs recognition at `w.s` and compares it with the model's end.
pub fn rec<P: Regex<M> + ?Sized>(asp: Asp, pat: &P, w: &W, model: Option<usize>) -> bool {
    let mut c = M::new(w);
    let r = pat.try_parse(&mut c);
    match asp {
        Asp::Total => {}
        Asp::Rollback => {
            if r.is_err() {
                chk!(c.rel() == w.s, "recognising failed but the position moved");
            }
        }
        Asp::Spanned => {
            if let Ok(sp) = r {
                chk!(sp.beg == w.base + w.s || sp.beg == w.base + w.skip(w.s), "span does not start where matching started");
                chk!(sp.beg.wrapping_add(sp.len) == c.off, "span does not end at the new position");
                chk!(c.rel() <= N && c.rel() >= w.s, "position outside the input");
            }
        }
        Asp::Sem => match model {
            Some(e) => {
                chk!(r.is_ok(), "recognising failed, the definition matches");
                chk!(c.rel() == e, "recognising consumed the wrong amount");
                let sp = r.unwrap();
                chk!(sp.beg.wrapping_add(sp.len) == w.base + e, "recognising reported the wrong span");
            }
            None => {
                chk!(r.is_err(), "recognising succeeded, the definition does not match");
            }
        },
    }
    r.is_ok()
}
/// Runs building at `w.s` and compares it with the model's (end, value).
pub fn bld<O, P: Ctor<M, O, H0> + ?Sized>(asp: Asp, pat: &P, w: &W, model: Option<usize>, val: impl Fn(&O) -> bool) -> bool {
    let mut c = M::new(w);
    let r = pat.construct(&mut c, &mut h0());
    let ok = r.is_ok();
    match asp {
        Asp::Total => {}
        Asp::Rollback => {
            if !ok {
                chk!(c.rel() == w.s, "building failed but the position moved");
            }
        }
        Asp::Spanned => {
            if ok {
                chk!(c.rel() <= N && c.rel() >= w.s, "position outside the input");
            }
        }
        Asp::Sem => match model {
            Some(e) => {
                chk!(ok, "building failed, the definition matches");
                chk!(c.rel() == e, "building consumed the wrong amount");
                if let Ok(v) = &r {
                    chk!(val(v), "building produced the wrong value");
                }
            }
            None => {
                chk!(!ok, "building succeeded, the definition does not match");
            }
        },
    }
    ok
}
/// Both modes on the same sub-pattern behaviour.
pub fn agree<O, P: Ctor<M, O, H0> + ?Sized>(pat: &P, w: &W, _: impl Fn(&O) -> bool) -> bool {
    let mut c = M::new(w);
    let mut d = M::new(w);
    let r = pat.try_parse(&mut c).is_ok();
    let b = pat.construct(&mut d, &mut h0()).is_ok();
    chk!(r == b, "recognising and building disagree on success");
    if r {
        chk!(c.off == d.off, "recognising and building consume different amounts");
    }
    r
}
