//! Long inputs: patterns whose behaviour is one symbolic number each, on inputs
//! many items long, so that a loop that goes wrong only after several rounds, a
//! list that loses its later alternatives or a comparison that stops early shows.
//! (The harnesses over `abs::Tab` give every behaviour, on short inputs.)
use neure::ctor::{Ctor, Extract, Handler, extract};
use neure::ctx::*;
use neure::err::Error;
use neure::regex::Regex;
use neure::span::Span;

/// input length
#[cfg(not(feature = "thorough"))]
pub const L: usize = 20;
#[cfg(feature = "thorough")]
pub const L: usize = 40;
pub static BUF: [u8; L] = [b'x'; L];

/// matches one item in front of position `to`
#[derive(Clone, Copy, Debug)]
pub struct Up {
    pub to: usize,
}
impl<'a> Regex<BytesCtx<'a>> for Up {
    #[inline(always)]
    fn try_parse(&self, c: &mut BytesCtx<'a>) -> Result<Span, Error> {
        let p = c.offset();
        if p < self.to {
            c.inc(1);
            Ok(Span::new(p, 1))
        } else {
            Err(Error::Uid(1))
        }
    }
}
impl<'a, H: Handler<BytesCtx<'a>>> Ctor<BytesCtx<'a>, u8, H> for Up {
    #[inline(always)]
    fn construct(&self, c: &mut BytesCtx<'a>, _: &mut H) -> Result<u8, Error> {
        c.try_mat(self).map(|s| s.beg as u8)
    }
}
/// where a sub-pattern of a list matches one item
#[derive(Clone, Copy, Debug)]
pub struct At {
    pub even: bool,
    pub to: usize,
}
impl<'a> Regex<BytesCtx<'a>> for At {
    #[inline(always)]
    fn try_parse(&self, c: &mut BytesCtx<'a>) -> Result<Span, Error> {
        let p = c.offset();
        if p < self.to && (p % 2 == 0) == self.even {
            c.inc(1);
            Ok(Span::new(p, 1))
        } else {
            Err(Error::Uid(2))
        }
    }
}
impl<'a, H: Handler<BytesCtx<'a>>> Ctor<BytesCtx<'a>, u8, H> for At {
    #[inline(always)]
    fn construct(&self, c: &mut BytesCtx<'a>, _: &mut H) -> Result<u8, Error> {
        c.try_mat(self).map(|s| s.beg as u8)
    }
}
/// an alternative: matches `len` items, or does not match
#[derive(Clone, Copy, Debug)]
pub struct Alt {
    pub id: u8,
    pub len: usize,
}
pub const NO: usize = 7;
impl<'a> Regex<BytesCtx<'a>> for Alt {
    #[inline(always)]
    fn try_parse(&self, c: &mut BytesCtx<'a>) -> Result<Span, Error> {
        let p = c.offset();
        if self.len < NO {
            c.inc(self.len);
            Ok(Span::new(p, self.len))
        } else {
            c.inc(1);
            Err(Error::Uid(3))
        }
    }
}
impl<'a, H: Handler<BytesCtx<'a>>> Ctor<BytesCtx<'a>, u8, H> for Alt {
    #[inline(always)]
    fn construct(&self, c: &mut BytesCtx<'a>, _: &mut H) -> Result<u8, Error> {
        let p = c.offset();
        c.try_mat(self).map(|_| self.id | (p as u8) << 4)
    }
}

/// success, end and value
#[inline(always)]
pub fn recog<'a, P: Regex<BytesCtx<'a>>>(p: &P, want: Option<usize>) -> bool {
    let mut c = BytesCtx::new(&BUF);
    let r = p.try_parse(&mut c);
    match want {
        Some(e) => {
            chk!(r.is_ok(), "recognising failed, the definition matches (long input)");
            chk!(c.offset() == e, "recognising consumed the wrong amount (long input)");
            let s = r.unwrap();
            chk!(s.beg == 0 && s.len == e, "recognising reported the wrong span (long input)");
        }
        None => {
            chk!(r.is_err(), "recognising succeeded, the definition does not match (long input)");
            chk!(c.offset() == 0, "a failed match moved the position (long input)");
        }
    }
    want.is_some()
}
#[inline(always)]
pub fn build<'a, O, P: Ctor<BytesCtx<'a>, O, Extract<()>>>(p: &P, want: Option<usize>, val: impl Fn(&O) -> bool) -> bool {
    let mut c = BytesCtx::new(&BUF);
    let mut h = extract::<()>();
    let r: Result<O, Error> = p.construct(&mut c, &mut h);
    match want {
        Some(e) => {
            chk!(r.is_ok(), "building failed, the definition matches (long input)");
            chk!(c.offset() == e, "building consumed the wrong amount (long input)");
            chk!(val(r.as_ref().unwrap()), "building returned the wrong value (long input)");
        }
        None => {
            chk!(r.is_err(), "building succeeded, the definition does not match (long input)");
            chk!(c.offset() == 0, "a failed match moved the position (long input)");
        }
    }
    want.is_some()
}
/// v is 0, step, 2 step, ...: n of them
#[inline(always)]
pub fn is_run(v: &[u8], n: usize, step: usize) -> bool {
    let mut ok = v.len() == n;
    let mut i = 0;
    while i <= L {
        ok = ok && (i >= n || i >= v.len() || v[i] as usize == i * step);
        i += 1;
    }
    ok
}
#[inline(always)]
pub fn arr_run<const B: usize>(v: &[Option<u8>; B], n: usize, step: usize) -> bool {
    let mut ok = true;
    let mut i = 0;
    while i < B {
        ok = ok && v[i] == if i < n { Some((i * step) as u8) } else { None };
        i += 1;
    }
    ok
}
/// a collection that counts its elements and checks their order
#[derive(Debug, Default)]
pub struct Count {
    n: usize,
    step: usize,
    ok: bool,
}
impl Count {
    pub fn is(&self, n: usize, step: usize) -> bool {
        self.ok && self.n == n && (n < 2 || self.step == step)
    }
}
impl FromIterator<u8> for Count {
    #[inline(always)]
    fn from_iter<I: IntoIterator<Item = u8>>(i: I) -> Self {
        let mut c = Count { n: 0, step: 0, ok: true };
        for x in i {
            if c.n == 1 {
                c.step = x as usize;
            }
            c.ok = c.ok && x as usize == c.n * c.step;
            c.n += 1;
        }
        c
    }
}
impl<'a, H: Handler<BytesCtx<'a>>> Ctor<BytesCtx<'a>, (), H> for At {
    #[inline(always)]
    fn construct(&self, c: &mut BytesCtx<'a>, _: &mut H) -> Result<(), Error> {
        c.try_mat(self).map(|_| ())
    }
}

/// L bytes: `a` in front of `to`, `b` from there on
pub fn bytes_to(to: usize, a: u8, b: u8) -> [u8; L] {
    let mut v = [b; L];
    let mut i = 0;
    while i < L {
        if i < to {
            v[i] = a;
        }
        i += 1;
    }
    v
}
/// characters of two bytes: e-acute in front of `to`, e-grave from there on
pub const LT: usize = L / 2;
pub fn text_to(to: usize) -> [u8; 2 * LT] {
    let mut v = [0xC3; 2 * LT];
    let mut i = 0;
    while i < LT {
        v[2 * i + 1] = if i < to { 0xA9 } else { 0xA8 };
        i += 1;
    }
    v
}

/// eight alternatives in every kind of list; the longest one, or the first
#[inline(always)]
pub fn eight(kind: crate::comb::Kind, longest: bool, bld: bool) -> bool {
    use crate::comb::Kind::*;
    use neure::regex::*;
    let mut o = [Alt { id: 0, len: NO }; 8];
    let mut v = [0u8; 8];
    let mut best: Option<(u8, usize)> = None;
    let mut i = 0;
    while i < 8 {
        o[i] = Alt { id: i as u8, len: crate::nd::below(NO + 1) };
        v[i] = 100 + i as u8;
        if o[i].len < NO && best.map(|b| longest && o[i].len > b.1).unwrap_or(true) {
            best = Some((i as u8, o[i].len));
        }
        i += 1;
    }
    let p: [(Alt, u8); 8] = core::array::from_fn(|i| (o[i], v[i]));
    let want = best.map(|b| b.1);
    let one = |x: &u8| best.map(|b| b.0) == Some(*x);
    let two = |x: &(u8, u8)| best.map(|b| (b.0, 100 + b.0)) == Some(*x);
    macro_rules! go {
        ($p:expr, $v:expr) => {{
            let p = $p;
            if bld { build(&p, want, $v) } else { recog(&p, want) }
        }};
    }
    let _ = match (kind, longest) {
        (Array, false) => go!(array(o), one),
        (Array, true) => go!(array_ltm(o), one),
        (Slice, false) => go!(slice(&o), one),
        (Slice, true) => go!(slice_ltm(&o), one),
        (Vector, false) => go!(vector(o), one),
        (Vector, true) => go!(vector_ltm(o), one),
        (PairArray, false) => go!(pair_array(p), two),
        (PairArray, true) => go!(pair_array_ltm(p), two),
        (PairSlice, false) => go!(pair_slice(&p), two),
        (PairSlice, true) => go!(pair_slice_ltm(&p), two),
        (PairVector, false) => go!(pair_vector(p), two),
        (PairVector, true) => go!(pair_vector_ltm(p), two),
    };
    matches!(best, Some((i, n)) if i > 5 && n > 0)
}
