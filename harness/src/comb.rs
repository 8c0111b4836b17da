//! One function per combinator: runs it over abstract sub-patterns and compares
//! it with its definition, evaluated on the same behaviour tables.
//! `mode`: recognise, build, or both (agreement).
use crate::abs::*;
use crate::nd;
use neure::ctor::*;
use neure::err::Error;
use neure::regex::*;
use neure::span::Span;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Mode {
    Rec,
    Bld,
    /// P11: both, on behaviours where building adds no failures
    Agree,
    /// P04: `!pattern`
    Neg,
}
use Mode::*;

pub fn tab(mode: Mode) -> Tab {
    if mode == Agree { Tab::any_nocf() } else { Tab::any() }
}

/// `!pat`: matches exactly where `pat` does not, and consumes nothing
pub fn neg<P: core::ops::Not>(pat: P, w: &W, model: Option<usize>) -> bool
where
    P::Output: Regex<M>,
{
    let not = !pat;
    let mut c = M::new(w);
    let r = not.try_parse(&mut c);
    chk!(c.rel() == w.s, "a negated pattern moved the position");
    chk!(r.is_ok() == model.is_none(), "a negated pattern decided wrongly");
    if let Ok(sp) = r {
        chk!(sp.beg == c.off && sp.len == 0, "a negated pattern reported a wrong span");
    }
    model.is_some()
}

/// run: pattern, world, mode, model end, value check; evaluates to success
macro_rules! run {
    ($mode:expr, $asp:expr, $pat:expr, $w:expr, $m:expr, $val:expr) => {{
        let pat = $pat;
        match $mode {
            Rec => rec($asp, &pat, &$w, $m),
            Bld => bld($asp, &pat, &$w, $m, $val),
            Agree => agree(&pat, &$w, $val),
            Neg => neg(pat, &$w, $m),
        }
    }};
}

#[inline(always)]
pub fn or(mode: Mode, asp: Asp, w: W) -> bool {
    let (a, b) = (tab(mode), tab(mode));
    let bl = mode == Bld;
    let (ma, mb) = (w.m(bl, &a, w.s), w.m(bl, &b, w.s));
    let m = if ma.is_some() { ma } else { mb };
    let id = if ma.is_some() { 1 } else { 2 };
    run!(mode, asp, a.orc(1, w.base).or(b.orc(2, w.base)), w, m.map(|x| x.1), |v: &Tok| {
        let (b, e) = m.unwrap();
        *v == tok(id, b, e)
    })
}

/// first (or furthest-reaching, earliest on ties) alternative: (index, begin, end)
#[inline(always)]
fn pick3(w: &W, bl: bool, t: [&Tab; 3], longest: bool) -> Option<(usize, usize, usize)> {
    let mut best: Option<(usize, usize, usize)> = None;
    let mut i = 0;
    while i < 3 {
        if let Some((b, e)) = w.m(bl, t[i], w.s) {
            let better = match best {
                None => true,
                Some(x) => longest && e > x.2,
            };
            if better {
                best = Some((i, b, e));
            }
        }
        i += 1;
    }
    best
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Kind {
    Array,
    Slice,
    Vector,
    PairArray,
    PairSlice,
    PairVector,
}
#[inline(always)]
pub fn alts(kind: Kind, longest: bool, mode: Mode, asp: Asp, w: W) -> bool {
    let (a, b, c) = (tab(mode), tab(mode), tab(mode));
    let m = pick3(&w, mode == Bld, [&a, &b, &c], longest);
    let me = m.map(|x| x.2);
    let o = [a.orc(0, w.base), b.orc(1, w.base), c.orc(2, w.base)];
    let v = [nd::u8(), nd::u8(), nd::u8()];
    let p = [(o[0], v[0]), (o[1], v[1]), (o[2], v[2])];
    let one = |x: &Tok| {
        let (i, b, e) = m.unwrap();
        *x == tok(i as u8, b, e)
    };
    let two = |x: &(Tok, u8)| {
        let (i, b, e) = m.unwrap();
        x.0 == tok(i as u8, b, e) && x.1 == v[i]
    };
    match (kind, longest) {
        (Kind::Array, false) => run!(mode, asp, array(o), w, me, one),
        (Kind::Array, true) => run!(mode, asp, array_ltm(o), w, me, one),
        (Kind::Slice, false) => run!(mode, asp, slice(&o), w, me, one),
        (Kind::Slice, true) => run!(mode, asp, slice_ltm(&o), w, me, one),
        (Kind::Vector, false) => run!(mode, asp, vector(o), w, me, one),
        (Kind::Vector, true) => run!(mode, asp, vector_ltm(o), w, me, one),
        (Kind::PairArray, false) => run!(mode, asp, pair_array(p), w, me, two),
        (Kind::PairArray, true) => run!(mode, asp, pair_array_ltm(p), w, me, two),
        (Kind::PairSlice, false) => run!(mode, asp, pair_slice(&p), w, me, two),
        (Kind::PairSlice, true) => run!(mode, asp, pair_slice_ltm(&p), w, me, two),
        (Kind::PairVector, false) => run!(mode, asp, pair_vector(p), w, me, two),
        (Kind::PairVector, true) => run!(mode, asp, pair_vector_ltm(p), w, me, two),
    }
}

#[inline(always)]
pub fn longest(mode: Mode, asp: Asp, w: W) -> bool {
    let (a, b) = (tab(mode), tab(mode));
    let bl = mode == Bld;
    let (ma, mb) = (w.m(bl, &a, w.s), w.m(bl, &b, w.s));
    let (m, id) = match (ma, mb) {
        (Some(x), Some(y)) => if x.1 >= y.1 { (ma, 1) } else { (mb, 2) },
        (Some(_), None) => (ma, 1),
        (None, _) => (mb, 2),
    };
    run!(mode, asp, a.orc(1, w.base).longest(b.orc(2, w.base)), w, m.map(|x| x.1), |v: &Tok| {
        let (b, e) = m.unwrap();
        *v == tok(id, b, e)
    })
}

/// the test may answer yes, no, or fail
#[inline(always)]
pub fn branch_(mode: Mode, asp: Asp, w: W) -> bool {
    let (a, b) = (tab(mode), tab(mode));
    let bl = mode == Bld;
    let t = nd::below(3);
    let test = |_: &M| -> Result<bool, Error> { if t == 2 { Err(Error::Fail) } else { Ok(t == 1) } };
    let m = match t {
        0 => w.m(bl, &b, w.s),
        1 => w.m(bl, &a, w.s),
        _ => None,
    };
    let id = if t == 1 { 1 } else { 2 };
    let val = |v: &Tok| {
        let (b, e) = m.unwrap();
        *v == tok(id, b, e)
    };
    if nd::bool() {
        run!(mode, asp, a.orc(1, w.base).if_else(test, b.orc(2, w.base)), w, m.map(|x| x.1), val)
    } else {
        run!(mode, asp, branch(test, a.orc(1, w.base), b.orc(2, w.base)), w, m.map(|x| x.1), val)
    }
}

#[inline(always)]
pub fn opt_(mode: Mode, asp: Asp, w: W) -> bool {
    let a = tab(mode);
    let m = w.m(mode == Bld, &a, w.s);
    let end = match m {
        Some((_, e)) => e,
        None => w.s,
    };
    let ok = run!(mode, asp, a.orc(1, w.base).opt(), w, Some(end), |v: &Option<Tok>| *v == m.map(|(b, e)| tok(1, b, e)));
    ok && m.is_some()
}

#[inline(always)]
pub fn then_(mode: Mode, asp: Asp, w: W) -> bool {
    let (a, b) = (tab(mode), tab(mode));
    let bl = mode == Bld;
    let x = w.m(bl, &a, w.s);
    let y = x.and_then(|x| w.m(bl, &b, x.1));
    run!(mode, asp, a.orc(1, w.base).then(b.orc(2, w.base)), w, y.map(|y| y.1), |v: &(Tok, Tok)| {
        let (x, y) = (x.unwrap(), y.unwrap());
        *v == (tok(1, x.0, x.1), tok(2, y.0, y.1))
    })
}

#[inline(always)]
pub fn if_then_(mode: Mode, asp: Asp, w: W) -> bool {
    let (a, t, b) = (tab(mode), tab(mode), tab(mode));
    let bl = mode == Bld;
    let x = w.m(bl, &a, w.s);
    let tt = x.and_then(|x| w.m(false, &t, x.1));
    let y = tt.and_then(|t| w.m(bl, &b, t.1));
    let end = match (x, tt, y) {
        (None, _, _) => None,
        (Some(x), None, _) => Some(x.1),
        (Some(_), Some(_), y) => y.map(|y| y.1),
    };
    run!(mode, asp, a.orc(1, w.base).if_then(t.orc(2, w.base), b.orc(3, w.base)), w, end, |v: &(Tok, Option<Tok>)| {
        let x = x.unwrap();
        v.0 == tok(1, x.0, x.1) && v.1 == y.map(|y| tok(3, y.0, y.1))
    })
}

/// prefix, suffix
#[inline(always)]
pub fn affix(pre: bool, mode: Mode, asp: Asp, w: W) -> bool {
    let (a, b) = (tab(mode), tab(mode));
    let bl = mode == Bld;
    if pre {
        let x = w.m(false, &b, w.s);
        let y = x.and_then(|x| w.m(bl, &a, x.1));
        run!(mode, asp, a.orc(1, w.base).prefix(b.orc(2, w.base)), w, y.map(|y| y.1), |v: &Tok| {
            let y = y.unwrap();
            *v == tok(1, y.0, y.1)
        })
    } else {
        let x = w.m(bl, &a, w.s);
        let y = x.and_then(|x| w.m(false, &b, x.1));
        run!(mode, asp, a.orc(1, w.base).suffix(b.orc(2, w.base)), w, y.map(|y| y.1), |v: &Tok| {
            let x = x.unwrap();
            *v == tok(1, x.0, x.1)
        })
    }
}

#[inline(always)]
pub fn enclose_(mode: Mode, asp: Asp, w: W) -> bool {
    let (a, l, r) = (tab(mode), tab(mode), tab(mode));
    let bl = mode == Bld;
    let x = w.m(false, &l, w.s);
    let y = x.and_then(|x| w.m(bl, &a, x.1));
    let z = y.and_then(|y| w.m(false, &r, y.1));
    run!(mode, asp, a.orc(1, w.base).enclose(l.orc(2, w.base), r.orc(3, w.base)), w, z.map(|z| z.1), |v: &Tok| {
        let y = y.unwrap();
        *v == tok(1, y.0, y.1)
    })
}

#[inline(always)]
pub fn sep_once_(mode: Mode, asp: Asp, w: W) -> bool {
    let (a, s, b) = (tab(mode), tab(mode), tab(mode));
    let bl = mode == Bld;
    let x = w.m(bl, &a, w.s);
    let y = x.and_then(|x| w.m(false, &s, x.1));
    let z = y.and_then(|y| w.m(bl, &b, y.1));
    run!(mode, asp, a.orc(1, w.base).sep_once(s.orc(2, w.base), b.orc(3, w.base)), w, z.map(|z| z.1), |v: &(Tok, Tok)| {
        let (x, z) = (x.unwrap(), z.unwrap());
        *v == (tok(1, x.0, x.1), tok(3, z.0, z.1))
    })
}

/// pattern built from the previous match (recognising only); the closure picks
/// one of two patterns from the span, or fails
#[inline(always)]
pub fn rdyn(asp: Asp, w: W) -> bool {
    let (a, b, c) = (Tab::any(), Tab::any(), Tab::any());
    let fail_at = nd::u8() as usize;
    let x = w.m(false, &a, w.s);
    let y = match x {
        Some((xb, xe)) if xe != fail_at => w.m(false, if xe - xb == 1 { &b } else { &c }, xe),
        _ => None,
    };
    let base = w.base;
    let func = |_: &mut M, sp: &Span| -> Result<Orc<'_>, Error> {
        if sp.beg + sp.len == base.wrapping_add(fail_at) {
            Err(Error::Fail)
        } else if sp.len == 1 {
            Ok(b.orc(2, base))
        } else {
            Ok(c.orc(3, base))
        }
    };
    let pat = a.orc(1, base).into_regex_builder(func);
    // the documented span is that of the second match only
    let mut ctx = M::new(&w);
    let r = pat.try_parse(&mut ctx);
    match asp {
        Asp::Total => {}
        Asp::Rollback => {
            if r.is_err() {
                crate::chk!(ctx.rel() == w.s, "recognising failed but the position moved");
            }
        }
        Asp::Spanned => {
            if let Ok(sp) = r {
                crate::chk!(sp.beg + sp.len == ctx.off && ctx.rel() <= N, "span does not end at the new position");
            }
        }
        Asp::Sem => match y {
            Some(y) => {
                crate::chk!(r.is_ok(), "failed although both parts match");
                crate::chk!(ctx.rel() == y.1, "consumed the wrong amount");
            }
            None => crate::chk!(r.is_err(), "succeeded although a part does not match"),
        },
    }
    r.is_ok()
}
/// the same for building
#[inline(always)]
pub fn cdyn(asp: Asp, w: W) -> bool {
    let (a, b, c) = (Tab::any(), Tab::any(), Tab::any());
    let fail_at = nd::u8() as usize;
    let base = w.base;
    let x = w.m(true, &a, w.s);
    let y = match x {
        Some((xb, xe)) if xe != fail_at => w.m(true, if xe - xb == 1 { &b } else { &c }, xe),
        _ => None,
    };
    let id = match x {
        Some((xb, xe)) if xe - xb == 1 => 2,
        _ => 3,
    };
    let func = |_: &mut M, t: &Tok| -> Result<Orc<'_>, Error> {
        if t.end as usize == fail_at {
            Err(Error::Fail)
        } else if t.end - t.beg == 1 {
            Ok(b.orc(2, base))
        } else {
            Ok(c.orc(3, base))
        }
    };
    let pat = a.orc(1, base).into_ctor_then_builder(func);
    bld(asp, &pat, &w, y.map(|y| y.1), |v: &(Tok, Tok)| {
        let (x, y) = (x.unwrap(), y.unwrap());
        *v == (tok(1, x.0, x.1), tok(id, y.0, y.1))
    })
}

/// elements of a repetition, by definition
pub struct Run {
    pub n: usize,
    pub end: usize,
    pub t: [(usize, usize); N + 1],
}
#[inline(always)]
pub fn run_of(w: &W, bl: bool, t: &Tab, max: usize) -> Run {
    let mut r = Run { n: 0, end: w.s, t: [(0, 0); N + 1] };
    let mut i = 0;
    while i <= N {
        if r.n < max {
            if let Some((b, e)) = w.m(bl, t, r.end) {
                if r.n <= N {
                    r.t[r.n] = (b, e);
                }
                r.n += 1;
                r.end = e;
            } else {
                break;
            }
        }
        i += 1;
    }
    r
}
fn vec_is(v: &Vec<Tok>, r: &Run) -> bool {
    if v.len() != r.n {
        return false;
    }
    let mut i = 0;
    while i < r.n {
        if v[i] != tok(1, r.t[i].0, r.t[i].1) {
            return false;
        }
        i += 1;
    }
    true
}
fn arr_is<const K: usize>(v: &[Option<Tok>; K], r: &Run) -> bool {
    let mut i = 0;
    while i < K {
        let want = if i < r.n { Some(tok(1, r.t[i].0, r.t[i].1)) } else { None };
        if v[i] != want {
            return false;
        }
        i += 1;
    }
    true
}

/// `form`: how the range is written.  Building into a vector of symbolic capacity
/// is out of reach, so while building the capacity is set explicitly.
#[inline(always)]
pub fn repeat_(form: usize, mode: Mode, asp: Asp, w: W) -> bool {
    let a = tab(mode).progress();
    let lo = nd::below(N + 2);
    let hi = nd::below(N + 2);
    let bl = mode == Bld;
    let o = a.orc(1, w.base);
    // smallest and largest count the range contains
    let (min, max, none) = match form {
        0 => (lo, hi, lo > hi),
        1 => (lo, hi.saturating_sub(1), lo >= hi),
        2 => (lo, N + 1, false),
        3 => (0, hi, false),
        4 => (0, N + 1, false),
        _ => (lo, lo, false),
    };
    let r = run_of(&w, bl, &a, max);
    let m = if !none && r.n >= min { Some(r.end) } else { None };
    let val = |v: &Vec<Tok>| vec_is(v, &r);
    let ok = match form {
        0 => run!(mode, asp, o.repeat(lo..=hi).with_capacity(N + 2), w, m, val),
        1 => run!(mode, asp, o.repeat(lo..hi).with_capacity(N + 2), w, m, val),
        2 => run!(mode, asp, o.repeat(lo..).with_capacity(N + 2), w, m, val),
        3 => run!(mode, asp, o.repeat(..=hi).with_capacity(N + 2), w, m, val),
        4 => run!(mode, asp, o.repeat(..).with_capacity(N + 2), w, m, val),
        _ => run!(mode, asp, o.repeat(lo).with_capacity(N + 2), w, m, val),
    };
    ok && r.n > 0
}
/// the capacity `repeat` picks itself
#[inline(always)]
pub fn repeat_cap<const A: usize, const B: usize>(mode: Mode, asp: Asp, w: W) -> bool {
    let a = tab(mode).progress();
    let r = run_of(&w, mode == Bld, &a, B);
    let m = if r.n >= A { Some(r.end) } else { None };
    run!(mode, asp, a.orc(1, w.base).repeat(A..B + 1), w, m, |v: &Vec<Tok>| vec_is(v, &r)) && r.n > 0
}
#[inline(always)]
pub fn repeat2_<const A: usize, const B: usize>(mode: Mode, asp: Asp, w: W) -> bool {
    let a = tab(mode).progress();
    let r = run_of(&w, mode == Bld, &a, B);
    let m = if r.n >= A && A <= B { Some(r.end) } else { None };
    run!(mode, asp, a.orc(1, w.base).repeat2::<A, B>(), w, m, |v: &[Option<Tok>; B]| arr_is(v, &r)) && r.n > 0
}
#[inline(always)]
pub fn collect_(mode: Mode, asp: Asp, w: W) -> bool {
    let a = tab(mode).progress();
    let min = nd::below(N + 2);
    let r = run_of(&w, mode == Bld, &a, N + 1);
    let m = if r.n >= min { Some(r.end) } else { None };
    run!(mode, asp, a.orc(1, w.base).collect::<Tok, Vec<Tok>>().at_least(min), w, m, |v: &Vec<Tok>| vec_is(v, &r)) && r.n > 0
}

/// elements of a separated list, by definition
#[inline(always)]
pub fn list_of(w: &W, bl: bool, t: &Tab, s: &Tab, max: usize, optional: bool) -> Run {
    let mut r = Run { n: 0, end: w.s, t: [(0, 0); N + 1] };
    let mut go = true;
    let mut i = 0;
    while i <= N {
        if go && r.n < max {
            go = false;
            if let Some((b, e)) = w.m(bl, t, r.end) {
                let sep = w.m(false, s, e);
                if sep.is_some() || optional {
                    r.t[r.n] = (b, e);
                    r.n += 1;
                    r.end = e;
                }
                if let Some((_, e)) = sep {
                    r.end = e;
                    go = true;
                }
            }
        }
        i += 1;
    }
    r
}
/// `min`: concrete while building (it is the capacity of the vector); with the
/// mandatory separator the vector holds units (only its length is compared)
#[inline(always)]
pub fn sep_(min: usize, optional: bool, mode: Mode, asp: Asp, w: W) -> bool {
    let (a, s) = (tab(mode).progress(), tab(mode));
    let r = list_of(&w, mode == Bld, &a, &s, N + 1, optional);
    let m = if r.n >= min { Some(r.end) } else { None };
    let pat = a.orc(1, w.base).sep(s.orc(2, w.base)).with_skip(optional).at_least(min);
    let ok = if optional {
        run!(mode, asp, pat, w, m, |v: &Vec<Tok>| vec_is(v, &r))
    } else {
        run!(mode, asp, pat, w, m, |v: &Vec<()>| v.len() == r.n)
    };
    ok && r.n > 0
}
#[inline(always)]
pub fn sep2_<const A: usize, const B: usize>(mode: Mode, asp: Asp, w: W) -> bool {
    let (a, s) = (tab(mode).progress(), tab(mode));
    let optional = nd::bool();
    let r = list_of(&w, mode == Bld, &a, &s, B, optional);
    let m = if r.n >= A { Some(r.end) } else { None };
    run!(mode, asp, a.orc(1, w.base).sep2::<_, A, B>(s.orc(2, w.base)).with_skip(optional), w, m, |v: &[Option<Tok>; B]| arr_is(v, &r)) && r.n > 0
}
#[inline(always)]
pub fn sep_collect_(mode: Mode, asp: Asp, w: W) -> bool {
    let (a, s) = (tab(mode).progress(), tab(mode));
    let min = nd::below(N + 2);
    let optional = nd::bool();
    let r = list_of(&w, mode == Bld, &a, &s, N + 1, optional);
    let m = if r.n >= min { Some(r.end) } else { None };
    run!(mode, asp, a.orc(1, w.base).sep_collect::<_, Tok, Vec<Tok>>(s.orc(2, w.base)).with_skip(optional).at_least(min), w, m, |v: &Vec<Tok>| vec_is(v, &r)) && r.n > 0
}

/// One part of a pair, or the pair when its parts are equal.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Sel {
    First,
    Second,
    Equal,
}
impl PartialEq<Option<Tok>> for Tok {
    fn eq(&self, o: &Option<Tok>) -> bool {
        *o == Some(*self)
    }
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Pair {
    Then,
    SepOnce,
    IfThen,
    Dyn,
}
#[inline(always)]
pub fn pick(pair: Pair, sel: Sel, asp: Asp, w: W) -> bool {
    let (a, b) = (Tab::any(), Tab::any());
    let t = match pair {
        Pair::SepOnce | Pair::IfThen => Tab::any(),
        _ => a,
    };
    let base = w.base;
    // the same name for both parts, so that they can be equal
    let (oa, ob, ot) = (a.orc(1, base), b.orc(1, base), t.orc(2, base));
    let x = w.m(true, &a, w.s);
    let mid = match pair {
        Pair::SepOnce | Pair::IfThen => x.and_then(|x| w.m(false, &t, x.1)),
        _ => x,
    };
    let y = mid.and_then(|m| w.m(true, &b, m.1));
    // first part, second part (if any), end
    let whole: Option<(Tok, Option<Tok>, usize)> = match (x, mid, y) {
        (Some(x), None, _) if pair == Pair::IfThen => Some((tok(1, x.0, x.1), None, x.1)),
        (Some(x), _, Some(y)) => Some((tok(1, x.0, x.1), Some(tok(1, y.0, y.1)), y.1)),
        _ => None,
    };
    let end = match (whole, sel) {
        (Some((p, q, e)), Sel::Equal) => if q == Some(p) { Some(e) } else { None },
        (Some((_, _, e)), _) => Some(e),
        (None, _) => None,
    };
    let first = |v: &Tok| *v == whole.unwrap().0;
    let second = |v: &Tok| Some(*v) == whole.unwrap().1;
    let both = |v: &(Tok, Tok)| v.0 == whole.unwrap().0 && Some(v.1) == whole.unwrap().1;
    match (pair, sel) {
        (Pair::Then, Sel::First) => bld(asp, &oa.then(ob)._0::<(Tok, Tok)>(), &w, end, first),
        (Pair::Then, Sel::Second) => bld(asp, &oa.then(ob)._1::<(Tok, Tok)>(), &w, end, second),
        (Pair::Then, Sel::Equal) => bld(asp, &oa.then(ob)._eq::<Tok, Tok>(), &w, end, both),
        (Pair::SepOnce, Sel::First) => bld(asp, &oa.sep_once(ot, ob)._0::<(Tok, Tok)>(), &w, end, first),
        (Pair::SepOnce, Sel::Second) => bld(asp, &oa.sep_once(ot, ob)._1::<(Tok, Tok)>(), &w, end, second),
        (Pair::SepOnce, Sel::Equal) => bld(asp, &oa.sep_once(ot, ob)._eq::<Tok, Tok>(), &w, end, both),
        (Pair::IfThen, Sel::First) => bld(asp, &oa.if_then(ot, ob)._0::<(Tok, Option<Tok>)>(), &w, end, first),
        (Pair::IfThen, Sel::Second) => bld(asp, &oa.if_then(ot, ob)._1::<(Tok, Option<Tok>)>(), &w, end, |v: &Option<Tok>| *v == whole.unwrap().1),
        (Pair::IfThen, Sel::Equal) => bld(asp, &oa.if_then(ot, ob)._eq::<Tok, Option<Tok>>(), &w, end, |v: &(Tok, Option<Tok>)| v.0 == whole.unwrap().0 && v.1 == whole.unwrap().1),
        (Pair::Dyn, Sel::First) => bld(asp, &oa.into_ctor_then_builder(|_: &mut M, _: &Tok| Ok(ob))._0::<(Tok, Tok)>(), &w, end, first),
        (Pair::Dyn, Sel::Second) => bld(asp, &oa.into_ctor_then_builder(|_: &mut M, _: &Tok| Ok(ob))._1::<(Tok, Tok)>(), &w, end, second),
        (Pair::Dyn, Sel::Equal) => bld(asp, &oa.into_ctor_then_builder(|_: &mut M, _: &Tok| Ok(ob))._eq::<Tok, Tok>(), &w, end, both),
    }
}
/// A converted value: the conversion may fail at any end position.
#[inline(always)]
pub fn map_(mode: Mode, asp: Asp, w: W) -> bool {
    let a = tab(mode);
    let bl = mode == Bld;
    let x = w.m(bl, &a, w.s);
    let fail_at = if mode == Agree { 255 } else { nd::u8() };
    let conv = move |t: Tok| if t.end == fail_at { Err(Error::Fail) } else { Ok((t.beg, t.end)) };
    let m = match x {
        Some((_, e)) if bl && e as u8 == fail_at => None,
        _ => x.map(|x| x.1),
    };
    let val = |v: &(u8, u8)| x == Some((v.0 as usize, v.1 as usize));
    if nd::bool() {
        run!(mode, asp, a.orc(1, w.base).try_map(conv), w, m, val)
    } else {
        let other = |_: Tok| -> Result<(u8, u8), Error> { Ok((9, 9)) };
        run!(mode, asp, a.orc(1, w.base).try_map(other).map_to::<_, (u8, u8)>(conv), w, m, val)
    }
}
