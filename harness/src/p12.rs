//! P12 searching
use crate::abs::*;
use crate::long::{L as LL, Up};
use crate::nd;
use crate::text::*;
use neure::ctx::*;
use neure::err::Error;
use neure::neu::*;
use neure::regex::Regex;
use neure::span::Span;

/// the leftmost non-empty match at or after p
fn first(w: &W, t: &Tab, p: usize) -> Option<(usize, usize)> {
    let mut q = 0;
    while q < N {
        if q >= p {
            if let Some((b, e)) = w.m(false, t, q) {
                if e > b {
                    return Some((b, e));
                }
            }
        }
        q += 1;
    }
    None
}
/// the adjacent match at p
fn here(w: &W, t: &Tab, p: usize) -> Option<(usize, usize)> {
    if p >= N {
        return None;
    }
    match w.m(false, t, p) {
        Some((b, e)) if e > b => Some((b, e)),
        _ => None,
    }
}
fn is(sp: &Span, w: &W, m: (usize, usize)) -> bool {
    sp.beg == w.base + m.0 && sp.len == m.1 - m.0
}
fn find_(w: W) -> bool {
    let t = Tab::any();
    let mut c = M::new(&w);
    let r: Option<Span> = c.find(t.orc(1, w.base));
    match first(&w, &t, w.s) {
        Some(m) => {
            chk!(r.is_some(), "the search misses a match");
            chk!(is(&r.unwrap(), &w, m), "the search does not return the leftmost match");
            chk!(c.rel() == m.1, "the position after a found match is not its end");
        }
        None => {
            chk!(r.is_none(), "the search returns a match that is not there");
            chk!(c.rel() == N, "the position after a failed search is not the end of the input");
        }
    }
    r.is_some()
}
/// all matches, or all adjacent ones; the iterator is asked once more after it ended
fn all_(seq: bool, w: W) -> bool {
    let t = Tab::any();
    let mut c = M::new(&w);
    let mut got = [None; N + 2];
    {
        fn take(it: &mut dyn FnMut() -> Option<Span>, got: &mut [Option<Span>; N + 2]) {
            let mut i = 0;
            while i < N + 2 {
                got[i] = it();
                i += 1;
            }
        }
        if seq {
            let mut it = c.match_seq::<Span>(t.orc(1, w.base));
            take(&mut || it.next(), &mut got);
        } else {
            let mut it = c.find_all::<Span>(t.orc(1, w.base));
            take(&mut || it.next(), &mut got);
        }
    }
    let mut p = w.s;
    let mut i = 0;
    let mut live = true;
    let mut n = 0;
    while i < N + 2 {
        let m = if !live { None } else if seq { here(&w, &t, p) } else { first(&w, &t, p) };
        match m {
            Some(m) => {
                chk!(got[i].is_some(), "the search for all misses a match");
                chk!(is(&got[i].unwrap(), &w, m), "the search for all returns a wrong match");
                p = m.1;
                n += 1;
            }
            None => {
                chk!(got[i].is_none(), "the search for all returns too many matches");
                live = false;
            }
        }
        i += 1;
    }
    chk!(c.rel() == N, "the position after an exhausted search is not the end of the input");
    n > 1
}
/// one step of the iterator leaves the position at the end of that match
fn step_(seq: bool, w: W) -> bool {
    let t = Tab::any();
    let mut c = M::new(&w);
    let r = if seq { c.match_seq::<Span>(t.orc(1, w.base)).next() } else { c.find_all::<Span>(t.orc(1, w.base)).next() };
    let m = if seq { here(&w, &t, w.s) } else { first(&w, &t, w.s) };
    match m {
        Some(m) => {
            chk!(r.is_some() && is(&r.unwrap(), &w, m), "the first match is wrong");
            chk!(c.rel() == m.1, "the position after a match is not its end");
            true
        }
        None => {
            chk!(r.is_none(), "a match that is not there");
            chk!(c.rel() == N, "the position after an exhausted search is not the end of the input");
            false
        }
    }
}
/// a handler that refuses some matches: they are passed over
fn with_(all: bool, w: W) -> bool {
    let t = Tab::any();
    let mut c = M::new(&w);
    let bad = nd::u8();
    let base = w.base;
    let func = |ctx: &mut M, v: Result<Span, Error>| match v {
        Ok(v) if v.len > 0 => Some(v),
        _ => {
            if ctx.off < base + N {
                ctx.inc(1);
            }
            None
        }
    };
    let map = |_: &M, sp: &Span| -> Result<(usize, usize), Error> {
        if bad >> (sp.beg - base) & 1 == 1 { Err(Error::Fail) } else { Ok((sp.beg - base, sp.len)) }
    };
    let r = if all { c.find_all_with(t.orc(1, base), func, map).next() } else { c.find_with(t.orc(1, base), func, map) };
    let mut p = w.s;
    let mut i = 0;
    let mut want = None;
    let mut live = true;
    while i < N + 1 {
        if live {
            match first(&w, &t, p) {
                Some((b, e)) if bad >> b & 1 == 1 => p = e,
                x => {
                    want = x;
                    live = false;
                }
            }
        }
        i += 1;
    }
    match want {
        Some((b, e)) => {
            chk!(r == Some((b, e - b)), "the search with a handler returns the wrong match");
            chk!(c.rel() == e, "the position after a found match is not its end");
            true
        }
        None => {
            chk!(r.is_none(), "the search with a handler returns a refused match");
            chk!(c.rel() == N, "the position after a failed search is not the end of the input");
            false
        }
    }
}

struct Odd;
impl Neu<u8> for Odd {
    fn is_match(&self, x: &u8) -> bool {
        x & 1 == 1
    }
}
impl Neu<char> for Odd {
    fn is_match(&self, x: &char) -> bool {
        *x as u32 & 1 == 1
    }
}
/// the first item of a class, in a real input
fn real<'a, C, S, F>(c: &mut C, s: &S, odd: F, i0: usize, r: Option<Span>) -> bool
where
    C: Match<'a>,
    S: Src,
    F: Fn(S::Item) -> bool,
{
    let mut i = i0;
    while i < s.n() && !odd(s.item(i)) {
        i += 1;
    }
    if i < s.n() {
        chk!(r == Some(Span::new(s.pos(i), s.pos(i + 1) - s.pos(i))), "the first occurrence is missed or wrong");
        chk!(c.offset() == s.pos(i + 1), "the position after a found match is not its end");
        true
    } else {
        chk!(r.is_none(), "an occurrence that is not there");
        chk!(c.offset() == s.len(), "the position after an exhausted search");
        false
    }
}
/// matches `len` items at one position, nothing elsewhere
#[derive(Clone, Copy, Debug)]
struct On {
    at: usize,
    len: usize,
    other: usize,
}
impl<'a> Regex<BytesCtx<'a>> for On {
    #[inline(always)]
    fn try_parse(&self, c: &mut BytesCtx<'a>) -> Result<Span, Error> {
        let p = c.offset();
        if p == self.at {
            c.inc(self.len);
            Ok(Span::new(p, self.len))
        } else if p == self.other {
            c.inc(1);
            Ok(Span::new(p, 1))
        } else {
            Err(Error::Uid(1))
        }
    }
}
fn long_find() -> bool {
    let (at, len, s) = (nd::below(LL + 1), nd::below(4), 1);
    nd::assume(at + len <= LL);
    let buf = [0u8; LL];
    let mut c = BytesCtx::new(&buf);
    c.set_offset(s);
    let r: Option<Span> = c.find(On { at, len, other: LL + 5 });
    if at >= s && len > 0 && at < LL {
        chk!(matches!(r, Some(x) if x.beg == at && x.len == len), "the search misses the match (long input)");
        chk!(c.offset() == at + len, "the position after a found match is not its end (long input)");
    } else {
        chk!(r.is_none(), "the search returns a match that is not there (long input)");
        chk!(c.offset() == LL, "the position after a failed search is not the end of the input (long input)");
    }
    r.is_some()
}
/// two matches, anywhere
fn long_find_all() -> bool {
    let (a, n, b) = (nd::below(LN), 1 + nd::below(3), nd::below(LN));
    nd::assume(a + n <= LN && (b >= a + n || b < a));
    let buf = [0u8; LN];
    let mut c = BytesCtx::new(&buf);
    let (x, y, z);
    {
        let mut it = c.find_all::<Span>(On { at: a, len: n, other: b });
        x = it.next();
        y = it.next();
        z = it.next();
    }
    let (p, q) = if a < b { ((a, n), (b, 1)) } else { ((b, 1), (a, n)) };
    chk!(matches!(x, Some(s) if s.beg == p.0 && s.len == p.1), "the search for all misses the first match (long input)");
    chk!(matches!(y, Some(s) if s.beg == q.0 && s.len == q.1), "the search for all misses the second match (long input)");
    chk!(z.is_none(), "the search for all returns too many matches (long input)");
    chk!(c.offset() == LN, "the position after an exhausted search is not the end of the input (long input)");
    a < b
}
fn long_seq() -> bool {
    let f = nd::below(LQ + 1);
    let buf = [0u8; LQ];
    let mut c = BytesCtx::new(&buf);
    {
        let mut it = c.match_seq::<Span>(Up { to: f });
        let mut i = 0;
        while i <= LQ {
            let r = it.next();
            if i < f {
                chk!(matches!(r, Some(s) if s.beg == i && s.len == 1), "a match of the run is wrong (long input)");
            } else {
                chk!(r.is_none(), "the run does not stop at the first gap (long input)");
            }
            i += 1;
        }
    }
    chk!(c.offset() == LQ, "the position after an exhausted search is not the end of the input (long input)");
    f > 4
}
const LN: usize = LL / 2;
const LQ: usize = LL / 4 + 2;
hs! {
    long_find_b [23, 43] long_find();
    long_find_all_b [13, 23] long_find_all();
    long_seq_b [10, 15] long_seq();
    find_plain [6, 8] find_(W::plain());
    find_skip [6, 8] find_(W::skipping());
    find_all_plain [6, 8] all_(false, W::plain());
    find_all_skip [6, 8] all_(false, W::skipping());
    match_seq_plain [6, 8] all_(true, W::plain());
    match_seq_skip [6, 8] all_(true, W::skipping());
    find_all_step [8, 10] step_(false, W::skipping());
    match_seq_step [8, 10] step_(true, W::skipping());
    find_with_handler [8, 10] with_(false, W::plain());
    find_all_with_handler [8, 10] with_(true, W::plain());
    bytes_find [6, 8] {
        let s = Bytes::<3>::any();
        let i = nd::below(4);
        nd::assume(i <= s.n());
        let mut c = BytesCtx::new(s.get());
        c.set_offset(i);
        let r = c.find::<Span>(Odd.once());
        real(&mut c, &s, |x| x & 1 == 1, i, r)
    };
    text_find_21 [5, 5] text([2, 1]);
    text_find_12 [5, 5] text([1, 2]);
    text_find_3 [5, 5] text([3]);
}
fn text<const K: usize>(w: [usize; K]) -> bool {
    let s = Lay::<K>::of(w);
    let mut c = CharsCtx::new(s.get());
    let r = c.find::<Span>(Odd.once());
    real(&mut c, &s, |x| x as u32 & 1 == 1, 0, r)
}
