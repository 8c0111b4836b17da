//! P13 skip policies
use crate::abs::*;
use crate::long::{L as LL, LT, bytes_to};
use crate::nd;
use crate::text::*;
use neure::ctor::*;
use neure::ctx::*;
use neure::err::Error;
use neure::neu::*;
use neure::regex::*;
use neure::span::Span;

/// outcome of a match: (begin, end of the reported span, new position)
type Want = Option<(usize, usize, usize)>;
fn judge(r: &Result<Span, Error>, off: usize, s: usize, want: Want) -> bool {
    match want {
        Some((b, e, o)) => {
            chk!(r.is_ok(), "failed although the parts match in order");
            let sp = r.as_ref().unwrap();
            chk!(sp.beg == b && sp.len == e - b, "the reported span is not the main pattern's");
            chk!(off == o, "consumed more or less than the parts");
            true
        }
        None => {
            chk!(r.is_err(), "matched although a part does not");
            chk!(off == s, "a failing match moved the position");
            false
        }
    }
}
fn seq(t: &[&Tab], s: usize) -> Option<usize> {
    let mut p = s;
    let mut i = 0;
    while i < t.len() {
        match t[i].rec(p) {
            Some(e) => p = e,
            None => return None,
        }
        i += 1;
    }
    Some(p)
}
/// a context that skips an arbitrary pattern, matching an arbitrary pattern
fn policy_match() -> bool {
    let w = W::plain();
    let (k, a) = (Tab::any(), Tab::any());
    let mut c = PolicyCtx::new(M::new(&w), k.orc(1, w.base));
    let r = c.try_mat(&a.orc(2, w.base));
    let b = w.base;
    let want = k.rec(w.s).and_then(|x| a.rec(x).map(|y| (b + x, b + y, b + y)));
    judge(&r, c.offset(), b + w.s, want)
}
/// ... building
fn policy_build() -> bool {
    let w = W::plain();
    let (k, a) = (Tab::any(), Tab::any_nocf());
    let mut c = PolicyCtx::new(M::new(&w), k.orc(1, w.base));
    let r: Result<Span, Error> = c.ctor_span(&a.orc(2, w.base).pat());
    let b = w.base;
    let want = k.rec(w.s).and_then(|x| a.rec(x).map(|y| (b + x, b + y, b + y)));
    judge(&r, c.offset(), b + w.s, want)
}
/// ... in front of both parts of a sequence
fn policy_then() -> bool {
    let w = W::plain();
    let (k, a, d) = (Tab::any(), Tab::any(), Tab::any());
    let mut c = PolicyCtx::new(M::new(&w), k.orc(1, w.base));
    let r = a.orc(2, w.base).then(d.orc(3, w.base)).try_parse(&mut c);
    let b = w.base;
    let want = k.rec(w.s).and_then(|x| seq(&[&a, &k, &d], x).map(|y| (b + x, b + y, b + y)));
    judge(&r, c.offset(), b + w.s, want)
}
/// before / after / both, on a plain context
fn around(kind: usize) -> bool {
    let buf = [0u8; N];
    let (f, a, g) = (Tab::any(), Tab::any(), Tab::any());
    let s = nd::below(N + 1);
    let mut c = BytesCtx::new(&buf);
    c.set_offset(s);
    let (fo, ao, go) = (f.orc(1, 0), a.orc(2, 0), g.orc(3, 0));
    let x = if kind == 1 { Some(s) } else { f.rec(s) };
    let y = x.and_then(|x| a.rec(x));
    let z = if kind == 0 { y } else { y.and_then(|y| g.rec(y)) };
    let want = match (x, y, z) {
        (Some(x), Some(y), Some(z)) => Some((x, y, z)),
        _ => None,
    };
    let r = match kind {
        0 => c.try_mat_before(&ao, &fo),
        1 => c.try_mat_after(&ao, &go),
        _ => c.try_mat_policy(&ao, &fo, &go),
    };
    judge(&r, c.offset(), s, want)
}
/// the same on a skipping context (the explicit patterns replace the policy)
fn around_policy(kind: usize) -> bool {
    let w = W::plain();
    let (f, a, g) = (Tab::any(), Tab::any(), Tab::any());
    let none = |_: &mut M| -> Result<Span, Error> { Ok(Span::default()) };
    let mut c = PolicyCtx::new(M::new(&w), none);
    let (fo, ao, go) = (f.orc(1, w.base), a.orc(2, w.base), g.orc(3, w.base));
    let x = if kind == 1 { Some(w.s) } else { f.rec(w.s) };
    let y = x.and_then(|x| a.rec(x));
    let z = if kind == 0 { y } else { y.and_then(|y| g.rec(y)) };
    let b = w.base;
    let want = match (x, y, z) {
        (Some(x), Some(y), Some(z)) => Some((b + x, b + y, b + z)),
        _ => None,
    };
    let r = match kind {
        0 => c.try_mat_before(&ao, &fo),
        1 => c.try_mat_after(&ao, &go),
        _ => c.try_mat_policy(&ao, &fo, &go),
    };
    judge(&r, c.offset(), b + w.s, want)
}
fn ascii_ws(c: u32) -> bool {
    c == 0x20 || c == 0x09 || c == 0x0A || c == 0x0C || c == 0x0D
}
/// Unicode White_Space
fn uni_ws(c: u32) -> bool {
    (c >= 0x09 && c <= 0x0D) || c == 0x20 || c == 0x85 || c == 0xA0 || c == 0x1680 || (c >= 0x2000 && c <= 0x200A)
        || c == 0x2028 || c == 0x2029 || c == 0x202F || c == 0x205F || c == 0x3000
}
trait Code: Copy {
    fn code(self) -> u32;
}
impl Code for u8 {
    fn code(self) -> u32 {
        self as u32
    }
}
impl Code for char {
    fn code(self) -> u32 {
        self as u32
    }
}
/// anything at all, one item
#[derive(Clone, Copy, Debug)]
struct One;
impl<T: Code> Neu<T> for One {
    fn is_match(&self, x: &T) -> bool {
        x.code() & 4 == 0
    }
}
fn skip_ws<S: Src>(s: &S, ws: fn(u32) -> bool, i: usize) -> usize
where
    S::Item: Code,
{
    let mut j = i;
    while j < s.n() && ws(s.item(j).code()) {
        j += 1;
    }
    j
}
fn one<S: Src>(s: &S, i: usize) -> Option<usize>
where
    S::Item: Code,
{
    if i < s.n() && s.item(i).code() & 4 == 0 { Some(i + 1) } else { None }
}
/// a whitespace-skipping context and one item
fn ws_ctx<'a, C, S>(mut c: C, s: &S, i: usize, ws: fn(u32) -> bool) -> bool
where
    C: Match<'a>,
    C::Item: Code,
    S: Src,
    S::Item: Code,
{
    c.set_offset(s.pos(i));
    let j = skip_ws(s, ws, i);
    let want = one(s, j).map(|e| (s.pos(j), s.pos(e), s.pos(e)));
    let pat: Once<C, One, C::Item> = Once::new(One, EmptyCond);
    let r = c.try_mat(&pat);
    judge(&r, c.offset(), s.pos(i), want)
}
/// the adapters: recognised span includes the whitespace
macro_rules! adapter {
    ($c:ident, $s:ident, $i:ident, $lead:expr, $ws:expr, $pat:expr) => {{
        $c.set_offset($s.pos($i));
        let want = if $lead {
            one(&$s, skip_ws(&$s, $ws, $i)).map(|e| ($s.pos($i), $s.pos(e), $s.pos(e)))
        } else {
            one(&$s, $i).map(|e| skip_ws(&$s, $ws, e)).map(|e| ($s.pos($i), $s.pos(e), $s.pos(e)))
        };
        let r = $pat.try_parse(&mut $c);
        judge(&r, $c.offset(), $s.pos($i), want)
    }};
}
/// ... and while building, the value is the main pattern's
macro_rules! adapter_bld {
    ($c:ident, $s:ident, $i:ident, $lead:expr, $ws:expr, $pat:expr) => {{
        $c.set_offset($s.pos($i));
        let want = if $lead {
            let j = skip_ws(&$s, $ws, $i);
            one(&$s, j).map(|e| ($s.pos(j), $s.pos(e), $s.pos(e)))
        } else {
            one(&$s, $i).map(|e| ($s.pos($i), $s.pos(e), $s.pos(skip_ws(&$s, $ws, e))))
        };
        let r: Result<Span, Error> = $c.ctor_span(&$pat);
        judge(&r, $c.offset(), $s.pos($i), want)
    }};
}
macro_rules! b {
    ($s:ident, $c:ident, $i:ident) => {
        let $s = Bytes::<3>::any();
        let $i = nd::below(4);
        nd::assume($i <= $s.n());
        #[allow(unused_mut)]
        let mut $c = BytesCtx::new($s.get());
    };
}
macro_rules! t {
    ($s:ident, $c:ident, $i:ident) => {
        let $s = Text::<2, 8>::of(2);
        let $i = nd::below(3);
        #[allow(unused_mut)]
        let mut $c = CharsCtx::new($s.get());
    };
}
/// a long run of whitespace in front of, or behind, one item: everything is skipped
/// (c: context on the input, w: bytes per character, a: length of the run)
macro_rules! long_ws {
    ($c:expr, $w:literal, $n:expr, $a:expr, $kind:literal, $skip:ident, $lead:ident, $trail:ident) => {{
        let (n, a) = ($n, $a);
        #[allow(unused_mut)]
        let mut c = $c;
        match $kind {
            0 => {
                let mut c = c.$skip();
                let pat = Once::new(One, EmptyCond);
                let r = c.try_mat(&pat);
                let want = if a < n { Some(($w * a, $w * (a + 1), $w * (a + 1))) } else { None };
                judge(&r, c.offset(), 0, want)
            }
            1 => {
                let r = One.once().$lead().try_parse(&mut c);
                let want = if a < n { Some((0, $w * (a + 1), $w * (a + 1))) } else { None };
                judge(&r, c.offset(), 0, want)
            }
            _ => {
                // the item is the first of the input
                let e = if a == 0 { 1 } else { a };
                let r = One.once().$trail().try_parse(&mut c);
                judge(&r, c.offset(), 0, Some((0, $w * e, $w * e)))
            }
        };
        a > 9
    }};
}
fn ws_bytes_to(a: usize, item_first: bool) -> [u8; LL] {
    let mut b = bytes_to(a, b' ', b'x');
    if item_first {
        b[0] = b'x';
    }
    b
}
fn ws_text_to(a: usize, item_first: bool) -> [u8; 2 * LT] {
    let mut v = [0xC2; 2 * LT];
    let mut i = 0;
    while i < LT {
        // no-break space, inverted exclamation mark
        v[2 * i + 1] = if i < a && !(item_first && i == 0) { 0xA0 } else { 0xA1 };
        i += 1;
    }
    v
}
macro_rules! long_b {
    ($kind:literal) => {{
        let a = nd::below(LL + 1);
        let buf = ws_bytes_to(a, $kind == 2);
        long_ws!(BytesCtx::new(&buf), 1, LL, a, $kind, skip_ascii_whitespace, skip_ascii_ws_leading, skip_ascii_ws)
    }};
}
macro_rules! long_t {
    ($kind:literal) => {{
        let a = nd::below(LT + 1);
        let buf = ws_text_to(a, $kind == 2);
        long_ws!(CharsCtx::new(unsafe { core::str::from_utf8_unchecked(&buf) }), 2, LT, a, $kind, skip_whitespace, skip_ws_leading, skip_ws)
    }};
}
hs! {
    long_ws_ctx_b [23, 43] long_b!(0);
    long_ws_leading_b [23, 43] long_b!(1);
    long_ws_trailing_b [23, 43] long_b!(2);
    long_ws_ctx_t [23, 43] long_t!(0);
    long_ws_leading_t [23, 43] long_t!(1);
    long_ws_trailing_t [23, 43] long_t!(2);
    skip_match [6, 8] policy_match();
    skip_build [6, 8] policy_build();
    skip_then [6, 8] policy_then();
    before [6, 8] around(0);
    after [6, 8] around(1);
    before_after [6, 8] around(2);
    before_policy [6, 8] around_policy(0);
    after_policy [6, 8] around_policy(1);
    before_after_policy [6, 8] around_policy(2);
    ws_bytes [6, 8] { b!(s, c, i); ws_ctx(c.skip_ascii_whitespace(), &s, i, ascii_ws) };
    ws_text_ascii [5, 7] { t!(s, c, i); ws_ctx(c.skip_ascii_whitespace(), &s, i, ascii_ws) };
    ws_text [5, 7] { t!(s, c, i); ws_ctx(c.skip_whitespace(), &s, i, uni_ws) };
    skip_ascii_ws_b [6, 8] { b!(s, c, i); adapter!(c, s, i, false, ascii_ws, One.once().skip_ascii_ws()) };
    skip_ascii_ws_leading_b [6, 8] { b!(s, c, i); adapter!(c, s, i, true, ascii_ws, One.once().skip_ascii_ws_leading()) };
    skip_ascii_ws_b_bld [6, 8] { b!(s, c, i); adapter_bld!(c, s, i, false, ascii_ws, One.once().skip_ascii_ws()) };
    skip_ascii_ws_leading_b_bld [6, 8] { b!(s, c, i); adapter_bld!(c, s, i, true, ascii_ws, One.once().skip_ascii_ws_leading()) };
    skip_ws_t [5, 7] { t!(s, c, i); adapter!(c, s, i, false, uni_ws, One.once().skip_ws()) };
    skip_ws_leading_t [5, 7] { t!(s, c, i); adapter!(c, s, i, true, uni_ws, One.once().skip_ws_leading()) };
    skip_ws_t_bld [5, 7] { t!(s, c, i); adapter_bld!(c, s, i, false, uni_ws, One.once().skip_ws()) };
    skip_ascii_ws_t [5, 7] { t!(s, c, i); adapter!(c, s, i, false, ascii_ws, One.once().skip_ascii_ws()) };
    skip_ascii_ws_leading_t [5, 7] { t!(s, c, i); adapter!(c, s, i, true, ascii_ws, One.once().skip_ascii_ws_leading()) };
}
