//! P05 literals and counted consumption
use crate::long::{L as LL, LT, text_to};
use crate::nd;
use crate::text::*;

use neure::ctx::*;
use neure::err::Error;
use neure::regex::*;
use neure::span::Span;

#[cfg(not(feature = "thorough"))]
const KB: usize = 4;
#[cfg(feature = "thorough")]
const KB: usize = 6;
#[cfg(not(feature = "thorough"))]
const KL: usize = 3;
#[cfg(feature = "thorough")]
const KL: usize = 4;

/// `lit` occurs in `s` at `p`
fn occurs(s: &[u8], p: usize, lit: &[u8]) -> bool {
    if p > s.len() || lit.len() > s.len() - p {
        return false;
    }
    let mut i = 0;
    while i < lit.len() {
        if s[p + i] != lit[i] {
            return false;
        }
        i += 1;
    }
    true
}
fn judge<'a, C: Match<'a>>(r: Result<Span, Error>, c: &C, p: usize, want: Option<usize>) -> bool {
    match want {
        Some(n) => {
            chk!(r.is_ok(), "failed although the input begins with exactly this");
            let sp = r.unwrap();
            chk!(sp.beg == p && sp.len == n, "wrong span");
            chk!(c.offset() == p + n, "did not consume exactly the length");
            n > 0
        }
        None => {
            chk!(r.is_err(), "matched although the input does not begin with this");
            chk!(c.offset() == p, "a failing match moved the position");
            false
        }
    }
}
macro_rules! lit_b {
    ($lit:expr, |$l:ident| $mk:expr) => {{
        let s = Bytes::<KB>::any();
        let p = nd::below(KB + 2);
        nd::assume(p <= s.n());
        let mut c = BytesCtx::new(s.get());
        c.set_offset(p);
        let $l = $lit;
        let want = if occurs(s.get(), p, &$l[..]) { Some($l.len()) } else { None };
        let pat = $mk;
        let r = pat.try_parse(&mut c);
        judge(r, &c, p, want)
    }};
}
/// through the context, building the span
macro_rules! lit_b_ctor {
    ($lit:expr, |$l:ident| $mk:expr) => {{
        let s = Bytes::<KB>::any();
        let p = nd::below(KB + 2);
        nd::assume(p <= s.n());
        let mut c = BytesCtx::new(s.get());
        c.set_offset(p);
        let $l = $lit;
        let want = if occurs(s.get(), p, &$l[..]) { Some($l.len()) } else { None };
        let pat = $mk;
        let r: Result<Span, Error> = c.ctor_span(&pat);
        judge(r, &c, p, want)
    }};
}
/// text: the literal and the input are any characters; the position is any
/// character boundary
macro_rules! lit_t {
    ($k:literal, $j:literal, |$l:ident| $mk:expr) => {{
        let s = Text::<$k, { 4 * $k }>::any();
        let t = Text::<$j, { 4 * $j }>::any();
        let i = nd::below($k + 1);
        nd::assume(i <= s.n());
        let p = s.pos(i);
        let mut c = CharsCtx::new(s.get());
        c.set_offset(p);
        // by definition, on characters
        let mut hit = i + t.n() <= s.n();
        let mut x = 0;
        while x < t.n() {
            if hit && s.item(i + x) != t.item(x) {
                hit = false;
            }
            x += 1;
        }
        let $l = t.get();
        let want = if hit { Some($l.len()) } else { None };
        let pat = $mk;
        let r = pat.try_parse(&mut c);
        judge(r, &c, p, want)
    }};
}
fn any_lit() -> Bytes<KL> {
    Bytes::<KL>::any()
}
macro_rules! cons {
    ($s:ident, $c:ident, $p:ident, $want:expr, $pat:expr) => {{
        let $p = nd::usize();
        $c.set_offset($p);
        let r = $pat.try_parse(&mut $c);
        judge(r, &$c, $p, $want)
    }};
}
/// a long literal that differs from the input in at most one place, at the start or further on
macro_rules! long_lit {
    ($c:ident, $s:expr, $p:expr, $lit:expr, $k:expr, $m:expr, $mk:expr) => {{
        let mut c = $c::new($s);
        c.set_offset($p);
        let want = if $m < $k { None } else { Some($k) };
        let pat = $mk;
        let r = pat.try_parse(&mut c);
        judge(r, &c, $p, want)
    }};
}
const K: usize = LL - 2;
fn long_b(p: usize) -> bool {
    let (m, x) = (nd::below(K + 1), nd::u8());
    nd::assume(x != 1);
    let mut buf = [1u8; LL];
    if m < K {
        buf[p + m] = x;
    }
    let lit = [1u8; K];
    long_lit!(BytesCtx, &buf, p, lit, K, m, literal(&lit))
}
/// an input that ends inside the literal
fn long_short_b() -> bool {
    let n = nd::below(LL);
    let buf = [1u8; LL];
    let lit = [1u8; K];
    let mut c = BytesCtx::new(&buf[..n]);
    let r = literal(&lit).try_parse(&mut c);
    judge(r, &c, 0, if n >= K { Some(K) } else { None })
}
fn long_t(p: usize) -> bool {
    let m = nd::below(LT);
    let mut buf = text_to(LT);
    if m < LT - 1 {
        buf[2 * (p + m) + 1] = 0xA8;
    }
    let s = unsafe { core::str::from_utf8_unchecked(&buf) };
    let lit = text_to(LT);
    let lit = unsafe { core::str::from_utf8_unchecked(&lit[..2 * LT - 2]) };
    long_lit!(CharsCtx, s, 2 * p, lit, 2 * (LT - 1), 2 * m, literal(lit))
}
hs! {
    long_bytes_0 [23, 43] long_b(0);
    long_bytes_2 [23, 43] long_b(2);
    long_bytes_short [23, 43] long_short_b();
    long_text_0 [23, 43] long_t(0);
    long_text_1 [23, 43] long_t(1);
    lit_slice [7, 9] { let l = any_lit(); lit_b!(l.get(), |l| literal(l)) };
    lit_array [7, 9] lit_b!(nd::bytes::<2>(), |l| literal(&l));
    lit_array_3 [7, 9] lit_b!(nd::bytes::<3>(), |l| literal(&l));
    lit_slice_ctor [7, 9] { let l = any_lit(); lit_b_ctor!(l.get(), |l| literal(l)) };
    direct_slice [7, 9] { let l = any_lit(); lit_b!(l.get(), |l| l) };
    direct_array [7, 9] lit_b!(nd::bytes::<2>(), |l| l);
    direct_array_ref [7, 9] lit_b!(nd::bytes::<2>(), |l| &l);
    direct_vec [7, 9] lit_b!(nd::bytes::<2>(), |l| { let mut v = Vec::with_capacity(2); v.push(l[0]); v.push(l[1]); v });
    lit_str [10, 12] lit_t!(2, 2, |l| literal(l));
    lit_string [7, 9] { lit_t!(2, 1, |l| { let mut v = String::with_capacity(4); v.push_str(l); LitString(v) }) };
    direct_str [10, 12] lit_t!(2, 2, |l| l);
    direct_string [7, 9] lit_t!(2, 1, |l| { let mut v = String::with_capacity(4); v.push_str(l); v });
    consume_b [7, 9] { let s = Bytes::<KB>::any(); let mut c = BytesCtx::new(s.get()); let n = nd::usize(); cons!(s, c, p, if p <= s.n() && n <= s.n() - p { Some(n) } else { nd::assume(p <= s.n() || n > 0); None }, consume(n)) };
    consume_t [7, 9] { let s = Text::<2, 8>::any(); let mut c = CharsCtx::new(s.get()); let n = nd::usize(); cons!(s, c, p, if p <= s.len() && n <= s.len() - p { Some(n) } else { nd::assume(p <= s.len() || n > 0); None }, consume(n)) };
    consume_all_b [7, 9] { let s = Bytes::<KB>::any(); let mut c = BytesCtx::new(s.get()); cons!(s, c, p, { nd::assume(p <= s.n()); Some(s.n() - p) }, consume_all()) };
    consume_all_t [7, 9] { let s = Text::<2, 8>::any(); let mut c = CharsCtx::new(s.get()); cons!(s, c, p, { nd::assume(p <= s.len()); Some(s.len() - p) }, consume_all()) };
}
struct LitString(String);
impl<'a> Regex<CharsCtx<'a>> for LitString {
    fn try_parse(&self, ctx: &mut CharsCtx<'a>) -> Result<Span, Error> {
        literal(&self.0).try_parse(ctx)
    }
}
