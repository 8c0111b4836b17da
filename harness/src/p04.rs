//! P04 look-ahead, anchors, empty and failing patterns
use crate::abs::{Asp::Sem, *};
use crate::comb::{Kind::*, Mode::Neg, *};
use crate::nd;
use crate::text::*;
use neure::ctor::*;
use neure::ctx::*;
use neure::err::Error;
use neure::neu::*;
use neure::regex::*;
use neure::span::Span;

/// a pattern that consumes nothing: `want` tells whether it matches at `s`
fn zero<'a, C: Match<'a>, P: Regex<C> + ?Sized>(pat: &P, ctx: &mut C, want: bool) -> bool {
    let s = ctx.offset();
    let r = pat.try_parse(ctx);
    chk!(ctx.offset() == s, "a zero-width pattern moved the position");
    chk!(r.is_ok() == want, "a zero-width pattern decided wrongly");
    if let Ok(sp) = &r {
        chk!(sp.beg == s && sp.len == 0, "a zero-width pattern reported a wrong span");
    }
    want
}
/// the same through the context and while building
fn zero_ctx<'a, C, P>(pat: &P, ctx: &mut C, want: bool) -> bool
where
    C: Match<'a>,
    P: Regex<C> + Ctor<C, Span, Extract<Span>>,
{
    let s = ctx.offset();
    let r = ctx.try_mat(pat);
    chk!(ctx.offset() == s && r.is_ok() == want, "matching a zero-width pattern through the context");
    let r = pat.construct(ctx, &mut extract::<Span>());
    chk!(ctx.offset() == s && r.is_ok() == want, "building a zero-width pattern");
    if let Ok(sp) = &r {
        chk!(sp.beg == s && sp.len == 0, "building a zero-width pattern reported a wrong span");
    }
    want
}
fn look(kind: usize, w: W) -> bool {
    let a = Tab::any();
    let o = a.orc(1, w.base);
    let hit = a.rec(w.skip(w.s)).is_some();
    let mut c = M::new(&w);
    match kind {
        0 => zero(&peek(o), &mut c, hit),
        1 => zero(&neure::regex::not(o), &mut c, !hit),
        2 => {
            let v = nd::bool();
            zero(&neure::regex::assert(o, v), &mut c, hit == v)
        }
        3 => {
            let v = nd::bool();
            zero(&neure::regex::assert(o, nd::bool()).with_value(v), &mut c, hit == v)
        }
        // through the context
        4 => {
            let r = c.try_assert(&o);
            chk!(c.rel() == w.s, "try_assert moved the position");
            chk!(matches!(r, Ok(x) if x == hit), "try_assert decided wrongly");
            hit
        }
        5 => {
            let r = c.assert(&o);
            chk!(c.rel() == w.s, "assert moved the position");
            chk!(r == hit, "assert decided wrongly");
            hit
        }
        // double negation
        _ => zero(&neure::regex::not(neure::regex::not(o)), &mut c, a.rec(w.skip(w.skip(w.s))).is_some()),
    }
}
macro_rules! real {
    ($s:ident, $ctx:ident, $p:ident) => {
        let $s = Bytes::<3>::any();
        let mut $ctx = BytesCtx::new($s.get());
        let $p = nd::usize();
        $ctx.set_offset($p);
    };
}
macro_rules! real_t {
    ($s:ident, $ctx:ident, $p:ident) => {
        let $s = Text::<2, 8>::any();
        let mut $ctx = CharsCtx::new($s.get());
        let $p = nd::usize();
        $ctx.set_offset($p);
    };
}
/// `!pattern` against the pattern's own verdict
macro_rules! negb {
    ($p:expr) => {{
        real!(s, c, p);
        nd::assume(p <= s.n());
        let mut d = c;
        let hit = d.try_mat(&$p).is_ok();
        zero(&!$p, &mut c, !hit)
    }};
}
struct Odd;
impl Neu<u8> for Odd {
    fn is_match(&self, x: &u8) -> bool {
        x & 1 == 1
    }
}
impl Neu<char> for Odd {
    fn is_match(&self, x: &char) -> bool {
        *x as u32 & 1 == 1
    }
}
hs! {
    look_peek [6, 8] look(0, W::plain());
    look_not [6, 8] look(1, W::plain());
    look_assert [6, 8] look(2, W::plain());
    look_with_value [6, 8] look(3, W::plain());
    look_try_assert [6, 8] look(4, W::plain());
    look_ctx_assert [6, 8] look(5, W::plain());
    look_not_not [6, 8] look(6, W::plain());
    look_peek_skip [6, 8] look(0, W::skipping());
    look_not_skip [6, 8] look(1, W::skipping());
    look_try_assert_skip [6, 8] look(4, W::skipping());
    bang_or [7, 9] crate::comb::or(Neg, Sem, W::plain());
    bang_branch [7, 9] branch_(Neg, Sem, W::plain());
    bang_opt [7, 9] opt_(Neg, Sem, W::plain());
    bang_array [7, 9] alts(Array, false, Neg, Sem, W::plain());
    bang_slice [7, 9] alts(Slice, false, Neg, Sem, W::plain());
    bang_vector [7, 9] alts(Vector, false, Neg, Sem, W::plain());
    bang_pair_array [7, 9] alts(PairArray, false, Neg, Sem, W::plain());
    bang_pair_slice [7, 9] alts(PairSlice, false, Neg, Sem, W::plain());
    bang_pair_vector [7, 9] alts(PairVector, false, Neg, Sem, W::plain());
    bang_longest [7, 9] longest(Neg, Sem, W::plain());
    bang_then [7, 9] then_(Neg, Sem, W::plain());
    bang_if_then [7, 9] if_then_(Neg, Sem, W::plain());
    bang_prefix [7, 9] affix(true, Neg, Sem, W::plain());
    bang_suffix [7, 9] affix(false, Neg, Sem, W::plain());
    bang_enclose [7, 9] enclose_(Neg, Sem, W::plain());
    bang_sep_once [7, 9] sep_once_(Neg, Sem, W::plain());
    bang_map [7, 9] map_(Neg, Sem, W::plain());
    bang_repeat [7, 9] repeat_(0, Neg, Sem, W::plain());
    bang_repeat2 [7, 9] repeat2_::<1, 2>(Neg, Sem, W::plain());
    bang_collect [7, 9] collect_(Neg, Sem, W::plain());
    bang_sep_opt [7, 9] sep_(1, true, Neg, Sem, W::plain());
    bang_sep_man [7, 9] sep_(1, false, Neg, Sem, W::plain());
    bang_sep2 [7, 9] sep2_::<1, 2>(Neg, Sem, W::plain());
    bang_sep_collect [7, 9] sep_collect_(Neg, Sem, W::plain());
    bang_pat [6, 8] { let w = W::plain(); let a = Tab::any(); let x = a.rec(w.s); neg(a.orc(1, w.base).pat(), &w, x) };
    start_b [6, 8] { real!(s, c, p); zero(&start(), &mut c, p == 0) };
    end_b [6, 8] { real!(s, c, p); zero(&end(), &mut c, p == s.n()) };
    start_t [6, 8] { real_t!(s, c, p); zero(&start(), &mut c, p == 0) };
    end_t [6, 8] { real_t!(s, c, p); zero(&end(), &mut c, p == s.len()) };
    not_start_b [6, 8] { real!(s, c, p); zero(&!start(), &mut c, p != 0) };
    not_end_b [6, 8] { real!(s, c, p); zero(&!end(), &mut c, p != s.n()) };
    not_end_t [6, 8] { real_t!(s, c, p); zero(&!end(), &mut c, p != s.len()) };
    start_ctx [6, 8] { real!(s, c, p); zero_ctx(&start(), &mut c, p == 0) };
    end_ctx [6, 8] { real_t!(s, c, p); zero_ctx(&end(), &mut c, p == s.len()) };
    empty_b [6, 8] { real!(s, c, p); zero(&empty(), &mut c, true); zero_ctx(&empty(), &mut c, true); zero(&(), &mut c, true); zero(&!empty(), &mut c, false); p == 1 };
    fail_b [6, 8] { real!(s, c, p); zero(&fail(), &mut c, false); zero(&!fail(), &mut c, true); let r: Result<Span, Error> = c.ctor_span(&fail()); chk!(r.is_err() && c.offset() == p, "fail"); p == 1 };
    empty_t [6, 8] { real_t!(s, c, p); zero(&empty(), &mut c, true); zero(&(), &mut c, true); zero(&fail(), &mut c, false); p == 1 };
    peek_class_b [6, 8] { real!(s, c, p); let hit = p < s.n() && s.buf[p] & 1 == 1; zero(&peek(Odd.once()), &mut c, hit); zero_ctx(&peek(Odd.once()), &mut c, hit) };
    not_class_b [6, 8] { real!(s, c, p); let hit = p < s.n() && s.buf[p] & 1 == 1; zero(&!Odd.many1(), &mut c, !hit) };
    peek_class_t [6, 8] { real_t!(s, c, p); let i = s.at(p); let hit = match i { Some(i) if i < s.n() => s.item(i) as u32 & 1 == 1, _ => false }; zero(&peek(Odd.once()), &mut c, hit); zero(&!Odd.once(), &mut c, !hit) };
    not_consume_b [6, 8] { real!(s, c, p); let n = nd::usize(); let hit = p <= s.n() && n <= s.n() - p; nd::assume(p <= s.n()); zero(&!consume(n), &mut c, !hit) };
    not_once_b [6, 8] negb!(Odd.once());
    not_opt_b [6, 8] negb!(Odd.opt()) | nd::bool();
    not_many0_b [6, 8] negb!(Odd.many0()) | nd::bool();
    not_between_b [6, 8] negb!(Odd.between::<2, 3>());
    not_times_b [6, 8] negb!(Odd.times(1..3));
    not_pair_b [6, 8] negb!(Odd.then(Odd));
    not_adapter_b [6, 8] negb!(neure::regex::Adapter::new(Odd.once()));
    not_consume_all_b [6, 8] negb!(consume_all()) | nd::bool();
    not_peek_b [6, 8] negb!(peek(Odd.once()));
}
