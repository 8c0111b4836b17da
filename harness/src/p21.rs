//! P21 the pattern notation `regex!`, the class notation `neu!`, `escape_strval!`
use crate::nd;
use crate::text::*;
use neure::ctx::*;
use neure::err::Error;
use neure::neu::Neu;
use neure::prelude::*;
use neure::span::Span;
use neure::{escape_strval, neu, regex};

/// the repetition of a class written in the notation, on a text
fn judge<S: Src>(src: &S, off: usize,  acc: impl Fn(S::Item) -> bool, m: usize, n: usize, r: Result<Span, Error>, end: usize) -> bool {
    let i0 = src.at(off).unwrap();
    let mut i = i0;
    while i < src.n() && i - i0 < n && acc(src.item(i)) {
        i += 1;
    }
    if i - i0 >= m {
        let e = src.pos(i);
        chk!(r.is_ok(), "a text the notation denotes is not matched");
        let s = r.unwrap();
        chk!(s.beg == off && s.len == e - off, "the notation matches another text");
        chk!(end == e, "the notation consumes another text");
        true
    } else {
        chk!(r.is_err(), "a text the notation does not denote is matched");
        chk!(end == off, "a failing pattern moves the position");
        false
    }
}
macro_rules! run {
    ($src:ident, $ctx:ident, $i0:expr, $re:expr, $acc:expr, $m:expr, $n:expr) => {{
        let off = $src.pos($i0);
        $ctx.set_offset(off);
        let re = $re;
        let r = $ctx.try_mat(&re);
        judge(&$src, off, $acc, $m, $n, r, $ctx.offset())
    }};
}
/// a pattern over texts: three characters of the given widths, from character `$i0` on
macro_rules! rx {
    ($w:expr, $i0:expr, $re:expr, $acc:expr, $m:expr, $n:expr) => {{
        let src = Lay::of($w);
        let mut ctx = CharsCtx::new(src.get());
        run!(src, ctx, $i0, $re, $acc, $m, $n)
    }};
}
/// over bytes
macro_rules! rb {
    ($re:expr, $acc:expr, $m:expr, $n:expr) => {{
        let src = Bytes::<4>::any();
        let mut ctx = BytesCtx::new(src.get());
        let i0 = nd::below(src.n() + 1);
        run!(src, ctx, i0, $re, $acc, $m, $n)
    }};
}
/// a class notation by itself, on every character there is
macro_rules! class {
    ($n:expr, $acc:expr) => {{
        let c = nd::char();
        let got = Neu::<char>::is_match(&$n, &c);
        chk!(got == $acc(c), "the class notation denotes another set of characters");
        got
    }};
}
macro_rules! bclass {
    ($n:expr, $acc:expr) => {{
        let c = nd::u8();
        let got = Neu::<u8>::is_match(&$n, &c);
        chk!(got == $acc(c), "the class notation denotes another set of bytes");
        got
    }};
}
fn ws(c: char) -> bool {
    c.is_whitespace()
}
fn nws(c: char) -> bool {
    !c.is_whitespace()
}
fn wild(c: char) -> bool {
    c != '\n'
}
fn a(c: char) -> bool {
    c == 'a'
}
fn helo(c: char) -> bool {
    c == 'h' || c == 'e' || c == 'l' || c == 'o'
}
fn nhelo(c: char) -> bool {
    !helo(c)
}
fn az(c: char) -> bool {
    'a' <= c && c <= 'z'
}
fn naz(c: char) -> bool {
    !az(c)
}
fn letters(c: char) -> bool {
    az(c) || ('A' <= c && c <= 'Z')
}
fn nletters(c: char) -> bool {
    !letters(c)
}
fn greek(c: char) -> bool {
    'α' <= c && c <= 'ω'
}
#[cfg(not(feature = "thorough"))]
const SB: usize = 3;
#[cfg(feature = "thorough")]
const SB: usize = 4;
const MAX: usize = usize::MAX;

/// the contents of a quoted string: anything but the quote, or an escape
fn strval() -> bool {
    let buf = nd::bytes::<SB>();
    let mut c = BytesCtx::new(&buf);
    let off = 0;
    c.set_offset(off);
    let pat = escape_strval!(b'\"', b'\\', [b'\\', b'\"', b't']);
    let r = c.try_mat(&pat);
    let b = &buf;
    let mut i = off;
    let mut go = true;
    while go {
        if i + 1 < b.len() && b[i] == b'\\' && (b[i + 1] == b'\\' || b[i + 1] == b'"' || b[i + 1] == b't') {
            i += 2;
        } else if i < b.len() && b[i] != b'"' {
            i += 1;
        } else {
            go = false;
        }
    }
    chk!(r == Ok(Span::new(off, i - off)), "the string contents are not what is matched");
    chk!(c.offset() == i, "the string contents are not what is consumed");
    i == b.len()
}
/// building with a pattern written in the notation yields the text it matched
fn value() -> bool {
    let src = Lay::of([1, 1, 2]);
    let mut c = CharsCtx::new(src.get());
    let re = regex!([a - z]+);
    let r = c.ctor_span(&re);
    let end = c.offset();
    judge(&src, 0, az, 1, MAX, r, end)
}
fn no_err(c: char) -> bool {
    c == 'x' || az(c) || c == ' '
}
harnesses! {
    ws_forms_a [6, 7] { let r = rx!([1, 1, 1], 0, regex!(), ws, 1, 1); cov!(r, "outcome: true"); cov!(!r, "outcome: false"); }
    ws_forms_b [6, 7] { let r = rx!([1, 3, 1], 0, regex!(+), ws, 1, MAX); cov!(r, "outcome: true"); cov!(!r, "outcome: false"); }
    ws_forms_c [6, 7] { let r = rx!([2, 1, 1], 1, regex!(*), ws, 0, MAX); cov!(r, "outcome: true"); }
    ws_forms_d [6, 7] { let r = rx!([1, 1, 4], 0, regex!(?), ws, 0, 1); cov!(r, "outcome: true"); }
    ws_forms_e [6, 7] { let r = rx!([1, 1], 0, regex!({2}), ws, 2, 2); cov!(r, "outcome: true"); cov!(!r, "outcome: false"); }
    ws_wide [6, 7] { let r = rx!([2, 2, 4], 0, regex!({1, 2}), ws, 1, 2); cov!(r, "outcome: true"); cov!(!r, "outcome: false"); }
    once_a [6, 7] { let r = rx!([1, 1, 1], 0, regex!(a), a, 1, 1); cov!(r, "outcome: true"); cov!(!r, "outcome: false"); }
    once_b [6, 7] { let r = rx!([1, 3, 1], 0, regex!('a'), a, 1, 1); cov!(r, "outcome: true"); cov!(!r, "outcome: false"); }
    once_c [6, 7] { let r = rx!([2, 1, 1], 1, regex!(.), wild, 1, 1); cov!(r, "outcome: true"); cov!(!r, "outcome: false"); }
    once_d [6, 7] { let r = rx!([1, 1, 4], 0, regex!(^), nws, 1, 1); cov!(r, "outcome: true"); cov!(!r, "outcome: false"); }
    plus_a [6, 7] { let r = rx!([1, 1, 1], 0, regex!(a+), a, 1, MAX); cov!(r, "outcome: true"); cov!(!r, "outcome: false"); }
    plus_b [6, 7] { let r = rx!([1, 3, 1], 0, regex!('a'+), a, 1, MAX); cov!(r, "outcome: true"); cov!(!r, "outcome: false"); }
    plus_c [6, 7] { let r = rx!([2, 1, 1], 1, regex!(.+), wild, 1, MAX); cov!(r, "outcome: true"); cov!(!r, "outcome: false"); }
    plus_d [6, 7] { let r = rx!([1, 1, 4], 0, regex!(^+), nws, 1, MAX); cov!(r, "outcome: true"); cov!(!r, "outcome: false"); }
    star_a [6, 7] { let r = rx!([1, 1, 1], 0, regex!(a*), a, 0, MAX); cov!(r, "outcome: true"); }
    star_b [6, 7] { let r = rx!([1, 3, 1], 0, regex!('a'*), a, 0, MAX); cov!(r, "outcome: true"); }
    star_c [6, 7] { let r = rx!([2, 1, 1], 1, regex!(.*), wild, 0, MAX); cov!(r, "outcome: true"); }
    star_d [6, 7] { let r = rx!([1, 1, 4], 0, regex!(^*), nws, 0, MAX); cov!(r, "outcome: true"); }
    question_a [6, 7] { let r = rx!([1, 1, 1], 0, regex!(a?), a, 0, 1); cov!(r, "outcome: true"); }
    question_b [6, 7] { let r = rx!([1, 3, 1], 0, regex!('a'?), a, 0, 1); cov!(r, "outcome: true"); }
    question_c [6, 7] { let r = rx!([2, 1, 1], 1, regex!(.?), wild, 0, 1); cov!(r, "outcome: true"); }
    question_d [6, 7] { let r = rx!([1, 1, 4], 0, regex!(^?), nws, 0, 1); cov!(r, "outcome: true"); }
    exactly_a [6, 7] { let r = rx!([1, 1, 1], 0, regex!(a{2}), a, 2, 2); cov!(r, "outcome: true"); cov!(!r, "outcome: false"); }
    exactly_b [6, 7] { let r = rx!([1, 3, 1], 0, regex!('a'{1}), a, 1, 1); cov!(r, "outcome: true"); cov!(!r, "outcome: false"); }
    exactly_c [6, 7] { let r = rx!([2, 1, 1], 1, regex!(.{2}), wild, 2, 2); cov!(r, "outcome: true"); cov!(!r, "outcome: false"); }
    exactly_d [6, 7] { let r = rx!([1, 1, 4], 0, regex!(^{3}), nws, 3, 3); cov!(r, "outcome: true"); cov!(!r, "outcome: false"); }
    at_least_a [6, 7] { let r = rx!([1, 1, 1], 0, regex!(a{2,}), a, 2, MAX); cov!(r, "outcome: true"); cov!(!r, "outcome: false"); }
    at_least_b [6, 7] { let r = rx!([1, 3, 1], 0, regex!('a'{1,}), a, 1, MAX); cov!(r, "outcome: true"); cov!(!r, "outcome: false"); }
    at_least_c [6, 7] { let r = rx!([2, 1, 1], 1, regex!(.{2,}), wild, 2, MAX); cov!(r, "outcome: true"); cov!(!r, "outcome: false"); }
    at_least_d [6, 7] { let r = rx!([1, 1, 4], 0, regex!(^{0,}), nws, 0, MAX); cov!(r, "outcome: true"); }
    between_a [6, 7] { let r = rx!([1, 1, 1], 0, regex!(a{1, 2}), a, 1, 2); cov!(r, "outcome: true"); cov!(!r, "outcome: false"); }
    between_b [6, 7] { let r = rx!([1, 3, 1], 0, regex!('a'{0, 2}), a, 0, 2); cov!(r, "outcome: true"); }
    between_c [6, 7] { let r = rx!([2, 1, 1], 1, regex!(.{2, 3}), wild, 2, 3); cov!(r, "outcome: true"); cov!(!r, "outcome: false"); }
    between_d [6, 7] { let r = rx!([1, 1, 4], 0, regex!(^{1, 3}), nws, 1, 3); cov!(r, "outcome: true"); cov!(!r, "outcome: false"); }
    set_a [6, 7] { let r = rx!([1, 1, 1], 0, regex!([h e l o]), helo, 1, 1); cov!(r, "outcome: true"); cov!(!r, "outcome: false"); }
    set_b [6, 7] { let r = rx!([1, 3, 1], 0, regex!(['h' 'e' 'l' 'o']+), helo, 1, MAX); cov!(r, "outcome: true"); cov!(!r, "outcome: false"); }
    set_c [6, 7] { let r = rx!([2, 1, 1], 1, regex!([h e l o]{1, 2}), helo, 1, 2); cov!(r, "outcome: true"); cov!(!r, "outcome: false"); }
    set_d [6, 7] { let r = rx!([1, 1, 4], 0, regex!(['h' 'e' 'l' 'o']?), helo, 0, 1); cov!(r, "outcome: true"); }
    no_set_a [6, 7] { let r = rx!([1, 1, 1], 0, regex!([^ h e l o]), nhelo, 1, 1); cov!(r, "outcome: true"); cov!(!r, "outcome: false"); }
    no_set_b [6, 7] { let r = rx!([1, 3, 1], 0, regex!([^'h' 'e' 'l' 'o']+), nhelo, 1, MAX); cov!(r, "outcome: true"); cov!(!r, "outcome: false"); }
    no_set_c [6, 7] { let r = rx!([2, 1, 1], 1, regex!([^h e l o]{2}), nhelo, 2, 2); cov!(r, "outcome: true"); cov!(!r, "outcome: false"); }
    span_a [6, 7] { let r = rx!([1, 1, 1], 0, regex!([a-z]), az, 1, 1); cov!(r, "outcome: true"); cov!(!r, "outcome: false"); }
    span_b [6, 7] { let r = rx!([1, 3, 1], 0, regex!(['a'-'z']+), az, 1, MAX); cov!(r, "outcome: true"); cov!(!r, "outcome: false"); }
    span_c [6, 7] { let r = rx!([2, 1, 1], 1, regex!([a - z A - Z]{2,}), letters, 2, MAX); cov!(r, "outcome: true"); cov!(!r, "outcome: false"); }
    span_d [6, 7] { let r = rx!([1, 1, 4], 0, regex!(['a'-'z' 'A'-'Z']*), letters, 0, MAX); cov!(r, "outcome: true"); }
    no_span_a [6, 7] { let r = rx!([1, 1, 1], 0, regex!([^a-z]), naz, 1, 1); cov!(r, "outcome: true"); cov!(!r, "outcome: false"); }
    no_span_b [6, 7] { let r = rx!([1, 3, 1], 0, regex!([^'a'-'z']+), naz, 1, MAX); cov!(r, "outcome: true"); cov!(!r, "outcome: false"); }
    no_span_c [6, 7] { let r = rx!([2, 1, 1], 1, regex!([^a - z A - Z]{2}), nletters, 2, 2); cov!(r, "outcome: true"); cov!(!r, "outcome: false"); }
    no_span_d [6, 7] { let r = rx!([1, 1, 4], 0, regex!([^'a'-'z' 'A'-'Z']?), nletters, 0, 1); cov!(r, "outcome: true"); }
    wide_set [6, 7] { let r = rx!([2, 2, 4], 0, regex!([α - ω]+), greek, 1, MAX); cov!(r, "outcome: true"); cov!(!r, "outcome: false"); }
    units_a [6, 7] { let lower = 'a'..='z'; let r = rx!([1, 1, 1], 0, regex!((lower, ' ', 'x')+), no_err, 1, MAX); cov!(r, "outcome: true"); cov!(!r, "outcome: false"); }
    units_b [6, 7] { let lower = 'a'..='z'; let r = rx!([1, 3, 1], 0, regex!((lower, 'A'..='Z')), letters, 1, 1); cov!(r, "outcome: true"); cov!(!r, "outcome: false"); }
    units_c [6, 7] { let r = rx!([2, 1, 1], 1, regex!(('a'){2}), a, 2, 2); cov!(r, "outcome: true"); cov!(!r, "outcome: false"); }
    bytes_a [6, 7] { let r = rb!(regex!(b'a'{2}), |c| c == b'a', 2, 2); cov!(r, "outcome: true"); cov!(!r, "outcome: false"); }
    bytes_b [6, 7] { let r = rb!(regex!([b'a' b'b']+), |c| c == b'a' || c == b'b', 1, MAX); cov!(r, "outcome: true"); cov!(!r, "outcome: false"); }
    bytes_c [6, 7] { let r = rb!(regex!([^b'a'-b'f']{1, 3}), |c| !(b'a'..=b'f').contains(&c), 1, 3); cov!(r, "outcome: true"); cov!(!r, "outcome: false"); }
    bytes_d [6, 7] { let r = rb!(regex!([b'a'-b'z' b'0'-b'9']{1,}), |c: u8| c.is_ascii_lowercase() || c.is_ascii_digit(), 1, MAX); cov!(r, "outcome: true"); cov!(!r, "outcome: false"); }
    classes_a [6, 7] {
        let r = match nd::below(8) {
            0 => class!(neu!(^), nws),
            1 => class!(neu!(.), wild),
            2 => class!(neu!([^'a'-'z']), naz),
            3 => class!(neu!([^a - z]), naz),
            4 => class!(neu!(['a'-'z']), az),
            5 => class!(neu!([a - z]), az),
            6 => class!(neu!([^'a'-'z' 'A'-'Z']), nletters),
            _ => class!(neu!([^a-z A-Z]), nletters),
        };
        cov!(r, "outcome: true");
        cov!(!r, "outcome: false");
    }
    classes_b [6, 7] {
        let r = match nd::below(10) {
            0 => class!(neu!(['a'-'z' 'A'-'Z']), letters),
            1 => class!(neu!([a-z A-Z]), letters),
            2 => class!(neu!([^'h' 'e' 'l' 'o']), nhelo),
            3 => class!(neu!([^ h e l o]), nhelo),
            4 => class!(neu!(['h' 'e' 'l' 'o']), helo),
            5 => class!(neu!([h e l o]), helo),
            6 => class!(neu!(('a'..='z', 'A'..='Z')), letters),
            7 => class!(neu!(a), a),
            8 => class!(neu!('a'), a),
            _ => class!(neu!(), ws),
        };
        cov!(r, "outcome: true");
        cov!(!r, "outcome: false");
    }
    classes_bytes [6, 7] {
        let r = match nd::below(5) {
            0 => bclass!(neu!([b'a'-b'z']), |c: u8| c.is_ascii_lowercase()),
            1 => bclass!(neu!([^b'a'-b'z' b'A'-b'Z']), |c: u8| !c.is_ascii_alphabetic()),
            2 => bclass!(neu!([b'a' b'\xff']), |c: u8| c == b'a' || c == 255),
            3 => bclass!(neu!([^b'a' b'\0']), |c: u8| c != b'a' && c != 0),
            _ => bclass!(neu!(b'a'), |c: u8| c == b'a'),
        };
        cov!(r, "outcome: true");
        cov!(!r, "outcome: false");
    }
    edges [6, 7] {
        // ranges that end at the last character, or span the surrogate gap
        let r = match nd::below(4) {
            0 => class!(neu!(['a'-'\u{10ffff}']), |c| c >= 'a'),
            1 => class!(neu!([^'\0'-'\u{d7ff}']), |c| c > '\u{d7ff}'),
            2 => class!(neu!([α - ω]), greek),
            _ => class!(neu!([^ α - ω]), |c| !greek(c)),
        };
        cov!(r, "outcome: true");
        cov!(!r, "outcome: false");
    }
    string_value [5, 6] { let r = strval(); cov!(r, "outcome: true"); cov!(!r, "outcome: false"); }
    built_value [6, 7] { let r = value(); cov!(r, "outcome: true"); cov!(!r, "outcome: false"); }
}
