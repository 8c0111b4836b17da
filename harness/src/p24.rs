//! P24 the input cursor
use crate::long::{L as LL, LT, text_to};
use crate::nd;
use crate::text::*;
use neure::ctx::*;
use neure::err::Error;
use neure::iter::BytesIndices;
use neure::regex::Regex;
use neure::span::Span;

#[cfg(not(feature = "thorough"))]
const KB: usize = 4;
#[cfg(feature = "thorough")]
const KB: usize = 7;

/// every cursor position there can be, near ones and far ones
fn anywhere(n: usize) -> usize {
    if nd::bool() { nd::below(n + 3) } else { nd::usize() }
}
/// `got` is exactly the bytes `[at, at + len)` of the input
fn is_sub(got: &[u8], all: &[u8], at: usize, len: usize) {
    chk!(got.len() == len, "a slice of the input has the wrong length");
    let mut i = 0;
    while i < len {
        chk!(got[i] == all[at + i], "a slice of the input has the wrong content");
        i += 1;
    }
}
/// reading ahead: the iterator yields exactly the items from `off` on
fn ahead<S: Src>(src: &S, off: usize, it: Result<impl Iterator<Item = (usize, S::Item)>, Error>) -> bool {
    match (src.at(off), it) {
        (Some(mut i), Ok(mut it)) => {
            while i < src.n() {
                let x = it.next();
                chk!(x.is_some(), "reading ahead ends too early");
                let x = x.unwrap();
                chk!(x.0 == src.pos(i) - off, "an item read ahead has the wrong position");
                chk!(x.1 == src.item(i), "the wrong item is read ahead");
                i += 1;
            }
            chk!(it.next().is_none(), "reading ahead goes on beyond the input");
            chk!(it.next().is_none(), "reading ahead starts again");
            true
        }
        (None, Err(e)) => {
            chk!(e == Error::OutOfBound, "reading outside the input is another error");
            false
        }
        (Some(_), Err(_)) => {
            chk!(false, "reading inside the input fails");
            false
        }
        (None, Ok(_)) => {
            chk!(false, "reading outside the input, or inside a character, succeeds");
            true
        }
    }
}
type BP<'a> = PolicyCtx<BytesCtx<'a>, Nop>;
/// a policy to tell policies apart
#[derive(Clone, Copy)]
struct Nop(u8);
impl<C> Regex<C> for Nop {
    fn try_parse(&self, _: &mut C) -> Result<Span, Error> {
        Ok(Span::new(self.0 as usize, 0))
    }
}
macro_rules! bytes_read {
    ($mk:expr) => {{
        let src = Bytes::<KB>::any();
        let mut c = $mk(src.get());
        let (off, at) = (anywhere(KB), anywhere(KB));
        Context::set_offset(&mut c, off);
        chk!(Context::offset(&c) == off, "setting the position does something else");
        chk!(Context::len(&c) == src.n() && Context::is_empty(&c) == (src.n() == 0), "the input has another length");
        let r = if nd::bool() { ahead(&src, off, c.peek()) } else { ahead(&src, at, c.peek_at(at)) };
        chk!(Context::offset(&c) == off, "reading ahead moves the position");
        r
    }};
}
/// the same through a position guard
fn guard_reads() -> bool {
    let src = Bytes::<KB>::any();
    let mut c = BytesCtx::new(src.get());
    let (off, at) = (anywhere(KB), anywhere(KB));
    Context::set_offset(&mut c, off);
    let g = CtxGuard::new(&mut c);
    chk!(g.len() == src.n() && g.is_empty() == (src.n() == 0), "the input has another length through a guard");
    let r = if nd::bool() { ahead(&src, off, g.peek()) } else { ahead(&src, at, g.peek_at(at)) };
    drop(g);
    chk!(Context::offset(&c) == off, "reading ahead moves the position");
    r
}
macro_rules! bytes_slice {
    ($mk:expr) => {{
        let src = Bytes::<KB>::any();
        let mut c = $mk(src.get());
        let (off, at, len) = (anywhere(KB), anywhere(KB), anywhere(KB));
        Context::set_offset(&mut c, off);
        let which = nd::below(3);
        let (r, from, n) = match which {
            0 => (c.orig(), off, src.n().wrapping_sub(off)),
            1 => (c.orig_at(at), at, src.n().wrapping_sub(at)),
            _ => (c.orig_sub(at, len), at, len),
        };
        let fits = from <= src.n() && n <= src.n() - from;
        match r {
            Ok(s) => {
                chk!(fits, "a slice outside the input is returned");
                is_sub(s, src.get(), from, n);
            }
            Err(e) => chk!(!fits && e == Error::OutOfBound, "a slice of the input is refused"),
        }
        chk!(Context::offset(&c) == off, "slicing moves the position");
        fits
    }};
}
macro_rules! bytes_clone {
    ($mk:expr, $inner:expr) => {{
        let src = Bytes::<KB>::any();
        let mut c = $mk(src.get());
        let (off, at) = (anywhere(KB), anywhere(KB));
        Context::set_offset(&mut c, off);
        let r = c.clone_at(at);
        match &r {
            Ok(d) => {
                chk!(at <= src.n(), "a copy outside the input is made");
                chk!(Context::offset(d) == 0, "a copy does not start at its beginning");
                chk!(Context::len(d) == src.n() - at, "a copy covers another length");
                is_sub(d.orig().unwrap(), src.get(), at, src.n() - at);
                is_sub($inner(d).dat(), src.get(), at, src.n() - at);
            }
            Err(e) => chk!(at > src.n() && *e == Error::OutOfBound, "a copy inside the input is refused"),
        }
        chk!(Context::offset(&c) == off, "copying moves the position");
        r.is_ok()
    }};
}
fn plain(b: &[u8]) -> BytesCtx<'_> {
    BytesCtx::new(b)
}
fn policy(b: &[u8]) -> BP<'_> {
    BytesCtx::new(b).skip_before(Nop(3))
}
/// set / advance / move back, in any sequence
fn moves<'a, C: Context<'a>>(mut c: C) -> bool {
    let mut m = Context::offset(&c);
    let mut i = 0;
    while i < 4 {
        let v = nd::usize();
        match nd::below(3) {
            0 => {
                Context::set_offset(&mut c, v);
                m = v;
            }
            1 => {
                nd::assume(v <= usize::MAX - m);
                Context::inc(&mut c, v);
                m += v;
            }
            _ => {
                nd::assume(v <= m);
                Context::dec(&mut c, v);
                m -= v;
            }
        }
        chk!(Context::offset(&c) == m, "moving the cursor does something else");
        i += 1;
    }
    m > 9
}
/// making and re-using a context
fn make() -> bool {
    let (a, b) = (Bytes::<KB>::any(), Bytes::<KB>::any());
    let off = anywhere(KB);
    let c = BytesCtx::new(a.get());
    chk!(c.offset() == 0, "a new context does not start at position zero");
    is_sub(c.dat(), a.get(), 0, a.n());
    let mut c = c.with_offset(off);
    chk!(c.offset() == off, "with_offset sets another position");
    is_sub(c.dat(), a.get(), 0, a.n());
    match nd::below(5) {
        0 => {
            let d = c.with_dat(b.get());
            chk!(d.offset() == off, "with_dat moves the position");
            is_sub(d.dat(), b.get(), 0, b.n());
        }
        1 => {
            c.reset_with(b.get());
            chk!(c.offset() == 0, "reset_with does not start over");
            is_sub(c.dat(), b.get(), 0, b.n());
        }
        2 => {
            c.reset();
            chk!(c.offset() == 0, "reset does not start over");
            is_sub(c.dat(), a.get(), 0, a.n());
        }
        3 => {
            let (o, n) = BytesCtx::with(a.get(), |x: BytesCtx| (x.offset(), Context::len(&x)));
            chk!(o == 0 && n == a.n(), "with hands over another context");
        }
        _ => {
            let (d, e) = (c, c.clone());
            Context::inc(&mut c, 0);
            chk!(d.offset() == off && e.offset() == off, "a copy is at another position");
            is_sub(e.dat(), a.get(), 0, a.n());
        }
    }
    off > a.n()
}
/// a policy context's own parts
fn policy_parts() -> bool {
    let (a, b) = (Bytes::<KB>::any(), Bytes::<KB>::any());
    let off = anywhere(KB);
    let k = nd::u8();
    let mut c = PolicyCtx::new(BytesCtx::new(a.get()).with_offset(off), Nop(k));
    chk!(Context::offset(&c) == off && c.inner().offset() == off, "the position is not the inner one");
    chk!(Context::len(&c) == a.n(), "the length is not the inner one");
    match nd::below(5) {
        0 => {
            c.set_inner(BytesCtx::new(b.get()).with_offset(1));
            chk!(Context::offset(&c) == 1, "set_inner keeps the old position");
            is_sub(c.inner().dat(), b.get(), 0, b.n());
        }
        1 => {
            let d = c.with_inner(BytesCtx::new(b.get()).with_offset(1));
            chk!(Context::offset(&d) == 1, "with_inner keeps the old position");
            is_sub(d.inner().dat(), b.get(), 0, b.n());
        }
        2 => {
            c.reset_with(BytesCtx::new(b.get()));
            chk!(Context::offset(&c) == 0, "reset_with keeps the old position");
            is_sub(c.inner().dat(), b.get(), 0, b.n());
        }
        3 => {
            c.inner_mut().reset();
            chk!(Context::offset(&c) == 0, "inner_mut is another context");
        }
        _ => {
            // the new policy is the one used
            let u = nd::u8();
            let hits = core::cell::Cell::new(0u8);
            let mut d = c.with_regex(|_: &mut BytesCtx| {
                hits.set(hits.get() + 1);
                Ok::<Span, Error>(Span::new(u as usize, 0))
            });
            chk!(Context::offset(&d) == off, "with_regex moves the position");
            // skipping nothing, the match is where the context was
            let r = Regex::try_parse(&|x: &mut PolicyCtx<BytesCtx, _>| Ok(Span::new(Context::offset(x), 0)), &mut d);
            chk!(r == Ok(Span::new(off, 0)), "with_regex moves the position");
        }
    }
    off > a.n()
}
/// a copy of a policy context skips like the original
fn policy_clone_skips() -> bool {
    let src = Bytes::<3>::any();
    let at = nd::below(5);
    // skips one byte, if there is one
    let c = BytesCtx::new(src.get()).skip_before(|x: &mut BytesCtx| {
        let n = (Context::len(x) > x.offset()) as usize;
        let s = Span::new(x.offset(), n);
        Context::inc(x, n);
        Ok(s)
    });
    match c.clone_at(at) {
        Ok(mut d) => {
            chk!(at <= src.n(), "a copy outside the input is made");
            let r = d.try_mat(&|x: &mut PolicyCtx<BytesCtx, _>| Ok(Span::new(Context::offset(x), 0)));
            let skipped = (src.n() > at) as usize;
            chk!(r == Ok(Span::new(skipped, 0)), "a copy of a skipping context does not skip");
            skipped == 1
        }
        Err(_) => {
            chk!(at > src.n(), "a copy inside the input is refused");
            false
        }
    }
}
/// the item iterator by itself
fn indices() -> bool {
    let src = Bytes::<KB>::any();
    let mut it = BytesIndices::new(src.get());
    let mut i = 0;
    while i < KB + 1 {
        let left = src.n().saturating_sub(i);
        chk!(it.size_hint() == (left, Some(left)), "the number of items left is wrong");
        chk!(it.len() == left, "the number of items left is wrong");
        let copy = it.clone().next();
        let x = it.next();
        chk!(copy == x, "a copy of the iterator is elsewhere");
        match x {
            Some((p, b)) => chk!(i < src.n() && p == i && b == src.item(i), "the wrong item is yielded"),
            None => chk!(i >= src.n(), "the iterator ends too early"),
        }
        i += 1;
    }
    src.n() == KB
}
fn storer_n(n: usize, p: bool) {
    let c = BytesCtx::new(b"ab");
    let s = if p { c.span_storer(n) } else { c.skip_before(Nop(0)).span_storer(n) };
    chk!(s.len() == n, "the span storage has another number of captures");
    chk!(!s.contain(0), "a new span storage is not empty");
}
fn storer() -> bool {
    let p = nd::bool();
    let n = nd::bool();
    if n { storer_n(1, p) } else { storer_n(3, p) }
    n
}

macro_rules! chars_read {
    ($w:expr, $mk:expr, $here:expr) => {{
        let src = Lay::of($w);
        let mut c = $mk(src.get());
        let (off, at) = (anywhere(src.len()), anywhere(src.len()));
        Context::set_offset(&mut c, off);
        chk!(Context::offset(&c) == off, "setting the position does something else");
        chk!(Context::len(&c) == src.len() && Context::is_empty(&c) == (src.len() == 0), "the input has another length");
        let r = if $here { ahead(&src, off, c.peek()) } else { ahead(&src, at, c.peek_at(at)) };
        chk!(Context::offset(&c) == off, "reading ahead moves the position");
        r
    }};
}
macro_rules! chars_slice {
    ($w:expr, $mk:expr) => {{
        let src = Lay::of($w);
        let mut c = $mk(src.get());
        let (off, at, len) = (anywhere(src.len()), anywhere(src.len()), anywhere(src.len()));
        Context::set_offset(&mut c, off);
        let which = nd::below(3);
        let (r, from, n) = match which {
            0 => (c.orig(), off, src.len().wrapping_sub(off)),
            1 => (c.orig_at(at), at, src.len().wrapping_sub(at)),
            _ => (c.orig_sub(at, len), at, len),
        };
        let fits = src.at(from).is_some() && n <= src.len() - from && src.at(from + n).is_some();
        match r {
            Ok(s) => {
                chk!(fits, "a slice outside the input, or through a character, is returned");
                is_sub(s.as_bytes(), src.get().as_bytes(), from, n);
            }
            Err(e) => chk!(!fits && e == Error::OutOfBound, "a slice of the input is refused"),
        }
        chk!(Context::offset(&c) == off, "slicing moves the position");
        fits
    }};
}
macro_rules! chars_clone {
    ($w:expr, $mk:expr, $inner:expr) => {{
        let src = Lay::of($w);
        let mut c = $mk(src.get());
        let (off, at) = (anywhere(src.len()), anywhere(src.len()));
        Context::set_offset(&mut c, off);
        let r = c.clone_at(at);
        match &r {
            Ok(d) => {
                chk!(src.at(at).is_some(), "a copy outside the input, or inside a character, is made");
                chk!(Context::offset(d) == 0, "a copy does not start at its beginning");
                chk!(Context::len(d) == src.len() - at, "a copy covers another length");
                is_sub($inner(d).dat().as_bytes(), src.get().as_bytes(), at, src.len() - at);
            }
            Err(e) => chk!(src.at(at).is_none() && *e == Error::OutOfBound, "a copy inside the input is refused"),
        }
        chk!(Context::offset(&c) == off, "copying moves the position");
        r.is_ok()
    }};
}
fn bi<'a>(d: &BytesCtx<'a>) -> BytesCtx<'a> {
    *d
}
fn bpi<'a>(d: &BP<'a>) -> BytesCtx<'a> {
    *d.inner()
}
fn ci<'a>(d: &CharsCtx<'a>) -> CharsCtx<'a> {
    *d
}
fn cpi<'a>(d: &PolicyCtx<CharsCtx<'a>, Nop>) -> CharsCtx<'a> {
    *d.inner()
}
fn cplain(s: &str) -> CharsCtx<'_> {
    CharsCtx::new(s)
}
fn cpolicy(s: &str) -> PolicyCtx<CharsCtx<'_>, Nop> {
    CharsCtx::new(s).skip_before(Nop(3))
}
/// a long input
fn long_bytes(policy_: bool) -> bool {
    let buf: [u8; LL] = nd::bytes();
    let mut c = plain(&buf);
    let (from, at) = (3, nd::below(LL + 2));
    Context::set_offset(&mut c, from);
    fn all<'a>(buf: &[u8; LL], from: usize, mut it: impl Iterator<Item = (usize, u8)>) {
        let mut i = from;
        while i < LL {
            chk!(it.next() == Some((i - from, buf[i])), "an item read ahead is wrong (long input)");
            i += 1;
        }
        chk!(it.next().is_none(), "reading ahead goes on beyond the input (long input)");
    }
    if policy_ {
        let c = PolicyCtx::new(c, Nop(0));
        all(&buf, from, c.peek().unwrap());
    } else {
        all(&buf, from, c.peek().unwrap());
    }
    let r = c.orig_at(at);
    chk!(r.is_ok() == (at <= LL), "slicing a long input");
    if let Ok(r) = r {
        chk!(r.len() == LL - at && (at == LL || r[0] == buf[at] && r[LL - at - 1] == buf[LL - 1]), "a slice of a long input has the wrong content");
    }
    at < LL
}
fn long_chars() -> bool {
    let f = nd::below(LT + 1);
    let buf = text_to(f);
    let mut c = CharsCtx::new(unsafe { core::str::from_utf8_unchecked(&buf) });
    Context::set_offset(&mut c, 4);
    {
        let mut it = c.peek().unwrap();
        let mut i = 2;
        while i < LT {
            chk!(it.next() == Some((2 * i - 4, if i < f { 'é' } else { 'è' })), "an item read ahead is wrong (long input)");
            i += 1;
        }
        chk!(it.next().is_none(), "reading ahead goes on beyond the input (long input)");
    }
    f > 9
}
hs! {
    long_bytes_plain [23, 43] long_bytes(false);
    long_bytes_policy [23, 43] long_bytes(true);
    long_chars_plain [23, 43] long_chars();
    bytes_peek [8, 11] bytes_read!(plain);
    bytes_peek_policy [8, 11] bytes_read!(policy);
    guard_peek [8, 11] guard_reads();
    bytes_slices [8, 11] bytes_slice!(plain);
    bytes_slices_policy [8, 11] bytes_slice!(policy);
    bytes_copy [8, 11] bytes_clone!(plain, bi);
    bytes_copy_policy [8, 11] bytes_clone!(policy, bpi);
    bytes_moves [8, 11] moves(plain(b"abc"));
    bytes_moves_policy [8, 11] moves(policy(b"abc"));
    bytes_make [8, 11] make();
    policy_make [8, 11] policy_parts();
    policy_copy_skips [8, 11] policy_clone_skips();
    byte_indices [8, 11] indices();
    span_storer [8, 11] storer();
    chars_moves [8, 11] moves(cplain("aé"));
    chars_peek_a [8, 10] chars_read!([1, 2], cplain, true);
    chars_peek_b [8, 10] chars_read!([3, 1], cplain, false);
    chars_peek_c [9, 10] chars_read!([4, 2], cplain, true);
    chars_peek_d [8, 10] chars_read!([2, 3], cpolicy, false);
    chars_peek_e [8, 10] chars_read!([1, 3], cpolicy, true);
    chars_peek_f [8, 10] chars_read!([1, 4], cplain, false);
    chars_slices_a [12, 12] chars_slice!([1, 2], cplain);
    chars_slices_b [12, 12] chars_slice!([3, 1], cplain);
    chars_slices_c [12, 12] chars_slice!([4, 2], cpolicy);
    chars_copy_a [12, 12] chars_clone!([2, 1], cplain, ci);
    chars_copy_b [12, 12] chars_clone!([1, 4], cplain, ci);
    chars_copy_c [12, 12] chars_clone!([3, 2], cpolicy, cpi);
}
