//! P18 captured spans
use crate::abs::*;
use crate::nd;
use crate::text::*;
use neure::ctx::*;
use neure::err::Error;
use neure::iter::*;
use neure::span::*;

fn sp() -> Span {
    Span::new(nd::usize(), nd::usize())
}
fn same(a: Option<Span>, b: Option<Span>) -> bool {
    match (a, b) {
        (Some(x), Some(y)) => x.beg == y.beg && x.len == y.len,
        (None, None) => true,
        _ => false,
    }
}
const OPS: usize = 3;
/// adds to a storage of two captures, in the order given by the bits of `plan`
fn vec_hist(plan: usize) -> bool {
    let mut st = VecStorer::new(2);
    chk!(st.len() == 2 && !st.is_empty() && !st.contain(0) && !st.contain(1), "a new storage is empty");
    let all = [sp(), sp(), sp()];
    let mut log = [[None; OPS]; 2];
    let mut n = [0; 2];
    let mut i = 0;
    while i < OPS {
        let id = (plan >> i) & 1;
        st.add_span(id, all[i]);
        log[id][n[id]] = Some(all[i]);
        n[id] += 1;
        i += 1;
    }
    read_vec(&st, &log, &n);
    // an index that was never filled
    let (id, ix) = (nd::usize(), nd::usize());
    let want = if id < 2 && ix < n[id] { log[id][ix] } else { None };
    chk!(same(st.span(id, ix).copied(), want), "reading any index");
    chk!(st.contain(id) == (id < 2 && n[id] > 0), "contain, any index");
    chk!(id < 2 || (st.spans(id).is_none() && st.spans_iter(id).is_none()), "no such capture");
    // clearing one leaves the other
    st.clr_span(plan & 1);
    n[plan & 1] = 0;
    read_vec(&st, &log, &n);
    st.clr_span(7);
    st.reset();
    chk!(!st.contain(0) && !st.contain(1) && st.len() == 2, "reset");
    want.is_some()
}
fn read_vec(st: &VecStorer, log: &[[Option<Span>; OPS]; 2], n: &[usize; 2]) {
    let mut id = 0;
    while id < 2 {
        chk!(st.contain(id) == (n[id] > 0), "contain");
        let sl = st.spans(id);
        chk!(sl.map(|v| v.len()).unwrap_or(0) == n[id], "number of spans");
        let mut it = st.spans_iter(id);
        let mut i = 0;
        while i < OPS + 1 {
            let want = if i < n[id] { log[id][i] } else { None };
            chk!(same(st.span(id, i).copied(), want), "span by index");
            chk!(same(sl.and_then(|v| v.get(i).copied()), want), "span in the list");
            chk!(same(it.as_mut().and_then(|x| x.next()), want), "span by iteration");
            i += 1;
        }
        id += 1;
    }
}
fn arr_hist() -> bool {
    chk!(ArrayStorer::<0, 2>::new().is_empty() && ArrayStorer::<0, 2>::new().len() == 0, "a storage of no captures");
    chk!(VecStorer::new(0).is_empty() && VecStorer::new(0).len() == 0, "a storage of no captures");
    let mut st = ArrayStorer::<2, 3>::new();
    let mut log = [[None; 3]; 2];
    let mut i = 0;
    while i < if cfg!(feature = "thorough") { 3 } else { 2 } {
        let (id, ix, s) = (nd::below(2), nd::below(3), sp());
        st.set_span(id, ix, s);
        log[id][ix] = Some(s);
        i += 1;
    }
    let (id, ix) = (nd::usize(), nd::usize());
    let want = if id < 2 && ix < 3 { log[id][ix] } else { None };
    chk!(same(st.span(id, ix).copied(), want), "reading any index");
    chk!(id < 2 || (!st.contain(id) && st.spans(id).is_none() && st.spans_iter(id).is_none()), "no such capture");
    let k = nd::below(3);
    st.clr_span(k);
    if k < 2 {
        log[k] = [None; 3];
    }
    read_arr(&st, &log);
    st.reset();
    read_arr(&st, &[[None; 3]; 2]);
    want.is_some()
}
fn read_arr(st: &ArrayStorer<2, 3>, log: &[[Option<Span>; 3]; 2]) {
    chk!(st.len() == 2 && !st.is_empty(), "capacity");
    let mut id = 0;
    while id < 2 {
        let l = &log[id];
        chk!(st.contain(id) == (l[0].is_some() || l[1].is_some() || l[2].is_some()), "contain");
        let s = st.spans(id);
        chk!(s.is_some() && s.unwrap().len() == 3, "slots of a capture");
        let mut it = st.spans_iter(id).unwrap();
        let mut i = 0;
        while i < 3 {
            chk!(same(st.span(id, i).copied(), l[i]), "span by index");
            chk!(same(s.unwrap()[i], l[i]), "span in its slot");
            if l[i].is_some() {
                chk!(same(it.next(), l[i]), "span by iteration");
            }
            i += 1;
        }
        chk!(it.next().is_none(), "nothing after the last span");
        id += 1;
    }
}
fn arr_with() -> bool {
    let o = || if nd::bool() { Some(sp()) } else { None };
    let log = [[o(), o(), o()], [o(), o(), o()]];
    let st = ArrayStorer::new_with(log);
    read_arr(&st, &log);
    read_arr(&st.clone(), &log);
    st.contain(0)
}
/// a storage made from spans, and emptied; a default one
fn vec_given() -> bool {
    let (a, b, c) = (sp(), sp(), sp());
    let log = [[Some(a), None, None], [Some(b), Some(c), None]];
    let st = VecStorer::new_with(vec![vec![a], vec![b, c]]);
    chk!(st.len() == 2 && !st.is_empty(), "number of captures given");
    read_vec(&st, &log, &[1, 2]);
    let cp = st.clone();
    let mut st = st.with_capacity(3);
    chk!(st.len() == 3 && !st.contain(0) && !st.contain(1) && !st.contain(2), "emptied, with another number of captures");
    st.add_span(2, a);
    chk!(same(st.span(2, 0).copied(), Some(a)) && !st.contain(0), "usable after emptying");
    read_vec(&cp, &log, &[1, 2]);
    read_arr(&ArrayStorer::<2, 3>::default(), &[[None; 3]; 2]);
    let v = VecStorer::default();
    chk!(v.is_empty() && v.len() == 0 && !v.contain(0) && v.span(0, 0).is_none(), "a default storage has no captures");
    a.len == 0
}
/// begin and length of a part of `whole`
fn loc(whole: &[u8], part: &[u8]) -> (usize, usize) {
    (part.as_ptr() as usize - whole.as_ptr() as usize, part.len())
}
fn fits(s: Span, n: usize) -> bool {
    s.beg <= n && s.len <= n - s.beg
}
const K: usize = 4;
/// slicing bytes by any span
fn slice_bytes(how: usize) -> bool {
    let t = Bytes::<K>::any();
    let s = sp();
    let b = t.get();
    let (v, rv);
    let c = BytesCtx::new(b).with_offset(nd::usize());
    let pc = PolicyCtx::new(c, neure::regex::empty());
    let (base, r) = match how {
        4 => (b, c.get_by_span(&s)),
        5 => (b, pc.get_by_span(&s)),
        0 => (b, <[u8]>::get_by_span(b, &s)),
        1 => (b, <&[u8]>::get_by_span(&b, &s)),
        2 => {
            v = t.buf.to_vec();
            (&v[..], <Vec<u8>>::get_by_span(&v, &s))
        }
        _ => {
            v = t.buf.to_vec();
            rv = &v;
            (&v[..], <&Vec<u8>>::get_by_span(&rv, &s))
        }
    };
    chk!(r.is_some() == fits(s, base.len()), "a slice exactly when the span fits");
    if let Some(r) = r {
        chk!(r.len() == s.len, "length of the slice");
        let mut i = 0;
        while i < K {
            chk!(i >= s.len || r[i] == base[s.beg + i], "bytes of the slice");
            i += 1;
        }
    }
    r.is_some()
}
/// slicing text by any span: also nothing when it would cut a character
fn slice_text(how: usize, w: [usize; 2]) -> bool {
    let t = Lay::<2>::of(w);
    let s = sp();
    let b = t.get();
    let c = CharsCtx::new(b).with_offset(nd::usize());
    let r = match how {
        0 => str::get_by_span(b, &s),
        1 => <&str>::get_by_span(&b, &s),
        _ => c.get_by_span(&s),
    };
    let edge = |p: usize| p == 0 || p == w[0] || p == w[0] + w[1];
    let want = fits(s, w[0] + w[1]) && edge(s.beg) && edge(s.beg + s.len);
    chk!(r.is_some() == want, "a slice exactly when the span fits and cuts no character");
    if let Some(r) = r {
        chk!(loc(b.as_bytes(), r.as_bytes()).1 == s.len, "length of the slice");
        chk!(s.len == 0 || r.as_bytes()[0] == b.as_bytes()[s.beg], "start of the slice");
        chk!(s.len == 0 || r.as_bytes()[s.len - 1] == b.as_bytes()[s.beg + s.len - 1], "end of the slice");
    }
    want
}
/// the slices of a capture, in order, with their number
fn vec_slices(n: usize) -> bool {
    let buf = nd::bytes::<K>();
    let b: &[u8] = &buf;
    let l = [sp(), sp()];
    let mut st = VecStorer::new(1);
    let mut i = 0;
    while i < n {
        nd::assume(fits(l[i], K));
        st.add_span(0, l[i]);
        i += 1;
    }
    let it = st.slice_iter(b, 0);
    chk!(it.is_some() == (n > 0), "slices exactly when the capture has spans");
    let mut i = 0;
    if let Some(mut it) = it {
        while i <= n {
            chk!(it.size_hint() == (n - i, Some(n - i)) && it.len() == n - i, "length hint");
            let cp = it.clone().next();
            let x = it.next();
            chk!(x.is_some() == (i < n), "one slice per span");
            chk!(cp.map(|y| loc(b, y)) == x.map(|y| loc(b, y)), "a copy of the iteration goes on elsewhere");
            if let Some(x) = x {
                chk!(loc(b, x) == (l[i].beg, l[i].len), "slice of the span");
                chk!(st.slice(b, 0, i).map(|y| loc(b, y)) == Some((l[i].beg, l[i].len)), "slice by index");
            }
            i += 1;
        }
        chk!(it.next().is_none() && it.len() == 0, "exhausted");
    }
    chk!(st.slice(b, 0, nd::below(3) + n).is_none() && st.slice(b, 1, 0).is_none() && st.slice_iter(b, 1).is_none(), "no slice for an index never filled");
    l[0].len == 0
}
fn arr_slices() -> bool {
    let buf = nd::bytes::<K>();
    let b: &[u8] = &buf;
    let o = || {
        if nd::bool() {
            let s = sp();
            nd::assume(fits(s, K));
            Some(s)
        } else {
            None
        }
    };
    let l = [o(), o()];
    let st = ArrayStorer::<1, 2>::new_with([l]);
    let mut it = st.slice_iter(b, 0).unwrap();
    let n = l[0].is_some() as usize + l[1].is_some() as usize;
    let mut seen = 0;
    let mut i = 0;
    while i < 2 {
        chk!(it.size_hint() == (n - seen, Some(n - seen)) && it.len() == n - seen, "length hint");
        chk!(st.slice(b, 0, i).map(|y| loc(b, y)) == l[i].map(|s| (s.beg, s.len)), "slice by index");
        if let Some(s) = l[i] {
            chk!(it.next().map(|y| loc(b, y)) == Some((s.beg, s.len)), "slice of the span");
            seen += 1;
        }
        i += 1;
    }
    chk!(it.next().is_none() && it.len() == 0, "exhausted");
    chk!(st.slice(b, 0, 2).is_none() && st.slice(b, 1, 0).is_none() && st.slice_iter(b, 1).is_none(), "no slice for an index never filled");
    n == 2
}
/// capturing stores the span matched, and nothing on failure
fn cap(arr: bool) -> bool {
    let w = W::plain();
    let a = Tab::any();
    let mut c = M::new(&w);
    let o = a.orc(1, w.base);
    let want = a.rec(w.s).map(|e| Span::new(w.base + w.s, e - w.s));
    let (r, got, other) = if arr {
        let mut st = ArrayStorer::<2, 2>::new();
        let ix = nd::below(2);
        let r = st.try_cap(1, ix, &mut c, &o);
        chk!(st.span(1, 1 - ix).is_none(), "another slot was filled");
        (r, st.span(1, ix).copied(), st.contain(0))
    } else {
        let mut st = VecStorer::new(2);
        let r = st.try_cap(1, &mut c, &o);
        chk!(st.span(1, 1).is_none(), "captured more than once");
        (r, st.span(1, 0).copied(), st.contain(0))
    };
    chk!(same(r.ok(), want), "the result of capturing is the match");
    chk!(same(got, want), "the stored span is the match");
    chk!(!other, "stored under another capture");
    chk!(c.offset() == w.base + want.map(|s| w.s + s.len).unwrap_or(w.s), "position after capturing");
    want.is_some()
}
/// a capture taken twice, in order
fn cap_twice() -> bool {
    let w = W::plain();
    let (a, d) = (Tab::any(), Tab::any());
    let mut c = M::new(&w);
    let mut st = VecStorer::new(1);
    let r = st.try_cap(0, &mut c, &a.orc(1, w.base));
    let q = st.try_cap(0, &mut c, &d.orc(2, w.base));
    let mut i = 0;
    let mut p = w.s;
    if let Some(e) = a.rec(p) {
        chk!(same(st.span(0, i).copied(), Some(Span::new(w.base + p, e - p))) && r.is_ok(), "first capture");
        p = e;
        i += 1;
    }
    if let Some(e) = d.rec(p) {
        chk!(same(st.span(0, i).copied(), Some(Span::new(w.base + p, e - p))) && q.is_ok(), "second capture");
        i += 1;
    }
    chk!(st.span(0, i).is_none(), "nothing more was captured");
    i == 2
}
/// joining covers both spans and nothing beyond
fn join() -> bool {
    let (a, b) = (sp(), sp());
    nd::assume(a.beg <= b.beg && a.beg.checked_add(a.len).is_some() && b.beg.checked_add(b.len).is_some());
    let mut j = a;
    j.add_assign(b);
    let x = nd::usize();
    let end = if a.beg + a.len > b.beg + b.len { a.beg + a.len } else { b.beg + b.len };
    chk!(j.beg == a.beg && j.beg + j.len == end, "joining covers both spans");
    let inside = |s: Span| s.beg <= x && x < s.beg + s.len;
    chk!(!(inside(a) || inside(b)) || inside(j), "a position of either span is in the joined one");
    chk!(j.beg() == j.beg && j.len() == j.len && j.is_empty() == (j.len == 0), "accessors of a span");
    b.beg + b.len < a.beg + a.len
}
/// the input a span denotes
fn span_orig() -> bool {
    let t = Bytes::<K>::any();
    let s = sp();
    let c = BytesCtx::new(t.get());
    let r: Result<&[u8], Error> = s.orig(&c);
    chk!(r.is_ok() == fits(s, t.n), "the text of a span exactly when it fits");
    if let Ok(x) = r {
        chk!(loc(t.get(), x) == (s.beg, s.len), "the text of the span");
    }
    fits(s, t.n)
}
fn span_iter_list(n: usize) -> bool {
    let l = [sp(), sp(), sp()];
    let mut it = SpanIterator::new(&l[..n]);
    let mut cp = it.clone();
    let mut i = 0;
    while i < 4 {
        let want = if i < n { Some(l[i]) } else { None };
        chk!(same(it.next(), want), "iteration in order");
        i += 1;
    }
    chk!(same(cp.next(), if n > 0 { Some(l[0]) } else { None }), "a copy starts where it was taken");
    l[0].len == 0
}
fn opt_iter_list() -> bool {
    let o = || if nd::bool() { Some(sp()) } else { None };
    let l = [o(), o(), o(), o()];
    let mut it = OptionSpanIterator::new(&l);
    let mut i = 0;
    while i < 4 {
        if l[i].is_some() {
            chk!(same(it.next(), l[i]), "iteration in order");
        }
        i += 1;
    }
    chk!(it.next().is_none(), "exhausted");
    l[1].is_none() && l[2].is_some()
}
const MANY: usize = 6;
/// many spans
fn long_vec() -> bool {
    // growing the storage itself this far is out of reach
    let l: [Span; MANY] = core::array::from_fn(|_| sp());
    let st = VecStorer::new_with(vec![vec![], vec![], vec![l[0], l[1], l[2], l[3], l[4], l[5]]]);
    chk!(st.spans(2).map(|v| v.len()) == Some(MANY), "number of spans (many spans)");
    let mut it = st.spans_iter(2).unwrap();
    let mut i = 0;
    while i < MANY {
        chk!(same(st.span(2, i).copied(), Some(l[i])), "reading an index (many spans)");
        chk!(same(it.next(), Some(l[i])), "span by iteration (many spans)");
        i += 1;
    }
    chk!(it.next().is_none() && st.span(2, MANY).is_none(), "nothing after the last span (many spans)");
    chk!(!st.contain(1) && st.contain(2), "contain (many spans)");
    l[5].beg > 1
}
fn long_arr() -> bool {
    let mut st = ArrayStorer::<5, MANY>::new();
    let l: [Option<Span>; MANY] = core::array::from_fn(|_| if nd::bool() { Some(sp()) } else { None });
    let mut i = 0;
    while i < MANY {
        if let Some(s) = l[i] {
            st.set_span(3, i, s);
        }
        i += 1;
    }
    let mut it = st.spans_iter(3).unwrap();
    let mut some = false;
    let mut i = 0;
    while i < MANY {
        chk!(same(st.span(3, i).copied(), l[i]) && st.span(2, i).is_none(), "reading an index (many spans)");
        if l[i].is_some() {
            some = true;
            chk!(same(it.next(), l[i]), "span by iteration (many spans)");
        }
        i += 1;
    }
    chk!(it.next().is_none(), "nothing after the last span (many spans)");
    chk!(st.contain(3) == some && !st.contain(4), "contain (many captures)");
    st.reset();
    chk!(!st.contain(3), "reset (many captures)");
    some
}
hs! {
    long_vec_6 [9, 9] long_vec();
    long_arr_6 [9, 9] long_arr();
    vec_plan0 [5, 5] vec_hist(0);
    vec_plan1 [5, 5] vec_hist(1);
    vec_plan2 [5, 5] vec_hist(2);
    vec_plan5 [5, 5] vec_hist(5);
    vec_plan6 [5, 5] vec_hist(6);
    array_history [5, 5] arr_hist();
    array_given [5, 5] arr_with();
    bytes_slice [6, 6] slice_bytes(0);
    bytes_ref_slice [6, 6] slice_bytes(1);
    vec_slice [6, 6] slice_bytes(2);
    vec_ref_slice [6, 6] slice_bytes(3);
    text_11 [4, 4] slice_text(0, [1, 1]);
    text_21 [4, 4] slice_text(0, [2, 1]);
    text_34 [4, 4] slice_text(0, [3, 4]);
    text_ref_12 [4, 4] slice_text(1, [1, 2]);
    text_ref_31 [4, 4] slice_text(1, [3, 1]);
    vec_slices_0 [5, 5] vec_slices(0);
    vec_slices_1 [5, 5] vec_slices(1);
    vec_slices_2 [5, 5] vec_slices(2);
    array_slices [5, 5] arr_slices();
    capture_vec [8, 8] cap(false);
    capture_array [8, 8] cap(true);
    capture_twice [8, 8] cap_twice();
    joining [2, 2] join();
    text_of_span [6, 6] span_orig();
    iter_0 [6, 6] span_iter_list(0);
    iter_3 [6, 6] span_iter_list(3);
    iter_opt [6, 6] opt_iter_list();
    ctx_slice [6, 6] slice_bytes(4);
    policy_slice [6, 6] slice_bytes(5);
    ctx_text_21 [4, 4] slice_text(2, [2, 1]);
    vec_given_spans [5, 5] vec_given();
}
