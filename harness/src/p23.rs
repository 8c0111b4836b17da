//! P23 no input makes a pattern panic or loop forever
#![allow(unused_imports)]
use crate::abs::{Asp::*, N, W};
use crate::comb::{Kind::*, Mode::*, *};
use crate::leaf::*;
use crate::nd;
use crate::text::*;
use neure::ctx::*;
use neure::err::Error;
use neure::neu::NeuIntoRegexOps;
use neure::regex::{Regex, consume, consume_all, empty, end, fail, literal, not, peek, start};
use neure::span::Span;

/// the start, or any position beyond the end
fn from(far: bool, n: usize) -> usize {
    if far {
        let o = nd::usize();
        nd::assume(o > n);
        o
    } else {
        0
    }
}
/// a search from any 64-bit position: it stops, and does not go on afterwards
macro_rules! search_b {
    ($which:expr, $far:expr, $p:expr) => {{
        let mut s = Bytes::<2>::any();
        s.n = 2;
        let mut c = BytesCtx::new(s.get());
        c.set_offset(from($far, s.n()));
        search($which, &mut c, $p, s.n())
    }};
}
macro_rules! search_t {
    ($which:expr, $far:expr, $w:expr, $p:expr) => {{
        let s = Lay::of($w);
        let mut c = CharsCtx::new(s.get());
        c.set_offset(from($far, s.len()));
        search($which, &mut c, $p, s.n())
    }};
}
#[inline(always)]
fn search<'a, C: MatchMulti<'a>, P: Regex<C>>(which: u8, c: &mut C, p: P, n: usize) -> bool {
    let mut k = 0;
    match which {
        0 => {
            let r: Option<Span> = c.find(p);
            k += r.is_some() as usize;
        }
        1 => {
            let mut it = c.find_all::<Span>(p);
            let mut i = 0;
            while i < n + 1 {
                k += it.next().is_some() as usize;
                i += 1;
            }
        }
        _ => {
            let mut it = c.match_seq::<Span>(p);
            let mut i = 0;
            while i < n + 1 {
                k += it.next().is_some() as usize;
                i += 1;
            }
        }
    }
    chk!(k <= n, "a search found more matches than there are items");
    k > 0
}
/// searching by an abstract pattern: stops within the calls it is allowed
#[inline(always)]
fn search_a(which: u8) -> bool {
    let w = W::skipping();
    let t = crate::abs::Tab::any();
    let mut c = crate::abs::M::new(&w);
    search(which, &mut c, t.orc(1, w.base), N)
}
/// reading at any position
#[inline(always)]
fn read_b(which: u8) -> bool {
    let s = Bytes::<3>::any();
    let mut c = BytesCtx::new(s.get());
    c.set_offset(anywhere(s.n()));
    let (o, l) = (nd::usize(), nd::usize());
    match which {
        0 => c.peek().is_ok_and(|mut i| i.next().is_some()),
        1 => c.peek_at(o).is_ok_and(|mut i| i.next().is_some()),
        2 => c.orig().is_ok(),
        3 => c.orig_at(o).is_ok(),
        4 => c.orig_sub(o, l).is_ok(),
        _ => {
            let d = c.clone_at(o);
            d.is_ok_and(|d| d.offset() == o && d.orig().is_ok())
        }
    }
}
#[inline(always)]
fn read_t(which: u8, w: [usize; 2]) -> bool {
    let s = Lay::of(w);
    let mut c = CharsCtx::new(s.get());
    c.set_offset(anywhere(s.len()));
    let (o, l) = (nd::usize(), nd::usize());
    match which {
        0 => c.peek().is_ok_and(|mut i| i.next().is_some()),
        1 => c.peek_at(o).is_ok_and(|mut i| i.next().is_some()),
        2 => c.orig().is_ok(),
        3 => c.orig_at(o).is_ok(),
        4 => c.orig_sub(o, l).is_ok(),
        _ => {
            let d = c.clone_at(o);
            d.is_ok_and(|d| d.offset() == o && d.orig().is_ok())
        }
    }
}
with_leaves! { LA::Total, anywhere;
    or_rec [7, 9] or(Rec, Total, W::skipping());
    or_bld [7, 9] or(Bld, Total, W::skipping());
    branch_rec [7, 9] branch_(Rec, Total, W::skipping());
    branch_bld [7, 9] branch_(Bld, Total, W::skipping());
    array_rec [7, 9] alts(Array, false, Rec, Total, W::plain());
    array_bld [7, 9] alts(Array, false, Bld, Total, W::plain());
    slice_rec [7, 9] alts(Slice, false, Rec, Total, W::plain());
    slice_bld [7, 9] alts(Slice, false, Bld, Total, W::plain());
    vector_rec [7, 9] alts(Vector, false, Rec, Total, W::plain());
    vector_bld [7, 9] alts(Vector, false, Bld, Total, W::plain());
    array_ltm_rec [7, 9] alts(Array, true, Rec, Total, W::plain());
    array_ltm_bld [7, 9] alts(Array, true, Bld, Total, W::plain());
    slice_ltm_rec [7, 9] alts(Slice, true, Rec, Total, W::plain());
    slice_ltm_bld [7, 9] alts(Slice, true, Bld, Total, W::plain());
    vector_ltm_rec [7, 9] alts(Vector, true, Rec, Total, W::plain());
    vector_ltm_bld [7, 9] alts(Vector, true, Bld, Total, W::plain());
    longest_rec [7, 9] longest(Rec, Total, W::skipping());
    longest_bld [7, 9] longest(Bld, Total, W::skipping());
    then_rec [7, 9] then_(Rec, Total, W::skipping());
    then_bld [7, 9] then_(Bld, Total, W::skipping());
    if_then_rec [7, 9] if_then_(Rec, Total, W::skipping());
    if_then_bld [7, 9] if_then_(Bld, Total, W::skipping());
    prefix_rec [7, 9] affix(true, Rec, Total, W::skipping());
    prefix_bld [7, 9] affix(true, Bld, Total, W::skipping());
    suffix_rec [7, 9] affix(false, Rec, Total, W::skipping());
    suffix_bld [7, 9] affix(false, Bld, Total, W::skipping());
    enclose_rec [7, 9] enclose_(Rec, Total, W::skipping());
    enclose_bld [7, 9] enclose_(Bld, Total, W::skipping());
    sep_once_rec [7, 9] sep_once_(Rec, Total, W::skipping());
    sep_once_bld [7, 9] sep_once_(Bld, Total, W::skipping());
    opt_rec [7, 9] opt_(Rec, Total, W::skipping());
    opt_bld [7, 9] opt_(Bld, Total, W::skipping());
    dyn_rec [7, 9] rdyn(Total, W::skipping());
    dyn_bld [7, 9] cdyn(Total, W::skipping());
    repeat_rec [7, 9] repeat_(0, Rec, Total, W::skipping());
    repeat_bld [7, 9] repeat_(0, Bld, Total, W::skipping());
    repeat2_rec [7, 9] repeat2_::<1, 2>(Rec, Total, W::skipping());
    repeat2_bld [7, 9] repeat2_::<1, 2>(Bld, Total, W::skipping());
    collect_rec [7, 9] collect_(Rec, Total, W::skipping());
    collect_bld [7, 9] collect_(Bld, Total, W::skipping());
    sep_opt_rec [7, 9] sep_(1, true, Rec, Total, W::skipping());
    sep_opt_bld [7, 9] sep_(1, true, Bld, Total, W::skipping());
    sep_man_rec [7, 9] sep_(1, false, Rec, Total, W::skipping());
    sep_man_bld [7, 9] sep_(1, false, Bld, Total, W::skipping());
    sep2_rec [7, 9] sep2_::<1, 2>(Rec, Total, W::skipping());
    sep2_bld [7, 9] sep2_::<1, 2>(Bld, Total, W::skipping());
    sep_collect_rec [7, 9] sep_collect_(Rec, Total, W::skipping());
    sep_collect_bld [7, 9] sep_collect_(Bld, Total, W::skipping());
    find_abs [7, 9] search_a(0);
    find_all_abs [7, 9] search_a(1);
    match_seq_abs [7, 9] search_a(2);
    find_b [4, 4] search_b!(0, false, Odd.many1());
    find_b_far [4, 4] search_b!(0, true, Odd.many1()) | nd::bool();
    find_all_b [4, 4] search_b!(1, false, Odd.once());
    find_all_b_far [4, 4] search_b!(1, true, Odd.once()) | nd::bool();
    match_seq_b [4, 4] search_b!(2, false, Odd.once());
    match_seq_b_far [4, 4] search_b!(2, true, Odd.once()) | nd::bool();
    find_t_far [3, 3] search_t!(0, true, [1], Odd.once()) | nd::bool();
    read_peek_b [5, 5] read_b(0);
    read_peek_at_b [5, 5] read_b(1);
    read_orig_b [5, 5] read_b(2);
    read_orig_at_b [5, 5] read_b(3);
    read_orig_sub_b [5, 5] read_b(4);
    read_clone_at_b [5, 5] read_b(5);
    read_peek_t [9, 9] read_t(0, [2, 1]);
    read_peek_at_t [9, 9] read_t(1, [2, 1]);
    read_orig_t [9, 9] read_t(2, [3, 1]);
    read_orig_at_t [9, 9] read_t(3, [1, 2]);
    read_orig_sub_t [9, 9] read_t(4, [1, 3]);
    read_clone_at_t [9, 9] read_t(5, [2, 2]);
}
