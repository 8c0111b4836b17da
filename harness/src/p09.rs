//! P09 pattern repetition
#![allow(unused_imports)]
use crate::abs::{Asp::*, N, Tab, W};
use crate::comb::{Kind::*, Mode::*, *};
use crate::long::{Count, L, Up, arr_run, build, is_run, recog};
use crate::nd;
use neure::ctor::*;
/// L items: the pattern matches up to a symbolic position
#[inline(always)]
fn long_repeat(bld: bool) -> bool {
    let (f, lo, hi) = (nd::below(L + 1), nd::below(L + 2), nd::below(L + 2));
    let n = f.min(hi);
    let want = if lo <= hi && n >= lo { Some(n) } else { None };
    let p = Up { to: f }.repeat(lo..=hi).with_capacity(L + 1);
    if bld { build(&p, want, |v: &Vec<u8>| is_run(v, n, 1)) } else { recog(&p, want) }
}
#[inline(always)]
fn long_repeat2<const A: usize, const B: usize>(bld: bool) -> bool {
    let f = nd::below(L + 1);
    let n = f.min(B);
    let want = if n >= A { Some(n) } else { None };
    let p = Up { to: f }.repeat2::<A, B>();
    if bld { build(&p, want, |v: &[Option<u8>; B]| arr_run(v, n, 1)) } else { recog(&p, want) }
}
#[inline(always)]
fn long_collect(bld: bool) -> bool {
    let (f, lo) = (nd::below(L + 1), nd::below(L + 2));
    let want = if f >= lo { Some(f) } else { None };
    let p = Up { to: f }.collect::<u8, Count>().at_least(lo);
    if bld { build(&p, want, |v: &Count| v.is(f, 1)) } else { recog(&p, want) }
}
/// the number of values room is made for does not limit the repetition (the vector
/// holds units here, so that its capacity can be symbolic)
#[inline(always)]
fn cap(mode: crate::comb::Mode) -> bool {
    let w = W::plain();
    let a = Tab::any().progress();
    let (lo, c) = (nd::below(N + 2), nd::below(N + 2));
    let r = run_of(&w, mode == Bld, &a, N + 1);
    let m = if r.n >= lo { Some(r.end) } else { None };
    let p = a.orc(1, w.base).repeat(lo..).with_capacity(c);
    let ok = if mode == Bld { crate::abs::bld(Sem, &p, &w, m, |v: &Vec<()>| v.len() == r.n) } else { crate::abs::rec(Sem, &p, &w, m) };
    ok && r.n > c
}
hs! {
    cap_rec [7, 9] cap(Rec);
    cap_bld [7, 9] cap(Bld);
    long_repeat_rec [23, 43] long_repeat(false);
    long_repeat_bld [23, 43] long_repeat(true);
    long_repeat2_rec [23, 43] long_repeat2::<3, 9>(false);
    long_repeat2_bld [23, 43] long_repeat2::<3, 9>(true);
    long_collect_rec [23, 43] long_collect(false);
    long_collect_bld [23, 43] long_collect(true);
    repeat0_rec [7, 9] repeat_(0, Rec, Sem, W::plain());
    repeat0_bld [7, 9] repeat_(0, Bld, Sem, W::plain());
    repeat1_rec [7, 9] repeat_(1, Rec, Sem, W::plain());
    repeat1_bld [7, 9] repeat_(1, Bld, Sem, W::plain());
    repeat2_rec [7, 9] repeat_(2, Rec, Sem, W::plain());
    repeat2_bld [7, 9] repeat_(2, Bld, Sem, W::plain());
    repeat3_rec [7, 9] repeat_(3, Rec, Sem, W::plain());
    repeat3_bld [7, 9] repeat_(3, Bld, Sem, W::plain());
    repeat4_rec [7, 9] repeat_(4, Rec, Sem, W::plain());
    repeat4_bld [7, 9] repeat_(4, Bld, Sem, W::plain());
    repeat5_rec [7, 9] repeat_(5, Rec, Sem, W::plain());
    repeat5_bld [7, 9] repeat_(5, Bld, Sem, W::plain());
    repeat_cap_0_2 [7, 9] repeat_cap::<0, 2>(Bld, Sem, W::plain());
    repeat_cap_1_3 [7, 9] repeat_cap::<1, 3>(Bld, Sem, W::plain());
    repeat_cap_2_2 [7, 9] repeat_cap::<2, 2>(Bld, Sem, W::plain());
    repeat2_0_2_rec [7, 9] repeat2_::<0, 2>(Rec, Sem, W::plain());
    repeat2_0_2_bld [7, 9] repeat2_::<0, 2>(Bld, Sem, W::plain());
    repeat2_1_2_rec [7, 9] repeat2_::<1, 2>(Rec, Sem, W::plain());
    repeat2_1_2_bld [7, 9] repeat2_::<1, 2>(Bld, Sem, W::plain());
    repeat2_2_2_rec [7, 9] repeat2_::<2, 2>(Rec, Sem, W::plain());
    repeat2_2_2_bld [7, 9] repeat2_::<2, 2>(Bld, Sem, W::plain());
    repeat2_1_3_rec [7, 9] repeat2_::<1, 3>(Rec, Sem, W::plain());
    repeat2_1_3_bld [7, 9] repeat2_::<1, 3>(Bld, Sem, W::plain());
    repeat2_0_1_rec [7, 9] repeat2_::<0, 1>(Rec, Sem, W::plain());
    repeat2_0_1_bld [7, 9] repeat2_::<0, 1>(Bld, Sem, W::plain());
    collect_rec [7, 9] collect_(Rec, Sem, W::plain());
    collect_bld [7, 9] collect_(Bld, Sem, W::plain());
}
