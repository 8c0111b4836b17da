//! P10 separated lists
#![allow(unused_imports)]
use crate::abs::{Asp::*, N, Tab, W};
use crate::comb::{Kind::*, Mode::*, *};
use crate::long::{At, Count, L, arr_run, build, is_run, recog};
use crate::nd;
use neure::ctor::*;
/// elements at the even positions, separators at the odd ones, up to symbolic positions:
/// (number of elements, end)
#[inline(always)]
fn long_list(max: usize, optional: bool) -> (At, At, usize, usize) {
    let (f, g) = (nd::below(L + 1), nd::below(L + 1));
    let (mut n, mut end, mut i) = (0, 0, 0);
    let mut go = true;
    while i < L {
        if go && n < max {
            go = false;
            if i < f {
                let sep = i + 1 < g;
                if sep || optional {
                    n += 1;
                    end = i + 1;
                }
                if sep {
                    end = i + 2;
                    go = true;
                }
            }
        }
        i += 2;
    }
    (At { even: true, to: f }, At { even: false, to: g }, n, end)
}
#[inline(always)]
fn long_sep(bld: bool, opt: bool, min: usize) -> bool {
    let (e, s, n, end) = long_list(L, opt);
    let want = if n >= min { Some(end) } else { None };
    let p = e.sep(s).with_skip(opt).at_least(min).with_capacity(L);
    match (bld, opt) {
        (true, true) => build(&p, want, |v: &Vec<u8>| is_run(v, n, 2)),
        (true, false) => build(&p, want, |v: &Vec<()>| v.len() == n),
        _ => recog(&p, want),
    }
}
#[inline(always)]
fn long_sep2<const A: usize, const B: usize>(bld: bool, opt: bool) -> bool {
    let (e, s, n, end) = long_list(B, opt);
    let want = if n >= A { Some(end) } else { None };
    let p = e.sep2::<_, A, B>(s).with_skip(opt);
    if bld { build(&p, want, |v: &[Option<u8>; B]| arr_run(v, n, 2)) } else { recog(&p, want) }
}
#[inline(always)]
fn long_sep_collect(bld: bool) -> bool {
    let (opt, min) = (nd::bool(), nd::below(L / 2 + 2));
    let (e, s, n, end) = long_list(L, opt);
    let want = if n >= min { Some(end) } else { None };
    let p = e.sep_collect::<_, u8, Count>(s).with_skip(opt).at_least(min);
    if bld { build(&p, want, |v: &Count| v.is(n, 2)) } else { recog(&p, want) }
}
/// the number of values room is made for does not limit the list (the vector holds
/// units here, so that its capacity can be symbolic)
#[inline(always)]
fn cap(mode: crate::comb::Mode) -> bool {
    let w = W::plain();
    let (a, s) = (Tab::any().progress(), Tab::any());
    let (min, c, opt) = (nd::below(N + 2), nd::below(N + 2), nd::bool());
    let r = list_of(&w, mode == Bld, &a, &s, N + 1, opt);
    let m = if r.n >= min { Some(r.end) } else { None };
    let p = a.orc(1, w.base).sep(s.orc(2, w.base)).with_skip(opt).at_least(min).with_capacity(c);
    let ok = if mode == Bld { crate::abs::bld(Sem, &p, &w, m, |v: &Vec<()>| v.len() == r.n) } else { crate::abs::rec(Sem, &p, &w, m) };
    ok && r.n > c && r.n > min
}
hs! {
    cap_rec [7, 9] cap(Rec);
    cap_bld [7, 9] cap(Bld);
    long_sep_collect_rec [23, 43] long_sep_collect(false);
    long_sep_collect_bld [23, 43] long_sep_collect(true);
    long_sep_rec [23, 43] long_sep(false, nd::bool(), nd::below(L / 2 + 2));
    long_sep_bld_opt [23, 43] long_sep(true, true, 5);
    long_sep_bld_man [23, 43] long_sep(true, false, 5);
    long_sep2_rec [23, 43] long_sep2::<2, 5>(false, nd::bool());
    long_sep2_bld [23, 43] long_sep2::<2, 5>(true, true);
    sep_rec [7, 9] sep_(nd::below(N + 2), nd::bool(), Rec, Sem, W::plain());
    sep_bld_0t [7, 9] sep_(0, true, Bld, Sem, W::plain());
    sep_bld_0f [7, 9] sep_(0, false, Bld, Sem, W::plain());
    sep_bld_1t [7, 9] sep_(1, true, Bld, Sem, W::plain());
    sep_bld_1f [7, 9] sep_(1, false, Bld, Sem, W::plain());
    sep_bld_2t [7, 9] sep_(2, true, Bld, Sem, W::plain());
    sep_bld_2f [7, 9] sep_(2, false, Bld, Sem, W::plain());
    sep_bld_3t [7, 9] sep_(3, true, Bld, Sem, W::plain());
    sep_bld_3f [7, 9] sep_(3, false, Bld, Sem, W::plain());
    sep2_0_2_rec [7, 9] sep2_::<0, 2>(Rec, Sem, W::plain());
    sep2_0_2_bld [7, 9] sep2_::<0, 2>(Bld, Sem, W::plain());
    sep2_1_2_rec [7, 9] sep2_::<1, 2>(Rec, Sem, W::plain());
    sep2_1_2_bld [7, 9] sep2_::<1, 2>(Bld, Sem, W::plain());
    sep2_2_2_rec [7, 9] sep2_::<2, 2>(Rec, Sem, W::plain());
    sep2_2_2_bld [7, 9] sep2_::<2, 2>(Bld, Sem, W::plain());
    sep2_1_3_rec [7, 9] sep2_::<1, 3>(Rec, Sem, W::plain());
    sep2_1_3_bld [7, 9] sep2_::<1, 3>(Bld, Sem, W::plain());
    sep_collect_rec [7, 9] sep_collect_(Rec, Sem, W::plain());
    sep_collect_bld [7, 9] sep_collect_(Bld, Sem, W::plain());
}
