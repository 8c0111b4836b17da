//! P01 a failed match leaves the cursor where it was
#![allow(unused_imports)]
use crate::abs::{Asp::*, N, W};
use crate::comb::{Kind::*, Mode::*, *};
use crate::leaf::*;
use crate::nd;
use crate::text::*;
use neure::ctx::*;
use neure::neu::NeuIntoRegexOps;
use neure::regex::{consume, consume_all, empty, end, fail, literal, not, peek, start};
with_leaves! { LA::Rollback, inside;
    or_rec [7, 9] or(Rec, Rollback, W::skipping());
    or_bld [7, 9] or(Bld, Rollback, W::skipping());
    branch_rec [7, 9] branch_(Rec, Rollback, W::skipping());
    branch_bld [7, 9] branch_(Bld, Rollback, W::skipping());
    array_rec [7, 9] alts(Array, false, Rec, Rollback, W::plain());
    array_bld [7, 9] alts(Array, false, Bld, Rollback, W::plain());
    slice_rec [7, 9] alts(Slice, false, Rec, Rollback, W::plain());
    slice_bld [7, 9] alts(Slice, false, Bld, Rollback, W::plain());
    vector_rec [7, 9] alts(Vector, false, Rec, Rollback, W::plain());
    vector_bld [7, 9] alts(Vector, false, Bld, Rollback, W::plain());
    array_ltm_rec [7, 9] alts(Array, true, Rec, Rollback, W::plain());
    array_ltm_bld [7, 9] alts(Array, true, Bld, Rollback, W::plain());
    slice_ltm_rec [7, 9] alts(Slice, true, Rec, Rollback, W::plain());
    slice_ltm_bld [7, 9] alts(Slice, true, Bld, Rollback, W::plain());
    vector_ltm_rec [7, 9] alts(Vector, true, Rec, Rollback, W::plain());
    vector_ltm_bld [7, 9] alts(Vector, true, Bld, Rollback, W::plain());
    longest_rec [7, 9] longest(Rec, Rollback, W::skipping());
    longest_bld [7, 9] longest(Bld, Rollback, W::skipping());
    then_rec [7, 9] then_(Rec, Rollback, W::skipping());
    then_bld [7, 9] then_(Bld, Rollback, W::skipping());
    if_then_rec [7, 9] if_then_(Rec, Rollback, W::skipping());
    if_then_bld [7, 9] if_then_(Bld, Rollback, W::skipping());
    prefix_rec [7, 9] affix(true, Rec, Rollback, W::skipping());
    prefix_bld [7, 9] affix(true, Bld, Rollback, W::skipping());
    suffix_rec [7, 9] affix(false, Rec, Rollback, W::skipping());
    suffix_bld [7, 9] affix(false, Bld, Rollback, W::skipping());
    enclose_rec [7, 9] enclose_(Rec, Rollback, W::skipping());
    enclose_bld [7, 9] enclose_(Bld, Rollback, W::skipping());
    sep_once_rec [7, 9] sep_once_(Rec, Rollback, W::skipping());
    sep_once_bld [7, 9] sep_once_(Bld, Rollback, W::skipping());
    dyn_rec [7, 9] rdyn(Rollback, W::skipping());
    dyn_bld [7, 9] cdyn(Rollback, W::skipping());
    repeat_rec [7, 9] repeat_(0, Rec, Rollback, W::skipping());
    repeat_bld [7, 9] repeat_(0, Bld, Rollback, W::skipping());
    repeat2_rec [7, 9] repeat2_::<2, 3>(Rec, Rollback, W::skipping());
    repeat2_bld [7, 9] repeat2_::<2, 3>(Bld, Rollback, W::skipping());
    collect_rec [7, 9] collect_(Rec, Rollback, W::skipping());
    collect_bld [7, 9] collect_(Bld, Rollback, W::skipping());
    sep_opt_rec [7, 9] sep_(2, true, Rec, Rollback, W::skipping());
    sep_opt_bld [7, 9] sep_(2, true, Bld, Rollback, W::skipping());
    sep_man_rec [7, 9] sep_(2, false, Rec, Rollback, W::skipping());
    sep_man_bld [7, 9] sep_(2, false, Bld, Rollback, W::skipping());
    sep2_rec [7, 9] sep2_::<2, 2>(Rec, Rollback, W::skipping());
    sep2_bld [7, 9] sep2_::<2, 2>(Bld, Rollback, W::skipping());
    sep_collect_rec [7, 9] sep_collect_(Rec, Rollback, W::skipping());
    sep_collect_bld [7, 9] sep_collect_(Bld, Rollback, W::skipping());
}
