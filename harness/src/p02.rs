//! P02 a successful match reports exactly the text it consumed
#![allow(unused_imports)]
use crate::abs::{Asp::*, N, W};
use crate::comb::{Kind::*, Mode::*, *};
use crate::leaf::*;
use crate::nd;
use crate::text::*;
use neure::ctx::*;
use neure::neu::NeuIntoRegexOps;
use neure::regex::{consume, consume_all, empty, end, fail, literal, not, peek, start};
with_leaves! { LA::Spanned, inside;
    or_rec [7, 9] or(Rec, Spanned, W::skipping());
    branch_rec [7, 9] branch_(Rec, Spanned, W::skipping());
    opt_rec [7, 9] opt_(Rec, Spanned, W::skipping());
    array_rec [7, 9] alts(Array, false, Rec, Spanned, W::plain());
    slice_rec [7, 9] alts(Slice, false, Rec, Spanned, W::plain());
    pair_vector_rec [7, 9] alts(PairVector, false, Rec, Spanned, W::plain());
    array_ltm_rec [7, 9] alts(Array, true, Rec, Spanned, W::plain());
    slice_ltm_rec [7, 9] alts(Slice, true, Rec, Spanned, W::plain());
    pair_vector_ltm_rec [7, 9] alts(PairVector, true, Rec, Spanned, W::plain());
    longest_rec [7, 9] longest(Rec, Spanned, W::skipping());
    then_rec [7, 9] then_(Rec, Spanned, W::skipping());
    if_then_rec [7, 9] if_then_(Rec, Spanned, W::skipping());
    prefix_rec [7, 9] affix(true, Rec, Spanned, W::skipping());
    suffix_rec [7, 9] affix(false, Rec, Spanned, W::skipping());
    enclose_rec [7, 9] enclose_(Rec, Spanned, W::skipping());
    sep_once_rec [7, 9] sep_once_(Rec, Spanned, W::skipping());
    dyn_rec [7, 9] rdyn(Spanned, W::skipping());
    repeat_rec [7, 9] repeat_(0, Rec, Spanned, W::skipping());
    repeat2_rec [7, 9] repeat2_::<1, 2>(Rec, Spanned, W::skipping());
    collect_rec [7, 9] collect_(Rec, Spanned, W::skipping());
    sep_opt_rec [7, 9] sep_(1, true, Rec, Spanned, W::skipping());
    sep_man_rec [7, 9] sep_(1, false, Rec, Spanned, W::skipping());
    sep2_rec [7, 9] sep2_::<1, 2>(Rec, Spanned, W::skipping());
    sep_collect_rec [7, 9] sep_collect_(Rec, Spanned, W::skipping());
    map_rec [7, 9] map_(Rec, Spanned, W::skipping());
}
