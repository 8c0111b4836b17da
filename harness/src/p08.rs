//! P08 sequencing
#![allow(unused_imports)]
use crate::abs::{Asp::*, N, W};
use crate::comb::{Kind::*, Mode::*, *};
use crate::nd;
hs! {
    then_rec [7, 9] then_(Rec, Sem, W::skipping());
    then_bld [7, 9] then_(Bld, Sem, W::skipping());
    if_then_rec [7, 9] if_then_(Rec, Sem, W::skipping());
    if_then_bld [7, 9] if_then_(Bld, Sem, W::skipping());
    prefix_rec [7, 9] affix(true, Rec, Sem, W::skipping());
    prefix_bld [7, 9] affix(true, Bld, Sem, W::skipping());
    suffix_rec [7, 9] affix(false, Rec, Sem, W::skipping());
    suffix_bld [7, 9] affix(false, Bld, Sem, W::skipping());
    enclose_rec [7, 9] enclose_(Rec, Sem, W::skipping());
    enclose_bld [7, 9] enclose_(Bld, Sem, W::skipping());
    sep_once_rec [7, 9] sep_once_(Rec, Sem, W::skipping());
    sep_once_bld [7, 9] sep_once_(Bld, Sem, W::skipping());
    dyn_rec [7, 9] rdyn(Sem, W::skipping());
    dyn_bld [7, 9] cdyn(Sem, W::skipping());
    pick_then_first [7, 9] pick(Pair::Then, Sel::First, Sem, W::skipping());
    pick_then_second [7, 9] pick(Pair::Then, Sel::Second, Sem, W::skipping());
    pick_then_equal [7, 9] pick(Pair::Then, Sel::Equal, Sem, W::skipping());
    pick_seponce_first [7, 9] pick(Pair::SepOnce, Sel::First, Sem, W::skipping());
    pick_seponce_second [7, 9] pick(Pair::SepOnce, Sel::Second, Sem, W::skipping());
    pick_seponce_equal [7, 9] pick(Pair::SepOnce, Sel::Equal, Sem, W::skipping());
    pick_ifthen_first [7, 9] pick(Pair::IfThen, Sel::First, Sem, W::skipping());
    pick_ifthen_second [7, 9] pick(Pair::IfThen, Sel::Second, Sem, W::skipping());
    pick_ifthen_equal [7, 9] pick(Pair::IfThen, Sel::Equal, Sem, W::skipping());
    pick_dyn_first [7, 9] pick(Pair::Dyn, Sel::First, Sem, W::skipping());
    pick_dyn_second [7, 9] pick(Pair::Dyn, Sel::Second, Sem, W::skipping());
    pick_dyn_equal [7, 9] pick(Pair::Dyn, Sel::Equal, Sem, W::skipping());
    map_rec [7, 9] map_(Rec, Sem, W::skipping());
    map_bld [7, 9] map_(Bld, Sem, W::skipping());
}
