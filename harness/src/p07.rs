//! P07 longest-match choice
#![allow(unused_imports)]
use crate::abs::{Asp::*, N, W};
use crate::comb::{Kind::*, Mode::*, *};
use crate::nd;
hs! {
    long_array_rec [12, 12] crate::long::eight(Array, true, false);
    long_array_bld [12, 12] crate::long::eight(Array, true, true);
    long_slice_rec [12, 12] crate::long::eight(Slice, true, false);
    long_slice_bld [12, 12] crate::long::eight(Slice, true, true);
    long_vector_rec [12, 12] crate::long::eight(Vector, true, false);
    long_vector_bld [12, 12] crate::long::eight(Vector, true, true);
    long_pair_array_rec [12, 12] crate::long::eight(PairArray, true, false);
    long_pair_array_bld [12, 12] crate::long::eight(PairArray, true, true);
    long_pair_slice_rec [12, 12] crate::long::eight(PairSlice, true, false);
    long_pair_slice_bld [12, 12] crate::long::eight(PairSlice, true, true);
    long_pair_vector_rec [12, 12] crate::long::eight(PairVector, true, false);
    long_pair_vector_bld [12, 12] crate::long::eight(PairVector, true, true);
    longest_rec [7, 9] longest(Rec, Sem, W::skipping());
    longest_bld [7, 9] longest(Bld, Sem, W::skipping());
    array_ltm_rec [7, 9] alts(Array, true, Rec, Sem, W::plain());
    array_ltm_bld [7, 9] alts(Array, true, Bld, Sem, W::plain());
    slice_ltm_rec [7, 9] alts(Slice, true, Rec, Sem, W::plain());
    slice_ltm_bld [7, 9] alts(Slice, true, Bld, Sem, W::plain());
    vector_ltm_rec [7, 9] alts(Vector, true, Rec, Sem, W::plain());
    vector_ltm_bld [7, 9] alts(Vector, true, Bld, Sem, W::plain());
    pair_array_ltm_rec [7, 9] alts(PairArray, true, Rec, Sem, W::plain());
    pair_array_ltm_bld [7, 9] alts(PairArray, true, Bld, Sem, W::plain());
    pair_slice_ltm_rec [7, 9] alts(PairSlice, true, Rec, Sem, W::plain());
    pair_slice_ltm_bld [7, 9] alts(PairSlice, true, Bld, Sem, W::plain());
    pair_vector_ltm_rec [7, 9] alts(PairVector, true, Rec, Sem, W::plain());
    pair_vector_ltm_bld [7, 9] alts(PairVector, true, Bld, Sem, W::plain());
}
