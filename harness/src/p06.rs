//! P06 ordered choice
#![allow(unused_imports)]
use crate::abs::{Asp::*, N, W};
use crate::comb::{Kind::*, Mode::*, *};
use crate::nd;
hs! {
    long_array_rec [12, 12] crate::long::eight(Array, false, false);
    long_array_bld [12, 12] crate::long::eight(Array, false, true);
    long_slice_rec [12, 12] crate::long::eight(Slice, false, false);
    long_slice_bld [12, 12] crate::long::eight(Slice, false, true);
    long_vector_rec [12, 12] crate::long::eight(Vector, false, false);
    long_vector_bld [12, 12] crate::long::eight(Vector, false, true);
    long_pair_array_rec [12, 12] crate::long::eight(PairArray, false, false);
    long_pair_array_bld [12, 12] crate::long::eight(PairArray, false, true);
    long_pair_slice_rec [12, 12] crate::long::eight(PairSlice, false, false);
    long_pair_slice_bld [12, 12] crate::long::eight(PairSlice, false, true);
    long_pair_vector_rec [12, 12] crate::long::eight(PairVector, false, false);
    long_pair_vector_bld [12, 12] crate::long::eight(PairVector, false, true);
    or_rec [7, 9] or(Rec, Sem, W::plain());
    or_bld [7, 9] or(Bld, Sem, W::plain());
    branch_rec [7, 9] branch_(Rec, Sem, W::plain());
    branch_bld [7, 9] branch_(Bld, Sem, W::plain());
    opt_rec [7, 9] opt_(Rec, Sem, W::plain());
    opt_bld [7, 9] opt_(Bld, Sem, W::plain());
    array_rec [7, 9] alts(Array, false, Rec, Sem, W::plain());
    array_bld [7, 9] alts(Array, false, Bld, Sem, W::plain());
    slice_rec [7, 9] alts(Slice, false, Rec, Sem, W::plain());
    slice_bld [7, 9] alts(Slice, false, Bld, Sem, W::plain());
    vector_rec [7, 9] alts(Vector, false, Rec, Sem, W::plain());
    vector_bld [7, 9] alts(Vector, false, Bld, Sem, W::plain());
    pair_array_rec [7, 9] alts(PairArray, false, Rec, Sem, W::plain());
    pair_array_bld [7, 9] alts(PairArray, false, Bld, Sem, W::plain());
    pair_slice_rec [7, 9] alts(PairSlice, false, Rec, Sem, W::plain());
    pair_slice_bld [7, 9] alts(PairSlice, false, Bld, Sem, W::plain());
    pair_vector_rec [7, 9] alts(PairVector, false, Rec, Sem, W::plain());
    pair_vector_bld [7, 9] alts(PairVector, false, Bld, Sem, W::plain());
}
