//! P11 recognising and building agree
#![allow(unused_imports)]
use neure::regex::Regex;
use crate::abs::{Asp::*, N, W};
use crate::comb::{Kind::*, Mode::*, *};
use crate::leaf::*;
use crate::nd;
use crate::text::*;
use neure::ctx::*;
use neure::neu::NeuIntoRegexOps;
use neure::regex::{consume, consume_all, empty, end, fail, literal, not, peek, start};
/// asked whether it matches, without a result
macro_rules! asks {
    ($p:expr) => {{
        let x: [u8; 2] = nd::bytes();
        let p = $p;
        let (mut f, mut g) = (BytesCtx::new(&x), BytesCtx::new(&x));
        let t = p.try_parse(&mut g).is_ok();
        chk!(p.parse(&mut f) == t, "asking whether a pattern matches gives another answer than matching it");
        chk!(f.offset() == g.offset() || !t, "asking whether a pattern matches consumes another amount");
        let mut k = BytesCtx::new(&x);
        chk!(k.is_mat(&p) == t, "asking the context whether a pattern matches gives another answer than matching it");
        t
    }};
}
with_leaves! { LA::Agree, inside;
    or_agree [7, 9] or(Agree, Sem, W::skipping());
    branch_agree [7, 9] branch_(Agree, Sem, W::skipping());
    opt_agree [7, 9] opt_(Agree, Sem, W::skipping());
    array_agree [7, 9] alts(Array, false, Agree, Sem, W::plain());
    slice_agree [7, 9] alts(Slice, false, Agree, Sem, W::plain());
    pair_vector_agree [7, 9] alts(PairVector, false, Agree, Sem, W::plain());
    array_ltm_agree [7, 9] alts(Array, true, Agree, Sem, W::plain());
    slice_ltm_agree [7, 9] alts(Slice, true, Agree, Sem, W::plain());
    pair_vector_ltm_agree [7, 9] alts(PairVector, true, Agree, Sem, W::plain());
    longest_agree [7, 9] longest(Agree, Sem, W::skipping());
    then_agree [7, 9] then_(Agree, Sem, W::skipping());
    if_then_agree [7, 9] if_then_(Agree, Sem, W::skipping());
    prefix_agree [7, 9] affix(true, Agree, Sem, W::skipping());
    suffix_agree [7, 9] affix(false, Agree, Sem, W::skipping());
    enclose_agree [7, 9] enclose_(Agree, Sem, W::skipping());
    sep_once_agree [7, 9] sep_once_(Agree, Sem, W::skipping());
    repeat_agree [7, 9] repeat_(0, Agree, Sem, W::skipping());
    repeat2_agree [7, 9] repeat2_::<1, 2>(Agree, Sem, W::skipping());
    collect_agree [7, 9] collect_(Agree, Sem, W::skipping());
    sep_opt_agree [7, 9] sep_(1, true, Agree, Sem, W::skipping());
    sep_man_agree [7, 9] sep_(1, false, Agree, Sem, W::skipping());
    sep2_agree [7, 9] sep2_::<1, 2>(Agree, Sem, W::skipping());
    sep_collect_agree [7, 9] sep_collect_(Agree, Sem, W::skipping());
    asks_literal [4, 4] { let l = [nd::u8(), nd::u8()]; asks!(literal(&l[..])) };
    asks_class [4, 4] asks!(nd::u8().many1());
    asks_consume [4, 4] asks!(consume(nd::usize()));
    map_agree [7, 9] map_(Agree, Sem, W::skipping());
}
