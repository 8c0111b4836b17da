//! P16 ranges and lists as classes
use crate::nd;
use core::ops::{Bound, RangeBounds};
use neure::neu::*;

trait It: Copy + PartialOrd + core::fmt::Debug + 'static {
    fn any() -> Self;
}
impl It for u8 {
    fn any() -> Self {
        nd::u8()
    }
}
impl It for char {
    fn any() -> Self {
        nd::char()
    }
}
impl It for usize {
    fn any() -> Self {
        nd::usize()
    }
}
fn bd<T: It>(k: usize, v: T) -> Bound<T> {
    match k {
        0 => Bound::Included(v),
        1 => Bound::Excluded(v),
        _ => Bound::Unbounded,
    }
}
fn within<T: It>(lo: Bound<T>, hi: Bound<T>, x: T) -> bool {
    let l = match lo {
        Bound::Included(v) => v <= x,
        Bound::Excluded(v) => v < x,
        Bound::Unbounded => true,
    };
    let h = match hi {
        Bound::Included(v) => x <= v,
        Bound::Excluded(v) => x < v,
        Bound::Unbounded => true,
    };
    l && h
}
fn ok<T: It>(u: &impl Neu<T>, x: T, want: bool) -> bool {
    chk!(u.is_match(&x) == want, "accepts an item outside the bounds or rejects one inside");
    chk!(u.min_length() <= 1, "promises more than the narrowest item");
    want
}
/// the standard forms, by value
fn val<T: It>(k: usize) -> bool {
    let (a, b, x) = (T::any(), T::any(), T::any());
    match k {
        0 => ok(&(a..b), x, a <= x && x < b),
        1 => ok(&(a..=b), x, a <= x && x <= b),
        2 => ok(&(a..), x, a <= x),
        3 => ok(&(..b), x, x < b),
        4 => ok(&(..=b), x, x <= b),
        _ => ok(&(..), x, true) & nd::bool(),
    }
}
/// ... by reference
fn by_ref<T: It>(k: usize) -> bool {
    let (a, b, x) = (T::any(), T::any(), T::any());
    match k {
        0 => ok(&(&a..&b), x, a <= x && x < b),
        1 => ok(&(&a..=&b), x, a <= x && x <= b),
        2 => ok(&(&a..), x, a <= x),
        3 => ok(&(..&b), x, x < b),
        _ => ok(&(..=&b), x, x <= b),
    }
}
/// explicit pairs of bounds, by value, by reference, and as a CRange
fn pair<T: It>() -> bool {
    let (a, b, x) = (T::any(), T::any(), T::any());
    let (lo, hi) = (bd(nd::below(3), a), bd(nd::below(3), b));
    let want = within(lo, hi, x);
    ok(&(lo, hi), x, want);
    ok(&(lo.as_ref(), hi.as_ref()), x, want);
    ok(&CRange::new(lo, hi), x, want);
    ok(&CRange::from((lo, hi)), x, want);
    ok(&range((lo, hi)), x, want);
    ok(&CRange::clone_from((lo, hi)), x, want);
    ok(&CRange::new(lo, hi).clone(), x, want);
    ok(&!CRange::new(lo, hi), x, !want);
    let c = CRange::new(lo, hi);
    chk!(c.start_bound().cloned() == lo && c.end_bound().cloned() == hi, "bounds of a CRange");
    chk!(c.contains(&x) == want, "contains");
    want
}
/// conversions from every range type
fn conv<T: It>(k: usize) -> bool {
    let (a, b, x) = (T::any(), T::any(), T::any());
    match k {
        0 => {
            ok(&CRange::from(core::range::Range { start: a, end: b }), x, a <= x && x < b);
            ok(&range(a..b), x, a <= x && x < b);
            ok(&CRange::clone_from(a..b), x, a <= x && x < b);
            ok(&CRange::from(a..b), x, a <= x && x < b)
        }
        1 => {
            ok(&CRange::from(core::range::RangeInclusive { start: a, last: b }), x, a <= x && x <= b);
            ok(&range(a..=b), x, a <= x && x <= b);
            ok(&CRange::clone_from(a..=b), x, a <= x && x <= b);
            ok(&CRange::from(a..=b), x, a <= x && x <= b)
        }
        2 => {
            ok(&CRange::from(core::range::RangeFrom { start: a }), x, a <= x);
            ok(&range(a..), x, a <= x);
            ok(&CRange::clone_from(a..), x, a <= x);
            ok(&CRange::from(a..), x, a <= x)
        }
        3 => {
            ok(&range(..b), x, x < b);
            ok(&CRange::clone_from(..b), x, x < b);
            ok(&CRange::from(..b), x, x < b)
        }
        4 => {
            ok(&CRange::from(core::range::RangeToInclusive { last: b }), x, x <= b);
            ok(&range(..=b), x, x <= b);
            ok(&CRange::clone_from(..=b), x, x <= b);
            ok(&CRange::from(..=b), x, x <= b)
        }
        _ => {
            ok(&CRange::<T>::default(), x, true);
            ok(&range::<T>(..), x, true);
            ok(&CRange::<T>::clone_from(..), x, true);
            ok(&CRange::<T>::from(..), x, true) & nd::bool()
        }
    }
}
/// one value as a range of counts
fn single() -> bool {
    let x = nd::usize();
    let mut all = true;
    macro_rules! one {
        ($($t:ident)*) => { $( {
            let v = nd::$t();
            #[allow(unused_comparisons)]
            nd::assume(v >= 0);
            all &= ok(&CRange::<usize>::from(v), x, x == v as usize);
            ok(&CRange::<usize>::from(&v), x, x == v as usize);
            chk!(!CRange::<usize>::from(v).is_empty(), "a single value is not empty");
        } )* };
    }
    one!(i8 u8 i16 u16 i32 u32 i64 u64 isize usize);
    all
}
/// reported empty only when it contains nothing
fn empty() -> bool {
    let (a, b, x) = (nd::usize(), nd::usize(), nd::usize());
    let (lo, hi) = (bd(nd::below(3), a), bd(nd::below(3), b));
    let c = CRange::new(lo, hi);
    let e = c.is_empty();
    chk!(!e || !within(lo, hi, x), "reported empty although it contains a value");
    // the smallest and the largest value between the bounds
    let first = match lo { Bound::Included(v) => Some(v), Bound::Excluded(v) => v.checked_add(1), Bound::Unbounded => None };
    let last = match hi { Bound::Included(v) => Some(v), Bound::Excluded(v) => v.checked_sub(1), Bound::Unbounded => None };
    if !matches!(lo, Bound::Unbounded) && !matches!(hi, Bound::Unbounded) {
        let none = match (first, last) { (Some(f), Some(l)) => f > l, _ => true };
        chk!(e == none, "a range with both bounds given is reported empty exactly when it contains nothing");
    }
    e
}
/// a range written with both bounds is reported empty exactly when it is
fn empty_both() -> bool {
    let (a, b) = (nd::usize(), nd::usize());
    chk!(range(a..b).is_empty() == (a >= b), "a..b empty");
    chk!(range(a..=b).is_empty() == (a > b), "a..=b empty");
    chk!(!range(a..).is_empty(), "a.. is not empty");
    a >= b
}
fn arr<T: It, const K: usize>() -> bool {
    let a: [T; K] = core::array::from_fn(|_| T::any());
    let x = T::any();
    let mut want = false;
    let mut i = 0;
    while i < K {
        want |= a[i] == x;
        i += 1;
    }
    ok(&a, x, want);
    ok(&(&a as &[T]), x, want);
    want
}
fn list<T: It>(n: usize) -> bool {
    let a: [T; 3] = core::array::from_fn(|_| T::any());
    let x = T::any();
    let want = (n > 0 && a[0] == x) || (n > 1 && a[1] == x) || (n > 2 && a[2] == x);
    ok(&(&a[..n]), x, want)
}
fn vect<T: It>(n: usize) -> bool {
    let a: [T; 3] = core::array::from_fn(|_| T::any());
    let x = T::any();
    let v = a[..n].to_vec();
    let want = (n > 0 && a[0] == x) || (n > 1 && a[1] == x) || (n > 2 && a[2] == x);
    ok(&v, x, want)
}
hs! {
    long_array_c [18, 18] arr::<char, 16>();
    long_array_b [18, 18] arr::<u8, 16>();
    half_c [2, 2] val::<char>(0);
    incl_c [2, 2] val::<char>(1);
    from_c [2, 2] val::<char>(2);
    to_c [2, 2] val::<char>(3);
    toincl_c [2, 2] val::<char>(4);
    full_c [2, 2] val::<char>(5);
    half_b [2, 2] val::<u8>(0);
    incl_b [2, 2] val::<u8>(1);
    from_b [2, 2] val::<u8>(2);
    to_b [2, 2] val::<u8>(3);
    toincl_b [2, 2] val::<u8>(4);
    full_b [2, 2] val::<u8>(5);
    half_rc [2, 2] by_ref::<char>(0);
    incl_rc [2, 2] by_ref::<char>(1);
    from_rc [2, 2] by_ref::<char>(2);
    to_rc [2, 2] by_ref::<char>(3);
    toincl_rc [2, 2] by_ref::<char>(4);
    half_rb [2, 2] by_ref::<u8>(0);
    incl_rb [2, 2] by_ref::<u8>(1);
    from_rb [2, 2] by_ref::<u8>(2);
    to_rb [2, 2] by_ref::<u8>(3);
    toincl_rb [2, 2] by_ref::<u8>(4);
    pair_c [2, 2] pair::<char>();
    pair_b [2, 2] pair::<u8>();
    pair_n [2, 2] pair::<usize>();
    conv_half [2, 2] conv::<char>(0);
    conv_incl [2, 2] conv::<char>(1);
    conv_from [2, 2] conv::<char>(2);
    conv_to [2, 2] conv::<char>(3);
    conv_toincl [2, 2] conv::<char>(4);
    conv_full [2, 2] conv::<char>(5);
    conv_half_n [2, 2] conv::<usize>(0);
    conv_incl_n [2, 2] conv::<usize>(1);
    conv_from_n [2, 2] conv::<usize>(2);
    conv_to_n [2, 2] conv::<usize>(3);
    conv_toincl_n [2, 2] conv::<usize>(4);
    conv_full_n [2, 2] conv::<usize>(5);
    single_value [2, 2] single();
    empty_any [2, 2] empty();
    empty_two [2, 2] empty_both();
    array_c [6, 10] arr::<char, { if cfg!(feature = "thorough") { 8 } else { 4 } }>();
    array_b [6, 10] arr::<u8, { if cfg!(feature = "thorough") { 8 } else { 4 } }>();
    array_one [3, 3] arr::<char, 1>();
    array_none [3, 3] arr::<char, 0>() | nd::bool();
    slice_c0 [5, 5] list::<char>(0) | nd::bool();
    slice_c1 [5, 5] list::<char>(1);
    slice_c2 [5, 5] list::<char>(2);
    slice_c3 [5, 5] list::<char>(3);
    slice_b0 [5, 5] list::<u8>(0) | nd::bool();
    slice_b1 [5, 5] list::<u8>(1);
    slice_b3 [5, 5] list::<u8>(3);
    vec_c [5, 5] vect::<char>(3);
    vec_c1 [5, 5] vect::<char>(1);
    vec_c0 [5, 5] vect::<char>(0) | nd::bool();
    vec_b [5, 5] vect::<u8>(3);
    vec_b2 [5, 5] vect::<u8>(2);
}
