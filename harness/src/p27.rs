//! P27 parts and copies of patterns: what was configured is what is there.
use crate::nd;
use neure::ctx::*;
use neure::map::FallibleMap;
use neure::neu::*;
use neure::prelude::*;
use neure::{ctor, map, regex};

/// `name: constructor over parts a[0..K]; (index getter [mutable getter] [setter] [builder]) ...`
/// with every part an arbitrary byte: the getters read the parts back, a setter
/// changes its own part only, and a clone neither changes nor follows.
macro_rules! parts {
    (@set $x:ident $v:ident m $f:ident) => { *$x.$f() = $v; };
    (@set $x:ident $v:ident s $f:ident) => { $x.$f($v); };
    (@set $x:ident $v:ident b $f:ident) => { $x = $x.$f($v); };
    ($k:literal, $a:ident, $new:expr; $([$i:literal $get:ident $($kind:ident $f:ident)*])*) => {{
        let mut all = true;
        let $a: [u8; $k] = nd::bytes::<$k>();
        let o = $new;
        macro_rules! same { ($what:ident, $w:expr, $m:literal) => { $( chk!(*$what.$get() == $w[$i], $m); )* } }
        same!(o, $a, "an accessor does not return the part given at construction");
        let c = o.clone();
        same!(c, $a, "the clone has a different part");
        $( $( {
            let v = nd::u8();
            let mut x = o.clone();
            parts!(@set x v $kind $f);
            let mut w = $a;
            w[$i] = v;
            same!(x, w, "a setter changed something else than its part");
            all &= v == $a[$i];
        } )* )*
        same!(o, $a, "changing a clone changed the original");
        all
    }};
}
/// the same for flags and counts, read by value
macro_rules! vals {
    (@set $x:ident $v:ident s $f:ident) => { $x.$f($v); };
    (@set $x:ident $v:ident b $f:ident) => { $x = $x.$f($v); };
    (@any bool) => { nd::bool() };
    (@any usize) => { nd::usize() };
    ($o:expr, $($n:ident: $t:ident $get:ident ($kind:ident $f:ident $($kr:ident $fr:ident)*);)*) => {{
        let mut o = $o;
        // give every one an arbitrary value first
        $( let $n = vals!(@any $t); vals!(@set o $n $kind $f); )*
        macro_rules! same { ($x:ident, $m:literal) => { $( chk!($x.$get() == $n, $m); )* } }
        same!(o, "an accessor does not return the value set");
        let c = o.clone();
        same!(c, "the clone has a different setting");
        let mut all = true;
        vals!(@each o all {$($n $t ($kind $f $($kr $fr)*))*} {$($n $get)*});
        all
    }};
    (@each $o:ident $all:ident {} $all_n:tt) => {};
    (@each $o:ident $all:ident {$n:ident $t:ident () $($rest:tt)*} $all_n:tt) => { vals!(@each $o $all {$($rest)*} $all_n); };
    (@each $o:ident $all:ident {$n:ident $t:ident ($kind:ident $f:ident $($more:ident)*) $($rest:tt)*} {$($m:ident $get:ident)*}) => {
        {
            let mut x = $o.clone();
            let v = vals!(@any $t);
            vals!(@set x v $kind $f);
            $all &= v == $n;
            let $n = v;
            $( chk!(x.$get() == $m, "a setter changed something else than its setting"); )*
        }
        vals!(@each $o $all {$n $t ($($more)*) $($rest)*} {$($m $get)*});
    };
}
type B = BytesCtx<'static>;
fn ctor_two() -> bool {
    parts!(2, a, ctor::Suffix::<(), _, _>::new(a[0], a[1]); [0 pat m pat_mut s set_pat][1 suffix m suffix_mut s set_suffix])
        & parts!(2, a, ctor::Prefix::<(), _, _>::new(a[0], a[1]); [0 pat m pat_mut s set_pat][1 prefix m prefix_mut s set_prefix])
        & parts!(2, a, ctor::Then::<(), _, _>::new(a[0], a[1]); [0 left m left_mut s set_left][1 right m right_mut s set_right])
        & parts!(2, a, ctor::Or::<(), _, _>::new(a[0], a[1]); [0 left m left_mut s set_left][1 right m right_mut s set_right])
        & parts!(2, a, ctor::LongestTokenMatch::<(), _, _>::new(a[0], a[1]); [0 left m left_mut s set_left][1 right m right_mut s set_right])
        & parts!(2, a, ctor::Map::<(), _, _, ()>::new(a[0], a[1]); [0 pat m pat_mut s set_pat][1 mapper m mapper_mut s set_mapper])
        & parts!(2, a, ctor::DynamicCtorThenBuilder::<(), _, _>::new(a[0], a[1]); [0 pat m pat_mut s set_pat][1 func m func_mut s set_func])
}
fn ctor_three() -> bool {
    parts!(3, a, ctor::Branch::<(), _, _, _>::new(a[0], a[1], a[2]); [0 test m test_mut s set_test][1 pat m pat_mut s set_pat][2 other m other_mut s set_other])
        & parts!(3, a, ctor::Enclose::<(), _, _, _>::new(a[0], a[1], a[2]); [0 pat m pat_mut s set_pat][1 open m open_mut s set_open][2 close m close_mut s set_close])
        & parts!(3, a, ctor::SepOnce::<(), _, _, _>::new(a[0], a[1], a[2]); [0 left m left_mut s set_left][1 sep m sep_mut s set_sep][2 right m right_mut s set_right])
        & parts!(3, a, ctor::IfThen::<(), _, _, _>::new(a[0], a[1], a[2]); [0 left m left_mut s set_left][1 test m test_mut s set_test][2 right m right_mut s set_right])
}
fn ctor_one() -> bool {
    parts!(1, a, ctor::OptionPat::<(), _>::new(a[0]); [0 pat m pat_mut s set_pat])
        & parts!(1, a, ctor::Pattern::<(), _>::new(a[0]); [0 pat m pat_mut s set_pat])
        & parts!(1, a, ctor::Collect::<(), _, (), ()>::new(a[0]); [0 pat m pat_mut s set_pat])
        & parts!(1, a, ctor::Repeat2::<(), _, 1, 2>::new(a[0]); [0 pat m pat_mut s set_pat b with_pat])
        & parts!(1, a, ctor::Repeat::<(), _>::new(a[0], 1..2); [0 pat m pat_mut s set_pat b with_pat])
        & parts!(1, a, ctor::Adapter::<(), _>::new(a[0]); [0 inner m inner_mut s set_inner b with_inner])
        & parts!(1, a, regex::Adapter::<(), _>::new(a[0]); [0 inner m inner_mut s set_inner b with_inner])
        & parts!(1, a, regex::assert(a[0], true); [0 pat m pat_mut s set_pat])
        & parts!(1, a, ctor::Adapter::<(), u8>::from(a[0]); [0 inner])
        & parts!(1, a, regex::Adapter::<(), u8>::from(a[0]); [0 inner])
}
fn ctor_sep() -> bool {
    parts!(2, a, ctor::Separate::<(), _, _>::new(a[0], a[1]); [0 pat m pat_mut s set_pat][1 sep m sep_mut s set_sep])
        & parts!(2, a, ctor::Separate2::<(), _, _, 1, 2>::new(a[0], a[1]); [0 pat m pat_mut s set_pat][1 sep m sep_mut s set_sep])
        & parts!(2, a, ctor::SepCollect::<(), _, _, (), ()>::new(a[0], a[1]); [0 pat m pat_mut s set_pat][1 sep m sep_mut s set_sep])
}
fn classes() -> bool {
    parts!(2, a, And::<_, _, u8>::new(a[0], a[1]); [0 left m left_mut s set_left][1 right m right_mut s set_right])
        & parts!(2, a, Or::<_, _, u8>::new(a[0], a[1]); [0 left m left_mut s set_left][1 right m right_mut s set_right])
        & parts!(2, a, NeureThen::<B, _, _, u8, _>::new(a[0], a[1], EmptyCond); [0 left m left_mut s set_left][1 right m right_mut s set_right])
        & parts!(2, a, Prefix::<_, _, u8>::new(a[0], 1, a[1]); [0 prefix m prefix_mut s set_prefix][1 unit m unit_mut s set_unit])
        & parts!(2, a, PrefixSync::<_, _, u8>::new(a[0], 1, a[1]); [0 prefix m prefix_mut s set_prefix][1 unit m unit_mut s set_unit])
        & parts!(1, a, Not::<_, u8>::new(a[0]); [0 unit m unit_mut s set_unit])
        & parts!(1, a, Once::<B, _, u8>::new(a[0], EmptyCond); [0 unit m unit_mut s set_unit])
        & parts!(1, a, Opt::<B, _, u8>::new(a[0], EmptyCond); [0 unit m unit_mut s set_unit])
        & parts!(1, a, Many0::<B, _, u8>::new(a[0], EmptyCond); [0 unit m unit_mut s set_unit])
        & parts!(1, a, Many1::<B, _, u8>::new(a[0], EmptyCond); [0 unit m unit_mut s set_unit])
        & parts!(1, a, Between::<1, 2, B, _>::new(a[0], EmptyCond); [0 unit m unit_mut s set_unit])
        & parts!(1, a, Times::<B, _>::new(a[0], (1..2).into(), EmptyCond); [0 unit m unit_mut s set_unit])
}
fn settings() -> bool {
    let (p, s) = (nd::u8(), nd::u8());
    let sep = ctor::Separate::<(), _, _>::new(p, s);
    let sep2 = ctor::Separate2::<(), _, _, 1, 2>::new(p, s);
    let sc = ctor::SepCollect::<(), _, _, (), ()>::new(p, s);
    let col = ctor::Collect::<(), _, (), ()>::new(p);
    let rep = ctor::Repeat::<(), _>::new(p, 1..);
    let asr = regex::assert(p, true);
    let mut all = vals!(sep, skip: bool skip (s set_skip b with_skip); min: usize min (s set_min b at_least); cap: usize capacity (s set_capacity b with_capacity););
    all &= vals!(sep2, skip: bool skip (s set_skip b with_skip););
    all &= vals!(sc, skip: bool skip (s set_skip b with_skip); min: usize min (s set_min b at_least););
    all &= vals!(col, min: usize min (s set_min b at_least););
    all &= vals!(rep, cap: usize capacity (s set_capacity b with_capacity););
    all &= vals!(asr, value: bool value (s set_value b with_value););
    all &= vals!(ctor::Array::new([p, s], nd::bool()), l: bool longest (s set_longest b with_longest););
    all &= vals!(ctor::PairArray::new([(p, s)], nd::bool()), l: bool longest (s set_longest b with_longest););
    let (one, two) = ([p, s], [(p, s)]);
    all &= vals!(ctor::Slice::new(&one, nd::bool()), l: bool longest (s set_longest b with_longest););
    all &= vals!(ctor::PairSlice::new(&two, nd::bool()), l: bool longest (s set_longest b with_longest););
    all
}
/// settings leave the parts alone and the other way round
fn together() -> bool {
    let (p, s, v) = (nd::u8(), nd::u8(), nd::u8());
    let (k, m, c) = (nd::bool(), nd::usize(), nd::usize());
    let mut o = ctor::Separate::<(), _, _>::new(p, s).with_skip(k).at_least(m).with_capacity(c);
    chk!(*o.pat() == p && *o.sep() == s, "setting a flag changed a part");
    o.set_pat(v);
    chk!(o.skip() == k && o.min() == m && o.capacity() == c && *o.sep() == s, "changing a part changed a setting");
    o.set_sep(v);
    chk!(o.skip() == k && o.min() == m && o.capacity() == c && *o.pat() == v, "changing a part changed a setting");
    let mut o = ctor::SepCollect::<(), _, _, (), ()>::new(p, s).with_skip(k).at_least(m);
    o.set_pat(v).set_sep(v);
    chk!(o.skip() == k && o.min() == m, "changing a part changed a setting");
    let mut o = ctor::Separate2::<(), _, _, 1, 2>::new(p, s).with_skip(k);
    o.set_pat(v).set_sep(v);
    chk!(o.skip() == k, "changing a part changed a setting");
    let mut o = ctor::Collect::<(), _, (), ()>::new(p).at_least(m);
    chk!(*o.pat() == p, "setting the minimum changed the pattern");
    o.set_pat(v);
    chk!(o.min() == m, "changing the pattern changed the minimum");
    let mut o = regex::assert(p, k);
    chk!(o.value() == k && *o.pat() == p, "an assertion holds what it was given");
    o.set_pat(v);
    chk!(o.value() == k, "changing the pattern changed the sense of an assertion");
    k
}
fn eqb(r: &CRange<usize>, a: usize, b: usize) -> bool {
    use core::ops::{Bound::*, RangeBounds};
    r.start_bound() == Included(&a) && r.end_bound() == Excluded(&b)
}
fn ranges() -> bool {
    let (p, a, b, d, e, cap) = (nd::u8(), nd::usize(), nd::usize(), nd::usize(), nd::usize(), nd::usize());
    let q = nd::u8();
    macro_rules! is { ($x:expr, $p:expr, $a:expr, $b:expr, $c:expr) => {{
        match $x { x =>
        chk!(*x.pat() == $p && eqb(x.range(), $a, $b) && x.capacity() == $c, "a repetition does not hold what was given, or a setter changed something else") }
    }} }
    let o = ctor::Repeat::<(), _>::new(p, a..b).with_capacity(cap);
    is!(&o, p, a, b, cap);
    is!(o.clone(), p, a, b, cap);
    is!(o.clone().set_range(d..e), p, d, e, cap);
    is!(o.clone().with_range(d..e), p, d, e, cap);
    is!(o.clone().set_capacity(e), p, a, b, e);
    is!(o.clone().with_capacity(e), p, a, b, e);
    is!(o.clone().set_pat(q), q, a, b, cap);
    is!(o.clone().with_pat(q), q, a, b, cap);
    let mut x = o.clone();
    *x.pat_mut() = q;
    is!(x, q, a, b, cap);
    is!(&o, p, a, b, cap);
    let o = Times::<B, _>::new(p, (a..b).into(), EmptyCond);
    let mut x = o.clone();
    chk!(eqb(o.range(), a, b) && eqb(x.range(), a, b), "a repetition keeps its range");
    x.set_range(d..e);
    chk!(eqb(x.range(), d, e) && eqb(o.range(), a, b) && *x.unit() == p, "setting the range of a repetition");
    *x.range_mut() = (a..e).into();
    chk!(eqb(x.range(), a, e) && *x.unit() == p, "setting the range of a repetition");
    x.set_unit(p);
    chk!(eqb(x.range(), a, e), "setting the unit changed the range");
    let r = range(a..b);
    let s = r.clone();
    chk!(eqb(&r, a, b) && eqb(&s, a, b), "a copy of a range");
    a == d
}
/// lists of alternatives: members and flags
fn lists() -> bool {
    let (p, q, v, l) = (nd::u8(), nd::u8(), nd::u8(), nd::bool());
    macro_rules! list { ($o:expr, $a:expr, $b:expr, $($w:expr)?) => {{
        let o = $o;
        let c = o.clone();
        chk!(o.longest() == l && c.longest() == l, "the kind of choice is kept");
        chk!(o.len() == 2 && o[0] == $a && o[1] == $b && c.len() == 2 && c[0] == $a && c[1] == $b, "the alternatives are kept");
        $( let mut c = o.clone(); c[0] = $w; chk!(c[0] == $w && c[1] == $b && o[0] == $a && c.longest() == l, "changing one alternative"); )?
    }} }
    list!(ctor::Array::new([p, q], l), p, q, v);
    list!(ctor::PairArray::new([(p, q), (q, p)], l), (p, q), (q, p), (v, v));
    let (one, two) = ([p, q], [(p, q), (q, p)]);
    list!(ctor::Slice::new(&one, l), p, q,);
    list!(ctor::PairSlice::new(&two, l), (p, q), (q, p),);
    l
}
fn vectors() -> bool {
    let (p, q, l) = (nd::u8(), nd::u8(), nd::bool());
    let o = ctor::Vector::new(vec![p, q], l);
    let c = o.clone();
    chk!(c.longest() == l && c.len() == 2 && c[0] == p && c[1] == q, "a copy of a vector of alternatives");
    let mut o = ctor::PairVector::new(vec![(p, q)], l);
    chk!(o.longest() == l && o.len() == 1 && o[0] == (p, q), "a vector of pairs keeps them");
    o.set_longest(!l);
    let c = o.clone().with_longest(l);
    chk!(o.longest() != l && c.longest() == l && c[0] == (p, q), "the kind of choice is kept");
    let mut x = ctor::Vector::new(vec![p], l);
    x.set_longest(!l);
    chk!(x.longest() != l && x[0] == p, "the kind of choice is set");
    let x = x.with_longest(l);
    chk!(x.longest() == l, "the kind of choice is set");
    l
}
/// contexts
fn contexts() -> bool {
    let (p, q) = (nd::u8(), nd::u8());
    let (x, y) = ([nd::u8(), nd::u8(), nd::u8()], [nd::u8(), nd::u8()]);
    let (i, j) = (nd::usize(), nd::usize());
    let c = BytesCtx::new(&x);
    chk!(c.offset() == 0 && same(c.dat(), &x), "a new context");
    let c = c.with_offset(i);
    let d = c;
    chk!(d.offset() == i && same(d.dat(), &x), "a copy of a context");
    let e = c.with_dat(&y);
    chk!(same(e.dat(), &y) && e.offset() == i && same(c.dat(), &x), "changing the data of a copy");
    let mut f = c;
    f.reset_with(&y);
    chk!(same(f.dat(), &y) && f.offset() == 0 && c.offset() == i, "reset with other data starts over");
    let mut f = c;
    f.reset();
    chk!(same(f.dat(), &x) && f.offset() == 0 && c.offset() == i, "reset starts over on the same data");
    // and with a skipped pattern
    let o = PolicyCtx::new(c, p);
    let k = o.clone();
    chk!(k.inner().offset() == i && same(k.inner().dat(), &x), "a copy of a skipping context");
    let g = o.with_inner(e.with_offset(j));
    chk!(g.inner().offset() == j && same(g.inner().dat(), &y), "changing the inner context");
    let mut g = o;
    g.set_inner(e.with_offset(j));
    chk!(g.inner().offset() == j && same(g.inner().dat(), &y), "changing the inner context");
    let mut g = o;
    g.reset_with(e.with_offset(j));
    chk!(g.inner().offset() == j && same(g.inner().dat(), &y), "changing the inner context");
    *g.inner_mut() = c;
    chk!(g.inner().offset() == i && o.with_regex(q).inner().offset() == i, "changing the inner context");
    i == j
}
fn same(a: &[u8], b: &[u8]) -> bool {
    a.as_ptr() == b.as_ptr() && a.len() == b.len()
}
/// a copy behaves alike when its parts cannot be read
macro_rules! twin {
    ($x:ident, $o:expr) => {{
        let o = $o;
        let c = o.clone();
        let (mut a, mut b) = (BytesCtx::new(&$x), BytesCtx::new(&$x));
        let (r, s) = (o.try_parse(&mut a).ok(), c.try_parse(&mut b).ok());
        chk!(r == s && a.offset() == b.offset(), "a clone matches differently");
        r.is_some()
    }};
}
fn cond_copies() -> bool {
    let x: [u8; 3] = nd::bytes();
    let (u, k) = (nd::u8(), nd::u8());
    let cond = move |_: &BytesCtx, it: &(usize, u8)| Ok::<_, neure::err::Error>(it.0 as u8 != k);
    let rc = regex_cond::<BytesCtx, _>(regex::not(k));
    twin!(x, u.once().set_cond(cond.clone()))
        & twin!(x, u.opt().set_cond(cond.clone()))
        & twin!(x, u.many0().set_cond(cond.clone()))
        & twin!(x, u.many1().set_cond(cond.clone()))
        & twin!(x, u.between::<1, 2>().set_cond(cond.clone()))
        & twin!(x, u.times(1..3).set_cond(cond.clone()))
        & twin!(x, u.then(u).set_cond(cond.clone()))
        & twin!(x, u.many1().set_cond(regex_cond::<BytesCtx, _>(regex::not(k.once()))))
        & { let _ = rc; nd::bool() }
}
fn plain_copies() -> bool {
    let x: [u8; 3] = nd::bytes();
    let (u, k, n) = ([nd::u8(), nd::u8()], nd::u8(), nd::usize());
    let r = twin!(x, regex::literal(&u[..]));
    twin!(x, regex::consume(n));
    twin!(x, regex::assert(k.once(), nd::bool()));
    twin!(x, u.not().once());
    twin!(x, NeuOp::or(u, k).once());
    twin!(x, NeuOp::and(u, k).once());
    twin!(x, equal(k).once());
    twin!(x, range(k..).once());
    r
}
fn mapper_copies() -> bool {
    let (a, b, v, d) = (nd::u8(), nd::u8(), nd::u8(), nd::u8());
    let m = map::bounded(a, b);
    let c = m.clone();
    chk!(m.try_map(v).ok() == c.try_map(v).ok(), "a clone maps differently");
    let m = map::with_default(move || d, map::bounded(a, b));
    let c = m.clone();
    chk!(m.try_map(v).ok() == c.try_map(v).ok(), "a clone maps differently");
    let r = nd::u8() as u32;
    let m = map::from_str_radix::<u8>(r);
    chk!(m.radix() == r && m.clone().radix() == r, "a clone has another radix");
    chk!(map::from_le_bytes::<u32>().size() == 4 && map::from_be_bytes::<u16>().size() == 2 && map::from_ne_bytes::<u64>().size() == 8, "the size of a decoder");
    a <= v && v < b
}
/// a part with a default of its own
#[derive(Clone, Copy, Debug)]
struct D(u8);
impl Default for D {
    fn default() -> Self {
        D(7)
    }
}
impl Neu<u8> for D {
    fn is_match(&self, x: &u8) -> bool {
        *x == self.0
    }
}
/// made by default: its parts are the parts' defaults
macro_rules! dfl {
    ($($t:ty: $($get:ident)*;)*) => { $( {
        let o = <$t>::default();
        $( chk!(o.$get().0 == 7, "a default pattern has another part than its part's default"); )*
    } )* };
}
fn defaults() -> bool {
    dfl! {
        ctor::Suffix<(), D, D>: pat suffix;
        ctor::Prefix<(), D, D>: pat prefix;
        ctor::Then<(), D, D>: left right;
        ctor::Or<(), D, D>: left right;
        ctor::LongestTokenMatch<(), D, D>: left right;
        ctor::Map<(), D, D, ()>: pat mapper;
        ctor::DynamicCtorThenBuilder<(), D, D>: pat func;
        ctor::Branch<(), D, D, D>: test pat other;
        ctor::Enclose<(), D, D, D>: pat open close;
        ctor::SepOnce<(), D, D, D>: left sep right;
        ctor::IfThen<(), D, D, D>: left test right;
        ctor::OptionPat<(), D>: pat;
        ctor::Pattern<(), D>: pat;
        ctor::Collect<(), D, (), ()>: pat;
        ctor::Repeat<(), D>: pat;
        ctor::Repeat2<(), D, 1, 2>: pat;
        ctor::Separate<(), D, D>: pat sep;
        ctor::Separate2<(), D, D, 1, 2>: pat sep;
        ctor::SepCollect<(), D, D, (), ()>: pat sep;
        ctor::Adapter<(), D>: inner;
        regex::Adapter<(), D>: inner;
        And<D, D, u8>: left right;
        Or<D, D, u8>: left right;
        Not<D, u8>: unit;
        NeureThen<B, D, D, u8, EmptyCond>: left right;
        Prefix<D, D, u8>: prefix unit;
        PrefixSync<D, D, u8>: prefix unit;
        Once<B, D, u8, EmptyCond>: unit;
        Opt<B, D, u8, EmptyCond>: unit;
        Many0<B, D, u8, EmptyCond>: unit;
        Many1<B, D, u8, EmptyCond>: unit;
    }
    let x = nd::u8();
    let v = nd::usize();
    chk!(CRange::<u8>::default().is_match(&x), "a default range contains everything");
    chk!(Always::<u8>::default().is_match(&x) && Always::<u8>::default().clone().is_match(&x), "a default always-class");
    chk!(!Never::<u8>::default().is_match(&x) && !Never::<u8>::default().clone().is_match(&x), "a default never-class");
    chk!(ctor::Repeat::<(), D>::default().range().is_match(&v), "a default repetition has no limits");
    x == 7
}
fn unit_copies() -> bool {
    let (x, c) = (nd::u8(), nd::char());
    macro_rules! both { ($($f:ident)*) => { $( {
        let (u, w) = ($f::<u8>(), $f::<char>());
        chk!(u.clone().is_match(&x) == u.is_match(&x) && w.clone().is_match(&c) == w.is_match(&c), "a clone of a class accepts other items");
    } )* } }
    both!(ascii ascii_alphabetic ascii_alphanumeric ascii_control ascii_digit ascii_graphic ascii_hexdigit ascii_lowercase ascii_punctuation ascii_uppercase ascii_whitespace word);
    macro_rules! dft { ($($f:ident $t:ident)*) => { $( {
        chk!($t::<u8>::default().is_match(&x) == $f::<u8>().is_match(&x), "a default class accepts other items");
    } )* } }
    dft!(ascii Ascii ascii_alphabetic AsciiAlphabetic ascii_alphanumeric AsciiAlphanumeric ascii_control AsciiControl ascii_digit AsciiDigit ascii_graphic AsciiGraphic ascii_hexdigit AsciiHexDigit ascii_lowercase AsciiLowercase ascii_punctuation AsciiPunctuation ascii_uppercase AsciiUppercase ascii_whitespace AsciiWhiteSpace word Word);
    chk!(Wild.clone().is_match(&c) == (c != '\n'), "a clone of a class accepts other items");
    let r = nd::below(35) as u32 + 2;
    chk!(digit(r).clone().is_match(&c) == digit(r).is_match(&c), "a clone of a class accepts other items");
    x == 7
}
fn more_mappers() -> bool {
    let b = [nd::u8(), nd::u8()];
    let s: &[u8] = &b;
    macro_rules! alike { ($t:ty, $x:expr, $y:expr; $v:expr) => {{
        let (x, y) = ($x, $y);
        let r: Option<$t> = x.try_map($v).ok();
        chk!(y.try_map($v).ok() == r && x.clone().try_map($v).ok() == r, "a copy or default maps differently");
    }} }
    alike!(u16, map::from_le_bytes::<u16>(), map::FromLeBytes::<u16>::default(); s);
    alike!(u16, map::from_be_bytes::<u16>(), map::FromBeBytes::<u16>::default(); s);
    alike!(u16, map::from_ne_bytes::<u16>(), map::FromNeBytes::<u16>::default(); s);
    alike!(u32, map::into::<u32>(), map::IntoMapper::<u32>::default(); b[0]);
    alike!(i8, map::try_into::<i8>(), map::TryIntoMapper::<i8>::default(); b[0]);
    alike!(&str, map::from_utf8::<&str>(), map::FromUtf8::<&str>::default(); s);
    let two = (b[0], b[1]);
    alike!(u8, map::select0(), map::Select0::default(); two);
    alike!(u8, map::select1(), map::Select1::default(); two);
    alike!((u8, u8), map::select_eq(), map::SelectEq::default(); two);
    alike!((u8, u8), map::select_neq(), map::SelectNeq::default(); two);
    chk!(map::FromStrRadix::<u8>::new(16).radix() == 16, "the radix given");
    b[0] == b[1]
}
hs! {
    defaults_ok [4, 4] defaults();
    unit_copies_ok [4, 4] unit_copies();
    more_mappers_ok [5, 5] more_mappers();
    ctor_two_ok [4, 4] ctor_two();
    ctor_three_ok [5, 5] ctor_three();
    ctor_one_ok [4, 4] ctor_one();
    ctor_sep_ok [4, 4] ctor_sep();
    classes_ok [4, 4] classes();
    settings_ok [4, 4] settings();
    together_ok [4, 4] together();
    ranges_ok [4, 4] ranges();
    lists_ok [4, 4] lists();
    vectors_ok [4, 4] vectors();
    contexts_ok [5, 5] contexts();
    cond_copies_ok [6, 6] cond_copies();
    plain_copies_ok [6, 6] plain_copies();
    mapper_copies_ok [4, 4] mapper_copies();
}
