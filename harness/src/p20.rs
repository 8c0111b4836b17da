//! P20 prefix classes
use crate::long::L as LL;
use crate::nd;
use crate::text::*;
use neure::ctx::*;
use neure::neu::*;

/// shows per item: bit 0 = the prefix class accepts it, bit 1 = the main class does
#[derive(Clone, Copy, Debug, Default)]
struct Bit<const B: u32>;
impl<const B: u32> Neu<u8> for Bit<B> {
    fn is_match(&self, x: &u8) -> bool {
        (*x >> B) & 1 == 1
    }
}
impl<const B: u32> Neu<char> for Bit<B> {
    fn is_match(&self, x: &char) -> bool {
        (*x as u32 >> B) & 1 == 1
    }
}
/// the definition
#[derive(Clone, Copy)]
pub struct Mdl {
    pub n: usize,
    pub ok: bool,
}
impl Mdl {
    pub fn step(&mut self, p: bool, u: bool) -> bool {
        if !self.ok {
            return false;
        }
        if self.n > 0 {
            self.n -= 1;
            self.ok = p;
            p
        } else {
            u
        }
    }
    fn show(&mut self, x: u8) -> bool {
        self.step(x & 1 == 1, x >> 1 & 1 == 1)
    }
}
#[cfg(not(feature = "thorough"))]
const L: usize = 5;
#[cfg(feature = "thorough")]
const L: usize = 8;

/// A history of items shown to the class and to a copy taken at any moment, in any order.
fn hist<P: Neu<u8> + Clone>(p: P, n: usize) -> bool {
    let mut m = Mdl { n, ok: true };
    let k = nd::below(L + 1);
    let mut copy: Option<(P, Mdl)> = None;
    let mut last = false;
    let mut i = 0;
    while i < L {
        if i == k {
            copy = Some((p.clone(), m));
        }
        let (x, on_copy) = (nd::u8(), nd::bool());
        match &mut copy {
            Some((q, w)) if on_copy => {
                last = w.show(x);
                chk!(q.is_match(&x) == last, "a copy of a prefix class accepts the wrong items");
            }
            _ => {
                last = m.show(x);
                chk!(p.is_match(&x) == last, "a prefix class accepts the wrong items");
            }
        }
        chk!(Neu::<u8>::min_length(&p) <= 1, "promises more than the width of an item it accepts");
        i += 1;
    }
    last
}
/// the same over characters
fn hist_c<P: Neu<char>>(p: P, n: usize) -> bool {
    let mut m = Mdl { n, ok: true };
    let mut last = false;
    let mut i = 0;
    while i < L - 1 {
        let x = nd::char();
        last = m.show(x as u32 as u8);
        chk!(p.is_match(&x) == last, "a prefix class accepts the wrong items");
        chk!(!last || Neu::<char>::min_length(&p) <= x.len_utf8(), "promises more than the width of an item it accepts");
        i += 1;
    }
    last
}
/// short prefixes, and any length at all
fn len() -> usize {
    if nd::bool() { nd::below(4) } else { nd::usize() }
}
/// the classes are replaced, not the progress through the prefix
macro_rules! setters {
    ($p:expr, $n:expr) => {{
        let (n, mut p) = ($n, $p);
        let mut m = Mdl { n, ok: true };
        let x = nd::u8();
        chk!(p.is_match(&x) == m.show(x), "a prefix class accepts the wrong items");
        // from here on the two classes accept the opposite


        let (a, b) = (*p.prefix(), *p.unit());
        p.set_prefix(Flip { bit: a.bit, neg: true }).set_unit(Flip { bit: b.bit, neg: true });
        chk!(p.prefix().neg && p.unit().neg, "set_prefix or set_unit stored something else");
        let y = nd::u8();
        let mut ok = m.show(!y);
        chk!(p.is_match(&y) == ok, "a replaced class is not the one used");
        p.prefix_mut().neg = false;
        p.unit_mut().neg = false;
        let z = nd::u8();
        ok = m.show(z);
        chk!(p.is_match(&z) == ok, "a replaced class is not the one used");
        ok
    }};
}
#[derive(Clone, Copy, Debug)]
struct Flip {
    bit: u32,
    neg: bool,
}
impl Neu<u8> for Flip {
    fn is_match(&self, x: &u8) -> bool {
        ((*x >> self.bit) & 1 == 1) != self.neg
    }
}
fn fl(bit: u32) -> Flip {
    Flip { bit, neg: false }
}
/// In a pattern: two runs over the input with the same class, the second going on
/// where the first left the class.
fn runs<P>(p: P, n: usize) -> bool
where
    P: Neu<u8>,
{
    let src = Bytes::<4>::any();
    let mut m = Mdl { n, ok: true };
    let pat = Many0::<BytesCtx, _, u8>::new(p, EmptyCond);
    let mut ctx = BytesCtx::new(src.get());
    let mut at = 0;
    let mut round = 0;
    while round < 2 {
        let mut e = at;
        while e < src.n() && m.show(src.item(e)) {
            e += 1;
        }
        let r = ctx.try_mat(&pat);
        chk!(r.is_ok(), "zero or more of a prefix class failed");
        chk!(ctx.offset() == e, "a run of a prefix class has the wrong end");
        at = e;
        round += 1;
    }
    at > 1
}
fn shared(sync: bool) -> bool {
    // a copy made before any item is as good as a new one, so a class used for several runs from a fresh copy each time
    let n = nd::below(3);
    let x = [nd::u8(), nd::u8(), nd::u8()];
    let mut ok = false;
    let mut round = 0;
    if sync {
        let p = prefix_sync_cnt(Bit::<0>, n, Bit::<1>);
        while round < 2 {
            let (q, mut m) = (p.clone(), Mdl { n, ok: true });
            let mut i = 0;
            while i < 3 {
                ok = m.show(x[i]);
                chk!(q.is_match(&x[i]) == ok, "a fresh copy does not start afresh");
                i += 1;
            }
            round += 1;
        }
    } else {
        let p = prefix_cnt(Bit::<0>, n, Bit::<1>);
        while round < 2 {
            let (q, mut m) = (p.clone(), Mdl { n, ok: true });
            let mut i = 0;
            while i < 3 {
                ok = m.show(x[i]);
                chk!(q.is_match(&x[i]) == ok, "a fresh copy does not start afresh");
                i += 1;
            }
            round += 1;
        }
    }
    ok
}
/// a long prefix, and many items
fn long<P: Neu<u8> + Clone>(p: P, n: usize) -> bool {
    let mut m = Mdl { n, ok: true };
    let mut last = false;
    let mut i = 0;
    while i < LL {
        let x = nd::u8();
        last = m.show(x);
        chk!(p.is_match(&x) == last, "a prefix class accepts the wrong items (long input)");
        i += 1;
    }
    let q = p.clone();
    let x = nd::u8();
    chk!(q.is_match(&x) == m.show(x), "a late copy accepts the wrong items");
    last
}
hs! {
    long_cell [23, 43] { let n = nd::below(LL + 2); long(prefix_cnt(Bit::<0>, n, Bit::<1>), n) };
    long_sync [23, 43] { let n = nd::below(LL + 2); long(prefix_sync_cnt(Bit::<0>, n, Bit::<1>), n) };
    cell_cnt [7, 10] { let n = len(); hist(prefix_cnt(Bit::<0>, n, Bit::<1>), n) };
    sync_cnt [7, 10] { let n = len(); hist(prefix_sync_cnt(Bit::<0>, n, Bit::<1>), n) };
    cell_one [7, 10] hist(prefix(Bit::<0>, Bit::<1>), 1);
    sync_one [7, 10] hist(prefix_sync(Bit::<0>, Bit::<1>), 1);
    cell_new [7, 10] { let n = len(); hist(Prefix::new(Bit::<0>, n, Bit::<1>), n) };
    sync_new [7, 10] { let n = len(); hist(PrefixSync::new(Bit::<0>, n, Bit::<1>), n) };
    cell_default [7, 10] hist(Prefix::<Bit<1>, Bit<0>, u8>::default(), 0);
    sync_default [7, 10] hist(PrefixSync::<Bit<1>, Bit<0>, u8>::default(), 0);
    cell_char [7, 10] { let n = len(); hist_c(prefix_cnt(Bit::<0>, n, Bit::<1>), n) };
    sync_char [7, 10] { let n = len(); hist_c(prefix_sync_cnt(Bit::<0>, n, Bit::<1>), n) };
    cell_set [7, 10] { let n = len(); setters!(prefix_cnt::<u8, _, _>(fl(0), n, fl(1)), n) };
    sync_set [7, 10] { let n = len(); setters!(prefix_sync_cnt::<u8, _, _>(fl(0), n, fl(1)), n) };
    cell_runs [7, 10] { let n = len(); runs(prefix_cnt(Bit::<0>, n, Bit::<1>), n) };
    sync_runs [7, 10] { let n = len(); runs(prefix_sync_cnt(Bit::<0>, n, Bit::<1>), n) };
    cell_fresh [7, 10] shared(false);
    sync_fresh [7, 10] shared(true);
}
