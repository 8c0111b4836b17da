//! Non-deterministic inputs.  Under Kani every call is a fresh symbolic value;
//! natively the values come from a recorded counterexample, in order.

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    thread_local! { static Q: RefCell<VecDeque<Vec<u8>>> = const { RefCell::new(VecDeque::new()) }; }
    pub fn load(v: Vec<Vec<u8>>) {
        Q.with(|q| *q.borrow_mut() = v.into());
    }
    pub fn take<const K: usize>() -> [u8; K] {
        Q.with(|q| match q.borrow_mut().pop_front() {
            Some(v) => {
                assert_eq!(v.len(), K, "REPLAY-DESYNC");
                v.try_into().unwrap()
            }
            None => [0; K],
        })
    }
}
#[cfg(not(kani))]
pub use imp::load;
#[cfg(kani)]
pub fn load(_: Vec<Vec<u8>>) {}

macro_rules! prim {
    ($($n:ident: $t:ty),*) => { $(
        #[cfg(kani)]
        #[inline(always)]
        pub fn $n() -> $t { kani::any() }
        #[cfg(not(kani))]
        pub fn $n() -> $t { <$t>::from_le_bytes(imp::take::<{ core::mem::size_of::<$t>() }>()) }
    )* };
}
prim!(u8: u8, u16: u16, u32: u32, u64: u64, i8: i8, i16: i16, i32: i32, i64: i64, u128: u128, i128: i128, isize: isize, usize: usize);

#[inline(always)]
pub fn bool() -> bool {
    u8() & 1 == 1
}
/// any Unicode scalar value
#[inline(always)]
pub fn char() -> char {
    let v = u32();
    assume(v <= 0x10FFFF && !(v >= 0xD800 && v <= 0xDFFF));
    unsafe { core::char::from_u32_unchecked(v) }
}
#[inline(always)]
pub fn below(n: usize) -> usize {
    let v = u8() as usize;
    assume(v < n);
    v
}
pub fn bytes<const K: usize>() -> [u8; K] {
    let mut a = [0u8; K];
    let mut i = 0;
    while i < K {
        a[i] = u8();
        i += 1;
    }
    a
}

#[inline(always)]
pub fn assume(b: bool) {
    #[cfg(kani)]
    kani::assume(b);
    #[cfg(not(kani))]
    if !b {
        println!("REPLAY-ASSUME-FALSE");
        std::process::exit(3);
    }
}

#[macro_export]
macro_rules! cov {
    ($c:expr, $m:literal) => {{
        #[cfg(kani)]
        kani::cover!($c, $m);
        #[cfg(not(kani))]
        {
            let _ = $c;
        }
    }};
}
#[macro_export]
macro_rules! chk {
    ($c:expr, $m:literal) => {
        assert!($c, $m)
    };
}
/// What counting the characters of a text means; stands in for the standard library's
/// word-at-a-time version, which is out of the solver's reach.
pub fn count_chars(s: &str) -> usize {
    let b = s.as_bytes();
    let (mut n, mut i) = (0, 0);
    while i < b.len() {
        if b[i] & 0xC0 != 0x80 {
            n += 1;
        }
        i += 1;
    }
    n
}
/// Declares the harnesses of a module: `name [quick unwind, thorough unwind] { body }`.
#[macro_export]
macro_rules! harnesses {
    ($( $(#[$at:meta])* $name:ident [$q:literal, $t:literal] $body:block )*) => {
        $(
            $(#[$at])*
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::stub(core::str::count::count_chars, $crate::nd::count_chars))]
            #[cfg_attr(all(kani, not(feature = "thorough")), kani::unwind($q))]
            #[cfg_attr(all(kani, feature = "thorough"), kani::unwind($t))]
            pub fn $name() {
                { $body };
                $crate::cov!(true, "harness end reached");
            }
        )*
        pub static REG: &[(&str, fn())] = &[ $( (stringify!($name), $name as fn()) ),* ];
    };
}
