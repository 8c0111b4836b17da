//! P17 value mappers
use crate::nd;
use neure::err::Error;
use neure::map::*;

/// integer encoded by the bytes, least significant first
fn le(b: &[u8], n: usize) -> u128 {
    let mut v = 0u128;
    let mut i = 0;
    while i < n {
        v |= (b[i] as u128) << (8 * i);
        i += 1;
    }
    v
}
fn be(b: &[u8], n: usize) -> u128 {
    let mut v = 0u128;
    let mut i = 0;
    while i < n {
        v |= (b[i] as u128) << (8 * (n - 1 - i));
        i += 1;
    }
    v
}
/// the bit pattern of a decoded value
trait Bits: Copy {
    const W: usize;
    fn bits(self) -> u128;
}
macro_rules! bits {
    ($($t:ty as $u:ty),*) => { $( impl Bits for $t { const W: usize = core::mem::size_of::<$t>(); fn bits(self) -> u128 { self as $u as u128 } } )* };
}
bits!(u8 as u8, i8 as u8, u16 as u16, i16 as u16, u32 as u32, i32 as u32, u64 as u64, i64 as u64, u128 as u128, i128 as u128, usize as u64, isize as u64);
impl Bits for f32 {
    const W: usize = 4;
    fn bits(self) -> u128 {
        self.to_bits() as u128
    }
}
impl Bits for f64 {
    const W: usize = 8;
    fn bits(self) -> u128 {
        self.to_bits() as u128
    }
}
fn dec<T: Bits, const K: usize>() -> bool
where
    FromLeBytes<T>: for<'a> FallibleMap<&'a [u8], T>,
    FromBeBytes<T>: for<'a> FallibleMap<&'a [u8], T>,
    FromNeBytes<T>: for<'a> FallibleMap<&'a [u8], T>,
{
    let buf = nd::bytes::<K>();
    let n = nd::below(K + 1);
    let s = &buf[..n];
    let fits = n >= T::W;
    let (l, b, e) = (from_le_bytes::<T>().try_map(s), from_be_bytes::<T>().try_map(s), from_ne_bytes::<T>().try_map(s));
    chk!(l.is_ok() == fits && b.is_ok() == fits && e.is_ok() == fits, "decoding fails exactly when too few bytes were matched");
    if fits {
        chk!(l.unwrap().bits() == le(&buf, T::W), "little-endian value");
        chk!(b.unwrap().bits() == be(&buf, T::W), "big-endian value");
        let ne = if cfg!(target_endian = "little") { le(&buf, T::W) } else { be(&buf, T::W) };
        chk!(e.unwrap().bits() == ne, "native-endian value");
    }
    chk!(from_le_bytes::<T>().size() == T::W && from_be_bytes::<T>().size() == T::W && from_ne_bytes::<T>().size() == T::W, "size");
    chk!(FallibleMap::<&[u8], T>::out_size(&from_le_bytes::<T>()) == T::W, "output size");
    fits
}
/// valid UTF-8, by the definition of the encoding (Unicode table 3-7)
fn utf8(b: &[u8], n: usize) -> bool {
    let mut i = 0;
    while i < n {
        let x = b[i];
        let c = |k: usize, lo: u8, hi: u8| i + k < n && b[i + k] >= lo && b[i + k] <= hi;
        i += match x {
            0..=0x7F => 1,
            0xC2..=0xDF if c(1, 0x80, 0xBF) => 2,
            0xE0 if c(1, 0xA0, 0xBF) && c(2, 0x80, 0xBF) => 3,
            0xE1..=0xEC | 0xEE | 0xEF if c(1, 0x80, 0xBF) && c(2, 0x80, 0xBF) => 3,
            0xED if c(1, 0x80, 0x9F) && c(2, 0x80, 0xBF) => 3,
            0xF0 if c(1, 0x90, 0xBF) && c(2, 0x80, 0xBF) && c(3, 0x80, 0xBF) => 4,
            0xF1..=0xF3 if c(1, 0x80, 0xBF) && c(2, 0x80, 0xBF) && c(3, 0x80, 0xBF) => 4,
            0xF4 if c(1, 0x80, 0x8F) && c(2, 0x80, 0xBF) && c(3, 0x80, 0xBF) => 4,
            _ => return false,
        };
    }
    true
}
fn eq(a: &[u8], b: &[u8], n: usize) -> bool {
    if a.len() != n {
        return false;
    }
    let mut i = 0;
    while i < n {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}
fn text<const K: usize>(how: usize) -> bool {
    let buf = nd::bytes::<K>();
    let s: &[u8] = &buf;
    let want = utf8(&buf, K);
    match how {
        0 => {
            let r: Result<&str, Error> = from_utf8::<&str>().try_map(s);
            chk!(r.is_ok() == want, "accepts exactly valid UTF-8");
            chk!(!want || eq(r.unwrap().as_bytes(), &buf, K), "the text is the bytes");
        }
        1 => {
            let r: Result<String, Error> = from_utf8::<String>().try_map(s);
            chk!(r.is_ok() == want, "accepts exactly valid UTF-8");
            chk!(!want || eq(r.unwrap().as_bytes(), &buf, K), "the text is the bytes");
        }
        _ => {
            let r: Result<std::borrow::Cow<str>, Error> = from_utf8_lossy::<std::borrow::Cow<str>>().try_map(s);
            chk!(r.is_ok(), "lossy decoding never fails");
            let r = r.unwrap();
            chk!(!want || eq(r.as_bytes(), &buf, K), "valid text is unchanged");
        }
    }
    want
}
/// value of K characters in the radix, with an optional sign
fn num(b: &[u8], n: usize, radix: u32, signed: bool) -> Option<i128> {
    let mut i = 0;
    let mut neg = false;
    if n > 0 && (b[0] == b'+' || (b[0] == b'-' && signed)) {
        neg = b[0] == b'-';
        i = 1;
    }
    if i == n {
        return None;
    }
    let mut v = 0i128;
    while i < n {
        let c = b[i];
        let d = match c {
            b'0'..=b'9' => c - b'0',
            b'a'..=b'z' => c - b'a' + 10,
            b'A'..=b'Z' => c - b'A' + 10,
            _ => return None,
        } as u32;
        if d >= radix {
            return None;
        }
        v = v * radix as i128 + d as i128;
        i += 1;
    }
    Some(if neg { -v } else { v })
}
fn ascii<const K: usize>() -> [u8; K] {
    let b = nd::bytes::<K>();
    let mut i = 0;
    while i < K {
        nd::assume(b[i] < 128);
        i += 1;
    }
    b
}
fn parse<T, const K: usize>(min: i128, max: i128, any_radix: bool, signed: bool) -> bool
where
    T: TryFromStrRadix + Into<i128>,
{
    let b = ascii::<K>();
    let s = unsafe { core::str::from_utf8_unchecked(&b) };
    let radix = if any_radix {
        let r = nd::u32();
        nd::assume(r >= 2 && r <= 36);
        r
    } else {
        16
    };
    let want = num(&b, K, radix, signed).filter(|v| *v >= min && *v <= max);
    let m = from_str_radix::<T>(radix);
    chk!(m.radix() == radix, "radix");
    let got: Result<T, Error> = m.try_map(s);
    match want {
        Some(v) => {
            chk!(got.is_ok(), "a number in range is rejected");
            chk!(got.ok().unwrap().into() == v, "not the value written");
        }
        None => chk!(got.is_err(), "accepts an overflow, a bad digit or nothing"),
    }
    want.is_some()
}
fn parse10<T, const K: usize>(min: i128, max: i128, signed: bool) -> bool
where
    T: core::str::FromStr + Into<i128>,
{
    let b = ascii::<K>();
    let s = unsafe { core::str::from_utf8_unchecked(&b) };
    let want = num(&b, K, 10, signed).filter(|v| *v >= min && *v <= max);
    let got: Result<T, Error> = from_str::<T>().try_map(s);
    match want {
        Some(v) => {
            chk!(got.is_ok(), "a number in range is rejected");
            chk!(got.ok().unwrap().into() == v, "not the value written");
        }
        None => chk!(got.is_err(), "accepts an overflow, a bad digit or nothing"),
    }
    want.is_some()
}
fn sel() -> bool {
    let (a, b) = (nd::u16(), nd::u16());
    chk!(matches!(select0().try_map((a, b)), Ok(x) if x == a), "the first of two");
    chk!(matches!(select1().try_map((a, b)), Ok(x) if x == b), "the second of two");
    let (c, d) = (nd::u8(), nd::i32());
    chk!(matches!(Select0::new().try_map((c, d)), Ok(x) if x == c), "the first of two, mixed types");
    chk!(matches!(Select1::new().try_map((c, d)), Ok(x) if x == d), "the second of two, mixed types");
    a == b
}
fn sel_eq() -> bool {
    let (a, b) = (nd::u16(), nd::u16());
    match select_eq().try_map((a, b)) {
        Ok((x, y)) => chk!(a == b && x == a && y == b, "passes only equal values, unchanged"),
        Err(e) => chk!(a != b && matches!(e, Error::SelectEq), "fails only on different values, with its error"),
    }
    match select_neq().try_map((a, b)) {
        Ok((x, y)) => chk!(a != b && x == a && y == b, "passes only different values, unchanged"),
        Err(e) => chk!(a == b && matches!(e, Error::SelectNeq), "fails only on equal values, with its error"),
    }
    a == b
}
fn bound() -> bool {
    let (lo, hi, v) = (nd::i32(), nd::i32(), nd::i32());
    let want = lo <= v && v < hi;
    match bounded(lo, hi).try_map(v) {
        Ok(x) => chk!(want && x == v, "passes only a value within its bounds, unchanged"),
        Err(e) => chk!(!want && matches!(e, Error::Bounded), "fails only outside the bounds, with its error"),
    }
    let (lo, hi, v) = (nd::u64(), nd::u64(), nd::u64());
    chk!(Bounded::new(lo, hi).try_map(v).is_ok() == (lo <= v && v < hi), "bounds of another type");
    want
}
/// bounds over values that need not compare with each other
fn bound_float() -> bool {
    let f = || f32::from_bits(nd::u32());
    let (lo, hi, v) = (f(), f(), f());
    let want = lo <= v && v < hi;
    match bounded(lo, hi).try_map(v) {
        Ok(x) => chk!(want && x.to_bits() == v.to_bits(), "passes only a value within its bounds, unchanged"),
        Err(e) => chk!(!want && matches!(e, Error::Bounded), "fails only outside the bounds, with its error"),
    }
    want
}
fn select_float() -> bool {
    let f = || f32::from_bits(nd::u32());
    let (a, b) = (f(), f());
    chk!(select_eq().try_map((a, b)).is_ok() == (a == b), "passes only equal values");
    chk!(select_neq().try_map((a, b)).is_ok() == (a != b), "passes only different values");
    a == b
}
fn conv() -> bool {
    let (a, b, c) = (nd::u8(), nd::u32(), nd::i64());
    chk!(matches!(into::<u32>().try_map(a), Ok(x) if x == a as u32), "conversion");
    chk!(matches!(FallibleMap::<u8, char>::try_map(&into::<char>(), a), Ok(x) if x as u32 == a as u32), "conversion to a character");
    let r: Result<u8, Error> = try_into::<u8>().try_map(b);
    match r {
        Ok(x) => chk!(b < 256 && x as u32 == b, "a fallible conversion yields the value"),
        Err(e) => chk!(b >= 256 && matches!(e, Error::TryInto), "a fallible conversion fails only when it must"),
    }
    let r: Result<u16, Error> = try_into::<u16>().try_map(c);
    chk!(r.is_ok() == (0..=65535).contains(&c), "a fallible conversion from a signed value");
    chk!(r.is_err() || r.unwrap() as i64 == c, "the converted value");
    b < 256
}
/// defaults, fixed sizes and functions
fn misc() -> bool {
    let (v, d, bad) = (nd::u32(), nd::u8(), nd::bool());
    let m = with_default(|| d, try_into::<u8>());
    let r: Result<u8, Error> = m.try_map(v);
    chk!(matches!(r, Ok(x) if x == if v < 256 { v as u8 } else { d }), "the default only when the mapper fails");
    let m2 = try_into::<u8>().with_default(|| d);
    chk!(matches!(m2.try_map(v), Ok(x) if x == if v < 256 { v as u8 } else { d }), "the default only when the mapper fails");
    chk!(FallibleMap::<u32, u8>::out_size(&m2) == 1, "the output size is the mapper's");
    let n = nd::usize();
    chk!(FallibleMap::<u32, u32>::out_size(&fixed_size(n)) == n, "fixed size");
    chk!(matches!(fixed_size(n).try_map(v), Ok(x) if x == v), "a fixed size passes the value through");
    chk!(matches!(mapper(|x: u32| x ^ 0x5555).try_map(v), Ok(x) if x == v ^ 0x5555), "a function is applied");
    let f = |x: u32| if bad { Err(Error::Uid(3)) } else { Ok(x ^ 0x3333) };
    match f.try_map(v) {
        Ok(x) => chk!(!bad && x == v ^ 0x3333, "a fallible function is applied"),
        Err(e) => chk!(bad && matches!(e, Error::Uid(3)), "the error of a fallible function"),
    }
    chk!(FallibleMap::<u32, u32>::out_size(&mapper(|x: u32| x)) == 4, "the size of the output type");
    bad
}
fn out_sizes() -> bool {
    chk!(FallibleMap::<&[u8], u64>::out_size(&from_be_bytes::<u64>()) == 8, "size of u64");
    chk!(FallibleMap::<&[u8], i16>::out_size(&from_ne_bytes::<i16>()) == 2, "size of i16");
    chk!(FallibleMap::<(u8, u32), u32>::out_size(&select1()) == 4, "size of the selected value");
    chk!(FallibleMap::<u32, u8>::out_size(&try_into::<u8>()) == 1, "size of the converted value");
    let w = with_default(|| 0u32, fixed_size(nd::usize()));
    let n = FallibleMap::<u32, u32>::out_size(&w);
    n > 5
}
/// numbers near the ends of the wide types: given digits, then two arbitrary characters
fn wide<T, const K: usize>(head: &str, radix: u32, min: i128, max: i128, signed: bool, plain: bool) -> bool
where
    T: TryFromStrRadix + core::str::FromStr + TryInto<i128>,
{
    let mut b = [0u8; K];
    let mut i = 0;
    while i < K {
        b[i] = if i < head.len() { head.as_bytes()[i] } else { nd::u8() };
        nd::assume(b[i] < 128);
        i += 1;
    }
    let s = unsafe { core::str::from_utf8_unchecked(&b) };
    let want = num(&b, K, radix, signed).filter(|v| *v >= min && *v <= max);
    let got: Result<T, Error> = if plain { from_str::<T>().try_map(s) } else { from_str_radix::<T>(radix).try_map(s) };
    match want {
        Some(v) => {
            chk!(got.is_ok(), "a number in range is rejected");
            chk!(matches!(got.ok().unwrap().try_into(), Ok(x) if x == v), "not the value written");
        }
        None => chk!(got.is_err(), "accepts an overflow, a bad digit or nothing"),
    }
    want.is_some()
}
hs! {
    wide_u32 [24, 24] wide::<u32, 10>("42949672", 10, 0, u32::MAX as i128, false, false);
    wide_i32 [24, 24] wide::<i32, 11>("-21474836", 10, i32::MIN as i128, i32::MAX as i128, true, false);
    wide_u64 [24, 24] wide::<u64, 20>("184467440737095516", 10, 0, u64::MAX as i128, false, false);
    wide_i64 [24, 24] wide::<i64, 19>("92233720368547758", 10, i64::MIN as i128, i64::MAX as i128, true, false);
    wide_usize [24, 24] wide::<usize, 16>("ffffffffffffff", 16, 0, usize::MAX as i128, false, false);
    wide_isize [24, 24] wide::<isize, 17>("-7fffffffffffff", 16, isize::MIN as i128, isize::MAX as i128, true, false);
    wide_zeros [24, 24] wide::<u8, 14>("000000000002", 10, 0, 255, false, false);
    wide_plain_u64 [24, 24] wide::<u64, 20>("184467440737095516", 10, 0, u64::MAX as i128, false, true);
    wide_plain_i32 [24, 24] wide::<i32, 11>("-21474836", 10, i32::MIN as i128, i32::MAX as i128, true, true);
    dec_u8 [6, 6] dec::<u8, 2>();
    dec_i8 [6, 6] dec::<i8, 2>();
    dec_u16 [6, 6] dec::<u16, 5>();
    dec_i16 [6, 6] dec::<i16, 5>();
    dec_u32 [9, 9] dec::<u32, 9>();
    dec_i32 [9, 9] dec::<i32, 9>();
    dec_u64 [10, 10] dec::<u64, 9>();
    dec_i64 [10, 10] dec::<i64, 9>();
    dec_u128 [18, 18] dec::<u128, 17>();
    dec_i128 [18, 18] dec::<i128, 17>();
    dec_usize [10, 10] dec::<usize, 9>();
    dec_isize [10, 10] dec::<isize, 9>();
    dec_f32 [6, 6] dec::<f32, 5>();
    dec_f64 [10, 10] dec::<f64, 9>();
    str_0 [4, 4] text::<0>(0) & nd::bool();
    str_1 [4, 4] text::<1>(0);
    str_2 [4, 4] text::<2>(0);
    str_3 [5, 5] text::<3>(0);
    str_4 [6, 6] text::<4>(0);
    string_2 [6, 6] text::<2>(1);
    string_4 [6, 6] text::<4>(1);
    lossy [6, 6] text::<{ if cfg!(feature = "thorough") { 2 } else { 1 } }>(2);
    radix_u8_1 [5, 5] parse::<u8, 1>(0, 255, true, false);
    radix_u8_2 [5, 5] parse::<u8, 2>(0, 255, true, false);
    radix_u8_3 [5, 5] parse::<u8, 3>(0, 255, true, false);
    radix_i8_3 [5, 5] parse::<i8, 3>(-128, 127, true, true);
    radix_u16_5 [8, 8] parse::<u16, 5>(0, 65535, false, false);
    radix_i16_5 [8, 8] parse::<i16, 5>(-32768, 32767, false, true);
    radix_u32_3 [6, 6] parse::<u32, 3>(0, u32::MAX as i128, true, false);
    radix_i32_3 [6, 6] parse::<i32, 3>(i32::MIN as i128, i32::MAX as i128, true, true);
    radix_u64_3 [6, 6] parse::<u64, 3>(0, u64::MAX as i128, true, false);
    radix_i64_3 [6, 6] parse::<i64, 3>(i64::MIN as i128, i64::MAX as i128, true, true);
    dec10_u8 [6, 6] parse10::<u8, 3>(0, 255, false);
    dec10_i8 [6, 6] parse10::<i8, 4>(-128, 127, true);
    select [2, 2] sel();
    select_equal [2, 2] sel_eq();
    bounds [2, 2] bound();
    bounds_float [2, 2] bound_float();
    selects_float [2, 2] select_float();
    conversions [2, 2] conv();
    defaults [2, 2] misc();
    sizes [2, 2] out_sizes();
}
