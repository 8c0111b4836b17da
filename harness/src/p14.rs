//! P14 built-in character classes, over every char and every byte
use crate::nd;
use neure::neu::*;

fn r(x: u32, a: u32, b: u32) -> bool {
    a <= x && x <= b
}
fn lower(x: u32) -> bool {
    r(x, 0x61, 0x7A)
}
fn upper(x: u32) -> bool {
    r(x, 0x41, 0x5A)
}
fn dig(x: u32) -> bool {
    r(x, 0x30, 0x39)
}
fn hex(x: u32) -> bool {
    dig(x) || r(x, 0x61, 0x66) || r(x, 0x41, 0x46)
}
fn graphic(x: u32) -> bool {
    r(x, 0x21, 0x7E)
}
fn ctrl(x: u32) -> bool {
    x < 0x20 || x == 0x7F
}
/// space, tab, line feed, form feed, carriage return
fn aws(x: u32) -> bool {
    x == 0x20 || x == 9 || x == 10 || x == 12 || x == 13
}
/// Unicode White_Space
fn uws(x: u32) -> bool {
    r(x, 9, 13) || x == 0x20 || x == 0x85 || x == 0xA0 || x == 0x1680 || r(x, 0x2000, 0x200A) || x == 0x2028 || x == 0x2029
        || x == 0x202F || x == 0x205F || x == 0x3000
}
fn digit_in(x: u32, radix: u32) -> bool {
    let v = if dig(x) {
        x - 0x30
    } else if lower(x) {
        x - 0x61 + 10
    } else if upper(x) {
        x - 0x41 + 10
    } else {
        return false;
    };
    v < radix
}
fn c1(u: impl Neu<char> + Copy + core::ops::Not<Output: Neu<char>>, f: fn(u32) -> bool) -> bool {
    let c = nd::char();
    let m = u.is_match(&c);
    chk!(m == f(c as u32), "the class accepts a character it should not, or misses one");
    chk!((!u).is_match(&c) == !m, "the negated class is not the complement");
    chk!(u.min_length() <= c.len_utf8() || !m, "minimum length above the width of an accepted character");
    m
}
fn b1(u: impl Neu<u8> + Copy + core::ops::Not<Output: Neu<u8>>, f: fn(u32) -> bool) -> bool {
    let c = nd::u8();
    let m = u.is_match(&c);
    chk!(m == f(c as u32), "the class accepts a byte it should not, or misses one");
    chk!((!u).is_match(&c) == !m, "the negated class is not the complement");
    chk!(u.min_length() <= 1 || !m, "minimum length above the width of an accepted byte");
    m
}
fn uni(u: impl Neu<char> + Copy, f: fn(char) -> bool) -> bool {
    let c = nd::char();
    let m = u.is_match(&c);
    chk!(m == f(c), "the class accepts a character it should not, or misses one");
    chk!(u.min_length() <= c.len_utf8() || !m, "minimum length above the width of an accepted character");
    m
}
/// the same, leaving out (in the quick tier) the blocks whose alphabetic table is long
fn sparse(u: impl Neu<char> + Copy, f: fn(char) -> bool) -> bool {
    let c = nd::char();
    if !cfg!(feature = "thorough") {
        let x = c as u32;
        nd::assume(!r(x, 706, 9397) && !r(x, 42509, 55203) && !r(x, 66176, 74649) && !r(x, 126464, 127279));
    }
    let m = u.is_match(&c);
    chk!(m == f(c), "the class accepts a character it should not, or misses one");
    chk!(u.min_length() <= c.len_utf8() || !m, "minimum length above the width of an accepted character");
    m
}
fn radix() -> bool {
    let k = nd::u32();
    nd::assume(k >= 2 && k <= 36);
    let c = nd::char();
    let m = digit(k).is_match(&c);
    chk!(m == digit_in(c as u32, k), "digit in a radix");
    chk!(Digit::new(k).is_match(&c) == m, "digit in a radix, other constructor");
    chk!((!digit(k)).is_match(&c) == !m, "negated digit in a radix");
    chk!(digit(k).min_length() <= 1, "minimum length above the width of a digit");
    m
}
fn one_char() -> bool {
    let (a, c) = (nd::char(), nd::char());
    let want = a as u32 == c as u32;
    chk!(Neu::<char>::is_match(&a, &c) == want, "a character as a class");
    chk!(equal(a).is_match(&c) == want, "equal");
    chk!(Equal::new(a).is_match(&c) == want, "Equal::new");
    chk!((!equal(a)).is_match(&c) == !want, "negated equal");
    chk!(!want || Neu::<char>::min_length(&a) <= c.len_utf8(), "minimum length of a character");
    chk!(!want || equal(a).min_length() <= c.len_utf8(), "minimum length of equal");
    want
}
fn one_byte() -> bool {
    let (a, c) = (nd::u8(), nd::u8());
    let want = a == c;
    chk!(Neu::<u8>::is_match(&a, &c) == want, "a byte as a class");
    chk!(equal(a).is_match(&c) == want, "equal");
    chk!(Equal::new(a).is_match(&c) == want, "Equal::new");
    chk!((!equal(a)).is_match(&c) == !want, "negated equal");
    chk!(Neu::<u8>::min_length(&a) <= 1 && equal(a).min_length() <= 1, "minimum length of a byte");
    want
}
/// a closure as a class
fn closure() -> bool {
    let (t, c) = (nd::u32(), nd::char());
    let m = (|x: &char| (*x as u32) < t).is_match(&c);
    chk!(m == ((c as u32) < t), "a closure as a class decides by the closure");
    let b = nd::u8();
    chk!((|x: &u8| (*x as u32) < t).is_match(&b) == ((b as u32) < t), "a closure as a byte class decides by the closure");
    m
}
/// the negation operator of the classes with tables, on items outside the tables
fn negated() -> bool {
    let c = ['a', 'Z', '7', ' '][nd::below(4)];
    chk!((!alphabetic()).is_match(&c) == !alphabetic().is_match(&c), "negated alphabetic");
    chk!((!alphanumeric()).is_match(&c) == !alphanumeric().is_match(&c), "negated alphanumeric");
    chk!((!numeric()).is_match(&c) == !numeric().is_match(&c), "negated numeric");
    chk!((!lowercase()).is_match(&c) == !lowercase().is_match(&c), "negated lowercase");
    chk!((!uppercase()).is_match(&c) == !uppercase().is_match(&c), "negated uppercase");
    chk!(Wild::new().is_match(&c) && Always::new().is_match(&c) && !Never::new().is_match(&c), "other constructors");
    let (x, b) = (nd::char(), nd::u8());
    chk!(Word::<char>::contain_ch(&x) == word().is_match(&x), "word characters, asked directly");
    chk!(Word::<u8>::contain_u8(&b) == word().is_match(&b), "word bytes, asked directly");
    c == 'a'
}
hs! {
    negated_c [4, 4] negated();
    alphabetic_c [44, 406] sparse(alphabetic(), |c| c.is_alphabetic());
    alphanumeric_c [44, 406] sparse(alphanumeric(), |c| c.is_alphabetic() || c.is_numeric());
    numeric_c [44, 44] uni(numeric(), |c| c.is_numeric());
    lowercase_c [44, 44] uni(lowercase(), |c| c.is_lowercase());
    uppercase_c [44, 44] uni(uppercase(), |c| c.is_uppercase());
    control_c [4, 4] c1(control(), |x| x < 0x20 || r(x, 0x7F, 0x9F));
    whitespace_c [4, 4] c1(whitespace(), uws);
    wild_c [4, 4] c1(wild(), |x| x != 10);
    word_c [4, 4] c1(word(), |x| lower(x) || upper(x) || dig(x) || x == 0x5F);
    word_b [4, 4] b1(word(), |x| lower(x) || upper(x) || dig(x) || x == 0x5F);
    ascii_c [4, 4] c1(ascii(), |x| x < 128);
    ascii_b [4, 4] b1(ascii(), |x| x < 128);
    alpha_c [4, 4] c1(ascii_alphabetic(), |x| lower(x) || upper(x));
    alpha_b [4, 4] b1(ascii_alphabetic(), |x| lower(x) || upper(x));
    alnum_c [4, 4] c1(ascii_alphanumeric(), |x| lower(x) || upper(x) || dig(x));
    alnum_b [4, 4] b1(ascii_alphanumeric(), |x| lower(x) || upper(x) || dig(x));
    actrl_c [4, 4] c1(ascii_control(), ctrl);
    actrl_b [4, 4] b1(ascii_control(), ctrl);
    adigit_c [4, 4] c1(ascii_digit(), dig);
    adigit_b [4, 4] b1(ascii_digit(), dig);
    graphic_c [4, 4] c1(ascii_graphic(), graphic);
    graphic_b [4, 4] b1(ascii_graphic(), graphic);
    hex_c [4, 4] c1(ascii_hexdigit(), hex);
    hex_b [4, 4] b1(ascii_hexdigit(), hex);
    alower_c [4, 4] c1(ascii_lowercase(), lower);
    alower_b [4, 4] b1(ascii_lowercase(), lower);
    punct_c [4, 4] c1(ascii_punctuation(), |x| graphic(x) && !lower(x) && !upper(x) && !dig(x));
    punct_b [4, 4] b1(ascii_punctuation(), |x| graphic(x) && !lower(x) && !upper(x) && !dig(x));
    aupper_c [4, 4] c1(ascii_uppercase(), upper);
    aupper_b [4, 4] b1(ascii_uppercase(), upper);
    aws_c [4, 4] c1(ascii_whitespace(), aws);
    aws_b [4, 4] b1(ascii_whitespace(), aws);
    always_c [4, 4] c1(always(), |_| true) & nd::bool();
    always_b [4, 4] b1(always(), |_| true) & nd::bool();
    never_c [4, 4] c1(never(), |_| false) | nd::bool();
    never_b [4, 4] b1(never(), |_| false) | nd::bool();
    digit_radix [4, 4] radix();
    char_as_class [4, 4] one_char();
    byte_as_class [4, 4] one_byte();
    closure_as_class [4, 4] closure();
}
