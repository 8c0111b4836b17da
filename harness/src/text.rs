//! Symbolic inputs for the crate's own contexts: byte strings of any length up
//! to a bound, and texts of any characters (so any UTF-8 widths) up to a bound.
use crate::nd;

/// An input as a list of items: item i is at `pos[i]`, item n would start at `len`.
pub trait Src {
    type Item: Copy + PartialEq;
    fn n(&self) -> usize;
    fn pos(&self, i: usize) -> usize;
    fn item(&self, i: usize) -> Self::Item;
    fn len(&self) -> usize {
        self.pos(self.n())
    }
    /// index of the item at this byte position (n at the end)
    fn at(&self, p: usize) -> Option<usize> {
        let mut i = 0;
        while i <= self.n() {
            if self.pos(i) == p {
                return Some(i);
            }
            i += 1;
        }
        None
    }
}

pub struct Bytes<const K: usize> {
    pub buf: [u8; K],
    pub n: usize,
}
impl<const K: usize> Bytes<K> {
    pub fn any() -> Self {
        Bytes { buf: nd::bytes::<K>(), n: nd::below(K + 1) }
    }
    pub fn get(&self) -> &[u8] {
        &self.buf[..self.n]
    }
}
impl<const K: usize> Src for Bytes<K> {
    type Item = u8;
    fn n(&self) -> usize {
        self.n
    }
    fn pos(&self, i: usize) -> usize {
        i
    }
    fn item(&self, i: usize) -> u8 {
        self.buf[i]
    }
}

/// up to K characters in a buffer of B = 4 K bytes
pub struct Text<const K: usize, const B: usize> {
    pub buf: [u8; B],
    pub ch: [char; K],
    pub beg: [usize; 8],
    pub n: usize,
}
impl<const K: usize, const B: usize> Text<K, B> {
    /// any text of up to K characters
    pub fn any() -> Self {
        let n = nd::below(K + 1);
        Self::of(n)
    }
    pub fn of(n: usize) -> Self {
        let mut t = Text { buf: [0; B], ch: ['\0'; K], beg: [0; 8], n };
        let mut p = 0;
        let mut i = 0;
        while i < K {
            let c = nd::char();
            t.ch[i] = c;
            t.beg[i] = p;
            p = put(&mut t.buf, p, c);
            i += 1;
        }
        t.beg[K] = p;
        t
    }
    pub fn get(&self) -> &str {
        unsafe { core::str::from_utf8_unchecked(&self.buf[..self.beg[self.n]]) }
    }
}
/// writes the UTF-8 encoding of c
#[inline(always)]
pub fn put<const B: usize>(b: &mut [u8; B], p: usize, c: char) -> usize {
    let v = c as u32;
    if v < 0x80 {
        b[p] = v as u8;
        p + 1
    } else if v < 0x800 {
        b[p] = 0xC0 | (v >> 6) as u8;
        b[p + 1] = 0x80 | (v & 0x3F) as u8;
        p + 2
    } else if v < 0x10000 {
        b[p] = 0xE0 | (v >> 12) as u8;
        b[p + 1] = 0x80 | ((v >> 6) & 0x3F) as u8;
        b[p + 2] = 0x80 | (v & 0x3F) as u8;
        p + 3
    } else {
        b[p] = 0xF0 | (v >> 18) as u8;
        b[p + 1] = 0x80 | ((v >> 12) & 0x3F) as u8;
        b[p + 2] = 0x80 | ((v >> 6) & 0x3F) as u8;
        b[p + 3] = 0x80 | (v & 0x3F) as u8;
        p + 4
    }
}
impl<const K: usize, const B: usize> Src for Text<K, B> {
    type Item = char;
    fn n(&self) -> usize {
        self.n
    }
    fn pos(&self, i: usize) -> usize {
        self.beg[i]
    }
    fn item(&self, i: usize) -> char {
        self.ch[i]
    }
}

/// K characters of the given UTF-8 widths: symbolic content, concrete layout
pub struct Lay<const K: usize> {
    pub buf: [u8; 16],
    pub ch: [char; K],
    pub beg: [usize; 8],
}
impl<const K: usize> Lay<K> {
    pub fn of(widths: [usize; K]) -> Self {
        let mut t = Lay { buf: [0; 16], ch: ['\0'; K], beg: [0; 8] };
        let mut i = 0;
        while i < K {
            let c = nd::char();
            nd::assume(c.len_utf8() == widths[i]);
            let v = c as u32;
            let (b, p) = (&mut t.buf, t.beg[i]);
            match widths[i] {
                1 => b[p] = v as u8,
                2 => {
                    b[p] = 0xC0 | (v >> 6) as u8;
                    b[p + 1] = 0x80 | (v & 0x3F) as u8;
                }
                3 => {
                    b[p] = 0xE0 | (v >> 12) as u8;
                    b[p + 1] = 0x80 | ((v >> 6) & 0x3F) as u8;
                    b[p + 2] = 0x80 | (v & 0x3F) as u8;
                }
                _ => {
                    b[p] = 0xF0 | (v >> 18) as u8;
                    b[p + 1] = 0x80 | ((v >> 12) & 0x3F) as u8;
                    b[p + 2] = 0x80 | ((v >> 6) & 0x3F) as u8;
                    b[p + 3] = 0x80 | (v & 0x3F) as u8;
                }
            }
            t.ch[i] = c;
            t.beg[i + 1] = p + widths[i];
            i += 1;
        }
        t
    }
    pub fn get(&self) -> &str {
        unsafe { core::str::from_utf8_unchecked(&self.buf[..self.beg[K]]) }
    }
}
impl<const K: usize> Src for Lay<K> {
    type Item = char;
    fn n(&self) -> usize {
        K
    }
    fn pos(&self, i: usize) -> usize {
        self.beg[i]
    }
    fn item(&self, i: usize) -> char {
        self.ch[i]
    }
}
