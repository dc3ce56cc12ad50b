//! An abstract input of items with arbitrary byte widths (1 to 4, like characters), an abstract
//! unit and an abstract condition over its items.
use neure::ctx::{Context, Match};
use neure::err::Error;
use neure::neu::Neu;
use neure::regex::Regex;
use neure::span::Span;

#[cfg(not(feature = "thorough"))]
pub const NI: usize = 3;
#[cfg(feature = "thorough")]
pub const NI: usize = 5;

/// `n` items behind a prefix of `beg` bytes; item `i` begins at `pos(i)` and is `w[i]` wide
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct IC {
    pub beg: usize,
    pub n: usize,
    pub w: [u8; NI],
    pub off: usize,
}
#[derive(Clone, Copy, Debug)]
pub struct Items {
    c: IC,
    i: usize,
    from: usize,
}
impl Iterator for Items {
    type Item = (usize, u8);
    fn next(&mut self) -> Option<(usize, u8)> {
        if self.i < self.c.n {
            let i = self.i;
            self.i += 1;
            Some((self.c.pos(i) - self.from, i as u8))
        } else {
            None
        }
    }
}
impl IC {
    pub fn any() -> Self {
        kani::cover!(true, "BOUND: at most 3 (thorough: 5) items of input");
        let mut w = [0u8; NI];
        let mut i = 0;
        while i < NI {
            w[i] = (kani::any::<u8>() & 3) + 1;
            i += 1;
        }
        let n = (kani::any::<u8>() & 7) as usize;
        kani::assume(n <= NI);
        let beg = (kani::any::<u8>() & 3) as usize;
        IC { beg, n, w, off: beg }
    }
    /// byte position of item `i`
    pub fn pos(&self, i: usize) -> usize {
        let mut p = self.beg;
        let mut k = 0;
        while k < NI {
            if k < i {
                p += self.w[k] as usize;
            }
            k += 1;
        }
        p
    }
    /// index of the item at byte position `off`
    pub fn index(&self, off: usize) -> Option<usize> {
        let mut k = 0;
        while k <= NI {
            if k <= self.n && self.pos(k) == off {
                return Some(k);
            }
            k += 1;
        }
        None
    }
}
impl<'a> Context<'a> for IC {
    type Orig<'b> = Span;
    type Item = u8;
    type Iter<'b> = Items;
    fn len(&self) -> usize {
        self.pos(self.n)
    }
    fn offset(&self) -> usize {
        self.off
    }
    fn set_offset(&mut self, offset: usize) -> &mut Self {
        self.off = offset;
        self
    }
    fn inc(&mut self, offset: usize) -> &mut Self {
        self.off += offset;
        self
    }
    fn dec(&mut self, offset: usize) -> &mut Self {
        self.off -= offset;
        self
    }
    fn peek_at(&self, offset: usize) -> Result<Items, Error> {
        match self.index(offset) {
            Some(i) => Ok(Items { c: *self, i, from: offset }),
            None => Err(Error::OutOfBound),
        }
    }
    fn orig_sub(&self, offset: usize, len: usize) -> Result<Span, Error> {
        if self.index(offset).is_some() && offset.checked_add(len).is_some_and(|e| self.index(e).is_some()) {
            Ok(Span::new(offset, len))
        } else {
            Err(Error::OutOfBound)
        }
    }
    fn clone_at(&self, offset: usize) -> Result<Self, Error> {
        if self.index(offset).is_some() { Ok(IC { off: offset, ..*self }) } else { Err(Error::OutOfBound) }
    }
}
impl<'a> Match<'a> for IC {
    fn try_mat<Pat>(&mut self, pat: &Pat) -> Result<Span, Error>
    where
        Pat: Regex<Self> + ?Sized,
    {
        pat.try_parse(self)
    }
}

/// any set of items, with any declared minimum width that its items respect
#[derive(Clone, Copy)]
pub struct U {
    pub acc: [bool; NI],
    pub min: usize,
}
impl U {
    pub fn any(c: &IC) -> Self {
        let mut acc = [false; NI];
        let min = (kani::any::<u8>() & 7) as usize;
        let mut i = 0;
        while i < NI {
            acc[i] = kani::any();
            kani::assume(!acc[i] || min <= c.w[i] as usize);
            i += 1;
        }
        U { acc, min }
    }
}
impl Neu<u8> for U {
    fn is_match(&self, other: &u8) -> bool {
        self.acc[*other as usize]
    }
    fn min_length(&self) -> usize {
        self.min
    }
}

/// any condition: per item reject (0), accept (1) or error (2)
#[derive(Clone, Copy)]
pub struct Cd {
    pub t: [u8; NI],
}
impl Cd {
    pub fn any() -> Self {
        let mut t = [0; NI];
        let mut i = 0;
        while i < NI {
            t[i] = kani::any::<u8>() & 3;
            kani::assume(t[i] < 3);
            i += 1;
        }
        Cd { t }
    }
    pub fn yes() -> Self {
        Cd { t: [1; NI] }
    }
    /// the condition as the user writes it; checks what it is called with
    pub fn get(self, c0: IC) -> impl Fn(&IC, &(usize, u8)) -> Result<bool, Error> + Copy {
        move |c: &IC, it: &(usize, u8)| {
            let i = it.1 as usize;
            assert!(c.off == c0.off, "condition checked with a moved context");
            assert!(c0.off + it.0 == c0.pos(i), "condition given the wrong item position");
            match self.t[i] {
                0 => Ok(false),
                1 => Ok(true),
                _ => Err(Error::Uid(5)),
            }
        }
    }
}

/// the maximal run of accepted items from the position, at most `max`:
/// Ok(count), or Err if the condition fails with an error on the way
pub fn run(c: &IC, u: &U, d: &Cd, max: Option<usize>) -> Result<usize, ()> {
    let mut k = 0;
    while k < c.n && (max.is_none() || k < max.unwrap()) {
        if !u.acc[k] {
            break;
        }
        match d.t[k] {
            0 => break,
            1 => {}
            _ => return Err(()),
        }
        k += 1;
    }
    Ok(k)
}
