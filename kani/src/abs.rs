//! The contract side of the assume/guarantee proofs.
//!
//! * [`AC`] is an abstract parsing context: any length, any position (full machine range,
//!   bounded only by `isize::MAX` as every Rust slice is).
//! * [`Orc`] is an abstract sub-pattern known only through its contract: a pure function of the
//!   position that either fails and leaves the position alone, or succeeds, advances by `n`
//!   units with `position + n <= length`, and reports `Span { beg: position, len: n }`.
//!   The function itself is uninterpreted: each new position gets a fresh symbolic answer, a
//!   repeated position gets the same answer, so specifications can consult the same function.
use core::cell::Cell;
use neure::ctor::{Ctor, Handler};
use neure::ctx::{Context, Match};
use neure::err::Error;
use neure::regex::Regex;
use neure::span::Span;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct AC {
    pub len: usize,
    pub off: usize,
}

#[derive(Clone, Copy, Debug)]
pub struct NoIter;
impl Iterator for NoIter {
    type Item = (usize, u8);
    fn next(&mut self) -> Option<(usize, u8)> {
        None
    }
}

pub const MAXLEN: usize = isize::MAX as usize;

impl AC {
    /// any context whose position is inside the input
    pub fn any() -> Self {
        let len: usize = kani::any();
        let off: usize = kani::any();
        kani::assume(len <= MAXLEN && off <= len);
        AC { len, off }
    }
    /// any short context: position below 4 and at most `rem` (< 8) units left after it.
    /// Built from small numbers so that the solver sees constant high bits.
    pub fn any_rem(rem: usize) -> Self {
        let off = (kani::any::<u8>() & 3) as usize;
        let left = (kani::any::<u8>() & 7) as usize;
        kani::assume(left <= rem);
        kani::cover!(true, "BOUND: short input, at most 3 (thorough: 5) units after the position");
        AC { len: off + left, off }
    }
}

impl<'a> Context<'a> for AC {
    type Orig<'b> = Span;
    type Item = u8;
    type Iter<'b> = NoIter;

    fn len(&self) -> usize {
        self.len
    }
    fn offset(&self) -> usize {
        self.off
    }
    fn set_offset(&mut self, offset: usize) -> &mut Self {
        self.off = offset;
        self
    }
    fn inc(&mut self, offset: usize) -> &mut Self {
        self.off += offset;
        self
    }
    fn dec(&mut self, offset: usize) -> &mut Self {
        self.off -= offset;
        self
    }
    fn peek_at(&self, offset: usize) -> Result<NoIter, Error> {
        if offset <= self.len { Ok(NoIter) } else { Err(Error::OutOfBound) }
    }
    fn orig_sub(&self, offset: usize, len: usize) -> Result<Span, Error> {
        if offset <= self.len && len <= self.len - offset {
            Ok(Span::new(offset, len))
        } else {
            Err(Error::OutOfBound)
        }
    }
    fn clone_at(&self, offset: usize) -> Result<Self, Error> {
        Ok(AC { len: self.len, off: offset })
    }
}

impl<'a> Match<'a> for AC {
    fn try_mat<Pat>(&mut self, pat: &Pat) -> Result<Span, Error>
    where
        Pat: Regex<Self> + ?Sized,
    {
        pat.try_parse(self)
    }
}

/// marks a contract that is checked for three alternatives only
pub fn alts<T>(t: T) -> T {
    kani::cover!(true, "BOUND: three alternatives");
    t
}

/// Value produced by an abstract constructor: who produced it and from which range.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct V {
    pub id: u8,
    pub beg: usize,
    pub len: usize,
}

pub const CAP: usize = 12;

/// Uninterpreted partial function `position -> consumed units`.
pub struct Orc {
    pub id: u8,
    cap: usize,
    /// smallest number of units a success consumes
    min: usize,
    n: Cell<usize>,
    key: [Cell<usize>; CAP],
    /// usize::MAX encodes failure
    val: [Cell<usize>; CAP],
    /// a failing construction may leave the position anywhere in the input
    sloppy: bool,
    /// dense form: one answer per position of a short input, `val[i]` for position `base + i`
    dense: usize,
    base: usize,
    dok: [Cell<bool>; CAP],
    dn: [Cell<u8>; CAP],
}

pub const FAILED: usize = usize::MAX;

impl Orc {
    /// a pattern that must not be run
    pub const fn never() -> Self {
        Self::new(9, 0, 0)
    }
    pub const fn new(id: u8, cap: usize, min: usize) -> Self {
        assert!(cap <= CAP);
        Orc {
            id,
            cap,
            min,
            n: Cell::new(0),
            key: [const { Cell::new(0) }; CAP],
            val: [const { Cell::new(0) }; CAP],
            sloppy: false,
            dense: 0,
            base: 0,
            dok: [const { Cell::new(false) }; CAP],
            dn: [const { Cell::new(0) }; CAP],
        }
    }
    /// any function on the positions of `c` (at most `rem` units remaining)
    pub fn dense(id: u8, c: &AC, rem: usize, min: usize) -> Self {
        assert!(rem < CAP);
        let o = Orc { dense: rem + 1, base: c.off, ..Self::new(id, 0, min) };
        let left = c.len - c.off;
        let mut i = 0;
        while i <= rem {
            let ok: bool = kani::any();
            let v: u8 = kani::any::<u8>() & 7;
            kani::assume(!ok || (i <= left && v as usize <= left - i && v as usize >= min));
            o.dok[i].set(ok);
            o.dn[i].set(v & 7);
            i += 1;
        }
        o
    }
    /// same, but a failing *construction* may leave the position anywhere in the input
    pub fn sloppy(id: u8, cap: usize, min: usize) -> Self {
        Orc { sloppy: true, ..Self::new(id, cap, min) }
    }
    /// position after a match started at `off`
    pub fn end(&self, off: usize, len: usize) -> Option<usize> {
        self.f(off, len).map(|n| off + n)
    }
    /// the value of a successful construction at `off`
    pub fn val(&self, off: usize, len: usize) -> V {
        V { id: self.id, beg: off, len: self.f(off, len).unwrap() }
    }
    /// The uninterpreted function.
    pub fn f(&self, off: usize, len: usize) -> Option<usize> {
        if self.dense > 0 {
            assert!(off <= len, "sub-pattern run at a position outside the input");
            assert!(off >= self.base, "sub-pattern run before the start of the attempt");
            let i = off - self.base;
            // unrolled by hand so that it needs no unwinding bound
            macro_rules! sel {
                ($($i:literal)*) => { $(
                    if $i < self.dense && i == $i {
                        return if self.dok[$i].get() { Some(self.dn[$i].get() as usize) } else { None };
                    }
                )* };
            }
            sel!(0 1 2 3 4 5 6 7 8 9 10 11);
            return None;
        }
        let n = self.n.get();
        // unrolled by hand so that it needs no unwinding bound
        macro_rules! look {
            ($($i:literal)*) => { $(
                if $i < self.cap && $i < n && self.key[$i].get() == off {
                    let v = self.val[$i].get();
                    return if v == FAILED { None } else { Some(v) };
                }
            )* };
        }
        look!(0 1 2 3 4 5 6 7 8 9 10 11);
        assert!(n < self.cap, "HARNESS-CAPACITY");
        assert!(off <= len, "sub-pattern run at a position outside the input");
        let v: usize = kani::any();
        kani::assume(v == FAILED || (v <= len - off && v >= self.min));
        self.key[n].set(off);
        self.val[n].set(v);
        self.n.set(n + 1);
        if v == FAILED { None } else { Some(v) }
    }
}

/// A handle to an abstract pattern (what is passed to the combinator under verification).
#[derive(Clone, Copy)]
pub struct R<'o>(pub &'o Orc);

/// run the abstract pattern on a context according to its contract
fn run<'a, C: Context<'a>>(o: &Orc, ctx: &mut C) -> Result<Span, Error> {
    let off = ctx.offset();
    match o.f(off, ctx.len()) {
        Some(n) => {
            ctx.set_offset(off + n);
            Ok(Span::new(off, n))
        }
        None => Err(Error::Uid(o.id as usize)),
    }
}

impl<'o, 'a, C: Context<'a>> Regex<C> for R<'o>
{
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        run(self.0, ctx)
    }
}

impl<'o, 'a, C: Context<'a>, H> Ctor<C, V, H> for R<'o>
{
    fn construct(&self, ctx: &mut C, _: &mut H) -> Result<V, Error> {
        let r = run(self.0, ctx).map(|s| V { id: self.0.id, beg: s.beg, len: s.len });
        if r.is_err() && self.0.sloppy {
            let anywhere: usize = kani::any();
            kani::assume(anywhere <= ctx.len());
            ctx.set_offset(anywhere);
        }
        r
    }
}


/// Same pattern, but its value is one byte (start and length inside a short input): lists of
/// these are far cheaper for the solver.
#[derive(Clone, Copy)]
pub struct RB<'o>(pub &'o Orc);
impl Orc {
    pub fn byte(&self, off: usize, len: usize) -> u8 {
        let n = self.f(off, len).unwrap();
        (((off - self.base) & 15) as u8) << 4 | (n & 15) as u8
    }
}
impl<'o, 'a, C: Context<'a>> Regex<C> for RB<'o> {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        run(self.0, ctx)
    }
}
impl<'o, 'a, C: Context<'a>, H> Ctor<C, u8, H> for RB<'o> {
    fn construct(&self, ctx: &mut C, _: &mut H) -> Result<u8, Error> {
        let s = run(self.0, ctx)?;
        Ok(self.0.byte(s.beg, ctx.len()))
    }
}
