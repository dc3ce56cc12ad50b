// Contracts of what the extracted functions call. Everything here is specification: the abstract
// context and patterns (any input, any position, any pattern that satisfies C01/C02), and the
// contracts of std items. Which other check discharges each assumed contract is noted beside it.
#![allow(unused, dead_code, non_snake_case, unused_braces, unused_parens)]
use vstd::prelude::*;
pub mod alloc { pub use ::std::vec::Vec; }
pub mod err { pub use crate::Error; }

verus! {

#[derive(Clone, Copy)]
pub enum Error { Repeat, Repeat2, Collect, Separate, Separate2, SepCollect, SepOnce, Once, Opt, Many0, Many1, Between,
    Times, NeureThen, Array, Slice, Vector, PairArray, PairSlice, PairVector, AssertTrue, AssertFalse, Literal, AnchorStart, AnchorEnd, Consume, Fail, OutOfBound, Other(u8) }

#[derive(Clone, Copy)]
pub struct Span { pub beg: usize, pub len: usize }

impl Span {
    /// derived
    pub fn default() -> (s: Self)
        ensures s == (Span { beg: 0, len: 0 }),
    { Span { beg: 0, len: 0 } }
    //@fn file=src/span.rs owner=Span fn=new
    pub fn new(beg: usize, len: usize) -> (s: Self)
        ensures s == (Span { beg, len }),
    //@end
    //@fn file=src/span.rs owner=Span fn=beg
    pub fn beg(&self) -> (r: usize)
        ensures r == self.beg,
    //@end
    //@fn file=src/span.rs owner=Span fn=len
    pub fn len(&self) -> (r: usize)
        ensures r == self.len,
    //@end
    //@fn file=src/span.rs owner=Span fn=is_empty
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self.len == 0),
    //@end
    //@fn file=src/span.rs owner=Span fn=add_assign
    pub fn add_assign(&mut self, other: Self) -> (r: &mut Self)
        requires
            old(self).beg <= other.beg,
            other.beg + other.len <= usize::MAX,
        ensures
            *r == (Span { beg: old(self).beg, len: (other.beg + other.len - old(self).beg) as usize }),
            *final(self) == *final(r),
    //@end
}

/// a debug_assert!/assert! of the code: an obligation
pub fn must(b: bool)
    requires b,
{ }

/// the context: any input, any position inside it
#[verifier::external_body]
pub struct C { _x: () }

impl C {
    /// identity of the input
    pub uninterp spec fn inp(&self) -> int;
    pub uninterp spec fn pos(&self) -> nat;
    pub open spec fn size(&self) -> nat { size(self.inp()) }
    pub open spec fn wf(&self) -> bool { self.pos() <= self.size() }

    #[verifier::external_body]
    pub fn offset(&self) -> (r: usize)
        ensures r == self.pos(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self.size(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn set_offset(&mut self, o: usize)
        ensures final(self).inp() == old(self).inp(), final(self).pos() == o,
    { unimplemented!() }

    #[verifier::external_body]
    pub fn inc(&mut self, n: usize)
        requires old(self).pos() + n <= usize::MAX,
        ensures final(self).inp() == old(self).inp(), final(self).pos() == old(self).pos() + n,
    { unimplemented!() }

    /// matching any pattern at the position: C01 and C02 of that pattern (and of the policy, C19)
    #[verifier::external_body]
    pub fn try_mat<P: ?Sized>(&mut self, pat: &P) -> (r: Result<Span, Error>)
        requires old(self).wf(),
        ensures
            final(self).inp() == old(self).inp(),
            final(self).wf(),
            matched(mat(pat, old(self).inp(), old(self).pos()), *old(self), *final(self), r),
    { unimplemented!() }
}

pub uninterp spec fn size_raw(inp: int) -> nat;
/// inputs fit the address space
pub open spec fn size(inp: int) -> nat { if size_raw(inp) <= isize::MAX as nat { size_raw(inp) } else { 0 } }

/// where a pattern begins and ends matching at a position (it begins behind what a policy skips)
pub uninterp spec fn mat_raw<P: ?Sized>(p: &P, inp: int, pos: nat) -> Option<(nat, nat)>;
pub open spec fn mat<P: ?Sized>(p: &P, inp: int, pos: nat) -> Option<(nat, nat)> {
    match mat_raw(p, inp, pos) {
        Some((b, e)) => if pos <= b <= e <= size(inp) { Some((b, e)) } else { None },
        None => None,
    }
}
pub open spec fn matched(m: Option<(nat, nat)>, c0: C, c: C, r: Result<Span, Error>) -> bool {
    match m {
        Some((b, e)) => r is Ok && r->Ok_0.beg == b && r->Ok_0.len == e - b && c.pos() == e,
        None => r is Err && c.pos() == c0.pos(),
    }
}

/// constructing: any pattern, any handler
pub trait Ctor<M, H>: Sized {
    /// where it ends, and the value
    spec fn con_raw(&self, inp: int, pos: nat, h: H) -> Option<(nat, M)>;
    /// the handler afterwards
    spec fn hnd(&self, inp: int, pos: nat, h: H) -> H;

    fn construct(&self, ctx: &mut C, h: &mut H) -> (r: Result<M, Error>)
        requires old(ctx).wf(),
        ensures
            final(ctx).inp() == old(ctx).inp(),
            final(ctx).wf(),
            *final(h) == self.hnd(old(ctx).inp(), old(ctx).pos(), *old(h)),
            match ok_end(self.con_raw(old(ctx).inp(), old(ctx).pos(), *old(h)), old(ctx).inp(), old(ctx).pos()) {
                Some((e, v)) => r == Ok::<M, Error>(v) && final(ctx).pos() == e,
                None => r is Err && final(ctx).pos() == old(ctx).pos(),
            };
}
pub open spec fn ok_end<M>(r: Option<(nat, M)>, inp: int, pos: nat) -> Option<(nat, M)> {
    match r {
        Some((e, v)) => if pos <= e <= size(inp) { Some((e, v)) } else { None },
        None => None,
    }
}
pub open spec fn con<M, H, P: Ctor<M, H>>(p: &P, inp: int, pos: nat, h: H) -> Option<(nat, M)> {
    ok_end(p.con_raw(inp, pos, h), inp, pos)
}
