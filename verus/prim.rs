//@include prelude

pub open spec fn spans(m: Option<(nat, nat)>, c0: C, c: C, r: Result<Span, Error>) -> bool {
    match m {
        Some((b, e)) => r == Ok::<Span, Error>(Span { beg: b as usize, len: (e - b) as usize }) && c.pos() == e,
        None => r is Err && c.pos() == c0.pos(),
    }
}
/// the span reported is exactly the range consumed
pub open spec fn exact(m: Option<(nat, nat)>, c0: C, c: C, r: Result<Span, Error>) -> bool {
    r is Ok ==> c0.pos() == r->Ok_0.beg && r->Ok_0.beg + r->Ok_0.len == c.pos() && c.pos() <= c.size()
}
/// the bytes of the input behind a position
pub uninterp spec fn rest_raw(inp: int, pos: nat) -> Seq<u8>;
pub open spec fn rest(inp: int, pos: nat) -> Seq<u8> { rest_raw(inp, pos) }
/// what a context hands out of its input
pub trait View8: Sized { spec fn bytes(&self) -> Seq<u8>; }
impl View8 for &[u8] { open spec fn bytes(&self) -> Seq<u8> { (*self)@ } }
impl View8 for &str { open spec fn bytes(&self) -> Seq<u8> { utf8(*self) } }
pub uninterp spec fn utf8(s: &str) -> Seq<u8>;
impl C {
    /// the input behind the position (C03)
    #[verifier::external_body]
    pub fn orig<O: View8>(&self) -> (r: Result<O, Error>)
        ensures match r {
            Ok(o) => self.pos() <= self.size() && o.bytes() == rest(self.inp(), self.pos()) && o.bytes().len() == self.size() - self.pos(),
            Err(_) => self.pos() > self.size(),
        }
    { unimplemented!() }
}
//@fn file=src/ctx.rs fn=new_span_inc props=C11
pub fn new_span_inc(ctx: &mut C, len: usize) -> (r: Span)
    requires old(ctx).pos() + len <= usize::MAX,
    ensures
        r.beg == old(ctx).pos(), r.len == len,
        final(ctx).inp() == old(ctx).inp(), final(ctx).pos() == old(ctx).pos() + len,
//@end

// --------------------------------------------------------------- literals
/// std: `<[u8]>::starts_with`, `str::starts_with`, `str::len`
#[verifier::external_body]
pub fn bytes_start(a: &[u8], b: &[u8]) -> (r: bool)
    ensures r == b@.is_prefix_of(a@),
{ unimplemented!() }
#[verifier::external_body]
pub fn str_start(a: &str, b: &str) -> (r: bool)
    ensures r == utf8(b).is_prefix_of(utf8(a)),
{ unimplemented!() }
#[verifier::external_body]
pub fn str_len(a: &str) -> (r: usize)
    ensures r == utf8(a).len(),
{ unimplemented!() }

pub trait LiteralTy {
    type Orig: View8;
    spec fn lit(&self) -> Seq<u8>;
    fn length(&self) -> (r: usize)
        ensures r == self.lit().len();
    fn prefix_of(&self, other: &Self::Orig) -> (r: bool)
        ensures r == self.lit().is_prefix_of(other.bytes());
}
impl<'a> LiteralTy for &'a [u8] {
    type Orig = &'a [u8];
    open spec fn lit(&self) -> Seq<u8> { (*self)@ }
    //@fn file=src/regex/literal.rs owner=[u8] trait=LiteralTy fn=length props=C11
    //@sub <[u8]>::len(self) => self.len()
    fn length(&self) -> (r: usize)
    //@end
    //@fn file=src/regex/literal.rs owner=[u8] trait=LiteralTy fn=prefix_of props=C11
    //@sub <[u8]>::starts_with( => bytes_start(
    fn prefix_of(&self, other: &&'a [u8]) -> (r: bool)
    //@end
}
impl<'a> LiteralTy for &'a str {
    type Orig = &'a str;
    open spec fn lit(&self) -> Seq<u8> { utf8(*self) }
    //@fn file=src/regex/literal.rs owner=str trait=LiteralTy fn=length props=C11
    //@sub str::len( => str_len(
    fn length(&self) -> (r: usize)
    //@end
    //@fn file=src/regex/literal.rs owner=str trait=LiteralTy fn=prefix_of props=C11
    //@sub str::starts_with( => str_start(
    fn prefix_of(&self, other: &&'a str) -> (r: bool)
    //@end
}

/// a literal at a position
pub open spec fn lit_m(lit: Seq<u8>, inp: int, pos: nat) -> Option<(nat, nat)> {
    if pos + lit.len() <= size(inp) && lit.is_prefix_of(rest(inp, pos)) { Some((pos, pos + lit.len())) } else { None }
}
pub struct Literal<T> { pub literal: T }
impl<T: LiteralTy> Literal<T> {
    //@fn file=src/regex/literal.rs owner=Literal trait=Regex fn=try_parse props=C11
    //@sub ctx.orig() => ctx.orig::<T::Orig>()
    pub fn try_parse(&self, ctx: &mut C) -> (r: Result<Span, Error>)
        requires old(ctx).wf(),
        ensures
            final(ctx).inp() == old(ctx).inp(), final(ctx).wf(),
            //@spans C11 lit_m(self.literal.lit(), old(ctx).inp(), old(ctx).pos())
    //@end
}

// ------------------------------------------------------ anchors and the rest
pub struct AnchorStart;
impl AnchorStart {
    //@fn file=src/regex/anchor.rs owner=AnchorStart trait=Regex fn=try_parse props=C11
    pub fn try_parse(&self, ctx: &mut C) -> (r: Result<Span, Error>)
        requires old(ctx).wf(),
        ensures
            final(ctx).inp() == old(ctx).inp(), final(ctx).wf(),
            //@spans C11 (if old(ctx).pos() == 0 { Some((0nat, 0nat)) } else { None })
    //@end
}
pub struct AnchorEnd;
impl AnchorEnd {
    //@fn file=src/regex/anchor.rs owner=AnchorEnd trait=Regex fn=try_parse props=C11
    pub fn try_parse(&self, ctx: &mut C) -> (r: Result<Span, Error>)
        requires old(ctx).wf(),
        ensures
            final(ctx).inp() == old(ctx).inp(), final(ctx).wf(),
            //@spans C11 (if old(ctx).pos() == old(ctx).size() { Some((old(ctx).pos(), old(ctx).pos())) } else { None })
    //@end
}
pub struct Consume(pub usize);
impl Consume {
    //@fn file=src/regex/consume.rs owner=Consume trait=Regex fn=try_parse props=C11
    pub fn try_parse(&self, ctx: &mut C) -> (r: Result<Span, Error>)
        requires old(ctx).wf(),
        ensures
            final(ctx).inp() == old(ctx).inp(), final(ctx).wf(),
            //@spans C11 (if old(ctx).pos() + self.0 <= old(ctx).size() { Some((old(ctx).pos(), old(ctx).pos() + self.0 as nat)) } else { None })
    //@end
}
pub struct ConsumeAll;
impl ConsumeAll {
    //@fn file=src/regex/consume.rs owner=ConsumeAll trait=Regex fn=try_parse props=C11
    pub fn try_parse(&self, ctx: &mut C) -> (r: Result<Span, Error>)
        requires old(ctx).wf(),
        ensures
            final(ctx).inp() == old(ctx).inp(), final(ctx).wf(),
            //@spans C11 Some((old(ctx).pos(), old(ctx).size()))
    //@end
}
pub struct EmptyRegex;
impl EmptyRegex {
    //@fn file=src/regex/empty.rs owner=EmptyRegex trait=Regex fn=try_parse props=C11
    pub fn try_parse(&self, ctx: &mut C) -> (r: Result<Span, Error>)
        requires old(ctx).wf(),
        ensures
            final(ctx).inp() == old(ctx).inp(), final(ctx).wf(),
            //@spans C11 Some((old(ctx).pos(), old(ctx).pos()))
    //@end
}
pub struct FailRegex;
impl FailRegex {
    //@fn file=src/regex/fail.rs owner=FailRegex trait=Regex fn=try_parse props=C11
    pub fn try_parse(&self, ctx: &mut C) -> (r: Result<Span, Error>)
        requires old(ctx).wf(),
        ensures
            final(ctx).inp() == old(ctx).inp(), final(ctx).wf(),
            //@spans C11 None::<(nat, nat)>
    //@end
}
} // verus!
