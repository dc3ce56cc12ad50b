//@include prelude
//@include guard

pub mod ctor { pub use crate::construct_with; }

/// matching a compound: it begins no later than its first part begins (exactly where it was tried, when nothing is
/// skipped in front of a pattern), and ends where the last part ends
pub open spec fn spans(m: Option<(nat, nat)>, c0: C, c: C, r: Result<Span, Error>) -> bool {
    match m {
        Some((b, e)) => r is Ok && c0.pos() <= r->Ok_0.beg <= b && r->Ok_0.beg + r->Ok_0.len == e && c.pos() == e,
        None => r is Err && c.pos() == c0.pos(),
    }
}
/// b behind a
pub open spec fn seq2(a: Option<(nat, nat)>, b: Option<(nat, nat)>) -> Option<(nat, nat)> {
    match (a, b) { (Some((b1, e1)), Some((b2, e2))) => Some((b1, e2)), _ => None }
}
pub open spec fn end_of(a: Option<(nat, nat)>) -> nat { match a { Some((b, e)) => e, None => 0 } }
pub open spec fn then2<A, B>(a: &A, b: &B, inp: int, pos: nat) -> Option<(nat, nat)> {
    match mat(a, inp, pos) {
        Some((b1, e1)) => match mat(b, inp, e1) { Some((b2, e2)) => Some((b1, e2)), None => None },
        None => None,
    }
}
pub open spec fn then3<A, B, D>(a: &A, b: &B, d: &D, inp: int, pos: nat) -> Option<(nat, nat)> {
    match then2(a, b, inp, pos) {
        Some((b1, e1)) => match mat(d, inp, e1) { Some((b2, e2)) => Some((b1, e2)), None => None },
        None => None,
    }
}
/// the span reported is exactly the range consumed
pub open spec fn exact(m: Option<(nat, nat)>, c0: C, c: C, r: Result<Span, Error>) -> bool {
    r is Ok ==> ({
        &&& c0.pos() <= r->Ok_0.beg && r->Ok_0.beg + r->Ok_0.len == c.pos() && c.pos() <= c.size()
        &&& (m is Some && m->Some_0.0 == c0.pos() ==> r->Ok_0.beg == c0.pos())
    })
}
/// constructing: where it ends, the value, the handler
pub open spec fn ev<M, H, P: Ctor<M, H>>(p: &P, inp: int, pos: nat, h: H) -> Option<(nat, M, H)> {
    match con(p, inp, pos, h) { Some((e, v)) => Some((e, v, p.hnd(inp, pos, h))), None => None }
}
pub open spec fn gives<M, H>(x: Option<(nat, M, H)>, c0: C, c: C, h: H, r: Result<M, Error>) -> bool {
    match x {
        Some((e, v, h1)) => r == Ok::<M, Error>(v) && c.pos() == e && h == h1,
        None => r is Err && c.pos() == c0.pos(),
    }
}

/// if_then: the test and the continuation behind the first part, when the test matches there
pub open spec fn if_then<L, I, R>(l: &L, i: &I, r: &R, inp: int, pos: nat) -> Option<(nat, nat)> {
    match mat(l, inp, pos) {
        Some((b1, e1)) => match mat(i, inp, e1) {
            Some((b2, e2)) => match mat(r, inp, e2) { Some((b3, e3)) => Some((b1, e3)), None => None },
            None => Some((b1, e1)),
        },
        None => None,
    }
}

/// the user's test of a branch: looks at the context only
pub trait Test: Sized {
    spec fn yes(&self, inp: int, pos: nat) -> Option<bool>;
    fn run(&self, ctx: &C) -> (r: Result<bool, Error>)
        ensures match self.yes(ctx.inp(), ctx.pos()) { Some(b) => r == Ok::<bool, Error>(b), None => r is Err };
}
/// a handler: any value from the context and the span, or an error
pub trait Handler: Sized {
    type Out;
    spec fn hv(&self, inp: int, pos: nat, span: Span) -> Option<Self::Out>;
    spec fn next(&self, inp: int, pos: nat, span: Span) -> Self;
    fn invoke(&mut self, ctx: &C, span: &Span) -> (r: Result<Self::Out, HError>)
        ensures
            *final(self) == old(self).next(ctx.inp(), ctx.pos(), *span),
            match old(self).hv(ctx.inp(), ctx.pos(), *span) { Some(v) => r == Ok::<Self::Out, HError>(v), None => r is Err };
}
pub struct HError { pub e: Error }
impl HError { pub fn into(self) -> Error { self.e } }

/// a leaf's value comes from the matched span
pub open spec fn leaf<P: ?Sized, H: Handler>(pat: &P, inp: int, pos: nat, h: H) -> Option<(nat, H::Out, H)> {
    match mat(pat, inp, pos) {
        Some((b, e)) => match h.hv(inp, e, Span { beg: b as usize, len: (e - b) as usize }) {
            Some(v) => Some((e, v, h.next(inp, e, Span { beg: b as usize, len: (e - b) as usize }))),
            None => None,
        },
        None => None,
    }
}
/// a conversion of values
pub trait FallibleMap<O, V>: Sized {
    spec fn to(&self, o: O) -> Option<V>;
    fn try_map(&self, val: O) -> (r: Result<V, Error>)
        ensures match self.to(val) { Some(v) => r == Ok::<V, Error>(v), None => r is Err };
}
/// the user's function that produces a pattern; it may move the position
pub trait Builder<A, T>: Sized {
    spec fn at(&self, inp: int, pos: nat, a: A) -> nat;
    spec fn out(&self, inp: int, pos: nat, a: A) -> Option<T>;
    fn run(&self, ctx: &mut C, a: &A) -> (r: Result<T, Error>)
        requires old(ctx).wf(),
        ensures
            final(ctx).inp() == old(ctx).inp(), final(ctx).wf(),
            final(ctx).pos() == self.at(old(ctx).inp(), old(ctx).pos(), *a),
            match self.out(old(ctx).inp(), old(ctx).pos(), *a) { Some(v) => r == Ok::<T, Error>(v), None => r is Err };
}

pub open spec fn yields<M, H>(x: Option<(nat, M, H)>, c0: C, c: C, r: Result<M, Error>) -> bool {
    match x {
        Some((e, v, h1)) => r == Ok::<M, Error>(v) && c.pos() == e,
        None => r is Err && c.pos() == c0.pos(),
    }
}
// ------------------------------------------------- what constructing yields
pub open spec fn then_ev<O1, O2, H, L: Ctor<O1, H>, R: Ctor<O2, H>>(l: &L, r: &R, inp: int, pos: nat, h: H) -> Option<(nat, (O1, O2), H)> {
    match ev(l, inp, pos, h) {
        Some((e, v, h)) => match ev(r, inp, e, h) { Some((e2, v2, h2)) => Some((e2, (v, v2), h2)), None => None },
        None => None,
    }
}
pub open spec fn if_then_ev<O1, O2, H, L: Ctor<O1, H>, I, R: Ctor<O2, H>>(l: &L, i: &I, r: &R, inp: int, pos: nat, h: H) -> Option<(nat, (O1, Option<O2>), H)> {
    match ev(l, inp, pos, h) {
        Some((e, v, h)) => match mat(i, inp, e) {
            Some((b2, e2)) => match ev(r, inp, e2, h) { Some((e3, v3, h3)) => Some((e3, (v, Some(v3)), h3)), None => None },
            None => Some((e, (v, None::<O2>), h)),
        },
        None => None,
    }
}
/// a value, then something without one
pub open spec fn before_ev<O, H, P: Ctor<O, H>, T>(p: &P, t: &T, inp: int, pos: nat, h: H) -> Option<(nat, O, H)> {
    match ev(p, inp, pos, h) {
        Some((e, v, h)) => match mat(t, inp, e) { Some((b2, e2)) => Some((e2, v, h)), None => None },
        None => None,
    }
}
/// something without a value, then a value
pub open spec fn behind_ev<O, H, T, P: Ctor<O, H>>(t: &T, p: &P, inp: int, pos: nat, h: H) -> Option<(nat, O, H)> {
    match mat(t, inp, pos) {
        Some((b, e)) => ev(p, inp, e, h),
        None => None,
    }
}
pub open spec fn enclose_ev<O, H, L, P: Ctor<O, H>, R>(l: &L, p: &P, r: &R, inp: int, pos: nat, h: H) -> Option<(nat, O, H)> {
    match mat(l, inp, pos) {
        Some((b, e)) => before_ev(p, r, inp, e, h),
        None => None,
    }
}
pub open spec fn sep_once_ev<O1, O2, H, L: Ctor<O1, H>, S, R: Ctor<O2, H>>(l: &L, s: &S, r: &R, inp: int, pos: nat, h: H) -> Option<(nat, (O1, O2), H)> {
    match ev(l, inp, pos, h) {
        Some((e, v, h)) => match mat(s, inp, e) {
            Some((b2, e2)) => match ev(r, inp, e2, h) { Some((e3, v3, h3)) => Some((e3, (v, v3), h3)), None => None },
            None => None,
        },
        None => None,
    }
}
pub open spec fn or_m<L, R>(l: &L, r: &R, inp: int, pos: nat) -> Option<(nat, nat)> {
    match mat(l, inp, pos) { Some(x) => Some(x), None => mat(r, inp, pos) }
}
pub open spec fn or_ev<O, H, L: Ctor<O, H>, R: Ctor<O, H>>(l: &L, r: &R, inp: int, pos: nat, h: H) -> Option<(nat, O, H)> {
    match ev(l, inp, pos, h) { Some(x) => Some(x), None => ev(r, inp, pos, l.hnd(inp, pos, h)) }
}
pub open spec fn opt_m<P>(p: &P, inp: int, pos: nat) -> Option<(nat, nat)> {
    match mat(p, inp, pos) { Some(x) => Some(x), None => Some((pos, pos)) }
}
pub open spec fn opt_ev<O, H, P: Ctor<O, H>>(p: &P, inp: int, pos: nat, h: H) -> Option<(nat, Option<O>, H)> {
    match con(p, inp, pos, h) {
        Some((e, v)) => Some((e, Some(v), p.hnd(inp, pos, h))),
        None => Some((pos, None::<O>, p.hnd(inp, pos, h))),
    }
}
pub open spec fn branch_m<P, F: Test, E>(p: &P, f: &F, o: &E, inp: int, pos: nat) -> Option<(nat, nat)> {
    match f.yes(inp, pos) { Some(true) => mat(p, inp, pos), Some(false) => mat(o, inp, pos), None => None }
}
pub open spec fn branch_ev<O, H, P: Ctor<O, H>, F: Test, E: Ctor<O, H>>(p: &P, f: &F, o: &E, inp: int, pos: nat, h: H) -> Option<(nat, O, H)> {
    match f.yes(inp, pos) { Some(true) => ev(p, inp, pos, h), Some(false) => ev(o, inp, pos, h), None => None }
}
/// the one that ends later, the first of both on a tie
pub open spec fn longest_m<L, R>(l: &L, r: &R, inp: int, pos: nat) -> Option<(nat, nat)> {
    match (mat(l, inp, pos), mat(r, inp, pos)) {
        (Some((b1, e1)), Some((b2, e2))) => if e1 >= e2 { Some((b1, e1)) } else { Some((b2, e2)) },
        (Some(x), None) => Some(x),
        (None, y) => y,
    }
}
pub open spec fn longest_ev<O, H, L: Ctor<O, H>, R: Ctor<O, H>>(l: &L, r: &R, inp: int, pos: nat, h: H) -> Option<(nat, O, H)> {
    let h1 = l.hnd(inp, pos, h);
    let h2 = r.hnd(inp, pos, h1);
    match (con(l, inp, pos, h), con(r, inp, pos, h1)) {
        (Some((e1, v1)), Some((e2, v2))) => if e1 >= e2 { Some((e1, v1, h2)) } else { Some((e2, v2, h2)) },
        (Some((e1, v1)), None) => Some((e1, v1, h2)),
        (None, Some((e2, v2))) => Some((e2, v2, h2)),
        (None, None) => None,
    }
}
pub open spec fn map_ev<O, V, H, P: Ctor<O, H>, F: FallibleMap<O, V>>(p: &P, f: &F, inp: int, pos: nat, h: H) -> Option<(nat, V, H)> {
    match ev(p, inp, pos, h) {
        Some((e, v, h)) => match f.to(v) { Some(w) => Some((e, w, h)), None => None },
        None => None,
    }
}
pub open spec fn dthen_ev<O1, O2, H, P: Ctor<O1, H>, T: Ctor<O2, H>, F: Builder<O1, T>>(p: &P, f: &F, inp: int, pos: nat, h: H) -> Option<(nat, (O1, O2), H)> {
    match ev(p, inp, pos, h) {
        Some((e, v, h)) => match f.out(inp, e, v) {
            Some(t) => match ev(&t, inp, f.at(inp, e, v), h) { Some((e2, v2, h2)) => Some((e2, (v, v2), h2)), None => None },
            None => None,
        },
        None => None,
    }
}
pub open spec fn dregex_m<P, T, F: Builder<Span, T>>(p: &P, f: &F, inp: int, pos: nat) -> Option<(nat, nat)> {
    match mat(p, inp, pos) {
        Some((b, e)) => ({
            let s = Span { beg: b as usize, len: (e - b) as usize };
            match f.out(inp, e, s) { Some(t) => mat(&t, inp, f.at(inp, e, s)), None => None }
        }),
        None => None,
    }
}

// ------------------------------------------------------------- sequencing
pub struct Then<L, R> { pub left: L, pub right: R }
impl<L, R> Then<L, R> {
    //@fn file=src/ctor/then.rs owner=Then trait=Regex fn=try_parse props=C05
    pub fn try_parse(&self, ctx: &mut C) -> (r: Result<Span, Error>)
        requires old(ctx).wf(),
        ensures
            final(ctx).inp() == old(ctx).inp(), final(ctx).wf(),
            //@spans C05 then2(&self.left, &self.right, old(ctx).inp(), old(ctx).pos())
    //@end
    //@fn file=src/ctor/then.rs owner=Then trait=Ctor fn=construct props=C05
    pub fn construct<O1, O2, H>(&self, ctx: &mut C, func: &mut H) -> (r: Result<(O1, O2), Error>)
        where L: Ctor<O1, H>, R: Ctor<O2, H>
        requires old(ctx).wf(),
        ensures
            final(ctx).inp() == old(ctx).inp(), final(ctx).wf(),
            //@gives C05 then_ev(&self.left, &self.right, old(ctx).inp(), old(ctx).pos(), *old(func))
    //@end
}
pub struct IfThen<L, I, R> { pub left: L, pub test: I, pub right: R }
impl<L, I, R> IfThen<L, I, R> {
    //@fn file=src/ctor/then.rs owner=IfThen trait=Regex fn=try_parse props=C05
    pub fn try_parse(&self, ctx: &mut C) -> (r: Result<Span, Error>)
        requires old(ctx).wf(),
        ensures
            final(ctx).inp() == old(ctx).inp(), final(ctx).wf(),
            //@spans C05 if_then(&self.left, &self.test, &self.right, old(ctx).inp(), old(ctx).pos())
    //@end
    //@fn file=src/ctor/then.rs owner=IfThen trait=Ctor fn=construct props=C05
    pub fn construct<O1, O2, H>(&self, ctx: &mut C, func: &mut H) -> (r: Result<(O1, Option<O2>), Error>)
        where L: Ctor<O1, H>, R: Ctor<O2, H>
        requires old(ctx).wf(),
        ensures
            final(ctx).inp() == old(ctx).inp(), final(ctx).wf(),
            //@gives C05 if_then_ev(&self.left, &self.test, &self.right, old(ctx).inp(), old(ctx).pos(), *old(func))
    //@end
}
pub struct Suffix<P, T> { pub pat: P, pub suffix: T }
impl<P, T> Suffix<P, T> {
    //@fn file=src/ctor/affix.rs owner=Suffix trait=Regex fn=try_parse props=C05
    pub fn try_parse(&self, ctx: &mut C) -> (r: Result<Span, Error>)
        requires old(ctx).wf(),
        ensures
            final(ctx).inp() == old(ctx).inp(), final(ctx).wf(),
            //@spans C05 then2(&self.pat, &self.suffix, old(ctx).inp(), old(ctx).pos())
    //@end
    //@fn file=src/ctor/affix.rs owner=Suffix trait=Ctor fn=construct props=C05
    pub fn construct<O, H>(&self, ctx: &mut C, func: &mut H) -> (r: Result<O, Error>)
        where P: Ctor<O, H>
        requires old(ctx).wf(),
        ensures
            final(ctx).inp() == old(ctx).inp(), final(ctx).wf(),
            //@gives C05 before_ev(&self.pat, &self.suffix, old(ctx).inp(), old(ctx).pos(), *old(func))
    //@end
}
pub struct Prefix<P, T> { pub pat: P, pub prefix: T }
impl<P, T> Prefix<P, T> {
    //@fn file=src/ctor/affix.rs owner=Prefix trait=Regex fn=try_parse props=C05
    pub fn try_parse(&self, ctx: &mut C) -> (r: Result<Span, Error>)
        requires old(ctx).wf(),
        ensures
            final(ctx).inp() == old(ctx).inp(), final(ctx).wf(),
            //@spans C05 then2(&self.prefix, &self.pat, old(ctx).inp(), old(ctx).pos())
    //@end
    //@fn file=src/ctor/affix.rs owner=Prefix trait=Ctor fn=construct props=C05
    pub fn construct<O, H>(&self, ctx: &mut C, func: &mut H) -> (r: Result<O, Error>)
        where P: Ctor<O, H>
        requires old(ctx).wf(),
        ensures
            final(ctx).inp() == old(ctx).inp(), final(ctx).wf(),
            //@gives C05 behind_ev(&self.prefix, &self.pat, old(ctx).inp(), old(ctx).pos(), *old(func))
    //@end
}
pub struct Enclose<P, L, R> { pub pat: P, pub open: L, pub close: R }
impl<P, L, R> Enclose<P, L, R> {
    //@fn file=src/ctor/enclose.rs owner=Enclose trait=Regex fn=try_parse props=C05
    pub fn try_parse(&self, ctx: &mut C) -> (r: Result<Span, Error>)
        requires old(ctx).wf(),
        ensures
            final(ctx).inp() == old(ctx).inp(), final(ctx).wf(),
            //@spans C05 then3(&self.open, &self.pat, &self.close, old(ctx).inp(), old(ctx).pos())
    //@end
    //@fn file=src/ctor/enclose.rs owner=Enclose trait=Ctor fn=construct props=C05
    pub fn construct<O, H>(&self, ctx: &mut C, func: &mut H) -> (r: Result<O, Error>)
        where P: Ctor<O, H>
        requires old(ctx).wf(),
        ensures
            final(ctx).inp() == old(ctx).inp(), final(ctx).wf(),
            //@gives C05 enclose_ev(&self.open, &self.pat, &self.close, old(ctx).inp(), old(ctx).pos(), *old(func))
    //@end
}
pub struct SepOnce<L, S, R> { pub left: L, pub sep: S, pub right: R }
impl<L, S, R> SepOnce<L, S, R> {
    //@fn file=src/ctor/sep.rs owner=SepOnce trait=Regex fn=try_parse props=C05
    pub fn try_parse(&self, ctx: &mut C) -> (r: Result<Span, Error>)
        requires old(ctx).wf(),
        ensures
            final(ctx).inp() == old(ctx).inp(), final(ctx).wf(),
            //@spans C05 then3(&self.left, &self.sep, &self.right, old(ctx).inp(), old(ctx).pos())
    //@end
    //@fn file=src/ctor/sep.rs owner=SepOnce trait=Ctor fn=construct props=C05
    pub fn construct<O1, O2, H>(&self, ctx: &mut C, func: &mut H) -> (r: Result<(O1, O2), Error>)
        where L: Ctor<O1, H>, R: Ctor<O2, H>
        requires old(ctx).wf(),
        ensures
            final(ctx).inp() == old(ctx).inp(), final(ctx).wf(),
            //@gives C05 sep_once_ev(&self.left, &self.sep, &self.right, old(ctx).inp(), old(ctx).pos(), *old(func))
    //@end
}

// ----------------------------------------------------------------- choice
pub struct Or<L, R> { pub left: L, pub right: R }
impl<L, R> Or<L, R> {
    //@fn file=src/ctor/or.rs owner=Or trait=Regex fn=try_parse props=C06
    pub fn try_parse(&self, ctx: &mut C) -> (r: Result<Span, Error>)
        requires old(ctx).wf(),
        ensures
            final(ctx).inp() == old(ctx).inp(), final(ctx).wf(),
            //@spans C06 or_m(&self.left, &self.right, old(ctx).inp(), old(ctx).pos())
    //@end
    //@fn file=src/ctor/or.rs owner=Or trait=Ctor fn=construct props=C06
    pub fn construct<O, H>(&self, ctx: &mut C, func: &mut H) -> (r: Result<O, Error>)
        where L: Ctor<O, H>, R: Ctor<O, H>
        requires old(ctx).wf(),
        ensures
            final(ctx).inp() == old(ctx).inp(), final(ctx).wf(),
            //@gives C06 or_ev(&self.left, &self.right, old(ctx).inp(), old(ctx).pos(), *old(func))
    //@end
}
pub struct OptionPat<P> { pub pat: P }
impl<P> OptionPat<P> {
    //@fn file=src/ctor/opt.rs owner=OptionPat trait=Regex fn=try_parse props=C06
    pub fn try_parse(&self, ctx: &mut C) -> (r: Result<Span, Error>)
        requires old(ctx).wf(),
        ensures
            final(ctx).inp() == old(ctx).inp(), final(ctx).wf(),
            //@spans C06 opt_m(&self.pat, old(ctx).inp(), old(ctx).pos())
    //@end
    //@fn file=src/ctor/opt.rs owner=OptionPat trait=Ctor fn=construct props=C06
    pub fn construct<O, H>(&self, ctx: &mut C, func: &mut H) -> (r: Result<Option<O>, Error>)
        where P: Ctor<O, H>
        requires old(ctx).wf(),
        ensures
            final(ctx).inp() == old(ctx).inp(), final(ctx).wf(),
            //@gives C06 opt_ev(&self.pat, old(ctx).inp(), old(ctx).pos(), *old(func))
    //@end
}
pub struct Branch<P, F, E> { pub pat: P, pub test: F, pub other: E }
impl<P, F: Test, E> Branch<P, F, E> {
    //@fn file=src/ctor/branch.rs owner=Branch trait=Regex fn=try_parse props=C06
    pub fn try_parse(&self, ctx: &mut C) -> (r: Result<Span, Error>)
        requires old(ctx).wf(),
        ensures
            final(ctx).inp() == old(ctx).inp(), final(ctx).wf(),
            //@spans C06 branch_m(&self.pat, &self.test, &self.other, old(ctx).inp(), old(ctx).pos())
    //@end
    //@fn file=src/ctor/branch.rs owner=Branch trait=Ctor fn=construct props=C06
    pub fn construct<O, H>(&self, ctx: &mut C, func: &mut H) -> (r: Result<O, Error>)
        where P: Ctor<O, H>, E: Ctor<O, H>
        requires old(ctx).wf(),
        ensures
            final(ctx).inp() == old(ctx).inp(), final(ctx).wf(),
            //@gives C06 branch_ev(&self.pat, &self.test, &self.other, old(ctx).inp(), old(ctx).pos(), *old(func))
    //@end
}
pub struct LongestTokenMatch<L, R> { pub left: L, pub right: R }
impl<L, R> LongestTokenMatch<L, R> {
    //@fn file=src/ctor/longest.rs owner=LongestTokenMatch trait=Regex fn=try_parse props=C07
    pub fn try_parse(&self, ctx: &mut C) -> (r: Result<Span, Error>)
        requires old(ctx).wf(),
        ensures
            final(ctx).inp() == old(ctx).inp(), final(ctx).wf(),
            //@spans C07 longest_m(&self.left, &self.right, old(ctx).inp(), old(ctx).pos())
    //@end
    //@fn file=src/ctor/longest.rs owner=LongestTokenMatch trait=Ctor fn=construct props=C07
    pub fn construct<O, H>(&self, ctx: &mut C, func: &mut H) -> (r: Result<O, Error>)
        where L: Ctor<O, H>, R: Ctor<O, H>
        requires old(ctx).wf(),
        ensures
            final(ctx).inp() == old(ctx).inp(), final(ctx).wf(),
            //@yields C07 longest_ev(&self.left, &self.right, old(ctx).inp(), old(ctx).pos(), *old(func))
    //@end
}

// -------------------------------------------------------------- lookahead
pub struct Assert<T> { pub pat: T, pub value: bool }
impl<T> Assert<T> {
    //@fn file=src/regex/assert.rs owner=Assert trait=Regex fn=try_parse props=C08,C01
    pub fn try_parse(&self, ctx: &mut C) -> (r: Result<Span, Error>)
        requires old(ctx).wf(),
        ensures
            final(ctx).inp() == old(ctx).inp(), final(ctx).pos() == old(ctx).pos(),
            if mat(&self.pat, old(ctx).inp(), old(ctx).pos()) is Some == self.value {
                r == Ok::<Span, Error>(Span { beg: old(ctx).pos() as usize, len: 0 })
            } else { r is Err },
    //@end
}
impl C {
    //@fn file=src/ctx.rs owner=T trait=Assert fn=try_assert props=C08,C01
    pub fn try_assert<Pat: ?Sized>(&mut self, pat: &Pat) -> (r: Result<bool, Error>)
        requires old(self).wf(),
        ensures
            final(self).inp() == old(self).inp(), final(self).pos() == old(self).pos(),
            r == Ok::<bool, Error>(mat(pat, old(self).inp(), old(self).pos()) is Some),
    //@end
}

// ----------------------------------------------------------------- values
//@fn file=src/ctor.rs fn=construct_with props=C12
pub fn construct_with<P: ?Sized, H: Handler>(pat: &P, ctx: &mut C, handler: &mut H) -> (r: Result<H::Out, Error>)
    requires old(ctx).wf(),
    ensures
        final(ctx).inp() == old(ctx).inp(), final(ctx).wf(),
        //@gives C12 leaf(pat, old(ctx).inp(), old(ctx).pos(), *old(handler))
//@end
pub struct Pattern<P> { pub pat: P }
impl<P> Pattern<P> {
    //@fn file=src/ctor/pat.rs owner=Pattern trait=Ctor fn=construct props=C12
    pub fn construct<H: Handler>(&self, ctx: &mut C, func: &mut H) -> (r: Result<H::Out, Error>)
        requires old(ctx).wf(),
        ensures
            final(ctx).inp() == old(ctx).inp(), final(ctx).wf(),
            //@gives C12 leaf(&self.pat, old(ctx).inp(), old(ctx).pos(), *old(func))
    //@end
    //@fn file=src/ctor/pat.rs owner=Pattern trait=Regex fn=try_parse props=C12
    pub fn try_parse(&self, ctx: &mut C) -> (r: Result<Span, Error>)
        requires old(ctx).wf(),
        ensures
            final(ctx).inp() == old(ctx).inp(), final(ctx).wf(),
            //@spans C12 mat(&self.pat, old(ctx).inp(), old(ctx).pos())
    //@end
}
pub struct Map<P, F> { pub pat: P, pub mapper: F }
impl<P, F> Map<P, F> {
    //@fn file=src/ctor/map.rs owner=Map trait=Ctor fn=construct props=C12
    pub fn construct<O, V, H>(&self, ctx: &mut C, func: &mut H) -> (r: Result<V, Error>)
        where P: Ctor<O, H>, F: FallibleMap<O, V>
        requires old(ctx).wf(),
        ensures
            final(ctx).inp() == old(ctx).inp(), final(ctx).wf(),
            //@gives C12 map_ev(&self.pat, &self.mapper, old(ctx).inp(), old(ctx).pos(), *old(func))
    //@end
    //@fn file=src/ctor/map.rs owner=Map trait=Regex fn=try_parse props=C12
    pub fn try_parse(&self, ctx: &mut C) -> (r: Result<Span, Error>)
        requires old(ctx).wf(),
        ensures
            final(ctx).inp() == old(ctx).inp(), final(ctx).wf(),
            //@spans C12 mat(&self.pat, old(ctx).inp(), old(ctx).pos())
    //@end
}

// --------------------------------------------------------- dynamic patterns
pub struct DynamicCtorThenBuilder<P, F> { pub pat: P, pub func: F }
impl<P, F> DynamicCtorThenBuilder<P, F> {
    //@fn file=src/ctor/dthen.rs owner=DynamicCtorThenBuilder trait=Ctor fn=construct props=C20
    pub fn construct<T, O1, O2, H>(&self, ctx: &mut C, func: &mut H) -> (r: Result<(O1, O2), Error>)
        where P: Ctor<O1, H>, T: Ctor<O2, H>, F: Builder<O1, T>
        requires old(ctx).wf(),
        ensures
            final(ctx).inp() == old(ctx).inp(), final(ctx).wf(),
            //@gives C20 dthen_ev::<O1, O2, H, P, T, F>(&self.pat, &self.func, old(ctx).inp(), old(ctx).pos(), *old(func))
    //@end
}
//@fn file=src/regex/builder.rs fn=into_regex_builder local=regex props=C20
pub fn into_regex_builder<P, T, F: Builder<Span, T>>(pat: P, func: F, ctx: &mut C) -> (r: Result<Span, Error>)
    requires old(ctx).wf(),
    ensures
        final(ctx).inp() == old(ctx).inp(), final(ctx).wf(),
        r is Err ==> final(ctx).pos() == old(ctx).pos(), //: C01,C20
        // the produced pattern's result
        match dregex_m::<P, T, F>(&pat, &func, old(ctx).inp(), old(ctx).pos()) {
            Some((b, e)) => r is Ok && r->Ok_0.beg <= b && r->Ok_0.beg + r->Ok_0.len == e && final(ctx).pos() == e,
            None => r is Err,
        }, //: C20
//@end

// ------------------------------------------- matching predicts constructing (C12)
/// plain matching and constructing succeed together and end together (when no conversion rejects the value)
pub open spec fn agree<M, H, P: Ctor<M, H>>(p: &P) -> bool {
    forall|inp: int, pos: nat, h: H| #![trigger con(p, inp, pos, h)] same_end(mat(p, inp, pos), ev(p, inp, pos, h))
}
pub open spec fn same_end<M, H>(m: Option<(nat, nat)>, x: Option<(nat, M, H)>) -> bool {
    (m is Some == x is Some) && (m is Some ==> m->Some_0.1 == x->Some_0.0)
}
proof fn then_agrees<O1, O2, H, L: Ctor<O1, H>, R: Ctor<O2, H>>(l: &L, r: &R, inp: int, pos: nat, h: H)
    requires agree::<O1, H, L>(l), agree::<O2, H, R>(r),
    ensures same_end(then2(l, r, inp, pos), then_ev(l, r, inp, pos, h)),
{ }
proof fn if_then_agrees<O1, O2, H, L: Ctor<O1, H>, I, R: Ctor<O2, H>>(l: &L, i: &I, r: &R, inp: int, pos: nat, h: H)
    requires agree::<O1, H, L>(l), agree::<O2, H, R>(r),
    ensures same_end(if_then(l, i, r, inp, pos), if_then_ev(l, i, r, inp, pos, h)),
{ }
proof fn affix_agrees<O, H, P: Ctor<O, H>, T>(p: &P, t: &T, inp: int, pos: nat, h: H)
    requires agree::<O, H, P>(p),
    ensures same_end(then2(p, t, inp, pos), before_ev(p, t, inp, pos, h)), same_end(then2(t, p, inp, pos), behind_ev(t, p, inp, pos, h)),
{ }
proof fn enclose_agrees<O, H, L, P: Ctor<O, H>, R>(l: &L, p: &P, r: &R, inp: int, pos: nat, h: H)
    requires agree::<O, H, P>(p),
    ensures same_end(then3(l, p, r, inp, pos), enclose_ev(l, p, r, inp, pos, h)),
{ }
proof fn sep_once_agrees<O1, O2, H, L: Ctor<O1, H>, S, R: Ctor<O2, H>>(l: &L, s: &S, r: &R, inp: int, pos: nat, h: H)
    requires agree::<O1, H, L>(l), agree::<O2, H, R>(r),
    ensures same_end(then3(l, s, r, inp, pos), sep_once_ev(l, s, r, inp, pos, h)),
{ }
proof fn or_agrees<O, H, L: Ctor<O, H>, R: Ctor<O, H>>(l: &L, r: &R, inp: int, pos: nat, h: H)
    requires agree::<O, H, L>(l), agree::<O, H, R>(r),
    ensures same_end(or_m(l, r, inp, pos), or_ev(l, r, inp, pos, h)),
{ }
proof fn opt_agrees<O, H, P: Ctor<O, H>>(p: &P, inp: int, pos: nat, h: H)
    requires agree::<O, H, P>(p),
    ensures same_end(opt_m(p, inp, pos), opt_ev(p, inp, pos, h)),
{ }
proof fn branch_agrees<O, H, P: Ctor<O, H>, F: Test, E: Ctor<O, H>>(p: &P, f: &F, o: &E, inp: int, pos: nat, h: H)
    requires agree::<O, H, P>(p), agree::<O, H, E>(o),
    ensures same_end(branch_m(p, f, o, inp, pos), branch_ev(p, f, o, inp, pos, h)),
{ }
proof fn longest_agrees<O, H, L: Ctor<O, H>, R: Ctor<O, H>>(l: &L, r: &R, inp: int, pos: nat, h: H)
    requires agree::<O, H, L>(l), agree::<O, H, R>(r),
    ensures same_end(longest_m(l, r, inp, pos), longest_ev(l, r, inp, pos, h)),
{ }
proof fn map_agrees<O, V, H, P: Ctor<O, H>, F: FallibleMap<O, V>>(p: &P, f: &F, inp: int, pos: nat, h: H)
    requires agree::<O, H, P>(p), forall|o: O| f.to(o) is Some,
    ensures same_end(mat(p, inp, pos), map_ev::<O, V, H, P, F>(p, f, inp, pos, h)),
{ }
proof fn leaf_agrees<P: ?Sized, H: Handler>(p: &P, inp: int, pos: nat, h: H)
    requires forall|e: nat, s: Span| h.hv(inp, e, s) is Some,
    ensures same_end(mat(p, inp, pos), leaf(p, inp, pos, h)),
{ }
} // verus!
