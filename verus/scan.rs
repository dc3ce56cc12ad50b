//@include prelude

pub open spec fn okof(r: Result<Span, Error>) -> Option<Span> { match r { Ok(s) => Some(s), Err(_) => None } }

/// what decides about a result and moves on: any function of the position and the result
pub trait Proc: Sized {
    /// the span to keep, and the position to go on from
    spec fn next(&self, inp: int, pos: nat, r: Option<Span>) -> (Option<Span>, nat);
    fn call(&mut self, ctx: &mut C, val: Result<Span, Error>) -> (o: Option<Span>)
        requires old(ctx).wf(),
        ensures
            final(ctx).inp() == old(ctx).inp(), *final(self) == *old(self),
            (o, final(ctx).pos()) == old(self).next(old(ctx).inp(), old(ctx).pos(), okof(val));
}
/// a handler: any value or refusal, any state
pub trait Hnd<O>: Sized {
    spec fn val(&self, inp: int, pos: nat, s: Span) -> Option<O>;
    spec fn aft(&self, inp: int, pos: nat, s: Span) -> Self;
    fn invoke(&mut self, ctx: &C, s: &Span) -> (r: Result<O, Error>)
        ensures
            *final(self) == old(self).aft(ctx.inp(), ctx.pos(), *s),
            match old(self).val(ctx.inp(), ctx.pos(), *s) { Some(v) => r == Ok::<O, Error>(v), None => r is Err };
}
/// one attempt at a position
pub open spec fn attempt<P, F: Proc>(p: &P, f: &F, inp: int, pos: nat) -> (Option<Span>, nat) {
    match mat(p, inp, pos) {
        Some((b, e)) => f.next(inp, e, Some(Span { beg: b as usize, len: (e - b) as usize })),
        None => f.next(inp, pos, None),
    }
}
/// every attempt moves on
pub open spec fn advances<P, F: Proc>(p: &P, f: &F, inp: int) -> bool {
    forall|pos: nat| pos < size(inp) ==> pos < (#[trigger] attempt(p, f, inp, pos)).1
}
/// the value found, the position afterwards, the handler afterwards
pub open spec fn scan<O, P, F: Proc, H: Hnd<O>>(p: &P, f: &F, h: H, inp: int, pos: nat) -> (Option<O>, nat, H)
    decreases if pos < size(inp) { size(inp) - pos } else { 0 }
{
    if pos >= size(inp) { (None, pos, h) } else {
        let (o, q) = attempt(p, f, inp, pos);
        match o {
            Some(s) => match h.val(inp, q, s) {
                Some(v) => (Some(v), q, h.aft(inp, q, s)),
                None => if q > pos { scan(p, f, h.aft(inp, q, s), inp, q) } else { (None, q, h) },
            },
            None => if q > pos { scan(p, f, h, inp, q) } else { (None, q, h) },
        }
    }
}

/// extract(): the part of the input a span denotes, as an O
#[verifier::external_body]
#[verifier::reject_recursive_types(O)]
pub struct Extract<O> { _x: core::marker::PhantomData<O> }
pub uninterp spec fn extracted<O>(inp: int, pos: nat, s: Span) -> Option<O>;
impl<O> Hnd<O> for Extract<O> {
    open spec fn val(&self, inp: int, pos: nat, s: Span) -> Option<O> { extracted(inp, pos, s) }
    open spec fn aft(&self, inp: int, pos: nat, s: Span) -> Self { *self }
    #[verifier::external_body]
    fn invoke(&mut self, ctx: &C, s: &Span) -> (r: Result<O, Error>) { unimplemented!() }
}
pub uninterp spec fn the_extract<O>() -> Extract<O>;
#[verifier::external_body]
pub fn extract<O>() -> (r: Extract<O>) ensures r == the_extract::<O>() { unimplemented!() }

/// find and find_all: keep a non-empty match, else move on by one unit
pub struct SkipOne;
impl Proc for SkipOne {
    open spec fn next(&self, inp: int, pos: nat, r: Option<Span>) -> (Option<Span>, nat) {
        match r { Some(s) => if s.len != 0 { (Some(s), pos) } else { (None, pos + 1) }, None => (None, pos + 1) }
    }
    //@fn file=src/ctx.rs owner=MatchMulti trait=MatchMulti fn=find default local=func
    fn call(&mut self, ctx: &mut C, val: Result<Span, Error>) -> (o: Option<Span>)
    //@end
}
pub struct SkipOneAll;
impl Proc for SkipOneAll {
    open spec fn next(&self, inp: int, pos: nat, r: Option<Span>) -> (Option<Span>, nat) { SkipOne.next(inp, pos, r) }
    //@fn file=src/ctx.rs owner=MatchMulti trait=MatchMulti fn=find_all default local=func
    fn call(&mut self, ctx: &mut C, val: Result<Span, Error>) -> (o: Option<Span>)
    //@end
}
/// match_seq: keep a non-empty match, else stop
pub struct Stop;
impl Proc for Stop {
    open spec fn next(&self, inp: int, pos: nat, r: Option<Span>) -> (Option<Span>, nat) {
        match r { Some(s) => if s.len != 0 { (Some(s), pos) } else { (None, size(inp)) }, None => (None, size(inp)) }
    }
    //@fn file=src/ctx.rs owner=MatchMulti trait=MatchMulti fn=match_seq default local=func
    fn call(&mut self, ctx: &mut C, val: Result<Span, Error>) -> (o: Option<Span>)
    //@end
}

/// core::iter::from_fn over a closure that owns these
pub struct Steps<P, F, H> { pub pat: P, pub func: F, pub map: H }

impl C {
    //@fn file=src/ctx.rs owner=MatchMulti trait=MatchMulti fn=find_with default
    //@sub func(self, ret) => func.call(self, ret)
    pub fn find_with<O, P, F: Proc, H: Hnd<O>>(&mut self, pat: P, mut func: F, mut map: H) -> (r: Option<O>)
        requires advances(&pat, &func, old(self).inp()),
        ensures
            final(self).inp() == old(self).inp(),
            r == scan(&pat, &func, map, old(self).inp(), old(self).pos()).0,
            final(self).pos() == scan(&pat, &func, map, old(self).inp(), old(self).pos()).1,
    //@loop 0
        invariant_except_break
            next is None,
            scan(&pat, &func, map, self.inp(), self.pos()) == scan(&pat, &f0, m0, old(self).inp(), old(self).pos()),
        invariant
            self.inp() == old(self).inp(), func == f0, advances(&pat, &func, self.inp()),
        ensures
            (next, self.pos(), map) == scan(&pat, &f0, m0, old(self).inp(), old(self).pos()),
        decreases if self.pos() < self.size() { self.size() - self.pos() } else { 0 }
    //@body 0
        proof { assert(attempt(&pat, &func, self.inp(), self.pos()).1 > self.pos()); }
    //@entry
        let ghost (f0, m0) = (func, map);
    //@end

    /// one step of the iterator
    //@fn file=src/ctx.rs owner=MatchMulti trait=MatchMulti fn=find_all_with default closure
    //@sub func(self, ret) => func.call(self, ret)
    pub fn step<O, P, F: Proc, H: Hnd<O>>(&mut self, pat: P, func: &mut F, map: &mut H) -> (r: Option<O>)
        requires advances(&pat, old(func), old(self).inp()),
        ensures
            final(self).inp() == old(self).inp(), *final(func) == *old(func),
            (r, final(self).pos(), *final(map)) == scan(&pat, old(func), *old(map), old(self).inp(), old(self).pos()),
    //@loop 0
        invariant_except_break
            next is None,
            scan(&pat, &*func, *map, self.inp(), self.pos()) == scan(&pat, old(func), *old(map), old(self).inp(), old(self).pos()),
        invariant
            self.inp() == old(self).inp(), *func == *old(func), advances(&pat, &*func, self.inp()),
        ensures
            (next, self.pos(), *map) == scan(&pat, old(func), *old(map), old(self).inp(), old(self).pos()),
        decreases if self.pos() < self.size() { self.size() - self.pos() } else { 0 }
    //@body 0
        proof { assert(attempt(&pat, &*func, self.inp(), self.pos()).1 > self.pos()); }
    //@end

    /// assumed of the constructor: the iterator's step is the closure above over what was passed
    #[verifier::external_body]
    pub fn find_all_with<P, F, H>(&mut self, pat: P, func: F, map: H) -> (r: Steps<P, F, H>)
        ensures r.pat == pat, r.func == func, r.map == map, final(self).inp() == old(self).inp(), final(self).pos() == old(self).pos(),
    { unimplemented!() }

    //@fn file=src/ctx.rs owner=MatchMulti trait=MatchMulti fn=find default
    //@sub func, extract() => SkipOne, extract()
    pub fn find<O, P>(&mut self, pat: P) -> (r: Option<O>)
        ensures
            final(self).inp() == old(self).inp(),
            r == scan(&pat, &SkipOne, the_extract::<O>(), old(self).inp(), old(self).pos()).0,
            final(self).pos() == scan(&pat, &SkipOne, the_extract::<O>(), old(self).inp(), old(self).pos()).1,
    //@end
    //@fn file=src/ctx.rs owner=MatchMulti trait=MatchMulti fn=find_all default
    //@sub func, extract() => SkipOneAll, extract()
    pub fn find_all<O, P>(&mut self, pat: P) -> (r: Steps<P, SkipOneAll, Extract<O>>)
        ensures
            final(self).inp() == old(self).inp(), final(self).pos() == old(self).pos(),
            r.pat == pat, r.func == SkipOneAll, r.map == the_extract::<O>(),
    //@end
    //@fn file=src/ctx.rs owner=MatchMulti trait=MatchMulti fn=match_seq default
    //@sub func, extract() => Stop, extract()
    pub fn match_seq<O, P>(&mut self, pat: P) -> (r: Steps<P, Stop, Extract<O>>)
        ensures
            final(self).inp() == old(self).inp(), final(self).pos() == old(self).pos(),
            r.pat == pat, r.func == Stop, r.map == the_extract::<O>(),
    //@end
}

/// a pattern without a skipping policy begins where it is tried
pub open spec fn plain<P>(p: &P, inp: int) -> bool {
    forall|pos: nat| match #[trigger] mat(p, inp, pos) { Some((b, e)) => b == pos, None => true }
}
pub open spec fn nothing<P>(p: &P, inp: int, pos: nat) -> bool {
    match mat(p, inp, pos) { Some((b, e)) => b == e, None => true }
}
/// C18 of find and of each step of find_all: the leftmost non-empty match at or after the position whose
/// value is not refused by the extraction, and the position behind it; every step terminates
pub proof fn leftmost<O, P, F: Proc>(p: &P, f: &F, inp: int, pos: nat)
    requires
        plain(p, inp), pos <= size(inp),
        forall|i: int, q: nat, r: Option<Span>| #[trigger] f.next(i, q, r) == SkipOne.next(i, q, r),
        forall|i: int, q: nat, s: Span| (#[trigger] extracted::<O>(i, q, s)) is Some,
    ensures
        ({
            let (o, e, _) = scan(p, f, the_extract::<O>(), inp, pos);
            match o {
                Some(v) => exists|b: nat| pos <= b < e && e <= size(inp) && #[trigger] mat(p, inp, b) == Some((b, e))
                    && extracted(inp, e, Span { beg: b as usize, len: (e - b) as usize }) == Some(v)
                    && (forall|q: nat| pos <= q < b ==> #[trigger] nothing(p, inp, q)),
                None => e == size(inp) && forall|q: nat| pos <= q < size(inp) ==> #[trigger] nothing(p, inp, q),
            }
        }),
    decreases size(inp) - pos
{
    if pos < size(inp) {
        if nothing(p, inp, pos) {
            leftmost::<O, P, F>(p, f, inp, pos + 1);
            assert(attempt(p, f, inp, pos) == (None::<Span>, pos + 1));
        } else {
            let (b, e) = mat(p, inp, pos)->Some_0;
            assert(b == pos);
            assert(attempt(p, f, inp, pos) == (Some(Span { beg: b as usize, len: (e - b) as usize }), e));
        }
    }
}
/// C18 of match_seq: the match at the position, or nothing from then on
pub proof fn contiguous<O, P>(p: &P, inp: int, pos: nat)
    requires
        plain(p, inp), pos <= size(inp),
        forall|i: int, q: nat, s: Span| (#[trigger] extracted::<O>(i, q, s)) is Some,
    ensures
        ({
            let (o, e, _) = scan(p, &Stop, the_extract::<O>(), inp, pos);
            if pos == size(inp) || nothing(p, inp, pos) { o is None && e == size(inp) }
            else { mat(p, inp, pos) == Some((pos, e)) && o == extracted::<O>(inp, e, Span { beg: pos as usize, len: (e - pos) as usize }) }
        }),
{
    reveal_with_fuel(scan, 3);
}
} // verus!
