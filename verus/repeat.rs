//@include prelude


//@include range
//@include values

/// the position after n matches of p, back to back from pos
pub open spec fn iters<P>(p: &P, inp: int, pos: nat, n: nat) -> Option<nat>
    decreases n
{
    if n == 0 { Some(pos) } else {
        match iters(p, inp, pos, (n - 1) as nat) {
            Some(q) => match mat(p, inp, q) { Some((b, e)) => Some(e), None => None },
            None => None,
        }
    }
}
/// n matches end at q and the upper bound or the pattern stops there
pub open spec fn greedy<P>(p: &P, inp: int, pos: nat, r: CRange, n: nat, q: nat) -> bool {
    &&& iters(p, inp, pos, n) == Some(q)
    &&& n == 0 || below(r, n - 1)
    &&& !below(r, n as int) || mat(p, inp, q) is None
}
pub struct CSt<M, H> { pub pos: nat, pub h: H, pub vals: Seq<M> }
pub open spec fn citers<M, H, P: Ctor<M, H>>(p: &P, inp: int, pos: nat, h: H, n: nat) -> Option<CSt<M, H>>
    decreases n
{
    if n == 0 { Some(CSt { pos, h, vals: Seq::empty() }) } else {
        match citers::<M, H, P>(p, inp, pos, h, (n - 1) as nat) {
            Some(s) => match con(p, inp, s.pos, s.h) {
                Some((e, v)) => Some(CSt { pos: e, h: p.hnd(inp, s.pos, s.h), vals: s.vals.push(v) }),
                None => None,
            },
            None => None,
        }
    }
}
pub open spec fn cgreedy<M, H, P: Ctor<M, H>>(p: &P, inp: int, pos: nat, h: H, r: CRange, n: nat, s: CSt<M, H>) -> bool {
    &&& citers(p, inp, pos, h, n) == Some(s)
    &&& n == 0 || below(r, n - 1)
    &&& !below(r, n as int) || con::<M, H, P>(p, inp, s.pos, s.h) is None
}
/// with no upper bound every match must consume (else the repetition is endless)
pub open spec fn consumes<P>(p: &P, inp: int) -> bool {
    forall|pos: nat| match #[trigger] mat(p, inp, pos) { Some((b, e)) => e > pos, None => true }
}
pub open spec fn cconsumes<M, H, P: Ctor<M, H>>(p: &P, inp: int) -> bool {
    forall|pos: nat, h: H| match #[trigger] con::<M, H, P>(p, inp, pos, h) { Some((e, v)) => e > pos, None => true }
}

pub struct Repeat<P> { pat: P, range: CRange, capacity: usize }

impl<P> Repeat<P> {
    //@fn file=src/ctor/repeat.rs owner=Repeat fn=is_contain props=C09
    fn is_contain(&self, count: usize) -> (b: bool)
        ensures b == below(self.range, count as int),
    //@end

    //@fn file=src/ctor/repeat.rs owner=Repeat trait=Regex fn=try_parse props=C09
    fn try_parse(&self, ctx: &mut C) -> (r: Result<Span, Error>)
        requires
            old(ctx).wf(),
            self.range.hi is Unbounded ==> consumes(&self.pat, old(ctx).inp()),
        ensures
            final(ctx).inp() == old(ctx).inp(),
            r is Err ==> final(ctx).pos() == old(ctx).pos(), //: C01
            r is Ok ==> r->Ok_0.beg == old(ctx).pos() && r->Ok_0.beg + r->Ok_0.len == final(ctx).pos() && final(ctx).pos() <= final(ctx).size(), //: C02
            exists|n: nat, q: nat| #[trigger] greedy(&self.pat, old(ctx).inp(), old(ctx).pos(), self.range, n, q) && (
                if within(self.range, n as int) {
                    r == Ok::<Span, Error>(Span { beg: old(ctx).pos() as usize, len: (q - old(ctx).pos()) as usize }) && final(ctx).pos() == q
                } else {
                    r is Err && final(ctx).pos() == old(ctx).pos()
                }),
            exists|n: nat, q: nat| #[trigger] greedy(&self.pat, old(ctx).inp(), old(ctx).pos(), self.range, n, q) && (
                if within(self.range, n as int) {
                    r is Ok && final(ctx).pos() == q
                } else {
                    r is Err
                }), //: C12
    //@loop 0
        invariant
            ctx.inp() == old(ctx).inp(), ctx.wf(),
            old(ctx).pos() <= ctx.pos(), offset == old(ctx).pos(),
            self.range.hi is Unbounded ==> consumes(&self.pat, old(ctx).inp()) && cnt <= ctx.pos() - old(ctx).pos(),
            iters(&self.pat, old(ctx).inp(), old(ctx).pos(), cnt as nat) == Some(ctx.pos()),
            cnt == 0 || below(self.range, cnt - 1),
            total.beg == old(ctx).pos(), total.len == ctx.pos() - old(ctx).pos(),
        ensures
            greedy(&self.pat, old(ctx).inp(), old(ctx).pos(), self.range, cnt as nat, ctx.pos()),
        decreases match self.range.hi {
            core::ops::Bound::Included(v) => v - cnt,
            core::ops::Bound::Excluded(v) => v - cnt,
            core::ops::Bound::Unbounded => ctx.size() - ctx.pos(),
        }
    //@end

    //@fn file=src/ctor/repeat.rs owner=Repeat trait=Ctor fn=construct props=C09
    fn construct<O, H>(&self, ctx: &mut C, handler: &mut H) -> (r: Result<crate::alloc::Vec<O>, Error>)
        where P: Ctor<O, H>
        requires
            old(ctx).wf(),
            self.range.hi is Unbounded ==> cconsumes::<O, H, P>(&self.pat, old(ctx).inp()),
        ensures
            final(ctx).inp() == old(ctx).inp(),
            r is Err ==> final(ctx).pos() == old(ctx).pos(), //: C01
            exists|n: nat, s: CSt<O, H>| #[trigger] cgreedy(&self.pat, old(ctx).inp(), old(ctx).pos(), *old(handler), self.range, n, s) && (
                if within(self.range, n as int) {
                    r is Ok && r->Ok_0@ == s.vals && s.vals.len() == n && final(ctx).pos() == s.pos
                } else {
                    r is Err && final(ctx).pos() == old(ctx).pos()
                }),
            exists|n: nat, s: CSt<O, H>| #[trigger] cgreedy(&self.pat, old(ctx).inp(), old(ctx).pos(), *old(handler), self.range, n, s) && (
                if within(self.range, n as int) {
                    r is Ok && final(ctx).pos() == s.pos
                } else {
                    r is Err
                }), //: C12
    //@entry
        let ghost h0 = *handler;
        let ghost mut hb = *handler;
    //@loop 0
        invariant_except_break
            citers(&self.pat, old(ctx).inp(), old(ctx).pos(), h0, cnt as nat) == Some(CSt { pos: ctx.pos(), h: *handler, vals: vals@ }),
        invariant
            ctx.inp() == old(ctx).inp(), ctx.wf(), h0 == *old(handler),
            old(ctx).pos() <= ctx.pos(), offset == old(ctx).pos(),
            self.range.hi is Unbounded ==> cconsumes::<O, H, P>(&self.pat, old(ctx).inp()) && cnt <= ctx.pos() - old(ctx).pos(),
            vals@.len() == cnt,
            cnt == 0 || below(self.range, cnt - 1),
        ensures
            cgreedy(&self.pat, old(ctx).inp(), old(ctx).pos(), h0, self.range, cnt as nat, CSt { pos: ctx.pos(), h: *handler, vals: vals@ })
            || cgreedy(&self.pat, old(ctx).inp(), old(ctx).pos(), h0, self.range, cnt as nat, CSt { pos: ctx.pos(), h: hb, vals: vals@ }),
        decreases match self.range.hi {
            core::ops::Bound::Included(v) => v - cnt,
            core::ops::Bound::Excluded(v) => v - cnt,
            core::ops::Bound::Unbounded => ctx.size() - ctx.pos(),
        }
    //@body 0
        proof { hb = *handler; }
    //@end
}

pub struct Repeat2<P, const M: usize, const N: usize> { pat: P }
pub open spec fn upto(n: usize) -> CRange { CRange { lo: core::ops::Bound::Unbounded, hi: core::ops::Bound::Included(n) } }

impl<P, const M: usize, const N: usize> Repeat2<P, M, N> {
    //@fn file=src/ctor/repeat2.rs owner=Repeat2 trait=Regex fn=try_parse props=C09
    fn try_parse(&self, ctx: &mut C) -> (r: Result<Span, Error>)
        requires
            old(ctx).wf(),
        ensures
            final(ctx).inp() == old(ctx).inp(),
            r is Err ==> final(ctx).pos() == old(ctx).pos(), //: C01
            r is Ok ==> r->Ok_0.beg == old(ctx).pos() && r->Ok_0.beg + r->Ok_0.len == final(ctx).pos() && final(ctx).pos() <= final(ctx).size(), //: C02
            exists|n: nat, q: nat| #[trigger] greedy(&self.pat, old(ctx).inp(), old(ctx).pos(), upto(N), n, q) && (
                if M <= n {
                    r == Ok::<Span, Error>(Span { beg: old(ctx).pos() as usize, len: (q - old(ctx).pos()) as usize }) && final(ctx).pos() == q
                } else {
                    r is Err && final(ctx).pos() == old(ctx).pos()
                }),
            exists|n: nat, q: nat| #[trigger] greedy(&self.pat, old(ctx).inp(), old(ctx).pos(), upto(N), n, q) && (
                if M <= n {
                    r is Ok && final(ctx).pos() == q
                } else {
                    r is Err
                }), //: C12
    //@loop 0
        invariant
            ctx.inp() == old(ctx).inp(), ctx.wf(),
            old(ctx).pos() <= ctx.pos(), offset == old(ctx).pos(),
            iters(&self.pat, old(ctx).inp(), old(ctx).pos(), cnt as nat) == Some(ctx.pos()),
            cnt <= N,
            total.beg == old(ctx).pos(), total.len == ctx.pos() - old(ctx).pos(),
        ensures
            greedy(&self.pat, old(ctx).inp(), old(ctx).pos(), upto(N), cnt as nat, ctx.pos()),
        decreases N - cnt
    //@end

    //@fn file=src/ctor/repeat2.rs owner=Repeat2 trait=Ctor fn=construct props=C09
    fn construct<O, H>(&self, ctx: &mut C, handler: &mut H) -> (r: Result<[Option<O>; N], Error>)
        where P: Ctor<O, H>
        requires
            old(ctx).wf(),
        ensures
            final(ctx).inp() == old(ctx).inp(),
            r is Err ==> final(ctx).pos() == old(ctx).pos(), //: C01
            exists|n: nat, s: CSt<O, H>| #[trigger] cgreedy(&self.pat, old(ctx).inp(), old(ctx).pos(), *old(handler), upto(N), n, s) && (
                if M <= n {
                    r is Ok && filled(r->Ok_0@, s.vals) && s.vals.len() == n && final(ctx).pos() == s.pos
                } else {
                    r is Err && final(ctx).pos() == old(ctx).pos()
                }),
            exists|n: nat, s: CSt<O, H>| #[trigger] cgreedy(&self.pat, old(ctx).inp(), old(ctx).pos(), *old(handler), upto(N), n, s) && (
                if M <= n {
                    r is Ok && final(ctx).pos() == s.pos
                } else {
                    r is Err
                }), //: C12
    //@entry
        let ghost h0 = *handler;
        let ghost mut hb = *handler;
        let ghost mut sv = Seq::<O>::empty();
    //@loop 0
        invariant_except_break
            citers(&self.pat, old(ctx).inp(), old(ctx).pos(), h0, cnt as nat) == Some(CSt { pos: ctx.pos(), h: *handler, vals: sv }),
        invariant
            ctx.inp() == old(ctx).inp(), ctx.wf(), h0 == *old(handler),
            old(ctx).pos() <= ctx.pos(), offset == old(ctx).pos(),
            sv.len() == cnt, cnt <= N, filled(vals@, sv),
        ensures
            cgreedy(&self.pat, old(ctx).inp(), old(ctx).pos(), h0, upto(N), cnt as nat, CSt { pos: ctx.pos(), h: *handler, vals: sv })
            || cgreedy(&self.pat, old(ctx).inp(), old(ctx).pos(), h0, upto(N), cnt as nat, CSt { pos: ctx.pos(), h: hb, vals: sv }),
        decreases N - cnt
    //@body 0
        proof { hb = *handler; }
        let ghost v0 = vals@;
        let ghost c0 = cnt;
    //@bodyend 0
        proof { sv = sv.push(vals@[c0 as int]->Some_0); }
    //@end
}

pub open spec fn all() -> CRange { CRange { lo: core::ops::Bound::Unbounded, hi: core::ops::Bound::Unbounded } }

pub struct Collect<P> { pat: P, min: usize }
impl<P> Collect<P> {
    //@fn file=src/ctor/collect.rs owner=Collect trait=Regex fn=try_parse props=C09
    fn try_parse(&self, ctx: &mut C) -> (r: Result<Span, Error>)
        requires
            old(ctx).wf(),
            consumes(&self.pat, old(ctx).inp()),
        ensures
            final(ctx).inp() == old(ctx).inp(),
            r is Err ==> final(ctx).pos() == old(ctx).pos(), //: C01
            r is Ok ==> r->Ok_0.beg == old(ctx).pos() && r->Ok_0.beg + r->Ok_0.len == final(ctx).pos() && final(ctx).pos() <= final(ctx).size(), //: C02
            exists|n: nat, q: nat| #[trigger] greedy(&self.pat, old(ctx).inp(), old(ctx).pos(), all(), n, q) && (
                if self.min <= n {
                    r == Ok::<Span, Error>(Span { beg: old(ctx).pos() as usize, len: (q - old(ctx).pos()) as usize }) && final(ctx).pos() == q
                } else {
                    r is Err && final(ctx).pos() == old(ctx).pos()
                }),
            exists|n: nat, q: nat| #[trigger] greedy(&self.pat, old(ctx).inp(), old(ctx).pos(), all(), n, q) && (
                if self.min <= n {
                    r is Ok && final(ctx).pos() == q
                } else {
                    r is Err
                }), //: C12
    //@loop 0
        invariant
            ctx.inp() == old(ctx).inp(), ctx.wf(),
            old(ctx).pos() <= ctx.pos(), offset == old(ctx).pos(),
            consumes(&self.pat, old(ctx).inp()), cnt <= ctx.pos() - old(ctx).pos(),
            iters(&self.pat, old(ctx).inp(), old(ctx).pos(), cnt as nat) == Some(ctx.pos()),
            span.beg == old(ctx).pos(), span.len == ctx.pos() - old(ctx).pos(),
        ensures
            greedy(&self.pat, old(ctx).inp(), old(ctx).pos(), all(), cnt as nat, ctx.pos()),
        decreases ctx.size() - ctx.pos()
    //@end

    //@fn file=src/ctor/collect.rs owner=Collect trait=Ctor fn=construct props=C09
    fn construct<O, V, H>(&self, ctx: &mut C, func: &mut H) -> (r: Result<V, Error>)
        where P: Ctor<O, H>
        requires
            old(ctx).wf(),
            cconsumes::<O, H, P>(&self.pat, old(ctx).inp()),
        ensures
            final(ctx).inp() == old(ctx).inp(),
            r is Err ==> final(ctx).pos() == old(ctx).pos(), //: C01
            exists|n: nat, s: CSt<O, H>| #[trigger] cgreedy(&self.pat, old(ctx).inp(), old(ctx).pos(), *old(func), all(), n, s) && (
                if self.min <= n {
                    r == Ok::<V, Error>(collected(s.vals)) && s.vals.len() == n && final(ctx).pos() == s.pos
                } else {
                    r is Err && final(ctx).pos() == old(ctx).pos()
                }),
            exists|n: nat, s: CSt<O, H>| #[trigger] cgreedy(&self.pat, old(ctx).inp(), old(ctx).pos(), *old(func), all(), n, s) && (
                if self.min <= n {
                    r is Ok && final(ctx).pos() == s.pos
                } else {
                    r is Err
                }), //: C12
    //@entry
        let ghost h0 = *func;
        let ghost mut hb = *func;
    //@loop 0
        invariant_except_break
            citers(&self.pat, old(ctx).inp(), old(ctx).pos(), h0, cnt as nat) == Some(CSt { pos: ctx.pos(), h: *func, vals: __acc@ }),
        invariant
            ctx.inp() == old(ctx).inp(), ctx.wf(), h0 == *old(func),
            old(ctx).pos() <= ctx.pos(), offset == old(ctx).pos(),
            cconsumes::<O, H, P>(&self.pat, old(ctx).inp()), cnt <= ctx.pos() - old(ctx).pos(),
            __acc@.len() == cnt,
        ensures
            cgreedy(&self.pat, old(ctx).inp(), old(ctx).pos(), h0, all(), cnt as nat, CSt { pos: ctx.pos(), h: hb, vals: __acc@ }),
        decreases ctx.size() - ctx.pos()
    //@body 0
        proof { hb = *func; }
    //@end
}
// ------------------------------------------- matching predicts constructing (C12)
/// plain matching and constructing succeed together and end together (when no conversion rejects the value)
pub open spec fn agree<M, H, P: Ctor<M, H>>(p: &P) -> bool {
    forall|inp: int, pos: nat, h: H| #![trigger con(p, inp, pos, h)]
        (mat(p, inp, pos) is Some == con(p, inp, pos, h) is Some) && (mat(p, inp, pos) is Some ==> mat(p, inp, pos)->Some_0.1 == con(p, inp, pos, h)->Some_0.0)
}
proof fn iters_agree<M, H, P: Ctor<M, H>>(p: &P, inp: int, pos: nat, h: H, n: nat)
    requires agree::<M, H, P>(p),
    ensures
        iters(p, inp, pos, n) is Some == citers::<M, H, P>(p, inp, pos, h, n) is Some,
        iters(p, inp, pos, n) is Some ==> iters(p, inp, pos, n)->Some_0 == citers::<M, H, P>(p, inp, pos, h, n)->Some_0.pos,
    decreases n
{
    if n > 0 { iters_agree::<M, H, P>(p, inp, pos, h, (n - 1) as nat); }
}
proof fn iters_shorter<P>(p: &P, inp: int, pos: nat, n: nat, m: nat)
    requires iters(p, inp, pos, n) is Some, m <= n,
    ensures iters(p, inp, pos, m) is Some,
    decreases n
{
    if m < n { iters_shorter(p, inp, pos, (n - 1) as nat, m); }
}
proof fn below_mono(r: CRange, a: int, b: int)
    requires below(r, b), a <= b,
    ensures below(r, a),
{ }
/// the repetition constructs what it matches: the same number, the same end
proof fn repeat_agrees<M, H, P: Ctor<M, H>>(p: &P, inp: int, pos: nat, h: H, r: CRange, n: nat, q: nat, m: nat, s: CSt<M, H>)
    requires agree::<M, H, P>(p), greedy(p, inp, pos, r, n, q), cgreedy(p, inp, pos, h, r, m, s),
    ensures n == m, q == s.pos,
{
    iters_agree::<M, H, P>(p, inp, pos, h, n);
    iters_agree::<M, H, P>(p, inp, pos, h, m);
    assert(con::<M, H, P>(p, inp, s.pos, s.h) is Some == mat(p, inp, s.pos) is Some);
    if n < m {
        iters_shorter(p, inp, pos, m, (n + 1) as nat);
        below_mono(r, n as int, m - 1);
    }
    if m < n {
        iters_shorter(p, inp, pos, n, (m + 1) as nat);
        below_mono(r, m as int, n - 1);
    }
}
} // verus!
