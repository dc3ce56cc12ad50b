//@include prelude
//@include range
//@include values

/// the position behind n pairs of an element and a separator
pub open spec fn pairs<P, S>(p: &P, s: &S, inp: int, pos: nat, n: nat) -> Option<nat>
    decreases n
{
    if n == 0 { Some(pos) } else {
        match pairs(p, s, inp, pos, (n - 1) as nat) {
            Some(q) => match mat(p, inp, q) {
                Some((b, e)) => match mat(s, inp, e) { Some((b2, e2)) => Some(e2), None => None },
                None => None,
            },
            None => None,
        }
    }
}
/// what the list does behind n pairs, at q: (elements accepted, where it ends), None when it goes on
pub open spec fn tail<P, S>(p: &P, s: &S, inp: int, skip: bool, n: nat, q: nat) -> Option<(nat, nat)> {
    match mat(p, inp, q) {
        None => Some((n, q)),
        Some((b, e)) => match mat(s, inp, e) {
            Some(_) => None,
            // the last element: kept without its separator only when that is optional
            None => if skip { Some((n + 1, e)) } else { Some((n, q)) },
        },
    }
}
/// the list accepts c elements and ends at e (at most max elements); n pairs ending at q come first
pub open spec fn list<P, S>(p: &P, s: &S, inp: int, pos: nat, skip: bool, max: Option<nat>, n: nat, q: nat, c: nat, e: nat) -> bool {
    &&& pairs(p, s, inp, pos, n) == Some(q)
    &&& match max { Some(m) => n <= m, None => true }
    &&& if max == Some(n) { c == n && e == q } else { tail(p, s, inp, skip, n, q) == Some((c, e)) }
}
pub open spec fn progress<P, S>(p: &P, s: &S, inp: int) -> bool {
    forall|pos: nat| match #[trigger] mat(p, inp, pos) {
        Some((b, e)) => match mat(s, inp, e) { Some((b2, e2)) => e2 > pos, None => true },
        None => true,
    }
}

/// the same, constructing: the state behind n pairs
pub struct CSt<M, H> { pub pos: nat, pub h: H, pub vals: Seq<M> }
pub open spec fn cpairs<M, H, P: Ctor<M, H>, S>(p: &P, s: &S, inp: int, pos: nat, h: H, n: nat) -> Option<CSt<M, H>>
    decreases n
{
    if n == 0 { Some(CSt { pos, h, vals: Seq::empty() }) } else {
        match cpairs::<M, H, P, S>(p, s, inp, pos, h, (n - 1) as nat) {
            Some(t) => match con(p, inp, t.pos, t.h) {
                Some((e, v)) => match mat(s, inp, e) {
                    Some((b2, e2)) => Some(CSt { pos: e2, h: p.hnd(inp, t.pos, t.h), vals: t.vals.push(v) }),
                    None => None,
                },
                None => None,
            },
            None => None,
        }
    }
}
/// what the list does in state t: it holds the values v and ends at e (never, when it goes on)
pub open spec fn ctail<M, H, P: Ctor<M, H>, S>(p: &P, s: &S, inp: int, skip: bool, t: CSt<M, H>, v: Seq<M>, e: nat) -> bool {
    match con(p, inp, t.pos, t.h) {
        None => v =~= t.vals && e == t.pos,
        Some((e1, x)) => match mat(s, inp, e1) {
            Some(_) => false,
            None => if skip { v =~= t.vals.push(x) && e == e1 } else { v =~= t.vals && e == t.pos },
        },
    }
}
pub open spec fn clist<M, H, P: Ctor<M, H>, S>(p: &P, s: &S, inp: int, pos: nat, h: H, skip: bool, max: Option<nat>, n: nat, t: CSt<M, H>, v: Seq<M>, e: nat) -> bool {
    &&& cpairs(p, s, inp, pos, h, n) == Some(t)
    &&& match max { Some(m) => n <= m, None => true }
    &&& if max == Some(n) { v =~= t.vals && e == t.pos } else { ctail(p, s, inp, skip, t, v, e) }
}
pub open spec fn cprogress<M, H, P: Ctor<M, H>, S>(p: &P, s: &S, inp: int) -> bool {
    forall|pos: nat, h: H| match #[trigger] con::<M, H, P>(p, inp, pos, h) {
        Some((e, v)) => match mat(s, inp, e) { Some((b2, e2)) => e2 > pos, None => true },
        None => true,
    }
}

pub struct Separate<P, S> { pat: P, sep: S, skip: bool, capacity: usize, min: usize }

impl<P, S> Separate<P, S> {
    //@fn file=src/ctor/sep.rs owner=Separate trait=Regex fn=try_parse props=C10
    //@sub CRange<usize> => CRange
    fn try_parse(&self, ctx: &mut C) -> (r: Result<Span, Error>)
        requires
            old(ctx).wf(),
            progress(&self.pat, &self.sep, old(ctx).inp()),
        ensures
            final(ctx).inp() == old(ctx).inp(),
            r is Err ==> final(ctx).pos() == old(ctx).pos(), //: C01
            r is Ok ==> r->Ok_0.beg == old(ctx).pos() && r->Ok_0.beg + r->Ok_0.len == final(ctx).pos() && final(ctx).pos() <= final(ctx).size(), //: C02
            exists|n: nat, q: nat, c: nat, e: nat| #[trigger] list(&self.pat, &self.sep, old(ctx).inp(), old(ctx).pos(), self.skip, None, n, q, c, e) && (
                if self.min <= c {
                    r == Ok::<Span, Error>(Span { beg: old(ctx).pos() as usize, len: (e - old(ctx).pos()) as usize }) && final(ctx).pos() == e
                } else {
                    r is Err && final(ctx).pos() == old(ctx).pos()
                }),
            exists|n: nat, q: nat, c: nat, e: nat| #[trigger] list(&self.pat, &self.sep, old(ctx).inp(), old(ctx).pos(), self.skip, None, n, q, c, e) && (
                if self.min <= c {
                    r is Ok && final(ctx).pos() == e
                } else {
                    r is Err
                }), //: C12
    //@entry
        let ghost mut gn: nat = 0;
        let ghost mut gq: nat = ctx.pos();
    //@loop 0
        invariant_except_break
            pairs(&self.pat, &self.sep, old(ctx).inp(), old(ctx).pos(), cnt as nat) == Some(ctx.pos()),
            gn == cnt, gq == ctx.pos(), beg == ctx.pos(), cnt <= ctx.pos() - old(ctx).pos(),
        invariant
            ctx.inp() == old(ctx).inp(), ctx.wf(),
            old(ctx).pos() <= ctx.pos(), offset == old(ctx).pos(), progress(&self.pat, &self.sep, old(ctx).inp()),
            total.beg == old(ctx).pos(), total.len == ctx.pos() - old(ctx).pos(),
        ensures
            list(&self.pat, &self.sep, old(ctx).inp(), old(ctx).pos(), self.skip, None, gn, gq, cnt as nat, ctx.pos()),
        decreases ctx.size() - ctx.pos()
    //@body 0
        proof { gn = cnt as nat; gq = ctx.pos(); }
    //@bodyend 0
        proof { gn = cnt as nat; gq = ctx.pos(); }
    //@end
}

pub struct SepCollect<P, S> { pat: P, sep: S, skip: bool, min: usize }

impl<P, S> SepCollect<P, S> {
    //@fn file=src/ctor/sep.rs owner=SepCollect trait=Regex fn=try_parse props=C10
    //@sub CRange<usize> => CRange
    fn try_parse(&self, ctx: &mut C) -> (r: Result<Span, Error>)
        requires
            old(ctx).wf(),
            progress(&self.pat, &self.sep, old(ctx).inp()),
        ensures
            final(ctx).inp() == old(ctx).inp(),
            r is Err ==> final(ctx).pos() == old(ctx).pos(), //: C01
            r is Ok ==> r->Ok_0.beg == old(ctx).pos() && r->Ok_0.beg + r->Ok_0.len == final(ctx).pos() && final(ctx).pos() <= final(ctx).size(), //: C02
            exists|n: nat, q: nat, c: nat, e: nat| #[trigger] list(&self.pat, &self.sep, old(ctx).inp(), old(ctx).pos(), self.skip, None, n, q, c, e) && (
                if self.min <= c {
                    r == Ok::<Span, Error>(Span { beg: old(ctx).pos() as usize, len: (e - old(ctx).pos()) as usize }) && final(ctx).pos() == e
                } else {
                    r is Err && final(ctx).pos() == old(ctx).pos()
                }),
            exists|n: nat, q: nat, c: nat, e: nat| #[trigger] list(&self.pat, &self.sep, old(ctx).inp(), old(ctx).pos(), self.skip, None, n, q, c, e) && (
                if self.min <= c {
                    r is Ok && final(ctx).pos() == e
                } else {
                    r is Err
                }), //: C12
    //@entry
        let ghost mut gn: nat = 0;
        let ghost mut gq: nat = ctx.pos();
    //@loop 0
        invariant_except_break
            pairs(&self.pat, &self.sep, old(ctx).inp(), old(ctx).pos(), cnt as nat) == Some(ctx.pos()),
            gn == cnt, gq == ctx.pos(), beg == ctx.pos(), cnt <= ctx.pos() - old(ctx).pos(),
        invariant
            ctx.inp() == old(ctx).inp(), ctx.wf(),
            old(ctx).pos() <= ctx.pos(), offset == old(ctx).pos(), progress(&self.pat, &self.sep, old(ctx).inp()),
            total.beg == old(ctx).pos(), total.len == ctx.pos() - old(ctx).pos(),
        ensures
            list(&self.pat, &self.sep, old(ctx).inp(), old(ctx).pos(), self.skip, None, gn, gq, cnt as nat, ctx.pos()),
        decreases ctx.size() - ctx.pos()
    //@body 0
        proof { gn = cnt as nat; gq = ctx.pos(); }
    //@bodyend 0
        proof { gn = cnt as nat; gq = ctx.pos(); }
    //@end
}

pub struct Separate2<P, S, const M: usize, const N: usize> { pat: P, sep: S, skip: bool }

impl<P, S, const M: usize, const N: usize> Separate2<P, S, M, N> {
    //@fn file=src/ctor/sep.rs owner=Separate2 trait=Regex fn=try_parse props=C10
    //@sub CRange<usize> => CRange
    fn try_parse(&self, ctx: &mut C) -> (r: Result<Span, Error>)
        requires
            old(ctx).wf(),
        ensures
            final(ctx).inp() == old(ctx).inp(),
            r is Err ==> final(ctx).pos() == old(ctx).pos(), //: C01
            r is Ok ==> r->Ok_0.beg == old(ctx).pos() && r->Ok_0.beg + r->Ok_0.len == final(ctx).pos() && final(ctx).pos() <= final(ctx).size(), //: C02
            exists|n: nat, q: nat, c: nat, e: nat| #[trigger] list(&self.pat, &self.sep, old(ctx).inp(), old(ctx).pos(), self.skip, Some(N as nat), n, q, c, e) && (
                if M <= c {
                    r == Ok::<Span, Error>(Span { beg: old(ctx).pos() as usize, len: (e - old(ctx).pos()) as usize }) && final(ctx).pos() == e
                } else {
                    r is Err && final(ctx).pos() == old(ctx).pos()
                }),
            exists|n: nat, q: nat, c: nat, e: nat| #[trigger] list(&self.pat, &self.sep, old(ctx).inp(), old(ctx).pos(), self.skip, Some(N as nat), n, q, c, e) && (
                if M <= c {
                    r is Ok && final(ctx).pos() == e
                } else {
                    r is Err
                }), //: C12
    //@entry
        let ghost mut gn: nat = 0;
        let ghost mut gq: nat = ctx.pos();
    //@loop 0
        invariant_except_break
            pairs(&self.pat, &self.sep, old(ctx).inp(), old(ctx).pos(), cnt as nat) == Some(ctx.pos()),
            gn == cnt, gq == ctx.pos(), beg == ctx.pos(),
        invariant
            ctx.inp() == old(ctx).inp(), ctx.wf(),
            old(ctx).pos() <= ctx.pos(), offset == old(ctx).pos(), cnt <= N,
            total.beg == old(ctx).pos(), total.len == ctx.pos() - old(ctx).pos(),
        ensures
            list(&self.pat, &self.sep, old(ctx).inp(), old(ctx).pos(), self.skip, Some(N as nat), gn, gq, cnt as nat, ctx.pos()),
        decreases N - cnt
    //@body 0
        proof { gn = cnt as nat; gq = ctx.pos(); }
    //@bodyend 0
        proof { gn = cnt as nat; gq = ctx.pos(); }
    //@end
}

impl<P, S> Separate<P, S> {
    //@fn file=src/ctor/sep.rs owner=Separate trait=Ctor fn=construct props=C10
    //@sub CRange<usize> => CRange
    fn construct<O, H>(&self, ctx: &mut C, func: &mut H) -> (r: Result<crate::alloc::Vec<O>, Error>)
        where P: Ctor<O, H>
        requires
            old(ctx).wf(),
            cprogress::<O, H, P, S>(&self.pat, &self.sep, old(ctx).inp()),
        ensures
            final(ctx).inp() == old(ctx).inp(),
            r is Err ==> final(ctx).pos() == old(ctx).pos(), //: C01
            exists|n: nat, t: CSt<O, H>, v: Seq<O>, e: nat| #[trigger] clist(&self.pat, &self.sep, old(ctx).inp(), old(ctx).pos(), *old(func), self.skip, None, n, t, v, e) && (
                if self.min <= v.len() {
                    r is Ok && r->Ok_0@ == v && final(ctx).pos() == e
                } else {
                    r is Err && final(ctx).pos() == old(ctx).pos()
                }),
            exists|n: nat, t: CSt<O, H>, v: Seq<O>, e: nat| #[trigger] clist(&self.pat, &self.sep, old(ctx).inp(), old(ctx).pos(), *old(func), self.skip, None, n, t, v, e) && (
                if self.min <= v.len() {
                    r is Ok && final(ctx).pos() == e
                } else {
                    r is Err
                }), //: C12
    //@entry
        let ghost h0 = *func;
        let ghost mut gn: nat = 0;
        let ghost mut gt = CSt::<O, H> { pos: ctx.pos(), h: *func, vals: Seq::empty() };
    //@loop 0
        invariant_except_break
            cpairs(&self.pat, &self.sep, old(ctx).inp(), old(ctx).pos(), h0, gn) == Some(gt),
            gt == (CSt { pos: ctx.pos(), h: *func, vals: vals@ }), beg == ctx.pos(), gn == vals@.len(), gn <= ctx.pos() - old(ctx).pos(),
        invariant
            ctx.inp() == old(ctx).inp(), ctx.wf(), h0 == *old(func),
            old(ctx).pos() <= ctx.pos(), offset == old(ctx).pos(), cprogress::<O, H, P, S>(&self.pat, &self.sep, old(ctx).inp()),
        ensures
            clist(&self.pat, &self.sep, old(ctx).inp(), old(ctx).pos(), h0, self.skip, None, gn, gt, vals@, ctx.pos()),
        decreases ctx.size() - ctx.pos()
    //@body 0
        proof { gn = vals@.len(); gt = CSt { pos: ctx.pos(), h: *func, vals: vals@ }; }
    //@bodyend 0
        proof { gn = vals@.len(); gt = CSt { pos: ctx.pos(), h: *func, vals: vals@ }; }
    //@end
}

impl<P, S> SepCollect<P, S> {
    //@fn file=src/ctor/sep.rs owner=SepCollect trait=Ctor fn=construct props=C10
    //@sub CRange<usize> => CRange
    fn construct<O, V, H>(&self, ctx: &mut C, func: &mut H) -> (r: Result<V, Error>)
        where P: Ctor<O, H>
        requires
            old(ctx).wf(),
            cprogress::<O, H, P, S>(&self.pat, &self.sep, old(ctx).inp()),
        ensures
            final(ctx).inp() == old(ctx).inp(),
            r is Err ==> final(ctx).pos() == old(ctx).pos(), //: C01
            exists|n: nat, t: CSt<O, H>, v: Seq<O>, e: nat| #[trigger] clist(&self.pat, &self.sep, old(ctx).inp(), old(ctx).pos(), *old(func), self.skip, None, n, t, v, e) && (
                if self.min <= v.len() {
                    r == Ok::<V, Error>(collected(v)) && final(ctx).pos() == e
                } else {
                    r is Err && final(ctx).pos() == old(ctx).pos()
                }),
            exists|n: nat, t: CSt<O, H>, v: Seq<O>, e: nat| #[trigger] clist(&self.pat, &self.sep, old(ctx).inp(), old(ctx).pos(), *old(func), self.skip, None, n, t, v, e) && (
                if self.min <= v.len() {
                    r is Ok && final(ctx).pos() == e
                } else {
                    r is Err
                }), //: C12
    //@entry
        let ghost h0 = *func;
        let ghost mut gn: nat = 0;
        let ghost mut gt = CSt::<O, H> { pos: ctx.pos(), h: *func, vals: Seq::empty() };
    //@loop 0
        invariant_except_break
            beg == ctx.pos(), cnt <= ctx.pos() - old(ctx).pos() + 1,
            if end {
                clist(&self.pat, &self.sep, old(ctx).inp(), old(ctx).pos(), h0, self.skip, None, gn, gt, __acc@, ctx.pos())
            } else {
                cpairs(&self.pat, &self.sep, old(ctx).inp(), old(ctx).pos(), h0, gn) == Some(gt)
                && gt == (CSt { pos: ctx.pos(), h: *func, vals: __acc@ }) && gn == cnt && cnt <= ctx.pos() - old(ctx).pos()
            },
        invariant
            cnt == __acc@.len(), gn <= __acc@.len(),
            ctx.inp() == old(ctx).inp(), ctx.wf(), h0 == *old(func),
            old(ctx).pos() <= ctx.pos(), offset == old(ctx).pos(), cprogress::<O, H, P, S>(&self.pat, &self.sep, old(ctx).inp()),
        ensures
            clist(&self.pat, &self.sep, old(ctx).inp(), old(ctx).pos(), h0, self.skip, None, gn, gt, __acc@, ctx.pos()),
        decreases if end { 0 } else { 1 + ctx.size() - ctx.pos() }
    //@body 0
        proof { if !end { gn = __acc@.len(); gt = CSt { pos: ctx.pos(), h: *func, vals: __acc@ }; } }
    //@bodyend 0
        proof { if !end { gn = __acc@.len(); gt = CSt { pos: ctx.pos(), h: *func, vals: __acc@ }; } }
    //@end
}

impl<P, S, const M: usize, const N: usize> Separate2<P, S, M, N> {
    //@fn file=src/ctor/sep.rs owner=Separate2 trait=Ctor fn=construct props=C10
    //@sub CRange<usize> => CRange
    fn construct<O, H>(&self, ctx: &mut C, func: &mut H) -> (r: Result<[Option<O>; N], Error>)
        where P: Ctor<O, H>
        requires
            old(ctx).wf(),
        ensures
            final(ctx).inp() == old(ctx).inp(),
            r is Err ==> final(ctx).pos() == old(ctx).pos(), //: C01
            exists|n: nat, t: CSt<O, H>, v: Seq<O>, e: nat| #[trigger] clist(&self.pat, &self.sep, old(ctx).inp(), old(ctx).pos(), *old(func), self.skip, Some(N as nat), n, t, v, e) && (
                if M <= v.len() {
                    r is Ok && filled(r->Ok_0@, v) && final(ctx).pos() == e
                } else {
                    r is Err && final(ctx).pos() == old(ctx).pos()
                }),
            exists|n: nat, t: CSt<O, H>, v: Seq<O>, e: nat| #[trigger] clist(&self.pat, &self.sep, old(ctx).inp(), old(ctx).pos(), *old(func), self.skip, Some(N as nat), n, t, v, e) && (
                if M <= v.len() {
                    r is Ok && final(ctx).pos() == e
                } else {
                    r is Err
                }), //: C12
    //@entry
        let ghost h0 = *func;
        let ghost mut gn: nat = 0;
        let ghost mut gt = CSt::<O, H> { pos: ctx.pos(), h: *func, vals: Seq::empty() };
    //@loop 0
        invariant_except_break
            cpairs(&self.pat, &self.sep, old(ctx).inp(), old(ctx).pos(), h0, gn) == Some(gt),
            gt.pos == ctx.pos(), gt.h == *func, gt.vals =~= somes(vals@, cnt as nat), beg == ctx.pos(), gn == cnt as nat,
        invariant
            ctx.inp() == old(ctx).inp(), ctx.wf(), h0 == *old(func),
            old(ctx).pos() <= ctx.pos(), offset == old(ctx).pos(), cnt <= N, filled(vals@, somes(vals@, cnt as nat)),
        ensures
            clist(&self.pat, &self.sep, old(ctx).inp(), old(ctx).pos(), h0, self.skip, Some(N as nat), gn, gt, somes(vals@, cnt as nat), ctx.pos()),
        decreases N - cnt
    //@body 0
        proof { gn = cnt as nat; gt = CSt { pos: ctx.pos(), h: *func, vals: somes(vals@, cnt as nat) }; }
        let ghost c0 = cnt;
    //@bodyend 0
        proof {
            assert(somes(vals@, cnt as nat) =~= gt.vals.push(vals@[c0 as int]->Some_0));
            gn = cnt as nat;
            gt = CSt { pos: ctx.pos(), h: *func, vals: somes(vals@, cnt as nat) };
        }
    //@end
}
// ------------------------------------------- matching predicts constructing (C12)
/// plain matching and constructing succeed together and end together (when no conversion rejects the value)
pub open spec fn agree<M, H, P: Ctor<M, H>>(p: &P) -> bool {
    forall|inp: int, pos: nat, h: H| #![trigger con(p, inp, pos, h)]
        (mat(p, inp, pos) is Some == con(p, inp, pos, h) is Some) && (mat(p, inp, pos) is Some ==> mat(p, inp, pos)->Some_0.1 == con(p, inp, pos, h)->Some_0.0)
}
proof fn pairs_agree<M, H, P: Ctor<M, H>, S>(p: &P, s: &S, inp: int, pos: nat, h: H, n: nat)
    requires agree::<M, H, P>(p),
    ensures
        pairs(p, s, inp, pos, n) is Some == cpairs::<M, H, P, S>(p, s, inp, pos, h, n) is Some,
        pairs(p, s, inp, pos, n) is Some ==> pairs(p, s, inp, pos, n)->Some_0 == cpairs::<M, H, P, S>(p, s, inp, pos, h, n)->Some_0.pos,
    decreases n
{
    if n > 0 { pairs_agree::<M, H, P, S>(p, s, inp, pos, h, (n - 1) as nat); }
}
proof fn pairs_shorter<P, S>(p: &P, s: &S, inp: int, pos: nat, n: nat, m: nat)
    requires pairs(p, s, inp, pos, n) is Some, m <= n,
    ensures pairs(p, s, inp, pos, m) is Some,
    decreases n
{
    if m < n { pairs_shorter(p, s, inp, pos, (n - 1) as nat, m); }
}
proof fn cpairs_len<M, H, P: Ctor<M, H>, S>(p: &P, s: &S, inp: int, pos: nat, h: H, n: nat)
    ensures cpairs::<M, H, P, S>(p, s, inp, pos, h, n) is Some ==> cpairs::<M, H, P, S>(p, s, inp, pos, h, n)->Some_0.vals.len() == n,
    decreases n
{
    if n > 0 { cpairs_len::<M, H, P, S>(p, s, inp, pos, h, (n - 1) as nat); }
}
/// the list constructs what it matches: as many values as elements, the same end
proof fn list_agrees<M, H, P: Ctor<M, H>, S>(p: &P, s: &S, inp: int, pos: nat, h: H, skip: bool, max: Option<nat>,
    n: nat, q: nat, c: nat, e: nat, m: nat, t: CSt<M, H>, v: Seq<M>, ce: nat)
    requires
        agree::<M, H, P>(p), list(p, s, inp, pos, skip, max, n, q, c, e), clist(p, s, inp, pos, h, skip, max, m, t, v, ce),
    ensures c == v.len(), e == ce,
{
    pairs_agree::<M, H, P, S>(p, s, inp, pos, h, n);
    pairs_agree::<M, H, P, S>(p, s, inp, pos, h, m);
    cpairs_len::<M, H, P, S>(p, s, inp, pos, h, m);
    assert(con::<M, H, P>(p, inp, t.pos, t.h) is Some == mat(p, inp, t.pos) is Some);
    if n < m {
        pairs_shorter(p, s, inp, pos, m, (n + 1) as nat);
    }
    if m < n {
        pairs_shorter(p, s, inp, pos, n, (m + 1) as nat);
    }
}
} // verus!
