//@include prelude
//@include range

/// an item of the input
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Item { _x: () }

/// what `peek` yields at a position: the remaining items with their distance from it
pub uninterp spec fn items(inp: int, pos: nat) -> Seq<(usize, Item)>;
/// whether `peek` succeeds there
pub uninterp spec fn peekable(inp: int, pos: nat) -> bool;
/// C03: the items tile the rest of the input, beginning at the position
pub open spec fn tiled(s: Seq<(usize, Item)>, rem: int) -> bool {
    &&& rem >= 0
    &&& s.len() == 0 <==> rem == 0
    &&& s.len() > 0 ==> s[0].0 == 0
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 < (#[trigger] s[j]).0
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 < rem
}

#[verifier::external_body]
pub struct Iter { _x: () }
impl Iter {
    pub uninterp spec fn src(&self) -> Seq<(usize, Item)>;
    pub uninterp spec fn idx(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, Item)>)
        requires old(self).idx() <= old(self).src().len(),
        ensures
            final(self).src() == old(self).src(),
            if old(self).idx() < old(self).src().len() {
                r == Some(old(self).src()[old(self).idx() as int]) && final(self).idx() == old(self).idx() + 1
            } else { r is None && final(self).idx() == old(self).idx() },
    { unimplemented!() }
}
impl C {
    /// C03
    #[verifier::external_body]
    pub fn peek(&self) -> (r: Result<Iter, Error>)
        ensures
            r is Ok <==> peekable(self.inp(), self.pos()),
            r is Ok ==> self.pos() <= self.size() && r->Ok_0.idx() == 0 && r->Ok_0.src() == items(self.inp(), self.pos())
                && tiled(items(self.inp(), self.pos()), self.size() - self.pos()),
    { unimplemented!() }
}
/// a unit: any set of items
pub trait Neu {
    spec fn acc(&self, t: Item) -> bool;
    spec fn min(&self) -> usize;
    fn is_match(&self, t: &Item) -> (r: bool) ensures r == self.acc(*t);
    fn min_length(&self) -> (r: usize) ensures r == self.min();
}
/// a condition: any function of the context and the item
pub trait NeuCond {
    spec fn chk(&self, inp: int, pos: nat, i: (usize, Item)) -> Result<bool, Error>;
    fn check(&self, ctx: &C, i: &(usize, Item)) -> (r: Result<bool, Error>) ensures r == self.chk(ctx.inp(), ctx.pos(), *i);
}
/// where the n-th item begins
pub open spec fn at(s: Seq<(usize, Item)>, rem: int, n: int) -> int { if n < s.len() { s[n].0 as int } else { rem } }
/// C15: no accepted item is narrower than the declared minimum
pub open spec fn narrow<U: Neu>(u: &U, s: Seq<(usize, Item)>, rem: int) -> bool {
    forall|i: int| 0 <= i < s.len() && u.acc((#[trigger] s[i]).1) ==> at(s, rem, i + 1) - s[i].0 >= u.min()
}
pub open spec fn yes<U: Neu, I: NeuCond>(u: &U, c: &I, inp: int, pos: nat, i: (usize, Item)) -> bool {
    u.acc(i.1) && c.chk(inp, pos, i) == Ok::<bool, Error>(true)
}
pub open spec fn no<U: Neu, I: NeuCond>(u: &U, c: &I, inp: int, pos: nat, i: (usize, Item)) -> bool {
    !u.acc(i.1) || c.chk(inp, pos, i) == Ok::<bool, Error>(false)
}
/// the longest run of accepted items has n items, no more than max (None: no limit)
pub open spec fn run<U: Neu, I: NeuCond>(u: &U, c: &I, inp: int, pos: nat, max: Option<nat>, n: nat) -> bool {
    let s = items(inp, pos);
    &&& n <= s.len()
    &&& match max { Some(m) => n <= m, None => true }
    &&& forall|j: int| 0 <= j < n ==> yes(u, c, inp, pos, #[trigger] s[j])
    &&& max == Some(n) || n == s.len() || no(u, c, inp, pos, s[n as int])
}
/// succeeds exactly when the run is long enough, and then consumes the run and nothing more
pub open spec fn taken<U: Neu, I: NeuCond>(u: &U, c: &I, max: Option<nat>, r: Result<Span, Error>, c0: C, c1: C, ok: spec_fn(nat) -> bool) -> bool {
    &&& c1.inp() == c0.inp()
    &&& match r {
        Ok(sp) => exists|n: nat| #[trigger] run(u, c, c0.inp(), c0.pos(), max, n) && ok(n) && sp.beg == c0.pos()
            && sp.len == (if n == 0 { 0 } else { at(items(c0.inp(), c0.pos()), c0.size() - c0.pos(), n as int) })
            && c1.pos() == c0.pos() + sp.len,
        Err(_) => c1.pos() == c0.pos() && forall|n: nat| #[trigger] run(u, c, c0.inp(), c0.pos(), max, n) ==> !ok(n),
    }
}
/// the run is unique
pub proof fn unique<U: Neu, I: NeuCond>(u: &U, c: &I, inp: int, pos: nat, max: Option<nat>, n: nat, m: nat)
    requires run(u, c, inp, pos, max, n), run(u, c, inp, pos, max, m),
    ensures n == m,
{
    let s = items(inp, pos);
    if n < m { assert(yes(u, c, inp, pos, s[n as int])); }
    if m < n { assert(yes(u, c, inp, pos, s[m as int])); }
}
/// n accepted items are at least n times the minimum width
pub proof fn wide<U: Neu, I: NeuCond>(u: &U, c: &I, inp: int, pos: nat, rem: int, n: nat)
    requires
        tiled(items(inp, pos), rem), narrow(u, items(inp, pos), rem), n <= items(inp, pos).len(),
        forall|j: int| 0 <= j < n ==> yes(u, c, inp, pos, #[trigger] items(inp, pos)[j]),
    ensures at(items(inp, pos), rem, n as int) >= n * u.min(),
    decreases n
{
    let s = items(inp, pos);
    if n > 0 {
        wide(u, c, inp, pos, rem, (n - 1) as nat);
        assert(yes(u, c, inp, pos, s[n - 1]));
        assert(n * u.min() == (n - 1) * u.min() + u.min()) by (nonlinear_arith);
    }
}

//@fn file=src/neu.rs fn=calc_length opt=beg,end props=C04
pub fn calc_length(beg: Option<usize>, end: Option<usize>, remaining_len: usize) -> (r: usize)
    requires
        beg is Some ==> beg->Some_0 <= (if end is Some { end->Some_0 } else { remaining_len }),
    ensures
        r == match beg { Some(v) => (if end is Some { end->Some_0 } else { remaining_len }) - v, None => 0 },
//@end

//@fn file=src/ctx.rs fn=new_span_inc props=C04
pub fn new_span_inc(ctx: &mut C, len: usize) -> (r: Span)
    requires old(ctx).pos() + len <= usize::MAX,
    ensures
        r.beg == old(ctx).pos(), r.len == len,
        final(ctx).inp() == old(ctx).inp(), final(ctx).pos() == old(ctx).pos() + len,
//@end

pub struct Once<U, I> { pub unit: U, pub cond: I }
impl<U: Neu, I: NeuCond> Once<U, I> {
    //@fn file=src/neu/once.rs owner=Once trait=Regex fn=try_parse props=C04
    pub fn try_parse(&self, ctx: &mut C) -> (r: Result<Span, Error>)
        ensures
            if peekable(old(ctx).inp(), old(ctx).pos()) { taken(&self.unit, &self.cond, Some(1), r, *old(ctx), *final(ctx), |n: nat| n == 1) }
            else { r is Err && final(ctx).inp() == old(ctx).inp() && final(ctx).pos() == old(ctx).pos() },
    //@entry
        proof {
            let (u, c, inp, pos) = (&self.unit, &self.cond, ctx.inp(), ctx.pos());
            assert forall|n: nat| #[trigger] run(u, c, inp, pos, Some(1), n) && n == 1 implies yes(u, c, inp, pos, items(inp, pos)[0]) by {}
            assert(peekable(inp, pos) && items(inp, pos).len() > 0 && yes(u, c, inp, pos, items(inp, pos)[0]) ==> run(u, c, inp, pos, Some(1), 1));
        }
    //@end
}

pub struct Many1<U, I> { pub unit: U, pub cond: I }
impl<U: Neu, I: NeuCond> Many1<U, I> {
    //@fn file=src/neu/once.rs owner=Many1 trait=Regex fn=try_parse props=C04
    pub fn try_parse(&self, ctx: &mut C) -> (r: Result<Span, Error>)
        ensures
            if peekable(old(ctx).inp(), old(ctx).pos()) { taken(&self.unit, &self.cond, None, r, *old(ctx), *final(ctx), |n: nat| n >= 1) }
            else { r is Err && final(ctx).inp() == old(ctx).inp() && final(ctx).pos() == old(ctx).pos() },
    //@entry
        let ghost mut n: nat = 0;
    //@loop 0
        invariant_except_break
            end is None, n == iter.idx(),
        invariant
            *ctx == *old(ctx), ctx.pos() <= ctx.size(), remaining_len == ctx.size() - ctx.pos(), peekable(old(ctx).inp(), old(ctx).pos()),
            iter.src() == items(ctx.inp(), ctx.pos()), tiled(iter.src(), remaining_len as int),
            iter.idx() <= iter.src().len(), n <= iter.idx(),
            forall|j: int| 0 <= j < n ==> yes(&self.unit, &self.cond, ctx.inp(), ctx.pos(), #[trigger] iter.src()[j]),
            beg == (if n == 0 { None } else { Some(0usize) }),
            ret is Err,
        ensures
            run(&self.unit, &self.cond, ctx.inp(), ctx.pos(), None, n),
            end == (if n < iter.src().len() { Some(iter.src()[n as int]) } else { None }),
        decreases iter.src().len() - iter.idx()
    //@bodyend 0
        proof { n = n + 1; }
    //@end
}

pub struct Opt<U, I> { pub unit: U, pub cond: I }
impl<U: Neu, I: NeuCond> Opt<U, I> {
    //@fn file=src/neu/opt.rs owner=Opt trait=Regex fn=try_parse props=C04
    pub fn try_parse(&self, ctx: &mut C) -> (r: Result<Span, Error>)
        ensures
            if peekable(old(ctx).inp(), old(ctx).pos()) { taken(&self.unit, &self.cond, Some(1), r, *old(ctx), *final(ctx), |n: nat| true) }
            else { r == Ok::<Span, Error>(Span { beg: old(ctx).pos() as usize, len: 0 }) && final(ctx).inp() == old(ctx).inp() && final(ctx).pos() == old(ctx).pos() },
    //@entry
        proof {
            let (u, c, inp, pos) = (&self.unit, &self.cond, ctx.inp(), ctx.pos());
            let s = items(inp, pos);
            assert forall|n: nat| #[trigger] run(u, c, inp, pos, Some(1), n) implies (n == 0 || (n == 1 && yes(u, c, inp, pos, s[0]))) by {}
            assert(s.len() > 0 && yes(u, c, inp, pos, s[0]) ==> run(u, c, inp, pos, Some(1), 1));
            assert(s.len() == 0 || no(u, c, inp, pos, s[0]) ==> run(u, c, inp, pos, Some(1), 0));
        }
    //@end
}

pub struct Many0<U, I> { pub unit: U, pub cond: I }
impl<U: Neu, I: NeuCond> Many0<U, I> {
    //@fn file=src/neu/opt.rs owner=Many0 trait=Regex fn=try_parse props=C04
    pub fn try_parse(&self, ctx: &mut C) -> (r: Result<Span, Error>)
        ensures
            if peekable(old(ctx).inp(), old(ctx).pos()) { taken(&self.unit, &self.cond, None, r, *old(ctx), *final(ctx), |n: nat| true) }
            else { r == Ok::<Span, Error>(Span { beg: old(ctx).pos() as usize, len: 0 }) && final(ctx).inp() == old(ctx).inp() && final(ctx).pos() == old(ctx).pos() },
    //@entry
        let ghost mut n: nat = 0;
    //@loop 0
        invariant_except_break
            end is None, n == iter.idx(),
        invariant
            *ctx == *old(ctx), ctx.pos() <= ctx.size(), remaining_len == ctx.size() - ctx.pos(), peekable(old(ctx).inp(), old(ctx).pos()),
            iter.src() == items(ctx.inp(), ctx.pos()), tiled(iter.src(), remaining_len as int),
            iter.idx() <= iter.src().len(), n <= iter.idx(),
            forall|j: int| 0 <= j < n ==> yes(&self.unit, &self.cond, ctx.inp(), ctx.pos(), #[trigger] iter.src()[j]),
            beg == (if n == 0 { None } else { Some(0usize) }),
            ret == Ok::<Span, Error>(Span { beg: ctx.pos() as usize, len: 0 }),
        ensures
            run(&self.unit, &self.cond, ctx.inp(), ctx.pos(), None, n),
            end == (if n < iter.src().len() { Some(iter.src()[n as int]) } else { None }),
        decreases iter.src().len() - iter.idx()
    //@bodyend 0
        proof { n = n + 1; }
    //@end
}

pub struct Between<const M: usize, const N: usize, U, I> { pub unit: U, pub cond: I }
impl<const M: usize, const N: usize, U: Neu, I: NeuCond> Between<M, N, U, I> {
    //@fn file=src/neu/times.rs owner=Between trait=Regex fn=try_parse props=C04
    pub fn try_parse(&self, ctx: &mut C) -> (r: Result<Span, Error>)
        requires
            peekable(old(ctx).inp(), old(ctx).pos()) ==> narrow(&self.unit, items(old(ctx).inp(), old(ctx).pos()), old(ctx).size() - old(ctx).pos()),
        ensures
            if peekable(old(ctx).inp(), old(ctx).pos()) { taken(&self.unit, &self.cond, Some(N as nat), r, *old(ctx), *final(ctx), |n: nat| M <= n) }
            else { r is Err && final(ctx).inp() == old(ctx).inp() && final(ctx).pos() == old(ctx).pos() },
    //@entry
        proof { enough(&self.unit, &self.cond, *ctx, M as nat); }
    //@loop 0
        invariant_except_break
            end is None, cnt == iter.idx(),
        invariant
            *ctx == *old(ctx), ctx.pos() <= ctx.size(), remaining_len == ctx.size() - ctx.pos(), peekable(old(ctx).inp(), old(ctx).pos()),
            iter.src() == items(ctx.inp(), ctx.pos()), tiled(iter.src(), remaining_len as int),
            iter.idx() <= iter.src().len(), cnt <= iter.idx(), cnt <= N,
            forall|j: int| 0 <= j < cnt ==> yes(&self.unit, &self.cond, ctx.inp(), ctx.pos(), #[trigger] iter.src()[j]),
            beg == (if cnt == 0 { None } else { Some(0usize) }),
            ret is Err,
        ensures
            run(&self.unit, &self.cond, ctx.inp(), ctx.pos(), Some(N as nat), cnt as nat),
            end == (if cnt < iter.idx() { Some(iter.src()[cnt as int]) } else { None }),
        decreases N - cnt
    //@after 0
        proof {
            let (u, c, inp, pos) = (&self.unit, &self.cond, ctx.inp(), ctx.pos());
            assert forall|n: nat| #[trigger] run(u, c, inp, pos, Some(N as nat), n) implies n == cnt by { unique(u, c, inp, pos, Some(N as nat), n, cnt as nat); }
        }
    //@end
}
pub open spec fn limit(r: CRange) -> Option<nat> {
    match r.hi {
        core::ops::Bound::Included(v) => Some(v as nat),
        core::ops::Bound::Excluded(v) => Some(if v == 0 { 0 } else { (v - 1) as nat }),
        core::ops::Bound::Unbounded => None,
    }
}
pub open spec fn lowest(r: CRange) -> nat {
    match r.lo {
        core::ops::Bound::Included(v) => v as nat,
        core::ops::Bound::Excluded(v) => v as nat + 1,
        core::ops::Bound::Unbounded => 0,
    }
}
pub struct Times<U, I> { pub unit: U, pub cond: I, pub range: CRange }
impl<U: Neu, I: NeuCond> Times<U, I> {
    //@fn file=src/neu/times.rs owner=Times trait=Regex fn=try_parse props=C04
    pub fn try_parse(&self, ctx: &mut C) -> (r: Result<Span, Error>)
        requires
            peekable(old(ctx).inp(), old(ctx).pos()) ==> narrow(&self.unit, items(old(ctx).inp(), old(ctx).pos()), old(ctx).size() - old(ctx).pos()),
        ensures
            if peekable(old(ctx).inp(), old(ctx).pos()) { taken(&self.unit, &self.cond, limit(self.range), r, *old(ctx), *final(ctx), |n: nat| within(self.range, n as int)) }
            else { r is Err && final(ctx).inp() == old(ctx).inp() && final(ctx).pos() == old(ctx).pos() },
    //@entry
        proof {
            enough(&self.unit, &self.cond, *ctx, lowest(self.range));
            if tiled(items(ctx.inp(), ctx.pos()), ctx.size() - ctx.pos()) { fits(items(ctx.inp(), ctx.pos()), ctx.size() - ctx.pos(), items(ctx.inp(), ctx.pos()).len() as int); }
            let m = self.unit.min() as int;
            let l = lowest(self.range) as int;
            assert(l * m >= 0 && (l >= 1 ==> (l - 1) * m <= l * m) && (l >= 2 ==> (l - 2) * m <= l * m)) by (nonlinear_arith) requires m >= 0, l >= 0;
        }
    //@loop 0
        invariant_except_break
            end is None, cnt == iter.idx(),
        invariant
            *ctx == *old(ctx), ctx.pos() <= ctx.size(), remaining_len == ctx.size() - ctx.pos(), peekable(old(ctx).inp(), old(ctx).pos()),
            iter.src() == items(ctx.inp(), ctx.pos()), tiled(iter.src(), remaining_len as int),
            iter.idx() <= iter.src().len(), cnt <= iter.idx(), limit(self.range) is Some ==> cnt <= limit(self.range)->Some_0,
            match __cond_0 { Some(m) => limit(self.range) == Some(m as nat), None => limit(self.range) is None },
            iter.src().len() <= remaining_len,
            forall|j: int| 0 <= j < cnt ==> yes(&self.unit, &self.cond, ctx.inp(), ctx.pos(), #[trigger] iter.src()[j]),
            beg == (if cnt == 0 { None } else { Some(0usize) }),
            ret is Err,
        ensures
            run(&self.unit, &self.cond, ctx.inp(), ctx.pos(), limit(self.range), cnt as nat),
            end == (if cnt < iter.idx() { Some(iter.src()[cnt as int]) } else { None }),
        decreases iter.src().len() - cnt
    //@after 0
        proof {
            let (u, c, inp, pos) = (&self.unit, &self.cond, ctx.inp(), ctx.pos());
            assert forall|n: nat| #[trigger] run(u, c, inp, pos, limit(self.range), n) implies n == cnt by { unique(u, c, inp, pos, limit(self.range), n, cnt as nat); }
        }
    //@end
}

pub struct NeureThen<L, R, I> { pub left: L, pub right: R, pub cond: I }
impl<L: Neu, R: Neu, I: NeuCond> NeureThen<L, R, I> {
    //@fn file=src/neu/then.rs owner=NeureThen trait=Regex fn=try_parse props=C04
    pub fn try_parse(&self, ctx: &mut C) -> (r: Result<Span, Error>)
        requires
            self.left.min() <= isize::MAX, self.right.min() <= isize::MAX,
            peekable(old(ctx).inp(), old(ctx).pos()) ==> narrow(&self.left, items(old(ctx).inp(), old(ctx).pos()), old(ctx).size() - old(ctx).pos())
                && narrow(&self.right, items(old(ctx).inp(), old(ctx).pos()), old(ctx).size() - old(ctx).pos()),
        ensures
            final(ctx).inp() == old(ctx).inp(),
            r is Err ==> final(ctx).pos() == old(ctx).pos(), //: C01
            r is Ok ==> r->Ok_0.beg == old(ctx).pos() && r->Ok_0.beg + r->Ok_0.len == final(ctx).pos() && final(ctx).pos() <= final(ctx).size(), //: C02
            ({
                let s = items(old(ctx).inp(), old(ctx).pos());
                let (inp, pos) = (old(ctx).inp(), old(ctx).pos());
                if peekable(inp, pos) && s.len() >= 2 && yes(&self.left, &self.cond, inp, pos, s[0]) && yes(&self.right, &self.cond, inp, pos, s[1]) {
                    &&& r is Ok && r->Ok_0.beg == pos && r->Ok_0.len == at(s, old(ctx).size() - pos, 2)
                    &&& final(ctx).pos() == pos + r->Ok_0.len
                } else {
                    r is Err && final(ctx).pos() == pos
                }
            }),
    //@end
}
/// there are no more items than units
pub proof fn fits(s: Seq<(usize, Item)>, rem: int, n: int)
    requires tiled(s, rem), 0 <= n <= s.len(),
    ensures n <= rem, n > 0 ==> s[n - 1].0 >= n - 1,
    decreases n
{
    if n > 0 { fits(s, rem, n - 1); if n > 1 { assert(s[n - 2].0 < s[n - 1].0); } assert(s[n - 1].0 < rem); }
}
/// fewer units remain than m accepted items need: no run of m items
pub proof fn enough<U: Neu, I: NeuCond>(u: &U, c: &I, ctx: C, m: nat)
    requires peekable(ctx.inp(), ctx.pos()) ==> narrow(u, items(ctx.inp(), ctx.pos()), ctx.size() - ctx.pos()),
    ensures
        peekable(ctx.inp(), ctx.pos()) && tiled(items(ctx.inp(), ctx.pos()), ctx.size() - ctx.pos()) ==>
            forall|max: Option<nat>, n: nat| #[trigger] run(u, c, ctx.inp(), ctx.pos(), max, n) && n >= m ==> ctx.size() - ctx.pos() >= m * u.min(),
{
    let s = items(ctx.inp(), ctx.pos());
    let rem = ctx.size() - ctx.pos();
    if peekable(ctx.inp(), ctx.pos()) && tiled(s, rem) {
        assert forall|max: Option<nat>, n: nat| #[trigger] run(u, c, ctx.inp(), ctx.pos(), max, n) && n >= m implies rem >= m * u.min() by {
            wide(u, c, ctx.inp(), ctx.pos(), rem, n);
            assert(n * u.min() >= m * u.min()) by (nonlinear_arith) requires n >= m, u.min() >= 0;
        }
    }
}
} // verus!
