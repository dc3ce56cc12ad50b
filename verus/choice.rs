//@include prelude

/// the selector of a choice: an alternative of each item (`sel`, `sel_kv`)
pub trait Sel<T, P> {
    spec fn sel(&self, t: &T) -> P;
    fn get<'x>(&self, t: &'x T) -> (r: &'x P)
        ensures *r == self.sel(t);
}
pub open spec fn alt<T, P, A: Sel<T, P>>(a: &A, s: Seq<T>, i: int, inp: int, pos: nat) -> Option<(nat, nat)> {
    mat(&a.sel(&s[i]), inp, pos)
}
/// the first alternative that matches is the i-th (none: i == len)
pub open spec fn first<T, P, A: Sel<T, P>>(a: &A, s: Seq<T>, inp: int, pos: nat, i: int) -> bool {
    &&& 0 <= i <= s.len()
    &&& forall|j: int| 0 <= j < i ==> (#[trigger] alt(a, s, j, inp, pos)) is None
    &&& i < s.len() ==> alt(a, s, i, inp, pos) is Some
}
/// among the first n alternatives the i-th ends farthest, the earliest of those (none matches: i == -1)
pub open spec fn best<T, P, A: Sel<T, P>>(a: &A, s: Seq<T>, inp: int, pos: nat, n: int, i: int) -> bool {
    &&& -1 <= i < n <= s.len()
    &&& i >= 0 ==> alt(a, s, i, inp, pos) is Some
    &&& forall|j: int| 0 <= j < n ==> match #[trigger] alt(a, s, j, inp, pos) {
        Some((b, e)) => i >= 0 && (if j < i { e < alt(a, s, i, inp, pos)->Some_0.1 } else { e <= alt(a, s, i, inp, pos)->Some_0.1 }),
        None => true,
    }
}

//@fn file=src/regex.rs fn=handler closure props=C06
//@sub t2p( => t2p.get(
pub fn regex_handler<T, P, A: Sel<T, P>>(err: Error, t2p: A, slice: &[T], ctx: &mut C) -> (r: Result<Span, Error>)
    requires
        old(ctx).wf(),
    ensures
        final(ctx).inp() == old(ctx).inp(),
        r is Err ==> final(ctx).pos() == old(ctx).pos(), //: C01
        r is Ok ==> old(ctx).pos() <= r->Ok_0.beg && r->Ok_0.beg + r->Ok_0.len == final(ctx).pos() && final(ctx).pos() <= final(ctx).size(), //: C02
        exists|i: int| #[trigger] first(&t2p, slice@, old(ctx).inp(), old(ctx).pos(), i) && (
            if i < slice@.len() { matched(alt(&t2p, slice@, i, old(ctx).inp(), old(ctx).pos()), *old(ctx), *final(ctx), r) }
            else { r is Err && final(ctx).pos() == old(ctx).pos() }),
//@loop 0
    invariant_except_break
        forall|j: int| 0 <= j < __i0 ==> (#[trigger] alt(&t2p, slice@, j, old(ctx).inp(), old(ctx).pos())) is None,
        ret is Err, ctx.pos() == old(ctx).pos(),
    invariant
        ctx.inp() == old(ctx).inp(), ctx.wf(), beg == old(ctx).pos(), 0 <= __i0 <= slice@.len(),
    ensures
        first(&t2p, slice@, old(ctx).inp(), old(ctx).pos(), if ret is Ok { __i0 - 1 } else { slice@.len() as int }),
        if ret is Ok { matched(alt(&t2p, slice@, __i0 - 1, old(ctx).inp(), old(ctx).pos()), *old(ctx), *ctx, ret) } else { ctx.pos() == old(ctx).pos() },
    decreases slice@.len() - __i0
//@end

/// the span kept is that of alternative w
pub open spec fn keeps<T, P, A: Sel<T, P>>(a: &A, s: Seq<T>, inp: int, pos: nat, l: Option<Span>, w: int) -> bool {
    match l {
        Some(l) => w >= 0 && alt(a, s, w, inp, pos) == Some((l.beg as nat, (l.beg + l.len) as nat)),
        None => w == -1,
    }
}
pub open spec fn ckeeps<T, P: SCtor<M, H>, M, H, A: Sel<T, P>>(a: &A, s: Seq<T>, inp: int, pos: nat, h: H, r: Option<(M, &T)>, end: nat, w: int) -> bool {
    match r {
        Some((v, item)) => w >= 0 && *item == s[w] && calt::<T, P, M, H, A>(a, s, w, inp, pos, h) == Some((end, v)),
        None => w == -1 && end == pos,
    }
}

//@fn file=src/regex.rs fn=handler_ltm closure props=C07
//@sub t2p( => t2p.get(
pub fn regex_handler_ltm<T, P, A: Sel<T, P>>(err: Error, t2p: A, slice: &[T], ctx: &mut C) -> (r: Result<Span, Error>)
    requires
        old(ctx).wf(),
    ensures
        final(ctx).inp() == old(ctx).inp(),
        r is Err ==> final(ctx).pos() == old(ctx).pos(), //: C01
        r is Ok ==> old(ctx).pos() <= r->Ok_0.beg && r->Ok_0.beg + r->Ok_0.len == final(ctx).pos() && final(ctx).pos() <= final(ctx).size(), //: C02
        exists|i: int| #[trigger] best(&t2p, slice@, old(ctx).inp(), old(ctx).pos(), slice@.len() as int, i) && (
            if i >= 0 { matched(alt(&t2p, slice@, i, old(ctx).inp(), old(ctx).pos()), *old(ctx), *final(ctx), r) }
            else { r is Err && final(ctx).pos() == old(ctx).pos() }),
//@entry
    let ghost mut w: int = -1;
//@loop 0
    invariant
        ctx.inp() == old(ctx).inp(), ctx.wf(), beg == old(ctx).pos(), 0 <= __i0 <= slice@.len(), old(ctx).wf(),
        best(&t2p, slice@, old(ctx).inp(), old(ctx).pos(), __i0 as int, w),
        keeps(&t2p, slice@, old(ctx).inp(), old(ctx).pos(), longest, w),
    decreases slice@.len() - __i0
//@body 0
    let ghost l0 = longest;
//@bodyend 0
    proof { if longest != l0 { w = __i0 - 1; } }
//@end

/// constructing an alternative; a failing one may leave the position anywhere in the input
pub trait SCtor<M, H>: Sized {
    spec fn con_raw(&self, inp: int, pos: nat, h: H) -> Option<(nat, M)>;
    spec fn hnd(&self, inp: int, pos: nat, h: H) -> H;
    fn construct(&self, ctx: &mut C, h: &mut H) -> (r: Result<M, Error>)
        requires old(ctx).wf(),
        ensures
            final(ctx).inp() == old(ctx).inp(),
            final(ctx).wf(),
            *final(h) == self.hnd(old(ctx).inp(), old(ctx).pos(), *old(h)),
            match ok_end(self.con_raw(old(ctx).inp(), old(ctx).pos(), *old(h)), old(ctx).inp(), old(ctx).pos()) {
                Some((e, v)) => r == Ok::<M, Error>(v) && final(ctx).pos() == e,
                None => r is Err,
            };
}
/// the result made of a value and its item (`r2r`, `r2r_kv`)
pub trait Res<M, T, R> {
    spec fn res(&self, v: M, t: &T, r: R) -> bool;
    fn make(&self, v: M, t: &T) -> (r: R)
        ensures self.res(v, t, r);
}
/// the handler before the i-th alternative is tried
pub open spec fn hs<T, P: SCtor<M, H>, M, H, A: Sel<T, P>>(a: &A, s: Seq<T>, inp: int, pos: nat, h: H, i: int) -> H
    decreases i
{
    if i <= 0 { h } else { a.sel(&s[i - 1]).hnd(inp, pos, hs::<T, P, M, H, A>(a, s, inp, pos, h, i - 1)) }
}
pub open spec fn calt<T, P: SCtor<M, H>, M, H, A: Sel<T, P>>(a: &A, s: Seq<T>, i: int, inp: int, pos: nat, h: H) -> Option<(nat, M)> {
    ok_end(a.sel(&s[i]).con_raw(inp, pos, hs::<T, P, M, H, A>(a, s, inp, pos, h, i)), inp, pos)
}
pub open spec fn cfirst<T, P: SCtor<M, H>, M, H, A: Sel<T, P>>(a: &A, s: Seq<T>, inp: int, pos: nat, h: H, i: int) -> bool {
    &&& 0 <= i <= s.len()
    &&& forall|j: int| 0 <= j < i ==> (#[trigger] calt::<T, P, M, H, A>(a, s, j, inp, pos, h)) is None
    &&& i < s.len() ==> calt::<T, P, M, H, A>(a, s, i, inp, pos, h) is Some
}
pub open spec fn cbest<T, P: SCtor<M, H>, M, H, A: Sel<T, P>>(a: &A, s: Seq<T>, inp: int, pos: nat, h: H, n: int, i: int) -> bool {
    &&& -1 <= i < n <= s.len()
    &&& i >= 0 ==> calt::<T, P, M, H, A>(a, s, i, inp, pos, h) is Some
    &&& forall|j: int| 0 <= j < n ==> match #[trigger] calt::<T, P, M, H, A>(a, s, j, inp, pos, h) {
        Some((e, v)) => i >= 0 && (if j < i { e < calt::<T, P, M, H, A>(a, s, i, inp, pos, h)->Some_0.0 } else { e <= calt::<T, P, M, H, A>(a, s, i, inp, pos, h)->Some_0.0 }),
        None => true,
    }
}

//@fn file=src/ctor.rs fn=handler closure props=C06
//@sub t2p( => t2p.get(
//@sub r2r( => r2r.make(
pub fn ctor_handler<T, P: SCtor<M, H>, M, H, R, A: Sel<T, P>, B: Res<M, T, R>>(err: Error, t2p: A, r2r: B, slice: &[T], c: &mut C, h: &mut H) -> (r: Result<R, Error>)
    requires
        old(c).wf(),
    ensures
        final(c).inp() == old(c).inp(),
        r is Err ==> final(c).pos() == old(c).pos(), //: C01
        exists|i: int| #[trigger] cfirst::<T, P, M, H, A>(&t2p, slice@, old(c).inp(), old(c).pos(), *old(h), i) && (
            if i < slice@.len() {
                match calt::<T, P, M, H, A>(&t2p, slice@, i, old(c).inp(), old(c).pos(), *old(h)) {
                    Some((e, v)) => r is Ok && r2r.res(v, &slice@[i], r->Ok_0) && final(c).pos() == e,
                    None => false,
                }
            } else { r is Err && final(c).pos() == old(c).pos() }),
//@entry
    let ghost h0 = *h;
//@loop 0
    invariant_except_break
        *h == hs::<T, P, M, H, A>(&t2p, slice@, old(c).inp(), old(c).pos(), h0, __i0 as int),
        forall|j: int| 0 <= j < __i0 ==> (#[trigger] calt::<T, P, M, H, A>(&t2p, slice@, j, old(c).inp(), old(c).pos(), h0)) is None,
        ret is Err, c.pos() == old(c).pos(),
    invariant
        c.inp() == old(c).inp(), c.wf(), offset == old(c).pos(), 0 <= __i0 <= slice@.len(), h0 == *old(h), old(c).wf(),
    ensures
        cfirst::<T, P, M, H, A>(&t2p, slice@, old(c).inp(), old(c).pos(), h0, if ret is Ok { __i0 - 1 } else { slice@.len() as int }),
        if ret is Ok {
            match calt::<T, P, M, H, A>(&t2p, slice@, __i0 - 1, old(c).inp(), old(c).pos(), h0) {
                Some((e, v)) => ret is Ok && r2r.res(v, &slice@[__i0 - 1], ret->Ok_0) && c.pos() == e,
                None => false,
            }
        } else { c.pos() == old(c).pos() },
    decreases slice@.len() - __i0
//@end

//@fn file=src/ctor.rs fn=handler_ltm closure props=C07
//@sub t2p( => t2p.get(
//@sub r2r( => r2r.make(
pub fn ctor_handler_ltm<T, P: SCtor<M, H>, M, H, R, A: Sel<T, P>, B: Res<M, T, R>>(err: Error, t2p: A, r2r: B, slice: &[T], ctx: &mut C, h: &mut H) -> (r: Result<R, Error>)
    requires
        old(ctx).wf(),
    ensures
        final(ctx).inp() == old(ctx).inp(),
        r is Err ==> final(ctx).pos() == old(ctx).pos(), //: C01
        exists|i: int| #[trigger] cbest::<T, P, M, H, A>(&t2p, slice@, old(ctx).inp(), old(ctx).pos(), *old(h), slice@.len() as int, i) && (
            if i >= 0 {
                match calt::<T, P, M, H, A>(&t2p, slice@, i, old(ctx).inp(), old(ctx).pos(), *old(h)) {
                    Some((e, v)) => r is Ok && r2r.res(v, &slice@[i], r->Ok_0) && final(ctx).pos() == e,
                    None => false,
                }
            } else { r is Err && final(ctx).pos() == old(ctx).pos() }),
//@entry
    let ghost h0 = *h;
    let ghost mut w: int = -1;
//@loop 0
    invariant
        *h == hs::<T, P, M, H, A>(&t2p, slice@, old(ctx).inp(), old(ctx).pos(), h0, __i0 as int),
        ctx.inp() == old(ctx).inp(), ctx.wf(), beg == old(ctx).pos(), 0 <= __i0 <= slice@.len(), old(ctx).wf(), h0 == *old(h),
        cbest::<T, P, M, H, A>(&t2p, slice@, old(ctx).inp(), old(ctx).pos(), h0, __i0 as int, w),
        ckeeps::<T, P, M, H, A>(&t2p, slice@, old(ctx).inp(), old(ctx).pos(), h0, ret, end as nat, w),
    decreases slice@.len() - __i0
//@body 0
    let ghost (r0, e0) = (ret, end);
//@bodyend 0
    proof { if ret != r0 || end != e0 { w = __i0 - 1; } }
//@end

/// the four selectors
#[derive(Clone, Copy)]
pub struct FSel;
#[derive(Clone, Copy)]
pub struct FSelKv;
#[derive(Clone, Copy)]
pub struct FR2r;
#[derive(Clone, Copy)]
pub struct FR2rKv;
impl<T> Sel<T, T> for FSel {
    open spec fn sel(&self, t: &T) -> T { *t }
    //@fn file=src/ctor.rs fn=sel props=C06,C07
    fn get<'x>(&self, val: &'x T) -> (r: &'x T)
    //@end
}
impl<K, V> Sel<(K, V), K> for FSelKv {
    open spec fn sel(&self, t: &(K, V)) -> K { t.0 }
    //@fn file=src/ctor.rs fn=sel_kv props=C06,C07
    fn get<'x>(&self, val: &'x (K, V)) -> (r: &'x K)
    //@end
}
impl<O, T> Res<O, T, O> for FR2r {
    open spec fn res(&self, v: O, t: &T, r: O) -> bool { r == v }
    //@fn file=src/ctor.rs fn=r2r props=C06,C07
    fn make(&self, out: O, _t: &T) -> (r: O)
    //@end
}
impl<O, K, V: Clone> Res<O, (K, V), (O, V)> for FR2rKv {
    /// the pair's own value (as its clone)
    open spec fn res(&self, v: O, t: &(K, V), r: (O, V)) -> bool { r.0 == v && cloned(t.1, r.1) }
    //@fn file=src/ctor.rs fn=r2r_kv props=C06,C07
    fn make(&self, out: O, val: &(K, V)) -> (r: (O, V))
    //@end
}

/// the choice among alternatives, matching: first or longest
pub open spec fn mchoose<T, P, A: Sel<T, P>>(a: &A, s: Seq<T>, longest: bool, c0: C, c: C, r: Result<Span, Error>) -> bool {
    &&& c.inp() == c0.inp()
    &&& if longest {
        exists|i: int| #[trigger] best(a, s, c0.inp(), c0.pos(), s.len() as int, i) && (
            if i >= 0 { matched(alt(a, s, i, c0.inp(), c0.pos()), c0, c, r) } else { r is Err && c.pos() == c0.pos() })
    } else {
        exists|i: int| #[trigger] first(a, s, c0.inp(), c0.pos(), i) && (
            if i < s.len() { matched(alt(a, s, i, c0.inp(), c0.pos()), c0, c, r) } else { r is Err && c.pos() == c0.pos() })
    }
}
pub open spec fn cresult<T, P: SCtor<M, H>, M, H, R, A: Sel<T, P>, B: Res<M, T, R>>(a: &A, b: &B, s: Seq<T>, i: int, c0: C, c: C, h: H, r: Result<R, Error>) -> bool {
    if 0 <= i < s.len() {
        match calt::<T, P, M, H, A>(a, s, i, c0.inp(), c0.pos(), h) {
            Some((e, v)) => r is Ok && b.res(v, &s[i], r->Ok_0) && c.pos() == e,
            None => false,
        }
    } else { r is Err && c.pos() == c0.pos() }
}
/// the choice among alternatives, constructing
pub open spec fn cchoose<T, P: SCtor<M, H>, M, H, R, A: Sel<T, P>, B: Res<M, T, R>>(a: &A, b: &B, s: Seq<T>, longest: bool, c0: C, c: C, h: H, r: Result<R, Error>) -> bool {
    &&& c.inp() == c0.inp()
    &&& if longest {
        exists|i: int| #[trigger] cbest::<T, P, M, H, A>(a, s, c0.inp(), c0.pos(), h, s.len() as int, i) && cresult::<T, P, M, H, R, A, B>(a, b, s, i, c0, c, h, r)
    } else {
        exists|i: int| #[trigger] cfirst::<T, P, M, H, A>(a, s, c0.inp(), c0.pos(), h, i) && cresult::<T, P, M, H, R, A, B>(a, b, s, i, c0, c, h, r)
    }
}

pub struct Array<const N: usize, K> { pub inner: [K; N], pub longest: bool }
impl<const N: usize, K> Array<N, K> {
    //@fn file=src/ctor/array.rs owner=Array trait=Regex fn=try_parse partial=regex::handler,regex::handler_ltm,ctor::handler,ctor::handler_ltm props=C06,C07
//@sub regex::handler_ltm( => regex_handler_ltm(
//@sub regex::handler( => regex_handler(
//@sub ctor::handler_ltm( => ctor_handler_ltm(
//@sub ctor::handler( => ctor_handler(
//@sub sel_kv => FSelKv
//@sub r2r_kv => FR2rKv
//@sub sel) => FSel)
//@sub sel, => FSel,
//@sub r2r) => FR2r)
//@sub r2r, => FR2r,
    pub fn try_parse(&self, ctx: &mut C) -> (r: Result<Span, Error>)
        requires old(ctx).wf(),
        ensures
            mchoose::<K, K, FSel>(&FSel, self.inner@, self.longest, *old(ctx), *final(ctx), r),
            r is Err ==> final(ctx).pos() == old(ctx).pos(), //: C01
            r is Ok ==> old(ctx).pos() <= r->Ok_0.beg && r->Ok_0.beg + r->Ok_0.len == final(ctx).pos() && final(ctx).pos() <= final(ctx).size(), //: C02
    //@end
    //@fn file=src/ctor/array.rs owner=Array trait=Ctor fn=construct partial=regex::handler,regex::handler_ltm,ctor::handler,ctor::handler_ltm props=C06,C07
//@sub regex::handler_ltm( => regex_handler_ltm(
//@sub regex::handler( => regex_handler(
//@sub ctor::handler_ltm( => ctor_handler_ltm(
//@sub ctor::handler( => ctor_handler(
//@sub sel_kv => FSelKv
//@sub r2r_kv => FR2rKv
//@sub sel) => FSel)
//@sub sel, => FSel,
//@sub r2r) => FR2r)
//@sub r2r, => FR2r,
    pub fn construct<M, H>(&self, ctx: &mut C, func: &mut H) -> (r: Result<M, Error>)
        where K: SCtor<M, H>, 
        requires old(ctx).wf(),
        ensures
            cchoose::<K, K, M, H, M, FSel, FR2r>(&FSel, &FR2r, self.inner@, self.longest, *old(ctx), *final(ctx), *old(func), r),
            r is Err ==> final(ctx).pos() == old(ctx).pos(), //: C01
    //@end
}

pub struct PairArray<const N: usize, K, V> { pub inner: [(K, V); N], pub longest: bool }
impl<const N: usize, K, V> PairArray<N, K, V> {
    //@fn file=src/ctor/array.rs owner=PairArray trait=Regex fn=try_parse partial=regex::handler,regex::handler_ltm,ctor::handler,ctor::handler_ltm props=C06,C07
//@sub regex::handler_ltm( => regex_handler_ltm(
//@sub regex::handler( => regex_handler(
//@sub ctor::handler_ltm( => ctor_handler_ltm(
//@sub ctor::handler( => ctor_handler(
//@sub sel_kv => FSelKv
//@sub r2r_kv => FR2rKv
//@sub sel) => FSel)
//@sub sel, => FSel,
//@sub r2r) => FR2r)
//@sub r2r, => FR2r,
    pub fn try_parse(&self, ctx: &mut C) -> (r: Result<Span, Error>)
        requires old(ctx).wf(),
        ensures
            mchoose::<(K, V), K, FSelKv>(&FSelKv, self.inner@, self.longest, *old(ctx), *final(ctx), r),
            r is Err ==> final(ctx).pos() == old(ctx).pos(), //: C01
            r is Ok ==> old(ctx).pos() <= r->Ok_0.beg && r->Ok_0.beg + r->Ok_0.len == final(ctx).pos() && final(ctx).pos() <= final(ctx).size(), //: C02
    //@end
    //@fn file=src/ctor/array.rs owner=PairArray trait=Ctor fn=construct partial=regex::handler,regex::handler_ltm,ctor::handler,ctor::handler_ltm props=C06,C07
//@sub regex::handler_ltm( => regex_handler_ltm(
//@sub regex::handler( => regex_handler(
//@sub ctor::handler_ltm( => ctor_handler_ltm(
//@sub ctor::handler( => ctor_handler(
//@sub sel_kv => FSelKv
//@sub r2r_kv => FR2rKv
//@sub sel) => FSel)
//@sub sel, => FSel,
//@sub r2r) => FR2r)
//@sub r2r, => FR2r,
    pub fn construct<M, H>(&self, ctx: &mut C, func: &mut H) -> (r: Result<(M, V), Error>)
        where K: SCtor<M, H>, V: Clone
        requires old(ctx).wf(),
        ensures
            cchoose::<(K, V), K, M, H, (M, V), FSelKv, FR2rKv>(&FSelKv, &FR2rKv, self.inner@, self.longest, *old(ctx), *final(ctx), *old(func), r),
            r is Err ==> final(ctx).pos() == old(ctx).pos(), //: C01
    //@end
}

pub struct Slice<'p, K> { pub inner: &'p [K], pub longest: bool }
impl<'p, K> Slice<'p, K> {
    //@fn file=src/ctor/slice.rs owner=Slice trait=Regex fn=try_parse partial=regex::handler,regex::handler_ltm,ctor::handler,ctor::handler_ltm props=C06,C07
//@sub regex::handler_ltm( => regex_handler_ltm(
//@sub regex::handler( => regex_handler(
//@sub ctor::handler_ltm( => ctor_handler_ltm(
//@sub ctor::handler( => ctor_handler(
//@sub sel_kv => FSelKv
//@sub r2r_kv => FR2rKv
//@sub sel) => FSel)
//@sub sel, => FSel,
//@sub r2r) => FR2r)
//@sub r2r, => FR2r,
    pub fn try_parse(&self, ctx: &mut C) -> (r: Result<Span, Error>)
        requires old(ctx).wf(),
        ensures
            mchoose::<K, K, FSel>(&FSel, self.inner@, self.longest, *old(ctx), *final(ctx), r),
            r is Err ==> final(ctx).pos() == old(ctx).pos(), //: C01
            r is Ok ==> old(ctx).pos() <= r->Ok_0.beg && r->Ok_0.beg + r->Ok_0.len == final(ctx).pos() && final(ctx).pos() <= final(ctx).size(), //: C02
    //@end
    //@fn file=src/ctor/slice.rs owner=Slice trait=Ctor fn=construct partial=regex::handler,regex::handler_ltm,ctor::handler,ctor::handler_ltm props=C06,C07
//@sub regex::handler_ltm( => regex_handler_ltm(
//@sub regex::handler( => regex_handler(
//@sub ctor::handler_ltm( => ctor_handler_ltm(
//@sub ctor::handler( => ctor_handler(
//@sub sel_kv => FSelKv
//@sub r2r_kv => FR2rKv
//@sub sel) => FSel)
//@sub sel, => FSel,
//@sub r2r) => FR2r)
//@sub r2r, => FR2r,
    pub fn construct<M, H>(&self, ctx: &mut C, func: &mut H) -> (r: Result<M, Error>)
        where K: SCtor<M, H>, 
        requires old(ctx).wf(),
        ensures
            cchoose::<K, K, M, H, M, FSel, FR2r>(&FSel, &FR2r, self.inner@, self.longest, *old(ctx), *final(ctx), *old(func), r),
            r is Err ==> final(ctx).pos() == old(ctx).pos(), //: C01
    //@end
}

pub struct PairSlice<'p, K, V> { pub inner: &'p [(K, V)], pub longest: bool }
impl<'p, K, V> PairSlice<'p, K, V> {
    //@fn file=src/ctor/slice.rs owner=PairSlice trait=Regex fn=try_parse partial=regex::handler,regex::handler_ltm,ctor::handler,ctor::handler_ltm props=C06,C07
//@sub regex::handler_ltm( => regex_handler_ltm(
//@sub regex::handler( => regex_handler(
//@sub ctor::handler_ltm( => ctor_handler_ltm(
//@sub ctor::handler( => ctor_handler(
//@sub sel_kv => FSelKv
//@sub r2r_kv => FR2rKv
//@sub sel) => FSel)
//@sub sel, => FSel,
//@sub r2r) => FR2r)
//@sub r2r, => FR2r,
    pub fn try_parse(&self, ctx: &mut C) -> (r: Result<Span, Error>)
        requires old(ctx).wf(),
        ensures
            mchoose::<(K, V), K, FSelKv>(&FSelKv, self.inner@, self.longest, *old(ctx), *final(ctx), r),
            r is Err ==> final(ctx).pos() == old(ctx).pos(), //: C01
            r is Ok ==> old(ctx).pos() <= r->Ok_0.beg && r->Ok_0.beg + r->Ok_0.len == final(ctx).pos() && final(ctx).pos() <= final(ctx).size(), //: C02
    //@end
    //@fn file=src/ctor/slice.rs owner=PairSlice trait=Ctor fn=construct partial=regex::handler,regex::handler_ltm,ctor::handler,ctor::handler_ltm props=C06,C07
//@sub regex::handler_ltm( => regex_handler_ltm(
//@sub regex::handler( => regex_handler(
//@sub ctor::handler_ltm( => ctor_handler_ltm(
//@sub ctor::handler( => ctor_handler(
//@sub sel_kv => FSelKv
//@sub r2r_kv => FR2rKv
//@sub sel) => FSel)
//@sub sel, => FSel,
//@sub r2r) => FR2r)
//@sub r2r, => FR2r,
    pub fn construct<M, H>(&self, ctx: &mut C, func: &mut H) -> (r: Result<(M, V), Error>)
        where K: SCtor<M, H>, V: Clone
        requires old(ctx).wf(),
        ensures
            cchoose::<(K, V), K, M, H, (M, V), FSelKv, FR2rKv>(&FSelKv, &FR2rKv, self.inner@, self.longest, *old(ctx), *final(ctx), *old(func), r),
            r is Err ==> final(ctx).pos() == old(ctx).pos(), //: C01
    //@end
}

pub struct Vector<K> { pub inner: Vec<K>, pub longest: bool }
impl<K> Vector<K> {
    //@fn file=src/ctor/vec.rs owner=Vector trait=Regex fn=try_parse partial=regex::handler,regex::handler_ltm,ctor::handler,ctor::handler_ltm props=C06,C07
//@sub regex::handler_ltm( => regex_handler_ltm(
//@sub regex::handler( => regex_handler(
//@sub ctor::handler_ltm( => ctor_handler_ltm(
//@sub ctor::handler( => ctor_handler(
//@sub sel_kv => FSelKv
//@sub r2r_kv => FR2rKv
//@sub sel) => FSel)
//@sub sel, => FSel,
//@sub r2r) => FR2r)
//@sub r2r, => FR2r,
    pub fn try_parse(&self, ctx: &mut C) -> (r: Result<Span, Error>)
        requires old(ctx).wf(),
        ensures
            mchoose::<K, K, FSel>(&FSel, self.inner@, self.longest, *old(ctx), *final(ctx), r),
            r is Err ==> final(ctx).pos() == old(ctx).pos(), //: C01
            r is Ok ==> old(ctx).pos() <= r->Ok_0.beg && r->Ok_0.beg + r->Ok_0.len == final(ctx).pos() && final(ctx).pos() <= final(ctx).size(), //: C02
    //@end
    //@fn file=src/ctor/vec.rs owner=Vector trait=Ctor fn=construct partial=regex::handler,regex::handler_ltm,ctor::handler,ctor::handler_ltm props=C06,C07
//@sub regex::handler_ltm( => regex_handler_ltm(
//@sub regex::handler( => regex_handler(
//@sub ctor::handler_ltm( => ctor_handler_ltm(
//@sub ctor::handler( => ctor_handler(
//@sub sel_kv => FSelKv
//@sub r2r_kv => FR2rKv
//@sub sel) => FSel)
//@sub sel, => FSel,
//@sub r2r) => FR2r)
//@sub r2r, => FR2r,
    pub fn construct<M, H>(&self, ctx: &mut C, func: &mut H) -> (r: Result<M, Error>)
        where K: SCtor<M, H>, 
        requires old(ctx).wf(),
        ensures
            cchoose::<K, K, M, H, M, FSel, FR2r>(&FSel, &FR2r, self.inner@, self.longest, *old(ctx), *final(ctx), *old(func), r),
            r is Err ==> final(ctx).pos() == old(ctx).pos(), //: C01
    //@end
}

pub struct PairVector<K, V> { pub inner: Vec<(K, V)>, pub longest: bool }
impl<K, V> PairVector<K, V> {
    //@fn file=src/ctor/vec.rs owner=PairVector trait=Regex fn=try_parse partial=regex::handler,regex::handler_ltm,ctor::handler,ctor::handler_ltm props=C06,C07
//@sub regex::handler_ltm( => regex_handler_ltm(
//@sub regex::handler( => regex_handler(
//@sub ctor::handler_ltm( => ctor_handler_ltm(
//@sub ctor::handler( => ctor_handler(
//@sub sel_kv => FSelKv
//@sub r2r_kv => FR2rKv
//@sub sel) => FSel)
//@sub sel, => FSel,
//@sub r2r) => FR2r)
//@sub r2r, => FR2r,
    pub fn try_parse(&self, ctx: &mut C) -> (r: Result<Span, Error>)
        requires old(ctx).wf(),
        ensures
            mchoose::<(K, V), K, FSelKv>(&FSelKv, self.inner@, self.longest, *old(ctx), *final(ctx), r),
            r is Err ==> final(ctx).pos() == old(ctx).pos(), //: C01
            r is Ok ==> old(ctx).pos() <= r->Ok_0.beg && r->Ok_0.beg + r->Ok_0.len == final(ctx).pos() && final(ctx).pos() <= final(ctx).size(), //: C02
    //@end
    //@fn file=src/ctor/vec.rs owner=PairVector trait=Ctor fn=construct partial=regex::handler,regex::handler_ltm,ctor::handler,ctor::handler_ltm props=C06,C07
//@sub regex::handler_ltm( => regex_handler_ltm(
//@sub regex::handler( => regex_handler(
//@sub ctor::handler_ltm( => ctor_handler_ltm(
//@sub ctor::handler( => ctor_handler(
//@sub sel_kv => FSelKv
//@sub r2r_kv => FR2rKv
//@sub sel) => FSel)
//@sub sel, => FSel,
//@sub r2r) => FR2r)
//@sub r2r, => FR2r,
    pub fn construct<M, H>(&self, ctx: &mut C, func: &mut H) -> (r: Result<(M, V), Error>)
        where K: SCtor<M, H>, V: Clone
        requires old(ctx).wf(),
        ensures
            cchoose::<(K, V), K, M, H, (M, V), FSelKv, FR2rKv>(&FSelKv, &FR2rKv, self.inner@, self.longest, *old(ctx), *final(ctx), *old(func), r),
            r is Err ==> final(ctx).pos() == old(ctx).pos(), //: C01
    //@end
}
} // verus!
