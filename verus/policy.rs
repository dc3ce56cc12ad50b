// The skipping policy (C19). A pattern is any function of the context's input and position that reports a
// span and moves the position; where a failing pattern leaves the position is not assumed.
//@include prelude

pub trait Context: Sized {
    type Key;
    /// everything but the position
    spec fn key(&self) -> Self::Key;
    spec fn at(&self) -> nat;
    fn offset(&self) -> (r: usize)
        ensures r == self.at();
    fn set_offset(&mut self, offset: usize) -> (r: &mut Self)
        ensures r.key() == old(self).key(), r.at() == offset, *final(self) == *final(r);
}
/// a pattern: span and end, or a failure (and where that leaves the position)
pub trait Regex<K: Context> {
    spec fn run(&self, key: K::Key, pos: nat) -> Option<(Span, nat)>;
    fn try_parse(&self, ctx: &mut K) -> (r: Result<Span, Error>)
        ensures
            final(ctx).key() == old(ctx).key(),
            match self.run(old(ctx).key(), old(ctx).at()) {
                Some((s, e)) => r == Ok::<Span, Error>(s) && final(ctx).at() == e,
                None => r is Err,
            };
}
/// `|_: &mut Self| Ok(Span::default())`
pub struct Nothing;
impl<K: Context> Regex<K> for Nothing {
    open spec fn run(&self, key: K::Key, pos: nat) -> Option<(Span, nat)> { Some((Span { beg: 0, len: 0 }, pos)) }
    fn try_parse(&self, ctx: &mut K) -> (r: Result<Span, Error>) { Ok(Span::default()) }
}
/// before, then the pattern, then after; the span is the pattern's
pub open spec fn staged<K: Context, B: Regex<K> + ?Sized, P: Regex<K> + ?Sized, A: Regex<K> + ?Sized>(b: &B, p: &P, a: &A, key: K::Key, pos: nat) -> Option<(Span, nat)> {
    match b.run(key, pos) {
        Some((s0, e0)) => match p.run(key, e0) {
            Some((s, e)) => match a.run(key, e) { Some((s2, e2)) => Some((s, e2)), None => None },
            None => None,
        },
        None => None,
    }
}
pub open spec fn did<K: Context>(m: Option<(Span, nat)>, c0: K, c: K, r: Result<Span, Error>) -> bool {
    c.key() == c0.key() && match m {
        Some((s, e)) => r == Ok::<Span, Error>(s) && c.at() == e,
        None => r is Err && c.at() == c0.at(),
    }
}

// ----------------------------------------------------------------- plain
pub struct RegexCtx<T> { pub dat: T, pub offset: usize }
impl<T> Context for RegexCtx<T> {
    type Key = T;
    open spec fn key(&self) -> T { self.dat }
    open spec fn at(&self) -> nat { self.offset as nat }
    //@fn file=src/ctx/regex.rs owner=RegexCtx ty=RegexCtx<'a,[u8]> trait=Context fn=offset props=C03
    fn offset(&self) -> (r: usize)
    //@end
    //@fn file=src/ctx/regex.rs owner=RegexCtx ty=RegexCtx<'a,[u8]> trait=Context fn=set_offset props=C03
    fn set_offset(&mut self, offset: usize) -> (r: &mut Self)
    //@end
}
impl<T> RegexCtx<T> {
    //@fn file=src/ctx/regex.rs owner=RegexCtx trait=Match fn=try_mat props=C19
    //@sub |_: &mut Self| Ok(Span::default()) => Nothing
    pub fn try_mat<Pat: Regex<Self> + ?Sized>(&mut self, pat: &Pat) -> (r: Result<Span, Error>)
        ensures
            did(pat.run(old(self).key(), old(self).at()), *old(self), *final(self), r), //: C19
            r is Err ==> final(self).at() == old(self).at(), //: C01
    //@end
    //@fn file=src/ctx.rs default trait=PolicyMatch fn=try_mat_before props=C19
    //@sub |_: &mut Self| Ok(Span::default()) => Nothing
    pub fn try_mat_before<P: Regex<Self> + ?Sized, B: Regex<Self> + ?Sized>(&mut self, pat: &P, before: &B) -> (r: Result<Span, Error>)
        ensures
            did(staged(before, pat, &Nothing, old(self).key(), old(self).at()), *old(self), *final(self), r), //: C19
            r is Err ==> final(self).at() == old(self).at(), //: C01
    //@end
    //@fn file=src/ctx.rs default trait=PolicyMatch fn=try_mat_after props=C19
    //@sub |_: &mut Self| Ok(Span::default()) => Nothing
    pub fn try_mat_after<P: Regex<Self> + ?Sized, A: Regex<Self> + ?Sized>(&mut self, pat: &P, after: &A) -> (r: Result<Span, Error>)
        ensures
            did(staged(&Nothing, pat, after, old(self).key(), old(self).at()), *old(self), *final(self), r), //: C19
            r is Err ==> final(self).at() == old(self).at(), //: C01
    //@end
    //@fn file=src/ctx/regex.rs owner=RegexCtx trait=PolicyMatch fn=try_mat_policy props=C19
    pub fn try_mat_policy<P: Regex<Self> + ?Sized, B: Regex<Self> + ?Sized, A: Regex<Self> + ?Sized>(&mut self, pat: &P, before: &B, after: &A) -> (r: Result<Span, Error>)
        ensures
            did(staged(before, pat, after, old(self).key(), old(self).at()), *old(self), *final(self), r), //: C19
            r is Err ==> final(self).at() == old(self).at(), //: C01
    //@end
}

// ----------------------------------------------------------- with a policy
pub struct PolicyCtx<I, R> { pub inner: I, pub regex: R }
impl<I: Context, R: Regex<I>> Context for PolicyCtx<I, R> {
    type Key = (I::Key, R);
    open spec fn key(&self) -> (I::Key, R) { (self.inner.key(), self.regex) }
    open spec fn at(&self) -> nat { self.inner.at() }
    //@fn file=src/ctx/policy.rs owner=PolicyCtx trait=Context fn=offset props=C19,C03
    fn offset(&self) -> (r: usize)
    //@end
    //@fn file=src/ctx/policy.rs owner=PolicyCtx trait=Context fn=set_offset props=C19,C03
    fn set_offset(&mut self, offset: usize) -> (r: &mut Self)
    //@end
}
/// what the policy skips, then the pattern there; the span is the pattern's
pub open spec fn skipped<I: Context, R: Regex<I>, P: Regex<PolicyCtx<I, R>> + ?Sized>(p: &P, key: (I::Key, R), pos: nat) -> Option<(Span, nat)> {
    match key.1.run(key.0, pos) { Some((s, e)) => p.run(key, e), None => None }
}
impl<I: Context, R: Regex<I>> PolicyCtx<I, R> {
    //@fn file=src/ctx/policy.rs owner=PolicyCtx trait=Match fn=try_mat props=C19
    pub fn try_mat<Pat: Regex<Self> + ?Sized>(&mut self, pat: &Pat) -> (r: Result<Span, Error>)
        ensures
            did(skipped(pat, old(self).key(), old(self).at()), *old(self), *final(self), r), //: C19
            r is Err ==> final(self).at() == old(self).at(), //: C01
    //@end
    //@fn file=src/ctx.rs default trait=PolicyMatch fn=try_mat_before props=C19
    //@sub |_: &mut Self| Ok(Span::default()) => Nothing
    pub fn try_mat_before<P: Regex<Self> + ?Sized, B: Regex<Self> + ?Sized>(&mut self, pat: &P, before: &B) -> (r: Result<Span, Error>)
        ensures
            did(staged(before, pat, &Nothing, old(self).key(), old(self).at()), *old(self), *final(self), r), //: C19
            r is Err ==> final(self).at() == old(self).at(), //: C01
    //@end
    //@fn file=src/ctx.rs default trait=PolicyMatch fn=try_mat_after props=C19
    //@sub |_: &mut Self| Ok(Span::default()) => Nothing
    pub fn try_mat_after<P: Regex<Self> + ?Sized, A: Regex<Self> + ?Sized>(&mut self, pat: &P, after: &A) -> (r: Result<Span, Error>)
        ensures
            did(staged(&Nothing, pat, after, old(self).key(), old(self).at()), *old(self), *final(self), r), //: C19
            r is Err ==> final(self).at() == old(self).at(), //: C01
    //@end
    //@fn file=src/ctx/policy.rs owner=PolicyCtx trait=PolicyMatch fn=try_mat_policy props=C19
    pub fn try_mat_policy<P: Regex<Self> + ?Sized, B: Regex<Self> + ?Sized, A: Regex<Self> + ?Sized>(&mut self, pat: &P, before: &B, after: &A) -> (r: Result<Span, Error>)
        ensures
            did(staged(before, pat, after, old(self).key(), old(self).at()), *old(self), *final(self), r), //: C19
            r is Err ==> final(self).at() == old(self).at(), //: C01
    //@end
}
} // verus!
