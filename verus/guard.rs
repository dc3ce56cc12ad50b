// The transaction guard (C17). `*g.ctx` is the context now, `*final(g.ctx)` what its owner gets back.
pub struct CtxGuard<'a> { pub ctx: &'a mut C, pub offset: usize, pub reset: bool }

/// nothing but the context's own state changed
#[verifier::prophetic]
pub open spec fn same_guard(g: CtxGuard<'_>, g0: CtxGuard<'_>) -> bool {
    g.offset == g0.offset && *final(g.ctx) == *final(g0.ctx)
}
impl<'a> CtxGuard<'a> {
    //@fn file=src/ctx/guard.rs owner=CtxGuard fn=new props=C17
    //@sub marker: PhantomData, =>
    //@sub , marker: PhantomData =>
    pub fn new(ctx: &'a mut C) -> (g: Self)
        ensures *g.ctx == *old(ctx), *final(g.ctx) == *final(ctx), g.offset == old(ctx).pos(), !g.reset,
    //@end
    //@fn file=src/ctx/guard.rs owner=CtxGuard fn=beg props=C17
    pub fn beg(&self) -> (r: usize)
        ensures r == self.offset,
    //@end
    //@fn file=src/ctx/guard.rs owner=CtxGuard fn=end props=C17
    pub fn end(&self) -> (r: usize)
        ensures r == old(self.ctx).pos(),
    //@end
    //@fn file=src/ctx/guard.rs owner=CtxGuard fn=len props=C17
    pub fn len(&self) -> (r: usize)
        ensures r == old(self.ctx).size(),
    //@end
    //@fn file=src/ctx/guard.rs owner=CtxGuard fn=ctx props=C17
    pub fn ctx(&mut self) -> (r: &mut C)
        ensures
            *r == *old(self).ctx, *final(self).ctx == *final(r),
            final(self).reset == old(self).reset, same_guard(*final(self), *old(self)),
    //@end
    //@fn file=src/ctx/guard.rs owner=CtxGuard fn=inc props=C17
    pub fn inc(&mut self, len: usize) -> (r: Span)
        requires old(self).ctx.pos() + len <= usize::MAX,
        ensures
            r == (Span { beg: old(self).ctx.pos() as usize, len }),
            final(self).ctx.inp() == old(self).ctx.inp(), final(self).ctx.pos() == old(self).ctx.pos() + len,
            final(self).reset == old(self).reset, same_guard(*final(self), *old(self)),
    //@end
    //@fn file=src/ctx/guard.rs owner=CtxGuard fn=reset props=C17
    pub fn reset(&mut self) -> (r: &mut Self)
        ensures
            r.ctx.inp() == old(self).ctx.inp(), r.ctx.pos() == old(self).offset,
            r.reset == old(self).reset, same_guard(*r, *old(self)), *final(self) == *final(r),
    //@end
    //@fn file=src/ctx/guard.rs owner=CtxGuard fn=process_ret props=C17
    pub fn process_ret<R>(&mut self, ret: Result<R, Error>) -> (r: Result<R, Error>)
        ensures
            r == ret, *final(self).ctx == *old(self).ctx,
            final(self).reset == (old(self).reset || ret is Err), same_guard(*final(self), *old(self)),
    //@end
    //@fn file=src/ctx/guard.rs owner=CtxGuard fn=try_mat props=C17
    pub fn try_mat<P: ?Sized>(&mut self, pattern: &P) -> (r: Result<Span, Error>)
        requires old(self).ctx.wf(),
        ensures
            final(self).ctx.inp() == old(self).ctx.inp(), final(self).ctx.wf(),
            matched(mat(pattern, old(self).ctx.inp(), old(self).ctx.pos()), *old(self).ctx, *final(self).ctx, r),
            final(self).reset == (old(self).reset || r is Err), same_guard(*final(self), *old(self)),
    //@end
    //@fn file=src/ctx/guard.rs owner=CtxGuard trait=Drop fn=drop props=C17
    pub fn drop_(&mut self)
        ensures
            *final(final(self).ctx) == *final(old(self).ctx),
            final(self).ctx.inp() == old(self).ctx.inp(),
            final(self).ctx.pos() == (if old(self).reset { old(self).offset as nat } else { old(self).ctx.pos() }),
    //@end
}
