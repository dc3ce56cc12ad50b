//@include prelude
//@include values

/// what a span denotes in a value
pub trait IndexBySpan {
    type Output: ?Sized;
    spec fn at(&self, s: Span) -> Option<&Self::Output>;
    fn get_by_span(&self, span: &Span) -> (r: Option<&Self::Output>)
        ensures r == self.at(*span);
}
/// the iterators (their steps: verus/iter.rs)
pub struct IteratorBySpan<'a, 'b, T: ?Sized> { pub cur: usize, pub value: &'a T, pub spans: &'b [Span] }
impl<'a, 'b, T: ?Sized> IteratorBySpan<'a, 'b, T> {
    //@fn file=src/iter/span.rs owner=IteratorBySpan fn=new
    pub fn new(str: &'a T, spans: &'b [Span]) -> (r: Self)
        ensures r.cur == 0, r.value == str, r.spans == spans,
    //@end
}
pub struct IteratorByOptionSpan<'a, 'b, T: ?Sized> { pub cur: usize, pub value: &'a T, pub spans: &'b [Option<Span>] }
impl<'a, 'b, T: ?Sized> IteratorByOptionSpan<'a, 'b, T> {
    //@fn file=src/iter/span.rs owner=IteratorByOptionSpan fn=new
    pub fn new(str: &'a T, spans: &'b [Option<Span>]) -> (r: Self)
        ensures r.cur == 0, r.value == str, r.spans == spans,
    //@end
}
pub struct SpanIterator<'a> { pub offset: usize, pub spans: &'a [Span] }
impl<'a> SpanIterator<'a> {
    //@fn file=src/iter/span.rs owner=SpanIterator fn=new
    pub fn new(spans: &'a [Span]) -> (r: Self)
        ensures r.offset == 0, r.spans == spans,
    //@end
}
pub struct OptionSpanIterator<'a> { pub offset: usize, pub spans: &'a [Option<Span>] }
impl<'a> OptionSpanIterator<'a> {
    //@fn file=src/iter/span.rs owner=OptionSpanIterator fn=new
    pub fn new(spans: &'a [Option<Span>]) -> (r: Self)
        ensures r.offset == 0, r.spans == spans,
    //@end
}
/// `vec![vec![]; n]` (assumed)
#[verifier::external_body]
pub fn empty_vecs<T>(n: usize) -> (r: Vec<Vec<T>>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i])@.len() == 0,
{ unimplemented!() }

/// a history of operations is a sequence of these; each one's contract speaks about every group and index
pub struct VecStorer { pub spans: Vec<Vec<Span>> }
impl VecStorer {
    /// group id holds this (nothing if there is no such group)
    pub open spec fn group(&self, id: int) -> Seq<Span> { if 0 <= id < self.spans@.len() { self.spans@[id]@ } else { Seq::empty() } }
    pub open spec fn groups(&self) -> nat { self.spans@.len() }
    pub open spec fn blank(&self, n: nat) -> bool { self.groups() == n && forall|i: int| (#[trigger] self.group(i)).len() == 0 }
    /// every other group is as in the other storer
    pub open spec fn same_but(&self, o: &Self, id: int) -> bool {
        self.groups() == o.groups() && forall|i: int| i != id ==> #[trigger] self.group(i) =~= o.group(i)
    }

    //@fn file=src/span.rs owner=VecStorer fn=new
    pub fn new(capacity: usize) -> (r: Self)
        ensures r.blank(capacity as nat),
    //@end
    //@fn file=src/span.rs owner=VecStorer fn=new_with
    pub fn new_with(spans: Vec<Vec<Span>>) -> (r: Self)
        ensures r.spans == spans,
    //@end
    //@fn file=src/span.rs owner=VecStorer fn=with_capacity
    //@sub self. => self_.
    //@sub self => self_
    //@sub self__ => self_
    pub fn with_capacity(self, capacity: usize) -> (r: Self)
        ensures r.blank(capacity as nat),
    //@entry
        let mut self_ = self;
    //@end
    //@fn file=src/span.rs owner=VecStorer fn=len
    pub fn len(&self) -> (r: usize)
        ensures r == self.groups(),
    //@end
    //@fn file=src/span.rs owner=VecStorer fn=is_empty
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self.groups() == 0),
    //@end
    //@fn file=src/span.rs owner=VecStorer fn=reset
    pub fn reset(&mut self) -> (r: &mut Self)
        ensures r.blank(old(self).groups()), *final(self) == *final(r),
    //@loop 0
        invariant
            __i0 <= self.spans@.len(), self.spans@.len() == old(self).spans@.len(),
            forall|i: int| 0 <= i < __i0 ==> (#[trigger] self.spans@[i])@.len() == 0,
        decreases self.spans@.len() - __i0
    //@end
    //@fn file=src/span.rs owner=VecStorer fn=contain
    pub fn contain(&self, id: usize) -> (r: bool)
        ensures r == (self.group(id as int).len() > 0),
    //@end
    //@fn file=src/span.rs owner=VecStorer fn=add_span
    pub fn add_span(&mut self, id: usize, span: Span) -> (r: &mut Self)
        requires id < old(self).groups(),
        ensures
            r.same_but(old(self), id as int), r.group(id as int) == old(self).group(id as int).push(span),
            *final(self) == *final(r),
    //@end
    //@fn file=src/span.rs owner=VecStorer fn=clr_span
    pub fn clr_span(&mut self, id: usize) -> (r: &mut Self)
        ensures
            r.same_but(old(self), id as int), r.group(id as int).len() == 0,
            *final(self) == *final(r),
    //@end
    //@fn file=src/span.rs owner=VecStorer fn=span
    pub fn span(&self, id: usize, index: usize) -> (r: Option<&Span>)
        ensures match r {
            Some(s) => index < self.group(id as int).len() && *s == self.group(id as int)[index as int],
            None => index >= self.group(id as int).len(),
        },
    //@end
    //@fn file=src/span.rs owner=VecStorer fn=spans
    pub fn spans(&self, id: usize) -> (r: Option<&Vec<Span>>)
        ensures match r {
            Some(s) => s@.len() > 0 && s@ == self.group(id as int),
            None => self.group(id as int).len() == 0,
        },
    //@end
    //@fn file=src/span.rs owner=VecStorer fn=spans_iter opt=.spans
    pub fn spans_iter(&self, id: usize) -> (r: Option<SpanIterator<'_>>)
        ensures match r {
            Some(s) => s.offset == 0 && s.spans@.len() > 0 && s.spans@ == self.group(id as int),
            None => self.group(id as int).len() == 0,
        },
    //@end
    //@fn file=src/span.rs owner=VecStorer fn=slice
    pub fn slice<'a, T: ?Sized + IndexBySpan>(&self, value: &'a T, id: usize, index: usize) -> (r: Option<&'a T::Output>)
        ensures r == (if index < self.group(id as int).len() { value.at(self.group(id as int)[index as int]) } else { None }),
    //@end
    //@fn file=src/span.rs owner=VecStorer fn=slice_iter
    pub fn slice_iter<'a, T: ?Sized + IndexBySpan>(&self, str: &'a T, id: usize) -> (r: Option<IteratorBySpan<'a, '_, T>>)
        ensures match r {
            Some(s) => s.cur == 0 && s.value == str && s.spans@ == self.group(id as int),
            None => self.group(id as int).len() == 0,
        },
    //@end
    //@fn file=src/span.rs owner=VecStorer fn=try_cap
    pub fn try_cap<P>(&mut self, id: usize, ctx: &mut C, pat: &P) -> (r: Result<Span, Error>)
        requires id < old(self).groups(), old(ctx).wf(),
        ensures
            final(ctx).inp() == old(ctx).inp(),
            matched(mat(pat, old(ctx).inp(), old(ctx).pos()), *old(ctx), *final(ctx), r),
            final(self).same_but(old(self), id as int),
            final(self).group(id as int) == (if r is Ok { old(self).group(id as int).push(r->Ok_0) } else { old(self).group(id as int) }),
    //@end
}

pub struct ArrayStorer<const M: usize, const N: usize> { pub spans: [[Option<Span>; N]; M] }
impl<const M: usize, const N: usize> ArrayStorer<M, N> {
    /// what the slot holds (nothing if there is no such slot)
    pub open spec fn slot(&self, id: int, i: int) -> Option<Span> { if 0 <= id < M && 0 <= i < N { self.spans@[id]@[i] } else { None } }
    pub open spec fn holds(&self, id: int) -> bool { exists|i: int| (#[trigger] self.slot(id, i)) is Some }
    pub open spec fn same_but(&self, o: &Self, id: int) -> bool {
        forall|g: int, i: int| g != id ==> #[trigger] self.slot(g, i) == o.slot(g, i)
    }

    //@fn file=src/span.rs owner=ArrayStorer fn=new
    //@sub [none_array(); M] => none_arrays()
    pub fn new() -> (r: Self)
        ensures forall|g: int, i: int| (#[trigger] r.slot(g, i)) is None,
    //@end
    //@fn file=src/span.rs owner=ArrayStorer fn=new_with
    pub fn new_with(spans: [[Option<Span>; N]; M]) -> (r: Self)
        ensures r.spans == spans,
    //@end
    //@fn file=src/span.rs owner=ArrayStorer fn=len
    //@sub self.spans.len() => self.spans.as_slice().len()
    pub fn len(&self) -> (r: usize)
        ensures r == M,
    //@end
    //@fn file=src/span.rs owner=ArrayStorer fn=is_empty
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (M == 0),
    //@end
    //@fn file=src/span.rs owner=ArrayStorer fn=reset
    pub fn reset(&mut self) -> (r: &mut Self)
        ensures forall|g: int, i: int| (#[trigger] r.slot(g, i)) is None, *final(self) == *final(r),
    //@loop 1
        invariant
            __i0 <= M,
            forall|g: int, i: int| 0 <= g < __i0 && 0 <= i < N ==> (#[trigger] self.spans@[g]@[i]) is None,
        decreases M - __i0
    //@loop 0
        invariant
            __i1 <= N,
            forall|i: int| 0 <= i < __i1 ==> (#[trigger] v@[i]) is None,
        decreases N - __i1
    //@end
    //@fn file=src/span.rs owner=ArrayStorer fn=contain
    pub fn contain(&self, id: usize) -> (r: bool)
        ensures r == self.holds(id as int),
    //@loop 0
        invariant_except_break
            !__r, forall|i: int| 0 <= i < __i0 ==> (#[trigger] self.slot(id as int, i)) is None,
        invariant
            __i0 <= N, id < M, *v == self.spans@[id as int],
        ensures
            __r ==> 0 < __i0 <= N && self.slot(id as int, __i0 - 1) is Some,
            !__r ==> forall|i: int| 0 <= i < N ==> (#[trigger] self.slot(id as int, i)) is None,
        decreases N - __i0
    //@end
    //@fn file=src/span.rs owner=ArrayStorer fn=set_span
    pub fn set_span(&mut self, id: usize, index: usize, span: Span) -> (r: &mut Self)
        requires id < M, index < N,
        ensures
            forall|g: int, i: int| #[trigger] r.slot(g, i) == (if g == id && i == index { Some(span) } else { old(self).slot(g, i) }),
            *final(self) == *final(r),
    //@end
    //@fn file=src/span.rs owner=ArrayStorer fn=clr_span
    pub fn clr_span(&mut self, id: usize) -> (r: &mut Self)
        ensures
            r.same_but(old(self), id as int), !r.holds(id as int),
            *final(self) == *final(r),
    //@loop 0
        invariant
            __i0 <= N,
            forall|i: int| 0 <= i < __i0 ==> (#[trigger] v@[i]) is None,
        decreases N - __i0
    //@end
    //@fn file=src/span.rs owner=ArrayStorer fn=span
    pub fn span(&self, id: usize, index: usize) -> (r: Option<&Span>)
        ensures match r {
            Some(s) => self.slot(id as int, index as int) == Some(*s),
            None => self.slot(id as int, index as int) is None,
        },
    //@end
    //@fn file=src/span.rs owner=ArrayStorer fn=spans
    pub fn spans(&self, id: usize) -> (r: Option<&[Option<Span>]>)
        ensures match r {
            Some(s) => self.holds(id as int) && s@ == self.spans@[id as int]@,
            None => !self.holds(id as int),
        },
    //@loop 0
        invariant_except_break
            __r, forall|i: int| 0 <= i < __i0 ==> (#[trigger] self.slot(id as int, i)) is None,
        invariant
            __i0 <= N, id < M, *v == self.spans@[id as int],
        ensures
            !__r ==> 0 < __i0 <= N && self.slot(id as int, __i0 - 1) is Some,
            __r ==> forall|i: int| 0 <= i < N ==> (#[trigger] self.slot(id as int, i)) is None,
        decreases N - __i0
    //@end
    //@fn file=src/span.rs owner=ArrayStorer fn=spans_iter opt=.spans
    pub fn spans_iter(&self, id: usize) -> (r: Option<OptionSpanIterator<'_>>)
        ensures match r {
            Some(s) => self.holds(id as int) && s.offset == 0 && s.spans@ == self.spans@[id as int]@,
            None => !self.holds(id as int),
        },
    //@end
    //@fn file=src/span.rs owner=ArrayStorer fn=slice
    pub fn slice<'a, T: ?Sized + IndexBySpan>(&self, value: &'a T, id: usize, index: usize) -> (r: Option<&'a T::Output>)
        ensures r == (match self.slot(id as int, index as int) { Some(s) => value.at(s), None => None }),
    //@end
    //@fn file=src/span.rs owner=ArrayStorer fn=slice_iter
    pub fn slice_iter<'a, T: ?Sized + IndexBySpan>(&self, str: &'a T, id: usize) -> (r: Option<IteratorByOptionSpan<'a, '_, T>>)
        ensures match r {
            Some(s) => self.holds(id as int) && s.cur == 0 && s.value == str && s.spans@ == self.spans@[id as int]@,
            None => !self.holds(id as int),
        },
    //@end
    //@fn file=src/span.rs owner=ArrayStorer fn=try_cap
    pub fn try_cap<P>(&mut self, id: usize, index: usize, ctx: &mut C, pat: &P) -> (r: Result<Span, Error>)
        requires id < M, index < N, old(ctx).wf(),
        ensures
            final(ctx).inp() == old(ctx).inp(),
            matched(mat(pat, old(ctx).inp(), old(ctx).pos()), *old(ctx), *final(ctx), r),
            forall|g: int, i: int| #[trigger] final(self).slot(g, i) == (if r is Ok && g == id && i == index { Some(r->Ok_0) } else { old(self).slot(g, i) }),
    //@end
}
/// `[[const { None }; N]; M]`
#[verifier::external_body]
pub fn none_arrays<T, const N: usize, const M: usize>() -> (r: [[Option<T>; N]; M])
    ensures forall|g: int, i: int| 0 <= g < M && 0 <= i < N ==> (#[trigger] r@[g]@[i]) is None,
{ unimplemented!() }
} // verus!
