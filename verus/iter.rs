//@include prelude
//@include range

/// what a span denotes in a value: any function of the span (C21 `indexing`, Kani: for text and bytes
/// it is the sub-slice, or nothing when the range is outside or splits a character)
pub trait IndexBySpan {
    type Output: ?Sized;
    spec fn at(&self, s: Span) -> Option<&Self::Output>;
    fn get_by_span(&self, span: &Span) -> (r: Option<&Self::Output>)
        ensures r == self.at(*span);
}
/// `v[a..]`
#[verifier::external_body]
pub fn slice_from<T>(v: &[T], a: usize) -> (r: &[T])
    requires a <= v@.len(),
    ensures r@ == v@.subrange(a as int, v@.len() as int),
{ &v[a..] }

/// the length of a slice is a usize (language fact)
#[verifier::external_body]
pub proof fn slice_len<T>(v: &[T]) ensures v@.len() <= usize::MAX {}

#[verifier::external_body]
pub proof fn vec_len<T>(v: &Vec<T>) ensures v@.len() <= usize::MAX {}

/// how many of the spans from the n-th on denote something
pub open spec fn todo<T: IndexBySpan + ?Sized>(v: &T, s: Seq<Span>, n: int) -> nat
    decreases s.len() - n
{
    if n < 0 || n >= s.len() { 0 } else { todo(v, s, n + 1) + (if v.at(s[n]) is Some { 1nat } else { 0nat }) }
}
/// the same, counted to the n-th from the front
pub open spec fn done<T: IndexBySpan + ?Sized>(v: &T, s: Seq<Span>, m: int, n: int) -> nat
    decreases n - m
{
    if n <= m { 0 } else { done(v, s, m, n - 1) + (if v.at(s[n - 1]) is Some { 1nat } else { 0nat }) }
}
pub proof fn split<T: IndexBySpan + ?Sized>(v: &T, s: Seq<Span>, m: int, n: int)
    requires 0 <= m <= n <= s.len(),
    ensures todo(v, s, m) == done(v, s, m, n) + todo(v, s, n), done(v, s, m, n) <= n - m,
    decreases n - m
{
    if m < n { split(v, s, m, n - 1); }
}
/// the slots with something in them
pub open spec fn sat<T: IndexBySpan + ?Sized>(v: &T, s: Option<Span>) -> Option<&T::Output> {
    match s { Some(s) => v.at(s), None => None }
}
pub open spec fn otodo<T: IndexBySpan + ?Sized>(v: &T, s: Seq<Option<Span>>, n: int) -> nat
    decreases s.len() - n
{
    if n < 0 || n >= s.len() { 0 } else { otodo(v, s, n + 1) + (if sat(v, s[n]) is Some { 1nat } else { 0nat }) }
}
pub open spec fn odone<T: IndexBySpan + ?Sized>(v: &T, s: Seq<Option<Span>>, m: int, n: int) -> nat
    decreases n - m
{
    if n <= m { 0 } else { odone(v, s, m, n - 1) + (if sat(v, s[n - 1]) is Some { 1nat } else { 0nat }) }
}
pub proof fn osplit<T: IndexBySpan + ?Sized>(v: &T, s: Seq<Option<Span>>, m: int, n: int)
    requires 0 <= m <= n <= s.len(),
    ensures otodo(v, s, m) == odone(v, s, m, n) + otodo(v, s, n), odone(v, s, m, n) <= n - m,
    decreases n - m
{
    if m < n { osplit(v, s, m, n - 1); }
}

pub struct IteratorBySpan<'a, 'b, T: ?Sized> { pub cur: usize, pub value: &'a T, pub spans: &'b [Span] }
impl<'a, 'b, T: ?Sized> IteratorBySpan<'a, 'b, T> {
    //@fn file=src/iter/span.rs owner=IteratorBySpan fn=new
    pub fn new(str: &'a T, spans: &'b [Span]) -> (r: Self)
        ensures r.cur == 0, r.value == str, r.spans == spans,
    //@end
}
impl<'a, 'b, T: ?Sized + IndexBySpan> IteratorBySpan<'a, 'b, T> {
    //@fn file=src/iter/span.rs owner=IteratorBySpan trait=Iterator fn=next
    pub fn next(&mut self) -> (r: Option<&'a T::Output>)
        requires old(self).cur <= old(self).spans@.len(),
        ensures
            final(self).value == old(self).value, final(self).spans == old(self).spans, final(self).cur <= final(self).spans@.len(),
            final(self).cur >= old(self).cur,
            match r {
                Some(x) => {
                    &&& old(self).cur < final(self).cur
                    &&& old(self).value.at(old(self).spans@[final(self).cur - 1]) == Some(x)
                    &&& forall|j: int| old(self).cur <= j < final(self).cur - 1 ==> old(self).value.at(#[trigger] old(self).spans@[j]) is None
                    &&& todo(old(self).value, old(self).spans@, old(self).cur as int) == todo(old(self).value, old(self).spans@, final(self).cur as int) + 1
                },
                None => {
                    &&& final(self).cur == final(self).spans@.len()
                    &&& forall|j: int| old(self).cur <= j < final(self).cur ==> old(self).value.at(#[trigger] old(self).spans@[j]) is None
                    &&& todo(old(self).value, old(self).spans@, old(self).cur as int) == 0
                },
            },
    //@loop 0
        invariant
            self.value == old(self).value, self.spans == old(self).spans, old(self).cur <= self.cur <= self.spans@.len() <= usize::MAX,
            forall|j: int| old(self).cur <= j < self.cur ==> old(self).value.at(#[trigger] old(self).spans@[j]) is None,
            todo(old(self).value, old(self).spans@, old(self).cur as int) == todo(old(self).value, old(self).spans@, self.cur as int),
        ensures
            self.cur == self.spans@.len(),
        decreases self.spans@.len() - self.cur
    //@entry
        proof { slice_len(self.spans); }
    //@end

    //@fn file=src/iter/span.rs owner=IteratorBySpan trait=Iterator fn=size_hint
    pub fn size_hint(&self) -> (r: (usize, Option<usize>))
        requires self.cur <= self.spans@.len(),
        ensures r.0 == todo(self.value, self.spans@, self.cur as int), r.1 == Some(r.0),
    //@loop 0
        invariant
            __i0 <= __s0@.len(), __s0@ == self.spans@.subrange(self.cur as int, self.spans@.len() as int), self.cur <= self.spans@.len(),
            __n == done(self.value, self.spans@, self.cur as int, self.cur + __i0), __n <= __i0,
        decreases __s0@.len() - __i0
    //@after 0
        proof { split(self.value, self.spans@, self.cur as int, self.spans@.len() as int); }
    //@end
}

pub struct IteratorByOptionSpan<'a, 'b, T: ?Sized> { pub cur: usize, pub value: &'a T, pub spans: &'b [Option<Span>] }
impl<'a, 'b, T: ?Sized> IteratorByOptionSpan<'a, 'b, T> {
    //@fn file=src/iter/span.rs owner=IteratorByOptionSpan fn=new
    pub fn new(str: &'a T, spans: &'b [Option<Span>]) -> (r: Self)
        ensures r.cur == 0, r.value == str, r.spans == spans,
    //@end
}
impl<'a, 'b, T: ?Sized + IndexBySpan> IteratorByOptionSpan<'a, 'b, T> {
    //@fn file=src/iter/span.rs owner=IteratorByOptionSpan trait=Iterator fn=next
    pub fn next(&mut self) -> (r: Option<&'a T::Output>)
        requires old(self).cur <= old(self).spans@.len(),
        ensures
            final(self).value == old(self).value, final(self).spans == old(self).spans, final(self).cur <= final(self).spans@.len(),
            final(self).cur >= old(self).cur,
            match r {
                Some(x) => {
                    &&& old(self).cur < final(self).cur
                    &&& sat(old(self).value, old(self).spans@[final(self).cur - 1]) == Some(x)
                    &&& forall|j: int| old(self).cur <= j < final(self).cur - 1 ==> sat(old(self).value, #[trigger] old(self).spans@[j]) is None
                    &&& otodo(old(self).value, old(self).spans@, old(self).cur as int) == otodo(old(self).value, old(self).spans@, final(self).cur as int) + 1
                },
                None => {
                    &&& final(self).cur == final(self).spans@.len()
                    &&& forall|j: int| old(self).cur <= j < final(self).cur ==> sat(old(self).value, #[trigger] old(self).spans@[j]) is None
                    &&& otodo(old(self).value, old(self).spans@, old(self).cur as int) == 0
                },
            },
    //@loop 0
        invariant
            self.value == old(self).value, self.spans == old(self).spans, old(self).cur <= self.cur <= self.spans@.len() <= usize::MAX,
            forall|j: int| old(self).cur <= j < self.cur ==> sat(old(self).value, #[trigger] old(self).spans@[j]) is None,
            otodo(old(self).value, old(self).spans@, old(self).cur as int) == otodo(old(self).value, old(self).spans@, self.cur as int),
        ensures
            self.cur == self.spans@.len(),
        decreases self.spans@.len() - self.cur
    //@entry
        proof { slice_len(self.spans); }
    //@end

    //@fn file=src/iter/span.rs owner=IteratorByOptionSpan trait=Iterator fn=size_hint
    pub fn size_hint(&self) -> (r: (usize, Option<usize>))
        requires self.cur <= self.spans@.len(),
        ensures r.0 == otodo(self.value, self.spans@, self.cur as int), r.1 == Some(r.0),
    //@loop 0
        invariant
            __i0 <= __s0@.len(), __s0@ == self.spans@.subrange(self.cur as int, self.spans@.len() as int), self.cur <= self.spans@.len(),
            __n == odone(self.value, self.spans@, self.cur as int, self.cur + __i0), __n <= __i0,
        decreases __s0@.len() - __i0
    //@after 0
        proof { osplit(self.value, self.spans@, self.cur as int, self.spans@.len() as int); }
    //@end
}

pub struct SpanIterator<'a> { pub offset: usize, pub spans: &'a [Span] }
impl<'a> SpanIterator<'a> {
    //@fn file=src/iter/span.rs owner=SpanIterator fn=new
    pub fn new(spans: &'a [Span]) -> (r: Self)
        ensures r.offset == 0, r.spans == spans,
    //@end
    //@fn file=src/iter/span.rs owner=SpanIterator trait=Iterator fn=next
    pub fn next(&mut self) -> (r: Option<Span>)
        ensures
            final(self).spans == old(self).spans,
            if old(self).offset < old(self).spans@.len() {
                r == Some(old(self).spans@[old(self).offset as int]) && final(self).offset == old(self).offset + 1
            } else { r is None && final(self).offset == old(self).offset },
    //@end
}
pub struct OptionSpanIterator<'a> { pub offset: usize, pub spans: &'a [Option<Span>] }
impl<'a> OptionSpanIterator<'a> {
    //@fn file=src/iter/span.rs owner=OptionSpanIterator fn=new
    pub fn new(spans: &'a [Option<Span>]) -> (r: Self)
        ensures r.offset == 0, r.spans == spans,
    //@end
    //@fn file=src/iter/span.rs owner=OptionSpanIterator trait=Iterator fn=next
    pub fn next(&mut self) -> (r: Option<Span>)
        requires old(self).offset <= old(self).spans@.len(),
        ensures
            final(self).spans == old(self).spans, old(self).offset <= final(self).offset <= final(self).spans@.len(),
            match r {
                Some(x) => old(self).offset < final(self).offset && old(self).spans@[final(self).offset - 1] == Some(x)
                    && forall|j: int| old(self).offset <= j < final(self).offset - 1 ==> (#[trigger] old(self).spans@[j]) is None,
                None => final(self).offset == final(self).spans@.len()
                    && forall|j: int| old(self).offset <= j < final(self).offset ==> (#[trigger] old(self).spans@[j]) is None,
            },
    //@loop 0
        invariant
            self.spans == old(self).spans, old(self).offset <= self.offset <= self.spans@.len() <= usize::MAX,
            forall|j: int| old(self).offset <= j < self.offset ==> (#[trigger] old(self).spans@[j]) is None,
        ensures
            self.offset == self.spans@.len(),
        decreases self.spans@.len() - self.offset
    //@entry
        proof { slice_len(self.spans); }
    //@end
}

/// C03, C21: the items of bytes, each with its distance from where the iteration starts
pub struct BytesIndices<'a, T> { pub offset: usize, pub bytes: &'a [T] }
impl<'a, T: Copy> BytesIndices<'a, T> {
    //@fn file=src/iter/byte.rs owner=BytesIndices fn=new
    pub fn new(bytes: &'a [T]) -> (r: Self)
        ensures r.offset == 0, r.bytes == bytes,
    //@end
    //@fn file=src/iter/byte.rs owner=BytesIndices trait=Iterator fn=next
    pub fn next(&mut self) -> (r: Option<(usize, T)>)
        requires old(self).offset <= old(self).bytes@.len(),
        ensures
            final(self).bytes == old(self).bytes, final(self).offset <= final(self).bytes@.len(),
            if old(self).offset < old(self).bytes@.len() {
                r == Some((old(self).offset, old(self).bytes@[old(self).offset as int])) && final(self).offset == old(self).offset + 1
            } else { r is None && final(self).offset == old(self).offset },
    //@end
    //@fn file=src/iter/byte.rs owner=BytesIndices trait=Iterator fn=size_hint
    pub fn size_hint(&self) -> (r: (usize, Option<usize>))
        requires self.offset <= self.bytes@.len(),
        ensures r.0 == self.bytes@.len() - self.offset, r.1 == Some(r.0),
    //@end
}

/// std: `get` of a range (assumed)
#[verifier::external_body]
pub fn bytes_get<'a>(s: &'a [u8], r: rb::Excl) -> (o: Option<&'a [u8]>)
    ensures match o { Some(x) => r.lo <= r.hi <= s@.len() && x@ == s@.subrange(r.lo as int, r.hi as int), None => !(r.lo <= r.hi && r.hi <= s@.len()) },
{ s.get(r.lo..r.hi) }
/// text: the bytes of it between two character boundaries; anything else is nothing
#[verifier::external_body]
pub struct Text { _x: () }
impl Text {
    pub uninterp spec fn size(&self) -> nat;
    pub uninterp spec fn boundary(&self, n: int) -> bool;
    pub uninterp spec fn part(&self, lo: int, hi: int) -> &Text;
    #[verifier::external_body]
    pub fn get(&self, r: rb::Excl) -> (o: Option<&Text>)
        ensures o == (if r.lo <= r.hi && r.hi <= self.size() && self.boundary(r.lo as int) && self.boundary(r.hi as int) { Some(self.part(r.lo as int, r.hi as int)) } else { None }),
    { unimplemented!() }
}
pub open spec fn sub_bytes(s: Seq<u8>, sp: Span, r: Option<&[u8]>) -> bool {
    match r {
        Some(x) => sp.beg + sp.len <= s.len() && x@ == s.subrange(sp.beg as int, sp.beg + sp.len),
        None => sp.beg + sp.len > s.len(),
    }
}

//@fn file=src/iter/mod.rs owner=[u8] trait=IndexBySpan fn=get_by_span
//@sub self.get( => bytes_get(self_,
pub fn g1<'a>(self_: &'a [u8], span: &Span) -> (r: Option<&'a [u8]>)
    ensures sub_bytes(self_@, *span, r),
//@entry
    proof { slice_len::<u8>(&*self_); }
//@end

//@fn file=src/iter/mod.rs owner=&[u8] trait=IndexBySpan fn=get_by_span
//@sub self.get( => bytes_get(self_,
pub fn g2<'a>(self_: &'a [u8], span: &Span) -> (r: Option<&'a [u8]>)
    ensures sub_bytes(self_@, *span, r),
//@entry
    proof { slice_len::<u8>(&*self_); }
//@end

//@fn file=src/iter/mod.rs owner=Vec trait=IndexBySpan fn=get_by_span
//@sub self.get( => bytes_get(self_.as_slice(),
pub fn g3<'a>(self_: &'a Vec<u8>, span: &Span) -> (r: Option<&'a [u8]>)
    ensures sub_bytes(self_@, *span, r),
//@entry
    proof { vec_len(self_); }
//@end

//@fn file=src/iter/mod.rs owner=&Vec trait=IndexBySpan fn=get_by_span
//@sub self.get( => bytes_get(self_.as_slice(),
pub fn g4<'a>(self_: &'a Vec<u8>, span: &Span) -> (r: Option<&'a [u8]>)
    ensures sub_bytes(self_@, *span, r),
//@entry
    proof { vec_len(self_); }
//@end

//@fn file=src/iter/mod.rs owner=str trait=IndexBySpan fn=get_by_span
//@sub self.get( => self_.get(
pub fn g5<'a>(self_: &'a Text, span: &Span) -> (r: Option<&'a Text>)
    requires self_.size() <= usize::MAX,
    ensures
        r == (if span.beg + span.len <= self_.size() && self_.boundary(span.beg as int) && self_.boundary(span.beg + span.len) {
            Some(self_.part(span.beg as int, span.beg + span.len))
        } else { None }),
//@end

//@fn file=src/iter/mod.rs owner=&str trait=IndexBySpan fn=get_by_span
//@sub self.get( => self_.get(
pub fn g6<'a>(self_: &'a Text, span: &Span) -> (r: Option<&'a Text>)
    requires self_.size() <= usize::MAX,
    ensures
        r == (if span.beg + span.len <= self_.size() && self_.boundary(span.beg as int) && self_.boundary(span.beg + span.len) {
            Some(self_.part(span.beg as int, span.beg + span.len))
        } else { None }),
//@end
} // verus!
