//@include prelude
//@include range

/// the bytes of a text
pub uninterp spec fn utf8(s: &str) -> Seq<u8>;
/// std: a position where a text may be cut
pub open spec fn boundary(b: Seq<u8>, i: int) -> bool { i == 0 || i == b.len() || (0 < i < b.len() && !(0x80 <= b[i] < 0xC0)) }

/// what std's slicing does: `dat.get(a..b)`, `dat.get(a..)`, `dat.len()`, for bytes and text
pub trait Dat {
    spec fn byts(&self) -> Seq<u8>;
    spec fn cut(&self, i: int) -> bool;
    fn size_(&self) -> (r: usize)
        ensures r == self.byts().len();
    fn get_<R: Rng>(&self, x: R) -> (r: Option<&Self>)
        ensures
            match r {
                Some(s) => x.beg() <= x.end(self.byts().len()) <= self.byts().len() && self.cut(x.beg()) && self.cut(x.end(self.byts().len()))
                    && s.byts() == self.byts().subrange(x.beg(), x.end(self.byts().len())),
                None => !(x.beg() <= x.end(self.byts().len()) <= self.byts().len() && self.cut(x.beg()) && self.cut(x.end(self.byts().len()))),
            };
}
pub trait Rng: Sized { spec fn beg(&self) -> int; spec fn end(&self, n: nat) -> int; }
impl Rng for rb::Excl { open spec fn beg(&self) -> int { self.lo as int } open spec fn end(&self, n: nat) -> int { self.hi as int } }
impl Rng for rb::From { open spec fn beg(&self) -> int { self.lo as int } open spec fn end(&self, n: nat) -> int { n as int } }
impl Dat for [u8] {
    open spec fn byts(&self) -> Seq<u8> { self@ }
    open spec fn cut(&self, i: int) -> bool { true }
    #[verifier::external_body]
    fn size_(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    fn get_<R: Rng>(&self, x: R) -> (r: Option<&Self>) { unimplemented!() }
}
impl Dat for str {
    open spec fn byts(&self) -> Seq<u8> { utf8(self) }
    open spec fn cut(&self, i: int) -> bool { boundary(utf8(self), i) }
    #[verifier::external_body]
    fn size_(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    fn get_<R: Rng>(&self, x: R) -> (r: Option<&Self>) { unimplemented!() }
}

/// the bytes iterator (its functions are under contract in iter.rs)
pub struct BytesIndices<'a> { pub offset: usize, pub bytes: &'a [u8] }
impl<'a> BytesIndices<'a> {
    //@fn file=src/iter/byte.rs owner=BytesIndices fn=new props=C03
    pub fn new(bytes: &'a [u8]) -> (r: Self)
        ensures r.offset == 0, r.bytes == bytes,
    //@end
}
/// std's iterator over the characters of a text
#[verifier::external_body]
pub struct CharIndices<'a> { _s: &'a str }
pub uninterp spec fn chars_of(c: CharIndices<'_>) -> Seq<u8>;
#[verifier::external_body]
pub fn char_indices<'a>(s: &'a str) -> (r: CharIndices<'a>)
    ensures chars_of(r) == utf8(s),
{ unimplemented!() }

/// a part of the input: exactly those bytes, an error outside of it or inside a character
pub open spec fn part<T: Dat + ?Sized>(d: &T, a: int, b: int, r: Result<&T, Error>) -> bool {
    match r {
        Ok(s) => 0 <= a <= b <= d.byts().len() && d.cut(a) && d.cut(b) && s.byts() == d.byts().subrange(a, b),
        Err(_) => !(0 <= a <= b <= d.byts().len() && d.cut(a) && d.cut(b)),
    }
}

pub struct RegexCtx<'a, T: ?Sized> { pub dat: &'a T, pub offset: usize }
impl<'a, T: ?Sized> RegexCtx<'a, T> {
    //@fn file=src/ctx/regex.rs owner=RegexCtx trait= fn=new props=C03
    pub fn new(dat: &'a T) -> (r: Self)
        ensures r.dat == dat, r.offset == 0,
    //@end
    //@fn file=src/ctx/regex.rs owner=RegexCtx trait= fn=reset_with props=C03
    pub fn reset_with(&mut self, dat: &'a T) -> (r: &mut Self)
        ensures r.dat == dat, r.offset == 0, *final(self) == *final(r),
    //@end
    //@fn file=src/ctx/regex.rs owner=RegexCtx trait= fn=reset props=C03
    pub fn reset(&mut self) -> (r: &mut Self)
        ensures r.dat == old(self).dat, r.offset == 0, *final(self) == *final(r),
    //@end
}
impl<'a> RegexCtx<'a, [u8]> {
    //@fn file=src/ctx/regex.rs owner=RegexCtx ty=RegexCtx<'a,[u8]> trait=Context fn=len props=C03
    //@sub .len() => .size_()
    pub fn len(&self) -> (r: usize)
        ensures r == self.dat.byts().len(),
    //@end
    //@fn file=src/ctx/regex.rs owner=RegexCtx ty=RegexCtx<'a,[u8]> trait=Context fn=offset props=C03
    pub fn offset(&self) -> (r: usize)
        ensures r == self.offset,
    //@end
    //@fn file=src/ctx/regex.rs owner=RegexCtx ty=RegexCtx<'a,[u8]> trait=Context fn=set_offset props=C03
    pub fn set_offset(&mut self, offset: usize) -> (r: &mut Self)
        ensures r.dat == old(self).dat, r.offset == offset, *final(self) == *final(r),
    //@end
    //@fn file=src/ctx/regex.rs owner=RegexCtx ty=RegexCtx<'a,[u8]> trait=Context fn=inc props=C03
    pub fn inc(&mut self, offset: usize) -> (r: &mut Self)
        requires old(self).offset + offset <= usize::MAX,
        ensures r.dat == old(self).dat, r.offset == old(self).offset + offset, *final(self) == *final(r),
    //@end
    //@fn file=src/ctx/regex.rs owner=RegexCtx ty=RegexCtx<'a,[u8]> trait=Context fn=dec props=C03
    pub fn dec(&mut self, offset: usize) -> (r: &mut Self)
        requires offset <= old(self).offset,
        ensures r.dat == old(self).dat, r.offset == old(self).offset - offset, *final(self) == *final(r),
    //@end
    //@fn file=src/ctx/regex.rs owner=RegexCtx ty=RegexCtx<'a,[u8]> trait=Context fn=orig_sub props=C03
    //@sub .get( => .get_(
    pub fn orig_sub(&self, offset: usize, len: usize) -> (r: Result<&'a [u8], Error>)
        requires self.dat.byts().len() <= isize::MAX,
        ensures part(self.dat, offset as int, offset + len, r),
    //@end
    //@fn file=src/ctx.rs default trait=Context fn=orig_at props=C03
    pub fn orig_at(&self, offset: usize) -> (r: Result<&'a [u8], Error>)
        requires self.dat.byts().len() <= isize::MAX,
        ensures part(self.dat, offset as int, self.dat.byts().len() as int, r),
    //@end
    //@fn file=src/ctx.rs default trait=Context fn=orig props=C03
    pub fn orig(&self) -> (r: Result<&'a [u8], Error>)
        requires self.dat.byts().len() <= isize::MAX,
        ensures part(self.dat, self.offset as int, self.dat.byts().len() as int, r),
    //@end
    //@fn file=src/ctx.rs default trait=Context fn=is_empty props=C03
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self.dat.byts().len() == 0),
    //@end
    //@fn file=src/ctx/regex.rs owner=RegexCtx ty=RegexCtx<'a,[u8]> trait=Context fn=clone_at props=C03
    pub fn clone_at(&self, offset: usize) -> (r: Result<Self, Error>)
        requires self.dat.byts().len() <= isize::MAX,
        ensures match r {
            Ok(c) => part(self.dat, offset as int, self.dat.byts().len() as int, Ok::<&[u8], Error>(c.dat)) && c.offset == 0,
            Err(e) => part(self.dat, offset as int, self.dat.byts().len() as int, Err::<&[u8], Error>(e)),
        },
    //@end
    //@fn file=src/ctx/regex.rs owner=RegexCtx ty=RegexCtx<'a,[u8]> trait=Context fn=peek_at props=C03
    pub fn peek_at(&self, offset: usize) -> (r: Result<BytesIndices<'a>, Error>)
        requires self.dat.byts().len() <= isize::MAX,
        ensures match r {
            Ok(i) => i.offset == 0 && part(self.dat, offset as int, self.dat.byts().len() as int, Ok::<&[u8], Error>(i.bytes)),
            Err(e) => part(self.dat, offset as int, self.dat.byts().len() as int, Err::<&[u8], Error>(e)),
        },
    //@end
    //@fn file=src/ctx.rs default trait=Context fn=peek props=C03
    pub fn peek(&self) -> (r: Result<BytesIndices<'a>, Error>)
        requires self.dat.byts().len() <= isize::MAX,
        ensures match r {
            Ok(i) => i.offset == 0 && part(self.dat, self.offset as int, self.dat.byts().len() as int, Ok::<&[u8], Error>(i.bytes)),
            Err(e) => part(self.dat, self.offset as int, self.dat.byts().len() as int, Err::<&[u8], Error>(e)),
        },
    //@end
}
impl<'a> RegexCtx<'a, str> {
    //@fn file=src/ctx/regex.rs owner=RegexCtx ty=RegexCtx<'a,str> trait=Context fn=len props=C03
    //@sub .len() => .size_()
    pub fn len(&self) -> (r: usize)
        ensures r == self.dat.byts().len(),
    //@end
    //@fn file=src/ctx/regex.rs owner=RegexCtx ty=RegexCtx<'a,str> trait=Context fn=offset props=C03
    pub fn offset(&self) -> (r: usize)
        ensures r == self.offset,
    //@end
    //@fn file=src/ctx/regex.rs owner=RegexCtx ty=RegexCtx<'a,str> trait=Context fn=set_offset props=C03
    pub fn set_offset(&mut self, offset: usize) -> (r: &mut Self)
        ensures r.dat == old(self).dat, r.offset == offset, *final(self) == *final(r),
    //@end
    //@fn file=src/ctx/regex.rs owner=RegexCtx ty=RegexCtx<'a,str> trait=Context fn=inc props=C03
    pub fn inc(&mut self, offset: usize) -> (r: &mut Self)
        requires old(self).offset + offset <= usize::MAX,
        ensures r.dat == old(self).dat, r.offset == old(self).offset + offset, *final(self) == *final(r),
    //@end
    //@fn file=src/ctx/regex.rs owner=RegexCtx ty=RegexCtx<'a,str> trait=Context fn=dec props=C03
    pub fn dec(&mut self, offset: usize) -> (r: &mut Self)
        requires offset <= old(self).offset,
        ensures r.dat == old(self).dat, r.offset == old(self).offset - offset, *final(self) == *final(r),
    //@end
    //@fn file=src/ctx/regex.rs owner=RegexCtx ty=RegexCtx<'a,str> trait=Context fn=orig_sub props=C03
    //@sub .get( => .get_(
    pub fn orig_sub(&self, offset: usize, len: usize) -> (r: Result<&'a str, Error>)
        requires self.dat.byts().len() <= isize::MAX,
        ensures part(self.dat, offset as int, offset + len, r),
    //@end
    //@fn file=src/ctx/regex.rs owner=RegexCtx ty=RegexCtx<'a,str> trait=Context fn=orig_at props=C03
    //@sub .get( => .get_(
    pub fn orig_at(&self, offset: usize) -> (r: Result<&'a str, Error>)
        requires self.dat.byts().len() <= isize::MAX,
        ensures part(self.dat, offset as int, self.dat.byts().len() as int, r),
    //@end
    //@fn file=src/ctx.rs default trait=Context fn=orig props=C03
    pub fn orig(&self) -> (r: Result<&'a str, Error>)
        requires self.dat.byts().len() <= isize::MAX,
        ensures part(self.dat, self.offset as int, self.dat.byts().len() as int, r),
    //@end
    //@fn file=src/ctx.rs default trait=Context fn=is_empty props=C03
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self.dat.byts().len() == 0),
    //@end
    //@fn file=src/ctx/regex.rs owner=RegexCtx ty=RegexCtx<'a,str> trait=Context fn=clone_at props=C03
    pub fn clone_at(&self, offset: usize) -> (r: Result<Self, Error>)
        requires self.dat.byts().len() <= isize::MAX,
        ensures match r {
            Ok(c) => part(self.dat, offset as int, self.dat.byts().len() as int, Ok::<&str, Error>(c.dat)) && c.offset == 0,
            Err(e) => part(self.dat, offset as int, self.dat.byts().len() as int, Err::<&str, Error>(e)),
        },
    //@end
    //@fn file=src/ctx/regex.rs owner=RegexCtx ty=RegexCtx<'a,str> trait=Context fn=peek_at props=C03
    //@sub self.orig_at(offset)?.char_indices() => char_indices(self.orig_at(offset)?)
    pub fn peek_at(&self, offset: usize) -> (r: Result<CharIndices<'a>, Error>)
        requires self.dat.byts().len() <= isize::MAX,
        ensures match r {
            Ok(i) => offset <= utf8(self.dat).len() && self.dat.cut(offset as int) && chars_of(i) == utf8(self.dat).subrange(offset as int, utf8(self.dat).len() as int),
            Err(e) => part(self.dat, offset as int, self.dat.byts().len() as int, Err::<&str, Error>(e)),
        },
    //@end
    //@fn file=src/ctx.rs default trait=Context fn=peek props=C03
    pub fn peek(&self) -> (r: Result<CharIndices<'a>, Error>)
        requires self.dat.byts().len() <= isize::MAX,
        ensures match r {
            Ok(i) => self.offset <= utf8(self.dat).len() && self.dat.cut(self.offset as int) && chars_of(i) == utf8(self.dat).subrange(self.offset as int, utf8(self.dat).len() as int),
            Err(e) => part(self.dat, self.offset as int, self.dat.byts().len() as int, Err::<&str, Error>(e)),
        },
    //@end
}
} // verus!
