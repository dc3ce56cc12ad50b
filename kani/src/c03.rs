//! C03 context views are faithful, in bounds and never split a character.
use crate::abs::*;
use neure::err::Error;
use neure::iter::{BytesIndices, IndexBySpan};
use neure::prelude::*;

static ONE: [u8; 1] = [0];

/// fresh memory: arbitrary bytes, any length the verifier's pointers can span (2^46)
fn fresh() -> (*mut u8, usize) {
    let n: usize = kani::any();
    kani::assume(0 < n && n <= 1 << 46);
    (unsafe { std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(n, 1)) }, n)
}
/// any input
fn any_big() -> &'static [u8] {
    if kani::any() {
        return &[];
    }
    let (p, n) = fresh();
    unsafe { core::slice::from_raw_parts(p, n) }
}
/// Any text, as far as a view can tell: every byte sequence, of which texts are some. Characters begin
/// where a byte is no continuation byte, which is what every text has in common.
fn any_text() -> &'static str {
    let s = any_big();
    kani::assume(s.len() == 0 || s[0] & 0xc0 != 0x80);
    unsafe { core::str::from_utf8_unchecked(s) }
}
fn edge(s: &[u8], i: usize) -> bool {
    i == s.len() || (i < s.len() && s[i] & 0xc0 != 0x80)
}
/// `r` must be exactly the bytes [beg, end) of `s`
fn same(r: &[u8], s: &[u8], beg: usize, end: usize) -> bool {
    r.as_ptr() as usize == s.as_ptr() as usize + beg && r.len() == end - beg
}

// ------------------------------------------------------------------ bytes
#[kani::proof]
fn bytes_orig_sub() {
    let s = any_big();
    let (pos, off, len): (usize, usize, usize) = (kani::any(), kani::any(), kani::any());
    let c = BytesCtx::new(s).with_offset(pos);
    let r = Context::orig_sub(&c, off, len);
    if off <= s.len() && len <= s.len() - off {
        assert!(r.is_ok() && same(r.unwrap(), s, off, off + len), "not the requested bytes");
    } else {
        assert!(r.is_err(), "out of range request answered");
    }
    kani::cover!(off <= s.len() && len <= s.len() - off);
}
#[kani::proof]
fn bytes_orig_at() {
    let s = any_big();
    let (pos, off): (usize, usize) = (kani::any(), kani::any());
    let c = BytesCtx::new(s).with_offset(pos);
    let r = Context::orig_at(&c, off);
    if off <= s.len() {
        assert!(r.is_ok() && same(r.unwrap(), s, off, s.len()), "not the remaining bytes");
    } else {
        assert!(r.is_err(), "out of range request answered");
    }
    let r = Context::orig(&c);
    if pos <= s.len() {
        assert!(r.is_ok() && same(r.unwrap(), s, pos, s.len()), "not the remaining bytes");
    } else {
        assert!(r.is_err(), "out of range request answered");
    }
    assert!(Context::len(&c) == s.len() && Context::offset(&c) == pos);
    assert!(Context::is_empty(&c) == (s.len() == 0));
    kani::cover!(off <= s.len() && pos > s.len());
}
#[kani::proof]
fn bytes_clone_at() {
    let s = any_big();
    let (pos, off): (usize, usize) = (kani::any(), kani::any());
    let c = BytesCtx::new(s).with_offset(pos);
    let r = c.clone_at(off);
    if off <= s.len() {
        let d = r.unwrap();
        // a context over the remaining input, at its start
        assert!(same(d.dat(), s, off, s.len()) && Context::offset(&d) == 0, "not the remaining bytes");
    } else {
        assert!(r.is_err(), "out of range request answered");
    }
    kani::cover!(off <= s.len());
}
#[kani::proof]
fn bytes_peek_at() {
    let s = any_big();
    let (pos, off): (usize, usize) = (kani::any(), kani::any());
    let c = BytesCtx::new(s).with_offset(pos);
    let r = c.peek_at(off);
    if off <= s.len() {
        assert!(r.unwrap().len() == s.len() - off, "not the remaining bytes");
    } else {
        assert!(r.is_err(), "out of range request answered");
    }
    let r = c.peek();
    assert!(r.is_ok() == (pos <= s.len()), "peek in range iff the position is");
}
/// the setters and movers of the position
#[kani::proof]
fn bytes_position() {
    let s = any_big();
    let (a, n): (usize, usize) = (kani::any(), kani::any());
    let mut c = BytesCtx::new(s);
    assert!(Context::offset(&c) == 0);
    Context::set_offset(&mut c, a);
    assert!(Context::offset(&c) == a);
    kani::assume(n <= usize::MAX - a);
    c.inc(n);
    assert!(Context::offset(&c) == a + n);
    c.dec(n);
    assert!(Context::offset(&c) == a);
    c.reset();
    assert!(Context::offset(&c) == 0 && c.dat().as_ptr() == s.as_ptr());
    Context::set_offset(&mut c, a);
    c.reset_with(&ONE);
    assert!(Context::offset(&c) == 0 && c.dat().len() == 1);
    let c = c.with_dat(s).with_offset(a);
    assert!(c.offset() == a && same(c.dat(), s, 0, s.len()));
}
/// contents: every byte with its position, in order, then nothing
#[kani::proof]
#[kani::unwind(6)]
fn bytes_iter() {
    const N: usize = 4;
    let buf: [u8; N] = kani::any();
    let n: usize = kani::any();
    let off: usize = kani::any();
    kani::assume(n <= N && off <= n);
    kani::cover!(true, "BOUND: inputs of at most 4 bytes");
    let c = BytesCtx::new(&buf[..n]);
    let mut it = c.peek_at(off).unwrap();
    let mut i = off;
    while i < n {
        assert!(it.size_hint() == (n - i, Some(n - i)), "size of the remaining input");
        assert!(it.next() == Some((i - off, buf[i])), "wrong item or position");
        i += 1;
    }
    assert!(it.next().is_none() && it.next().is_none() && it.len() == 0, "items after the end");
}
/// one step of the byte iterator from any state it can reach
#[kani::proof]
#[kani::unwind(4)]
fn bytes_indices_step() {
    let s = any_big();
    let mut it = BytesIndices::new(s);
    assert!(it.size_hint() == (s.len(), Some(s.len())));
    let r = it.next();
    assert!(r == if s.len() > 0 { Some((0, s[0])) } else { None }, "wrong first item");
    let mut cp = it;
    assert!(cp.next() == it.clone().next(), "a copy iterates the same items");
}

// ------------------------------------------------------------------ text
/// a text of two arbitrary characters, its bytes, and the width of the first one
struct Two {
    buf: [u8; 8],
    a: char,
    b: char,
    w: usize,
    n: usize,
}
impl Two {
    fn any() -> Self {
        let (a, b): (char, char) = (kani::any(), kani::any());
        kani::cover!(true, "BOUND: texts of two characters (any characters)");
        let mut buf = [0; 8];
        let w = a.encode_utf8(&mut buf[..4]).len();
        let n = w + b.encode_utf8(&mut buf[w..w + 4]).len();
        Two { buf, a, b, w, n }
    }
    fn str(&self) -> &str {
        // encode_utf8 wrote exactly these
        unsafe { core::str::from_utf8_unchecked(&self.buf[..self.n]) }
    }
    fn boundary(&self, i: usize) -> bool {
        i == 0 || i == self.w || i == self.n
    }
}
#[kani::proof]
fn chars_orig_sub() {
    let s = any_text();
    let b = s.as_bytes();
    let (pos, off, len): (usize, usize, usize) = (kani::any(), kani::any(), kani::any());
    let c = CharsCtx::new(s).with_offset(pos);
    let r = Context::orig_sub(&c, off, len);
    if off <= b.len() && len <= b.len() - off && edge(b, off) && edge(b, off + len) {
        assert!(r.is_ok() && same(r.unwrap().as_bytes(), b, off, off + len), "not the requested text");
    } else {
        assert!(r.is_err(), "out of range request answered");
    }
    kani::cover!(off <= b.len() && off > 7 && edge(b, off) && len == b.len() - off && len > 7);
    kani::cover!(off <= b.len() && !edge(b, off));
}
#[kani::proof]
fn chars_orig_at() {
    let s = any_text();
    let b = s.as_bytes();
    let (pos, off): (usize, usize) = (kani::any(), kani::any());
    let c = CharsCtx::new(s).with_offset(pos);
    let r = Context::orig_at(&c, off);
    if edge(b, off) {
        assert!(r.is_ok() && same(r.unwrap().as_bytes(), b, off, b.len()), "not the remaining text");
    } else {
        assert!(r.is_err(), "out of range request answered");
    }
    let r = c.clone_at(off);
    if edge(b, off) {
        let d = r.unwrap();
        assert!(same(d.dat().as_bytes(), b, off, b.len()) && Context::offset(&d) == 0, "not the remaining text");
    } else {
        assert!(r.is_err(), "out of range request answered");
    }
    let r = Context::orig(&c);
    assert!(r.is_ok() == edge(b, pos), "position outside the text or inside a character");
    assert!(Context::len(&c) == b.len() && Context::offset(&c) == pos);
    assert!(Context::is_empty(&c) == (b.len() == 0));
}
#[kani::proof]
fn chars_peek_in_range() {
    let s = any_text();
    let off: usize = kani::any();
    let c = CharsCtx::new(s).with_offset(off);
    let ok = edge(s.as_bytes(), off);
    kani::cover!(ok && off > 7);
    match c.peek_at(off) {
        Ok(it) => assert!(ok && same(it.as_str().as_bytes(), s.as_bytes(), off, s.len()), "not the remaining text"),
        Err(_) => assert!(!ok, "position inside the text refused"),
    }
    assert!(c.peek().is_ok() == ok, "position outside the text or inside a character");
}
/// the first character at any position of a text of any length, and what the iteration continues with
#[kani::proof]
#[kani::unwind(5)]
fn chars_peek_items() {
    let (p, n) = fresh();
    let a: char = kani::any();
    let off: usize = kani::any();
    let w = a.len_utf8();
    kani::assume(n >= 4 && off <= n && n - off >= w);
    let mut buf = [0u8; 4];
    a.encode_utf8(&mut buf);
    let b = unsafe { core::slice::from_raw_parts(p, n) };
    kani::assume(b[off] == buf[0] && (w < 2 || b[off + 1] == buf[1]) && (w < 3 || b[off + 2] == buf[2]) && (w < 4 || b[off + 3] == buf[3]));
    kani::assume(edge(b, off + w));
    let s = unsafe { core::str::from_utf8_unchecked(b) };
    let mut it = CharsCtx::new(s).peek_at(off).unwrap();
    assert!(it.next() == Some((0, a)), "wrong item or position");
    assert!(it.offset() == w && same(it.as_str().as_bytes(), b, off + w, n), "not the rest of the text");
    kani::cover!(w == 3 && off > 7 && n - off > 7);
    kani::cover!(off + w == n);
}
#[kani::proof]
#[kani::unwind(5)]
fn chars_peek_at() {
    let t = Two::any();
    let off: usize = kani::any();
    let c = CharsCtx::new(t.str()).with_offset(off);
    let r = c.peek_at(off);
    assert!(r.is_ok() == t.boundary(off), "position outside the text or inside a character");
    assert!(c.peek().is_ok() == t.boundary(off), "position outside the text or inside a character");
    if let Ok(mut it) = r {
        if off == 0 {
            assert!(it.next() == Some((0, t.a)), "wrong item or position");
            assert!(it.next() == Some((t.w, t.b)), "wrong item or position");
        } else if off == t.w {
            assert!(it.next() == Some((0, t.b)), "wrong item or position");
        }
        assert!(it.next().is_none(), "items after the end");
    }
}
#[kani::proof]
fn chars_position() {
    let (a, n): (usize, usize) = (kani::any(), kani::any());
    let mut c = CharsCtx::new("ab");
    Context::set_offset(&mut c, a);
    assert!(Context::offset(&c) == a);
    kani::assume(n <= usize::MAX - a);
    c.inc(n);
    assert!(Context::offset(&c) == a + n);
    c.dec(n);
    assert!(Context::offset(&c) == a && Context::len(&c) == 2);
    c.reset();
    assert!(Context::offset(&c) == 0);
}

// ------------------------------------------------------------- by span
#[kani::proof]
fn bytes_by_span() {
    let s = any_big();
    let sp = Span::new(kani::any(), kani::any());
    let c = BytesCtx::new(s).with_offset(kani::any());
    let inside = sp.beg <= s.len() && sp.len <= s.len() - sp.beg;
    macro_rules! chk {
        ($e:expr) => {
            match $e {
                Some(r) => assert!(inside && same(r, s, sp.beg, sp.beg + sp.len), "not the bytes of the span"),
                None => assert!(!inside, "span inside the input refused"),
            }
        };
    }
    chk!(s.get_by_span(&sp));
    chk!((&s).get_by_span(&sp));
    chk!(c.get_by_span(&sp));
    chk!(sp.orig(&c).ok());
    kani::cover!(inside && sp.len > 0);
}
#[kani::proof]
#[kani::unwind(5)]
fn bytes_vec_by_span() {
    let v = [1u8, 2, 3].to_vec();
    kani::cover!(true, "BOUND: a vector of 3 bytes");
    let sp = Span::new(kani::any(), kani::any());
    let inside = sp.beg <= 3 && sp.len <= 3 - sp.beg;
    for r in [v.get_by_span(&sp), (&v).get_by_span(&sp)] {
        match r {
            Some(r) => assert!(inside && same(r, &v, sp.beg, sp.beg + sp.len), "not the bytes of the span"),
            None => assert!(!inside, "span inside the input refused"),
        }
    }
}
#[kani::proof]
fn chars_by_span() {
    let s = any_text();
    let b = s.as_bytes();
    let sp = Span::new(kani::any(), kani::any());
    let c = CharsCtx::new(s).with_offset(kani::any());
    let inside = sp.beg <= b.len() && sp.len <= b.len() - sp.beg && edge(b, sp.beg) && edge(b, sp.beg + sp.len);
    macro_rules! chk {
        ($e:expr) => {
            match $e {
                Some(r) => assert!(inside && same(r.as_bytes(), b, sp.beg, sp.beg + sp.len), "not the text of the span"),
                None => assert!(!inside, "span inside the input refused"),
            }
        };
    }
    chk!(s.get_by_span(&sp));
    chk!((&s).get_by_span(&sp));
    chk!(c.get_by_span(&sp));
    chk!(sp.orig(&c).ok());
    kani::cover!(inside && sp.len > 0);
}
/// the default `orig_at` of a context, for any length
#[kani::proof]
fn default_orig_at() {
    let c = AC::any();
    let off: usize = kani::any();
    let r = c.orig_at(off);
    if off <= c.len {
        assert!(r == Ok(Span::new(off, c.len - off)), "not the remaining input");
    } else {
        assert!(r.is_err(), "out of range request answered");
    }
    assert!(c.orig() == Ok(Span::new(c.off, c.len - c.off)), "not the remaining input");
}
