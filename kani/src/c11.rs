//! C11 primitive patterns match exactly what they denote.
use crate::abs::*;
use crate::spec::*;
use neure::prelude::*;
use neure::regex as rx;
use neure::regex::LiteralTy;

// ------------------------------------------- any input (complete proofs)
#[kani::proof]
fn start() {
    let c = AC::any();
    let exp = if c.off == 0 { Some(0) } else { None };
    kani::cover!(exp.is_some() && c.len > 0);
    check_parse(&rx::start(), c, exp);
}
#[kani::proof]
fn end() {
    let c = AC::any();
    let exp = if c.off == c.len { Some(c.off) } else { None };
    kani::cover!(exp.is_some() && c.len > 0);
    check_parse(&rx::end(), c, exp);
}
#[kani::proof]
fn consume() {
    let c = AC::any();
    let n: usize = kani::any();
    let exp = if n <= c.len - c.off { Some(c.off + n) } else { None };
    kani::cover!(n > 0 && exp == Some(c.len));
    kani::cover!(n > c.len);
    check_parse(&rx::consume(n), c, exp);
}
#[kani::proof]
fn consume_all() {
    let c = AC::any();
    check_parse(&rx::consume_all(), c, Some(c.len));
}
#[kani::proof]
fn empty() {
    let c = AC::any();
    check_parse(&rx::empty(), c, Some(c.off));
    check_parse(&(), c, Some(c.off));
}
#[kani::proof]
fn fail() {
    let c = AC::any();
    check_parse(&rx::fail(), c, None);
}
/// a position past the end: nothing is consumed, nothing overflows
#[kani::proof]
fn outside() {
    let mut c = AC::any();
    let off: usize = kani::any();
    kani::assume(off > c.len);
    c.off = off;
    check_parse(&rx::end(), c, None);
    check_parse(&rx::consume(kani::any()), c, None);
    check_parse(&rx::consume_all(), c, Some(off));
    check_parse(&rx::start(), c, None);
    let l = L { len: kani::any(), yes: kani::any(), seen: &c };
    check_parse(&rx::literal(&l), c, None);
}
#[kani::proof]
fn ctor_forms() {
    let c = AC::any();
    let n: usize = kani::any();
    let exp = if n <= c.len - c.off { Some((Span::new(c.off, n), c.off + n)) } else { None };
    check_ctor::<_, Span>(&rx::consume(n), c, exp);
    check_ctor::<_, Span>(&rx::consume_all(), c, Some((Span::new(c.off, c.len - c.off), c.len)));
    check_ctor::<_, Span>(&rx::empty(), c, Some((Span::new(c.off, 0), c.off)));
    check_ctor::<_, Span>(&rx::fail(), c, None);
    check_ctor::<_, Span>(&rx::start(), c, if c.off == 0 { Some((Span::new(0, 0), 0)) } else { None });
    check_ctor::<_, Span>(&rx::end(), c, if c.off == c.len { Some((Span::new(c.off, 0), c.off)) } else { None });
}

/// an abstract literal: known only through `length` and `prefix_of`
struct L<'c> {
    len: usize,
    yes: bool,
    seen: &'c AC,
}
impl<'c> LiteralTy for L<'c> {
    type Orig<'a> = Span;
    fn length(&self) -> usize {
        self.len
    }
    fn prefix_of<'a>(&self, other: &Span) -> bool {
        assert!(other.beg == self.seen.off && other.len == self.seen.len - self.seen.off, "literal compared with something else than the remaining input");
        // what is longer than the input cannot be a prefix of it
        self.yes && self.len <= other.len
    }
}
#[kani::proof]
fn literal_any() {
    let c = AC::any();
    let l = L { len: kani::any(), yes: kani::any(), seen: &c };
    let exp = if l.yes && l.len <= c.len - c.off { Some(c.off + l.len) } else { None };
    kani::cover!(exp == Some(c.len));
    kani::cover!(l.len > c.len);
    check_parse(&rx::literal(&l), c, exp);
    check_ctor::<_, Span>(&rx::literal(&l), c, exp.map(|e| (Span::new(c.off, e - c.off), e)));
}

// --------------------------------------------------------- real literals
const N: usize = 4;
/// input bytes, position, literal bytes
fn bytes(buf: &[u8; N], lit: &[u8; 3]) -> (usize, usize, usize, bool) {
    let (n, off, m): (usize, usize, usize) = (kani::any(), kani::any(), kani::any());
    kani::assume(n <= N && off <= n && m <= 3);
    kani::cover!(true, "BOUND: inputs of at most 4 bytes, literals of at most 3");
    let fits = m <= n - off
        && (m < 1 || buf[off] == lit[0])
        && (m < 2 || buf[off + 1] == lit[1])
        && (m < 3 || buf[off + 2] == lit[2]);
    kani::cover!(fits && m == 2 && off > 0);
    kani::cover!(!fits && off + m > n);
    (n, off, m, fits)
}
fn check_bytes<'a, P: Regex<BytesCtx<'a>>>(p: &P, dat: &'a [u8], off: usize, m: usize, fits: bool) {
    let mut c = BytesCtx::new(dat).with_offset(off);
    let r = c.try_mat(p);
    assert!(r.is_ok() == fits, "literal matches iff the input starts with it");
    if let Ok(s) = r {
        assert!(s == Span::new(off, m) && c.offset() == off + m, "exactly the literal is consumed");
    } else {
        assert!(c.offset() == off, "failure moved the position");
    }
}
macro_rules! blit {
    ($($name:ident |$l:ident| $e:expr;)*) => { $(
        #[kani::proof]
        #[kani::unwind(6)]
        fn $name() {
            let (buf, lit): ([u8; N], [u8; 3]) = (kani::any(), kani::any());
            let (n, off, m, fits) = bytes(&buf, &lit);
            let $l = &lit[..m];
            check_bytes(&$e, &buf[..n], off, m, fits);
        }
    )* };
}
blit! {
    bytes_literal |l| rx::literal(l);
    bytes_slice |l| l;
    bytes_vec |l| l.to_vec();
    bytes_vec_ref |l| &l.to_vec();
}
#[kani::proof]
#[kani::unwind(6)]
fn bytes_array() {
    let (buf, lit): ([u8; N], [u8; 3]) = (kani::any(), kani::any());
    let (n, off, m, fits) = bytes(&buf, &lit);
    kani::assume(m == 2);
    let l = [lit[0], lit[1]];
    check_bytes(&l, &buf[..n], off, 2, fits);
    check_bytes(&&l, &buf[..n], off, 2, fits);
    check_bytes(&rx::literal(&l), &buf[..n], off, 2, fits);
}
/// text literals: the text is two arbitrary characters, the literal one or two
fn text(buf: &mut [u8; 8], l: &mut [u8; 8]) -> (usize, usize, usize, bool) {
    let (a, b, x, y): (char, char, char, char) = (kani::any(), kani::any(), kani::any(), kani::any());
    kani::cover!(true, "BOUND: texts and literals of two characters (any characters)");
    let w = a.encode_utf8(&mut buf[..4]).len();
    let n = w + b.encode_utf8(&mut buf[w..w + 4]).len();
    let k = x.encode_utf8(&mut l[..4]).len();
    let two: bool = kani::any();
    let m = if two { k + y.encode_utf8(&mut l[k..k + 4]).len() } else { k };
    let at: bool = kani::any();
    let off = if at { w } else { 0 };
    let fits = if at { x == b && !two } else { x == a && (!two || y == b) };
    kani::cover!(fits && two);
    kani::cover!(fits && at);
    (n, off, m, fits)
}
fn check_chars<'a, P: Regex<CharsCtx<'a>>>(p: &P, dat: &'a str, off: usize, m: usize, fits: bool) {
    let mut c = CharsCtx::new(dat).with_offset(off);
    let r = c.try_mat(p);
    assert!(r.is_ok() == fits, "literal matches iff the input starts with it");
    if let Ok(s) = r {
        assert!(s == Span::new(off, m) && c.offset() == off + m, "exactly the literal is consumed");
    } else {
        assert!(c.offset() == off, "failure moved the position");
    }
}
macro_rules! tlit {
    ($($name:ident |$l:ident| $e:expr;)*) => { $(
        #[kani::proof]
        #[kani::unwind(10)]
        fn $name() {
            let (mut buf, mut lit) = ([0u8; 8], [0u8; 8]);
            let (n, off, m, fits) = text(&mut buf, &mut lit);
            let (s, $l) = unsafe { (core::str::from_utf8_unchecked(&buf[..n]), core::str::from_utf8_unchecked(&lit[..m])) };
            check_chars(&$e, s, off, m, fits);
        }
    )* };
}
tlit! {
    str_literal |l| rx::literal(l);
    str_ref |l| l;
    str_string |l| String::from(l);
    str_string_ref |l| &String::from(l);
    str_string_literal |l| rx::literal(&String::from(l));
}

// ------------------------------ the comparison itself, for longer literals
const W: usize = 18;
fn starts(d: &[u8], l: &[u8]) -> bool {
    if l.len() > d.len() {
        return false;
    }
    let mut ok = true;
    let mut i = 0;
    while i < W {
        ok &= i >= l.len() || d[i] == l[i];
        i += 1;
    }
    ok
}
macro_rules! long {
    ($($name:ident |$d:ident, $l:ident| $e:expr;)*) => { $(
        #[kani::proof]
        #[kani::unwind(20)]
        fn $name() {
            let ($d, $l): ([u8; W], [u8; W]) = (kani::any(), kani::any());
            kani::cover!(true, "BOUND: literals and remaining inputs of at most 18 bytes (text: ASCII)");
            $e
        }
    )* };
}
fn ascii<'a>(b: &'a [u8; W], n: usize) -> &'a str {
    let mut i = 0;
    while i < W {
        kani::assume(b[i] < 128);
        i += 1;
    }
    unsafe { core::str::from_utf8_unchecked(&b[..n]) }
}
long! {
    long_bytes |d, l| {
        let (n, m): (usize, usize) = (kani::any(), kani::any());
        kani::assume(n <= W && m <= W);
        kani::cover!(m == 17 && starts(&d[..n], &l[..m]));
        kani::cover!(m == 17 && n == 18 && !starts(&d[..n], &l[..m]));
        assert!(l[..m].length() == m);
        assert!(l[..m].prefix_of(&&d[..n]) == starts(&d[..n], &l[..m]), "a literal matches iff the input starts with it");
    };
    long_array |d, l| {
        let n: usize = kani::any();
        kani::assume(n <= W);
        let a: [u8; 17] = [l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7], l[8], l[9], l[10], l[11], l[12], l[13], l[14], l[15], l[16]];
        kani::cover!(starts(&d[..n], &a));
        assert!(a.length() == 17);
        assert!(a.prefix_of(&&d[..n]) == starts(&d[..n], &a), "a literal matches iff the input starts with it");
    };
    long_str |d, l| {
        let (n, m): (usize, usize) = (kani::any(), kani::any());
        kani::assume(n <= W && m <= W);
        let (s, t) = (ascii(&d, n), ascii(&l, m));
        kani::cover!(m == 17 && starts(&d[..n], &l[..m]));
        assert!(t.length() == m);
        assert!(t.prefix_of(&s) == starts(&d[..n], &l[..m]), "a literal matches iff the input starts with it");
    };
    long_string |d, l| {
        let n: usize = kani::any();
        kani::assume(n <= W);
        let m = 17;
        let (s, t) = (ascii(&d, n), String::from(ascii(&l, m)));
        kani::cover!(starts(&d[..n], &l[..m]));
        assert!(t.length() == m);
        assert!(t.prefix_of(&s) == starts(&d[..n], &l[..m]), "a literal matches iff the input starts with it");
    };
}
