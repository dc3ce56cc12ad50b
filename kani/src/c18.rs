//! C18: scanning.
use crate::abs::*;
use neure::ctor::Handler;
use neure::ctx::{Context, Match, MatchMulti};
use neure::err::Error;
use neure::prelude::*;
use neure::span::Span;

#[cfg(not(feature = "thorough"))]
const REM: usize = 3;
#[cfg(feature = "thorough")]
const REM: usize = 5;

/// for the most expensive contract
const REM2: usize = REM - 1;

/// leftmost non-empty match at or after `p`
fn next(o: &Orc, p: usize, len: usize) -> Option<Span> {
    let mut p = p;
    while p < len {
        match o.f(p, len) {
            Some(n) if n > 0 => return Some(Span::new(p, n)),
            _ => p += 1,
        }
    }
    None
}

#[kani::proof]
#[kani::unwind(7)]
fn find_first() {
    let c0 = AC::any_rem(REM);
    let o = Orc::dense(1, &c0, REM, 0);
    let mut c = c0;
    let r: Option<Span> = c.find(R(&o));
    let exp = next(&o, c0.off, c0.len);
    assert!(r == exp, "not the leftmost non-empty match");
    assert!(c.off == exp.map_or(c0.len, |s| s.beg + s.len), "wrong position after the search");
}

#[kani::proof]
#[kani::unwind(7)]
fn find_again() {
    // the search continues after the previous match
    let c0 = AC::any_rem(REM);
    let o = Orc::dense(1, &c0, REM, 0);
    let mut c = c0;
    let mut p = c0.off;
    let mut i = 0;
    while i < REM + 1 {
        let r: Option<Span> = c.find(R(&o));
        let exp = next(&o, p, c0.len);
        assert!(r == exp, "not the leftmost non-empty match after the previous one");
        p = exp.map_or(c0.len, |s| s.beg + s.len);
        i += 1;
    }
    assert!(p == c0.len);
}

#[kani::proof]
#[kani::unwind(7)]
fn find_every() {
    let c0 = AC::any_rem(REM);
    let o = Orc::dense(1, &c0, REM, 0);
    let mut c = c0;
    let mut p = c0.off;
    {
        let mut it = c.find_all::<Span>(R(&o));
        let mut i = 0;
        while i < REM + 2 {
            let exp = next(&o, p, c0.len);
            assert!(it.next() == exp, "not every match, in order, without overlap");
            p = exp.map_or(c0.len, |s| s.beg + s.len);
            i += 1;
        }
    }
    assert!(c.off == c0.len, "the search stopped before the end");
}

#[kani::proof]
#[kani::unwind(7)]
fn contiguous() {
    let c0 = AC::any_rem(REM);
    let o = Orc::dense(1, &c0, REM, 0);
    let mut c = c0;
    let mut p = c0.off;
    {
        let mut it = c.match_seq::<Span>(R(&o));
        let mut i = 0;
        while i < REM + 2 {
            let exp = if p < c0.len { o.f(p, c0.len).filter(|n| *n > 0).map(|n| Span::new(p, n)) } else { None };
            assert!(it.next() == exp, "not the contiguous matches");
            p = exp.map_or(c0.len, |s| s.beg + s.len);
            i += 1;
        }
    }
}

/// handler that refuses the matches beginning at chosen positions
struct Some4<'a>(&'a [bool; 6], usize);
impl Handler<AC> for Some4<'_> {
    type Out = u8;
    type Error = Error;
    fn invoke(&mut self, c: &AC, s: &Span) -> Result<u8, Error> {
        assert!(c.off == s.beg + s.len, "value requested for another range than the one just matched");
        let i = s.beg - self.1;
        if self.0[i] { Ok((i as u8) << 4 | s.len as u8) } else { Err(Error::Uid(2)) }
    }
}
fn keep(c: &mut AC, r: Result<Span, Error>) -> Option<Span> {
    match r {
        Ok(s) if !s.is_empty() => Some(s),
        _ => {
            c.inc(1);
            None
        }
    }
}
/// leftmost non-empty match whose value is not refused
fn next_kept(o: &Orc, p: usize, c0: &AC, t: &[bool; 6]) -> Option<Span> {
    let mut p = p;
    while let Some(s) = next(o, p, c0.len) {
        if t[s.beg - c0.off] {
            return Some(s);
        }
        p = s.beg + s.len;
    }
    None
}

#[kani::proof]
#[kani::unwind(7)]
fn find_with_values() {
    let c0 = AC::any_rem(REM);
    let o = Orc::dense(1, &c0, REM, 0);
    let t: [bool; 6] = kani::any();
    let mut c = c0;
    let r = c.find_with(R(&o), keep, Some4(&t, c0.off));
    let exp = next_kept(&o, c0.off, &c0, &t);
    assert!(r == exp.map(|s| ((s.beg - c0.off) as u8) << 4 | s.len as u8), "not the leftmost accepted match");
    assert!(c.off == exp.map_or(c0.len, |s| s.beg + s.len), "wrong position after the search");
}

#[kani::proof]
#[kani::unwind(7)]
fn find_all_with_values() {
    let c0 = AC::any_rem(REM2);
    let o = Orc::dense(1, &c0, REM2, 0);
    let t: [bool; 6] = kani::any();
    let mut c = c0;
    let mut p = c0.off;
    let mut it = c.find_all_with(R(&o), keep, Some4(&t, c0.off));
    let mut i = 0;
    while i < REM2 + 1 {
        let exp = next_kept(&o, p, &c0, &t);
        assert!(it.next() == exp.map(|s| ((s.beg - c0.off) as u8) << 4 | s.len as u8), "not every accepted match in order");
        p = exp.map_or(c0.len, |s| s.beg + s.len);
        i += 1;
    }
}

/// text: positions inside a character are passed over, never matched
#[kani::proof]
#[kani::unwind(8)]
fn in_text() {
    kani::cover!(true, "BOUND: two texts of two characters");
    let (t, at, c) = if kani::any() { ("a\u{4e2d}", 1, '\u{4e2d}') } else { ("\u{e9}a", 2, 'a') };
    let r: Option<Span> = CharsCtx::new(t).find(neure::regex::once(c));
    assert!(r == Some(Span::new(at, c.len_utf8())), "character not found at its place");
}
#[kani::proof]
#[kani::unwind(8)]
fn not_in_text() {
    kani::cover!(true, "BOUND: one text of two characters");
    let r: Option<Span> = CharsCtx::new("a\u{4e2d}").find(neure::regex::once('x'));
    assert!(r.is_none(), "found what is not there");
}
