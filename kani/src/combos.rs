//! The list of all combinators, shared by the properties that quantify over "every provided
//! combinator" (C01, C02, C12, C19).
//!
//! `combos! { m }` calls `m! { name, unwind, rem, min, |a, b, c, k| pattern }` for each.
//! * `a`, `b`, `c` are abstract patterns, `k` the symbolic configuration [`K`];
//! * `rem`: `full` = any input (loop-free code, complete proof) or the maximum number of
//!   remaining units (bounded: the code loops over the input);
//! * `min`: least number of units one success of an abstract pattern consumes.
use crate::abs::*;
use neure::ctor::Handler;
use neure::err::Error;
use neure::prelude::*;

/// symbolic configuration used by some combinators
#[derive(Clone, Copy)]
pub struct K {
    /// outcome of a user test closure
    pub t: Result<bool, Error>,
    /// does the user conversion / builder closure succeed
    pub m: bool,
    /// bounds of repetitions
    pub lo: usize,
    pub hi: usize,
    pub skip: bool,
}

impl K {
    pub fn any() -> Self {
        let tb: bool = kani::any();
        let te: bool = kani::any();
        let lo: usize = kani::any();
        let hi: usize = kani::any();
        kani::assume(lo <= 4 && hi <= 4);
        K {
            t: if te { Err(Error::Uid(77)) } else { Ok(tb) },
            m: kani::any(),
            lo,
            hi,
            skip: kani::any(),
        }
    }
    pub fn conv(&self, v: V) -> Result<V, Error> {
        if self.m { Ok(v) } else { Err(Error::Uid(78)) }
    }
}

/// handler that succeeds or fails as chosen, and returns the span it was given
#[derive(Clone, Copy)]
pub struct Hd {
    pub fail: bool,
}
impl<C> Handler<C> for Hd {
    type Out = Span;
    type Error = Error;
    fn invoke(&mut self, _: &C, span: &Span) -> Result<Span, Error> {
        if self.fail { Err(Error::Uid(79)) } else { Ok(*span) }
    }
}

/// small FromIterator collection keeping the first four values and the count
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Col {
    pub n: usize,
    pub v: [Option<V>; 4],
}
impl FromIterator<V> for Col {
    fn from_iter<I: IntoIterator<Item = V>>(it: I) -> Self {
        let mut c = Col { n: 0, v: [None; 4] };
        for v in it {
            if c.n < 4 {
                c.v[c.n] = Some(v);
            }
            c.n += 1;
        }
        c
    }
}
impl Col {
    pub fn new() -> Self {
        Col { n: 0, v: [None; 4] }
    }
    pub fn push(&mut self, v: V) {
        if self.n < 4 {
            self.v[self.n] = Some(v);
        }
        self.n += 1;
    }
    pub fn is_slice(&self, s: &[V]) -> bool {
        self.n == s.len()
            && (s.len() < 1 || self.v[0] == Some(s[0]))
            && (s.len() < 2 || self.v[1] == Some(s[1]))
            && (s.len() < 3 || self.v[2] == Some(s[2]))
            && (s.len() < 4 || self.v[3] == Some(s[3]))
    }
}

#[macro_export]
macro_rules! ctx_for {
    (full) => { AC::any() };
    ($rem:literal) => { AC::any_rem($rem) };
}
#[macro_export]
macro_rules! orc_for {
    (full, $id:literal, $c:ident, $min:literal) => { Orc::new($id, 6, $min) };
    ($rem:literal, $id:literal, $c:ident, $min:literal) => { Orc::dense($id, &$c, $rem, $min) };
}

/// combinators with a matching form and a constructing form
#[macro_export]
macro_rules! combos_both {
    ($m:ident) => {
        $m! { then_, 3, full, 0, |a, b, c, k| a.then(b) }
        $m! { prefix_, 3, full, 0, |a, b, c, k| a.prefix(b) }
        $m! { suffix_, 3, full, 0, |a, b, c, k| a.suffix(b) }
        $m! { enclose_, 3, full, 0, |a, b, c, k| a.enclose(b, c) }
        $m! { sep_once_, 3, full, 0, |a, b, c, k| a.sep_once(b, c) }
        $m! { if_then_, 3, full, 0, |a, b, c, k| a.if_then(b, c) }
        $m! { or_, 3, full, 0, |a, b, c, k| a.or(b) }
        $m! { opt_, 3, full, 0, |a, b, c, k| a.opt() }
        $m! { if_else_, 3, full, 0, |a, b, c, k| a.if_else(move |_: &_| k.t, b) }
        $m! { longest_, 3, full, 0, |a, b, c, k| a.longest(b) }
        $m! { map_, 3, full, 0, |a, b, c, k| a.try_map::<_, V>(move |v: V| k.conv(v)) }
        $m! { pat_, 3, full, 0, |a, b, c, k| a.pat() }
        $m! { not_, 3, full, 0, |a, b, c, k| neure::regex::not(a) }
        $m! { peek_, 3, full, 0, |a, b, c, k| neure::regex::peek(a) }
        $m! { array_, 5, full, 0, |a, b, c, k| neure::regex::array(alts([a, b, c])) }
        $m! { array_ltm_, 5, full, 0, |a, b, c, k| neure::regex::array_ltm(alts([a, b, c])) }
        $m! { slice_, 5, full, 0, |a, b, c, k| neure::regex::slice(alts(&[a, b, c])) }
        $m! { slice_ltm_, 5, full, 0, |a, b, c, k| neure::regex::slice_ltm(alts(&[a, b, c])) }
        $m! { vector_, 5, full, 0, |a, b, c, k| neure::regex::vector(alts([a, b, c])) }
        $m! { vector_ltm_, 5, full, 0, |a, b, c, k| neure::regex::vector_ltm(alts([a, b, c])) }
        $m! { pair_array_, 5, full, 0, |a, b, c, k| neure::regex::pair_array(alts([(a, 1u8), (b, 2), (c, 3)])) }
        $m! { pair_array_ltm_, 5, full, 0, |a, b, c, k| neure::regex::pair_array_ltm(alts([(a, 1u8), (b, 2), (c, 3)])) }
        $m! { pair_slice_, 5, full, 0, |a, b, c, k| neure::regex::pair_slice(alts(&[(a, 1u8), (b, 2), (c, 3)])) }
        $m! { pair_slice_ltm_, 5, full, 0, |a, b, c, k| neure::regex::pair_slice_ltm(alts(&[(a, 1u8), (b, 2), (c, 3)])) }
        $m! { pair_vector_, 5, full, 0, |a, b, c, k| neure::regex::pair_vector(alts([(a, 1u8), (b, 2), (c, 3)])) }
        $m! { pair_vector_ltm_, 5, full, 0, |a, b, c, k| neure::regex::pair_vector_ltm(alts([(a, 1u8), (b, 2), (c, 3)])) }
        $m! { repeat_, 6, 3, 1, |a, b, c, k| a.repeat(k.lo..=k.hi) }
        $m! { repeat_from_, 6, 3, 1, |a, b, c, k| a.repeat(k.lo..) }
        $m! { repeat2_, 6, 3, 0, |a, b, c, k| a.repeat2::<1, 3>() }
        $m! { repeat2_exact_, 6, 3, 0, |a, b, c, k| a.repeat2::<2, 2>() }
        $m! { collect_, 6, 3, 1, |a, b, c, k| a.collect::<V, Col>().at_least(k.lo) }
        $m! { sep_, 6, 3, 1, |a, b, c, k| a.sep(b).at_least(k.lo).with_skip(k.skip) }
        $m! { sep2_, 6, 3, 0, |a, b, c, k| a.sep2::<_, 1, 3>(b).with_skip(k.skip) }
        $m! { sep2_exact_, 6, 3, 0, |a, b, c, k| a.sep2::<_, 2, 2>(b).with_skip(k.skip) }
        $m! { sep_collect_, 6, 3, 1, |a, b, c, k| a.sep_collect::<_, V, Col>(b).at_least(k.lo).with_skip(k.skip) }
    };
}

pub fn parse<'a, C: Match<'a>, P: Regex<C>>(p: &P, c: &mut C) -> Result<Span, Error> {
    c.try_mat(p)
}
pub fn build<'a, C: Match<'a>, P: neure::ctor::Ctor<C, O, Hd>, O>(
    p: &P,
    c: &mut C,
    fail: bool,
) -> Result<O, Error> {
    c.ctor_handler(p, Hd { fail })
}
