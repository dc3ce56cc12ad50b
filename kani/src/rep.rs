//! Specification of greedy repetition, and checkers for its results (used by C09, C10).
use crate::abs::*;
use crate::combos::*;
use neure::prelude::*;

/// the greedy run of `a` from the position of `c`, at most `max` matches
pub struct Run {
    pub n: usize,
    pub end: usize,
    pub v: [Option<V>; 8],
}
pub fn run(a: R, c: AC, max: Option<usize>) -> Run {
    let mut r = Run { n: 0, end: c.off, v: [None; 8] };
    while max.is_none() || r.n < max.unwrap() {
        match a.0.end(r.end, c.len) {
            Some(e) => {
                r.v[r.n] = Some(a.0.val(r.end, c.len));
                r.end = e;
                r.n += 1;
            }
            None => break,
        }
    }
    r
}

pub fn chk_parse<P: Regex<AC>>(p: &P, c0: AC, ok: bool, end: usize) {
    let mut c = c0;
    let r = c.try_mat(p);
    assert!(r.is_ok() == ok, "succeeds iff the number of matches is in the range");
    if let Ok(s) = r {
        assert!(s.beg == c0.off && s.len == end - c0.off, "span is not exactly the matches");
        assert!(c.off == end, "position is not the end of the last match");
    } else {
        assert!(c.off == c0.off, "failure moved the position");
    }
}
pub fn chk_vec<P: neure::ctor::Ctor<AC, Vec<u8>, Hd>>(p: &P, a: R, c0: AC, ok: bool, run: &Run) {
    let mut c = c0;
    let r = c.ctor_handler(p, Hd { fail: false });
    assert!(r.is_ok() == ok, "succeeds iff the number of matches is in the range");
    if let Ok(v) = r {
        assert!(v.len() == run.n, "not one value per match");
        let mut i = 0;
        while i < v.len() {
            assert!(run.v[i].is_some(), "not one value per match");
            assert!(v[i] == a.0.byte(run.v[i].unwrap().beg, c0.len), "values are not the matches in order");
            i += 1;
        }
        assert!(c.off == run.end, "position is not the end of the last match");
    } else {
        assert!(c.off == c0.off, "failure moved the position");
    }
}
pub fn chk_arr<const N: usize, P: neure::ctor::Ctor<AC, [Option<V>; N], Hd>>(p: &P, c0: AC, ok: bool, run: &Run) {
    let mut c = c0;
    let r = c.ctor_handler(p, Hd { fail: false });
    assert!(r.is_ok() == ok, "succeeds iff the number of matches is in the range");
    if let Ok(v) = r {
        let mut i = 0;
        while i < N {
            assert!(v[i] == run.v[i], "slots are not the matches in order, the rest empty");
            i += 1;
        }
        assert!(c.off == run.end, "position is not the end of the last match");
    } else {
        assert!(c.off == c0.off, "failure moved the position");
    }
}
pub fn chk_col<P: neure::ctor::Ctor<AC, Col, Hd>>(p: &P, c0: AC, ok: bool, run: &Run) {
    let mut c = c0;
    let r = c.ctor_handler(p, Hd { fail: false });
    assert!(r.is_ok() == ok, "succeeds iff the number of matches is in the range");
    if let Ok(v) = r {
        assert!(v.n == run.n, "not one value per match");
        let mut i = 0;
        while i < 4 {
            assert!(v.v[i] == run.v[i], "values are not the matches in order");
            i += 1;
        }
        assert!(c.off == run.end, "position is not the end of the last match");
    } else {
        assert!(c.off == c0.off, "failure moved the position");
    }
}

/// A pattern for long runs: one unit at every position below `stop`, nothing from there on.
#[derive(Clone, Copy)]
pub struct Few {
    pub stop: usize,
}
/// number of matches the long runs go up to
pub const LONG: usize = 20;
impl Few {
    pub fn any(c: &AC) -> Self {
        Self::upto(c, LONG)
    }
    pub fn upto(c: &AC, max: usize) -> Self {
        let n = (kani::any::<u8>() & 63) as usize;
        kani::assume(n <= max);
        kani::cover!(true, "BOUND: runs of at most 20 one-unit matches (lists: 18 elements)");
        Few { stop: c.off + n }
    }
}
impl<'a, C: Context<'a>> Regex<C> for Few {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, neure::err::Error> {
        let off = ctx.offset();
        if off < self.stop {
            ctx.set_offset(off + 1);
            Ok(Span::new(off, 1))
        } else {
            Err(neure::err::Error::Uid(1))
        }
    }
}
impl<'a, C: Context<'a>, H> neure::ctor::Ctor<C, u8, H> for Few {
    fn construct(&self, ctx: &mut C, _: &mut H) -> Result<u8, neure::err::Error> {
        Ok(self.try_parse(ctx)?.beg as u8)
    }
}
/// the values of a long run from position 0: `at(i)` for the i-th
pub fn chk_long<T: AsRef<[u8]>>(r: Result<T, neure::err::Error>, c: AC, n: usize, ok: bool, end: usize, at: impl Fn(usize) -> u8) {
    assert!(r.is_ok() == ok, "succeeds iff the number of matches is in the range");
    if let Ok(v) = r {
        let v = v.as_ref();
        assert!(v.len() == n, "not one value per match");
        let i: usize = kani::any();
        kani::assume(i < n);
        assert!(v[i] == at(i), "values are not the matches in order");
        assert!(c.off == end, "position is not the end of the last match");
    } else {
        assert!(c.off == 0, "failure moved the position");
    }
}
/// the same for fixed slots
pub fn chk_long_arr<const N: usize>(r: Result<[Option<u8>; N], neure::err::Error>, c: AC, n: usize, ok: bool, end: usize, at: impl Fn(usize) -> u8) {
    assert!(r.is_ok() == ok, "succeeds iff the number of matches is in the range");
    if let Ok(v) = r {
        let i: usize = kani::any();
        kani::assume(i < N);
        assert!(v[i] == if i < n { Some(at(i)) } else { None }, "slots are not the matches in order, the rest empty");
        assert!(c.off == end, "position is not the end of the last match");
    } else {
        assert!(c.off == 0, "failure moved the position");
    }
}
/// the values of a run with nothing symbolic, each of them
pub fn chk_each<T: AsRef<[u8]>>(r: Result<T, neure::err::Error>, c: AC, n: usize, ok: bool, end: usize, at: impl Fn(usize) -> u8) {
    assert!(r.is_ok() == ok, "succeeds iff the number of matches is in the range");
    if let Ok(v) = r {
        let v = v.as_ref();
        assert!(v.len() == n, "not one value per match");
        let mut i = 0;
        while i < n {
            assert!(v[i] == at(i), "values are not the matches in order");
            i += 1;
        }
        assert!(c.off == end, "position is not the end of the last match");
    } else {
        assert!(c.off == 0, "failure moved the position");
    }
}
pub fn chk_each_arr<const N: usize>(r: Result<[Option<u8>; N], neure::err::Error>, c: AC, n: usize, ok: bool, end: usize, at: impl Fn(usize) -> u8) {
    assert!(r.is_ok() == ok, "succeeds iff the number of matches is in the range");
    if let Ok(v) = r {
        let mut i = 0;
        while i < N {
            assert!(v[i] == if i < n { Some(at(i)) } else { None }, "slots are not the matches in order, the rest empty");
            i += 1;
        }
        assert!(c.off == end, "position is not the end of the last match");
    } else {
        assert!(c.off == 0, "failure moved the position");
    }
}
