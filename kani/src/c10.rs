//! C10 separated lists accept exactly element-separator alternations.
use crate::abs::*;
use crate::combos::*;
use neure::prelude::*;

use crate::rep::*;

#[cfg(not(feature = "thorough"))]
const REM: usize = 3;
#[cfg(feature = "thorough")]
const REM: usize = 5;

/// the accepted list: elements `a`, separators `s`
fn list(a: R, s: R, c: AC, max: Option<usize>, skip: bool) -> Run {
    let mut r = Run { n: 0, end: c.off, v: [None; 8] };
    while max.is_none() || r.n < max.unwrap() {
        let Some(e) = a.0.end(r.end, c.len) else { break };
        match s.0.end(e, c.len) {
            Some(q) => {
                r.v[r.n] = Some(a.0.val(r.end, c.len));
                r.n += 1;
                r.end = q;
            }
            None => {
                if skip {
                    // trailing separators optional: the last element needs none
                    r.v[r.n] = Some(a.0.val(r.end, c.len));
                    r.n += 1;
                    r.end = e;
                }
                break;
            }
        }
    }
    r
}
macro_rules! env {
    ($a:ident $s:ident $c:ident, rem) => {
        let $c = AC::any_rem(REM);
        // an element consumes something, a separator may be empty
        let (oa, os) = (Orc::dense(1, &$c, REM, 1), Orc::dense(2, &$c, REM, 0));
        let ($a, $s) = (R(&oa), R(&os));
    };
    ($a:ident $s:ident $c:ident, full) => {
        let $c = AC::any_rem(REM);
        let (oa, os) = (Orc::dense(1, &$c, REM, 0), Orc::dense(2, &$c, REM, 0));
        let ($a, $s) = (R(&oa), R(&os));
    };
}
macro_rules! covers {
    ($r:ident, $min:expr, $skip:ident) => {
        kani::cover!($r.n >= $min && $r.n >= 1 && $skip);
        kani::cover!($r.n >= $min && $r.n >= 1 && !$skip);
    };
}

#[kani::proof]
#[kani::unwind(5)]
fn sep_parse() {
    env!(a s c, rem);
    let (min, skip): (usize, bool) = (kani::any(), kani::any());
    let r = list(a, s, c, None, skip);
    covers!(r, min, skip);
    kani::cover!(r.n < min);
    chk_parse(&a.sep(s).at_least(min).with_skip(skip), c, r.n >= min, r.end);
}
// the list is preallocated for its minimum: one harness per minimum
macro_rules! sep_ctor {
    ($($name:ident $min:literal $skip:literal)*) => { $(
        #[kani::proof]
        #[kani::unwind(5)]
        fn $name() {
            env!(a s c, rem);
            let r = list(a, s, c, None, $skip);
            kani::cover!(r.n >= $min && r.n >= 1);
            chk_vec(&RB(a.0).sep(s).at_least($min).with_skip($skip).with_capacity(4), a, c, r.n >= $min, &r);
        }
    )* };
}
sep_ctor! { sep_ctor_0 0 true sep_ctor_1 1 true sep_ctor_2 2 true sep_ctor_3 3 true
    sep_ctor_0_trailing 0 false sep_ctor_1_trailing 1 false sep_ctor_2_trailing 2 false sep_ctor_3_trailing 3 false }
#[kani::proof]
#[kani::unwind(5)]
fn sep_collect_parse() {
    env!(a s c, rem);
    let (min, skip): (usize, bool) = (kani::any(), kani::any());
    let r = list(a, s, c, None, skip);
    covers!(r, min, skip);
    kani::cover!(r.n < min);
    chk_parse(&a.sep_collect::<_, V, Col>(s).at_least(min).with_skip(skip), c, r.n >= min, r.end);
}
#[kani::proof]
#[kani::unwind(5)]
fn sep_collect_ctor() {
    env!(a s c, rem);
    let (min, skip): (usize, bool) = (kani::any(), kani::any());
    let r = list(a, s, c, None, skip);
    covers!(r, min, skip);
    kani::cover!(r.n < min);
    chk_col(&a.sep_collect::<_, V, Col>(s).at_least(min).with_skip(skip), c, r.n >= min, &r);
}
macro_rules! fixed {
    ($name:ident, $m:literal, $n:literal) => {
        mod $name {
            use super::*;
            #[kani::proof]
            #[kani::unwind(5)]
            fn parse() {
                env!(a s c, full);
                let skip: bool = kani::any();
                let r = list(a, s, c, Some($n), skip);
                covers!(r, $m, skip);
                chk_parse(&a.sep2::<_, $m, $n>(s).with_skip(skip), c, r.n >= $m, r.end);
            }
            #[kani::proof]
            #[kani::unwind(5)]
            fn ctor() {
                env!(a s c, full);
                let skip: bool = kani::any();
                let r = list(a, s, c, Some($n), skip);
                covers!(r, $m, skip);
                chk_arr::<$n, _>(&a.sep2::<_, $m, $n>(s).with_skip(skip), c, r.n >= $m, &r);
            }
        }
    };
}
fixed!(sep2_0_1, 0, 1);
fixed!(sep2_1_2, 1, 2);
fixed!(sep2_2_2, 2, 2);
fixed!(sep2_0_3, 0, 3);
fixed!(sep2_1_3, 1, 3);

/// long lists of one-unit elements and separators: nothing changes beyond the first few
mod long {
    use super::*;
    const C: AC = AC { len: 50, off: 0 };
    /// elements accepted and position reached, elements from even and separators from odd positions below `stop`
    pub fn list(stop: usize, max: usize, skip: bool) -> (usize, usize) {
        let n = if skip { (stop + 1) / 2 } else { stop / 2 };
        if n > max { (max, 2 * max) } else { (n, if 2 * n > stop { stop } else { 2 * n }) }
    }
    #[kani::proof]
    #[kani::unwind(20)]
    fn optional() {
        let (mut c, a) = (C, Few::upto(&C, 36));
        let (n, end) = list(a.stop, 50, true);
        kani::cover!(n == 18);
        kani::cover!(n < 2);
        // the list is preallocated for its minimum; the form with required separators is out of the solver's reach here
        let r: Result<Vec<u8>, _> = c.ctor_handler(&a.sep(a).at_least(2).with_skip(true).with_capacity(18), Hd { fail: false });
        chk_long(r, c, n, n >= 2, end, |i| 2 * i as u8);
    }
    #[kani::proof]
    #[kani::unwind(20)]
    fn parse() {
        let (a, min, skip) = (Few::upto(&C, 36), kani::any(), kani::any());
        let (n, end) = list(a.stop, 50, skip);
        kani::cover!(n == 18 && n >= min);
        chk_parse(&a.sep(a).at_least(min).with_skip(skip), C, n >= min, end);
    }
    #[kani::proof]
    #[kani::unwind(20)]
    fn fixed() {
        let (mut c, a, skip) = (C, Few::upto(&C, 36), kani::any());
        let (n, end) = list(a.stop, 17, skip);
        kani::cover!(n == 17);
        kani::cover!(n < 9);
        let r: Result<[Option<u8>; 17], _> = c.ctor_handler(&a.sep2::<_, 2, 17>(a).with_skip(skip), Hd { fail: false });
        chk_long_arr(r, c, n, n >= 2, end, |i| 2 * i as u8);
    }
    #[kani::proof]
    #[kani::unwind(20)]
    fn collect() {
        let (mut c, a, skip, min) = (C, Few::upto(&C, 36), kani::any(), kani::any());
        let (n, end) = list(a.stop, 50, skip);
        kani::cover!(n == 18 && n >= min);
        let r: Result<Vec<u8>, _> = c.ctor_handler(&a.sep_collect::<_, u8, Vec<u8>>(a).at_least(min).with_skip(skip), Hd { fail: false });
        chk_long(r, c, n, n >= min, end, |i| 2 * i as u8);
    }
}

/// the same lists one by one, nothing symbolic: decided even where the code is too much for the solver
mod each {
    use super::*;
    use crate::rep::*;
    const C: AC = AC { len: 50, off: 0 };
    macro_rules! each {
        ($name:ident, $max:literal, |$c:ident, $a:ident, $skip:ident, $n:ident, $end:ident| $body:block) => {
            #[kani::proof]
            #[kani::unwind(20)]
            fn $name() {
                kani::cover!(true, "BOUND: lists of one-unit elements and separators, 0 to 3, 6, 17 and 34 units");
                for stop in [0usize, 1, 2, 3, 6, 17, 34] {
                    for $skip in [false, true] {
                        let ($c, $a) = (C, Few { stop });
                        let ($n, $end) = long::list(stop, $max, $skip);
                        $body
                    }
                }
            }
        };
    }
    each!(vec, 50, |c, a, skip, n, end| {
        let mut c = c;
        let r: Result<Vec<u8>, _> = c.ctor_handler(&a.sep(a).at_least(2).with_skip(skip), Hd { fail: false });
        chk_each(r, c, n, n >= 2, end, |i| 2 * i as u8);
    });
    each!(fixed, 17, |c, a, skip, n, end| {
        let mut c = c;
        let r: Result<[Option<u8>; 17], _> = c.ctor_handler(&a.sep2::<_, 2, 17>(a).with_skip(skip), Hd { fail: false });
        chk_each_arr(r, c, n, n >= 2, end, |i| 2 * i as u8);
    });
    each!(fixed_3, 3, |c, a, skip, n, end| {
        let mut c = c;
        let r: Result<[Option<u8>; 3], _> = c.ctor_handler(&a.sep2::<_, 1, 3>(a).with_skip(skip), Hd { fail: false });
        chk_each_arr(r, c, n, n >= 1, end, |i| 2 * i as u8);
    });
    each!(collect, 50, |c, a, skip, n, end| {
        let mut c = c;
        let r: Result<Vec<u8>, _> = c.ctor_handler(&a.sep_collect::<_, u8, Vec<u8>>(a).at_least(2).with_skip(skip), Hd { fail: false });
        chk_each(r, c, n, n >= 2, end, |i| 2 * i as u8);
    });
}

/// replacing the parts or the limits later: elements from 2, separators of two units
#[kani::proof]
#[kani::unwind(7)]
fn setters() {
    #[derive(Clone, Copy)]
    struct At(usize, usize, usize);
    // `.2` units at every position `.0 + 3 * i` up to `.1`
    impl Regex<AC> for At {
        fn try_parse(&self, ctx: &mut AC) -> Result<neure::span::Span, neure::err::Error> {
            let off = ctx.off;
            if off >= self.0 && off <= self.1 && (off - self.0) % 3 == 0 {
                ctx.off += self.2;
                Ok(neure::span::Span::new(off, self.2))
            } else {
                Err(neure::err::Error::Uid(1))
            }
        }
    }
    let c = AC { len: 20, off: 2 };
    // e,,e,,e,, : three elements, three separators
    let (e, s, no) = (At(2, 8, 1), At(3, 9, 2), At(30, 0, 1));
    let mut p = no.sep(no);
    chk_parse(&p, c, false, 2);
    p.set_pat(e).set_sep(s).set_skip(true).set_min(3).set_capacity(2);
    assert!(p.min() == 3 && p.skip() && p.capacity() == 2);
    chk_parse(&p, c, true, 11);
    p.set_min(4);
    chk_parse(&p, c, false, 2);
    *p.sep_mut() = At(3, 6, 2);
    p.set_min(3);
    chk_parse(&p, c, true, 9);
    p.set_skip(false);
    chk_parse(&p, c, false, 2);
    chk_parse(&p.at_least(2).with_capacity(0), c, true, 8);
    let mut p = no.sep2::<_, 2, 3>(no);
    p.set_pat(e).set_sep(At(3, 6, 2)).set_skip(false);
    assert!(!p.skip());
    chk_parse(&p, c, true, 8);
    chk_parse(&p.with_skip(true), c, true, 9);
    let mut p = no.sep_collect::<_, u8, Vec<u8>>(no);
    p.set_pat(e).set_sep(At(3, 6, 2)).set_skip(false).set_min(2);
    assert!(!p.skip() && p.min() == 2);
    chk_parse(&p, c, true, 8);
    chk_parse(&p.with_skip(true).at_least(3), c, true, 9);
}
