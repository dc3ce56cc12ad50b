//! C09 repetition is greedy within its count bounds and keeps every value in order.
use crate::abs::*;
use crate::combos::*;
use core::ops::Bound;
use neure::prelude::*;

#[cfg(not(feature = "thorough"))]
const REM: usize = 3;
#[cfg(feature = "thorough")]
const REM: usize = 5;

use crate::rep::*;

fn bound(max: usize) -> Bound<usize> {
    let v: usize = kani::any();
    kani::assume(v <= max);
    match kani::any::<u8>() % 3 {
        0 => Bound::Included(v),
        1 => Bound::Excluded(v),
        _ => Bound::Unbounded,
    }
}
/// (maximum count, is the count in the range)
fn spec(lo: Bound<usize>, hi: Bound<usize>) -> (Option<usize>, impl Fn(usize) -> bool) {
    let max = match hi {
        Bound::Included(h) => Some(h),
        Bound::Excluded(h) => Some(if h == 0 { 0 } else { h - 1 }),
        Bound::Unbounded => None,
    };
    let ok = move |n: usize| {
        (match lo {
            Bound::Included(l) => n >= l,
            Bound::Excluded(l) => n > l,
            Bound::Unbounded => true,
        }) && (match hi {
            Bound::Included(h) => n <= h,
            Bound::Excluded(h) => n < h,
            Bound::Unbounded => true,
        })
    };
    (max, ok)
}

macro_rules! env {
    ($a:ident, $c:ident, rem) => {
        let $c = AC::any_rem(REM);
        let o = Orc::dense(1, &$c, REM, 1);
        let $a = R(&o);
    };
    // elements may be empty
    ($a:ident, $c:ident, full) => {
        let $c = AC::any_rem(REM);
        let o = Orc::dense(1, &$c, REM, 0);
        let $a = R(&o);
    };
}

// every pair of bounds, input length bounded
#[kani::proof]
#[kani::unwind(5)]
fn repeat_any_range_parse() {
    env!(a, c, rem);
    let (lo, hi) = (bound(4), bound(4));
    let (max, ok) = spec(lo, hi);
    let r = run(a, c, max);
    kani::cover!(ok(r.n) && r.n == 3);
    kani::cover!(!ok(r.n));
    chk_parse(&a.repeat((lo, hi)), c, ok(r.n), r.end);
}
#[kani::proof]
#[kani::unwind(5)]
fn repeat_any_range_ctor() {
    env!(a, c, rem);
    let (lo, hi) = (bound(4), bound(4));
    let (max, ok) = spec(lo, hi);
    let r = run(a, c, max);
    kani::cover!(ok(r.n) && r.n == 2);
    kani::cover!(!ok(r.n));
    chk_vec(&RB(a.0).repeat((lo, hi)), a, c, ok(r.n), &r);
}
// every way to write the range; any input, elements may be empty, upper bound at most 3
macro_rules! form {
    ($name:ident, $env:ident, |$l:ident, $h:ident| $range:expr, $lo:expr, $hi:expr) => {
        mod $name {
            use super::*;
            #[kani::proof]
            #[kani::unwind(5)]
            fn parse() {
                env!(a, c, $env);
                let ($l, $h): (usize, usize) = (kani::any(), kani::any());
                kani::assume($l <= 3 && $h <= 3);
                let (max, ok) = spec($lo, $hi);
                let r = run(a, c, max);
                kani::cover!(ok(r.n));
                chk_parse(&a.repeat($range), c, ok(r.n), r.end);
                let _ = ($l, $h);
            }
            #[kani::proof]
            #[kani::unwind(5)]
            fn ctor() {
                env!(a, c, $env);
                let ($l, $h): (usize, usize) = (kani::any(), kani::any());
                kani::assume($l <= 2 && $h <= 3);
                let (max, ok) = spec($lo, $hi);
                let r = run(a, c, max);
                kani::cover!(ok(r.n));
                chk_vec(&RB(a.0).repeat($range), a, c, ok(r.n), &r);
                let _ = ($l, $h);
            }
        }
    };
}
form!(range, full, |l, h| l..h, Bound::Included(l), Bound::Excluded(h));
form!(range_incl, full, |l, h| l..=h, Bound::Included(l), Bound::Included(h));
form!(range_to, full, |l, h| ..h, Bound::Unbounded, Bound::Excluded(h));
form!(range_to_incl, full, |l, h| ..=h, Bound::Unbounded, Bound::Included(h));
form!(exact, full, |l, h| h, Bound::Included(h), Bound::Included(h));
form!(range_from, rem, |l, h| l.., Bound::Included(l), Bound::Unbounded);
form!(range_full, rem, |l, h| .., Bound::Unbounded, Bound::Unbounded);

// replacing the range / pattern later
#[kani::proof]
#[kani::unwind(5)]
fn repeat_setters() {
    env!(a, c, full);
    let (l, h): (usize, usize) = (kani::any(), kani::any());
    kani::assume(l <= 3 && h <= 3);
    let (max, ok) = spec(Bound::Included(l), Bound::Included(h));
    let r = run(a, c, max);
    let p = a.repeat(1..2).with_range(l..=h).with_capacity(2);
    chk_parse(&p, c, ok(r.n), r.end);
    kani::cover!(ok(r.n));
}

macro_rules! fixed {
    ($name:ident, $m:literal, $n:literal) => {
        mod $name {
            use super::*;
            #[kani::proof]
            #[kani::unwind(5)]
            fn parse() {
                env!(a, c, full);
                let r = run(a, c, Some($n));
                kani::cover!(r.n >= $m);
                kani::cover!(r.n < $m || $m == 0);
                chk_parse(&a.repeat2::<$m, $n>(), c, r.n >= $m && $m <= $n, r.end);
            }
            #[kani::proof]
            #[kani::unwind(5)]
            fn ctor() {
                env!(a, c, full);
                let r = run(a, c, Some($n));
                kani::cover!(r.n >= $m);
                kani::cover!(r.n < $m || $m == 0);
                chk_arr::<$n, _>(&a.repeat2::<$m, $n>(), c, r.n >= $m && $m <= $n, &r);
            }
        }
    };
}
fixed!(repeat2_0_0, 0, 0);
fixed!(repeat2_0_1, 0, 1);
fixed!(repeat2_0_3, 0, 3);
fixed!(repeat2_1_1, 1, 1);
fixed!(repeat2_1_3, 1, 3);
fixed!(repeat2_2_3, 2, 3);
fixed!(repeat2_3_3, 3, 3);
fixed!(repeat2_2_4, 2, 4);

#[kani::proof]
#[kani::unwind(5)]
fn collect_parse() {
    env!(a, c, rem);
    let min: usize = kani::any();
    let r = run(a, c, None);
    kani::cover!(r.n >= min && r.n == 3);
    kani::cover!(r.n < min);
    chk_parse(&a.collect::<V, Col>().at_least(min), c, r.n >= min, r.end);
}
#[kani::proof]
#[kani::unwind(5)]
fn collect_ctor() {
    env!(a, c, rem);
    let min: usize = kani::any();
    let r = run(a, c, None);
    kani::cover!(r.n >= min && r.n == 3);
    kani::cover!(r.n < min);
    chk_col(&a.collect::<V, Col>().at_least(min), c, r.n >= min, &r);
}
/// without at_least, one match is required
#[kani::proof]
#[kani::unwind(5)]
fn collect_default() {
    env!(a, c, rem);
    let r = run(a, c, None);
    kani::cover!(r.n == 0);
    kani::cover!(r.n == 1);
    chk_parse(&a.collect::<V, Col>(), c, r.n >= 1, r.end);
    chk_col(&a.collect::<V, Col>(), c, r.n >= 1, &r);
}
#[kani::proof]
#[kani::unwind(5)]
fn collect_vec() {
    env!(a, c, rem);
    let min: usize = kani::any();
    let r = run(a, c, None);
    kani::cover!(r.n >= min && r.n == 2);
    chk_vec(&RB(a.0).collect::<u8, Vec<u8>>().at_least(min), a, c, r.n >= min, &r);
}

/// long runs of a simple pattern: nothing changes beyond the first few matches
mod long {
    use super::*;
    const C: AC = AC { len: 40, off: 0 };
    #[kani::proof]
    #[kani::unwind(24)]
    fn repeat() {
        let (mut c, a) = (C, Few::any(&C));
        let (l, h) = ((kani::any::<u8>() & 31) as usize, (kani::any::<u8>() & 31) as usize);
        kani::assume(l <= LONG);
        let n = if a.stop < h { a.stop } else { h };
        kani::cover!(n == LONG);
        kani::cover!(n < l);
        let r: Result<Vec<u8>, _> = c.ctor_handler(&a.repeat(l..=h).with_capacity(LONG), Hd { fail: false });
        chk_long(r, c, n, n >= l && n <= h, n, |i| i as u8);
    }
    #[kani::proof]
    #[kani::unwind(24)]
    fn repeat_parse() {
        let a = Few::any(&C);
        let (l, h) = ((kani::any::<u8>() & 31) as usize, (kani::any::<u8>() & 31) as usize);
        let n = if a.stop < h { a.stop } else { h };
        kani::cover!(n == LONG);
        chk_parse(&a.repeat(l..=h), C, n >= l && n <= h, n);
    }
    #[kani::proof]
    #[kani::unwind(24)]
    fn repeat2() {
        let (mut c, a) = (C, Few::any(&C));
        let n = if a.stop < 18 { a.stop } else { 18 };
        kani::cover!(n == 18);
        kani::cover!(n < 9);
        let r: Result<[Option<u8>; 18], _> = c.ctor_handler(&a.repeat2::<2, 18>(), Hd { fail: false });
        chk_long_arr(r, c, n, n >= 2, n, |i| i as u8);
    }
    #[kani::proof]
    #[kani::unwind(24)]
    fn collect() {
        let (mut c, a) = (C, Few::any(&C));
        let (min, n): (usize, usize) = (kani::any(), a.stop);
        kani::cover!(n == LONG && n >= min);
        let r: Result<Vec<u8>, _> = c.ctor_handler(&a.collect::<u8, Vec<u8>>().at_least(min), Hd { fail: false });
        chk_long(r, c, n, n >= min, n, |i| i as u8);
    }
}

/// the same runs one by one, nothing symbolic: decided even where the code is too much for the solver
mod each {
    use super::*;
    const C: AC = AC { len: 50, off: 0 };
    fn run(n: usize) -> Few {
        kani::cover!(true, "BOUND: runs of exactly 0, 1, 2, 3, 5, 17, 18 and 20 one-unit matches");
        Few { stop: n }
    }
    macro_rules! each {
        ($name:ident, |$c:ident, $a:ident, $n:ident| $body:block) => {
            #[kani::proof]
            #[kani::unwind(24)]
            fn $name() {
                for $n in [0usize, 1, 2, 3, 5, 17, 18, 20] {
                    let ($c, $a) = (C, run($n));
                    $body
                }
            }
        };
    }
    each!(repeat2, |c, a, n| {
        let (mut c, n) = (c, if n < 18 { n } else { 18 });
        let r: Result<[Option<u8>; 18], _> = c.ctor_handler(&a.repeat2::<2, 18>(), Hd { fail: false });
        chk_each_arr(r, c, n, n >= 2, n, |i| i as u8);
    });
    each!(repeat2_3, |c, a, n| {
        let (mut c, n) = (c, if n < 3 { n } else { 3 });
        let r: Result<[Option<u8>; 3], _> = c.ctor_handler(&a.repeat2::<1, 3>(), Hd { fail: false });
        chk_each_arr(r, c, n, n >= 1, n, |i| i as u8);
    });
    each!(repeat, |c, a, n| {
        let mut c = c;
        let r: Result<Vec<u8>, _> = c.ctor_handler(&a.repeat(2..=20), Hd { fail: false });
        chk_each(r, c, n, n >= 2, n, |i| i as u8);
    });
    each!(collect, |c, a, n| {
        let mut c = c;
        let r: Result<Vec<u8>, _> = c.ctor_handler(&a.collect::<u8, Vec<u8>>().at_least(2), Hd { fail: false });
        chk_each(r, c, n, n >= 2, n, |i| i as u8);
    });
}

/// replacing the pattern or the bounds later
#[kani::proof]
#[kani::unwind(7)]
fn setters() {
    let c = AC { len: 9, off: 2 };
    let (none, five) = (Few { stop: 2 }, Few { stop: 7 });
    let mut p = none.repeat(3..);
    p.set_pat(five).set_range(..=4).set_capacity(1);
    assert!(p.capacity() == 1 && core::ops::RangeBounds::contains(p.range(), &4) && !core::ops::RangeBounds::contains(p.range(), &5) && (&p).pat().stop == 7);
    chk_parse(&p, c, true, 6);
    let p = none.repeat(3..).with_pat(five).with_capacity(0);
    chk_parse(&p, c, true, 7);
    let mut p = p;
    *p.pat_mut() = none;
    chk_parse(&p, c, false, 2);
    let p = none.repeat2::<2, 3>().with_pat(five);
    chk_parse(&p, c, true, 5);
    let mut p = p;
    p.set_pat(none);
    chk_parse(&p, c, false, 2);
    *p.pat_mut() = five;
    chk_parse(&p, c, true, 5);
    let mut p = none.collect::<u8, Vec<u8>>().at_least(0);
    chk_parse(&p, c, true, 2);
    p.set_min(6);
    assert!(p.min() == 6);
    p.set_pat(five);
    chk_parse(&p, c, false, 2);
    p.set_min(5);
    chk_parse(&p, c, true, 7);
    *p.pat_mut() = none;
    chk_parse(&p, c, false, 2);
}
