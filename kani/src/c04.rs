//! C04 unit quantifiers take the maximal run within their bounds.
use crate::items::*;
use core::ops::Bound;
use neure::neu::Condition;
use neure::prelude::*;

/// `p` must match exactly the first `k` items if `exp == Some(k)`, and fail otherwise
fn check<P: Regex<IC>>(p: &P, c0: IC, exp: Option<usize>) {
    let mut c = c0;
    let r = c.try_mat(p);
    match exp {
        Some(k) => {
            assert!(r.is_ok(), "enough accepted items, but no match");
            let s = r.unwrap();
            assert!(s.beg == c0.off, "span does not begin at the position");
            assert!(s.len == c0.pos(k) - c0.off, "not exactly the maximal run");
            assert!(c.off == c0.pos(k), "position is not the end of the run");
        }
        None => {
            assert!(r.is_err(), "match without enough accepted items");
            assert!(c.off == c0.off, "failure moved the position");
        }
    }
}
macro_rules! q {
    ($name:ident, $min:expr, $max:expr, |$u:ident| $e:expr) => {
        mod $name {
            use super::*;
            #[kani::proof]
            #[kani::unwind(7)]
            fn plain() {
                let c = IC::any();
                let $u = U::any(&c);
                let k = run(&c, &$u, &Cd::yes(), $max).unwrap();
                kani::cover!(k >= $min && k == c.n);
                check(&$e, c, if k >= $min { Some(k) } else { None });
            }
            #[kani::proof]
            #[kani::unwind(7)]
            fn cond() {
                let c = IC::any();
                let ($u, d) = (U::any(&c), Cd::any());
                let k = run(&c, &$u, &d, $max);
                kani::cover!(k == Ok($min));
                kani::cover!(k.is_err() || $max == Some(0));
                check(&($e).set_cond(d.get(c)), c, match k { Ok(k) if k >= $min => Some(k), _ => None });
            }
        }
    };
}
q!(once, 1, Some(1), |u| u.once());
q!(opt, 0, Some(1), |u| u.opt());
q!(many0, 0, None::<usize>, |u| u.many0());
q!(many1, 1, None::<usize>, |u| u.many1());
q!(count0, 0, Some(0), |u| u.count::<0>());
q!(count1, 1, Some(1), |u| u.count::<1>());
q!(count2, 2, Some(2), |u| u.count::<2>());
q!(at_least0, 0, None::<usize>, |u| NeuIntoRegexOps::at_least::<0>(u));
q!(at_least2, 2, None::<usize>, |u| NeuIntoRegexOps::at_least::<2>(u));
q!(at_most1, 0, Some(1), |u| u.at_most::<1>());
q!(at_most2, 0, Some(2), |u| u.at_most::<2>());
q!(between0_2, 0, Some(2), |u| u.between::<0, 2>());
q!(between1_2, 1, Some(2), |u| u.between::<1, 2>());
q!(between2_3, 2, Some(3), |u| u.between::<2, 3>());
q!(between1_9, 1, Some(9), |u| u.between::<1, 9>());

fn bound(max: u8) -> Bound<usize> {
    let v = kani::any::<u8>() & 7;
    kani::assume(v <= max);
    match kani::any::<u8>() & 3 {
        0 => Bound::Included(v as usize),
        1 => Bound::Excluded(v as usize),
        _ => Bound::Unbounded,
    }
}
fn inside(lo: Bound<usize>, hi: Bound<usize>, n: usize) -> bool {
    (match lo {
        Bound::Included(l) => n >= l,
        Bound::Excluded(l) => n > l,
        Bound::Unbounded => true,
    }) && (match hi {
        Bound::Included(h) => n <= h,
        Bound::Excluded(h) => n < h,
        Bound::Unbounded => true,
    })
}
/// times with any pair of bounds that some count satisfies
#[kani::proof]
#[kani::unwind(7)]
fn times_any_range() {
    let c = IC::any();
    let u = U::any(&c);
    let (lo, hi) = (bound(4), bound(4));
    kani::assume(inside(lo, hi, 0) || inside(lo, hi, 1) || inside(lo, hi, 2) || inside(lo, hi, 3) || inside(lo, hi, 4) || inside(lo, hi, 5));
    let max = match hi {
        Bound::Included(h) => Some(h),
        Bound::Excluded(h) => Some(h - 1),
        Bound::Unbounded => None,
    };
    let k = run(&c, &u, &Cd::yes(), max).unwrap();
    kani::cover!(inside(lo, hi, k) && k == 2);
    kani::cover!(!inside(lo, hi, k));
    check(&u.times((lo, hi)), c, if inside(lo, hi, k) { Some(k) } else { None });
}
#[kani::proof]
#[kani::unwind(7)]
fn times_cond() {
    let c = IC::any();
    let (u, d) = (U::any(&c), Cd::any());
    let k = run(&c, &u, &d, Some(2));
    kani::cover!(k == Ok(2));
    check(&u.times(1..3).set_cond(d.get(c)), c, match k { Ok(k) if k >= 1 => Some(k), _ => None });
}
/// bounds beyond any input never overflow, they just do not match
#[kani::proof]
#[kani::unwind(7)]
fn times_huge() {
    let c = IC::any();
    let u = U::any(&c);
    let lo: usize = kani::any();
    kani::assume(lo > NI);
    check(&u.times(lo..), c, None);
    check(&u.between::<{ usize::MAX }, { usize::MAX }>(), c, None);
    kani::cover!(lo == usize::MAX);
}
/// one unit followed by another
#[kani::proof]
#[kani::unwind(7)]
fn then_plain() {
    let c = IC::any();
    let (u, v) = (U::any(&c), U::any(&c));
    let ok = c.n >= 2 && u.acc[0] && v.acc[1];
    kani::cover!(ok && c.n == 2);
    kani::cover!(ok && c.n == 3);
    check(&NeuIntoRegexOps::then(u, v), c, if ok { Some(2) } else { None });
}
#[kani::proof]
#[kani::unwind(7)]
fn then_cond() {
    let c = IC::any();
    let (u, v, d) = (U::any(&c), U::any(&c), Cd::any());
    let ok = c.n >= 2 && u.acc[0] && d.t[0] == 1 && v.acc[1] && d.t[1] == 1;
    kani::cover!(ok);
    check(&NeuIntoRegexOps::then(u, v).set_cond(d.get(c)), c, if ok { Some(2) } else { None });
}
/// the regex condition: the pattern must match at the item
#[kani::proof]
#[kani::unwind(7)]
fn regex_condition() {
    let c = IC::any();
    let u = U::any(&c);
    let mut ok = [false; NI];
    ok[0] = kani::any();
    ok[1] = kani::any();
    // a pattern that depends on where it is run, and may consume anything
    let p = move |x: &mut IC| {
        let i = x.index(x.off);
        let i = match i {
            Some(i) => i,
            None => panic!("condition run between items"),
        };
        if i < NI && ok[i] {
            Ok(Span::new(x.off, 0))
        } else {
            Err(neure::err::Error::Uid(9))
        }
    };
    let mut k = 0;
    while k < c.n && u.acc[k] && ok[k] {
        k += 1;
    }
    kani::cover!(k == 2);
    check(&u.many0().set_cond(neure::neu::regex_cond(p)), c, Some(k));
}
/// a position outside the input: the optional forms match nothing, the others fail, none panics
#[kani::proof]
#[kani::unwind(7)]
fn outside() {
    let mut c = IC::any();
    let u = U::any(&c);
    let off: usize = kani::any();
    kani::assume(off > c.pos(c.n));
    c.off = off;
    macro_rules! chk {
        ($e:expr, $ok:literal) => {{
            let mut x = c;
            let r = x.try_mat(&$e);
            assert!(r.is_ok() == $ok && x.off == off, "position outside the input");
        }};
    }
    chk!(u.once(), false);
    chk!(u.many1(), false);
    chk!(u.count::<2>(), false);
    chk!(u.times(1..), false);
    chk!(NeuIntoRegexOps::then(u, u), false);
    chk!(u.opt(), true);
    chk!(u.many0(), true);
}
/// the free functions of `neure::regex`
mod free {
    use super::*;
    use neure::regex as rx;
    q!(once, 1, Some(1), |u| rx::once(u));
    q!(opt, 0, Some(1), |u| rx::opt(u));
    q!(many0, 0, None::<usize>, |u| rx::many0(u));
    q!(many1, 1, None::<usize>, |u| rx::many1(u));
    q!(count1_2, 1, Some(2), |u| rx::count::<1, 2, _, _>(u));
    #[kani::proof]
    #[kani::unwind(7)]
    fn count_if() {
        let c = IC::any();
        let (u, d) = (U::any(&c), Cd::any());
        let k = run(&c, &u, &d, Some(2));
        kani::cover!(k == Ok(2));
        check(&rx::count_if::<1, 2, _, _, _>(u, d.get(c)), c, match k { Ok(k) if k >= 1 => Some(k), _ => None });
    }
}
/// quantifiers over combined units: the maximal run of the combination, whatever widths the parts declare
mod combined {
    use super::*;
    use neure::neu::{self, NeuOp};
    macro_rules! comb {
        ($name:ident, |$u:ident, $v:ident| $e:expr, |$a:ident, $b:ident| $x:expr) => {
            #[kani::proof]
            #[kani::unwind(7)]
            fn $name() {
                let c = IC::any();
                let ($u, $v) = (U::any(&c), U::any(&c));
                let mut t = U { acc: [false; NI], min: 0 };
                let mut i = 0;
                while i < NI {
                    let ($a, $b) = ($u.acc[i], $v.acc[i]);
                    t.acc[i] = $x;
                    i += 1;
                }
                let k = run(&c, &t, &Cd::yes(), Some(3)).unwrap();
                kani::cover!(k == 2);
                check(&($e).between::<2, 3>(), c, if k >= 2 { Some(k) } else { None });
                check(&($e).times(2..=3), c, if k >= 2 { Some(k) } else { None });
                let k = run(&c, &t, &Cd::yes(), None).unwrap();
                check(&($e).many1(), c, if k >= 1 { Some(k) } else { None });
            }
        };
    }
    comb!(or_, |u, v| NeuOp::<u8>::or(u, v), |a, b| a || b);
    comb!(and_, |u, v| NeuOp::<u8>::and(u, v), |a, b| a && b);
    comb!(not_, |u, _v| NeuOp::<u8>::not(u), |a, _b| !a);
    comb!(not_or, |u, v| !neu::or::<u8, _, _>(u, v), |a, b| !(a || b));
    comb!(boxed, |u, v| { let b: Box<dyn Neu<u8>> = Box::new(u); let _ = v; b }, |a, _b| a);
}
/// replacing the unit, the bounds or the condition later
mod setters {
    use super::*;
    fn chk<'a, P: Regex<BytesCtx<'a>>>(p: &P, s: &'a str, exp: Option<usize>) {
        let mut c = BytesCtx::new(s.as_bytes());
        let r = c.try_mat(p);
        assert!(r.ok() == exp.map(|n| Span::new(0, n)), "not the unit, bounds or condition that were set");
    }
    macro_rules! unit {
        ($name:ident, $n:literal $m:literal, |$u:ident| $e:expr) => {
            #[kani::proof]
            #[kani::unwind(7)]
            fn $name() {
                let $u = b'x';
                let mut p = $e;
                p.set_unit(b'a');
                chk(&p, "aab", Some($n));
                *p.unit_mut() = b'b';
                assert!(*(&p).unit() == b'b');
                chk(&p, "bbb", Some($m));
                // a replaced condition is the only one, and keeps the unit and the bounds
                let p = p.set_cond(|_: &BytesCtx, _: &(usize, u8)| Ok(false)).set_cond(|_: &BytesCtx, i: &(usize, u8)| Ok(i.0 != 1));
                assert!(*(&p).unit() == b'b');
                chk(&p, "bbb", if $m == 0 || p.try_parse(&mut BytesCtx::new(b"b")).is_ok() { Some(if $m < 1 { $m } else { 1 }) } else { None });
            }
        };
    }
    unit!(once, 1 1, |u| neure::regex::once(u));
    unit!(opt, 1 1, |u| neure::regex::opt(u));
    unit!(many0, 2 3, |u| neure::regex::many0(u));
    unit!(many1, 2 3, |u| neure::regex::many1(u));
    unit!(between, 2 2, |u| neure::regex::count::<1, 2, _, _>(u));
    unit!(exact, 2 2, |u| neure::regex::count::<2, 2, _, _>(u));
    unit!(times, 2 2, |u| u.times(1..=2));
    #[kani::proof]
    #[kani::unwind(7)]
    fn times_range() {
        let mut p = b'a'.times(3..);
        p.set_range(..=1);
        chk(&p, "aaa", Some(1));
        chk(&p, "b", Some(0));
        *p.range_mut() = (2..).into();
        assert!(!core::ops::RangeBounds::contains((&p).range(), &1) && core::ops::RangeBounds::contains((&p).range(), &2));
        chk(&p, "aaa", Some(3));
        chk(&p, "ab", None);
    }
    #[kani::proof]
    #[kani::unwind(7)]
    fn then() {
        let mut p = NeuIntoRegexOps::<BytesCtx>::then(b'x', b'x');
        p.set_left(b'a').set_right(b'b');
        chk(&p, "ab", Some(2));
        chk(&p, "ba", None);
        *p.left_mut() = b'b';
        *p.right_mut() = b'a';
        assert!(*(&p).left() == b'b' && *(&p).right() == b'a');
        chk(&p, "ba", Some(2));
        let p = p.set_cond(|_: &BytesCtx, i: &(usize, u8)| Ok(i.0 == 0));
        chk(&p, "ba", None);
    }
}
