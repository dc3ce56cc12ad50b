//! C02 a successful match reports exactly the range it consumed
use crate::abs::*;
use crate::combos::*;
use crate::{combos_both, ctx_for, orc_for};
use neure::prelude::*;

macro_rules! h {
    ($name:ident, $u:literal, $rem:tt, $min:literal, |$a:ident, $b:ident, $c:ident, $k:ident| $e:expr) => {
        #[kani::proof]
        #[kani::unwind($u)]
        fn $name() {
            let c0 = ctx_for!($rem);
            let (oa, ob, oc) = (orc_for!($rem, 1, c0, $min), orc_for!($rem, 2, c0, $min), orc_for!($rem, 3, c0, $min));
            let ($a, $b, $c, $k) = (R(&oa), R(&ob), R(&oc), K::any());
            let mut ctx = c0;
            if let Ok(s) = parse(&$e, &mut ctx) {
                assert!(s.beg == c0.off, "C02: span does not begin where the attempt started");
                assert!(ctx.off <= c0.len, "C02: match went outside the input");
                assert!(ctx.off >= s.beg && s.len == ctx.off - s.beg, "C02: span does not end at the position");
                kani::cover!(true, "success reachable");
            }
            let _ = ($a, $b, $c, $k);
        }
    };
}
combos_both! { h }

// leaf patterns
macro_rules! leaf {
    ($name:ident, $u:literal, |$k:ident| $e:expr) => {
        #[kani::proof]
        #[kani::unwind($u)]
        fn $name() {
            let $k = K::any();
            let c0 = AC::any();
            let mut ctx = c0;
            if let Ok(s) = parse(&$e, &mut ctx) {
                assert!(s.beg == c0.off, "C02: span does not begin where the attempt started");
                assert!(ctx.off <= c0.len, "C02: match went outside the input");
                assert!(ctx.off >= s.beg && s.len == ctx.off - s.beg, "C02: span does not end at the position");
                kani::cover!(true, "success reachable");
            }
            let _ = $k;
        }
    };
}
leaf!(consume, 2, |k| neure::regex::consume(kani::any()));
leaf!(consume_all, 2, |k| neure::regex::consume_all());
leaf!(start, 2, |k| neure::regex::start());
leaf!(end, 2, |k| neure::regex::end());
leaf!(empty, 2, |k| neure::regex::empty());
leaf!(unit, 2, |k| ());

/// unit quantifiers and literals on real input
mod real {
    use super::*;
    const N: usize = 3;
    macro_rules! q {
        ($name:ident, $e:expr) => {
            #[kani::proof]
            #[kani::unwind(6)]
            fn $name() {
                let buf: [u8; N] = kani::any();
                let n: usize = kani::any();
                let off: usize = kani::any();
                kani::assume(n <= N && off <= n);
                kani::cover!(true, "BOUND: at most 3 bytes of input");
                let mut ctx = BytesCtx::new(&buf[..n]).with_offset(off);
                if let Ok(s) = ctx.try_mat(&$e) {
                    let p = Context::offset(&ctx);
                    assert!(s.beg == off, "C02: span does not begin where the attempt started");
                    assert!(p <= n && p >= off && s.len == p - off, "C02: span does not end at the position");
                    kani::cover!(s.len == 0 || s.len > 0, "success reachable");
                }
            }
        };
    }
    q!(once, b'a'.once());
    q!(opt, b'a'.opt());
    q!(many0, b'a'.many0());
    q!(many1, b'a'.many1());
    q!(between, b'a'.between::<1, 2>());
    q!(count, b'a'.count::<2>());
    q!(times, b'a'.times(1..3));
    q!(unit_then, NeuIntoRegexOps::then(b'a', b'b'));
    q!(literal, neure::regex::literal(&b"ab"[..]));
    q!(bytes_array, b"ab");
}
