//! C01 a failure leaves the position unchanged
use crate::abs::*;
use crate::combos::*;
use crate::{combos_both, ctx_for, orc_for};
use neure::prelude::*;

macro_rules! h {
    ($name:ident, $u:literal, $rem:tt, $min:literal, |$a:ident, $b:ident, $c:ident, $k:ident| $e:expr) => {
        mod $name {
            use super::*;
            #[kani::proof]
            #[kani::unwind($u)]
            fn parse_fail() {
                let c0 = ctx_for!($rem);
                let (oa, ob, oc) = (orc_for!($rem, 1, c0, $min), orc_for!($rem, 2, c0, $min), orc_for!($rem, 3, c0, $min));
                let ($a, $b, $c, $k) = (R(&oa), R(&ob), R(&oc), K::any());
                let mut ctx = c0;
                let r = parse(&$e, &mut ctx);
                if r.is_err() {
                    assert!(ctx.off == c0.off, "C01: failed match moved the position");
                    kani::cover!(true, "failure reachable");
                }
                let _ = ($a, $b, $c, $k);
            }
            #[kani::proof]
            #[kani::unwind($u)]
            fn construct_fail() {
                let c0 = ctx_for!($rem);
                let (oa, ob, oc) = (orc_for!($rem, 1, c0, $min), orc_for!($rem, 2, c0, $min), orc_for!($rem, 3, c0, $min));
                let ($a, $b, $c, $k) = (R(&oa), R(&ob), R(&oc), K::any());
                let mut ctx = c0;
                let r = build(&$e, &mut ctx, kani::any());
                if r.is_err() {
                    assert!(ctx.off == c0.off, "C01: failed construction moved the position");
                    kani::cover!(true, "failure reachable");
                }
                let _ = ($a, $b, $c, $k);
            }
        }
    };
}
combos_both! { h }
