//! Postcondition checkers shared by the per-property contracts.
use crate::abs::*;
use crate::combos::*;
use neure::prelude::*;

/// `p` must match iff `end` is `Some(e)`, then with span `[off, e)` and position `e`;
/// otherwise it fails and leaves the position alone.
pub fn check_parse<P: Regex<AC>>(p: &P, c0: AC, end: Option<usize>) {
    let mut c = c0;
    let r = c.try_mat(p);
    match end {
        Some(e) => {
            assert!(r.is_ok(), "must match but fails");
            let s = r.unwrap();
            assert!(s.beg == c0.off, "span does not begin at the start of the attempt");
            assert!(s.len == e - c0.off, "span has the wrong length");
            assert!(c.off == e, "wrong position after the match");
        }
        None => {
            assert!(r.is_err(), "must fail but matches");
            assert!(c.off == c0.off, "position moved by a failed match");
        }
    }
}

/// `p` must construct value `v` and stop at `e` iff `exp` is `Some((v, e))`.
pub fn check_ctor<P, O: PartialEq>(p: &P, c0: AC, exp: Option<(O, usize)>)
where
    P: neure::ctor::Ctor<AC, O, Hd>,
{
    let mut c = c0;
    let r = c.ctor_handler(p, Hd { fail: false });
    match (exp, r) {
        (Some((v, e)), Ok(got)) => {
            assert!(got == v, "wrong value constructed");
            assert!(c.off == e, "wrong position after the construction");
        }
        (Some(_), Err(_)) => panic!("must construct but fails"),
        (None, Ok(_)) => panic!("must fail but constructs"),
        (None, Err(_)) => {
            assert!(c.off == c0.off, "position moved by a failed construction");
        }
    }
}

/// three abstract patterns and a context
#[macro_export]
macro_rules! setup {
    ($a:ident $b:ident $c:ident $ctx:ident) => { setup!(new 3; $a $b $c $ctx); };
    (sloppy; $a:ident $b:ident $c:ident $ctx:ident) => { setup!(sloppy 3; $a $b $c $ctx); };
    ($how:ident $cap:literal; $a:ident $b:ident $c:ident $ctx:ident) => {
        let (oa, ob, oc) = (Orc::$how(1, $cap, 0), Orc::$how(2, $cap, 0), Orc::$how(3, $cap, 0));
        let ($a, $b, $c) = (R(&oa), R(&ob), R(&oc));
        let $ctx = AC::any();
    };
}

/// end position of abstract patterns run back to back
#[macro_export]
macro_rules! seq_spec {
    ($ctx:ident; $first:ident $(, $rest:ident)*) => {{
        let p = $first.0.end($ctx.off, $ctx.len);
        $( let p = match p { Some(p) => $rest.0.end(p, $ctx.len), None => None }; )*
        p
    }};
}
