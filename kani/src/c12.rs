//! C12 constructing a value consumes exactly what matching alone would
use crate::abs::*;
use crate::combos::*;
use crate::{combos_both, ctx_for, orc_for};
use neure::prelude::*;

macro_rules! h {
    ($name:ident, $u:literal, $rem:tt, $min:literal, |$a:ident, $b:ident, $c:ident, $k:ident| $e:expr) => {
        #[kani::proof]
        #[kani::unwind($u)]
        fn $name() {
            let c0 = ctx_for!($rem);
            let (oa, ob, oc) = (orc_for!($rem, 1, c0, $min), orc_for!($rem, 2, c0, $min), orc_for!($rem, 3, c0, $min));
            let ($a, $b, $c, mut $k) = (R(&oa), R(&ob), R(&oc), K::any());
            // no conversion rejects the value
            $k.m = true;
            let (mut p, mut q) = (c0, c0);
            let m = parse(&$e, &mut p).is_ok();
            let v = build(&$e, &mut q, false).is_ok();
            assert!(!(m && !v), "C12: matches but does not construct");
            assert!(!(!m && v), "C12: constructs but does not match");
            assert!(p == q, "C12: constructing and matching end at different positions");
            kani::cover!(m, "success reachable");
            let _ = ($a, $b, $c, $k);
        }
    };
}
combos_both! { h }

/// leaves hand exactly the matched span to the handler and yield its result
macro_rules! leaf {
    ($name:ident, |$a:ident| $e:expr) => {
        #[kani::proof]
        #[kani::unwind(3)]
        fn $name() {
            let oa = Orc::new(1, 3, 0);
            let $a = R(&oa);
            let c0 = AC::any();
            let (mut p, mut q, mut x) = (c0, c0, c0);
            let e = $e;
            let m = parse(&e, &mut p);
            let v: Result<Span, _> = build(&e, &mut q, false);
            assert!(m.is_ok() == v.is_ok(), "C12: matching and constructing disagree");
            assert!(p == q, "C12: constructing and matching end at different positions");
            if let (Ok(s), Ok(v)) = (m, v) {
                assert!(s == v, "C12: value is not extracted from the matched span");
                kani::cover!(true, "success reachable");
            }
            assert!(build(&e, &mut x, true).is_err(), "C12: handler failure ignored");
            assert!(x == c0, "C12: handler failure moved the position");
            let _ = $a;
        }
    };
}
leaf!(leaf_consume, |a| neure::regex::consume(kani::any()));
leaf!(leaf_consume_all, |a| neure::regex::consume_all());
leaf!(leaf_start, |a| neure::regex::start());
leaf!(leaf_end, |a| neure::regex::end());
leaf!(leaf_empty, |a| neure::regex::empty());
leaf!(leaf_pat, |a| a.pat());
leaf!(leaf_peek, |a| neure::regex::peek(a));
leaf!(leaf_not, |a| neure::regex::not(a));
leaf!(leaf_closure, |a| |c: &mut AC| c.try_mat(&a));
leaf!(leaf_pat_then, |a| a.then(neure::regex::consume(1)).pat());

/// the mapping calls of the context extract from the matched span
#[kani::proof]
fn map_calls() {
    let oa = Orc::new(1, 3, 0);
    let a = R(&oa);
    let ok: bool = kani::any();
    let c0 = AC::any();
    let exp = oa.f(c0.off, c0.len);
    let conv = move |s: Span| if ok { Ok((s.beg, s.len)) } else { Err(neure::err::Error::Uid(5)) };
    macro_rules! chk {
        ($call:expr) => {{
            let mut c = c0;
            let r: Result<(usize, usize), _> = ($call)(&mut c);
            match exp {
                Some(n) if ok => {
                    assert!(r == Ok((c0.off, n)), "C12: value is not extracted from the matched span");
                    assert!(c.off == c0.off + n, "C12: wrong position");
                }
                _ => assert!(r.is_err() && c == c0, "C12: failure must leave the position"),
            }
        }};
    }
    chk!(|c: &mut AC| c.map_span(&a, conv));
    chk!(|c: &mut AC| c.map(&a, conv));
    chk!(|c: &mut AC| c.map_with(&a, |_: &AC, s: &Span| conv(*s)));
    chk!(|c: &mut AC| c.map_handler(&a, |_: &AC, s: &Span| conv(*s)));
    chk!(|c: &mut AC| c.ctor_with(&a.pat(), |_: &AC, s: &Span| conv(*s)));
    kani::cover!(ok && exp.is_some());
    kani::cover!(!ok && exp.is_some());
}

/// the provided extractors hand out exactly the matched range of the input
#[kani::proof]
#[kani::unwind(6)]
fn extractors() {
    use neure::ctor::{Extract, extract};
    use neure::span::Span;
    kani::cover!(true, "BOUND: inputs of 4 bytes");
    let mut b: [u8; 4] = kani::any();
    for x in b.iter_mut() {
        *x &= 0x7f;
    }
    let t = unsafe { core::str::from_utf8_unchecked(&b) };
    let (off, n) = ((kani::any::<u8>() & 7) as usize, (kani::any::<u8>() & 7) as usize);
    kani::assume(off <= 4);
    let ok = n <= 4 - off;
    kani::cover!(ok && n == 2 && off == 1);
    kani::cover!(!ok);
    let p = neure::regex::consume(n);
    macro_rules! chk {
        ($ctx:expr, |$c:ident| $call:expr, $v:ident => $same:expr) => {{
            let mut $c = $ctx;
            $c.set_offset(off);
            match $call {
                Ok($v) => assert!(ok && $c.offset() == off + n && $same, "C12: value is not extracted from the matched span"),
                Err(_) => assert!(!ok && $c.offset() == off, "C12: failure must leave the position"),
            }
        }};
    }
    // the very range, not an equal one
    let same = |s: &[u8]| s.len() == n && s.as_ptr() as usize == b.as_ptr() as usize + off;
    chk!(BytesCtx::new(&b), |c| c.ctor_handler(&p, Extract::<&[u8]>::new()), v => same(v));
    chk!(BytesCtx::new(&b), |c| c.ctor(&p), v => same(v));
    chk!(BytesCtx::new(&b), |c| c.ctor_span(&p), v => { let v: Span = v; v == Span::new(off, n) });
    chk!(BytesCtx::new(&b), |c| c.ctor_handler(&p, extract::<()>()), v => v == ());
    chk!(CharsCtx::new(t), |c| c.ctor_handler(&p, Extract::<&str>::new()), v => same(v.as_bytes()));
    chk!(CharsCtx::new(t), |c| c.ctor(&p), v => same(v.as_bytes()));
    chk!(CharsCtx::new(t), |c| c.ctor_handler(&p, Extract::<Span>::new()), v => v == Span::new(off, n));
    chk!(CharsCtx::new(t), |c| c.ctor_handler(&p, Extract::<String>::new()), v => {
        let i = (kani::any::<u8>() & 3) as usize;
        v.len() == n && (i >= n || v.as_bytes()[i] == b[off + i])
    });
    chk!(BytesCtx::new(&b), |c| c.map(&p, |s: &[u8]| Ok((s.as_ptr(), s.len()))), v => v.1 == n && v.0 as usize == b.as_ptr() as usize + off);
}
/// a literal given directly as a pattern constructs what it matches
#[kani::proof]
#[kani::unwind(6)]
fn literals() {
    kani::cover!(true, "BOUND: inputs of 3 bytes");
    let mut b: [u8; 3] = kani::any();
    for x in b.iter_mut() {
        *x &= 0x7f;
    }
    let t = unsafe { core::str::from_utf8_unchecked(&b) };
    let ok = b[1] == b'a' && b[2] == b'b';
    kani::cover!(ok);
    macro_rules! chk {
        ($ctx:expr, $($p:expr),*) => { $({
            let mut c = $ctx;
            c.set_offset(1);
            let r = c.ctor(&$p);
            assert!(r.is_ok() == ok && c.offset() == if ok { 3 } else { 1 }, "C12: constructing disagrees with matching");
            if let Ok(v) = r {
                assert!(v.len() == 2 && v.as_ptr() as usize == b.as_ptr() as usize + 1, "C12: value is not extracted from the matched span");
            }
        })* };
    }
    chk!(CharsCtx::new(t), "ab", String::from("ab"), &String::from("ab"));
    chk!(BytesCtx::new(&b), b"ab", [b'a', b'b'], b"ab".as_ref(), vec![b'a', b'b'], &vec![b'a', b'b']);
}
