//! C05 sequencing combinators run their parts back to back, all or nothing
use crate::abs::*;
use crate::combos::*;
use crate::spec::*;
use crate::{seq_spec, setup};
use neure::prelude::*;

macro_rules! parse_h {
    ($name:ident, |$a:ident, $b:ident, $c:ident| $e:expr, $($o:ident)*) => {
        #[kani::proof]
        fn $name() {
            setup!($a $b $c ctx);
            let exp = seq_spec!(ctx; $($o),*);
            kani::cover!(exp.is_some(), "success reachable");
            kani::cover!(exp.is_none(), "failure reachable");
            check_parse(&$e, ctx, exp);
            let _ = ($a, $b, $c);
        }
    };
}
// order of the arguments after the closure = documented order of evaluation
parse_h!(then_parse, |a, b, c| a.then(b), a b);
parse_h!(then3_parse, |a, b, c| a.then(b).then(c), a b c);
parse_h!(then_right_parse, |a, b, c| a.then(b.then(c)), a b c);
parse_h!(prefix_parse, |a, b, c| a.prefix(b), b a);
parse_h!(suffix_parse, |a, b, c| a.suffix(b), a b);
parse_h!(prefix_suffix_parse, |a, b, c| a.prefix(b).suffix(c), b a c);
parse_h!(enclose_parse, |a, b, c| a.enclose(b, c), b a c);
parse_h!(sep_once_parse, |a, b, c| a.sep_once(b, c), a b c);
parse_h!(pat_parse, |a, b, c| a.then(b).pat(), a b);
parse_h!(quote_fn_parse, |a, b, c| neure::ctor::Enclose::new(a, b, c), b a c);

macro_rules! ctor_h {
    // value of the parts at positions p0 (start), after each part in evaluation order
    ($name:ident, |$a:ident, $b:ident, $c:ident| $e:expr, $($o:ident)* => $v:expr) => {
        #[kani::proof]
        fn $name() {
            setup!($a $b $c ctx);
            let exp = match seq_spec!(ctx; $($o),*) {
                None => None,
                Some(e) => {
                    let mut p = ctx.off;
                    $(
                        #[allow(unused_variables)]
                        let $o = { let v = $o.0.val(p, ctx.len); p += v.len; v };
                    )*
                    assert!(p == e);
                    Some(($v, e))
                }
            };
            kani::cover!(exp.is_some(), "success reachable");
            kani::cover!(exp.is_none(), "failure reachable");
            check_ctor(&$e, ctx, exp);
            let _ = ($a, $b, $c);
        }
    };
}
ctor_h!(then_ctor, |a, b, c| a.then(b), a b => (a, b));
ctor_h!(then3_ctor, |a, b, c| a.then(b).then(c), a b c => ((a, b), c));
ctor_h!(then_right_ctor, |a, b, c| a.then(b.then(c)), a b c => (a, (b, c)));
ctor_h!(prefix_ctor, |a, b, c| a.prefix(b), b a => a);
ctor_h!(suffix_ctor, |a, b, c| a.suffix(b), a b => a);
ctor_h!(prefix_suffix_ctor, |a, b, c| a.prefix(b).suffix(c), b a c => a);
ctor_h!(enclose_ctor, |a, b, c| a.enclose(b, c), b a c => a);
ctor_h!(sep_once_ctor, |a, b, c| a.sep_once(b, c), a b c => (a, c));
ctor_h!(then_sel0, |a, b, c| a.then(b)._0(), a b => a);
ctor_h!(then_sel1, |a, b, c| a.then(b)._1(), a b => b);
ctor_h!(sep_once_sel0, |a, b, c| a.sep_once(b, c)._0(), a b c => a);
ctor_h!(sep_once_sel1, |a, b, c| a.sep_once(b, c)._1(), a b c => c);
/// the part selected from a conditional sequence
#[kani::proof]
fn if_then_sel() {
    setup!(a t b ctx);
    let first = a.0.end(ctx.off, ctx.len);
    let exp = first.and_then(|p| match t.0.end(p, ctx.len) {
        None => Some((None, p)),
        Some(q) => b.0.end(q, ctx.len).map(|e| (Some(b.0.val(q, ctx.len)), e)),
    });
    kani::cover!(matches!(exp, Some((Some(_), _))));
    kani::cover!(matches!(exp, Some((None, _))));
    check_ctor(&a.if_then(t, b)._0(), ctx, exp.map(|(_, e)| (a.0.val(ctx.off, ctx.len), e)));
    check_ctor::<_, Option<V>>(&a.if_then(t, b)._1(), ctx, exp);
}
/// the equality-checked pair: exactly the pairs of equal values
#[kani::proof]
fn sel_eq() {
    #[derive(Clone, Copy)]
    struct Val<'o>(&'o Orc, u8);
    impl<'o> Regex<AC> for Val<'o> {
        fn try_parse(&self, ctx: &mut AC) -> Result<neure::span::Span, neure::err::Error> {
            R(self.0).try_parse(ctx)
        }
    }
    impl<'o> neure::ctor::Ctor<AC, u8, Hd> for Val<'o> {
        fn construct(&self, ctx: &mut AC, _: &mut Hd) -> Result<u8, neure::err::Error> {
            R(self.0).try_parse(ctx).map(|_| self.1)
        }
    }
    setup!(a b c ctx);
    let (x, y): (u8, u8) = (kani::any(), kani::any());
    let (va, vc) = (Val(a.0, x), Val(c.0, y));
    let exp = seq_spec!(ctx; a, c).filter(|_| x == y).map(|e| ((x, y), e));
    kani::cover!(exp.is_some());
    check_ctor(&va.then(vc)._eq::<u8, u8>(), ctx, exp);
    let exp = seq_spec!(ctx; a, b, c).filter(|_| x == y).map(|e| ((x, y), e));
    kani::cover!(exp.is_some());
    check_ctor(&va.sep_once(b, vc)._eq::<u8, u8>(), ctx, exp);
}
/// the white-space shortcuts: the pattern with the white space after (before) it
fn skip_ws_case(all: bool) {
    use neure::ctx::Match as _;
    kani::cover!(true, "BOUND: inputs of 3 characters");
    let mut b = [0u8; 3];
    let mut i = 0;
    while i < 3 {
        b[i] = [b' ', b'\t', b'a', 0x0b][(kani::any::<u8>() & 3) as usize];
        i += 1;
    }
    let t = unsafe { core::str::from_utf8_unchecked(&b) };
    // 0x0b (vertical tab) is white space, but not ASCII white space as the standard library defines it
    let run = |ascii: bool, mut p: usize| {
        while p < 3 && (b[p] == b' ' || b[p] == b'\t' || (!ascii && b[p] == 0x0b)) {
            p += 1;
        }
        p
    };
    macro_rules! chk {
        ($ascii:literal $after:ident $before:ident) => {
            let mut c = CharsCtx::new(t);
            let r = c.try_mat(&"a".$after());
            let exp = if b[0] == b'a' { Some(run($ascii, 1)) } else { None };
            assert!(r.ok().map(|s| s.beg + s.len) == exp && c.offset() == exp.unwrap_or(0), "not the pattern and the white space after it");
            let mut c = CharsCtx::new(t);
            let r = c.try_mat(&"a".$before());
            let w = run($ascii, 0);
            let exp = if w < 3 && b[w] == b'a' { Some(w + 1) } else { None };
            kani::cover!(w > 1 && exp.is_some());
            assert!(r.ok().map(|s| s.beg + s.len) == exp && c.offset() == exp.unwrap_or(0), "not the white space and the pattern after it");
        };
    }
    if all {
        chk!(false skip_ws skip_ws_leading);
    } else {
        chk!(true skip_ascii_ws skip_ascii_ws_leading);
    }
}
#[kani::proof]
#[kani::unwind(6)]
fn skip_ws() {
    skip_ws_case(true);
}
#[kani::proof]
#[kani::unwind(6)]
fn skip_ascii_ws() {
    skip_ws_case(false);
}

/// if_then: the first part, then the test; the continuation only when the test matched
#[kani::proof]
fn if_then_parse() {
    setup!(a t b ctx);
    let exp = match a.0.end(ctx.off, ctx.len) {
        None => None,
        Some(p) => match t.0.end(p, ctx.len) {
            None => Some(p),
            Some(q) => b.0.end(q, ctx.len),
        },
    };
    kani::cover!(exp.is_some(), "success reachable");
    kani::cover!(exp.is_none(), "failure reachable");
    check_parse(&a.if_then(t, b), ctx, exp);
}
#[kani::proof]
fn if_then_ctor() {
    setup!(a t b ctx);
    let exp = match a.0.end(ctx.off, ctx.len) {
        None => None,
        Some(p) => {
            let va = a.0.val(ctx.off, ctx.len);
            match t.0.end(p, ctx.len) {
                None => Some(((va, None), p)),
                Some(q) => b.0.end(q, ctx.len).map(|e| ((va, Some(b.0.val(q, ctx.len))), e)),
            }
        }
    };
    kani::cover!(matches!(exp, Some(((_, Some(_)), _))), "continuation reachable");
    kani::cover!(matches!(exp, Some(((_, None), _))), "test failing reachable");
    kani::cover!(exp.is_none(), "failure reachable");
    check_ctor(&a.if_then(t, b), ctx, exp);
}

// accessors / in-place replacement of the parts change exactly the part they name: the parts log the order they run in
#[derive(Clone, Copy)]
struct Tag<'o>(u8, &'o core::cell::Cell<u32>);
impl<'o> Regex<AC> for Tag<'o> {
    fn try_parse(&self, ctx: &mut AC) -> Result<neure::span::Span, neure::err::Error> {
        self.1.set(self.1.get() * 10 + self.0 as u32);
        // the test of an if_then that must not match
        if self.0 == 4 { Err(neure::err::Error::Uid(4)) } else { Ok(neure::span::Span::new(ctx.off, 0)) }
    }
}
fn order<P: Regex<AC>>(p: &P, log: &core::cell::Cell<u32>, exp: u32) {
    log.set(0);
    let mut c = AC { len: 3, off: 1 };
    assert!(c.try_mat(p).is_ok());
    assert!(log.get() == exp, "the parts are not those set, in order");
}
macro_rules! tags {
    ($a:ident $b:ident $c:ident $log:ident) => {
        let log = core::cell::Cell::new(0);
        let ($a, $b, $c) = (Tag(1, &log), Tag(2, &log), Tag(3, &log));
        let $log = &log;
    };
}
#[kani::proof]
fn setters() {
    tags!(a b c log);
    let mut p = a.then(b);
    order(&p, log, 12);
    p.set_right(c);
    order(&p, log, 13);
    p.set_left(c).set_right(b);
    order(&p, log, 32);
    *p.left_mut() = b;
    *p.right_mut() = a;
    order(&p, log, 21);
    assert!(p.left().0 == 2 && p.right().0 == 1);
}
#[kani::proof]
fn setters_affix() {
    tags!(a b c log);
    let mut p = a.prefix(a);
    p.set_pat(b).set_prefix(c);
    order(&p, log, 32);
    *p.pat_mut() = c;
    *p.prefix_mut() = b;
    order(&p, log, 23);
    let mut p = a.suffix(a);
    p.set_pat(b).set_suffix(c);
    order(&p, log, 23);
    *p.pat_mut() = c;
    *p.suffix_mut() = b;
    order(&p, log, 32);
    assert!((&p).pat().0 == 3 && (&p).suffix().0 == 2);
}
#[kani::proof]
fn setters_enclose() {
    tags!(a b c log);
    let mut p = a.enclose(a, a);
    p.set_pat(b).set_open(c);
    order(&p, log, 321);
    p.set_close(b);
    *p.pat_mut() = a;
    order(&p, log, 312);
    *p.open_mut() = b;
    *p.close_mut() = c;
    order(&p, log, 213);
    assert!((&p).pat().0 == 1 && p.open().0 == 2 && p.close().0 == 3);
}
#[kani::proof]
fn setters_sep_once() {
    tags!(a b c log);
    let mut p = a.sep_once(a, a);
    p.set_sep(b).set_right(c);
    order(&p, log, 123);
    p.set_left(b);
    *p.sep_mut() = c;
    *p.right_mut() = a;
    order(&p, log, 231);
    *p.left_mut() = c;
    order(&p, log, 331);
    assert!(p.left().0 == 3 && (&p).sep().0 == 3 && p.right().0 == 1);
}
#[kani::proof]
fn setters_if_then() {
    tags!(a b c log);
    let mut p = a.if_then(a, a);
    order(&p, log, 111);
    p.set_test(b).set_right(c);
    order(&p, log, 123);
    p.set_left(b);
    *p.test_mut() = c;
    *p.right_mut() = a;
    order(&p, log, 231);
    *p.left_mut() = c;
    order(&p, log, 331);
    p.set_test(Tag(4, log));
    order(&p, log, 34);
    assert!(p.left().0 == 3 && p.test().0 == 4 && p.right().0 == 1);
}
