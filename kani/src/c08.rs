//! C08 lookahead never consumes and reports exactly whether the pattern matches.
use crate::abs::*;
use crate::combos::*;
use crate::setup;
use crate::spec::*;
use neure::ctx::Assert as _;
use neure::err::Error;
use neure::prelude::*;
use neure::regex as rx;

/// zero-width pattern that succeeds iff `ok`
fn zw<P: Regex<AC> + neure::ctor::Ctor<AC, Span, Hd>>(p: &P, c0: AC, ok: bool) {
    kani::cover!(ok, "success reachable");
    kani::cover!(!ok, "failure reachable");
    check_parse(p, c0, if ok { Some(c0.off) } else { None });
    check_ctor(p, c0, if ok { Some((Span::new(c0.off, 0), c0.off)) } else { None });
    // a rejecting handler fails without moving
    let mut c = c0;
    assert!(c.ctor_handler(p, Hd { fail: true }).is_err());
    assert!(c == c0, "position moved");
}
#[kani::proof]
fn peek_() {
    setup!(a _b _c ctx);
    zw(&rx::peek(a), ctx, a.0.f(ctx.off, ctx.len).is_some());
}
#[kani::proof]
fn not_() {
    setup!(a _b _c ctx);
    zw(&rx::not(a), ctx, a.0.f(ctx.off, ctx.len).is_none());
}
#[kani::proof]
fn assert_value() {
    setup!(a _b _c ctx);
    let v: bool = kani::any();
    zw(&rx::assert(a, v), ctx, a.0.f(ctx.off, ctx.len).is_some() == v);
    zw(&rx::peek(a).with_value(v), ctx, a.0.f(ctx.off, ctx.len).is_some() == v);
}
#[kani::proof]
fn not_not() {
    setup!(a _b _c ctx);
    let m = a.0.f(ctx.off, ctx.len).is_some();
    zw(&rx::not(rx::not(a)), ctx, m);
    zw(&!rx::not(a), ctx, m);
}
#[kani::proof]
fn not_peek() {
    setup!(a _b _c ctx);
    let m = a.0.f(ctx.off, ctx.len).is_some();
    zw(&rx::not(rx::peek(a)), ctx, !m);
    zw(&rx::peek(rx::not(a)), ctx, !m);
    zw(&!rx::peek(a), ctx, !m);
}

/// the `!` operator of a combinator is its negative lookahead
macro_rules! bang {
    ($name:ident, $u:literal, |$a:ident, $b:ident, $c:ident, $k:ident| $e:expr) => {
        #[kani::proof]
        #[kani::unwind($u)]
        fn $name() {
            setup!(new 3; $a $b $c ctx);
            let $k = K::any();
            let mut c = ctx;
            let m = c.try_mat(&$e).is_ok();
            kani::cover!(m, "match reachable");
            kani::cover!(!m, "mismatch reachable");
            let mut c = ctx;
            let r = c.try_mat(&!$e);
            assert!(r.is_ok() != m, "negation must match exactly when the pattern does not");
            assert!(c == ctx, "negation moved the position");
            if let Ok(s) = r {
                assert!(s == Span::new(ctx.off, 0), "negation must be empty");
            }
            let _ = ($a, $b, $c, $k);
        }
    };
}
bang!(bang_then, 3, |a, b, c, k| a.then(b));
bang!(bang_if_then, 3, |a, b, c, k| a.if_then(b, c));
bang!(bang_or, 3, |a, b, c, k| a.or(b));
bang!(bang_longest, 3, |a, b, c, k| a.longest(b));
bang!(bang_enclose, 3, |a, b, c, k| a.enclose(b, c));
bang!(bang_prefix, 3, |a, b, c, k| a.prefix(b));
bang!(bang_suffix, 3, |a, b, c, k| a.suffix(b));
bang!(bang_sep_once, 3, |a, b, c, k| a.sep_once(b, c));
bang!(bang_pat, 3, |a, b, c, k| a.pat());
bang!(bang_if_else, 3, |a, b, c, k| a.if_else(move |_: &AC| k.t, b));
bang!(bang_repeat2, 5, |a, b, c, k| a.repeat2::<1, 2>());
bang!(bang_sep2, 4, |a, b, c, k| a.sep2::<_, 1, 1>(b).with_skip(k.skip));
bang!(bang_consume, 3, |a, b, c, k| rx::consume(k.lo));
bang!(bang_end, 3, |a, b, c, k| rx::end());
bang!(bang_start, 3, |a, b, c, k| rx::start());
bang!(bang_map, 3, |a, b, c, k| a.try_map::<_, V>(move |v: V| k.conv(v)));

/// a pattern that always matches: its negation never does
#[kani::proof]
fn bang_opt() {
    setup!(a _b _c ctx);
    let mut c = ctx;
    assert!(c.try_mat(&!a.opt()).is_err() && c == ctx, "negated optional must fail");
    assert!(c.try_mat(&!rx::consume_all()).is_err() && c == ctx);
    assert!(c.try_mat(&!rx::empty()).is_err() && c == ctx);
    assert!(c.try_mat(&!rx::fail()).unwrap() == Span::new(ctx.off, 0) && c == ctx);
}

/// the context's own assertion calls; the pattern may leave the position anywhere on failure
#[kani::proof]
fn ctx_assert() {
    setup!(a _b _c ctx);
    let m = a.0.f(ctx.off, ctx.len).is_some();
    kani::cover!(m);
    kani::cover!(!m);
    let mut c = ctx;
    assert!(c.try_assert(&a) == Ok(m), "try_assert must report whether the pattern matches");
    assert!(c == ctx, "try_assert moved the position");
    assert!(c.assert(&a) == m, "assert must report whether the pattern matches");
    assert!(c == ctx, "assert moved the position");
}
#[kani::proof]
fn ctx_assert_misbehaving_pattern() {
    let ctx = AC::any();
    let (to, ok): (usize, bool) = (kani::any(), kani::any());
    kani::assume(to <= ctx.len);
    let pat = move |c: &mut AC| {
        c.off = to;
        if ok { Ok(Span::new(0, 0)) } else { Err(Error::Uid(9)) }
    };
    let mut c = ctx;
    assert!(c.try_assert(&pat) == Ok(ok) && c == ctx, "try_assert must restore the position");
    assert!(c.assert(&pat) == ok && c == ctx, "assert must restore the position");
    assert!(c.try_mat(&rx::peek(pat)).is_ok() == ok && c == ctx, "peek must restore the position");
    assert!(c.try_mat(&rx::not(pat)).is_ok() != ok && c == ctx, "not must restore the position");
}
/// is_mat is try_mat's success
#[kani::proof]
fn is_mat_agrees() {
    setup!(a _b _c ctx);
    let m = a.0.end(ctx.off, ctx.len);
    let mut c = ctx;
    assert!(c.is_mat(&a) == m.is_some());
    assert!(c.off == m.unwrap_or(ctx.off));
    let mut c = ctx;
    assert!(a.parse(&mut c) == m.is_some());
    assert!(c.off == m.unwrap_or(ctx.off));
}

/// replacing the pattern or the value later
#[kani::proof]
fn setters() {
    setup!(a b _c ctx);
    let m = b.0.f(ctx.off, ctx.len).is_some();
    let mut p = rx::peek(a);
    p.set_pat(b);
    check_parse(&p, ctx, if m { Some(ctx.off) } else { None });
    p.set_value(false);
    check_parse(&p, ctx, if m { None } else { Some(ctx.off) });
    let m = a.0.f(ctx.off, ctx.len).is_some();
    *p.pat_mut() = a;
    check_parse(&p, ctx, if m { None } else { Some(ctx.off) });
    assert!((&p).pat().0.id == 1 && !p.value() && p.with_value(true).value());
}
/// `!` on the list forms and the repetitions
macro_rules! bang_rem {
    ($name:ident, $u:literal, |$a:ident, $b:ident, $k:ident| $e:expr) => {
        #[kani::proof]
        #[kani::unwind($u)]
        fn $name() {
            let ctx = AC::any_rem(2);
            let (oa, ob) = (Orc::dense(1, &ctx, 2, 1), Orc::dense(2, &ctx, 2, 1));
            let ($a, $b) = (R(&oa), R(&ob));
            let $k = K::any();
            let mut c = ctx;
            let m = c.try_mat(&$e).is_ok();
            kani::cover!(m, "match reachable");
            kani::cover!(!m, "mismatch reachable");
            let mut c = ctx;
            let r = c.try_mat(&!$e);
            assert!(r.is_ok() != m, "negation must match exactly when the pattern does not");
            assert!(c == ctx, "negation moved the position");
            if let Ok(s) = r {
                assert!(s == Span::new(ctx.off, 0), "negation must be empty");
            }
            let _ = ($a, $b, $k);
        }
    };
}
bang_rem!(bang_array, 4, |a, b, k| rx::array([a, b]));
bang_rem!(bang_array_ltm, 4, |a, b, k| rx::array_ltm([a, b]));
bang_rem!(bang_slice, 4, |a, b, k| rx::slice(&[a, b]));
bang_rem!(bang_vector, 4, |a, b, k| rx::vector([a, b]));
bang_rem!(bang_pair_array, 4, |a, b, k| rx::pair_array([(a, 1), (b, 2)]));
bang_rem!(bang_pair_slice, 4, |a, b, k| rx::pair_slice(&[(a, 1), (b, 2)]));
bang_rem!(bang_pair_vector, 4, |a, b, k| rx::pair_vector([(a, 1), (b, 2)]));
bang_rem!(bang_repeat, 4, |a, b, k| a.repeat(1..3));
bang_rem!(bang_collect, 4, |a, b, k| a.collect::<V, Col>());
bang_rem!(bang_sep, 4, |a, b, k| a.sep(b).with_skip(k.skip));
bang_rem!(bang_sep_collect, 4, |a, b, k| a.sep_collect::<_, V, Col>(b).with_skip(k.skip));
bang_rem!(bang_adapter, 4, |a, b, k| rx::Adapter::new(a));
/// `!` on the quantified units and the literal, on a real input
#[kani::proof]
#[kani::unwind(5)]
fn bang_real() {
    use neure::neu::NeuIntoRegexOps as Q;
    kani::cover!(true, "BOUND: inputs of 2 bytes");
    let b: [u8; 2] = kani::any();
    let n = (kani::any::<u8>() & 3) as usize;
    kani::assume(n <= 2);
    let one = n > 0 && b[0] == b'a';
    let two = one && n > 1 && b[1] == b'a';
    kani::cover!(two);
    kani::cover!(one && !two);
    macro_rules! chk {
        ($($e:expr => $m:expr;)*) => { $({
            let mut c = BytesCtx::new(&b[..n]);
            let r = c.try_mat(&!$e);
            assert!(r.is_ok() != $m, "negation must match exactly when the pattern does not");
            assert!(c.offset() == 0 && (r.is_err() || r.unwrap() == Span::new(0, 0)), "negation moved the position");
        })* };
    }
    chk! {
        Q::<BytesCtx>::once(b'a') => one;
        Q::<BytesCtx>::many1(b'a') => one;
        Q::<BytesCtx>::opt(b'a') => true;
        Q::<BytesCtx>::many0(b'a') => true;
        Q::<BytesCtx>::count::<2>(b'a') => two;
        Q::<BytesCtx>::times(b'a', 2..) => two;
        Q::<BytesCtx>::then(b'a', b'a') => two;
        rx::literal(b"aa") => two;
    }
}
