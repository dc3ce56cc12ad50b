//! C19: skipping policies.
use crate::abs::*;
use crate::combos::Hd;
use neure::ctor::Ctor;
use neure::ctx::{Context, Match, MatchExt, PolicyCtx, PolicyMatch};
use neure::err::Error;
use neure::prelude::*;
use neure::regex::Regex;
use neure::span::Span;

type PC<'o> = PolicyCtx<AC, R<'o>>;

/// a leaf pattern: constructs by matching on the context, as every leaf does
#[derive(Clone, Copy)]
struct Leaf<'o>(&'o Orc);
impl<'o, 'a, C: Context<'a>> Regex<C> for Leaf<'o> {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        R(self.0).try_parse(ctx)
    }
}
impl<'o, 'a, C: Match<'a>, H> Ctor<C, V, H> for Leaf<'o> {
    fn construct(&self, ctx: &mut C, _: &mut H) -> Result<V, Error> {
        let s = ctx.try_mat(self)?;
        Ok(V { id: self.0.id, beg: s.beg, len: s.len })
    }
}

/// spec: skip, then the pattern; (begin, end) of the pattern itself
fn skip(s: &Orc, p: usize, len: usize) -> Option<usize> {
    s.end(p, len)
}
fn m(s: &Orc, o: &Orc, p: usize, len: usize) -> Option<(usize, usize)> {
    let b = skip(s, p, len)?;
    Some((b, o.end(b, len)?))
}
fn chk(r: Result<Span, Error>, c: &PC, c0: AC, exp: Option<(usize, usize)>) {
    assert!(c.inner().len == c0.len);
    match (r, exp) {
        (Ok(s), Some((b, e))) => {
            assert!(s.beg == b && s.len == e - b, "span is not exactly the pattern itself");
            assert!(c.offset() == e, "wrong position after the match");
        }
        (Err(_), None) => assert!(c.offset() == c0.off, "failure moved the position"),
        (Ok(_), None) => panic!("must fail but matches"),
        (Err(_), Some(_)) => panic!("must match but fails"),
    }
}
fn chk_v<O: PartialEq>(r: Result<O, Error>, c: &PC, c0: AC, exp: Option<(O, usize)>) {
    match (r, exp) {
        (Ok(v), Some((x, e))) => {
            assert!(v == x, "wrong value");
            assert!(c.offset() == e, "wrong position after the construction");
        }
        (Err(_), None) => assert!(c.offset() == c0.off, "failure moved the position"),
        (Ok(_), None) => panic!("must fail but constructs"),
        (Err(_), Some(_)) => panic!("must construct but fails"),
    }
}
fn val(o: &Orc, be: (usize, usize)) -> V {
    V { id: o.id, beg: be.0, len: be.1 - be.0 }
}

macro_rules! policy {
    ($cap:literal; $($name:ident |$s:ident, $a:ident, $b:ident, $d:ident, $c0:ident, $c:ident| $body:block)*) => { $(
        #[kani::proof]
        #[kani::unwind(3)]
        fn $name() {
            let ($s, $a, $b, $d) = (Orc::new(1, $cap, 0), Orc::new(2, $cap, 0), Orc::new(3, $cap, 0), Orc::new(4, $cap, 0));
            let ($s, $a, $b, $d) = (&$s, &$a, &$b, &$d);
            let $c0 = AC::any();
            let mut $c: PC = PolicyCtx::new($c0, R($s));
            $body
        }
    )* };
}

policy! { 5;
    plain |s, a, _b, _d, c0, c| {
        let r = c.try_mat(&R(a));
        chk(r, &c, c0, m(s, a, c0.off, c0.len));
    }
    dynamic |s, a, _b, _d, c0, c| {
        let h = R(a);
        let d: &dyn Regex<PC> = &h;
        let r = c.try_mat(d);
        chk(r, &c, c0, m(s, a, c0.off, c0.len));
    }
    question |s, a, _b, _d, c0, c| {
        let r = c.is_mat(&R(a));
        let exp = m(s, a, c0.off, c0.len);
        assert!(r == exp.is_some() && c.offset() == exp.map_or(c0.off, |e| e.1), "wrong answer");
    }
    // a pattern of the user's that fails after having moved the position
    sloppy |s, _a, _b, _d, c0, c| {
        let to: usize = kani::any();
        kani::assume(to <= c0.len);
        let r = c.try_mat(&move |c: &mut PC| { c.set_offset(to); Err::<Span, _>(Error::Uid(6)) });
        assert!(r.is_err() && c.offset() == c0.off, "failure moved the position");
        let _ = skip(s, c0.off, c0.len);
    }
    leaf_value |s, a, _b, _d, c0, c| {
        let r: Result<V, Error> = c.ctor_handler(&Leaf(a), Hd { fail: false });
        chk_v(r, &c, c0, m(s, a, c0.off, c0.len).map(|be| (val(a, be), be.1)));
    }
    mapped |s, a, _b, _d, c0, c| {
        let r: Result<Span, Error> = c.map_handler(&R(a), Hd { fail: false });
        chk_v(r, &c, c0, m(s, a, c0.off, c0.len).map(|be| (Span::new(be.0, be.1 - be.0), be.1)));
    }
    in_then |s, a, b, _d, c0, c| {
        let r = c.try_mat(&R(a).then(R(b)));
        let exp = (|| {
            let p = skip(s, c0.off, c0.len)?;
            let x = m(s, a, p, c0.len)?;
            let y = m(s, b, x.1, c0.len)?;
            Some((x.0, y.1))
        })();
        chk(r, &c, c0, exp);
    }
    in_then_value |s, a, b, _d, c0, c| {
        let r: Result<(V, V), Error> = c.ctor_handler(&Leaf(a).then(Leaf(b)), Hd { fail: false });
        let exp = (|| {
            let x = m(s, a, c0.off, c0.len)?;
            let y = m(s, b, x.1, c0.len)?;
            Some(((val(a, x), val(b, y)), y.1))
        })();
        chk_v(r, &c, c0, exp);
    }
    in_enclose |s, a, b, d, c0, c| {
        let r = c.try_mat(&R(a).enclose(R(b), R(d)));
        let exp = (|| {
            let p = skip(s, c0.off, c0.len)?;
            let x = m(s, b, p, c0.len)?;
            let y = m(s, a, x.1, c0.len)?;
            let z = m(s, d, y.1, c0.len)?;
            Some((x.0, z.1))
        })();
        chk(r, &c, c0, exp);
    }
    in_enclose_value |s, a, b, d, c0, c| {
        let r: Result<V, Error> = c.ctor_handler(&Leaf(a).enclose(R(b), R(d)), Hd { fail: false });
        let exp = (|| {
            let x = m(s, b, c0.off, c0.len)?;
            let y = m(s, a, x.1, c0.len)?;
            let z = m(s, d, y.1, c0.len)?;
            Some((val(a, y), z.1))
        })();
        chk_v(r, &c, c0, exp);
    }
    in_prefix |s, a, b, _d, c0, c| {
        let r = c.try_mat(&R(a).prefix(R(b)));
        let exp = (|| {
            let p = skip(s, c0.off, c0.len)?;
            let x = m(s, b, p, c0.len)?;
            let y = m(s, a, x.1, c0.len)?;
            Some((x.0, y.1))
        })();
        chk(r, &c, c0, exp);
    }
    in_suffix_value |s, a, b, _d, c0, c| {
        let r: Result<V, Error> = c.ctor_handler(&Leaf(a).suffix(R(b)), Hd { fail: false });
        let exp = (|| {
            let x = m(s, a, c0.off, c0.len)?;
            let y = m(s, b, x.1, c0.len)?;
            Some((val(a, x), y.1))
        })();
        chk_v(r, &c, c0, exp);
    }
    in_or |s, a, b, _d, c0, c| {
        let r = c.try_mat(&R(a).or(R(b)));
        let exp = (|| {
            let p = skip(s, c0.off, c0.len)?;
            m(s, a, p, c0.len).or_else(|| m(s, b, p, c0.len))
        })();
        chk(r, &c, c0, exp);
    }
    in_or_value |s, a, b, _d, c0, c| {
        let r: Result<V, Error> = c.ctor_handler(&Leaf(a).or(Leaf(b)), Hd { fail: false });
        let exp = m(s, a, c0.off, c0.len).map(|x| (val(a, x), x.1))
            .or_else(|| m(s, b, c0.off, c0.len).map(|x| (val(b, x), x.1)));
        chk_v(r, &c, c0, exp);
    }
    in_opt_value |s, a, _b, _d, c0, c| {
        let r: Result<Option<V>, Error> = c.ctor_handler(&Leaf(a).opt(), Hd { fail: false });
        let exp = m(s, a, c0.off, c0.len).map(|x| (Some(val(a, x)), x.1)).or(Some((None, c0.off)));
        chk_v(r, &c, c0, exp);
    }
    in_not |s, a, _b, _d, c0, c| {
        let r = c.try_mat(&neure::regex::not(R(a)));
        let p = skip(s, c0.off, c0.len);
        let exp = p.and_then(|p| if m(s, a, p, c0.len).is_none() { Some((p, p)) } else { None });
        chk(r, &c, c0, exp);
    }
    in_longest |s, a, b, _d, c0, c| {
        let r = c.try_mat(&R(a).longest(R(b)));
        let exp = (|| {
            let p = skip(s, c0.off, c0.len)?;
            match (m(s, a, p, c0.len), m(s, b, p, c0.len)) {
                // both begin at the same place (same policy, same position)
                (Some(x), Some(y)) => Some(if x.1 >= y.1 { x } else { y }),
                (x, y) => x.or(y),
            }
        })();
        chk(r, &c, c0, exp);
    }
    before_after |s, a, b, d, c0, c| {
        let r = c.try_mat_policy(&R(a), &R(b), &R(d));
        let exp = (|| {
            let p = b.end(c0.off, c0.len)?;
            let q = a.end(p, c0.len)?;
            let e = d.end(q, c0.len)?;
            Some((p, q, e))
        })();
        match (r, exp) {
            (Ok(x), Some((p, q, e))) => {
                assert!(x == Span::new(p, q - p), "span is not exactly the pattern itself");
                assert!(c.offset() == e, "wrong position");
            }
            (Err(_), None) => assert!(c.offset() == c0.off, "failure moved the position"),
            _ => panic!("wrong outcome"),
        }
        let _ = s;
    }
    only_before |s, a, b, _d, c0, c| {
        let r = c.try_mat_before(&R(a), &R(b));
        let exp = b.end(c0.off, c0.len).and_then(|p| a.end(p, c0.len).map(|q| (p, q)));
        chk(r, &c, c0, exp);
        let _ = s;
    }
    only_after |s, a, b, _d, c0, c| {
        let r = c.try_mat_after(&R(a), &R(b));
        let exp = a.end(c0.off, c0.len).and_then(|q| b.end(q, c0.len).map(|e| (q, e)));
        match (r, exp) {
            (Ok(x), Some((q, e))) => {
                assert!(x == Span::new(c0.off, q - c0.off), "span is not exactly the pattern itself");
                assert!(c.offset() == e, "wrong position");
            }
            (Err(_), None) => assert!(c.offset() == c0.off, "failure moved the position"),
            _ => panic!("wrong outcome"),
        }
        let _ = s;
    }
    // the context itself is the wrapped one
    faithful |s, _a, _b, _d, c0, c| {
        assert!(c.len() == c0.len && c.offset() == c0.off);
        assert!(*c.inner() == c0);
        let (x, l): (usize, usize) = kani::any();
        assert!(c.orig_sub(x, l) == c0.orig_sub(x, l) && c.peek_at(x).is_ok() == c0.peek_at(x).is_ok());
        assert!(c.orig_at(x) == c0.orig_at(x));
        c.set_offset(x);
        assert!(c.offset() == x);
        kani::assume(l <= usize::MAX - x);
        c.inc(l);
        assert!(c.offset() == x + l);
        c.dec(l);
        assert!(c.offset() == x && c.len() == c0.len);
        let k = c.clone_at(l).unwrap();
        assert!(k.offset() == l && k.len() == c0.len);
        let _ = s;
    }
    other_policy |s, a, b, _d, c0, c| {
        let mut c = c.with_regex(R(b));
        let r = c.try_mat(&R(a));
        chk(r, &c, c0, m(b, a, c0.off, c0.len));
        let c1 = AC::any();
        let mut c = c.with_inner(c1);
        assert!(c.inner().off == c1.off && c.inner_mut().len == c1.len);
        c.reset_with(c0);
        c.set_inner(c0);
        assert!(*c.inner() == c0);
        let _ = s;
    }
}

/// repetition: every element is preceded by what the policy skips
#[kani::proof]
#[kani::unwind(6)]
fn in_repeat() {
    let c0 = AC::any_rem(3);
    let (s, a) = (Orc::dense(1, &c0, 3, 0), Orc::dense(2, &c0, 3, 0));
    let mut c: PC = PolicyCtx::new(c0, R(&s));
    let r: Result<[Option<V>; 2], Error> = c.ctor_handler(&Leaf(&a).repeat2::<1, 2>(), Hd { fail: false });
    let exp = m(&s, &a, c0.off, c0.len).map(|x| match m(&s, &a, x.1, c0.len) {
        Some(y) => ([Some(val(&a, x)), Some(val(&a, y))], y.1),
        None => ([Some(val(&a, x)), None], x.1),
    });
    chk_v(r, &c, c0, exp);
}
#[kani::proof]
#[kani::unwind(6)]
fn in_sep() {
    let c0 = AC::any_rem(3);
    let (s, a, b) = (Orc::dense(1, &c0, 3, 0), Orc::dense(2, &c0, 3, 0), Orc::dense(3, &c0, 3, 0));
    let mut c: PC = PolicyCtx::new(c0, R(&s));
    let r: Result<[Option<V>; 2], Error> = c.ctor_handler(&Leaf(&a).sep2::<_, 1, 2>(R(&b)), Hd { fail: false });
    // an element, then (separator, element) if both are there; a trailing separator is consumed
    let exp = m(&s, &a, c0.off, c0.len).map(|x| match m(&s, &b, x.1, c0.len) {
        Some(y) => match m(&s, &a, y.1, c0.len) {
            Some(z) => (Some(val(&a, z)), z.1, x),
            None => (None, y.1, x),
        },
        None => (None, x.1, x),
    });
    let ok = r.is_ok();
    assert!(ok == exp.is_some(), "wrong outcome");
    if let (Ok(v), Some((z, _, x))) = (r, exp) {
        assert!(v[0] == Some(val(&a, x)) && v[1] == z, "wrong values");
    } else {
        assert!(c.offset() == c0.off, "failure moved the position");
    }
}

/// the provided policies on real input: skipping white space before every match
mod real {
    use super::*;
    const L: usize = 3;
    fn any(b: &mut [u8; L]) {
        kani::cover!(true, "BOUND: inputs of 3 bytes");
        let mut i = 0;
        while i < L {
            b[i] = [b' ', b'\n', b'a', b'b'][(kani::any::<u8>() & 3) as usize];
            i += 1;
        }
    }
    fn ws(b: &[u8; L], mut p: usize) -> usize {
        while p < L && (b[p] == b' ' || b[p] == b'\n') {
            p += 1;
        }
        p
    }
    fn case<'a, C: Match<'a>>(c: &mut C, b: &[u8; L], lit: impl Regex<C>) {
        let r = c.try_mat(&lit);
        let p = ws(b, 0);
        if p < L && b[p] == b'a' {
            assert!(r == Ok(Span::new(p, 1)) && c.offset() == p + 1, "white space not skipped before the match");
            let r = c.try_mat(&lit);
            let q = ws(b, p + 1);
            if q < L && b[q] == b'a' {
                assert!(r == Ok(Span::new(q, 1)) && c.offset() == q + 1, "white space not skipped before the second match");
            } else {
                assert!(r.is_err() && c.offset() == p + 1, "failed match moved the position");
            }
        } else {
            assert!(r.is_err() && c.offset() == 0, "failed match moved the position");
        }
    }
    #[kani::proof]
    #[kani::unwind(6)]
    fn bytes_ascii_ws() {
        let mut b = [0; L];
        any(&mut b);
        case(&mut BytesCtx::new(&b).skip_ascii_whitespace(), &b, b"a");
    }
    #[kani::proof]
    #[kani::unwind(6)]
    fn text_ascii_ws() {
        let mut b = [0; L];
        any(&mut b);
        let t = unsafe { core::str::from_utf8_unchecked(&b) };
        case(&mut CharsCtx::new(t).skip_ascii_whitespace(), &b, "a");
    }
    #[kani::proof]
    #[kani::unwind(6)]
    fn text_ws() {
        let mut b = [0; L];
        any(&mut b);
        let t = unsafe { core::str::from_utf8_unchecked(&b) };
        case(&mut CharsCtx::new(t).skip_whitespace(), &b, "a");
    }
    #[kani::proof]
    #[kani::unwind(6)]
    fn bytes_any_policy() {
        let mut b = [0; L];
        any(&mut b);
        case(&mut BytesCtx::new(&b).skip_before(neure::regex::many0(|c: &u8| *c == b' ' || *c == b'\n')), &b, b"a");
    }
    /// before / after on the plain contexts
    #[kani::proof]
    #[kani::unwind(6)]
    fn before_after() {
        kani::cover!(true, "BOUND: inputs of 3 bytes");
        let b = [0u8; 3];
        let c0 = AC { len: 3, off: (kani::any::<u8>() & 3) as usize };
        let (x, y, z) = (Orc::dense(1, &c0, 3, 0), Orc::dense(2, &c0, 3, 0), Orc::dense(3, &c0, 3, 0));
        let mut c = BytesCtx::new(&b);
        c.set_offset(c0.off);
        let r = c.try_mat_policy(&R(&x), &R(&y), &R(&z));
        let exp = (|| {
            let p = y.end(c0.off, 3)?;
            let q = x.end(p, 3)?;
            Some((p, q, z.end(q, 3)?))
        })();
        match (r, exp) {
            (Ok(s), Some((p, q, e))) => assert!(s == Span::new(p, q - p) && c.offset() == e, "wrong match"),
            (Err(_), None) => assert!(c.offset() == c0.off, "failure moved the position"),
            _ => panic!("wrong outcome"),
        }
        c.set_offset(c0.off);
        let r = c.try_mat_before(&R(&x), &R(&y));
        let exp = y.end(c0.off, 3).and_then(|p| x.end(p, 3).map(|q| (p, q)));
        match (r, exp) {
            (Ok(s), Some((p, q))) => assert!(s == Span::new(p, q - p) && c.offset() == q, "wrong match"),
            (Err(_), None) => assert!(c.offset() == c0.off, "failure moved the position"),
            _ => panic!("wrong outcome"),
        }
        c.set_offset(c0.off);
        let r = c.try_mat_after(&R(&x), &R(&z));
        let exp = x.end(c0.off, 3).and_then(|q| z.end(q, 3).map(|e| (q, e)));
        match (r, exp) {
            (Ok(s), Some((q, e))) => assert!(s == Span::new(c0.off, q - c0.off) && c.offset() == e, "wrong match"),
            (Err(_), None) => assert!(c.offset() == c0.off, "failure moved the position"),
            _ => panic!("wrong outcome"),
        }
    }
}

/// Every combinator: under the policy it does what it does without one over parts that skip first.
/// (What it does without a policy is the matter of the other properties.)
mod combinators {
    use super::*;
    use crate::combos::{Col, Hd, K};
    use crate::combos_both;
    #[derive(Clone, Copy)]
    struct Skips<'o>(&'o Orc, &'o Orc);
    impl<'o> Regex<AC> for Skips<'o> {
        fn try_parse(&self, c: &mut AC) -> Result<Span, Error> {
            match m(self.0, self.1, c.off, c.len) {
                Some((b, e)) => {
                    c.off = e;
                    Ok(Span::new(b, e - b))
                }
                None => Err(Error::Uid(1)),
            }
        }
    }
    impl<'o, H> Ctor<AC, V, H> for Skips<'o> {
        fn construct(&self, c: &mut AC, _: &mut H) -> Result<V, Error> {
            let s = self.try_parse(c)?;
            Ok(V { id: self.1.id, beg: s.beg, len: s.len })
        }
    }
    macro_rules! small {
        (full) => { AC::any() };
        ($rem:literal) => { AC::any_rem(2) };
    }
    macro_rules! small_orc {
        (full, $id:literal, $c:ident, $min:literal) => { Orc::new($id, 8, $min) };
        ($rem:literal, $id:literal, $c:ident, $min:literal) => { Orc::dense($id, &$c, 2, $min) };
    }
    fn same<O: PartialEq>(x: Result<O, Error>, c: &PC, y: Result<O, Error>, d: AC, c0: AC) {
        kani::cover!(y.is_ok() && d.off > c0.off);
        assert!(x.is_ok() == y.is_ok(), "matches where the skipping parts do");
        if x.is_ok() {
            assert!(x.ok() == y.ok(), "the result is not that of the parts");
            assert!(c.offset() == d.off, "wrong position after the match");
        } else {
            assert!(c.offset() == c0.off, "failure moved the position");
        }
    }
    macro_rules! h {
        // a look ahead constructs by matching itself
        (not_, $($t:tt)*) => { one! { parse, not_p, lead, do_parse, $($t)* } one! { construct, not_c, lead, do_build, $($t)* } };
        (peek_, $($t:tt)*) => { one! { parse, peek_p, lead, do_parse, $($t)* } one! { construct, peek_c, lead, do_build, $($t)* } };
        // too much for the solver with three alternatives on the heap: below with two
        (vector_, $($t:tt)*) => {};
        (vector_ltm_, $($t:tt)*) => {};
        (pair_vector_, $($t:tt)*) => {};
        (pair_vector_ltm_, $($t:tt)*) => {};
        // a vector of values: below with bytes
        (repeat_, $($t:tt)*) => { one! { parse, repeat_p, lead, do_parse, $($t)* } };
        (repeat_from_, $($t:tt)*) => { one! { parse, repeat_from_p, lead, do_parse, $($t)* } };
        (sep_, $($t:tt)*) => { one! { parse, sep_p, lead, do_parse, $($t)* } };
        ($name:ident, $($t:tt)*) => {
            mod $name {
                use super::*;
                one! { parse, parse, lead, do_parse, $($t)* }
                one! { construct, construct, none, do_build, $($t)* }
            }
        };
    }
    // the combinator itself is a match, too
    fn lead(s: &Orc, c0: AC) -> Option<usize> {
        skip(s, c0.off, c0.len)
    }
    fn none(_: &Orc, c0: AC) -> Option<usize> {
        Some(c0.off)
    }
    fn do_parse<'a, C: Match<'a>, P: Regex<C>>(p: &P, c: &mut C) -> Result<Span, Error> {
        c.try_mat(p)
    }
    fn do_build<'a, C: Match<'a>, P: Ctor<C, O, Hd>, O>(p: &P, c: &mut C) -> Result<O, Error> {
        c.ctor_handler(p, Hd { fail: false })
    }
    macro_rules! one {
        ($what:ident, $name:ident, $lead:ident, $run:ident, $u:literal, $rem:tt, $min:literal, |$a:ident, $b:ident, $c:ident, $k:ident| $e:expr) => {
            one! { $name, $lead, $run, $u, $rem, $min, Leaf, Skips, |$a, $b, $c, $k| $e }
        };
        ($name:ident, $lead:ident, $run:ident, $u:literal, $rem:tt, $min:literal, $L:ident, $S:ident, |$a:ident, $b:ident, $c:ident, $k:ident| $e:expr) => {
            #[kani::proof]
            #[kani::unwind($u)]
            #[allow(unused_variables)]
            fn $name() {
                let c0 = small!($rem);
                let (s, oa, ob, oc) = (small_orc!($rem, 1, c0, 0), small_orc!($rem, 2, c0, $min), small_orc!($rem, 3, c0, $min), small_orc!($rem, 4, c0, $min));
                let $k = K::any();
                let mut ctx: PC = PolicyCtx::new(c0, R(&s));
                let r = {
                    let ($a, $b, $c) = ($L(&oa), $L(&ob), $L(&oc));
                    $run(&$e, &mut ctx)
                };
                let mut plain = c0;
                let p = match $lead(&s, c0) {
                    None => Err(Error::Uid(1)),
                    Some(off) => {
                        plain.off = off;
                        let ($a, $b, $c) = ($S(&s, &oa), $S(&s, &ob), $S(&s, &oc));
                        $run(&$e, &mut plain)
                    }
                };
                same(r, &ctx, p, plain, c0);
            }
        };
    }
    combos_both! { h }
    /// the same with one byte as value
    #[derive(Clone, Copy)]
    struct LeafB<'o>(&'o Orc);
    impl<'o, 'a, C: Context<'a>> Regex<C> for LeafB<'o> {
        fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
            R(self.0).try_parse(ctx)
        }
    }
    impl<'o, 'a, C: Match<'a>, H> Ctor<C, u8, H> for LeafB<'o> {
        fn construct(&self, ctx: &mut C, _: &mut H) -> Result<u8, Error> {
            Ok(ctx.try_mat(self)?.beg as u8)
        }
    }
    #[derive(Clone, Copy)]
    struct SkipsB<'o>(&'o Orc, &'o Orc);
    impl<'o> Regex<AC> for SkipsB<'o> {
        fn try_parse(&self, c: &mut AC) -> Result<Span, Error> {
            Skips(self.0, self.1).try_parse(c)
        }
    }
    impl<'o, H> Ctor<AC, u8, H> for SkipsB<'o> {
        fn construct(&self, c: &mut AC, _: &mut H) -> Result<u8, Error> {
            Ok(self.try_parse(c)?.beg as u8)
        }
    }
    one! { repeat_c, none, do_build, 5, 2, 1, LeafB, SkipsB, |a, b, c, k| a.repeat(k.lo..=k.hi) }
    one! { repeat_from_c, none, do_build, 5, 2, 1, LeafB, SkipsB, |a, b, c, k| a.repeat(k.lo..) }
    one! { sep_c, none, do_build, 5, 2, 1, LeafB, SkipsB, |a, b, c, k| a.sep(b).at_least(k.lo).with_skip(k.skip) }
    one! { builder, lead, do_parse, 3, full, 0, Leaf, Skips, |a, b, c, k| neure::regex::into_regex_builder(a, move |_: &mut _, _: &Span| Ok(b)) }
    one! { dynamic_then, none, do_build, 3, full, 0, Leaf, Skips, |a, b, c, k| neure::ctor::DynamicCtorThenBuilderHelper::into_ctor_then_builder(a, move |_: &mut _, _: &V| Ok(b)) }
    fn two<T>(t: T) -> T {
        kani::cover!(true, "BOUND: two alternatives");
        t
    }
    one! { vector_p, lead, do_parse, 4, full, 0, Leaf, Skips, |a, b, c, k| neure::regex::vector(two([a, b])) }
    one! { vector_c, none, do_build, 4, full, 0, Leaf, Skips, |a, b, c, k| neure::regex::vector(two([a, b])) }
    one! { vector_ltm_p, lead, do_parse, 4, full, 0, Leaf, Skips, |a, b, c, k| neure::regex::vector_ltm(two([a, b])) }
    one! { vector_ltm_c, none, do_build, 4, full, 0, Leaf, Skips, |a, b, c, k| neure::regex::vector_ltm(two([a, b])) }
    one! { pair_vector_p, lead, do_parse, 4, full, 0, Leaf, Skips, |a, b, c, k| neure::regex::pair_vector(two([(a, 1u8), (b, 2)])) }
    one! { pair_vector_c, none, do_build, 4, full, 0, Leaf, Skips, |a, b, c, k| neure::regex::pair_vector(two([(a, 1u8), (b, 2)])) }
    one! { pair_vector_ltm_p, lead, do_parse, 4, full, 0, Leaf, Skips, |a, b, c, k| neure::regex::pair_vector_ltm(two([(a, 1u8), (b, 2)])) }
    one! { pair_vector_ltm_c, none, do_build, 4, full, 0, Leaf, Skips, |a, b, c, k| neure::regex::pair_vector_ltm(two([(a, 1u8), (b, 2)])) }
}
