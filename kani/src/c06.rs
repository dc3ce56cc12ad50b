//! C06 ordered choice takes the first alternative that matches, from the same start.
//! Abstract constructors are "sloppy": a failing alternative may leave the position anywhere,
//! the next one must still start from the original position.
use crate::abs::*;
use crate::combos::*;
use crate::spec::*;
use crate::{seq_spec, setup};
use neure::prelude::*;
use neure::regex as rx;

/// (index, end) of the first alternative that matches at the start
fn first<'o>(alts: &[R<'o>], c: AC) -> Option<(usize, usize)> {
    let mut i = 0;
    while i < alts.len() {
        if let Some(e) = alts[i].0.end(c.off, c.len) {
            return Some((i, e));
        }
        i += 1;
    }
    None
}
fn covers(f: Option<(usize, usize)>, n: usize) {
    kani::cover!(f.is_none(), "all alternatives failing reachable");
    kani::cover!(matches!(f, Some((i, _)) if i + 1 == n) || n == 0, "last alternative reachable");
}

macro_rules! alts {
    ($name:ident, $u:literal, [$($alt:ident)*], |$a:ident, $b:ident, $c:ident| $e:expr) => {
        mod $name {
            use super::*;
            #[kani::proof]
            #[kani::unwind($u)]
            fn parse() {
                setup!(sloppy; $a $b $c ctx);
                let f = first(&[$($alt),*], ctx);
                covers(f, [$($alt),*].len());
                check_parse(&$e, ctx, f.map(|v| v.1));
                let _ = ($a, $b, $c);
            }
            #[kani::proof]
            #[kani::unwind($u)]
            fn ctor() {
                setup!(sloppy; $a $b $c ctx);
                let l: &[R] = &[$($alt),*];
                let f = first(l, ctx);
                covers(f, l.len());
                check_ctor(&$e, ctx, f.map(|(i, e)| (l[i].0.val(ctx.off, ctx.len), e)));
                let _ = ($a, $b, $c);
            }
        }
    };
}
alts!(or2, 4, [a b], |a, b, c| a.or(b));
alts!(or3_left, 5, [a b c], |a, b, c| a.or(b).or(c));
alts!(or3_right, 5, [a b c], |a, b, c| a.or(b.or(c)));
alts!(array3, 5, [a b c], |a, b, c| rx::array(alts([a, b, c])));
alts!(array1, 3, [a], |a, b, c| rx::array(alts([a])));
alts!(slice3, 5, [a b c], |a, b, c| rx::slice(alts(&[a, b, c])));
alts!(slice2, 5, [b a], |a, b, c| rx::slice(alts(&[b, a])));
alts!(vector3, 5, [a b c], |a, b, c| rx::vector(alts([a, b, c])));
alts!(vector2, 5, [c a], |a, b, c| rx::vector(alts([c, a])));
// an alternative may itself be a choice
alts!(nested, 6, [a b c], |a, b, c| rx::array(alts([a.or(b), c.or(c)])));

macro_rules! pair_alts {
    ($name:ident, $u:literal, [$($alt:ident)*], |$a:ident, $b:ident, $c:ident, $k:ident| $e:expr) => {
        mod $name {
            use super::*;
            #[kani::proof]
            #[kani::unwind($u)]
            fn parse() {
                setup!(sloppy; $a $b $c ctx);
                let $k: [u8; 3] = kani::any();
                let f = first(&[$($alt),*], ctx);
                covers(f, [$($alt),*].len());
                check_parse(&$e, ctx, f.map(|v| v.1));
                let _ = ($a, $b, $c);
            }
            #[kani::proof]
            #[kani::unwind($u)]
            fn ctor() {
                setup!(sloppy; $a $b $c ctx);
                let $k: [u8; 3] = kani::any();
                let l: &[R] = &[$($alt),*];
                let f = first(l, ctx);
                covers(f, l.len());
                check_ctor(&$e, ctx, f.map(|(i, e)| ((l[i].0.val(ctx.off, ctx.len), $k[i]), e)));
                let _ = ($a, $b, $c);
            }
        }
    };
}
pair_alts!(pair_array3, 5, [a b c], |a, b, c, k| rx::pair_array(alts([(a, k[0]), (b, k[1]), (c, k[2])])));
pair_alts!(pair_slice3, 5, [a b c], |a, b, c, k| rx::pair_slice(alts(&[(a, k[0]), (b, k[1]), (c, k[2])])));
pair_alts!(pair_vector3, 5, [a b c], |a, b, c, k| rx::pair_vector(alts([(a, k[0]), (b, k[1]), (c, k[2])])));

// no alternative at all: fails, consumes nothing
#[kani::proof]
#[kani::unwind(3)]
fn empty_choices() {
    let ctx = AC::any();
    let arr: [R; 0] = [];
    let kv: [(R, u8); 0] = [];
    check_parse(&rx::array(arr), ctx, None);
    check_parse(&rx::slice(&arr), ctx, None);
    check_parse(&rx::vector(arr), ctx, None);
    check_parse(&rx::pair_array(kv), ctx, None);
    check_parse(&rx::pair_slice(&kv), ctx, None);
    check_parse(&rx::pair_vector(kv), ctx, None);
    check_ctor::<_, V>(&rx::array(arr), ctx, None);
    check_ctor::<_, V>(&rx::slice(&arr), ctx, None);
    check_ctor::<_, V>(&rx::vector(arr), ctx, None);
    check_ctor::<_, (V, u8)>(&rx::pair_array(kv), ctx, None);
    check_ctor::<_, (V, u8)>(&rx::pair_slice(&kv), ctx, None);
    check_ctor::<_, (V, u8)>(&rx::pair_vector(kv), ctx, None);
}

#[kani::proof]
fn opt_parse() {
    setup!(sloppy; a _b _c ctx);
    let e = a.0.end(ctx.off, ctx.len);
    kani::cover!(e.is_some());
    kani::cover!(e.is_none());
    check_parse(&a.opt(), ctx, Some(e.unwrap_or(ctx.off)));
}
#[kani::proof]
fn opt_ctor() {
    setup!(sloppy; a _b _c ctx);
    let exp = match a.0.end(ctx.off, ctx.len) {
        Some(e) => (Some(a.0.val(ctx.off, ctx.len)), e),
        None => (None, ctx.off),
    };
    kani::cover!(exp.0.is_some());
    kani::cover!(exp.0.is_none());
    check_ctor(&a.opt(), ctx, Some(exp));
}

/// the branch is picked by the test alone, the test sees the original position
#[kani::proof]
fn if_else_parse() {
    setup!(sloppy; a b _c ctx);
    let k = K::any();
    let exp = match k.t {
        Ok(true) => a.0.end(ctx.off, ctx.len),
        Ok(false) => b.0.end(ctx.off, ctx.len),
        Err(_) => None,
    };
    kani::cover!(exp.is_some() && k.t == Ok(true));
    kani::cover!(exp.is_some() && k.t == Ok(false));
    kani::cover!(exp.is_none());
    let off = ctx.off;
    let test = move |c: &AC| {
        assert!(c.off == off, "the test must see the original position");
        k.t
    };
    check_parse(&a.if_else(test, b), ctx, exp);
    check_parse(&neure::ctor::branch(test, a, b), ctx, exp);
}
#[kani::proof]
fn if_else_ctor() {
    setup!(sloppy; a b _c ctx);
    let k = K::any();
    let exp = match k.t {
        Ok(true) => a.0.end(ctx.off, ctx.len).map(|e| (a.0.val(ctx.off, ctx.len), e)),
        Ok(false) => b.0.end(ctx.off, ctx.len).map(|e| (b.0.val(ctx.off, ctx.len), e)),
        Err(_) => None,
    };
    kani::cover!(exp.is_some() && k.t == Ok(true));
    kani::cover!(exp.is_some() && k.t == Ok(false));
    kani::cover!(exp.is_none());
    let off = ctx.off;
    let test = move |c: &AC| {
        assert!(c.off == off, "the test must see the original position");
        k.t
    };
    check_ctor(&a.if_else(test, b), ctx, exp);
}

// replacing parts later
#[kani::proof]
#[kani::unwind(3)]
fn setters() {
    setup!(sloppy; a b c ctx);
    let mut p = a.or(a);
    p.set_right(b);
    check_parse(&p, ctx, first(&[a, b], ctx).map(|v| v.1));
    p.set_left(c);
    check_parse(&p, ctx, first(&[c, b], ctx).map(|v| v.1));
    *p.left_mut() = b;
    *p.right_mut() = a;
    check_parse(&p, ctx, first(&[b, a], ctx).map(|v| v.1));
    assert!(p.left().0.id == 2 && p.right().0.id == 1);
}
#[kani::proof]
fn setters_opt_branch() {
    setup!(a b c ctx);
    let mut p = a.opt();
    p.set_pat(b);
    check_parse(&p, ctx, Some(b.0.end(ctx.off, ctx.len).unwrap_or(ctx.off)));
    *p.pat_mut() = c;
    check_parse(&p, ctx, Some(c.0.end(ctx.off, ctx.len).unwrap_or(ctx.off)));
}
#[kani::proof]
fn setters_branch() {
    setup!(a b c ctx);
    let t: bool = kani::any();
    let yes = move |_: &AC| -> Result<bool, neure::err::Error> { Ok(t) };
    let mut p = a.if_else(yes, a);
    p.set_pat(b).set_other(c);
    check_parse(&p, ctx, if t { b } else { c }.0.end(ctx.off, ctx.len));
    *p.pat_mut() = c;
    *p.other_mut() = a;
    check_parse(&p, ctx, if t { c } else { a }.0.end(ctx.off, ctx.len));
}
#[kani::proof]
fn setters_branch_test() {
    setup!(a b _c ctx);
    let f: fn(&AC) -> Result<bool, neure::err::Error> = |_| Ok(true);
    let g: fn(&AC) -> Result<bool, neure::err::Error> = |_| Ok(false);
    let mut p = a.if_else(f, b);
    check_parse(&p, ctx, a.0.end(ctx.off, ctx.len));
    p.set_test(g);
    check_parse(&p, ctx, b.0.end(ctx.off, ctx.len));
    *p.test_mut() = f;
    check_parse(&p, ctx, a.0.end(ctx.off, ctx.len));
}
// a longest-match choice turned back into an ordered one
alts!(array3_with_longest, 5, [a b c], |a, b, c| rx::array_ltm(alts([a, b, c])).with_longest(false));
alts!(slice3_with_longest, 5, [a b c], |a, b, c| rx::slice_ltm(alts(&[a, b, c])).with_longest(false));
alts!(vector3_with_longest, 5, [a b c], |a, b, c| rx::vector_ltm(alts([a, b, c])).with_longest(false));
