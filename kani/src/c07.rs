//! C07 longest-match choice takes the longest alternative and stops at its end.
use crate::abs::*;
use crate::combos::*;
use crate::setup;
use crate::spec::*;
use neure::prelude::*;
use neure::regex as rx;

/// earliest alternative among those consuming most, and its end
fn longest<'o>(alts: &[R<'o>], c: AC) -> Option<(usize, usize)> {
    let mut best: Option<(usize, usize)> = None;
    let mut i = 0;
    while i < alts.len() {
        if let Some(e) = alts[i].0.end(c.off, c.len) {
            match best {
                Some((_, b)) if b >= e => {}
                _ => best = Some((i, e)),
            }
        }
        i += 1;
    }
    best
}
fn covers(f: Option<(usize, usize)>, n: usize) {
    kani::cover!(f.is_none(), "no match reachable");
    kani::cover!(matches!(f, Some((0, _))), "first alternative reachable");
    kani::cover!(matches!(f, Some((i, _)) if i + 1 == n), "last alternative reachable");
}

macro_rules! alts {
    ($name:ident, $u:literal, [$($alt:ident)*], |$a:ident, $b:ident, $c:ident| $e:expr) => {
        mod $name {
            use super::*;
            #[kani::proof]
            #[kani::unwind($u)]
            fn parse() {
                setup!(sloppy; $a $b $c ctx);
                let f = longest(&[$($alt),*], ctx);
                covers(f, [$($alt),*].len());
                check_parse(&$e, ctx, f.map(|v| v.1));
                let _ = ($a, $b, $c);
            }
            #[kani::proof]
            #[kani::unwind($u)]
            fn ctor() {
                setup!(sloppy; $a $b $c ctx);
                let l: &[R] = &[$($alt),*];
                let f = longest(l, ctx);
                covers(f, l.len());
                check_ctor(&$e, ctx, f.map(|(i, e)| (l[i].0.val(ctx.off, ctx.len), e)));
                let _ = ($a, $b, $c);
            }
        }
    };
}
alts!(longest2, 4, [a b], |a, b, c| a.longest(b));
alts!(longest3_left, 5, [a b c], |a, b, c| a.longest(b).longest(c));
alts!(longest3_right, 5, [a b c], |a, b, c| a.longest(b.longest(c)));
alts!(array3, 5, [a b c], |a, b, c| rx::array_ltm(alts([a, b, c])));
alts!(slice3, 5, [a b c], |a, b, c| rx::slice_ltm(alts(&[a, b, c])));
alts!(vector3, 5, [a b c], |a, b, c| rx::vector_ltm(alts([a, b, c])));
alts!(array2, 5, [c b], |a, b, c| rx::array_ltm(alts([c, b])));
alts!(slice1, 5, [b], |a, b, c| rx::slice_ltm(alts(&[b])));

macro_rules! pair_alts {
    ($name:ident, $u:literal, [$($alt:ident)*], |$a:ident, $b:ident, $c:ident, $k:ident| $e:expr) => {
        mod $name {
            use super::*;
            #[kani::proof]
            #[kani::unwind($u)]
            fn parse() {
                setup!(sloppy; $a $b $c ctx);
                let $k: [u8; 3] = kani::any();
                let f = longest(&[$($alt),*], ctx);
                covers(f, [$($alt),*].len());
                check_parse(&$e, ctx, f.map(|v| v.1));
                let _ = ($a, $b, $c);
            }
            #[kani::proof]
            #[kani::unwind($u)]
            fn ctor() {
                setup!(sloppy; $a $b $c ctx);
                let $k: [u8; 3] = kani::any();
                let l: &[R] = &[$($alt),*];
                let f = longest(l, ctx);
                covers(f, l.len());
                check_ctor(&$e, ctx, f.map(|(i, e)| ((l[i].0.val(ctx.off, ctx.len), $k[i]), e)));
                let _ = ($a, $b, $c);
            }
        }
    };
}
pair_alts!(pair_array3, 5, [a b c], |a, b, c, k| rx::pair_array_ltm(alts([(a, k[0]), (b, k[1]), (c, k[2])])));
pair_alts!(pair_slice3, 5, [a b c], |a, b, c, k| rx::pair_slice_ltm(alts(&[(a, k[0]), (b, k[1]), (c, k[2])])));
pair_alts!(pair_vector3, 5, [a b c], |a, b, c, k| rx::pair_vector_ltm(alts([(a, k[0]), (b, k[1]), (c, k[2])])));

// no alternative at all: fails, consumes nothing
#[kani::proof]
#[kani::unwind(3)]
fn empty_choices() {
    let ctx = AC::any();
    let arr: [R; 0] = [];
    let kv: [(R, u8); 0] = [];
    check_parse(&rx::array_ltm(arr), ctx, None);
    check_parse(&rx::slice_ltm(&arr), ctx, None);
    check_parse(&rx::vector_ltm(arr), ctx, None);
    check_parse(&rx::pair_array_ltm(kv), ctx, None);
    check_parse(&rx::pair_slice_ltm(&kv), ctx, None);
    check_parse(&rx::pair_vector_ltm(kv), ctx, None);
    check_ctor::<_, V>(&rx::array_ltm(arr), ctx, None);
    check_ctor::<_, V>(&rx::slice_ltm(&arr), ctx, None);
    check_ctor::<_, (V, u8)>(&rx::pair_array_ltm(kv), ctx, None);
}

/// A pattern that reports only the last part of what it consumed, as a pattern built by
/// `into_regex_builder` does.
#[derive(Clone, Copy)]
struct Late<'o>(&'o Orc, usize);
impl<'o> Regex<AC> for Late<'o> {
    fn try_parse(&self, ctx: &mut AC) -> Result<Span, neure::err::Error> {
        let s = ctx.try_mat(&R(self.0))?;
        let k = if self.1 < s.len { self.1 } else { s.len };
        Ok(Span::new(s.beg + k, s.len - k))
    }
}
macro_rules! late {
    ($name:ident, $u:literal, |$a:ident, $b:ident| $e:expr) => {
        #[kani::proof]
        #[kani::unwind($u)]
        fn $name() {
            setup!(a b c ctx);
            let (ka, kb): (usize, usize) = (kani::any(), kani::any());
            let f = longest(&[a, b], ctx);
            kani::cover!(matches!(f, Some((1, _))) && kb > 0, "the second wins and reports a part");
            let ($a, $b) = (Late(a.0, ka), Late(b.0, kb));
            let mut cx = ctx;
            let r = cx.try_mat(&$e);
            match f {
                None => assert!(r.is_err() && cx.off == ctx.off, "no alternative matches"),
                Some((i, e)) => {
                    assert!(r.is_ok(), "an alternative matches");
                    assert!(cx.off == e, "position is not the end of the longest alternative");
                    let k = if i == 0 { ka } else { kb };
                    let n = e - ctx.off;
                    let k = if k < n { k } else { n };
                    assert!(r.unwrap() == Span::new(ctx.off + k, n - k), "not the span of the longest alternative");
                }
            }
            let _ = c;
        }
    };
}
late!(late2, 4, |a, b| a.longest(b));
late!(late_slice2, 4, |a, b| rx::slice_ltm(alts(&[a, b])));

// an ordered choice turned into a longest-match one
alts!(array3_with_longest, 5, [a b c], |a, b, c| rx::array(alts([a, b, c])).with_longest(true));
alts!(slice3_with_longest, 5, [a b c], |a, b, c| rx::slice(alts(&[a, b, c])).with_longest(true));
alts!(vector3_with_longest, 5, [a b c], |a, b, c| rx::vector(alts([a, b, c])).with_longest(true));
pair_alts!(pair_array3_with_longest, 5, [a b c], |a, b, c, k| rx::pair_array(alts([(a, k[0]), (b, k[1]), (c, k[2])])).with_longest(true));
pair_alts!(pair_slice3_with_longest, 5, [a b c], |a, b, c, k| rx::pair_slice(alts(&[(a, k[0]), (b, k[1]), (c, k[2])])).with_longest(true));
pair_alts!(pair_vector3_with_longest, 5, [a b c], |a, b, c, k| rx::pair_vector(alts([(a, k[0]), (b, k[1]), (c, k[2])])).with_longest(true));
// replacing parts later
#[kani::proof]
#[kani::unwind(4)]
fn setters() {
    setup!(sloppy; a b c ctx);
    let mut p = a.longest(a);
    p.set_right(b);
    check_parse(&p, ctx, longest(&[a, b], ctx).map(|v| v.1));
    p.set_left(c);
    check_parse(&p, ctx, longest(&[c, b], ctx).map(|v| v.1));
    *p.left_mut() = b;
    *p.right_mut() = a;
    check_parse(&p, ctx, longest(&[b, a], ctx).map(|v| v.1));
    assert!(p.left().0.id == 2 && p.right().0.id == 1);
}
#[kani::proof]
#[kani::unwind(4)]
fn setters_lists() {
    setup!(sloppy; a b c ctx);
    let mut p = rx::array([a, b]);
    p.set_longest(true);
    p[0] = c;
    assert!((&p).longest() && p.len() == 2);
    check_parse(&p, ctx, longest(&[c, b], ctx).map(|v| v.1));
    let mut p = rx::vector([a, b]);
    p.set_longest(true);
    p[1] = c;
    assert!((&p).longest() && p.len() == 2);
    check_parse(&p, ctx, longest(&[a, c], ctx).map(|v| v.1));
}
