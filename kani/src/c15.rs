//! C15: unit classes and their boolean algebra denote the right sets.
use core::cell::Cell;
use core::ops::{Bound, RangeBounds};
use neure::neu;
use neure::neu::*;
use neure::prelude::*;

/// accepts exactly `set`, and the declared minimum width is not above the width of an accepted item
fn ch<U: Neu<char>>(u: U, set: impl Fn(char) -> bool) {
    let c: char = kani::any();
    let m = u.is_match(&c);
    assert!(m == set(c), "unit accepts another set of characters");
    assert!(!m || u.min_length() <= c.len_utf8(), "declared minimum width above the width of an accepted character");
}
fn by<U: Neu<u8>>(u: U, set: impl Fn(u8) -> bool) {
    let b: u8 = kani::any();
    let m = u.is_match(&b);
    assert!(m == set(b), "unit accepts another set of bytes");
    assert!(!m || u.min_length() <= 1, "declared minimum width above the width of an accepted byte");
}

macro_rules! classes {
    ($($name:ident: $f:ident = |$x:ident| $set:expr;)*) => { $(
        mod $name {
            use super::*;
            #[kani::proof]
            fn chars() {
                ch($f::<char>(), |c| { let $x = c as u32; $set });
                ch(!$f::<char>(), |c| { let $x = c as u32; !($set) });
            }
            #[kani::proof]
            fn bytes() {
                by($f::<u8>(), |c| { let $x = c as u32; $set });
                by(!$f::<u8>(), |c| { let $x = c as u32; !($set) });
            }
        }
    )* };
}
fn inr(x: u32, a: u8, b: u8) -> bool {
    a as u32 <= x && x <= b as u32
}
fn lower(x: u32) -> bool { inr(x, b'a', b'z') }
fn upper(x: u32) -> bool { inr(x, b'A', b'Z') }
fn dig(x: u32) -> bool { inr(x, b'0', b'9') }
classes! {
    ascii_: ascii = |x| x < 128;
    ascii_alphabetic_: ascii_alphabetic = |x| lower(x) || upper(x);
    ascii_alphanumeric_: ascii_alphanumeric = |x| lower(x) || upper(x) || dig(x);
    ascii_control_: ascii_control = |x| x < 32 || x == 127;
    ascii_digit_: ascii_digit = |x| dig(x);
    ascii_graphic_: ascii_graphic = |x| inr(x, b'!', b'~');
    ascii_hexdigit_: ascii_hexdigit = |x| dig(x) || inr(x, b'a', b'f') || inr(x, b'A', b'F');
    ascii_lowercase_: ascii_lowercase = |x| lower(x);
    ascii_punctuation_: ascii_punctuation = |x| inr(x, b'!', b'~') && !lower(x) && !upper(x) && !dig(x);
    ascii_uppercase_: ascii_uppercase = |x| upper(x);
    ascii_whitespace_: ascii_whitespace = |x| x == 32 || x == 9 || x == 10 || x == 12 || x == 13;
    word_: word = |x| lower(x) || upper(x) || dig(x) || x == b'_' as u32;
    always_: always = |x| { let _ = x; true };
    never_: never = |x| { let _ = x; false };
}

mod unicode {
    use super::*;
    #[cfg(not(feature = "thorough"))]
    const LIM: u32 = 0x180;
    #[cfg(feature = "thorough")]
    const LIM: u32 = 0x3000;
    macro_rules! uni {
        ($($f:ident $m:ident;)*) => { $(
            #[kani::proof]
            #[kani::unwind(40)]
            fn $f() {
                                let c: char = kani::any();
                kani::assume((c as u32) < LIM);
                kani::cover!(true, "BOUND: characters below U+0180 (thorough: U+3000)");
                let set = c.$m();
                let u = neu::$f();
                assert!(u.is_match(&c) == set, "unit accepts another set of characters");
                assert!((!u).is_match(&c) != set, "negated unit accepts another set of characters");
                assert!(u.min_length() <= 1 && (!u).min_length() <= 1);
            }
        )* };
    }
    uni! {
        alphabetic is_alphabetic; alphanumeric is_alphanumeric; lowercase is_lowercase;
        numeric is_numeric; uppercase is_uppercase;
    }
    #[kani::proof]
    fn control_() {
        ch(control(), |c| (c as u32) < 32 || (0x7f <= c as u32 && (c as u32) < 0xa0));
        ch(!control(), |c| !((c as u32) < 32 || (0x7f <= c as u32 && (c as u32) < 0xa0)));
    }
    #[kani::proof]
    fn whitespace_() {
        // the 25 characters with the White_Space property
        let ws = |c: char| matches!(c, '\u{9}'..='\u{d}' | ' ' | '\u{85}' | '\u{a0}' | '\u{1680}' | '\u{2000}'..='\u{200a}'
            | '\u{2028}' | '\u{2029}' | '\u{202f}' | '\u{205f}' | '\u{3000}');
        ch(whitespace(), ws);
        ch(!whitespace(), |c| !ws(c));
        ch(neu!(^), |c| !ws(c));
    }
    #[kani::proof]
    fn wild_() {
        ch(wild(), |c| c != '\n');
        ch(!wild(), |c| c == '\n');
        ch(neu!(.), |c| c != '\n');
    }
    #[kani::proof]
    fn digit_() {
        let r: u32 = kani::any();
        kani::assume(2 <= r && r <= 36);
        let val = |c: char| {
            let x = c as u32;
            if dig(x) { x - b'0' as u32 } else if lower(x) { x - b'a' as u32 + 10 } else if upper(x) { x - b'A' as u32 + 10 } else { 99 }
        };
        ch(digit(r), |c| val(c) < r);
        ch(!digit(r), |c| val(c) >= r);
    }
}

/// an abstract unit: any set, any declared minimum width its items respect
#[derive(Clone, Copy)]
pub struct Un {
    pub yes: bool,
    pub min: usize,
}
impl Un {
    /// for an item of width `w`
    pub fn any(w: usize) -> Self {
        let u = Un { yes: kani::any(), min: kani::any() };
        kani::assume(!u.yes || u.min <= w);
        u
    }
}
impl Neu<char> for Un {
    fn is_match(&self, _: &char) -> bool {
        self.yes
    }
    fn min_length(&self) -> usize {
        self.min
    }
}

mod algebra {
    use super::*;
    fn chk<U: Neu<char>>(u: U, exp: bool, c: char) {
        let m = u.is_match(&c);
        assert!(m == exp, "wrong set");
        assert!(!m || u.min_length() <= c.len_utf8(), "declared minimum width above the width of an accepted item");
    }
    #[kani::proof]
    fn or_and_not() {
        let c: char = kani::any();
        let (a, b) = (Un::any(c.len_utf8()), Un::any(c.len_utf8()));
        chk(NeuOp::or(a, b), a.yes || b.yes, c);
        chk(neu::or(a, b), a.yes || b.yes, c);
        chk(NeuOp::and(a, b), a.yes && b.yes, c);
        chk(neu::and(a, b), a.yes && b.yes, c);
        chk(NeuOp::not(a), !a.yes, c);
        chk(neu::not(a), !a.yes, c);
        chk(!NeuOp::or(a, b), !(a.yes || b.yes), c);
        chk(!NeuOp::and(a, b), !(a.yes && b.yes), c);
        chk(NeuOp::not(NeuOp::not(a)), a.yes, c);
    }
    #[kani::proof]
    fn accessors() {
        let c: char = kani::any();
        let w = c.len_utf8();
        let (a, b, d) = (Un::any(w), Un::any(w), Un::any(w));
        let mut o = neu::or::<char, _, _>(a, b);
        o.set_left(d);
        chk(o, d.yes || b.yes, c);
        o.set_right(a);
        chk(o, d.yes || a.yes, c);
        let mut o = neu::and::<char, _, _>(a, b);
        o.set_left(d);
        chk(o, d.yes && b.yes, c);
        o.set_right(a);
        chk(o, d.yes && a.yes, c);
        let mut n = neu::not::<char, _>(a);
        n.set_unit(b);
        chk(n, !b.yes, c);
    }
    #[kani::proof]
    fn wrapped() {
        let c: char = kani::any();
        let a = Un::any(c.len_utf8());
        chk(Cell::new(a), a.yes, c);
        chk(core::cell::RefCell::new(a), a.yes, c);
        chk(std::rc::Rc::new(a), a.yes, c);
        chk(std::sync::Arc::new(a), a.yes, c);
        let d: Box<dyn Neu<char>> = Box::new(a);
        chk(d, a.yes, c);
        let d: std::rc::Rc<dyn Neu<char>> = std::rc::Rc::new(a);
        chk(d, a.yes, c);
        let d: std::sync::Arc<dyn Neu<char>> = std::sync::Arc::new(a);
        chk(d, a.yes, c);
    }
    #[kani::proof]
    fn wrapped_mutex() {
        let c: char = kani::any();
        let a = Un::any(c.len_utf8());
        chk(std::sync::Mutex::new(a), a.yes, c);
    }
    #[kani::proof]
    fn function() {
        let c: char = kani::any();
        let yes: bool = kani::any();
        chk(move |x: &char| { assert!(*x == c, "predicate asked about another item"); yes }, yes, c);
    }
}

mod single {
    use super::*;
    #[kani::proof]
    fn character() {
        let x: char = kani::any();
        ch(x, |c| c == x);
        ch(equal(x), |c| c == x);
        ch(!equal(x), |c| c != x);
        ch(NeuOp::not(x), |c| c != x);
    }
    #[kani::proof]
    fn byte() {
        let x: u8 = kani::any();
        by(x, |c| c == x);
        by(equal(x), |c| c == x);
        by(!equal(x), |c| c != x);
        by(NeuOp::<u8>::not(x), |c| c != x);
    }
    #[kani::proof]
    #[kani::unwind(5)]
    fn lists() {
        kani::cover!(true, "BOUND: lists of at most 3 items");
        let a: [char; 3] = kani::any();
        let n: usize = kani::any();
        kani::assume(n <= 3);
        ch(a, |c| c == a[0] || c == a[1] || c == a[2]);
        let part = |c: char| (n > 0 && c == a[0]) || (n > 1 && c == a[1]) || (n > 2 && c == a[2]);
        ch(&a[..n], part);
        let e: [char; 0] = [];
        ch(e, |_| false);
    }
    #[kani::proof]
    #[kani::unwind(5)]
    fn vec_list() {
        kani::cover!(true, "BOUND: lists of at most 3 items");
        let a: [u8; 3] = kani::any();
        by(a.to_vec(), |c| c == a[0] || c == a[1] || c == a[2]);
        by(vec![a[0]], |c| c == a[0]);
        by(Vec::new(), |_| false);
    }
}

mod ranges {
    use super::*;
    fn any_bound<T: kani::Arbitrary>() -> Bound<T> {
        match kani::any::<u8>() {
            0 => Bound::Included(kani::any()),
            1 => Bound::Excluded(kani::any()),
            _ => Bound::Unbounded,
        }
    }
    fn within<T: PartialOrd + Copy>(x: T, lo: &Bound<T>, hi: &Bound<T>) -> bool {
        (match lo {
            Bound::Included(a) => *a <= x,
            Bound::Excluded(a) => *a < x,
            Bound::Unbounded => true,
        }) && (match hi {
            Bound::Included(b) => x <= *b,
            Bound::Excluded(b) => x < *b,
            Bound::Unbounded => true,
        })
    }
    #[kani::proof]
    fn bounds() {
        let (lo, hi): (Bound<char>, Bound<char>) = (any_bound(), any_bound());
        let set = |c: char| within(c, &lo, &hi);
        ch((lo, hi), set);
        ch((lo.as_ref(), hi.as_ref()), set);
        ch(CRange::new(lo, hi), set);
        ch(range((lo, hi)), set);
        ch(!CRange::new(lo, hi), |c| !set(c));
        ch(CRange::clone_from((lo, hi)), set);
        ch(CRange::new(lo, hi).clone(), set);
        ch(CRange::<char>::default(), |_| true);
    }
    #[kani::proof]
    fn bounds_bytes() {
        let (lo, hi): (Bound<u8>, Bound<u8>) = (any_bound(), any_bound());
        let set = |c: u8| within(c, &lo, &hi);
        by((lo, hi), set);
        by((lo.as_ref(), hi.as_ref()), set);
        by(CRange::new(lo, hi), set);
        by(!range((lo, hi)), |c| !set(c));
    }
    macro_rules! forms {
        ($name:ident $chk:ident $t:ty) => {
            #[kani::proof]
            fn $name() {
                let (a, b): ($t, $t) = kani::any();
                $chk(a..b, |c| a <= c && c < b);
                $chk(&a..&b, |c| a <= c && c < b);
                $chk(range(a..b), |c| a <= c && c < b);
                $chk(a..=b, |c| a <= c && c <= b);
                $chk(&a..=&b, |c| a <= c && c <= b);
                $chk(range(a..=b), |c| a <= c && c <= b);
                $chk(a.., |c| a <= c);
                $chk(&a.., |c| a <= c);
                $chk(range(a..), |c| a <= c);
                $chk(..b, |c| c < b);
                $chk(..&b, |c| c < b);
                $chk(range(..b), |c| c < b);
                $chk(..=b, |c| c <= b);
                $chk(..=&b, |c| c <= b);
                $chk(range(..=b), |c| c <= b);
                $chk(.., |_| true);
                $chk(range(..), |_| true);
                $chk(!range(a..=b), |c| !(a <= c && c <= b));
            }
        };
    }
    forms!(forms_char ch char);
    forms!(forms_byte by u8);
    #[kani::proof]
    fn counts() {
        let v: usize = kani::any();
        let x: usize = kani::any();
        assert!(CRange::<usize>::from(v).contains(&x) == (v == x), "count range");
        assert!(CRange::<usize>::from(&v).contains(&x) == (v == x), "count range");
        macro_rules! int {
            ($($t:ty)*) => { $( {
                let v: $t = kani::any();
                if v >= 0 {
                    assert!(CRange::<usize>::from(v).contains(&x) == (v as usize == x), "count range");
                    assert!(CRange::<usize>::from(&v).contains(&x) == (v as usize == x), "count range");
                }
            } )* };
        }
        int!(i8 i16 i32 i64 isize);
        let v: u8 = kani::any();
        assert!(CRange::<usize>::from(v).contains(&x) == (v as usize == x), "count range");
        let v: u16 = kani::any();
        assert!(CRange::<usize>::from(v).contains(&x) == (v as usize == x), "count range");
        let v: u32 = kani::any();
        assert!(CRange::<usize>::from(v).contains(&x) == (v as usize == x), "count range");
        let v: u64 = kani::any();
        assert!(CRange::<usize>::from(v).contains(&x) == (v as usize == x), "count range");
    }
    #[kani::proof]
    fn empty_range() {
        // a range said to be empty contains nothing; one with two finite bounds that contains
        // something is not said to be empty, and vice versa
        let (lo, hi): (Bound<usize>, Bound<usize>) = (any_bound(), any_bound());
        let r = CRange::new(lo, hi);
        let x: usize = kani::any();
        assert!(!(r.is_empty() && within(x, &lo, &hi)), "a range that contains something is said to be empty");
        let first = match lo {
            Bound::Included(a) => Some(a),
            Bound::Excluded(a) => a.checked_add(1),
            Bound::Unbounded => None,
        };
        if let (Some(f), Bound::Included(_) | Bound::Excluded(_)) = (first, hi) {
            assert!(r.is_empty() == !within(f, &lo, &hi), "wrong emptiness");
        }
    }
}

mod macros {
    use super::*;
    #[kani::proof]
    fn unit_macro() {
        ch(neu!(['a' - 'f']), |c| ('a'..='f').contains(&c));
        ch(neu!([^ 'a' - 'f']), |c| !('a'..='f').contains(&c));
        ch(neu!([a - f]), |c| ('a'..='f').contains(&c));
        ch(neu!([^ a - f]), |c| !('a'..='f').contains(&c));
        ch(neu!(['a' - 'f' 'A' - 'F']), |c| ('a'..='f').contains(&c) || ('A'..='F').contains(&c));
        ch(neu!([^ 'a' - 'f' 'A' - 'F']), |c| !(('a'..='f').contains(&c) || ('A'..='F').contains(&c)));
        ch(neu!([a - f A - F]), |c| ('a'..='f').contains(&c) || ('A'..='F').contains(&c));
        ch(neu!([^ a - f A - F]), |c| !(('a'..='f').contains(&c) || ('A'..='F').contains(&c)));
        ch(neu!(['a' 'x' 'é']), |c| c == 'a' || c == 'x' || c == 'é');
        ch(neu!([^ 'a' 'x' 'é']), |c| !(c == 'a' || c == 'x' || c == 'é'));
        ch(neu!([a x y]), |c| c == 'a' || c == 'x' || c == 'y');
        ch(neu!([^ a x y]), |c| !(c == 'a' || c == 'x' || c == 'y'));
        ch(neu!(('a', 'x'..='z', '\u{4e2d}')), |c| c == 'a' || ('x'..='z').contains(&c) || c == '\u{4e2d}');
        ch(neu!(q), |c| c == 'q');
        ch(neu!('q'), |c| c == 'q');
    }
    #[kani::proof]
    fn unit_macro_bytes() {
        by(neu!([b'a' - b'f']), |c| (b'a'..=b'f').contains(&c));
        by(neu!([^ b'a' - b'f']), |c| !(b'a'..=b'f').contains(&c));
        by(neu!([b'a' - b'f' b'A' - b'F']), |c| (b'a'..=b'f').contains(&c) || (b'A'..=b'F').contains(&c));
        by(neu!([b'a' b'x']), |c| c == b'a' || c == b'x');
        by(neu!([^ b'a' b'x']), |c| !(c == b'a' || c == b'x'));
    }
}
