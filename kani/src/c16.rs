//! C16: capture storage returns what was stored and touches nothing else; span arithmetic.
//!
//! Each operation is checked from an arbitrary state of the storer, so the contracts compose to any
//! history of operations.
use crate::abs::*;
use neure::ctx::{Context, Match};
use neure::span::*;

fn sp() -> Span {
    Span::new(kani::any(), kani::any())
}

mod span {
    use super::*;
    #[kani::proof]
    fn parts() {
        let (b, l): (usize, usize) = kani::any();
        let s = Span::new(b, l);
        assert!(s.beg() == b && s.len() == l && s.beg == b && s.len == l, "span differs from what it was made of");
        assert!(s.is_empty() == (l == 0), "wrong emptiness");
        assert!(s == Span { beg: b, len: l });
        let d = Span::default();
        assert!(d.beg == 0 && d.len == 0);
    }
    /// merging a span that begins inside or right after this one gives the range up to its end
    #[kani::proof]
    fn merge() {
        let (s, o) = (sp(), sp());
        kani::assume(s.beg.checked_add(s.len).is_some() && o.beg.checked_add(o.len).is_some());
        kani::assume(s.beg <= o.beg && o.beg <= s.beg + s.len);
        let mut m = s;
        let r = *m.add_assign(o);
        assert!(r == m, "result differs from the span itself");
        assert!(m.beg == s.beg, "merging moved the beginning");
        assert!(m.beg + m.len == o.beg + o.len, "merged span does not end at the end of the other");
        if o.beg == s.beg + s.len {
            assert!(m.len == s.len + o.len, "adjacent spans: lengths do not add up");
        }
    }
    #[kani::proof]
    fn merge_three() {
        let (a, b, c): (usize, usize, usize) = kani::any();
        let beg: usize = kani::any();
        kani::assume(beg.checked_add(a).and_then(|x| x.checked_add(b)).and_then(|x| x.checked_add(c)).is_some());
        let mut m = Span::new(beg, a);
        m.add_assign(Span::new(beg + a, b)).add_assign(Span::new(beg + a + b, c));
        assert!(m == Span::new(beg, a + b + c), "three adjacent spans do not merge to their union");
    }
    #[kani::proof]
    fn orig() {
        let c = AC::any();
        let s = sp();
        let r = s.orig(&c);
        let inside = s.beg <= c.len && s.len <= c.len - s.beg;
        assert!(r.is_ok() == inside, "span content available exactly when inside the input");
        if let Ok(v) = r {
            assert!(v == s, "content of another range");
        }
    }
}

mod array {
    use super::*;
    fn any_row<const N: usize>() -> [Option<Span>; N] {
        let mut r = [None; N];
        let mut i = 0;
        while i < N {
            if kani::any() {
                r[i] = Some(sp());
            }
            i += 1;
        }
        r
    }
    /// the storer reads back as `st` at every group and index, also outside
    fn is<const M: usize, const N: usize>(s: &ArrayStorer<M, N>, st: &[[Option<Span>; N]; M]) {
        assert!(s.len() == M && s.is_empty() == (M == 0), "wrong number of groups");
        let (g, i): (usize, usize) = kani::any();
        let exp = if g < M && i < N { st[g][i] } else { None };
        assert!(s.span(g, i).copied() == exp, "another span read back");
        let mut any = false;
        let mut k = 0;
        while k < N {
            any |= g < M && st[g][k].is_some();
            k += 1;
        }
        assert!(s.contain(g) == any, "wrong answer whether the group holds a span");
        match s.spans(g) {
            Some(v) => {
                assert!(any && v.len() == N, "group without spans reported");
                if i < N {
                    assert!(v[i] == exp, "another span read back");
                }
            }
            None => assert!(!any, "spans of a group not reported"),
        }
        assert!(s.spans_iter(g).is_some() == any && s.slice_iter(&b"abc"[..], g).is_some() == any);
    }
    /// the content of the spans
    fn content<const M: usize, const N: usize>(s: &ArrayStorer<M, N>, st: &[[Option<Span>; N]; M]) {
        let (g, i): (usize, usize) = kani::any();
        let exp = if g < M && i < N { st[g][i] } else { None };
        let text = &b"abcd"[..];
        let got = s.slice(text, g, i);
        match exp {
            Some(x) if x.beg <= 4 && x.len <= 4 - x.beg => {
                let got = got.unwrap();
                assert!(got.len() == x.len && got.as_ptr() as usize == text.as_ptr() as usize + x.beg, "slice of another range");
            }
            _ => assert!(got.is_none(), "slice of a span that is not there"),
        }
    }
    macro_rules! ops {
        ($name:ident $m:literal $n:literal) => {
            mod $name {
                use super::*;
                fn any() -> [[Option<Span>; $n]; $m] {
                    kani::cover!(true, "BOUND: up to 2 groups of up to 3 slots");
                    core::array::from_fn(|_| any_row())
                }
                #[kani::proof]
                #[kani::unwind(5)]
                fn fresh() {
                    kani::cover!(true, "BOUND: up to 2 groups of up to 3 slots");
                    is(&ArrayStorer::<$m, $n>::new(), &[[None; $n]; $m]);
                    is(&ArrayStorer::<$m, $n>::default(), &[[None; $n]; $m]);
                }
                #[kani::proof]
                #[kani::unwind(5)]
                fn made_with() {
                    let st = any();
                    let s = ArrayStorer::new_with(st);
                    is(&s, &st);
                }
                #[kani::proof]
                #[kani::unwind(5)]
                fn slices() {
                    let st = any();
                    content(&ArrayStorer::new_with(st), &st);
                }
                #[kani::proof]
                #[kani::unwind(5)]
                fn cloned() {
                    let st = any();
                    is(&ArrayStorer::new_with(st).clone(), &st);
                }
                #[kani::proof]
                #[kani::unwind(5)]
                fn set() {
                    let mut st = any();
                    let mut s = ArrayStorer::new_with(st);
                    let (g, i): (usize, usize) = kani::any();
                    kani::assume(g < $m && i < $n);
                    let x = sp();
                    s.set_span(g, i, x);
                    st[g][i] = Some(x);
                    is(&s, &st);
                }
                #[kani::proof]
                #[kani::unwind(5)]
                fn clear() {
                    let mut st = any();
                    let mut s = ArrayStorer::new_with(st);
                    let g: usize = kani::any();
                    s.clr_span(g);
                    if g < $m {
                        st[g] = [None; $n];
                    }
                    is(&s, &st);
                }
                #[kani::proof]
                #[kani::unwind(5)]
                fn reset() {
                    let mut s = ArrayStorer::new_with(any());
                    s.reset();
                    is(&s, &[[None; $n]; $m]);
                }
                #[kani::proof]
                #[kani::unwind(5)]
                fn capture() {
                    let mut st = any();
                    let mut s = ArrayStorer::new_with(st);
                    let (g, i): (usize, usize) = kani::any();
                    kani::assume(g < $m && i < $n);
                    let o = Orc::new(1, 2, 0);
                    let c0 = AC::any();
                    let mut c = c0;
                    let r = s.try_cap(g, i, &mut c, &R(&o));
                    match o.f(c0.off, c0.len) {
                        Some(n) => {
                            assert!(r == Ok(Span::new(c0.off, n)) && c.off == c0.off + n, "wrong capture");
                            st[g][i] = Some(Span::new(c0.off, n));
                        }
                        None => assert!(r.is_err() && c.off == c0.off, "capture of a failed match"),
                    }
                    is(&s, &st);
                }
            }
        };
    }
    ops!(two_by_three 2 3);
    ops!(one_by_one 1 1);
    #[kani::proof]
    #[kani::unwind(5)]
    fn no_slots() {
        is(&ArrayStorer::<2, 0>::new(), &[[]; 2]);
        is(&ArrayStorer::<0, 2>::new(), &[]);
        let mut s = ArrayStorer::<2, 0>::new();
        s.clr_span(kani::any()).reset();
        is(&s, &[[]; 2]);
    }
}

mod vector {
    use super::*;
    const CAPA: usize = 3;
    /// spec state: group contents
    #[derive(Clone, Copy)]
    struct St {
        n: [usize; 2],
        v: [[Span; CAPA]; 2],
    }
    /// any two groups of the given (concrete) sizes
    fn any<const A: usize, const B: usize>() -> (VecStorer, St) {
        kani::cover!(true, "BOUND: 2 groups of up to 2 spans");
        let mut st = St { n: [A, B], v: [[Span::new(0, 0); CAPA]; 2] };
        let (mut a, mut b) = (Vec::with_capacity(CAPA), Vec::with_capacity(CAPA));
        let mut i = 0;
        while i < A {
            st.v[0][i] = sp();
            a.push(st.v[0][i]);
            i += 1;
        }
        i = 0;
        while i < B {
            st.v[1][i] = sp();
            b.push(st.v[1][i]);
            i += 1;
        }
        (VecStorer::new_with(vec![a, b]), st)
    }
    fn is(s: &VecStorer, st: &St) {
        assert!(s.len() == 2 && !s.is_empty(), "wrong number of groups");
        let (g, i): (usize, usize) = kani::any();
        let exp = if g < 2 && i < st.n[g] { Some(st.v[g][i]) } else { None };
        assert!(s.span(g, i).copied() == exp, "another span read back");
        let any = g < 2 && st.n[g] > 0;
        assert!(s.contain(g) == any, "wrong answer whether the group holds a span");
        match s.spans(g) {
            Some(v) => assert!(any && v.len() == st.n[g] && v.get(i).copied() == exp, "another list of spans"),
            None => assert!(!any, "spans of a group not reported"),
        }
        assert!(s.spans_iter(g).is_some() == any && s.slice_iter(&b"abc"[..], g).is_some() == any);
    }
    /// the content of the spans
    fn content(s: &VecStorer, st: &St) {
        let (g, i): (usize, usize) = kani::any();
        let exp = if g < 2 && i < st.n[g] { Some(st.v[g][i]) } else { None };
        let text = &b"abcd"[..];
        let got = s.slice(text, g, i);
        match exp {
            Some(x) if x.beg <= 4 && x.len <= 4 - x.beg => {
                let got = got.unwrap();
                assert!(got.len() == x.len && got.as_ptr() as usize == text.as_ptr() as usize + x.beg, "slice of another range");
            }
            _ => assert!(got.is_none(), "slice of a span that is not there"),
        }
    }
    fn group() -> usize {
        if kani::any() { 0 } else { 1 }
    }
    macro_rules! ops {
        ($name:ident $a:literal $b:literal) => {
            mod $name {
                use super::*;
                #[kani::proof]
                #[kani::unwind(5)]
                fn made_with() {
                    let (s, st) = any::<$a, $b>();
                    is(&s, &st);
                    content(&s, &st);
                }
                #[kani::proof]
                #[kani::unwind(5)]
                fn add_first() {
                    let (mut s, mut st) = any::<$a, $b>();
                    let x = sp();
                    s.add_span(0, x);
                    st.v[0][st.n[0]] = x;
                    st.n[0] += 1;
                    is(&s, &st);
                }
                #[kani::proof]
                #[kani::unwind(5)]
                fn add_second() {
                    let (mut s, mut st) = any::<$a, $b>();
                    let x = sp();
                    s.add_span(1, x);
                    st.v[1][st.n[1]] = x;
                    st.n[1] += 1;
                    is(&s, &st);
                }
                #[kani::proof]
                #[kani::unwind(5)]
                fn clear() {
                    let (mut s, mut st) = any::<$a, $b>();
                    let g: usize = kani::any();
                    s.clr_span(g);
                    if g < 2 {
                        st.n[g] = 0;
                    }
                    is(&s, &st);
                }
                #[kani::proof]
                #[kani::unwind(5)]
                fn reset() {
                    let (mut s, mut st) = any::<$a, $b>();
                    s.reset();
                    st.n = [0, 0];
                    is(&s, &st);
                }
                #[kani::proof]
                #[kani::unwind(5)]
                fn capture() {
                    let (mut s, mut st) = any::<$a, $b>();
                    let o = Orc::new(1, 2, 0);
                    let c0 = AC::any();
                    let mut c = c0;
                    let r = s.try_cap(1, &mut c, &R(&o));
                    match o.f(c0.off, c0.len) {
                        Some(n) => {
                            assert!(r == Ok(Span::new(c0.off, n)) && c.off == c0.off + n, "wrong capture");
                            st.v[1][st.n[1]] = Span::new(c0.off, n);
                            st.n[1] += 1;
                        }
                        None => assert!(r.is_err() && c.off == c0.off, "capture of a failed match"),
                    }
                    is(&s, &st);
                }
            }
        };
    }
    ops!(s12 1 2);
    ops!(s20 2 0);
    ops!(s02 0 2);
    #[kani::proof]
    #[kani::unwind(5)]
    fn fresh() {
        kani::cover!(true, "BOUND: 2 groups");
        let st = St { n: [0, 0], v: [[Span::new(0, 0); CAPA]; 2] };
        is(&VecStorer::new(2), &st);
        is(&VecStorer::new(3).with_capacity(2), &st);
        let (s, _) = any::<1, 2>();
        is(&s.with_capacity(2), &st);
    }
}
