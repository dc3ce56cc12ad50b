//! C21: iterators over captured spans.
use neure::iter::*;
use neure::span::*;

#[cfg(not(feature = "thorough"))]
const N: usize = 1;
#[cfg(feature = "thorough")]
const N: usize = 2;
const L: usize = 4;

fn sp() -> Span {
    // any span near the value, or a far one
    if kani::any() {
        Span::new((kani::any::<u8>() & 7) as usize, (kani::any::<u8>() & 7) as usize)
    } else {
        Span::new(kani::any(), kani::any())
    }
}
fn bound() {
    kani::cover!(true, "BOUND: 1 (thorough: 2) spans over a value of 4 bytes");
}
/// the range a span denotes in a byte value of length L
fn den(s: Option<Span>) -> Option<(usize, usize)> {
    s.and_then(|s| if s.beg <= L && s.len <= L - s.beg { Some((s.beg, s.len)) } else { None })
}
fn text_den(s: Option<Span>, bounds: &[bool; L + 1]) -> Option<(usize, usize)> {
    den(s).filter(|(b, l)| bounds[*b] && bounds[*b + *l])
}
/// steps through the whole iterator and past its end
fn drive<'a, I: Iterator>(mut it: I, exp: [Option<(usize, usize)>; N], base: *const u8, at: impl Fn(I::Item) -> (*const u8, usize), size: bool) {
    let mut k = 0;
    let mut left = 0;
    let mut i = 0;
    while i < N {
        left += exp[i].is_some() as usize;
        i += 1;
    }
    let mut step = 0;
    while step < N + 2 {
        if size {
            assert!(it.size_hint() == (left, Some(left)), "reported size is not the number of items to come");
        }
        while k < N && exp[k].is_none() {
            k += 1;
        }
        match it.next() {
            Some(x) => {
                assert!(k < N, "more items than spans");
                let (p, l) = at(x);
                let (b, n) = exp[k].unwrap();
                assert!(p as usize == base as usize + b && l == n, "another range yielded");
                k += 1;
                left -= 1;
            }
            None => assert!(k == N, "an item was skipped"),
        }
        step += 1;
    }
}
fn any_opts() -> [Option<Span>; N] {
    core::array::from_fn(|_| if kani::any() { Some(sp()) } else { None })
}

mod slices {
    use super::*;
    #[kani::proof]
    #[kani::unwind(6)]
    fn bytes() {
        bound();
        let v: [u8; L] = kani::any();
        let s: [Span; N] = core::array::from_fn(|_| sp());
        let exp = core::array::from_fn(|i| den(Some(s[i])));
        drive(IteratorBySpan::new(&v[..], &s), exp, v.as_ptr(), |x: &[u8]| (x.as_ptr(), x.len()), true);
    }
    #[kani::proof]
    #[kani::unwind(6)]
    fn option_bytes() {
        bound();
        let v: [u8; L] = kani::any();
        let s = any_opts();
        let exp = core::array::from_fn(|i| den(s[i]));
        drive(IteratorByOptionSpan::new(&v[..], &s), exp, v.as_ptr(), |x: &[u8]| (x.as_ptr(), x.len()), true);
    }
    // a text with a one-byte and a three-byte character, in both orders
    fn text() -> (&'static str, [bool; L + 1]) {
        if kani::any() { ("a\u{4e2d}", [true, true, false, false, true]) } else { ("\u{4e2d}a", [true, false, false, true, true]) }
    }
    #[kani::proof]
    #[kani::unwind(6)]
    fn text_spans() {
        bound();
        let (v, bs) = text();
        let s: [Span; N] = core::array::from_fn(|_| sp());
        let exp = core::array::from_fn(|i| text_den(Some(s[i]), &bs));
        drive(IteratorBySpan::new(v, &s), exp, v.as_ptr(), |x: &str| (x.as_ptr(), x.len()), true);
    }
    #[kani::proof]
    #[kani::unwind(6)]
    fn option_text_spans() {
        bound();
        let (v, bs) = text();
        let s = any_opts();
        let exp = core::array::from_fn(|i| text_den(s[i], &bs));
        drive(IteratorByOptionSpan::new(v, &s), exp, v.as_ptr(), |x: &str| (x.as_ptr(), x.len()), true);
    }
    /// every value type one can index
    #[kani::proof]
    #[kani::unwind(6)]
    fn indexing() {
        bound();
        let v: [u8; L] = kani::any();
        let s = sp();
        let d = den(Some(s));
        let chk = |x: Option<&[u8]>, base: *const u8| match (x, d) {
            (Some(x), Some((b, l))) => assert!(x.as_ptr() as usize == base as usize + b && x.len() == l, "another range"),
            (None, None) => {}
            _ => panic!("range inside the value not given, or outside given"),
        };
        chk(v[..].get_by_span(&s), v.as_ptr());
        chk((&v[..]).get_by_span(&s), v.as_ptr());
        let w = v.to_vec();
        chk(w.get_by_span(&s), w.as_ptr());
        chk((&w).get_by_span(&s), w.as_ptr());
    }
    #[kani::proof]
    #[kani::unwind(6)]
    fn indexing_text() {
        bound();
        let (v, bs) = text();
        let s = sp();
        let d = text_den(Some(s), &bs);
        let chk = |x: Option<&str>| match (x, d) {
            (Some(x), Some((b, l))) => assert!(x.as_ptr() as usize == v.as_ptr() as usize + b && x.len() == l, "another range"),
            (None, None) => {}
            _ => panic!("range inside the value not given, or outside given"),
        };
        chk(v.get_by_span(&s));
        chk((&v).get_by_span(&s));
    }
}

/// any value: which of the spans denote something is arbitrary
mod any_value {
    use super::*;
    const M: usize = 3;
    struct Val([bool; M], [u8; M]);
    impl IndexBySpan for Val {
        type Output = u8;
        fn get_by_span(&self, s: &Span) -> Option<&u8> {
            if self.0[s.beg] { Some(&self.1[s.beg]) } else { None }
        }
    }
    fn go<'a>(mut it: impl ExactSizeIterator<Item = &'a u8>, has: [bool; M]) {
        let mut k = 0;
        let mut left = has[0] as usize + has[1] as usize + has[2] as usize;
        let mut step = 0;
        while step < M + 2 {
            assert!(it.size_hint() == (left, Some(left)) && it.len() == left, "reported size is not the number of items to come");
            while k < M && !has[k] {
                k += 1;
            }
            match it.next() {
                Some(x) => {
                    assert!(k < M && *x == k as u8, "another item yielded");
                    k += 1;
                    left -= 1;
                }
                None => assert!(k == M, "an item was skipped"),
            }
            step += 1;
        }
    }
    #[kani::proof]
    #[kani::unwind(8)]
    fn plain() {
        kani::cover!(true, "BOUND: 3 spans");
        let v = Val(kani::any(), [0, 1, 2]);
        let s: [Span; M] = core::array::from_fn(|i| Span::new(i, kani::any()));
        go(IteratorBySpan::new(&v, &s), v.0);
    }
    #[kani::proof]
    #[kani::unwind(8)]
    fn options() {
        kani::cover!(true, "BOUND: 3 spans");
        let v = Val(kani::any(), [0, 1, 2]);
        let some: [bool; M] = kani::any();
        let s: [Option<Span>; M] = core::array::from_fn(|i| if some[i] { Some(Span::new(i, kani::any())) } else { None });
        go(IteratorByOptionSpan::new(&v, &s), core::array::from_fn(|i| some[i] && v.0[i]));
    }
    /// through the storers
    #[kani::proof]
    #[kani::unwind(8)]
    fn array_storer() {
        kani::cover!(true, "BOUND: 3 spans");
        let v = Val(kani::any(), [0, 1, 2]);
        let some: [bool; M] = kani::any();
        let a: [Option<Span>; M] = core::array::from_fn(|i| if some[i] { Some(Span::new(i, 1)) } else { None });
        let st = ArrayStorer::<2, M>::new_with([[None; M], a]);
        match st.slice_iter(&v, 1) {
            Some(mut it) => {
                let first = (0..M).find(|i| some[*i] && v.0[*i]);
                assert!(it.next().copied() == first.map(|i| i as u8), "another item yielded first");
            }
            None => assert!(some == [false; M], "spans not iterated"),
        }
        assert!(st.slice_iter(&v, 0).is_none() && st.slice_iter(&v, 2).is_none());
    }
    #[kani::proof]
    #[kani::unwind(8)]
    fn vec_storer() {
        kani::cover!(true, "BOUND: 3 spans");
        let v = Val(kani::any(), [0, 1, 2]);
        let st = VecStorer::new_with(vec![vec![Span::new(0, 1), Span::new(1, 1), Span::new(2, 1)], vec![]]);
        go(st.slice_iter(&v, 0).unwrap(), v.0);
        assert!(st.slice_iter(&v, 1).is_none() && st.slice_iter(&v, 2).is_none());
    }
}

mod spans {
    use super::*;
    #[kani::proof]
    #[kani::unwind(6)]
    fn plain() {
        const N: usize = 3;
        kani::cover!(true, "BOUND: 3 spans");
        let s: [Span; N] = core::array::from_fn(|_| sp());
        let n: usize = kani::any();
        kani::assume(n <= N);
        let mut it = SpanIterator::new(&s[..n]);
        let mut i = 0;
        while i < N + 2 {
            let exp = if i < n { Some(s[i]) } else { None };
            let (lo, hi) = it.size_hint();
            assert!(lo <= n.saturating_sub(i) && hi.is_none_or(|h| h >= n.saturating_sub(i)), "wrong size bounds");
            assert!(it.next() == exp, "another span yielded");
            i += 1;
        }
    }
    #[kani::proof]
    #[kani::unwind(6)]
    fn options() {
        const N: usize = 3;
        kani::cover!(true, "BOUND: 3 spans");
        let s: [Option<Span>; N] = core::array::from_fn(|_| if kani::any() { Some(sp()) } else { None });
        let mut it = OptionSpanIterator::new(&s);
        let mut k = 0;
        let mut step = 0;
        while step < N + 2 {
            while k < N && s[k].is_none() {
                k += 1;
            }
            let exp = if k < N { s[k] } else { None };
            assert!(it.next() == exp, "another span yielded");
            k = if k < N { k + 1 } else { k };
            step += 1;
        }
    }
}

mod items {
    use super::*;
    /// from an arbitrary point of the iteration on: one step of the byte iterator over a value of any length
    #[kani::proof]
    #[kani::unwind(7)]
    fn bytes_indices() {
        bound();
        let v: [u8; L] = kani::any();
        let n: usize = kani::any();
        kani::assume(n <= L);
        let mut it = BytesIndices::new(&v[..n]);
        let mut i = 0;
        while i < L + 2 {
            let left = n.saturating_sub(i);
            assert!(it.size_hint() == (left, Some(left)) && it.len() == left, "reported size is not the number of items to come");
            let c = it;
            let exp = if i < n { Some((i, v[i])) } else { None };
            assert!(it.next() == exp, "another item yielded");
            assert!(c.clone().next() == exp, "a copy continues elsewhere");
            i += 1;
        }
    }
    #[kani::proof]
    #[kani::unwind(7)]
    fn wide_indices() {
        bound();
        let v: [u32; 3] = kani::any();
        let mut it = BytesIndices::new(&v[..]);
        let mut i = 0;
        while i < 5 {
            let left = 3usize.saturating_sub(i);
            assert!(it.len() == left, "reported size is not the number of items to come");
            assert!(it.next() == if i < 3 { Some((i, v[i])) } else { None }, "another item yielded");
            i += 1;
        }
    }
}
