//! C20: dynamic and recursive patterns.
use crate::abs::*;
use crate::combos::Hd;
use crate::spec::*;
use core::cell::Cell;
use neure::ctor::{Ctor, DynamicCtorThenBuilderHelper};
use neure::ctx::{Context, Match, MatchExt};
use neure::err::Error;
use neure::prelude::*;
use neure::regex::{DynamicRegexBuilderHelper, Regex, into_regex_builder, rec_parser, rec_parser_sync, RecursiveParser, RecParser, RecParserSync, RecursiveParserSync};
use neure::span::Span;

mod dynamic {
    use super::*;
    fn two() -> (Orc, Orc, Orc, AC) {
        (Orc::new(1, 3, 0), Orc::new(2, 3, 0), Orc::new(3, 3, 0), AC::any())
    }
    /// the produced pattern is chosen by a function of what was matched first
    #[kani::proof]
    fn regex_builder() {
        let (a, b, d, c0) = two();
        let (pick, ok): (bool, bool) = kani::any();
        let mut c = c0;
        let calls = Cell::new(0);
        let p = R(&a).into_regex_builder(|c: &mut AC, s: &Span| {
            calls.set(calls.get() + 1);
            assert!(*s == Span::new(c0.off, a.f(c0.off, c0.len).unwrap()), "builder given another span");
            assert!(c.off == s.beg + s.len, "builder run at another position");
            if ok { Ok(if pick { R(&b) } else { R(&d) }) } else { Err(Error::Uid(9)) }
        });
        let r = c.try_mat(&p);
        let second = if pick { &b } else { &d };
        let exp = a.end(c0.off, c0.len).filter(|_| ok).and_then(|m| second.end(m, c0.len).map(|e| (m, e)));
        match (r, exp) {
            (Ok(s), Some((m, e))) => assert!(s == Span::new(m, e - m) && c.off == e && calls.get() == 1, "wrong result of the produced pattern"),
            (Err(_), None) => assert!(c.off == c0.off, "failure of a stage moved the position"),
            _ => panic!("wrong outcome"),
        }
        assert!(calls.get() == a.end(c0.off, c0.len).is_some() as u32, "builder must run once, after the first match");
    }
    #[kani::proof]
    fn regex_builder_moving() {
        // the builder may move the position; the produced pattern runs where it left it
        let (a, b, _, c0) = two();
        let to: usize = kani::any();
        kani::assume(to <= c0.len);
        let mut c = c0;
        let p = into_regex_builder(R(&a), |c: &mut AC, _: &Span| { c.set_offset(to); Ok(R(&b)) });
        let r = c.try_mat(&p);
        let exp = a.end(c0.off, c0.len).and_then(|_| b.end(to, c0.len));
        match (r, exp) {
            (Ok(s), Some(e)) => assert!(s == Span::new(to, e - to) && c.off == e, "wrong result of the produced pattern"),
            (Err(_), None) => assert!(c.off == c0.off, "failure of a stage moved the position"),
            _ => panic!("wrong outcome"),
        }
    }
    #[kani::proof]
    fn ctor_then_builder() {
        let (a, b, d, c0) = two();
        let (pick, ok): (bool, bool) = kani::any();
        let mut c = c0;
        let calls = Cell::new(0);
        let p = R(&a).into_ctor_then_builder(|c: &mut AC, v: &V| {
            calls.set(calls.get() + 1);
            assert!(*v == a.val(c0.off, c0.len), "builder given another value");
            assert!(c.off == v.beg + v.len, "builder run at another position");
            if ok { Ok(if pick { R(&b) } else { R(&d) }) } else { Err(Error::Uid(9)) }
        });
        let r: Result<(V, V), Error> = c.ctor_handler(&p, Hd { fail: false });
        let second = if pick { &b } else { &d };
        let exp = a.end(c0.off, c0.len).filter(|_| ok).and_then(|m| second.end(m, c0.len).map(|e| (m, e)));
        match (r, exp) {
            (Ok(v), Some((m, e))) => assert!(v == (a.val(c0.off, c0.len), second.val(m, c0.len)) && c.off == e, "wrong values"),
            (Err(_), None) => assert!(c.off == c0.off, "failure of a stage moved the position"),
            _ => panic!("wrong outcome"),
        }
        assert!(calls.get() == a.end(c0.off, c0.len).is_some() as u32, "builder must run once, after the first part");
    }
    #[kani::proof]
    fn ctor_then_builder_sloppy() {
        // sub-patterns whose failing construction leaves the position anywhere
        let (a, b, c0) = (Orc::sloppy(1, 3, 0), Orc::sloppy(2, 3, 0), AC::any());
        let mut c = c0;
        let p = R(&a).into_ctor_then_builder(|_: &mut AC, _: &V| Ok(R(&b)));
        let r: Result<(V, V), Error> = c.ctor_handler(&p, Hd { fail: false });
        if r.is_err() {
            assert!(c.off == c0.off, "failure of a stage moved the position");
        }
    }
    #[kani::proof]
    fn ctor_then_builder_selected() {
        let (a, b, _, c0) = two();
        let p = |c: &mut AC, v: &V| { let _ = (c, v); Ok(R(&b)) };
        let (mut c1, mut c2, mut c3) = (c0, c0, c0);
        let x: Result<V, Error> = c1.ctor_handler(&R(&a).into_ctor_then_builder(p)._0(), Hd { fail: false });
        let y: Result<V, Error> = c2.ctor_handler(&R(&a).into_ctor_then_builder(p)._1(), Hd { fail: false });
        let z: Result<(V, V), Error> = c3.ctor_handler(&R(&a).into_ctor_then_builder(p)._eq::<V, V>(), Hd { fail: false });
        let exp = a.end(c0.off, c0.len).and_then(|m| b.end(m, c0.len).map(|e| (m, e)));
        match exp {
            Some((m, e)) => {
                assert!(x == Ok(a.val(c0.off, c0.len)) && c1.off == e, "not the first value");
                assert!(y == Ok(b.val(m, c0.len)) && c2.off == e, "not the second value");
                assert!(z.is_err() && c3.off == c0.off, "unequal values accepted");
            }
            None => assert!(x.is_err() && y.is_err() && z.is_err() && c1.off == c0.off && c2.off == c0.off && c3.off == c0.off,
                "failure of a stage moved the position"),
        }
    }
    #[kani::proof]
    fn setters() {
        let (a, b, d, c0) = two();
        let p = |c: &mut AC, v: &V| { let _ = (c, v); Ok(R(&b)) };
        let mut q = R(&a).into_ctor_then_builder(p);
        q.set_pat(R(&d));
        let mut c = c0;
        let r: Result<(V, V), Error> = c.ctor_handler(&q, Hd { fail: false });
        let exp = d.end(c0.off, c0.len).and_then(|m| b.end(m, c0.len).map(|e| (m, e)));
        match (r, exp) {
            (Ok(v), Some((m, e))) => assert!(v == (d.val(c0.off, c0.len), b.val(m, c0.len)) && c.off == e, "not the pattern that was set"),
            (Err(_), None) => assert!(c.off == c0.off, "failure of a stage moved the position"),
            _ => panic!("wrong outcome"),
        }
        *q.pat_mut() = R(&a);
        assert!((&q).pat().0.id == 1);
    }
    /// patterns made from the context itself
    #[kani::proof]
    fn from_context() {
        let (a, b, _, c0) = two();
        // a closure over the context chooses the pattern from the position
        let p = |c: &mut AC| if c.off % 2 == 0 { c.try_mat(&R(&a)) } else { c.try_mat(&R(&b)) };
        let o = if c0.off % 2 == 0 { &a } else { &b };
        check_parse(&p, c0, o.end(c0.off, c0.len));
        let q = R(&a).then(p);
        let exp = a.end(c0.off, c0.len).and_then(|m| (if m % 2 == 0 { &a } else { &b }).end(m, c0.len));
        check_parse(&q, c0, exp);
    }
    /// the produced pattern may itself be dynamic
    #[kani::proof]
    fn nested() {
        let (a, b, d, c0) = two();
        let mut c = c0;
        let p = R(&a).into_ctor_then_builder(|_: &mut AC, _: &V| {
            Ok(R(&b).into_ctor_then_builder(|_: &mut AC, _: &V| Ok(R(&d))))
        });
        let r: Result<(V, (V, V)), Error> = c.ctor_handler(&p, Hd { fail: false });
        let exp = (|| {
            let x = a.end(c0.off, c0.len)?;
            let y = b.end(x, c0.len)?;
            Some((x, y, d.end(y, c0.len)?))
        })();
        match (r, exp) {
            (Ok(v), Some((x, y, e))) => assert!(v == (a.val(c0.off, c0.len), (b.val(x, c0.len), d.val(y, c0.len))) && c.off == e, "wrong values"),
            (Err(_), None) => assert!(c.off == c0.off, "failure of a stage moved the position"),
            _ => panic!("wrong outcome"),
        }
    }
}

/// x := open x close | leaf, to any depth the input allows
mod recursive {
    use super::*;
    const REM: usize = 3;
    fn spec(o: &Orc, a: &Orc, z: &Orc, p: usize, len: usize, fuel: usize) -> Option<(u8, usize)> {
        let nested = if fuel == 0 { None } else {
            o.end(p, len).and_then(|q| spec(o, a, z, q, len, fuel - 1)).and_then(|(d, q)| z.end(q, len).map(|q| (d + 1, q)))
        };
        nested.or_else(|| a.end(p, len).map(|q| (0, q)))
    }
    #[derive(Clone, Copy)]
    struct Zero<'o>(R<'o>);
    impl<'o> Regex<AC> for Zero<'o> {
        fn try_parse(&self, c: &mut AC) -> Result<Span, Error> { self.0.try_parse(c) }
    }
    impl<'o, H> Ctor<AC, u8, H> for Zero<'o> {
        fn construct(&self, c: &mut AC, _: &mut H) -> Result<u8, Error> {
            self.0.try_parse(c).map(|_| 0)
        }
    }
    #[kani::proof]
    #[kani::unwind(6)]
    fn unfolds() {
        let c0 = AC::any_rem(REM);
        let (o, a, z) = (Orc::dense(1, &c0, REM, 1), Orc::dense(2, &c0, REM, 0), Orc::dense(3, &c0, REM, 0));
        let p = rec_parser::<AC, u8, Hd, _>(|x| {
            x.enclose(R(&o), R(&z)).map(|d: u8| d + 1).or(Zero(R(&a)))
        });
        let mut c = c0;
        let r: Result<u8, Error> = c.ctor_handler(&p, Hd { fail: false });
        match (r, spec(&o, &a, &z, c0.off, c0.len, REM + 1)) {
            (Ok(d), Some((x, e))) => assert!(d == x && c.off == e, "recursive pattern does not unfold to its definition"),
            (Err(_), None) => assert!(c.off == c0.off, "failure moved the position"),
            _ => panic!("wrong outcome"),
        }
    }
    /// one unfolding, any input: the recursive handle behaves as the defined pattern
    #[kani::proof]
    #[kani::unwind(3)]
    fn no_self_use() {
        let (a, c0) = (Orc::new(1, 2, 0), AC::any());
        let p = rec_parser::<AC, V, Hd, _>(|_| R(&a));
        check_ctor(&p, c0, a.end(c0.off, c0.len).map(|e| (a.val(c0.off, c0.len), e)));
        let p = <RecParser as RecursiveParser<AC>>::build::<V, _, Hd, _>(|_| R(&a));
        check_ctor(&p, c0, a.end(c0.off, c0.len).map(|e| (a.val(c0.off, c0.len), e)));
    }
    #[kani::proof]
    #[kani::unwind(3)]
    fn no_self_use_sync() {
        let c0 = AC::any();
        let (n, ok): (usize, bool) = kani::any();
        kani::assume(n <= c0.len - c0.off);
        // (a thread-safe abstract pattern)
        #[derive(Clone, Copy)]
        struct S(usize, bool);
        impl Regex<AC> for S {
            fn try_parse(&self, c: &mut AC) -> Result<Span, Error> {
                let b = c.off;
                if self.1 { c.off += self.0; Ok(Span::new(b, self.0)) } else { Err(Error::Uid(1)) }
            }
        }
        impl<H> Ctor<AC, usize, H> for S {
            fn construct(&self, c: &mut AC, _: &mut H) -> Result<usize, Error> {
                if self.1 { c.off += self.0; Ok(self.0) } else { Err(Error::Uid(1)) }
            }
        }
        let exp = if ok { Some((n, c0.off + n)) } else { None };
        let p = rec_parser_sync::<AC, usize, _, Hd>(|_| S(n, ok));
        check_ctor(&p, c0, exp);
        let p = <RecParserSync as RecursiveParserSync<AC>>::build::<usize, _, Hd, _>(|_| S(n, ok));
        check_ctor(&p, c0, exp);
    }
    /// std's Mutex is not reentrant: locking one already held by this thread never returns
    #[cfg(kani)]
    fn lock_stub<T: ?Sized>(m: &std::sync::Mutex<T>) -> std::sync::LockResult<std::sync::MutexGuard<'_, T>> {
        match m.try_lock() {
            Ok(g) => Ok(g),
            Err(_) => panic!("SELF-DEADLOCK: a thread locks a mutex it holds"),
        }
    }
    /// (the known finding of rec_parser_sync: any use of the handle while it is being used)
    #[kani::proof]
    #[kani::stub(std::sync::Mutex::lock, lock_stub)]
    #[kani::unwind(4)]
    fn sync_reentrant() {
        let c0 = AC::any();
        kani::assume(c0.off < c0.len);
        #[derive(Clone, Copy)]
        struct U(bool);
        impl Regex<AC> for U {
            fn try_parse(&self, c: &mut AC) -> Result<Span, Error> {
                let b = c.off;
                if self.0 { c.off += 1; Ok(Span::new(b, 1)) } else { Err(Error::Uid(1)) }
            }
        }
        impl<H> Ctor<AC, usize, H> for U {
            fn construct(&self, c: &mut AC, _: &mut H) -> Result<usize, Error> {
                self.try_parse(c).map(|s| s.len)
            }
        }
        // x := leaf-that-fails x | leaf
        let p = rec_parser_sync::<AC, usize, _, Hd>(|x| U(false).or(x.or(U(true)).enclose(U(true), U(true))));
        let mut c = c0;
        let _: Result<usize, Error> = c.ctor_handler(&p, Hd { fail: false });
    }
}
