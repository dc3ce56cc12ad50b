//! C17: the transaction guard.
//!
//! The guard's state is (start, failed?, position of the context). Each operation is checked from an
//! arbitrary such state, reached by an arbitrary start, an optional failure and an arbitrary position;
//! so the contracts cover every sequence of operations.
use crate::abs::*;
use neure::ctx::{Context, CtxGuard, Match};
use neure::err::Error;
use neure::span::Span;

/// bring a fresh guard on `c` into any reachable state; returns whether a failure was recorded
fn any_state(g: &mut CtxGuard<'_, '_, AC>, len: usize) -> bool {
    let failed: bool = kani::any();
    if failed {
        if kani::any() {
            assert!(g.process_ret::<u8>(Err(Error::Uid(3))) == Err(Error::Uid(3)), "result changed");
        } else {
            assert!(g.try_mat(&|_: &mut AC| Err::<Span, _>(Error::Uid(4))) == Err(Error::Uid(4)), "result changed");
        }
    }
    let pos: usize = kani::any();
    kani::assume(pos <= len);
    g.ctx().set_offset(pos);
    failed
}
/// what must hold of every guard in every state, and after dropping it
fn view(g: &mut CtxGuard<'_, '_, AC>, c0: AC, pos: usize) {
    assert!(g.beg() == c0.off, "guard begins elsewhere");
    assert!(g.end() == pos, "guard ends elsewhere");
    assert!(g.len() == c0.len, "wrong length of the input");
    assert!(g.is_empty() == (c0.len == 0), "wrong emptiness of the input");
    assert!(g.ctx().off == pos && g.ctx().len == c0.len);
}
macro_rules! guard {
    ($($name:ident |$g:ident, $c0:ident, $pos:ident, $failed:ident| $body:block)*) => { $(
        #[kani::proof]
        fn $name() {
            let $c0 = AC::any();
            let mut c = $c0;
            let ($failed, $pos);
            {
                let mut g = CtxGuard::new(&mut c);
                view(&mut g, $c0, $c0.off);
                let mut f = any_state(&mut g, $c0.len);
                let mut p = g.end();
                view(&mut g, $c0, p);
                {
                    let ($g, $pos, $failed) = (&mut g, &mut p, &mut f);
                    $body
                }
                view(&mut g, $c0, p);
                $failed = f;
                $pos = p;
            }
            assert!(c.len == $c0.len);
            if $failed {
                assert!(c.off == $c0.off, "failure recorded but the position is not restored");
            } else {
                assert!(c.off == $pos, "no failure recorded but the position was changed");
            }
        }
    )* };
}
guard! {
    nothing |g, c0, pos, failed| { let _ = (g, c0, pos, failed); }
    advance |g, c0, pos, failed| {
        let n: usize = kani::any();
        kani::assume(n <= c0.len - *pos);
        let s = g.inc(n);
        assert!(s == Span::new(*pos, n), "advancing reports another range");
        *pos += n;
        let _ = failed;
    }
    explicit_reset |g, c0, pos, failed| {
        g.reset();
        *pos = c0.off;
        let _ = failed;
    }
    a_match |g, c0, pos, failed| {
        let o = Orc::new(1, 2, 0);
        let at = *pos;
        let r = g.try_mat(&R(&o));
        match o.f(at, c0.len) {
            Some(n) => { assert!(r == Ok(Span::new(at, n)), "wrong match result"); *pos = at + n; }
            None => { assert!(r.is_err(), "wrong match result"); *failed = true; }
        }
    }
    // a pattern of the user's that fails after having moved the position
    a_sloppy_match |g, c0, pos, failed| {
        let to: usize = kani::any();
        kani::assume(to <= c0.len);
        let r = g.try_mat(&move |c: &mut AC| { c.set_offset(to); Err::<Span, _>(Error::Uid(6)) });
        assert!(r == Err(Error::Uid(6)), "wrong match result");
        *pos = to;
        *failed = true;
    }
    a_dyn_match |g, c0, pos, failed| {
        let o = Orc::new(1, 2, 0);
        let at = *pos;
        let h = R(&o);
        let d: &dyn neure::regex::Regex<AC> = &h;
        let r = g.try_mat(d);
        match o.f(at, c0.len) {
            Some(n) => { assert!(r == Ok(Span::new(at, n)), "wrong match result"); *pos = at + n; }
            None => { assert!(r.is_err(), "wrong match result"); *failed = true; }
        }
    }
    a_result |g, c0, pos, failed| {
        let v: Result<u64, ()> = kani::any();
        let v = v.map_err(|_| Error::Uid(5));
        let exp = v.clone();
        assert!(g.process_ret(v) == exp, "result changed");
        if exp.is_err() { *failed = true; }
        let _ = (pos, c0);
    }
    peeking |g, c0, pos, failed| {
        assert!(g.peek().is_ok());
        let at: usize = kani::any();
        assert!(g.peek_at(at).is_ok() == (at <= c0.len));
        let _ = (pos, failed);
    }
}
