//! C13 wrapping a pattern does not change its behaviour.
//! The wrapped pattern is abstract; it calls the handler with its span. For every wrapper the
//! result, the position and the calls of the handler must be those of the pattern itself.
use crate::abs::*;
use core::cell::{Cell, RefCell};
use neure::ctor::{Ctor, Handler};
use neure::err::Error;
use neure::prelude::*;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

/// counts its calls, remembers what it was called with, answers as told
struct Hc<'c> {
    calls: &'c Cell<usize>,
    span: &'c Cell<Span>,
    at: &'c Cell<usize>,
    fail: bool,
}
impl<'c> Handler<AC> for Hc<'c> {
    type Out = Span;
    type Error = Error;
    fn invoke(&mut self, c: &AC, span: &Span) -> Result<Span, Error> {
        self.calls.set(self.calls.get() + 1);
        self.span.set(*span);
        self.at.set(c.off);
        if self.fail { Err(Error::Uid(79)) } else { Ok(*span) }
    }
}
/// an abstract pattern that hands its span to the handler
#[derive(Clone, Copy)]
struct P<'o>(&'o Orc);
impl<'o> Regex<AC> for P<'o> {
    fn try_parse(&self, ctx: &mut AC) -> Result<Span, Error> {
        R(self.0).try_parse(ctx)
    }
}
impl<'o, H: Handler<AC, Out = Span>> Ctor<AC, Span, H> for P<'o> {
    fn construct(&self, ctx: &mut AC, h: &mut H) -> Result<Span, Error> {
        let off = ctx.off;
        let s = R(self.0).try_parse(ctx)?;
        h.invoke(ctx, &s).map_err(|e| {
            ctx.off = off;
            e.into()
        })
    }
}
fn chk_parse<W: Regex<AC> + ?Sized>(w: &W, o: &Orc, c0: AC) {
    let mut c = c0;
    let r = c.try_mat(w);
    match o.end(c0.off, c0.len) {
        Some(e) => {
            assert!(r == Ok(Span::new(c0.off, e - c0.off)), "wrapper changes the match");
            assert!(c.off == e, "wrapper changes the consumption");
        }
        None => assert!(r.is_err() && c.off == c0.off, "wrapper changes the failure"),
    }
}
fn chk_ctor<'c, W: Ctor<AC, Span, Hc<'c>>>(w: &W, o: &Orc, c0: AC, calls: &'c Cell<usize>, span: &'c Cell<Span>, at: &'c Cell<usize>) {
    calls.set(0);
    let fail: bool = kani::any();
    let mut c = c0;
    let r = c.ctor_handler(w, Hc { calls, span, at, fail });
    match o.end(c0.off, c0.len) {
        Some(e) => {
            assert!(calls.get() == 1, "handler not called exactly once");
            assert!(span.get() == Span::new(c0.off, e - c0.off) && at.get() == e, "handler called with something else");
            if fail {
                assert!(r == Err(Error::Uid(79)), "handler failure not reported");
                assert!(c.off == c0.off, "failure moved the position");
            } else {
                assert!(r == Ok(Span::new(c0.off, e - c0.off)), "wrapper changes the value");
                assert!(c.off == e, "wrapper changes the consumption");
            }
            kani::cover!(fail);
            kani::cover!(!fail && e > c0.off);
        }
        None => assert!(r.is_err() && c.off == c0.off && calls.get() == 0, "wrapper changes the failure"),
    }
}
macro_rules! w {
    (both $($name:ident |$p:ident| $e:expr;)*) => { $(
        #[kani::proof]
        #[kani::unwind(3)]
        fn $name() {
            let (calls, span, at) = (Cell::new(0), Cell::new(Span::default()), Cell::new(0));
            let o = Orc::new(1, 2, 0);
            let c0 = AC::any();
            let $p = P(&o);
            let w = $e;
            chk_parse(&w, &o, c0);
            chk_ctor(&w, &o, c0, &calls, &span, &at);
        }
    )* };
    (parse $($name:ident |$p:ident| $e:expr;)*) => { $(
        #[kani::proof]
        #[kani::unwind(3)]
        fn $name() {
            let o = Orc::new(1, 2, 0);
            let c0 = AC::any();
            let $p = P(&o);
            chk_parse($e, &o, c0);
        }
    )* };
}
type DR<'b> = dyn Regex<AC> + 'b;
type DC<'b> = dyn Ctor<AC, Span, Hc<'b>> + 'b;
// smart pointers and cells
w! { both
    p_rc |p| Rc::new(p);
    p_arc |p| Arc::new(p);
    p_cell |p| Cell::new(p);
    p_refcell |p| RefCell::new(p);
    p_mutex |p| Mutex::new(p);
    p_some |p| Some(p);
    p_rc_some_cell |p| Rc::new(Some(Cell::new(p)));
    p_closure |p| move |c: &mut AC| c.try_mat(&p);
}
// dynamic objects
w! { both
    p_box_dyn |p| Box::new(p) as Box<DR>;
    p_box_dyn_ctor |p| Box::new(p) as Box<DC>;
    p_rc_dyn |p| Rc::new(p) as Rc<DR>;
    p_rc_dyn_ctor |p| Rc::new(p) as Rc<DC>;
    p_arc_dyn_ctor |p| Arc::new(p) as Arc<DC>;
    p_as_ctor |p| p.as_ctor();
    p_as_dyn_regex |p| p.as_dyn_regex();
    p_as_dyn_ctor |p| p.as_dyn_ctor();
}
w! { parse
    p_arc_dyn |p| &(Arc::new(p) as Arc<DR>);
    p_dyn |p| (&p as &DR);
}
// adapters made by the helper calls
w! { both
    r_into_ctor |p| p.into_ctor();
    r_box |p| p.into_box_regex();
    r_rc |p| p.into_rc_regex();
    r_arc |p| p.into_arc_regex();
    r_cell |p| p.into_cell_regex();
    r_refcell |p| p.into_refcell_regex();
    r_mutex |p| p.into_mutex_regex();
    r_dyn |p| p.into_dyn_regex();
    r_dyn_arc |p| p.into_dyn_arc_regex();
    r_dyn_rc |p| p.into_dyn_rc_regex();
    c_box |p| CtorIntoHelper::<AC>::into_box(p);
    c_rc |p| CtorIntoHelper::<AC>::into_rc(p);
    c_arc |p| CtorIntoHelper::<AC>::into_arc(p);
    c_cell |p| CtorIntoHelper::<AC>::into_cell(p);
    c_refcell |p| CtorIntoHelper::<AC>::into_refcell(p);
    c_mutex |p| CtorIntoHelper::<AC>::into_mutex(p);
    c_dyn |p| CtorIntoHelper::<AC>::into_dyn::<Span, Hc>(p);
    c_dyn_arc |p| CtorIntoHelper::<AC>::into_dyn_arc::<Span, Hc>(p);
    c_dyn_rc |p| CtorIntoHelper::<AC>::into_dyn_rc::<Span, Hc>(p);
    p_with_inner |p| neure::regex::Adapter::<AC, P>::new(P(&UNUSED.0)).with_inner(p);
    p_from |p| neure::regex::Adapter::<AC, P>::from(p);
    p_clone |p| p.into_ctor().clone();
    c_with_inner |p| neure::ctor::Adapter::<AC, P>::new(P(&UNUSED.0)).with_inner(p);
    c_from |p| neure::ctor::Adapter::<AC, P>::from(p);
}
struct NoSync(Orc);
unsafe impl Sync for NoSync {}
static UNUSED: NoSync = NoSync(Orc::never());

/// an empty option fails without consuming or calling the handler
#[kani::proof]
#[kani::unwind(3)]
fn p_none() {
    let (calls, span, at) = (Cell::new(0), Cell::new(Span::default()), Cell::new(0));
    let c0 = AC::any();
    let w: Option<P> = None;
    let mut c = c0;
    assert!(c.try_mat(&w).is_err() && c == c0, "an empty option fails without consuming");
    let r: Result<Span, _> = c.ctor_handler(&w, Hc { calls: &calls, span: &span, at: &at, fail: false });
    assert!(r.is_err() && c == c0 && calls.get() == 0, "an empty option fails without consuming");
}
/// a constructor function is called with the context and the handler themselves
#[kani::proof]
#[kani::unwind(3)]
fn c_func() {
    let (calls, span, at) = (Cell::new(0), Cell::new(Span::default()), Cell::new(0));
    let o = Orc::new(1, 2, 0);
    let c0 = AC::any();
    let p = P(&o);
    let w = neure::ctor::Adapter::func(move |c: &mut AC, h: &mut Hc| p.construct(c, h));
    chk_ctor(&w, &o, c0, &calls, &span, &at);
}
// units behind pointers
mod units {
    use super::*;
    struct Yes(u8, usize);
    impl Neu<u8> for Yes {
        fn is_match(&self, o: &u8) -> bool {
            *o == self.0
        }
        fn min_length(&self) -> usize {
            self.1
        }
    }
    #[derive(Clone, Copy)]
    struct Cp(u8, usize);
    impl Neu<u8> for Cp {
        fn is_match(&self, o: &u8) -> bool {
            *o == self.0
        }
        fn min_length(&self) -> usize {
            self.1
        }
    }
    fn chk<N: Neu<u8>>(n: N, a: u8, m: usize) {
        let x: u8 = kani::any();
        assert!(n.is_match(&x) == (x == a), "wrapper changes the unit");
        assert!(n.min_length() == m, "wrapper changes the minimum width");
    }
    #[kani::proof]
    #[kani::unwind(3)]
    fn wrapped_units() {
        let (a, m): (u8, usize) = (kani::any(), kani::any());
        chk(Box::new(Yes(a, m)) as Box<dyn Neu<u8>>, a, m);
        chk(RefCell::new(Yes(a, m)), a, m);
        chk(Cell::new(Cp(a, m)), a, m);
        chk(Mutex::new(Cp(a, m)), a, m);
        chk(Arc::new(Yes(a, m)), a, m);
        chk(Rc::new(Yes(a, m)), a, m);
        chk(Arc::new(Yes(a, m)) as Arc<dyn Neu<u8>>, a, m);
        chk(Rc::new(Yes(a, m)) as Rc<dyn Neu<u8>>, a, m);
    }
}
