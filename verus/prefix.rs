//@include prelude

/// a unit: any set of items
pub trait Neu<T> {
    spec fn acc(&self, t: T) -> bool;
    fn is_match(&self, t: &T) -> (r: bool) ensures r == self.acc(*t);
}
/// Cell, and the atomics as one thread sees them: a place that is read and written. The functions take
/// `&mut self` here, since the verifier knows no shared mutation; the text of the bodies is the same.
pub mod cells {
    use super::*;
    pub struct Relaxed;
    pub struct Place<T> { pub v: T }
    impl<T: Copy> Place<T> {
        pub fn new(v: T) -> (r: Self) ensures r.v == v { Place { v } }
        pub fn get(&self) -> (r: T) ensures r == self.v { self.v }
        pub fn set(&mut self, v: T) ensures final(self).v == v { self.v = v; }
        pub fn load(&self, o: Relaxed) -> (r: T) ensures r == self.v { self.v }
        pub fn store(&mut self, v: T, o: Relaxed) ensures final(self).v == v { self.v = v; }
    }
}
use cells::Relaxed;
pub type Cell<T> = cells::Place<T>;
pub type AtomicUsize = cells::Place<usize>;
pub type AtomicBool = cells::Place<bool>;
pub struct PhantomData;

/// the state: how many prefix items are due, and whether all of them so far were accepted
pub struct St { pub due: nat, pub alive: bool }
pub open spec fn step<T, U: Neu<T>, P: Neu<T>>(u: &U, p: &P, s: St, t: T) -> (bool, St) {
    if !s.alive { (false, s) }
    else if s.due > 0 { (p.acc(t), St { due: (s.due - 1) as nat, alive: p.acc(t) }) }
    else { (u.acc(t), s) }
}
/// the state after a history of items
pub open spec fn after<T, U: Neu<T>, P: Neu<T>>(u: &U, p: &P, s: St, h: Seq<T>) -> St
    decreases h.len()
{
    if h.len() == 0 { s } else { step(u, p, after(u, p, s, h.drop_last()), h.last()).1 }
}
/// C22: after any history, the next item is judged by the prefix while prefix items are due, by the unit
/// from then on, and rejected once a prefix item was rejected
pub proof fn history<T, U: Neu<T>, P: Neu<T>>(u: &U, p: &P, n: nat, h: Seq<T>, t: T)
    ensures ({
        let ok = forall|i: int| 0 <= i < h.len() && i < n ==> p.acc(#[trigger] h[i]);
        step(u, p, after(u, p, St { due: n, alive: true }, h), t).0 == (ok && (if h.len() < n { p.acc(t) } else { u.acc(t) }))
    }),
{
    state(u, p, n, h);
}
pub proof fn state<T, U: Neu<T>, P: Neu<T>>(u: &U, p: &P, n: nat, h: Seq<T>)
    ensures ({
        let s = after(u, p, St { due: n, alive: true }, h);
        let ok = forall|i: int| 0 <= i < h.len() && i < n ==> p.acc(#[trigger] h[i]);
        s.alive == ok && (ok ==> s.due == (if h.len() < n { (n - h.len()) as nat } else { 0 }))
    }),
    decreases h.len()
{
    if h.len() > 0 {
        let g = h.drop_last();
        state(u, p, n, g);
        assert forall|i: int| 0 <= i < g.len() implies g[i] == h[i] by {}
        assert(h.last() == h[h.len() - 1]);
        if forall|i: int| 0 <= i < g.len() && i < n ==> p.acc(#[trigger] g[i]) {
            if h.len() - 1 < n {
                assert((forall|i: int| 0 <= i < h.len() && i < n ==> p.acc(#[trigger] h[i])) == p.acc(h.last())) by {
                    if p.acc(h.last()) { assert forall|i: int| 0 <= i < h.len() && i < n implies p.acc(#[trigger] h[i]) by { if i < g.len() { assert(p.acc(g[i])); } } }
                }
            } else {
                assert forall|i: int| 0 <= i < h.len() && i < n implies p.acc(#[trigger] h[i]) by { assert(p.acc(g[i])); }
            }
        } else {
            let i = choose|i: int| 0 <= i < g.len() && i < n && !p.acc(#[trigger] g[i]);
            assert(!p.acc(h[i]));
        }
    }
}

pub struct Prefix<U, P> { pub prefix: P, pub unit: U, pub count: Cell<usize>, pub value: Cell<bool>, pub marker: PhantomData }
impl<U, P> Prefix<U, P> {
    pub open spec fn st(&self) -> St { St { due: self.count.v as nat, alive: self.value.v } }
    //@fn file=src/neu/prefix.rs owner=Prefix fn=new
    pub fn new(prefix: P, count: usize, unit: U) -> (r: Self)
        ensures r.prefix == prefix, r.unit == unit, r.st() == (St { due: count as nat, alive: true }),
    //@end
    //@fn file=src/neu/prefix.rs owner=Prefix fn=set_unit
    pub fn set_unit(&mut self, unit: U) -> (r: &mut Self)
        ensures r.unit == unit, r.prefix == old(self).prefix, r.st() == old(self).st(), *final(self) == *final(r),
    //@end
    //@fn file=src/neu/prefix.rs owner=Prefix fn=set_prefix
    pub fn set_prefix(&mut self, prefix: P) -> (r: &mut Self)
        ensures r.prefix == prefix, r.unit == old(self).unit, r.st() == old(self).st(), *final(self) == *final(r),
    //@end
    //@fn file=src/neu/prefix.rs owner=Prefix fn=unit
    pub fn unit(&self) -> (r: &U) ensures *r == self.unit,
    //@end
    //@fn file=src/neu/prefix.rs owner=Prefix fn=prefix
    pub fn prefix(&self) -> (r: &P) ensures *r == self.prefix,
    //@end
    //@fn file=src/neu/prefix.rs owner=Prefix trait=Neu fn=is_match
    pub fn is_match<T>(&mut self, other: &T) -> (r: bool)
        where U: Neu<T>, P: Neu<T>,
        ensures
            final(self).prefix == old(self).prefix, final(self).unit == old(self).unit,
            (r, final(self).st()) == step(&old(self).unit, &old(self).prefix, old(self).st(), *other)
                || (!r && !old(self).value.v && !final(self).value.v),
    //@end
    //@fn file=src/neu/prefix.rs owner=Prefix trait=Neu fn=min_length
    pub fn min_length(&self) -> (r: usize) ensures r == 0,
    //@end
}
//@fn file=src/neu/prefix.rs fn=prefix
pub fn prefix1<P, U>(prefix: P, unit: U) -> (r: Prefix<U, P>)
    ensures r.prefix == prefix, r.unit == unit, r.st() == (St { due: 1, alive: true }),
//@end
//@fn file=src/neu/prefix.rs fn=prefix_cnt
pub fn prefix_cnt<P, U>(prefix: P, n: usize, unit: U) -> (r: Prefix<U, P>)
    ensures r.prefix == prefix, r.unit == unit, r.st() == (St { due: n as nat, alive: true }),
//@end

pub struct PrefixSync<U, P> { pub prefix: P, pub unit: U, pub count: AtomicUsize, pub value: AtomicBool, pub marker: PhantomData }
impl<U, P> PrefixSync<U, P> {
    pub open spec fn st(&self) -> St { St { due: self.count.v as nat, alive: self.value.v } }
    //@fn file=src/neu/prefix.rs owner=PrefixSync fn=new
    pub fn new(prefix: P, count: usize, unit: U) -> (r: Self)
        ensures r.prefix == prefix, r.unit == unit, r.st() == (St { due: count as nat, alive: true }),
    //@end
    //@fn file=src/neu/prefix.rs owner=PrefixSync fn=set_unit
    pub fn set_unit(&mut self, unit: U) -> (r: &mut Self)
        ensures r.unit == unit, r.prefix == old(self).prefix, r.st() == old(self).st(), *final(self) == *final(r),
    //@end
    //@fn file=src/neu/prefix.rs owner=PrefixSync fn=set_prefix
    pub fn set_prefix(&mut self, prefix: P) -> (r: &mut Self)
        ensures r.prefix == prefix, r.unit == old(self).unit, r.st() == old(self).st(), *final(self) == *final(r),
    //@end
    //@fn file=src/neu/prefix.rs owner=PrefixSync fn=unit
    pub fn unit(&self) -> (r: &U) ensures *r == self.unit,
    //@end
    //@fn file=src/neu/prefix.rs owner=PrefixSync fn=prefix
    pub fn prefix(&self) -> (r: &P) ensures *r == self.prefix,
    //@end
    //@fn file=src/neu/prefix.rs owner=PrefixSync trait=Neu fn=is_match
    pub fn is_match<T>(&mut self, other: &T) -> (r: bool)
        where U: Neu<T>, P: Neu<T>,
        ensures
            final(self).prefix == old(self).prefix, final(self).unit == old(self).unit,
            (r, final(self).st()) == step(&old(self).unit, &old(self).prefix, old(self).st(), *other)
                || (!r && !old(self).value.v && !final(self).value.v),
    //@end
    //@fn file=src/neu/prefix.rs owner=PrefixSync trait=Neu fn=min_length
    pub fn min_length(&self) -> (r: usize) ensures r == 0,
    //@end
}
//@fn file=src/neu/prefix.rs fn=prefix_sync
pub fn prefix_sync1<P, U>(prefix: P, unit: U) -> (r: PrefixSync<U, P>)
    ensures r.prefix == prefix, r.unit == unit, r.st() == (St { due: 1, alive: true }),
//@end
//@fn file=src/neu/prefix.rs fn=prefix_sync_cnt
pub fn prefix_sync_cnt<P, U>(prefix: P, count: usize, unit: U) -> (r: PrefixSync<U, P>)
    ensures r.prefix == prefix, r.unit == unit, r.st() == (St { due: count as nat, alive: true }),
//@end
} // verus!
