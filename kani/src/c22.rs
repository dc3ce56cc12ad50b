//! C22: a prefixed unit demands its prefix count first, then its unit, then stays failed.
use core::cell::Cell;
use neure::neu::*;

#[cfg(not(feature = "thorough"))]
const K: usize = 5;
#[cfg(feature = "thorough")]
const K: usize = 9;

/// the k-th item is `k`; sub-units answer by tables
#[derive(Clone, Copy)]
struct Tab<'a>(&'a [bool; K], &'a Cell<usize>);
impl Neu<u8> for Tab<'_> {
    fn is_match(&self, k: &u8) -> bool {
        self.1.set(self.1.get() + 1);
        self.0[*k as usize]
    }
}

macro_rules! variants {
    ($($m:ident $cnt:ident $one:ident $ty:ident;)*) => { $(
        mod $m {
            use super::*;
            /// answers to items `from..K` in a state where `n` prefix items are due
            fn history(u: &impl Neu<u8>, pre: &[bool; K], unit: &[bool; K], from: usize, n: usize, alive: bool) {
                let (mut n, mut alive) = (n, alive);
                let mut k = from;
                while k < K {
                    let got = u.is_match(&(k as u8));
                    let exp = if !alive { false } else if n > 0 { pre[k] } else { unit[k] };
                    assert!(got == exp, "item answered wrongly");
                    if alive && n > 0 {
                        n -= 1;
                        alive = exp;
                    }
                    k += 1;
                }
            }
            #[kani::proof]
            #[kani::unwind(10)]
            fn any_count() {
                kani::cover!(true, "BOUND: histories of at most 5 items (thorough: 9)");
                let (pre, unit): ([bool; K], [bool; K]) = (kani::any(), kani::any());
                let z = Cell::new(0);
                let n: usize = kani::any();
                let u = $cnt::<u8, _, _>(Tab(&pre, &z), n, Tab(&unit, &z));
                history(&u, &pre, &unit, 0, n, true);
                assert!(u.min_length() == 0, "declared minimum width above the width of an accepted item");
            }
            #[kani::proof]
            #[kani::unwind(10)]
            fn one() {
                kani::cover!(true, "BOUND: histories of at most 5 items (thorough: 9)");
                let (pre, unit): ([bool; K], [bool; K]) = (kani::any(), kani::any());
                let z = Cell::new(0);
                history(&$one::<u8, _, _>(Tab(&pre, &z), Tab(&unit, &z)), &pre, &unit, 0, 1, true);
                history(&$ty::<_, _, u8>::new(Tab(&pre, &z), 2, Tab(&unit, &z)), &pre, &unit, 0, 2, true);
            }
            /// a clone continues from the same state and is independent of the original
            #[kani::proof]
            #[kani::unwind(10)]
            fn cloned() {
                kani::cover!(true, "BOUND: histories of at most 5 items (thorough: 9)");
                let (pre, unit): ([bool; K], [bool; K]) = (kani::any(), kani::any());
                let z = Cell::new(0);
                let n: usize = kani::any();
                let u = $cnt::<u8, _, _>(Tab(&pre, &z), n, Tab(&unit, &z));
                u.is_match(&0);
                let c = u.clone();
                let alive = n == 0 || pre[0];
                history(&u, &pre, &unit, 1, n.saturating_sub(1), alive);
                history(&c, &pre, &unit, 1, n.saturating_sub(1), alive);
            }
            /// one step, any count, any item: exactly the right sub-unit is asked, once
            #[kani::proof]
            fn step() {
                let (pre, unit): ([bool; K], [bool; K]) = (kani::any(), kani::any());
                let (p, q) = (Cell::new(0), Cell::new(0));
                let n: usize = kani::any();
                let k: u8 = kani::any();
                kani::assume((k as usize) < K);
                let mut u = $cnt::<u8, _, _>(Tab(&pre, &p), n, Tab(&unit, &q));
                let got = u.is_match(&k);
                if n > 0 {
                    assert!(got == pre[k as usize] && p.get() == 1 && q.get() == 0, "first item not judged by the prefix");
                } else {
                    assert!(got == unit[k as usize] && p.get() == 0 && q.get() == 1, "item not judged by the unit");
                }
                // replacing the parts does not disturb the state
                let r = Cell::new(0);
                u.set_unit(Tab(&pre, &r)).set_prefix(Tab(&unit, &r));
                let got2 = u.is_match(&k);
                let exp = if n == 0 { pre[k as usize] } else if !got { false } else if n == 1 { pre[k as usize] } else { unit[k as usize] };
                assert!(got2 == exp, "replaced part judged wrongly");
                assert!(r.get() == (n == 0 || got) as usize);
            }
        }
    )* };
}
variants! {
    plain prefix_cnt prefix Prefix;
    sync prefix_sync_cnt prefix_sync PrefixSync;
}
