/// CRange<usize>
#[derive(Clone, Copy)]
pub struct CRange { pub lo: core::ops::Bound<usize>, pub hi: core::ops::Bound<usize> }
pub open spec fn within(r: CRange, n: int) -> bool {
    (match r.lo {
        core::ops::Bound::Included(v) => v <= n,
        core::ops::Bound::Excluded(v) => v < n,
        core::ops::Bound::Unbounded => true,
    }) && (match r.hi {
        core::ops::Bound::Included(v) => n <= v,
        core::ops::Bound::Excluded(v) => n < v,
        core::ops::Bound::Unbounded => true,
    })
}
/// the count may still grow
pub open spec fn below(r: CRange, n: int) -> bool {
    match r.hi {
        core::ops::Bound::Included(v) => n < v,
        core::ops::Bound::Excluded(v) => n + 1 < v,
        core::ops::Bound::Unbounded => true,
    }
}
/// `lo..hi`, `lo..=hi` and `lo..` of std, and std's RangeBounds over CRange (assumed; discharged on the
/// compiled CRange by the range harnesses of C15)
pub mod rb {
    use super::*;
    pub struct Incl { pub lo: usize, pub hi: usize }
    pub struct Excl { pub lo: usize, pub hi: usize }
    pub struct From { pub lo: usize }
    pub fn incl(lo: usize, hi: usize) -> (r: Incl) ensures r == (Incl { lo, hi }) { Incl { lo, hi } }
    pub fn excl(lo: usize, hi: usize) -> (r: Excl) ensures r == (Excl { lo, hi }) { Excl { lo, hi } }
    pub fn from(lo: usize) -> (r: From) ensures r == (From { lo }) { From { lo } }
    impl Incl {
        pub fn contains(&self, n: &usize) -> (b: bool) ensures b == (self.lo <= *n <= self.hi) { self.lo <= *n && *n <= self.hi }
    }
    impl Excl {
        pub fn contains(&self, n: &usize) -> (b: bool) ensures b == (self.lo <= *n < self.hi) { self.lo <= *n && *n < self.hi }
    }
    impl From {
        pub fn contains(&self, n: &usize) -> (b: bool) ensures b == (self.lo <= *n) { self.lo <= *n }
        pub fn into(self) -> (r: CRange) ensures r == (CRange { lo: core::ops::Bound::Included(self.lo), hi: core::ops::Bound::Unbounded }) {
            CRange { lo: core::ops::Bound::Included(self.lo), hi: core::ops::Bound::Unbounded }
        }
    }
    pub fn contains(r: &CRange, n: &usize) -> (b: bool) ensures b == within(*r, *n as int) { r.contains(n) }
    pub fn end_bound(r: &CRange) -> (b: core::ops::Bound<&usize>) ensures same_bound(r.hi, b) { r.end_bound() }
    pub fn start_bound(r: &CRange) -> (b: core::ops::Bound<&usize>) ensures same_bound(r.lo, b) { r.start_bound() }
}
pub open spec fn same_bound(a: core::ops::Bound<usize>, b: core::ops::Bound<&usize>) -> bool {
    match (a, b) {
        (core::ops::Bound::Included(v), core::ops::Bound::Included(w)) => v == *w,
        (core::ops::Bound::Excluded(v), core::ops::Bound::Excluded(w)) => v == *w,
        (core::ops::Bound::Unbounded, core::ops::Bound::Unbounded) => true,
        _ => false,
    }
}
impl CRange {
    #[verifier::external_body]
    pub fn contains(&self, n: &usize) -> (b: bool) ensures b == within(*self, *n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn end_bound(&self) -> (b: core::ops::Bound<&usize>) ensures same_bound(self.hi, b) { unimplemented!() }
    #[verifier::external_body]
    pub fn start_bound(&self) -> (b: core::ops::Bound<&usize>) ensures same_bound(self.lo, b) { unimplemented!() }
}
