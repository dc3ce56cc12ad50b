/// `[const { None }; N]`
#[verifier::external_body]
pub fn none_array<T, const N: usize>() -> (r: [Option<T>; N])
    ensures forall|i: int| 0 <= i < N ==> (#[trigger] r@[i]) is None,
{ unimplemented!() }

/// the values fill the first slots, in order, and the others stay empty
pub open spec fn filled<O>(a: Seq<Option<O>>, v: Seq<O>) -> bool {
    forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) == (if i < v.len() { Some(v[i]) } else { None })
}

/// `V::from_iter`: the collection made of a sequence of values
pub uninterp spec fn collected<V, O>(s: Seq<O>) -> V;
pub fn acc_new<O>() -> (r: Vec<O>) ensures r@ == Seq::<O>::empty() { Vec::new() }
#[verifier::external_body]
pub fn acc_done<V, O>(v: Vec<O>) -> (r: V) ensures r == collected::<V, O>(v@) { unimplemented!() }
/// the values in the first n slots
pub open spec fn somes<O>(a: Seq<Option<O>>, n: nat) -> Seq<O> { Seq::new(n, |i: int| a[i]->Some_0) }
