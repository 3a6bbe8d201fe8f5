// ordered_float::NotNan, BinaryHeap, HashSet, Reverse; trusted: they do what their documentation says
#[allow(unused_imports)] use vstd::std_specs::cmp::*;
#[allow(unused_imports)] use vstd::multiset::Multiset;
#[allow(unused_imports)] use vstd::set_lib::*;
/// a float that is not NaN; `ord` is its position in the (total) order, the two zeros are equal
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct NotNan<T> { v: T }
impl Clone for NotNan<f32> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { NotNan { v: self.v } } }
impl Copy for NotNan<f32> {}
pub open spec fn cmp_int(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
impl NotNan<f32> {
    pub uninterp spec fn ord(self) -> int;
    pub uninterp spec fn inner(self) -> f32;
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: f32) ensures r == self.inner() { self.v }
}
impl PartialEqSpecImpl for NotNan<f32> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.ord() == o.ord() } }
impl PartialEq for NotNan<f32> { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { self.v == o.v } }
impl Eq for NotNan<f32> {}
impl PartialOrdSpecImpl for NotNan<f32> { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(cmp_int(self.ord(), o.ord())) } }
impl PartialOrd for NotNan<f32> { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> (r: Option<Ordering>) { self.v.partial_cmp(&o.v) } }
impl OrdSpecImpl for NotNan<f32> { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Self) -> Ordering { cmp_int(self.ord(), o.ord()) } }
impl Ord for NotNan<f32> { #[verifier::external_body] fn cmp(&self, o: &Self) -> (r: Ordering) { unimplemented!() } }

pub open spec fn vlt<T: PartialOrd>(a: T, b: T) -> bool { a.partial_cmp_spec(&b) == Some(Ordering::Less) }
/// `<` is a strict weak order whose ties are equivalent
pub open spec fn ordered<T: PartialOrd>() -> bool {
    T::obeys_partial_cmp_spec()
    && (forall|a: T, b: T| #[trigger] vlt(a, b) ==> !vlt(b, a))
    && (forall|a: T, b: T| #![trigger a.partial_cmp_spec(&b)] a.partial_cmp_spec(&b) is Some && (a.partial_cmp_spec(&b) == Some(Ordering::Greater) <==> vlt(b, a)))
    && (forall|a: T, b: T, c: T| #![trigger vlt(a, b), vlt(b, c)] vlt(a, b) && vlt(b, c) ==> vlt(a, c))
    && (forall|a: T, b: T, c: T| #![trigger vlt(a, b), vlt(b, c)] !vlt(a, b) && !vlt(b, c) ==> !vlt(a, c))
}
/// std::cmp::Reverse
pub struct Reverse<T>(pub T);
impl<T: PartialEq> PartialEqSpecImpl for Reverse<T> { open spec fn obeys_eq_spec() -> bool { false } open spec fn eq_spec(&self, o: &Self) -> bool { true } }
impl<T: PartialEq> PartialEq for Reverse<T> { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { self.0 == o.0 } }
impl<T: Eq> Eq for Reverse<T> {}
impl<T: PartialOrd> PartialOrdSpecImpl for Reverse<T> { open spec fn obeys_partial_cmp_spec() -> bool { T::obeys_partial_cmp_spec() } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { o.0.partial_cmp_spec(&self.0) } }
impl<T: PartialOrd> PartialOrd for Reverse<T> { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> (r: Option<Ordering>) { o.0.partial_cmp(&self.0) } }
impl<T: Ord> OrdSpecImpl for Reverse<T> { open spec fn obeys_cmp_spec() -> bool { T::obeys_cmp_spec() } open spec fn cmp_spec(&self, o: &Self) -> Ordering { o.0.cmp_spec(&self.0) } }
impl<T: Ord> Ord for Reverse<T> { #[verifier::external_body] fn cmp(&self, o: &Self) -> (r: Ordering) { o.0.cmp(&self.0) } }
proof fn lemma_reverse<T: Ord>() requires ordered::<T>() ensures ordered::<Reverse<T>>()
{
    assert forall|a: Reverse<T>, b: Reverse<T>| #[trigger] vlt(a, b) implies !vlt(b, a) by { assert(vlt(b.0, a.0)); }
    assert forall|a: Reverse<T>, b: Reverse<T>, c: Reverse<T>| #![trigger vlt(a, b), vlt(b, c)] vlt(a, b) && vlt(b, c) implies vlt(a, c) by { assert(vlt(b.0, a.0) && vlt(c.0, b.0)); }
    assert forall|a: Reverse<T>, b: Reverse<T>, c: Reverse<T>| #![trigger vlt(a, b), vlt(b, c)] !vlt(a, b) && !vlt(b, c) implies !vlt(a, c) by { assert(!vlt(b.0, a.0) && !vlt(c.0, b.0)); }
}
pub type Key = (NotNan<f32>, usize);
pub open spec fn klt(a: Key, b: Key) -> bool { a.0.ord() < b.0.ord() || (a.0.ord() == b.0.ord() && a.1 < b.1) }
proof fn lemma_key() ensures ordered::<Key>(), forall|a: Key, b: Key| #[trigger] vlt(a, b) == klt(a, b)
{
    assert forall|a: Key, b: Key| #[trigger] vlt(a, b) == klt(a, b) by {}
}
/// e is a largest element of m
pub open spec fn is_top<T: PartialOrd>(m: Multiset<T>, e: T) -> bool { m.contains(e) && forall|x: T| #[trigger] m.contains(x) ==> !vlt(e, x) }
/// std::collections::BinaryHeap
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct BinaryHeap<T> { v: Vec<T> }
impl<T> View for BinaryHeap<T> { type V = Multiset<T>; uninterp spec fn view(&self) -> Multiset<T>; }
impl<T: Ord> BinaryHeap<T> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Multiset::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Multiset::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, x: T) ensures final(self)@ == old(self)@.insert(x) { unimplemented!() }
    #[verifier::external_body] pub fn pop(&mut self) -> (r: Option<T>) ensures match r { Some(x) => old(self)@.contains(x) && (ordered::<T>() ==> is_top(old(self)@, x)) && final(self)@ == old(self)@.remove(x), None => old(self)@.len() == 0 && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body] pub fn peek(&self) -> (r: Option<&T>) ensures match r { Some(x) => self@.contains(*x) && (ordered::<T>() ==> is_top(self@, *x)), None => self@.len() == 0 } { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn into_sorted_vec(self) -> (r: Vec<T>) ensures r@.to_multiset() == self@, ordered::<T>() ==> sorted_vlt(r@) { unimplemented!() }
    #[verifier::external_body] pub fn into_vec(self) -> (r: Vec<T>) ensures r@.to_multiset() == self@ { unimplemented!() }
}
pub open spec fn sorted_vlt<T: PartialOrd>(s: Seq<T>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> !vlt(#[trigger] s[j], #[trigger] s[i]) }
/// HashSet<usize> with any hasher
pub struct FxBuildHasher;
impl FxBuildHasher { pub fn default() -> Self { FxBuildHasher } }
#[verifier::external_body]
pub struct HashSet { _p: u8 }
impl View for HashSet { type V = Set<usize>; uninterp spec fn view(&self) -> Set<usize>; }
impl HashSet {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<usize>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn with_capacity_and_hasher(n: usize, h: FxBuildHasher) -> (r: Self) ensures r@ == Set::<usize>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, x: usize) -> (r: bool) ensures r == !old(self)@.contains(x), final(self)@ == old(self)@.insert(x) { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, x: &usize) -> (r: bool) ensures r == self@.contains(*x) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
