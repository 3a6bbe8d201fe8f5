#![feature(allocator_api)]
// ---- shims shared by all units; everything marked external_body / assume_specification is trusted ----
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use core::ops::{Deref, Index, Range, RangeFrom};
verus! {

global size_of usize == 8;

/// `assert!` of the code: it may panic; when it returns, the condition held
#[verifier::external_body]
pub fn rt_assert(c: bool) ensures c { assert!(c) }
/// an assertion that must never fail: a proof obligation
pub fn dbg_assert(c: bool) requires c {}
/// code that must be unreachable: a proof obligation
#[verifier::external_body]
pub fn rt_unreachable<T>() -> (r: T) requires false { unreachable!() }

/// is_x86_feature_detected!: any answer
#[verifier::external_body]
pub fn vx_cpu_has(_f: &str) -> bool { unimplemented!() }
#[verifier::external_body]
pub fn vec_repeat<T: Clone + Copy>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == x { vec![x; n] }

/// assumption: cloning an element gives an equal element (all element types are plain data)
pub broadcast axiom fn axiom_cloned<T: Clone>(a: T, b: T) requires #[trigger] vstd::pervasive::cloned::<T>(a, b) ensures a == b;

// ---- std::borrow::Cow<'a, [T]> ----
pub enum Cow<'a, T> { Borrowed(&'a [T]), Owned(Vec<T>) }
impl<'a, T> View for Cow<'a, T> { type V = Seq<T>; open spec fn view(&self) -> Seq<T> { match self { Cow::Borrowed(s) => s@, Cow::Owned(v) => v@ } } }
#[verifier::external_body]
pub fn slice_to_vec<T>(s: &[T]) -> (r: Vec<T>) ensures r@ == s@ { unimplemented!() }
impl<'a, T> Cow<'a, T> {
    pub fn to_mut(&mut self) -> (r: &mut Vec<T>) ensures r@ == old(self)@, final(self)@ == final(r)@ {
        match self { Cow::Borrowed(s) => { *self = Cow::Owned(slice_to_vec(s)); } Cow::Owned(_) => {} }
        match self { Cow::Owned(v) => v, Cow::Borrowed(_) => rt_unreachable() }
    }
    pub fn as_sl(&self) -> (r: &[T]) ensures r@ == self@ { match self { Cow::Borrowed(s) => s, Cow::Owned(v) => v.as_slice() } }
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.as_sl().len() }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.as_sl().len() == 0 }
    pub fn last(&self) -> (r: Option<&T>) ensures match r { Some(x) => self@.len() > 0 && *x == self@.last(), None => self@.len() == 0 } { let s = self.as_sl(); if s.len() == 0 { None } else { Some(&s[s.len() - 1]) } }
    pub fn clone(&self) -> (r: Cow<'a, T>) ensures r@ == self@ { match self { Cow::Borrowed(s) => Cow::Borrowed(s), Cow::Owned(v) => Cow::Owned(slice_to_vec(v.as_slice())) } }
    pub fn into_owned(self) -> (r: Vec<T>) ensures r@ == self@ { match self { Cow::Borrowed(s) => slice_to_vec(s), Cow::Owned(v) => v } }
}
impl<'a, T> vstd::std_specs::core::IndexSpecImpl<usize> for Cow<'a, T> { open spec fn index_req(&self, i: &usize) -> bool { *i < self@.len() } }
impl<'a, T> Index<usize> for Cow<'a, T> { type Output = T;
    #[verifier::external_body] fn index(&self, i: usize) -> (r: &T) ensures *r == self@[i as int] { &self.as_sl()[i] } }
impl<'a, T> vstd::std_specs::core::IndexSpecImpl<Range<usize>> for Cow<'a, T> { open spec fn index_req(&self, i: &Range<usize>) -> bool { i.start <= i.end <= self@.len() } }
impl<'a, T> Index<Range<usize>> for Cow<'a, T> { type Output = [T];
    fn index(&self, i: Range<usize>) -> (r: &[T]) ensures r@ == self@.subrange(i.start as int, i.end as int) { &self.as_sl()[i] } }
impl<'a, T> Deref for Cow<'a, T> { type Target = [T]; fn deref(&self) -> (r: &[T]) ensures r@ == self@ { self.as_sl() } }

/// impl Into<Cow<'a, [T]>>
pub trait IntoCow<'a, T>: Sized { spec fn cow_seq(self) -> Seq<T>; fn into_cow(self) -> (r: Cow<'a, T>) ensures r@ == self.cow_seq(); }
impl<'a, T> IntoCow<'a, T> for Vec<T> { open spec fn cow_seq(self) -> Seq<T> { self@ } fn into_cow(self) -> (r: Cow<'a, T>) { Cow::Owned(self) } }
impl<'a, T> IntoCow<'a, T> for &'a [T] { open spec fn cow_seq(self) -> Seq<T> { self@ } fn into_cow(self) -> (r: Cow<'a, T>) { Cow::Borrowed(self) } }
impl<'a, T> IntoCow<'a, T> for Cow<'a, T> { open spec fn cow_seq(self) -> Seq<T> { self@ } fn into_cow(self) -> (r: Cow<'a, T>) { self } }

// ---- iterators: `.iter()` and `.into_iter()` become `.it()` and `.into_it()`, an eager sequence ----
pub struct It<T> { v: Vec<T> }
impl<T> View for It<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
pub trait HasIt { type E; spec fn seq(&self) -> Seq<Self::E>; fn it(&self) -> (r: It<&Self::E>) ensures r@.len() == self.seq().len(), forall|i: int| #![trigger r@[i]] #![trigger self.seq()[i]] 0 <= i < r@.len() ==> *r@[i] == self.seq()[i]; }
impl<T> HasIt for Vec<T> { type E = T; open spec fn seq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn it(&self) -> It<&T> { unimplemented!() } }
impl<T> HasIt for [T] { type E = T; open spec fn seq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn it(&self) -> It<&T> { unimplemented!() } }
impl<T, const N: usize> HasIt for [T; N] { type E = T; open spec fn seq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn it(&self) -> It<&T> { unimplemented!() } }
impl<'a, T> HasIt for Cow<'a, T> { type E = T; open spec fn seq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn it(&self) -> It<&T> { unimplemented!() } }
pub trait HasIntoIt: Sized { type E; spec fn into_seq(self) -> Seq<Self::E>; fn into_it(self) -> (r: It<Self::E>) ensures r@ == self.into_seq(); fn vx_iter(self) -> (r: It<Self::E>) ensures r@ == self.into_seq(); }
impl<T> HasIntoIt for Vec<T> { type E = T; open spec fn into_seq(self) -> Seq<T> { self@ } #[verifier::external_body] fn into_it(self) -> It<T> { unimplemented!() } #[verifier::external_body] fn vx_iter(self) -> It<T> { unimplemented!() } }
impl<'b, T> HasIntoIt for &'b Vec<T> { type E = &'b T; open spec fn into_seq(self) -> Seq<&'b T> { self@.map_values(|x: T| &x) } #[verifier::external_body] fn into_it(self) -> It<&'b T> { unimplemented!() } #[verifier::external_body] fn vx_iter(self) -> It<&'b T> { unimplemented!() } }
impl<T> HasIntoIt for It<T> { type E = T; open spec fn into_seq(self) -> Seq<T> { self@ } #[verifier::external_body] fn into_it(self) -> It<T> { unimplemented!() } #[verifier::external_body] fn vx_iter(self) -> It<T> { unimplemented!() } }
impl<'b, T> HasIntoIt for &'b [T] { type E = &'b T; open spec fn into_seq(self) -> Seq<&'b T> { self@.map_values(|x: T| &x) } #[verifier::external_body] fn into_it(self) -> It<&'b T> { unimplemented!() } #[verifier::external_body] fn vx_iter(self) -> It<&'b T> { unimplemented!() } }
pub open spec fn refs<T>(s: Seq<T>) -> Seq<&'static T> { s.map_values(|x: T| &x) }

impl<T> It<T> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    /// the i-th element of the sequence (each is handed out once)
    #[verifier::external_body]
    pub fn at(&self, i: usize) -> (r: T) requires i < self@.len() ensures r == self@[i as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: It<T>) ensures r@ == self@.subrange(0, if n < self@.len() { n as int } else { self@.len() as int }) { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: It<T>) ensures r@ == self@.subrange(if n < self@.len() { n as int } else { self@.len() as int }, self@.len() as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: It<T>) ensures r@ == self@.reverse() { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: It<(usize, T)>) ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < r@.len() ==> r@[i].0 == i && r@[i].1 == self@[i] { unimplemented!() }
    #[verifier::external_body]
    pub fn zip<U>(self, o: It<U>) -> (r: It<(T, U)>) ensures r@.len() == if self@.len() < o@.len() { self@.len() } else { o@.len() }, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == self@[i] && r@[i].1 == o@[i] { unimplemented!() }
    #[verifier::external_body]
    pub fn take_while<F: Fn(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires forall|x: T| f.requires((&x,))
        ensures r@.len() <= self@.len(), r@ == self@.subrange(0, r@.len() as int),
            forall|i: int| 0 <= i < r@.len() ==> f.ensures((&(#[trigger] self@[i]),), true),
            r@.len() < self@.len() ==> f.ensures((&self@[r@.len() as int],), false) { unimplemented!() }
    #[verifier::external_body]
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],))
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> f.ensures((self@[i],), #[trigger] r@[i]) { unimplemented!() }
    #[verifier::external_body]
    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&(#[trigger] self@[i]),))
        ensures exists|p: spec_fn(T) -> bool| #[trigger] filtered(f, self@, p) && r@ == self@.filter(p) { unimplemented!() }
    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn all<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],))
        ensures r ==> forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), true),
            !r ==> exists|i: int| 0 <= i < self@.len() && f.ensures((#[trigger] self@[i],), false) { unimplemented!() }
    #[verifier::external_body]
    pub fn any<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],))
        ensures !r ==> forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), false),
            r ==> exists|i: int| 0 <= i < self@.len() && f.ensures((#[trigger] self@[i],), true) { unimplemented!() }
    #[verifier::external_body]
    pub fn position<F: Fn(T) -> bool>(self, f: F) -> (r: Option<usize>)
        requires forall|x: T| f.requires((x,))
        ensures match r {
            Some(k) => k < self@.len() && f.ensures((self@[k as int],), true) && forall|i: int| 0 <= i < k ==> f.ensures((#[trigger] self@[i],), false),
            None => forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), false) } { unimplemented!() }
}
/// p is the outcome of f on the elements of s
pub open spec fn filtered<T, F: Fn(&T) -> bool>(f: F, s: Seq<T>, p: spec_fn(T) -> bool) -> bool {
    forall|i: int| 0 <= i < s.len() ==> f.ensures((&(#[trigger] s[i]),), p(s[i]))
}
/// an endless sequence
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ItInf<T> { v: Vec<T> }
impl<T> ItInf<T> {
    pub uninterp spec fn nth(&self, i: int) -> T;
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: ItInf<(usize, T)>) ensures forall|i: int| 0 <= i <= usize::MAX ==> (#[trigger] r.nth(i)).0 == i && r.nth(i).1 == self.nth(i) { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: It<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == self.nth(i) { unimplemented!() }
}
pub struct Repeat<T> { pub x: T }
/// std::iter::repeat
pub fn vx_repeat<T>(x: T) -> (r: Repeat<T>) ensures r.x == x { Repeat { x } }
impl<T> It<T> {
    /// followed by an endless repetition
    #[verifier::external_body]
    pub fn chain(self, o: Repeat<T>) -> (r: ItInf<T>) ensures forall|i: int| 0 <= i ==> #[trigger] r.nth(i) == if i < self@.len() { self@[i] } else { o.x } { unimplemented!() }
    #[verifier::external_body]
    pub fn for_each<F: Fn(T)>(self, f: F)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],))
        ensures forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), ()) { unimplemented!() }
    #[verifier::external_body]
    pub fn skip_while<F: Fn(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires forall|x: T| f.requires((&x,))
        ensures r@.len() <= self@.len(), r@ == self@.subrange(self@.len() - r@.len(), self@.len() as int),
            forall|i: int| 0 <= i < self@.len() - r@.len() ==> f.ensures((&(#[trigger] self@[i]),), true),
            r@.len() > 0 ==> f.ensures((&r@[0],), false) { unimplemented!() }
}
impl<'a, T: Copy> It<&'a T> {
    #[verifier::external_body]
    pub fn copied(self) -> (r: It<T>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == *self@[i] { unimplemented!() }
    #[verifier::external_body]
    pub fn cloned(self) -> (r: It<T>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == *self@[i] { unimplemented!() }
}
} // verus!
