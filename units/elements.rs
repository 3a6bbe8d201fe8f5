// the implementations of ElementContainer in src/elements/mod.rs
/*@include disttrait.rs@*/
pub open spec fn all_comparable<E: Dist<E>>(s: Seq<E>) -> bool { forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() ==> (#[trigger] s[i]).comparable(#[trigger] s[j]) }
pub open spec fn fits_all<E: Dist<E>>(s: Seq<E>, v: E) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).comparable(v) }
impl<'a, E: Dist<E> + Clone> ElementContainer for &'a [E] {
    type Element = E;
    type V = E;
    open spec fn inv(&self) -> bool { all_comparable(self@) }
    open spec fn n(&self) -> nat { self@.len() }
    open spec fn val(e: E) -> E { e }
    open spec fn el(&self, i: int) -> E { self@[i] }
    open spec fn fits(&self, v: E) -> bool { fits_all(self@, v) }
    open spec fn d(&self, i: int, v: E) -> NotNan<f32> { self@[i].sd(v) }
    open spec fn dd(&self, i: int, j: int) -> NotNan<f32> { self@[i].sd(self@[j]) }
/*@ src/elements/mod.rs :: impl ElementContainer for &[E] :: fn get
#subst `Self :: Element` => `E`
#begin
    broadcast use axiom_cloned;
#tail r
    proof { assert(vstd::pervasive::strictly_cloned(self@[idx as int], r)); assert(vstd::pervasive::cloned(self@[idx as int], r)); }
@*/
/*@ src/elements/mod.rs :: impl ElementContainer for &[E] :: fn len
@*/
/*@ src/elements/mod.rs :: impl ElementContainer for &[E] :: fn dist_to_element
#subst `Self :: Element` => `E`
@*/
/*@ src/elements/mod.rs :: impl ElementContainer for &[E] :: fn dist
@*/
/*@ src/elements/mod.rs :: impl ElementContainer for &[E] :: fn dists
#closure 0 (b: NotNan<f32>) types: &usize
    requires idx < self@.len(), *vx_p0 < self@.len(), all_comparable(self@) ensures b == self@[idx as int].sd(self@[*vx_p0 as int])
@*/
}
impl<E: Dist<E> + Clone> ElementContainer for Vec<E> {
    type Element = E;
    type V = E;
    open spec fn inv(&self) -> bool { all_comparable(self@) }
    open spec fn n(&self) -> nat { self@.len() }
    open spec fn val(e: E) -> E { e }
    open spec fn el(&self, i: int) -> E { self@[i] }
    open spec fn fits(&self, v: E) -> bool { fits_all(self@, v) }
    open spec fn d(&self, i: int, v: E) -> NotNan<f32> { self@[i].sd(v) }
    open spec fn dd(&self, i: int, j: int) -> NotNan<f32> { self@[i].sd(self@[j]) }
/*@ src/elements/mod.rs :: impl ElementContainer for Vec :: fn get
#subst `Self :: Element` => `E`
#begin
    broadcast use axiom_cloned;
#tail r
    proof { assert(vstd::pervasive::strictly_cloned(self@[idx as int], r)); assert(vstd::pervasive::cloned(self@[idx as int], r)); }
@*/
/*@ src/elements/mod.rs :: impl ElementContainer for Vec :: fn len
#subst `( * self ) . len ( )` => `Vec::len(self)`
@*/
/*@ src/elements/mod.rs :: impl ElementContainer for Vec :: fn dist_to_element
#subst `Self :: Element` => `E`
@*/
/*@ src/elements/mod.rs :: impl ElementContainer for Vec :: fn dist
@*/
/*@ src/elements/mod.rs :: impl ElementContainer for Vec :: fn dists
#closure 0 (b: NotNan<f32>) types: &usize
    requires idx < self@.len(), *vx_p0 < self@.len(), all_comparable(self@) ensures b == self@[idx as int].sd(self@[*vx_p0 as int])
@*/
}
impl<'a, Elements: ElementContainer> ElementContainer for &'a Elements {
    type Element = Elements::Element;
    type V = Elements::V;
    open spec fn inv(&self) -> bool { (*self).inv() }
    open spec fn n(&self) -> nat { (*self).n() }
    open spec fn val(e: Elements::Element) -> Elements::V { Elements::val(e) }
    open spec fn el(&self, i: int) -> Elements::V { (*self).el(i) }
    open spec fn fits(&self, v: Elements::V) -> bool { (*self).fits(v) }
    open spec fn d(&self, i: int, v: Elements::V) -> NotNan<f32> { (*self).d(i, v) }
    open spec fn dd(&self, i: int, j: int) -> NotNan<f32> { (*self).dd(i, j) }
/*@ src/elements/mod.rs :: impl ElementContainer for &Elements :: fn get
#subst `Self :: Element` => `Elements :: Element`
@*/
/*@ src/elements/mod.rs :: impl ElementContainer for &Elements :: fn len
@*/
/*@ src/elements/mod.rs :: impl ElementContainer for &Elements :: fn dist_to_element
#subst `Self :: Element` => `Elements :: Element`
@*/
/*@ src/elements/mod.rs :: impl ElementContainer for &Elements :: fn dist
@*/
/*@ src/elements/mod.rs :: impl ElementContainer for &Elements :: fn dists
@*/
}
/*@ src/elements/mod.rs :: trait ElementContainer :: fn dist
#name default_dist
#sig fn default_dist<C: ElementContainer>(this: &C, i: usize, j: usize) -> (r: NotNan<f32>)
#subst `self` => `this`
#spec
    requires this.inv(), i < this.n(), j < this.n()
    ensures r == this.d(i as int, this.el(j as int))
@*/
/*@ src/elements/mod.rs :: trait ElementContainer :: fn dists
#name default_dists
#sig fn default_dists<C: ElementContainer>(this: &C, idx: usize, others: &[usize]) -> (r: Vec<NotNan<f32>>)
#subst `self` => `this`
#closure 0 (b: NotNan<f32>) types: &usize
    requires this.inv(), *vx_p0 < this.n(), this.fits(C::val(element)) ensures b == this.d(*vx_p0 as int, C::val(element))
#spec
    requires this.inv(), idx < this.n(), forall|k: int| 0 <= k < others@.len() ==> #[trigger] others@[k] < this.n()
    ensures r@.len() == others@.len(), forall|k: int| 0 <= k < others@.len() ==> #[trigger] r@[k] == this.d(others@[k] as int, this.el(idx as int))
@*/
