// ExtendableElementContainer
/// c is a after more elements were added
pub open spec fn grown<E: ElementContainer + ?Sized>(a: &E, b: &E) -> bool { a.n() <= b.n() && (forall|i: int| 0 <= i < a.n() ==> (#[trigger] b.el(i)) == a.el(i)) && forall|i: int, v: E::V| 0 <= i < a.n() ==> (#[trigger] b.d(i, v)) == a.d(i, v) }
pub trait ExtendableElementContainer: ElementContainer {
    type InternalElement;
    /// the value of an element that is added
    spec fn val_in(e: Self::InternalElement) -> Self::V;
    /// an element that can be compared with the others
    spec fn takes(&self, e: Self::InternalElement) -> bool;
    fn push(&mut self, element: Self::InternalElement) requires old(self).inv(), old(self).takes(element) ensures final(self).inv(), final(self).n() == old(self).n() + 1, grown(old(self), final(self)), final(self).el(old(self).n() as int) == Self::val_in(element);
}
