// vectors can be added to Vectors
/// a vector that can be compared with the others
pub closed spec fn vtakes<'a>(v: Vectors<'a>, e: Seq<@S@>) -> bool { (v.d() > 0 || e.len() > 0) && sane(e, e) && forall|i: int| 0 <= i < v@.len() ==> sane(#[trigger] v@[i], e) && sane(e, v@[i]) }
impl<'a> ExtendableElementContainer for Vectors<'a> {
    type InternalElement = Vector<'static>;
    closed spec fn val_in(e: Vector<'static>) -> Seq<@S@> { e@ }
    closed spec fn takes(&self, e: Vector<'static>) -> bool { vtakes(*self, e@) }
/*@ src/elements/dense_vector.rs :: macro dense_vector :: impl ExtendableElementContainer for Vectors :: fn push
#macro scalar_type=@S@
#subst `Self :: InternalElement` => `Vector<'static>`
#begin
    proof { axiom_@S@_layout(); }
    let ghost s0 = self@; let ghost e0 = element@;
#end
    proof {
        assert(self@ == s0.push(e0));
        assert forall|i: int, j: int| 0 <= i < self@.len() && 0 <= j < self@.len() implies sane(#[trigger] self@[i], #[trigger] self@[j]) by { if i < s0.len() && j < s0.len() { assert(sane(s0[i], s0[j])); } }
        assert forall|i: int| 0 <= i < s0.len() implies #[trigger] self@[i] == s0[i] by {}
    }
@*/
}
