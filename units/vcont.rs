// Vectors as an element container
pub closed spec fn vinv<'a>(v: Vectors<'a>) -> bool { v.wf() && (forall|i: int, j: int| 0 <= i < v@.len() && 0 <= j < v@.len() ==> sane(#[trigger] v@[i], #[trigger] v@[j])) }
impl<'a> ElementContainer for Vectors<'a> {
    type Element = Vector<'static>;
    type V = Seq<@S@>;
    closed spec fn inv(&self) -> bool { vinv(*self) }
    closed spec fn n(&self) -> nat { self@.len() }
    closed spec fn val(e: Vector<'static>) -> Seq<@S@> { e@ }
    closed spec fn el(&self, i: int) -> Seq<@S@> { self@[i] }
    closed spec fn fits(&self, v: Seq<@S@>) -> bool { forall|i: int| 0 <= i < self@.len() ==> sane(#[trigger] self@[i], v) }
    closed spec fn d(&self, i: int, v: Seq<@S@>) -> NotNan<f32> { vdist(self@[i], v) }
    closed spec fn dd(&self, i: int, j: int) -> NotNan<f32> { vdist(self@[i], self@[j]) }
/*@ src/elements/dense_vector.rs :: macro dense_vector :: impl ElementContainer for Vectors :: fn get
#macro scalar_type=@S@
#subst `Self :: Element` => `Vector<'static>`
@*/
/*@ src/elements/dense_vector.rs :: macro dense_vector :: impl ElementContainer for Vectors :: fn len
#macro scalar_type=@S@
@*/
/*@ src/elements/dense_vector.rs :: macro dense_vector :: impl ElementContainer for Vectors :: fn dist_to_element
#macro scalar_type=@S@
@*/
/*@ src/elements/dense_vector.rs :: macro dense_vector :: impl ElementContainer for Vectors :: fn dist
#macro scalar_type=@S@
@*/
/*@ src/elements/dense_vector.rs :: macro dense_vector :: impl ElementContainer for Vectors :: fn dists
#macro scalar_type=@S@
#closure 0 (b: NotNan<f32>) types: &usize
    requires self.wf(), *vx_p0 < self@.len(), sane(element@, self@[*vx_p0 as int]) ensures b == vdist(element@, self@[*vx_p0 as int])
@*/
}
