// SumEmbeddings as an element container: element i is the sum of its terms' embeddings, scaled to unit length
pub closed spec fn unit_of<'a>(s: SumEmbeddings<'a>, i: int) -> Seq<f32> { scaled_to_unit(emb_sum(s.emb(), s.dim(), s@[i])) }
pub closed spec fn sinv<'a>(s: SumEmbeddings<'a>) -> bool { s.wf() && (forall|i: int| 0 <= i < s@.len() ==> #[trigger] s.known(i)) && forall|i: int, j: int| 0 <= i < s@.len() && 0 <= j < s@.len() ==> sane(#[trigger] unit_of(s, i), #[trigger] unit_of(s, j)) }
impl<'a> ElementContainer for SumEmbeddings<'a> {
    type Element = Vector<'static>;
    type V = Seq<f32>;
    closed spec fn inv(&self) -> bool { sinv(*self) }
    closed spec fn n(&self) -> nat { self@.len() }
    closed spec fn val(e: Vector<'static>) -> Seq<f32> { e@ }
    closed spec fn el(&self, i: int) -> Seq<f32> { unit_of(*self, i) }
    closed spec fn fits(&self, v: Seq<f32>) -> bool { forall|i: int| 0 <= i < self@.len() ==> sane(#[trigger] unit_of(*self, i), v) }
    closed spec fn d(&self, i: int, v: Seq<f32>) -> NotNan<f32> { vdist(unit_of(*self, i), v) }
    closed spec fn dd(&self, i: int, j: int) -> NotNan<f32> { vdist(unit_of(*self, j), unit_of(*self, i)) }
/*@ src/elements/embeddings/mod.rs :: impl ElementContainer for SumEmbeddings :: fn get
#subst `Self :: Element` => `Vector<'static>`
#subst `self . get_embedding ( idx ) . into ( )` => `Vector :: from_floats ( self . get_embedding ( idx ) )`
#begin
    proof { assert(self.known(idx as int)); }
#tail r
    proof { assert(r@ == unit_of(*self, idx as int)); }
@*/
/*@ src/elements/embeddings/mod.rs :: impl ElementContainer for SumEmbeddings :: fn len
@*/
/*@ src/elements/embeddings/mod.rs :: impl ElementContainer for SumEmbeddings :: fn dist_to_element
#begin
    proof { assert(sane(unit_of(*self, idx as int), element@)); }
@*/
/*@ src/elements/mod.rs :: trait ElementContainer :: fn dist
#begin
    proof { assert(sane(unit_of(*self, i as int), unit_of(*self, j as int))); }
@*/
/*@ src/elements/mod.rs :: trait ElementContainer :: fn dists
#closure 0 (b: NotNan<f32>) types: &usize
    requires self.inv(), *vx_p0 < self.n(), self.fits(Self::val(element)) ensures b == self.d(*vx_p0 as int, Self::val(element))
@*/
}
