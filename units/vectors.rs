// src/elements/dense_vector.rs with $scalar_type = @S@
/*@ src/elements/dense_vector.rs :: macro dense_vector :: struct Vector
#macro scalar_type=@S@
@*/
/*@ src/elements/dense_vector.rs :: macro dense_vector :: struct Vectors
#macro scalar_type=@S@
@*/
impl<'a> View for Vector<'a> { type V = Seq<@S@>; closed spec fn view(&self) -> Seq<@S@> { self.0@ } }
impl<'a> View for Vectors<'a> { type V = Seq<Seq<@S@>>; closed spec fn view(&self) -> Seq<Seq<@S@>> { self.0@ } }
impl<'a> Vector<'a> {
/*@ src/elements/dense_vector.rs :: macro dense_vector :: impl Vector :: fn len
#macro scalar_type=@S@
#ret r
#spec
    ensures r == self@.len()
@*/
/*@ src/elements/dense_vector.rs :: macro dense_vector :: impl Vector :: fn into_owned
#macro scalar_type=@S@
#ret r
#subst `. into ( )` => `. into_cow ( )`
#spec
    ensures r@ == self@
@*/
/*@ src/elements/dense_vector.rs :: macro dense_vector :: impl Vector :: fn into_vec
#macro scalar_type=@S@
#ret r
#spec
    ensures r@ == self@
@*/
/*@ src/elements/dense_vector.rs :: macro dense_vector :: impl Vector :: fn as_slice
#macro scalar_type=@S@
#ret r
#rtindex
#spec
    ensures r@ == self@
@*/
}
impl<'a> Vectors<'a> {
    spec fn wf(&self) -> bool { self.0.wf() }
    spec fn d(&self) -> int { self.0.w() }
    spec fn repr(&self) -> Seq<u8> { fw_repr(self.0.data(), self.0.w()) }
    proof fn lemma_roundtrip(&self, o: Self)
        requires o.0.data() == fw_data::<@S@>(self.repr()), o.d() == fw_width(self.repr()), 0 <= self.d() <= u64::MAX
        ensures o@ == self@, o.d() == self.d()
    { axiom_@S@_layout(); lemma_fw_roundtrip(self.0.data(), self.0.w()); }
/*@ src/elements/dense_vector.rs :: macro dense_vector :: impl Vectors :: fn new
#macro scalar_type=@S@
#ret r
#spec
    ensures r.wf(), r@ == Seq::<Seq<@S@>>::empty(), r.d() == 0
@*/
/*@ src/elements/dense_vector.rs :: macro dense_vector :: impl Vectors :: fn from_bytes
#macro scalar_type=@S@
#ret r
#spec
    ensures r.wf(), r.0.data() == fw_data::<@S@>(buffer@), r.d() == fw_width(buffer@)
#begin
    proof { axiom_@S@_layout(); }
@*/
/*@ src/elements/dense_vector.rs :: macro dense_vector :: impl Vectors :: fn from_file
#macro scalar_type=@S@
#ret r
#subst `std :: fs :: File` => `File`
#subst `std :: io :: Result` => `Result`
#spec
    ensures r is Ok ==> r->Ok_0.wf() && r->Ok_0.0.data() == fw_data::<@S@>(file@) && r->Ok_0.d() == fw_width(file@)
#begin
    proof { axiom_@S@_layout(); }
@*/
/*@ src/elements/dense_vector.rs :: macro dense_vector :: impl Vectors :: fn from_slice
#macro scalar_type=@S@
#ret r
#spec
    ensures r.wf(), r.d() == dim, r@ == rows(slice@, dim as int), dim > 0
@*/
/*@ src/elements/dense_vector.rs :: macro dense_vector :: impl Vectors :: fn from_vec
#macro scalar_type=@S@
#ret r
#spec
    ensures r.wf(), r.d() == dim, r@ == rows(vec@, dim as int), dim > 0
@*/
/*@ src/elements/dense_vector.rs :: macro dense_vector :: impl Vectors :: fn borrow
#macro scalar_type=@S@
#ret r
#spec
    ensures r@ == self@, r.d() == self.d(), self.wf() ==> r.wf()
#begin
    proof { axiom_@S@_layout(); }
@*/
/*@ src/elements/dense_vector.rs :: macro dense_vector :: impl Vectors :: fn into_owned
#macro scalar_type=@S@
#ret r
#spec
    ensures r@ == self@, r.d() == self.d(), self.wf() ==> r.wf()
#begin
    proof { axiom_@S@_layout(); }
@*/
/*@ src/elements/dense_vector.rs :: macro dense_vector :: impl Vectors :: fn extend
#macro scalar_type=@S@
#spec
    requires old(self).wf(), vec.wf()
    ensures final(self).wf(), final(self)@ == old(self)@ + vec@, final(self).d() == vec.d(), old(self).d() == 0 || old(self).d() == vec.d()
#begin
    proof { axiom_@S@_layout(); }
@*/
/*@ src/elements/dense_vector.rs :: macro dense_vector :: impl Vectors :: fn push
#macro scalar_type=@S@
#rtindex
#spec
    requires old(self).wf(), old(self).d() > 0 || vec@.len() > 0
    ensures final(self).wf(), final(self)@ == old(self)@.push(vec@), final(self).d() == vec@.len(), old(self).d() == 0 || old(self).d() == vec@.len()
#begin
    proof { axiom_@S@_layout(); }
@*/
/*@ src/elements/dense_vector.rs :: macro dense_vector :: impl Vectors :: fn len
#macro scalar_type=@S@
#ret r
#spec
    requires self.wf()
    ensures r == self@.len()
#begin
    proof { axiom_@S@_layout(); }
@*/
/*@ src/elements/dense_vector.rs :: macro dense_vector :: impl Vectors :: fn dim
#macro scalar_type=@S@
#ret r
#spec
    ensures r == self.d()
#begin
    proof { axiom_@S@_layout(); }
@*/
/*@ src/elements/dense_vector.rs :: macro dense_vector :: impl Vectors :: fn get_element
#macro scalar_type=@S@
#ret r
#spec
    requires self.wf(), index < self@.len()
    ensures r@ == self@[index as int]
#begin
    proof { axiom_@S@_layout(); }
@*/
/*@ src/elements/dense_vector.rs :: macro dense_vector :: impl Vectors :: fn as_slice
#macro scalar_type=@S@
#ret r
#spec
    ensures r@ == self.0.data()
#begin
    proof { axiom_@S@_layout(); }
@*/
/*@ src/elements/dense_vector.rs :: macro dense_vector :: impl io::Writeable for Vectors :: fn write
#macro scalar_type=@S@
#ret r
#spec
    requires self.0.data().len() * sz::<@S@>() + 8 <= usize::MAX
    ensures r is Ok ==> wrote(*old(buffer), *final(buffer), self.repr()) && r->Ok_0 == self.repr().len(),
        r is Err || old(buffer).failed() ==> final(buffer).failed()
#begin
    proof { axiom_@S@_layout(); }
@*/
/*@ src/elements/dense_vector.rs :: macro dense_vector :: impl ElementContainer for Vectors :: fn get
#macro scalar_type=@S@
#ret r
#subst `Self :: Element` => `Vector<'static>`
#spec
    requires self.wf(), idx < self@.len()
    ensures r@ == self@[idx as int]
@*/
/*@ src/elements/dense_vector.rs :: macro dense_vector :: impl ExtendableElementContainer for Vectors :: fn push
#macro scalar_type=@S@
#name element_push
#subst `Self :: InternalElement` => `Vector<'static>`
#spec
    requires old(self).wf(), old(self).d() > 0 || element@.len() > 0
    ensures final(self).wf(), final(self)@ == old(self)@.push(element@), final(self).d() == element@.len(), old(self).d() == 0 || old(self).d() == element@.len()
@*/
/*@ src/elements/dense_vector.rs :: macro dense_vector :: impl Permutable for Vectors :: fn permute
#macro scalar_type=@S@
#spec
    requires old(self).wf(), permutation@.len() == old(self)@.len() ==> is_perm(permutation@)
    ensures permutation@.len() == old(self)@.len(), final(self).wf(), final(self).d() == old(self).d(), final(self)@ == permuted(old(self)@, permutation@)
#begin
    proof { axiom_@S@_layout(); }
@*/
}
impl Vectors<'static> {
/*@ src/elements/dense_vector.rs :: macro dense_vector :: impl FromIterator for Vectors :: fn from_iter
#macro scalar_type=@S@
#sig fn from_iter<'a>(iter: It<Vector<'a>>) -> (r: Vectors<'static>)
#spec
    requires forall|k: int| 0 <= k < iter@.len() ==> (#[trigger] iter@[k])@.len() > 0
    ensures r.wf(), r@ == iter@.map_values(|v: Vector<'a>| v@), forall|k: int| 0 <= k < iter@.len() ==> (#[trigger] iter@[k])@.len() == r.d()
#begin
    let ghost all = iter@;
#loop 0 inv
    invariant vx_v0@ == all, 0 <= vx_i0 <= all.len(), vecs.wf(), forall|k: int| 0 <= k < all.len() ==> (#[trigger] all[k])@.len() > 0, vx_i0 == 0 ==> vecs.d() == 0, forall|k: int| 0 <= k < vx_i0 ==> (#[trigger] all[k])@.len() == vecs.d(),
        vecs@ =~= all.subrange(0, vx_i0 as int).map_values(|v: Vector<'a>| v@)
    decreases all.len() - vx_i0
#tail r
    proof { assert(all.subrange(0, all.len() as int) =~= all); }
@*/
}
