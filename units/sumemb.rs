// src/elements/embeddings/mod.rs
/*@ src/elements/embeddings/mod.rs :: type Embeddings
@*/
/*@ src/elements/embeddings/mod.rs :: type EmbeddingId
@*/
/*@ src/elements/embeddings/mod.rs :: type ElementOffset
@*/
/*@ src/elements/embeddings/mod.rs :: type Elements
@*/
/*@ src/elements/embeddings/mod.rs :: struct SumEmbeddings
@*/
/// Into<usize> and From<usize> of the id types
pub trait VxId: Copy { spec fn idn(&self) -> int; fn id_into(self) -> (r: usize) ensures r == self.idn(); }
impl VxId for usize { open spec fn idn(&self) -> int { *self as int } fn id_into(self) -> usize { self } }
impl VxId for ThreeByteInt { closed spec fn idn(&self) -> int { self.num() as int } fn id_into(self) -> usize { self.into_usize() } }
/// the end of chunk i
spec fn upto(i: int, n: int, len: int) -> int { if i * n < len { i * n } else { len } }
spec fn lists_at<E>(e: Seq<E>, p: Seq<usize>) -> Seq<E> { Seq::new(p.len(), |i: int| e[p[i] as int]) }
/// chunk i consists of the lists of part i of p
spec fn c_subranges<'a>(c: Seq<VariableWidthSliceVector<'a, ThreeByteInt, FiveByteInt>>, e: Seq<Seq<ThreeByteInt>>, p: Seq<usize>, n: int) -> bool {
    c.len() == chunk_count(p.len() as int, n) && forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).wf() && c[i].hdr() && c[i]@ == lists_at(e, p.subrange(i * n, upto(i + 1, n, p.len() as int)))
}
spec fn chunk_count(len: int, n: int) -> int { (len + n - 1) / n }
proof fn lemma_chunk_count(len: int, n: int) requires n > 0, len >= 0 ensures upto(chunk_count(len, n), n, len) == len, forall|i: int| 0 <= i < chunk_count(len, n) ==> 0 <= #[trigger] (i * n) < len {
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(len + n - 1, n); let k = chunk_count(len, n); assert(n * k == k * n) by (nonlinear_arith);
    assert forall|i: int| 0 <= i < k implies 0 <= #[trigger] (i * n) < len by { assert(0 <= i * n && i * n + n <= k * n) by (nonlinear_arith) requires 0 <= i < k, n > 0; }
}
proof fn lemma_upto(i: int, n: int, len: int) requires 0 <= i, n > 0, i * n < len ensures upto(i, n, len) == i * n <= upto(i + 1, n, len) <= len { assert((i + 1) * n == i * n + n) by (nonlinear_arith); }
/// rayon's par_chunks: the chunks in order
trait VxParChunks { spec fn pcs(&self) -> Seq<usize>;
    fn vx_par_chunks(&self, n: usize) -> (r: It<&[usize]>) ensures n > 0, r@.len() == chunk_count(self.pcs().len() as int, n as int), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self.pcs().subrange(i * n, upto(i + 1, n as int, self.pcs().len() as int)),
        forall|i: int, k: int| 0 <= i < r@.len() && 0 <= k < r@[i]@.len() ==> 0 <= i * n + k < self.pcs().len() && #[trigger] r@[i]@[k] == self.pcs()[i * n + k]; }
impl VxParChunks for [usize] { spec fn pcs(&self) -> Seq<usize> { self@ } #[verifier::external_body] fn vx_par_chunks(&self, n: usize) -> It<&[usize]> { unimplemented!() } }
/// element.as_ref()
pub trait VxAsRef { spec fn ids(&self) -> Seq<usize>; fn as_ref(&self) -> (r: &[usize]) ensures r@ == self.ids(); }
impl VxAsRef for Vec<usize> { open spec fn ids(&self) -> Seq<usize> { self@ } fn as_ref(&self) -> (r: &[usize]) { self.as_slice() } }
spec fn idns<I: VxId>(s: Seq<I>) -> Seq<int> { s.map_values(|x: I| x.idn()) }
spec fn u2i(s: Seq<usize>) -> Seq<int> { s.map_values(|x: usize| x as int) }
spec fn f_add(x: f32, y: f32) -> f32 { x.ieee_add(y) }
/// component-wise float addition, the embeddings added from left to right
spec fn add_vec(a: Seq<f32>, b: Seq<f32>) -> Seq<f32> { Seq::new(a.len(), |i: int| f_add(a[i], b[i])) }
spec fn emb_fold(e: Seq<Seq<f32>>, t: Seq<int>) -> Seq<f32> decreases t.len() { if t.len() <= 1 { e[t[0]] } else { add_vec(emb_fold(e, t.drop_last()), e[t.last()]) } }
/// the sum of the embeddings of the terms; w: the embeddings' dimension
spec fn emb_sum(e: Seq<Seq<f32>>, w: int, t: Seq<int>) -> Seq<f32> { if t.len() == 0 { if e.len() > 0 { Seq::new(w as nat, |i: int| 0.0f32) } else { Seq::empty() } } else { emb_fold(e, t) } }
#[verifier::external_body]
fn fadd(a: f32, b: f32) -> (r: f32) ensures r == f_add(a, b) { a + b }
/*@ src/math.rs :: fn sum_into_f32 :: fn sum_into_fallback
#subst `x [ i ] += y [ i ]` => `x[i] = fadd(x[i], y[i])`
#spec
    ensures old(x)@.len() == y@.len(), final(x)@ == add_vec(old(x)@, y@)
#loop 0 inv
    invariant 0 <= vx_i0 <= vx_e0, vx_e0 == old(x)@.len(), x@.len() == old(x)@.len(), y@.len() == x@.len(),
        forall|k: int| 0 <= k < vx_i0 ==> #[trigger] x@[k] == f_add(old(x)@[k], y@[k]), forall|k: int| vx_i0 <= k < x@.len() ==> #[trigger] x@[k] == old(x)@[k]
    decreases vx_e0 - vx_i0
#end
    proof { assert(x@ =~= add_vec(old(x)@, y@)); }
@*/
/*@ src/math.rs :: fn sum_into_f32 :: fn sum_into_avx2
#spec
    ensures old(x)@.len() == y@.len(), final(x)@ == add_vec(old(x)@, y@)
@*/
/*@ src/math.rs :: fn sum_into_f32
#spec
    ensures old(x)@.len() == y@.len(), final(x)@ == add_vec(old(x)@, y@)
@*/
proof fn lemma_layouts() ensures small_align::<f32>(), bytewise::<ThreeByteInt>(), bytewise::<FiveByteInt>() { broadcast use axiom_ThreeByteInt_layout, axiom_FiveByteInt_layout; axiom_f32_layout(); }
impl<'a> View for SumEmbeddings<'a> { type V = Seq<Seq<int>>;
    /// the lists of term ids
    closed spec fn view(&self) -> Seq<Seq<int>> { self.elements@.map_values(|x: Seq<ThreeByteInt>| idns(x)) } }
impl<'a> SumEmbeddings<'a> {
    spec fn wf(&self) -> bool { self.embeddings.wf() && self.elements.wf() && self.elements.hdr() }
    spec fn emb(&self) -> Seq<Seq<f32>> { self.embeddings@ }
    spec fn dim(&self) -> int { self.embeddings.w() }
    /// every term of element i has an embedding
    spec fn known(&self, i: int) -> bool { forall|k: int| 0 <= k < self@[i].len() ==> (#[trigger] self@[i][k]) < self.emb().len() }
/*@ src/elements/embeddings/mod.rs :: impl SumEmbeddings :: fn new
#ret r
#spec
    ensures r.wf(), r@ == Seq::<Seq<int>>::empty(), r.emb().len() == 0
#tail r
    proof { assert(r@ =~= Seq::<Seq<int>>::empty()); }
@*/
/*@ src/elements/embeddings/mod.rs :: impl SumEmbeddings :: fn from_bytes
#ret r
#spec
    ensures r.embeddings == embeddings, bytes_ok::<FiveByteInt>(elements@) ==> r.elements.offs() == vw_offs::<FiveByteInt>(elements@) && r.elements.data() == vw_data::<ThreeByteInt, FiveByteInt>(elements@) && r.elements.file_ok()
#begin
    proof { lemma_layouts(); }
@*/
/*@ src/elements/embeddings/mod.rs :: impl SumEmbeddings :: fn from_parts
#ret r
#spec
    ensures r.embeddings == embeddings, r.elements == elements
@*/
/*@ src/elements/embeddings/mod.rs :: impl SumEmbeddings :: fn from_files
#ret r
#subst `std :: fs :: File` => `File`
#subst `std :: io :: Result` => `Result`
#spec
    ensures r is Ok ==> r->Ok_0.embeddings.wf() && r->Ok_0.embeddings.data() == fw_data::<f32>(embeddings@) && r->Ok_0.embeddings.w() == fw_width(embeddings@),
        r is Ok ==> match elements { None => r->Ok_0@.len() == 0, Some(f) => bytes_ok::<FiveByteInt>(f@) ==> r->Ok_0.elements.offs() == vw_offs::<FiveByteInt>(f@) && r->Ok_0.elements.data() == vw_data::<ThreeByteInt, FiveByteInt>(f@) && r->Ok_0.elements.file_ok() }
#begin
    proof { lemma_layouts(); }
@*/
/*@ src/elements/embeddings/mod.rs :: impl SumEmbeddings :: fn borrow
#ret r
#spec
    requires self.wf()
    ensures r.wf(), r@ == self@, r.emb() == self.emb(), r.dim() == self.dim()
#begin
    proof { lemma_layouts(); }
@*/
/*@ src/elements/embeddings/mod.rs :: impl SumEmbeddings :: fn push
#subst `AsRef < [ usize ] >` => `VxAsRef`
#subst `id . into ( )` => `EmbeddingId::from_usize ( id )`
#closure 0 (b: ThreeByteInt) types: &usize
    ensures b.num() == *vx_p0
#spec
    requires old(self).wf()
    ensures final(self).wf(), final(self)@ == old(self)@.push(u2i(element.ids())), final(self).embeddings == old(self).embeddings
#begin
    proof { lemma_layouts(); }
#end
    proof { assert(idns(data@) =~= u2i(element.ids())); assert(self@ =~= old(self)@.push(idns(data@))); }
@*/
/*@ src/elements/embeddings/mod.rs :: impl ExtendableElementContainer for SumEmbeddings :: fn push
#name element_push
#subst `Self :: InternalElement` => `Vec<usize>`
#spec
    requires old(self).wf()
    ensures final(self).wf(), final(self)@ == old(self)@.push(u2i(element@)), final(self).embeddings == old(self).embeddings
@*/
/*@ src/elements/embeddings/mod.rs :: impl SumEmbeddings :: fn push_embedding
#spec
    requires old(self).wf(), old(self).dim() > 0 || embedding@.len() > 0
    ensures final(self).wf(), final(self)@ == old(self)@, final(self).emb() == old(self).emb().push(embedding@), final(self).dim() == embedding@.len()
#begin
    proof { lemma_layouts(); }
@*/
/*@ src/elements/embeddings/mod.rs :: impl SumEmbeddings :: fn get_terms
#ret r
#subst `id . into ( )` => `id.into_usize()`
#closure 0 (b: usize) types: &ThreeByteInt
    ensures b == (*vx_p0).num()
#spec
    requires self.wf(), element_idx < self@.len()
    ensures u2i(r@) == self@[element_idx as int]
#begin
    proof { lemma_layouts(); }
#tail r
    proof { assert(u2i(r@) =~= self@[element_idx as int]); }
@*/
/*@ src/elements/embeddings/mod.rs :: impl SumEmbeddings :: fn get_embedding
#ret r
#spec
    requires self.wf(), element_idx < self@.len(), self.known(element_idx as int)
    ensures r@ == emb_sum(self.emb(), self.dim(), self@[element_idx as int])
#begin
    proof { lemma_layouts(); let s = self.elements@[element_idx as int]; assert(idns(s) == self@[element_idx as int]); assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).idn() < self.emb().len() by { assert(self@[element_idx as int][k] == s[k].idn()); } }
@*/
/*@ src/elements/embeddings/mod.rs :: impl SumEmbeddings :: fn create_embedding
#ret r
#spec
    requires self.wf(), forall|k: int| 0 <= k < embedding_ids@.len() ==> #[trigger] embedding_ids@[k] < self.emb().len()
    ensures r@ == emb_sum(self.emb(), self.dim(), u2i(embedding_ids@))
#begin
    proof { assert(u2i(embedding_ids@) =~= idns(embedding_ids@)); }
@*/
/*@ src/elements/embeddings/mod.rs :: impl SumEmbeddings :: fn get_embedding_internal
#ret r
#subst `Copy + Into < usize >` => `VxId`
#subst `vec ! [ 0.0f32 ; self . embeddings . width ( ) ]` => `vec_repeat(0.0f32, self.embeddings.width())`
#subst `embedding_ids [ 0 ] . into ( )` => `embedding_ids [ 0 ] . id_into ( )`
#subst `id . into ( )` => `id . id_into ( )`
#subst `math :: sum_into_f32` => `sum_into_f32`
#closure 0 (b: usize) types: &Id
    ensures b == (*vx_p0).idn()
#spec
    requires self.wf(), forall|k: int| 0 <= k < embedding_ids@.len() ==> (#[trigger] embedding_ids@[k]).idn() < self.emb().len() && embedding_ids@[k].idn() >= 0
    ensures r@ == emb_sum(self.emb(), self.dim(), idns(embedding_ids@))
#begin
    proof { lemma_layouts(); }
#loop 0 before
    let ghost t = idns(embedding_ids@);
    proof { assert(t.subrange(0, 1) =~= seq![t[0]]); }
#loop 0 inv
    invariant self.wf(), small_align::<f32>(), t == idns(embedding_ids@), t.len() >= 1, forall|k: int| 0 <= k < embedding_ids@.len() ==> (#[trigger] embedding_ids@[k]).idn() < self.emb().len() && embedding_ids@[k].idn() >= 0,
        vx_v0@.len() == t.len() - 1, forall|i: int| 0 <= i < vx_v0@.len() ==> #[trigger] vx_v0@[i] == t[i + 1], 0 <= vx_i0 <= vx_v0@.len(),
        data@ == emb_fold(self.emb(), t.subrange(0, vx_i0 + 1))
    decreases vx_v0@.len() - vx_i0
#loop 0 end
    proof { let s = t.subrange(0, vx_i0 + 1); assert(s.drop_last() =~= t.subrange(0, vx_i0 as int)); assert(s.last() == t[vx_i0 as int]); }
#tail r
    proof { assert(t.subrange(0, t.len() as int) =~= t); }
@*/
/*@ src/elements/embeddings/mod.rs :: impl SumEmbeddings :: fn len
#ret r
#spec
    requires self.wf()
    ensures r == self@.len()
#begin
    proof { lemma_layouts(); }
@*/
/*@ src/elements/embeddings/mod.rs :: impl SumEmbeddings :: fn num_embeddings
#ret r
#spec
    requires self.wf()
    ensures r == self.emb().len()
#begin
    proof { lemma_layouts(); }
@*/
/*@ src/elements/embeddings/mod.rs :: impl SumEmbeddings :: fn write_embeddings
#ret r
#spec
    requires self.wf(), self.embeddings.data().len() * sz::<f32>() + 8 <= usize::MAX
    ensures r is Ok ==> wrote(*old(buffer), *final(buffer), fw_repr(self.embeddings.data(), self.dim())) && r->Ok_0 == fw_repr(self.embeddings.data(), self.dim()).len(),
        r is Err || old(buffer).failed() ==> final(buffer).failed()
#begin
    proof { lemma_layouts(); }
@*/
/*@ src/elements/embeddings/mod.rs :: impl Writeable for SumEmbeddings :: fn write
#ret r
#spec
    requires self.wf(), self.elements.offs().len() * sz::<FiveByteInt>() + self.elements.data().len() * sz::<ThreeByteInt>() + 8 <= usize::MAX
    ensures r is Ok ==> wrote(*old(buffer), *final(buffer), self.elements.repr()) && r->Ok_0 == self.elements.repr().len(),
        r is Err || old(buffer).failed() ==> final(buffer).failed()
#begin
    proof { lemma_layouts(); }
@*/
/*@ src/elements/embeddings/mod.rs :: impl Permutable for SumEmbeddings :: fn permute
#name permute_elements
#spec
    requires old(self).wf(), permutation@.len() == old(self)@.len() ==> is_perm(permutation@)
    ensures permutation@.len() == old(self)@.len(), final(self).wf(), final(self)@ == permuted(old(self)@, permutation@), final(self).embeddings == old(self).embeddings
#subst `. par_chunks (` => `. vx_par_chunks (`
#closure 0 (b: VariableWidthSliceVector<'static, ThreeByteInt, FiveByteInt>) types: &[usize]
    requires bytewise::<ThreeByteInt>(), bytewise::<FiveByteInt>(), self.elements.wf(), self.elements.hdr(), forall|k: int| 0 <= k < c@.len() ==> #[trigger] c@[k] < self.elements@.len()
    ensures b.wf(), b.hdr(), b@ == lists_at(self.elements@, c@)
#begin
    proof { lemma_layouts(); }
    let ghost e0 = self.elements@; let ghost p = permutation@;
#loop 0 before
    proof { assert(elements@ =~= lists_at(self.elements@, c@.subrange(0, 0))); }
#loop 0 inv
    invariant bytewise::<ThreeByteInt>(), bytewise::<FiveByteInt>(), self.elements.wf(), self.elements.hdr(), forall|k: int| 0 <= k < c@.len() ==> #[trigger] c@[k] < self.elements@.len(),
        vx_v0@.len() == c@.len(), forall|k: int| 0 <= k < c@.len() ==> *(#[trigger] vx_v0@[k]) == c@[k], 0 <= vx_i0 <= vx_v0@.len(),
        elements.wf(), elements.hdr(), elements@ == lists_at(self.elements@, c@.subrange(0, vx_i0 as int))
    decreases vx_v0@.len() - vx_i0
#loop 0 end
    proof { assert(elements@ =~= lists_at(self.elements@, c@.subrange(0, vx_i0 as int))); }
#loop 0 after
    proof { assert(c@.subrange(0, c@.len() as int) =~= c@); }
#at before `let chunks`
    proof { if chunk_size > 0 { lemma_chunk_count(p.len() as int, chunk_size as int); } assert(self.elements@.len() == p.len()); assert forall|k: int| 0 <= k < p.len() implies #[trigger] p[k] < self.elements@.len() by {} }
#at before `let mut new_elements`
    proof { assert(c_subranges(chunks@, e0, p, chunk_size as int)); }
#loop 1 before
    proof { assert(upto(0, chunk_size as int, p.len() as int) == 0); assert(new_elements@ =~= lists_at(e0, p.subrange(0, 0))); }
#loop 1 inv
    invariant bytewise::<ThreeByteInt>(), bytewise::<FiveByteInt>(), self == old(self), e0 == self.elements@, p == permutation@, chunk_size > 0, c_subranges(vx_v1@, e0, p, chunk_size as int), 0 <= vx_i1 <= vx_v1@.len(),
        new_elements.wf(), new_elements.hdr(), new_elements@ == lists_at(e0, p.subrange(0, upto(vx_i1 as int, chunk_size as int, p.len() as int)))
    decreases vx_v1@.len() - vx_i1
#loop 1 end
    proof { lemma_chunk_count(p.len() as int, chunk_size as int); assert(0 <= (vx_i1 - 1) * chunk_size < p.len()); assert(new_elements@ =~= lists_at(e0, p.subrange(0, upto(vx_i1 as int, chunk_size as int, p.len() as int)))) by { lemma_upto(vx_i1 - 1, chunk_size as int, p.len() as int); } }
#at before `self . elements = new_elements`
    proof { lemma_chunk_count(p.len() as int, chunk_size as int); assert(p.subrange(0, p.len() as int) =~= p); }
#end
    proof { assert(self@ =~= permuted(old(self)@, permutation@)); }
@*/
}
/// elements and embeddings that are written are read back
proof fn lemma_se_roundtrip(a: SumEmbeddings, b: SumEmbeddings)
    requires a.wf(), a.elements.offs().len() <= u64::MAX, b.elements.offs() == vw_offs::<FiveByteInt>(a.elements.repr()), b.elements.data() == vw_data::<ThreeByteInt, FiveByteInt>(a.elements.repr())
    ensures b@ == a@
{ lemma_layouts(); lemma_vw_roundtrip(a.elements.offs(), a.elements.data()); }
