// compute_embeddings_and_save_to_disk of src/elements/embeddings/parsing.rs; trusted: files, memory maps; the conversion to integer vectors is decided under C17
/// the integer vector made of a float vector
uninterp spec fn q8(v: Seq<f32>) -> Seq<i8>;
#[verifier::external_body]
fn vx_quantize(v: Vec<f32>) -> (r: angular_int::Vector<'static>) ensures r@ == q8(v@), r@.len() == v@.len() { unimplemented!() }
#[verifier::external_body]
fn vx_map(f: &File) -> (r: Mmap) ensures r@ == f@ { unimplemented!() }
/// the bytes hold a well formed list of elements all of whose terms have an embedding, at least one embedding, no empty embedding
spec fn stored(s: SumEmbeddings, w: Seq<u8>, e: Seq<u8>) -> bool {
    s.embeddings.wf() && s.embeddings.data() == fw_data::<f32>(w) && s.embeddings.w() == fw_width(w) && s.elements.offs() == vw_offs::<FiveByteInt>(e) && s.elements.data() == vw_data::<ThreeByteInt, FiveByteInt>(e) && s.elements.file_ok() && s.elements.hdr()
}
spec fn usable(w: Seq<u8>, e: Seq<u8>) -> bool {
    bytes_ok::<FiveByteInt>(e) && forall|s: SumEmbeddings| #[trigger] stored(s, w, e) ==> s.wf() && s.dim() > 0 && s.dim() <= u64::MAX && s.emb().len() > 0 && s@.len() <= isize::MAX && s@.len() * s.dim() + 8 <= usize::MAX && forall|i: int| 0 <= i < s@.len() ==> s.known(i)
}
/// one vector per element, in order
spec fn converted(s: SumEmbeddings, a: int, b: int) -> Seq<Seq<i8>> { Seq::new((b - a) as nat, |i: int| q8(emb_sum(s.emb(), s.dim(), s@[a + i]))) }
proof fn lemma_ids_nonneg(s: SumEmbeddings, i: int, k: int) requires s.wf(), 0 <= i < s@.len(), 0 <= k < s@[i].len() ensures s@[i][k] >= 0 { assert(s@[i] == idns(s.elements@[i])); }
proof fn lemma_fold_dim(e: Seq<Seq<f32>>, w: int, t: Seq<int>)
    requires t.len() > 0, forall|k: int| 0 <= k < t.len() ==> 0 <= #[trigger] t[k] < e.len(), forall|k: int| 0 <= k < e.len() ==> (#[trigger] e[k]).len() == w
    ensures emb_fold(e, t).len() == w decreases t.len()
{ if t.len() > 1 { lemma_fold_dim(e, w, t.drop_last()); } }
spec fn min3(a: int, b: int) -> int { if a < b { a } else { b } }
/// the rows of the data written so far
spec fn so_far(d: Seq<i8>, w: int, s: SumEmbeddings, n: int) -> bool { if n == 0 { d.len() == 0 } else { shaped(d, w) && rows(d, w) == converted(s, 0, n) } }
proof fn lemma_known_dim(s: SumEmbeddings, i: int) requires s.wf(), s.dim() > 0, 0 <= i < s@.len(), s.known(i), s.emb().len() > 0 ensures emb_sum(s.emb(), s.dim(), s@[i]).len() == s.dim()
{
    let t = s@[i];
    assert forall|k: int| 0 <= k < t.len() implies 0 <= #[trigger] t[k] < s.emb().len() by { lemma_ids_nonneg(s, i, k); }
    assert forall|k: int| 0 <= k < s.emb().len() implies (#[trigger] s.emb()[k]).len() == s.dim() by { lemma_shape(s.embeddings.data().len() as int, s.dim()); lemma_in(k, s.embeddings.data().len() as int / s.dim(), s.dim()); }
    if t.len() > 0 { lemma_fold_dim(s.emb(), s.dim(), t); }
}
proof fn lemma_more(d: Seq<i8>, e: Seq<i8>, w: int, we: int, s: SumEmbeddings, a: int, b: int)
    requires w > 0, 0 <= a <= b, so_far(d, w, s, a), shaped(e, we), we == if b > a { w } else { 0 }, rows(e, we) == converted(s, a, b)
    ensures so_far(d + e, w, s, b)
{
    if b > a {
        if a == 0 { assert(d + e =~= e); } else { lemma_rows_append(d, e, w); assert(converted(s, 0, b) =~= converted(s, 0, a) + converted(s, a, b)); }
    } else { assert(d + e =~= d); }
}
proof fn lemma_overwrite_end(c: Seq<u8>, b: Seq<u8>) ensures overwrite(c, c.len() as int, b) == c + b { assert(overwrite(c, c.len() as int, b) =~= c + b); }
proof fn lemma_bytes_add(d: Seq<i8>, e: Seq<i8>) ensures bytes_of(d + e) == bytes_of(d) + bytes_of(e) { axiom_bytes_concat(d, e); }
/*@ src/elements/embeddings/parsing.rs :: fn compute_embeddings_and_save_to_disk
#subst `File :: open ( word_embeddings_path ) . expect ( "Could not open word_embeddings file" )` => `vx_open ( word_embeddings_path )`
#subst `unsafe { memmap :: Mmap :: map ( & word_embeddings ) . unwrap ( ) }` => `vx_map ( & word_embeddings )`
#subst `File :: open ( & elements_path ) . expect ( "Could not open elements file" )` => `vx_open ( elements_path )`
#subst `unsafe { memmap :: Mmap :: map ( & elements ) . unwrap ( ) }` => `vx_map ( & elements )`
#subst `File :: create ( & output_path ) . expect ( "Could not create output file" )` => `vx_create_at ( output_path )`
#subst `BufWriter :: new` => `vx_buffered`
#subst `pbr :: ProgressBar` => `ProgressBar`
#subst `. par_iter (` => `. it (`
#subst `elements . get_embedding ( i ) . into ( )` => `vx_quantize ( elements . get_embedding ( i ) )`
#subst `crate :: io :: write_as_bytes` => `write_as_bytes`
#subst `. unwrap ( )` => `. rt_unwrap ( )`
#closure 0 (b: angular_int::Vector<'static>) types: &usize
    requires elements.wf(), *vx_p0 < elements@.len(), elements.known(*vx_p0 as int)
    ensures b@ == q8(emb_sum(elements.emb(), elements.dim(), elements@[*vx_p0 as int])), b@.len() == emb_sum(elements.emb(), elements.dim(), elements@[*vx_p0 as int]).len()
#spec
    requires usable(file_at(word_embeddings_path@), file_at(elements_path@))
#begin
    proof { lemma_layouts(); axiom_i8_layout(); }
    let ghost mut data: Seq<i8> = Seq::empty(); let ghost mut prev: Seq<u8> = Seq::empty();
#at before `let mut progress_bar`
    let ghost dim = elements.dim(); let ghost n = elements@.len() as int;
    proof { assert(stored(elements, file_at(word_embeddings_path@), file_at(elements_path@))); }
#loop 0 before
    proof { lemma_shards(n, 100, chunk_size as int); }
#loop 0 inv
    invariant small_align::<f32>(), small_align::<i8>(), bytewise::<ThreeByteInt>(), bytewise::<FiveByteInt>(), elements.wf(), elements.emb().len() > 0, dim == elements.dim(), 0 < dim <= u64::MAX, n == elements@.len(), n <= isize::MAX, n * dim + 8 <= usize::MAX, forall|i: int| 0 <= i < n ==> elements.known(i),
        0 <= vx_i0 <= vx_e0, vx_e0 == 100, chunk_size >= 0, chunk_size * 100 >= n, n > 0 ==> chunk_size > 0, forall|i: int| 0 <= i <= 100 ==> 0 <= #[trigger] (i * chunk_size) <= n + 99,
        so_far(data, dim, elements, min3(vx_i0 * chunk_size, n)), !file.failed(), vx_i0 == 0 ==> file.out() == Seq::<u8>::empty(), file.pos() == file.out().len(),
        vx_i0 > 0 ==> file.out() == fw_repr(data, if n > 0 { dim } else { 0 })
    decreases vx_e0 - vx_i0
#loop 0 begin
    broadcast use lemma_wrote;
    let ghost a = min3((vx_i0 - 1) * chunk_size, n); let ghost b = min3(vx_i0 * chunk_size, n);
    proof { assert(0 <= vx_i0 * chunk_size <= n + 99 && 0 <= (vx_i0 - 1) * chunk_size && vx_i0 * chunk_size == (vx_i0 - 1) * chunk_size + chunk_size) by { assert(vx_i0 * chunk_size == (vx_i0 - 1) * chunk_size + chunk_size) by (nonlinear_arith); } }
#at before `let mut vectors =`
    let ghost vs = vectors_vec@;
    proof {
        assert(vs.len() == b - a);
        assert forall|k: int| 0 <= k < vs.len() implies (#[trigger] vs[k])@ == converted(elements, a, b)[k] && vs[k]@.len() == dim by { lemma_known_dim(elements, a + k); }
    }
#loop 1 before
    proof { assert(vectors@ =~= converted(elements, a, b).subrange(0, 0)); }
#loop 1 inv
    invariant vectors.wf(), dim > 0, vx_v1@ == vs, vs.len() == b - a, 0 <= vx_i1 <= vx_v1@.len(), vectors.d() == if vx_i1 > 0 { dim } else { 0 }, vectors@ == converted(elements, a, b).subrange(0, vx_i1 as int),
        forall|k: int| 0 <= k < vs.len() ==> (#[trigger] vs[k])@ == converted(elements, a, b)[k] && vs[k]@.len() == dim
    decreases vx_v1@.len() - vx_i1
#loop 1 end
    proof { assert(vectors@ =~= converted(elements, a, b).subrange(0, vx_i1 as int)); }
#loop 1 after
    let ghost old_out = file.out(); let ghost more = vectors.0.data();
    proof {
        assert(converted(elements, a, b).subrange(0, b - a) =~= converted(elements, a, b)); assert(vectors@ == rows(more, vectors.d()));
        axiom_i8_layout();
        if b > a { lemma_shape(more.len() as int, dim); assert((b - a) * dim <= n * dim) by (nonlinear_arith) requires b - a <= n, dim > 0; }
    }
    proof { lemma_more(data, more, dim, vectors.d(), elements, a, b); lemma_overwrite_empty(vectors.repr()); lemma_overwrite_end(old_out, bytes_of(more)); lemma_bytes_add(data, more); }
#loop 0 end
    proof { if vx_i0 == 1 { assert(vx_i0 * chunk_size == chunk_size) by (nonlinear_arith) requires vx_i0 == 1; assert(data + more =~= more); assert(file.out() =~= fw_repr(more, vectors.d())); } else { assert(file.out() =~= old_out + bytes_of(more)); } data = data + more; assert(file.out() =~= fw_repr(data, if n > 0 { dim } else { 0 })); }
#at before `file . flush`
    proof { assert(100 * chunk_size == chunk_size * 100); assert(so_far(data, dim, elements, n)); lemma_overwrite_end(file.out(), Seq::empty()); assert(file.out() + Seq::<u8>::empty() =~= file.out()); }
#end
    // the file holds one vector per element, in order
    proof { assert(file.flushed()); assert(!file.failed()); assert(so_far(data, dim, elements, n)); assert(file.out() == fw_repr(data, if n > 0 { dim } else { 0 })); }
@*/
