// write_index of src/index/io.rs and its callers; trusted: std::io::BufWriter delivers what it was given with the next flush or seek that succeeds, serde_json
pub struct BufWriter<'b, B> { inner: &'b mut B, pend: Ghost<Seq<u8>> }
impl<'b, B: Sink> Sink for BufWriter<'b, B> {
    type Dest = B;
    closed spec fn out(&self) -> Seq<u8> { overwrite(self.inner.out(), self.inner.pos(), self.pend@) }
    closed spec fn pos(&self) -> int { self.inner.pos() + self.pend@.len() }
    closed spec fn failed(&self) -> bool { self.inner.failed() }
    #[verifier::prophetic] closed spec fn dest(&self) -> B { *final(self.inner) }
}
impl<'b, B: Sink> BufWriter<'b, B> {
    pub closed spec fn delivered(&self) -> bool { self.pend@.len() == 0 }
    fn new(b: &'b mut B) -> (r: Self) ensures r.out() == old(b).out(), r.pos() == old(b).pos(), r.failed() == old(b).failed(), r.dest() == *final(b) { BufWriter { inner: b, pend: Ghost(Seq::empty()) } }
}
impl<'b, B: Write> Write for BufWriter<'b, B> {
    #[verifier::external_body]
    fn write(&mut self, b: &[u8]) -> (r: Result<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn write_all(&mut self, b: &[u8]) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self) -> (r: Result<()>) ensures r is Ok ==> final(self).delivered() { unimplemented!() }
}
impl<'b, B: Seek> Seek for BufWriter<'b, B> {
    #[verifier::external_body]
    fn seek(&mut self, to: SeekFrom) -> (r: Result<u64>) { unimplemented!() }
}
/// serde_json: the document written for these entries, and reading it with spaces behind
struct Meta<'b> { num_elements: usize, num_layers: usize, num_neighbors: usize, layer_counts: &'b Vec<usize>, layer_sizes: &'b Vec<usize>, compressed: bool }
spec fn meta_view(m: Meta) -> (usize, usize, usize, Seq<usize>, Seq<usize>, bool) { (m.num_elements, m.num_layers, m.num_neighbors, m.layer_counts@, m.layer_sizes@, m.compressed) }
uninterp spec fn json_doc(m: (usize, usize, usize, Seq<usize>, Seq<usize>, bool)) -> Seq<u8>;
spec fn spaces(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 32u8) }
axiom fn axiom_json(m: (usize, usize, usize, Seq<usize>, Seq<usize>, bool), k: nat)
    ensures json_list(json_doc(m) + spaces(k), "layer_sizes"@) == m.4, json_list(json_doc(m) + spaces(k), "layer_counts"@) == m.3, json_num(json_doc(m) + spaces(k), "num_layers"@) == m.1;
struct Text { v: Vec<u8> }
impl View for Text { type V = Seq<u8>; closed spec fn view(&self) -> Seq<u8> { self.v@ } }
impl Text {
    #[verifier::external_body] fn with_capacity(n: usize) -> (r: Self) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] fn push_str(&mut self, s: &str) ensures final(self)@ == old(self)@ + utf8(s@) { unimplemented!() }
    #[verifier::external_body] fn push_text(&mut self, s: &Text) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
    fn into_bytes(self) -> (r: Vec<u8>) ensures r@ == self@ { self.v }
}
#[verifier::external_body]
fn vx_json(m: Meta) -> (r: Text) ensures r@ == json_doc(meta_view(m)) { unimplemented!() }

proof fn lemma_flat_image(c: Seq<u8>, p: int, m: Seq<u8>, f: Seq<u8>)
    requires 0 <= p
    ensures overwrite(overwrite(c, p + m.len(), f), p, m) == overwrite(c, p, m + f)
{ assert(overwrite(overwrite(c, p + m.len(), f), p, m) =~= overwrite(c, p, m + f)); }
spec fn used_id() -> spec_fn(u32) -> bool { |x: u32| x != u32::MAX }
spec fn sizes_of(s: Seq<Seq<u8>>) -> Seq<usize> { s.map_values(|x: Seq<u8>| x.len() as usize) }
spec fn flat(s: Seq<Seq<u8>>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + s.last() } }
proof fn lemma_flat_push(s: Seq<Seq<u8>>, x: Seq<u8>) ensures flat(s.push(x)) == flat(s) + x { assert(s.push(x).drop_last() =~= s); }
/// the bytes of a layer
spec fn fixed_saved<'a>(l: FixedWidthSliceVector<'a, u32>, x: Seq<u8>) -> bool { same_sets(x, l@, used_id()) }
spec fn comp_repr<'a>(l: MultiSetVector<'a>) -> Seq<u8> { cvw_repr(l.data.chunks(), l.data.data()) }
spec fn saved<'a>(l: &Layers<'a>, s: Seq<Seq<u8>>) -> bool {
    s.len() == l.adj().len() && segs_ok(l, s)
}
/// of a size that can be written
spec fn fixed_fits<'a>(l: FixedWidthSliceVector<'a, u32>) -> bool { l@.len() <= u32::MAX && l.w() <= 254 }
spec fn writable<'a>(l: &Layers<'a>) -> bool {
    &&& l.inv() && l.adj().len() <= 0x1_0000 && (l.adj().len() > 0 ==> l.adj().last().len() > 0)
    &&& match l { Layers::FixWidth(v) => forall|k: int| 0 <= k < v@.len() ==> fixed_fits(#[trigger] v@[k]), Layers::Compressed(v) => forall|k: int| 0 <= k < v@.len() ==> #[trigger] comp_repr(v@[k]).len() <= 0x1000_0000_0000 }
}
spec fn counts_of(a: Seq<Seq<Seq<usize>>>) -> Seq<usize> { a.map_values(|x: Seq<Seq<usize>>| x.len() as usize) }
/// the metadata written for layers a of the sizes z
spec fn meta_of(a: Seq<Seq<Seq<usize>>>, z: Seq<usize>) -> (usize, usize, usize, Seq<usize>, Seq<usize>, bool) {
    (if a.len() == 0 { 0 } else { a.last().len() as usize }, a.len() as usize, if a.len() == 0 { 0 } else { a.last()[0].len() as usize }, counts_of(a), z, true)
}
spec fn meta_bytes(a: Seq<Seq<Seq<usize>>>, z: Seq<usize>) -> Seq<u8> { let t = utf8(LIBRARY_STR@) + json_doc(meta_of(a, z)); t + spaces((METADATA_LEN - t.len()) as nat) }
/// the bytes of a saved index
spec fn image(a: Seq<Seq<Seq<usize>>>, s: Seq<Seq<u8>>) -> Seq<u8> { meta_bytes(a, sizes_of(s)) + flat(s) }
spec fn fits_meta(a: Seq<Seq<Seq<usize>>>, s: Seq<Seq<u8>>) -> bool { meta_bytes(a, sizes_of(s)).len() == METADATA_LEN }
/// the layers written so far
spec fn segs_ok<'a>(l: &Layers<'a>, s: Seq<Seq<u8>>) -> bool {
    &&& forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).len() <= 0x1000_0000_0000
    &&& match l { Layers::FixWidth(v) => forall|k: int| 0 <= k < s.len() ==> fixed_saved(v@[k], #[trigger] s[k]), Layers::Compressed(v) => forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] == comp_repr(v@[k]) }
}
#[verifier::prophetic]
spec fn index_written<'a, B: Sink>(l: &Layers<'a>, a: B, b: B, s: Seq<Seq<u8>>) -> bool { saved(l, s) && fits_meta(l.adj(), s) && b.out() == overwrite(a.out(), a.pos(), image(l.adj(), s)) && b.failed() == a.failed() && a.pos() >= 0 }
proof fn lemma_repr_len<'a>(l: MultiSetVector<'a>)
    ensures comp_repr(l).len() == 8 + 128 * l.data.chunks().len() + l.data.data().len()
{ broadcast use group_bytes; broadcast use axiom_chunk_layout; broadcast use axiom_u8_layout; axiom_bytes_len(l.data.chunks()); axiom_bytes_len(l.data.data()); let c = l.data.chunks(); let d = l.data.data(); assert(sz::<Chunk>() == 128 && sz::<u8>() == 1); assert(bytes_of(c).len() == c.len() * 128); axiom_bytes_len::<u8>(d); assert(d.len() * sz::<u8>() == d.len()) by (nonlinear_arith) requires sz::<u8>() == 1; assert(bytes_of(d).len() == d.len()); assert(u64_le(bytes_of(c).len() as u64).len() == 8); }
impl<'a> MultiSetVector<'a> {
/*@ src/slice_vector/set_vector.rs :: impl MultiSetVector :: fn write
#ret r
#spec
    requires self.data.wf(), self.data.data().len() <= 0x1000_0000_0000
    ensures r is Ok ==> wrote(*old(buffer), *final(buffer), comp_repr(*self)) && r->Ok_0 == comp_repr(*self).len()
#begin
    broadcast use axiom_u8_layout;
@*/
}
/*@ src/index/io.rs :: fn write_index
#sig fn write_index<'l, 'b, B: Seek>(layers: &'b Layers<'l>, buffer: &mut B) -> (r: Result<()>)
#subst `. write_as_multi_set_vector ( & mut buffer ,` => `. write_as_multi_set_vector ( & mut buffer , Ghost ( used_id ( ) ) ,`
#subst `String :: with_capacity` => `Text :: with_capacity`
#subst `metadata . push_str ( & serde_json :: to_string ( & serde_json :: json ! ( { "granne_version" : env ! ( "CARGO_PKG_VERSION" ) , "version" : SERIALIZATION_VERSION ,` => `metadata . push_text ( & vx_json ( Meta {`
#subst `"num_elements" :` => `num_elements :`
#subst `"num_layers" :` => `num_layers :`
#subst `"num_neighbors" :` => `num_neighbors :`
#subst `"layer_counts" :` => `layer_counts : &`
#subst `"layer_sizes" :` => `layer_sizes : &`
#subst `"compressed" : true , } ) ) . expect ( "Could not create metadata json" ) , )` => `compressed : true } ) )`
#closure 0 (b: usize) types: usize
    requires layers.inv(), vx_p0 < layers.adj().len() ensures b == layers.adj()[vx_p0 as int].len()
#closure 1 (b: bool) types: &u32
    ensures b == used_id()(*vx_p0)
#spec
    requires writable(layers), old(buffer).pos() < 0x1000_0000_0000_0000
    ensures r is Ok ==> exists|s: Seq<Seq<u8>>| #[trigger] index_written(layers, *old(buffer), *final(buffer), s)
#begin
    let ghost l0 = layers; let ghost old0 = *buffer; let ghost mut segs: Seq<Seq<u8>> = Seq::empty();
#at before `let num_neighbors =`
    let ghost w1 = buffer;
#at before `buffer . seek ( SeekFrom :: Start`
    proof { assert(w1.out() == o0.out()); }
#at before `let metadata_pos =`
    let ghost o0 = buffer;
#at before `buffer . flush`
    proof {
        let a = l0.adj();
        assert(layer_counts@ =~= counts_of(a));
        assert(metadata@ =~= meta_bytes(a, sizes_of(segs)));
        lemma_flat_image(o0.out(), o0.pos(), metadata@, flat(segs));
    }
#tail r
    proof { if r is Ok { assert(index_written(l0, old0, buffer.dest(), segs)); } }
#loops 2
#loop 0
    invariant writable(l0), l0.adj().len() <= 0x1_0000, *l0 == Layers::FixWidth(*layers), segs.len() == vx_i0 <= vx_v0@.len(), vx_v0@.len() == layers@.len(), forall|k: int| 0 <= k < vx_v0@.len() ==> *(#[trigger] vx_v0@[k]) == layers@[k],
        segs_ok(l0, segs), layer_sizes@ == sizes_of(segs), flat(segs).len() <= vx_i0 * 0x1000_0000_0000,
        wrote(w1, buffer, flat(segs)), w1.pos() < 0x1000_0000_0000_0000 + METADATA_LEN,
    decreases vx_v0@.len() - vx_i0
#loop 0 begin
    let ghost b0 = buffer; proof { assert(segs.len() * 0x1000_0000_0000 <= 0x1_0000 * 0x1000_0000_0000); }
#loop 0 end
    proof {
        let x = choose|x: Seq<u8>| accepted(b0, buffer, x) && fixed_saved(l0->FixWidth_0@[vx_i0 - 1], x) && layer_size == x.len() && x.len() <= 0x1000_0000_0000;
        lemma_flat_push(segs, x); lemma_wrote(w1, b0, buffer, flat(segs), x);
        assert(sizes_of(segs.push(x)) =~= sizes_of(segs).push(layer_size));
        assert(flat(segs.push(x)).len() == flat(segs).len() + x.len());
        segs = segs.push(x);
    }
#loop 1
    invariant writable(l0), l0.adj().len() <= 0x1_0000, *l0 == Layers::Compressed(*layers), segs.len() == vx_i1 <= vx_v1@.len(), vx_v1@.len() == layers@.len(), forall|k: int| 0 <= k < vx_v1@.len() ==> *(#[trigger] vx_v1@[k]) == layers@[k],
        segs_ok(l0, segs), layer_sizes@ == sizes_of(segs), flat(segs).len() <= vx_i1 * 0x1000_0000_0000,
        wrote(w1, buffer, flat(segs)), w1.pos() < 0x1000_0000_0000_0000 + METADATA_LEN,
    decreases vx_v1@.len() - vx_i1
#loop 1 begin
    proof { lemma_repr_len(*layer); }
    let ghost b0 = buffer; proof { assert(segs.len() * 0x1000_0000_0000 <= 0x1_0000 * 0x1000_0000_0000); }
#loop 1 end
    proof {
        let x = choose|x: Seq<u8>| accepted(b0, buffer, x) && x == comp_repr(l0->Compressed_0@[vx_i1 - 1]) && layer_size == x.len() && x.len() <= 0x1000_0000_0000;
        lemma_flat_push(segs, x); lemma_wrote(w1, b0, buffer, flat(segs), x);
        assert(sizes_of(segs.push(x)) =~= sizes_of(segs).push(layer_size));
        assert(flat(segs.push(x)).len() == flat(segs).len() + x.len());
        segs = segs.push(x);
    }
@*/
/// layer k of a saved index starts where it is expected
proof fn lemma_flat_seg(s: Seq<Seq<u8>>, m: Seq<u8>, tail: Seq<u8>, b: Seq<u8>, k: int)
    requires b == m + flat(s) + tail, m.len() == METADATA_LEN, 0 <= k < s.len(), forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).len() <= usize::MAX
    ensures total(sizes_of(s), k) == flat(s.subrange(0, k)).len(), total(sizes_of(s), k + 1) == flat(s.subrange(0, k + 1)).len() <= flat(s).len(),
        b.subrange(METADATA_LEN + total(sizes_of(s), k), METADATA_LEN + total(sizes_of(s), k + 1)) == s[k]
{
    lemma_total(s, k); lemma_total(s, k + 1);
    lemma_flat_prefix(s, k + 1);
    let f = flat(s.subrange(0, k)); let g = flat(s.subrange(0, k + 1));
    assert(s.subrange(0, k + 1).drop_last() =~= s.subrange(0, k)); assert(g == f + s[k]);
    let a = METADATA_LEN + f.len() as int;
    assert(b.subrange(a, a + s[k].len()) =~= s[k]) by { assert forall|i: int| 0 <= i < s[k].len() implies b[a + i] == s[k][i] by { assert(b[a + i] == flat(s)[f.len() + i]); assert(flat(s).subrange(0, g.len() as int)[f.len() + i] == g[f.len() + i]); } }
}
proof fn lemma_total(s: Seq<Seq<u8>>, k: int)
    requires 0 <= k <= s.len(), forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).len() <= usize::MAX
    ensures total(sizes_of(s), k) == flat(s.subrange(0, k)).len()
    decreases k
{ if k > 0 { lemma_total(s, k - 1); assert(s.subrange(0, k).drop_last() =~= s.subrange(0, k - 1)); assert(s.subrange(0, k).last() == s[k - 1]); assert(s[k - 1].len() <= usize::MAX); assert(sizes_of(s)[k - 1] == s[k - 1].len()); } }
proof fn lemma_flat_prefix(s: Seq<Seq<u8>>, k: int)
    requires 0 <= k <= s.len()
    ensures flat(s.subrange(0, k)).len() <= flat(s).len(), flat(s).subrange(0, flat(s.subrange(0, k)).len() as int) == flat(s.subrange(0, k))
    decreases s.len()
{
    if k == s.len() { assert(s.subrange(0, k) =~= s); assert(flat(s).subrange(0, flat(s).len() as int) =~= flat(s)); }
    else {
        let t = s.drop_last(); lemma_flat_prefix(t, k); assert(t.subrange(0, k) =~= s.subrange(0, k));
        let p = flat(t.subrange(0, k)); assert(flat(s) == flat(t) + s.last());
        assert(flat(s).subrange(0, p.len() as int) =~= p) by { assert forall|i: int| 0 <= i < p.len() implies flat(s)[i] == p[i] by { assert(flat(t).subrange(0, p.len() as int)[i] == flat(t)[i]); } }
    }
}
/// the same neighbors, in any order
spec fn same_lists(a: Seq<Seq<usize>>, b: Seq<Seq<usize>>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).to_multiset() == b[i].to_multiset() }
spec fn same_graph(a: Seq<Seq<Seq<usize>>>, b: Seq<Seq<Seq<usize>>>) -> bool { a.len() == b.len() && forall|k: int| 0 <= k < a.len() ==> same_lists(#[trigger] a[k], b[k]) }
/// unused slots come last in every node, as in every layer of a builder
spec fn tidy_rows(d: Seq<Seq<u32>>) -> bool { forall|i: int, j: int| 0 <= i < d.len() && live(d[i]) <= j < d[i].len() ==> #[trigger] d[i][j] == u32::MAX }
spec fn tidy<'a>(l: &Layers<'a>) -> bool { match l { Layers::FixWidth(v) => forall|k: int| 0 <= k < v@.len() ==> tidy_rows((#[trigger] v@[k])@), Layers::Compressed(v) => true } }
proof fn lemma_count_map(a: Seq<u32>, y: usize)
    ensures as_usize(a).to_multiset().count(y) == if y <= u32::MAX { a.to_multiset().count(y as u32) } else { 0 }
    decreases a.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if a.len() > 0 {
        let b = a.drop_last(); lemma_count_map(b, y);
        assert(a =~= b.push(a.last())); assert(as_usize(a) =~= as_usize(b).push(a.last() as usize));
        assert(b.push(a.last()).to_multiset() =~= b.to_multiset().insert(a.last()));
        assert(as_usize(b).push(a.last() as usize).to_multiset() =~= as_usize(b).to_multiset().insert(a.last() as usize));
    } else { assert(as_usize(a) =~= Seq::<usize>::empty()); assert(as_usize(a).to_multiset().len() == 0); assert(a.to_multiset().len() == 0); }
}
proof fn lemma_same_ids(a: Seq<u32>, b: Seq<u32>) requires a.to_multiset() == b.to_multiset() ensures as_usize(a).to_multiset() == as_usize(b).to_multiset()
{ assert forall|y: usize| as_usize(a).to_multiset().count(y) == as_usize(b).to_multiset().count(y) by { lemma_count_map(a, y); lemma_count_map(b, y); } assert(as_usize(a).to_multiset() =~= as_usize(b).to_multiset()); }
proof fn lemma_kept(q: Seq<u32>, n: int)
    requires 0 <= n <= q.len(), forall|j: int| 0 <= j < n ==> #[trigger] q[j] != u32::MAX, forall|j: int| n <= j < q.len() ==> #[trigger] q[j] == u32::MAX
    ensures q.filter(used_id()) == q.subrange(0, n)
    decreases q.len()
{
    reveal(Seq::filter);
    if q.len() > 0 {
        let t = q.drop_last();
        if n == q.len() { lemma_kept(t, n - 1); assert(t.subrange(0, n - 1).push(q.last()) =~= q.subrange(0, n)); } else { lemma_kept(t, n); assert(t.subrange(0, n) =~= q.subrange(0, n)); }
    } else { assert(q.filter(used_id()) =~= q.subrange(0, n)); }
}
/// the tail is whatever the destination holds behind the index
spec fn file_of<'a>(l: &Layers<'a>, s: Seq<Seq<u8>>, b: Seq<u8>, tail: Seq<u8>) -> bool { saved(l, s) && fits_meta(l.adj(), s) && b == image(l.adj(), s) + tail }
proof fn lemma_meta<'a>(l: &Layers<'a>, s: Seq<Seq<u8>>, b: Seq<u8>, tail: Seq<u8>)
    requires file_of(l, s, b, tail)
    ensures meta_sizes(b) == sizes_of(s), forall|k: int| 0 <= k < s.len() ==> #[trigger] seg(b, k) == s[k]
{
    let a = l.adj(); let z = sizes_of(s); let m = meta_bytes(a, z); let h = utf8(LIBRARY_STR@);
    let n = (METADATA_LEN - (h + json_doc(meta_of(a, z))).len()) as nat;
    assert(cut(b, METADATA_LEN as int) =~= m);
    assert(m.skip(h.len() as int) =~= json_doc(meta_of(a, z)) + spaces(n));
    axiom_json(meta_of(a, z), n);
    assert(b =~= m + flat(s) + tail);
    assert forall|k: int| 0 <= k < s.len() implies #[trigger] seg(b, k) == s[k] by { lemma_flat_seg(s, m, tail, b, k); }
}
/// C06: what was written loads as the same graph
proof fn lemma_c06<'a>(l: &Layers<'a>, s: Seq<Seq<u8>>, b: Seq<u8>, tail: Seq<u8>)
    requires file_of(l, s, b, tail), tidy(l), l.inv()
    ensures bytes_ok(b), same_graph(bytes_adj(b), l.adj())
{
    lemma_meta(l, s, b, tail);
    assert forall|k: int| 0 <= k < s.len() implies seg_ok(#[trigger] s[k]) && same_lists(as_lists(seg_sets(s[k])), l.adj()[k]) by {
        match l {
            Layers::FixWidth(v) => { lemma_fixed_saved(v@[k], s[k]); },
            Layers::Compressed(v) => { lemma_comp_repr(v@[k]); assert(s[k] == comp_repr(v@[k])); }
        }
    }
    let a = bytes_adj(b);
    assert(a.len() == l.adj().len());
    assert forall|k: int| 0 <= k < a.len() implies same_lists(#[trigger] a[k], l.adj()[k]) by { assert(seg(b, k) == s[k]); assert(a[k] == as_lists(seg_sets(s[k]))); }
    assert forall|k: int| 0 <= k < meta_sizes(b).len() implies #[trigger] seg_ok(seg(b, k)) by { assert(seg(b, k) == s[k]); }
}
proof fn lemma_fixed_saved<'a>(v: FixedWidthSliceVector<'a, u32>, x: Seq<u8>)
    requires fixed_saved(v, x), tidy_rows(v@)
    ensures seg_ok(x), canonical(x), same_lists(as_lists(seg_sets(x)), v.adj())
{
    let d = v@; let a = as_lists(seg_sets(x));
    assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).to_multiset() == as_ids(d)[i].to_multiset() by {
        let q = d[i]; lemma_live(q);
        assert forall|j: int| live(q) <= j < q.len() implies #[trigger] q[j] == u32::MAX by { assert(d[i][j] == u32::MAX); }
        lemma_kept(q, live(q)); assert(seg_sets(x)[i].to_multiset() == d[i].filter(used_id()).to_multiset()); lemma_same_ids(seg_sets(x)[i], q.subrange(0, live(q)));
    }
}
proof fn lemma_comp_repr<'a>(v: MultiSetVector<'a>)
    requires v.inv()
    ensures seg_ok(comp_repr(v)), canonical(comp_repr(v)), cvw_chunks(comp_repr(v)) == v.data.chunks(), cvw_data::<u8>(comp_repr(v)) == v.data.data(), as_lists(seg_sets(comp_repr(v))) == v.adj()
{
    broadcast use group_bytes; broadcast use axiom_chunk_layout; broadcast use axiom_u8_layout;
    assert(bytes_of(v.data.chunks()).len() == v.data.chunks().len() * 128); lemma_cvw_roundtrip::<u8>(v.data.chunks(), v.data.data());
    let x = comp_repr(v);
    assert(v.data@ == lists(offsets_view(cvw_chunks(x)), cvw_data::<u8>(x)));
    assert(seg_sets(x) == v.sets());
}
proof fn lemma_again<'a>(l: &Layers<'a>, s: Seq<Seq<u8>>, b: Seq<u8>, r: &Layers<'a>, t: Seq<Seq<u8>>, k: int)
    requires saved(l, s), tidy(l), l.inv(), loaded(*r, b), r.inv(), saved(r, t), t.len() == s.len(), 0 <= k < s.len(), seg(b, k) == s[k]
    ensures t[k] == s[k]
{
    match r { Layers::Compressed(w) => {
        assert(t[k] == comp_repr(w@[k])); assert(seg(b, k) == s[k]);
        assert(w@[k].data.chunks() == cvw_chunks(s[k]) && w@[k].data.data() == cvw_data::<u8>(s[k]));
        assert(t[k] == cvw_repr(cvw_chunks(s[k]), cvw_data::<u8>(s[k])));
        match l { Layers::FixWidth(v) => { lemma_fixed_saved(v@[k], s[k]); }, Layers::Compressed(v) => { lemma_comp_repr(v@[k]); assert(s[k] == comp_repr(v@[k])); } }
    }, _ => {} }
}
/// a loaded index is written as it was stored
proof fn lemma_c06_again<'a>(l: &Layers<'a>, s: Seq<Seq<u8>>, b: Seq<u8>, tail: Seq<u8>, r: &Layers<'a>, t: Seq<Seq<u8>>)
    requires file_of(l, s, b, tail), tidy(l), l.inv(), loaded(*r, b), r.inv(), r.adj() == bytes_adj(b), saved(r, t), l.adj().len() > 0 ==> l.adj().last().len() > 0
    ensures t == s, image(r.adj(), t) == image(l.adj(), s)
{
    lemma_meta(l, s, b, tail); lemma_c06(l, s, b, tail);
    let a = l.adj(); let c = r.adj();
    assert(t.len() == s.len());
    assert forall|k: int| 0 <= k < s.len() implies #[trigger] t[k] == s[k] by { lemma_again(l, s, b, r, t, k); }
    assert(t =~= s);
    lemma_meta_same(a, c, sizes_of(s));
}
proof fn lemma_meta_same(a: Seq<Seq<Seq<usize>>>, c: Seq<Seq<Seq<usize>>>, z: Seq<usize>)
    requires same_graph(c, a), a.len() > 0 ==> a.last().len() > 0
    ensures meta_of(c, z) == meta_of(a, z)
{
    assert forall|k: int| 0 <= k < a.len() implies (#[trigger] c[k]).len() == a[k].len() by { assert(same_lists(c[k], a[k])); }
    assert(counts_of(c) =~= counts_of(a));
    if a.len() > 0 { let k = a.len() - 1; assert(same_lists(c[k], a[k])); assert(c[k][0].to_multiset() == a[k][0].to_multiset()); lemma_ms_len(c[k][0]); lemma_ms_len(a[k][0]); }
}
proof fn lemma_ms_len(a: Seq<usize>) ensures a.to_multiset().len() == a.len() { broadcast use vstd::seq_lib::group_to_multiset_ensures; }
