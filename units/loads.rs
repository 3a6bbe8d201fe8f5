// saving and loading of Granne and GranneBuilder
proof fn lemma_same_writable<'a, 'b>(a: Layers<'a>, b: Layers<'b>)
    requires same_layers(a, b), b.inv(), b.adj() == a.adj(), writable(&a)
    ensures writable(&b)
{
    match (a, b) {
        (Layers::FixWidth(v), Layers::FixWidth(w)) => { assert forall|k: int| 0 <= k < w@.len() implies fixed_fits(#[trigger] w@[k]) by { assert(w@[k].data() == v@[k].data()); assert(fixed_fits(v@[k])); assert(w@[k]@ == v@[k]@); } },
        (Layers::Compressed(v), Layers::Compressed(w)) => { assert forall|k: int| 0 <= k < w@.len() implies #[trigger] comp_repr(w@[k]).len() <= 0x1000_0000_0000 by { assert(w@[k].data.data() == v@[k].data.data()); assert(comp_repr(w@[k]) == comp_repr(v@[k])); } },
        _ => {}
    }
}
proof fn lemma_same_saved<'a, 'b>(a: Layers<'a>, b: Layers<'b>, s: Seq<Seq<u8>>)
    requires same_layers(a, b), b.adj() == a.adj(), saved(&b, s)
    ensures saved(&a, s)
{
    match (a, b) {
        (Layers::FixWidth(v), Layers::FixWidth(w)) => { assert forall|k: int| 0 <= k < s.len() implies fixed_saved(v@[k], #[trigger] s[k]) by { assert(w@[k].data() == v@[k].data()); assert(fixed_saved(w@[k], s[k])); } },
        (Layers::Compressed(v), Layers::Compressed(w)) => { assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] == comp_repr(v@[k]) by { assert(w@[k].data.data() == v@[k].data.data()); assert(s[k] == comp_repr(w@[k])); } },
        _ => {}
    }
}
impl<'a> FileOrMemoryLayers<'a> {
    spec fn writable(&self) -> bool { forall|l: Layers<'_>| #[trigger] self.holds(l) ==> writable(&l) }
}
impl<'a, Elements: ElementContainer> Granne<'a, Elements> {
/*@ src/index/mod.rs :: impl Index for Granne :: fn write_index
#sig fn write_index<B: Seek>(self: &Self, buffer: &mut B) -> (r: Result<()>)
#subst `io :: write_index` => `write_index`
#spec
    requires self.layers.inv(), self.layers.writable(), old(buffer).pos() < 0x1000_0000_0000_0000
    ensures r is Ok ==> exists|l: Layers<'_>, s: Seq<Seq<u8>>| self.layers.holds(l) && #[trigger] index_written(&l, *old(buffer), *final(buffer), s)
@*/
/*@ src/index/mod.rs :: impl Granne :: fn from_file
#ret r
#subst `& std :: fs :: File` => `&File`
#subst `std :: io :: Result` => `Result`
#subst `memmap :: Mmap :: map ( file )` => `Mmap::map(&file)`
#spec
    requires bytes_ok(file@)
    ensures r is Ok ==> r->Ok_0.layers.inv() && r->Ok_0.layers.adj() == bytes_adj(file@) && r->Ok_0.elements == elements
@*/
}
impl<Elements: ElementContainer> GranneBuilder<Elements> {
    spec fn fix(&self) -> Seq<FixedWidthSliceVector<'static, u32>> { self.layers@ }
/*@ src/index/mod.rs :: impl Index for GranneBuilder :: fn write_index
#sig fn write_index<B: Seek>(self: &Self, buffer: &mut B) -> (r: Result<()>)
#subst `io :: write_index` => `write_index`
#subst? `std :: io :: Result` => `Result`
#closure 0 (b: FixedWidthSliceVector<'_, NeighborId>) types: &FixedWidthSliceVector<'static, NeighborId>
    requires small_align::<u32>() ensures b.data() == vx_p0.data(), b.w() == vx_p0.w(), vx_p0.wf() ==> b.wf(), b.adj() == vx_p0.adj()
#spec
    requires writable(&Layers::FixWidth(self.layers)), old(buffer).pos() < 0x1000_0000_0000_0000
    ensures r is Ok ==> exists|s: Seq<Seq<u8>>| #[trigger] index_written(&Layers::FixWidth(self.layers), *old(buffer), *final(buffer), s)
#begin
    let ghost b0 = *buffer;
    proof { axiom_u32_layout(); let l = Layers::FixWidth(self.layers); assert(l.inv()); assert forall|k: int| 0 <= k < self.layers@.len() implies (#[trigger] self.layers@[k]).wf() by { assert(self.layers@[k].inv()); } }
#at before `write_index`
    proof { let l = Layers::FixWidth(self.layers); assert(layers.adj() =~= l.adj()); lemma_same_writable(l, layers); }
#tail r
    proof { if r is Ok {
        let l = Layers::FixWidth(self.layers); let s = choose|s: Seq<Seq<u8>>| index_written(&layers, b0, *buffer, s);
        lemma_same_saved(l, layers, s); assert(index_written(&l, b0, *buffer, s));
    } }
@*/
}
/// the ids followed by unused slots
spec fn slots(s: Seq<u32>, n: int) -> Seq<u32> { Seq::new(n as nat, |j: int| if j < s.len() { s[j] } else { u32::MAX }) }
spec fn slots_of(d: Seq<Seq<u32>>, n: int) -> Seq<Seq<u32>> { Seq::new(d.len(), |i: int| slots(d[i], n)) }
spec fn rows_loaded(v: FixedWidthSliceVector<'static, u32>, x: Seq<u8>, n: int) -> bool { v.wf() && v.w() == n && v@ == slots_of(seg_sets(x), n) }
/// at most n ids per node, as written by an index with at most n neighbors per node
spec fn narrow(b: Seq<u8>, n: int) -> bool { forall|k: int, i: int| 0 <= k < meta_sizes(b).len() && 0 <= i < seg_sets(seg(b, k)).len() ==> fits_row(#[trigger] seg_sets(seg(b, k))[i], n) }
spec fn fits_row(s: Seq<u32>, n: int) -> bool { s.len() <= n && forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] != u32::MAX }
proof fn lemma_slots(s: Seq<u32>, n: int)
    requires fits_row(s, n)
    ensures ids(slots(s, n)) == as_usize(s), forall|j: int| live(slots(s, n)) <= j < n ==> #[trigger] slots(s, n)[j] == u32::MAX
{ let q = slots(s, n); assert forall|j: int| 0 <= j < s.len() implies #[trigger] q[j] != u32::MAX by { assert(s[j] != u32::MAX); } lemma_live_is(q, s.len() as int); assert(ids(q) =~= as_usize(s)); }
proof fn lemma_seg_sets<'a>(v: MultiSetVector<'a>, x: Seq<u8>) requires v.data.chunks() == cvw_chunks(x), v.data.data() == cvw_data::<u8>(x) ensures v.sets() == seg_sets(x)
{ assert(v.data@ == lists(offsets_view(cvw_chunks(x)), cvw_data::<u8>(x))); }
impl<Elements: ElementContainer> GranneBuilder<Elements> {
/*@ src/index/mod.rs :: impl GranneBuilder :: fn from_bytes
#ret r
#subst `io :: load_layers` => `load_layers`
#subst `layer . len ( )` => `layer.len(Ghost(layer.sets()))`
#subst `layer . get_into ( i , & mut neighbors )` => `layer.get_into(i, &mut neighbors, Ghost(layer.sets()))`
#closure 0 (b: FixedWidthSliceVector<'static, NeighborId>) types: &FixedWidthSliceVector<'_, NeighborId>
    requires small_align::<u32>()
#spec
    requires bytes_ok(buffer@), elements.inv(), 1 <= config.num_neighbors <= u32::MAX, forall|k: int| 0 <= k < meta_sizes(buffer@).len() ==> seg_sets(#[trigger] seg(buffer@, k)).len() <= u32::MAX
    ensures r.elements == elements, r.config == config, elements.n() < u32::MAX, r.layers@.len() == meta_sizes(buffer@).len(),
        forall|k: int| 0 <= k < r.layers@.len() ==> rows_loaded(#[trigger] r.layers@[k], seg(buffer@, k), config.num_neighbors as int)
#begin
    broadcast use axiom_cloned;
    let ghost e0 = elements;
    proof { axiom_u32_layout(); }
#loops 2
#loop 0
    invariant small_align::<u32>(), vx_i0 <= vx_v0@.len(), vx_v0@.len() == meta_sizes(buffer@).len(), builder.layers@.len() == vx_i0, builder.elements == e0, builder.config == config, 1 <= config.num_neighbors <= u32::MAX,
        forall|k: int| 0 <= k < vx_v0@.len() ==> (#[trigger] vx_v0@[k]).inv() && vx_v0@[k].sets() == seg_sets(seg(buffer@, k)) && vx_v0@[k].sets().len() <= u32::MAX,
        forall|k: int| 0 <= k < vx_i0 ==> rows_loaded(#[trigger] builder.layers@[k], seg(buffer@, k), config.num_neighbors as int),
    decreases vx_v0@.len() - vx_i0
#loop 0 enter
    proof { assert forall|k: int| 0 <= k < vx_v0@.len() implies (#[trigger] vx_v0@[k]).inv() && vx_v0@[k].sets() == seg_sets(seg(buffer@, k)) && vx_v0@[k].sets().len() <= u32::MAX by { lemma_seg_sets(vx_v0@[k], seg(buffer@, k)); } }
#loop 0 begin
    let ghost d = layer.sets(); let ghost w = builder.config.num_neighbors as int; let ghost l0 = builder.layers@;
    proof { let k = vx_i0 - 1; assert(vx_v0@[k].inv()); assert(d.len() * w <= u32::MAX * u32::MAX) by (nonlinear_arith) requires 0 <= d.len() <= u32::MAX, 0 < w <= u32::MAX; }
#loop 0 end
    proof { let k = vx_i0 - 1; assert(builder.layers@[k]@ =~= slots_of(d, w)); assert(rows_loaded(builder.layers@[k], seg(buffer@, k), w)); assert forall|j: int| 0 <= j < vx_i0 implies rows_loaded(#[trigger] builder.layers@[j], seg(buffer@, j), w) by { if j < k { assert(builder.layers@[j] == l0[j]); } } }
#at before `new_layer . push`
    proof { assert(neighbors@ =~= slots(d[i as int], w)); }
#loop 1
    invariant small_align::<u32>(), layer.inv(), d == layer.sets(), new_layer.wf(), new_layer.w() == w, w == builder.config.num_neighbors as int, 1 <= w, new_layer@.len() == vx_i1, vx_i1 <= d.len(), vx_e1 == d.len(), neighbors@.len() == 0,
        forall|k: int| 0 <= k < vx_i1 ==> #[trigger] new_layer@[k] == slots(d[k], w),
    decreases d.len() - vx_i1
@*/
/*@ src/index/mod.rs :: impl GranneBuilder :: fn from_file
#ret r
#subst `& std :: fs :: File` => `&File`
#subst `std :: io :: Result` => `Result`
#subst `memmap :: Mmap :: map ( file )` => `Mmap::map(&file)`
#subst `& bytes [ .. ]` => `bytes.sl()`
#spec
    requires bytes_ok(file@), elements.inv(), 1 <= config.num_neighbors <= u32::MAX, forall|k: int| 0 <= k < meta_sizes(file@).len() ==> seg_sets(#[trigger] seg(file@, k)).len() <= u32::MAX
    ensures r is Ok ==> r->Ok_0.elements == elements && r->Ok_0.config == config && r->Ok_0.layers@.len() == meta_sizes(file@).len()
        && forall|k: int| 0 <= k < r->Ok_0.layers@.len() ==> rows_loaded(#[trigger] r->Ok_0.layers@[k], seg(file@, k), config.num_neighbors as int)
@*/
}
/// C06: a builder made from the bytes has the same graph
proof fn lemma_c06_builder(b: Seq<u8>, v: Vec<FixedWidthSliceVector<'static, u32>>, n: int)
    requires v@.len() == meta_sizes(b).len(), forall|k: int| 0 <= k < v@.len() ==> rows_loaded(#[trigger] v@[k], seg(b, k), n), narrow(b, n)
    ensures Layers::FixWidth(v).adj() == bytes_adj(b), tidy(&Layers::FixWidth(v)), Layers::FixWidth(v).inv()
{
    let a = Layers::FixWidth(v).adj(); let c = bytes_adj(b);
    assert forall|k: int| 0 <= k < c.len() implies #[trigger] a[k] == c[k] && tidy_rows(v@[k]@) by {
        assert(rows_loaded(v@[k], seg(b, k), n)); let d = seg_sets(seg(b, k)); assert(v@[k]@ == slots_of(d, n));
        assert forall|i: int| 0 <= i < d.len() implies #[trigger] a[k][i] == c[k][i] by { assert(fits_row(seg_sets(seg(b, k))[i], n)); lemma_slots(d[i], n); assert(v@[k]@[i] == slots(d[i], n)); }
        assert(a[k] =~= c[k]);
        assert forall|i: int, j: int| 0 <= i < d.len() && live(v@[k]@[i]) <= j < v@[k]@[i].len() implies #[trigger] v@[k]@[i][j] == u32::MAX by { assert(fits_row(seg_sets(seg(b, k))[i], n)); lemma_slots(d[i], n); assert(v@[k]@[i] == slots(d[i], n)); }
    }
    assert(a =~= c);
    assert forall|k: int| 0 <= k < v@.len() implies tidy_rows((#[trigger] v@[k])@) by { assert(a[k] == c[k]); }
    assert forall|k: int| 0 <= k < v@.len() implies (#[trigger] v@[k]).inv() by { assert(rows_loaded(v@[k], seg(b, k), n)); }
}
proof fn lemma_filter_all(q: Seq<u32>, p: spec_fn(u32) -> bool) ensures q.filter(p).len() <= q.len(), forall|j: int| 0 <= j < q.filter(p).len() ==> p(#[trigger] q.filter(p)[j]) decreases q.len()
{ reveal(Seq::filter); if q.len() > 0 { lemma_filter_all(q.drop_last(), p); } }
/// a saved builder with at most n neighbors per node
proof fn lemma_narrow<'a>(l: &Layers<'a>, s: Seq<Seq<u8>>, b: Seq<u8>, tail: Seq<u8>, n: int)
    requires file_of(l, s, b, tail), match l { Layers::FixWidth(v) => forall|k: int| 0 <= k < v@.len() ==> (#[trigger] v@[k]).w() <= n && v@[k].wf(), _ => false }
    ensures narrow(b, n)
{
    lemma_meta(l, s, b, tail);
    match l { Layers::FixWidth(v) => {
        assert forall|k: int, i: int| 0 <= k < meta_sizes(b).len() && 0 <= i < seg_sets(seg(b, k)).len() implies fits_row(#[trigger] seg_sets(seg(b, k))[i], n) by {
            assert(seg(b, k) == s[k]); assert(fixed_saved(v@[k], s[k]));
            let q = v@[k]@[i]; let f = q.filter(used_id()); let r = seg_sets(s[k])[i];
            assert(v@[k].w() <= n); if v@[k].w() > 0 { lemma_shape(v@[k].data().len() as int, v@[k].w()); lemma_in(i, v@[k]@.len() as int, v@[k].w()); } assert(q.len() == v@[k].w());
            lemma_filter_all(q, used_id());
            assert(r.to_multiset() == f.to_multiset());
            broadcast use vstd::seq_lib::group_to_multiset_ensures;
            assert(r.to_multiset().len() == f.to_multiset().len());
            assert forall|j: int| 0 <= j < r.len() implies #[trigger] r[j] != u32::MAX by { assert(r.contains(r[j])); assert(r.to_multiset().count(r[j]) > 0); assert(f.contains(r[j])); let h = choose|h: int| 0 <= h < f.len() && f[h] == r[j]; assert(used_id()(f[h])); }
        }
    }, _ => {} }
}
