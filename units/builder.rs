// GranneBuilder of src/index/mod.rs: layers, partial and full builds
type Rows = FixedWidthSliceVector<'static, u32>;
/// numbers of the layer sizes: floating point, checked by sampling only
uninterp spec fn ideal_raw(t: usize, m: f32, k: usize) -> usize;
uninterp spec fn levels(t: usize, m: f32) -> usize;
/// a layer multiplier greater than one
uninterp spec fn grows(m: f32) -> bool;
axiom fn axiom_ideal(t: usize, m: f32)
    requires grows(m), t >= 1
    ensures ideal_raw(t, m, 0) >= 1, forall|k: usize, j: usize| k <= j ==> #[trigger] ideal_raw(t, m, k) <= #[trigger] ideal_raw(t, m, j), forall|k: usize| k >= levels(t, m) ==> #[trigger] ideal_raw(t, m, k) >= t, levels(t, m) < 0x1_0000_0000;
#[verifier::external_body]
fn vx_ideal_raw(t: usize, m: f32, k: usize) -> (r: usize) ensures r == ideal_raw(t, m, k) { unimplemented!() }
spec fn ideal(t: usize, m: f32, k: usize) -> usize { if ideal_raw(t, m, k) <= t { ideal_raw(t, m, k) } else { t } }
proof fn lemma_ideal(t: usize, m: f32)
    requires grows(m), t >= 1
    ensures ideal(t, m, 0) >= 1, forall|k: usize, j: usize| k <= j ==> #[trigger] ideal(t, m, k) <= #[trigger] ideal(t, m, j), forall|k: usize| k >= levels(t, m) ==> #[trigger] ideal(t, m, k) == t, levels(t, m) < 0x1_0000_0000, forall|k: usize| 1 <= #[trigger] ideal(t, m, k) <= t
{ axiom_ideal(t, m); assert forall|k: usize| 1 <= #[trigger] ideal(t, m, k) <= t by { assert(ideal_raw(t, m, 0) <= ideal_raw(t, m, k)); } }
/*@ src/index/mod.rs :: fn compute_num_elements_in_layer
#ret r
#subst `( total_num_elements as f64 / ( layer_multiplier . powf ( ( total_num_elements as f64 ) . log ( layer_multiplier ) . floor ( ) - layer_idx as f64 ) ) ) . ceil ( ) as usize` => `vx_ideal_raw ( total_num_elements , layer_multiplier , layer_idx )`
#subst `layer_multiplier as f64` => `layer_multiplier`
#spec
    ensures r == ideal(total_num_elements, layer_multiplier, layer_idx)
@*/
/// the layers of a builder are valid, none empty, each at least as large as the one above
spec fn layers_ok<E: ElementContainer>(c: &E, s: Seq<Rows>) -> bool {
    (forall|k: int| 0 <= k < s.len() ==> #[trigger] rows_ok(c, s[k]))
    && (forall|k: int, j: int| 0 <= k <= j < s.len() ==> (#[trigger] s[k])@.len() <= (#[trigger] s[j])@.len())
}
spec fn rows_ok<E: ElementContainer>(c: &E, l: Rows) -> bool { l.wf() && 0 < l.w() <= u32::MAX && layer_ok(c, l@) && 1 <= l@.len() <= c.n() }
spec fn widths(s: Seq<Rows>, w: int) -> bool { forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).w() == w }
spec fn rows_adj(s: Seq<Rows>) -> Seq<Seq<Seq<usize>>> { s.map_values(|l: Rows| as_ids(l@)) }
proof fn lemma_rows_adj<E: ElementContainer>(c: &E, s: Seq<Rows>)
    requires layers_ok(c, s), c.n() <= u32::MAX
    ensures adjs_ok(rows_adj(s)), all_alive(c, rows_adj(s))
{
    let a = rows_adj(s);
    assert forall|k: int| 0 <= k < a.len() implies adj_ok(#[trigger] a[k]) && a[k].len() >= 1 && (forall|i: int, j: int| 0 <= i < a[k].len() && 0 <= j < a[k][i].len() ==> alive(c, (#[trigger] a[k][i][j]) as int)) by {
        assert(rows_ok(c, s[k]));
        let d = s[k]@;
        assert forall|i: int, j: int| 0 <= i < a[k].len() && 0 <= j < a[k][i].len() implies #[trigger] a[k][i][j] < a[k].len() && alive(c, a[k][i][j] as int) by { assert(node_ok(c, d.len() as int, i, d[i])); lemma_adj_ids(c, d.len() as int, i, d[i]); assert(a[k][i] == ids(d[i])); }
    }
    assert forall|k: int, j: int| 0 <= k <= j < a.len() implies (#[trigger] a[k]).len() <= (#[trigger] a[j]).len() by { assert(s[k]@.len() <= s[j]@.len()); }
}
spec fn lens(s: Seq<Rows>) -> Seq<int> { s.map_values(|l: Rows| l@.len() as int) }
/// C05: the sizes of the layers of an index of n elements of an expected total of t
spec fn shape(s: Seq<Rows>, n: int, t: usize, m: f32) -> bool {
    if n == 0 { s.len() == 0 } else { s.len() > 0 && s.last()@.len() == n && n <= ideal(t, m, (s.len() - 1) as usize) && forall|k: int| 0 <= k < s.len() - 1 ==> (#[trigger] s[k])@.len() == ideal(t, m, k as usize) && s[k]@.len() < n }
}
/// the sizes depend on the number of elements and the expected total alone
proof fn lemma_shape_unique(s: Seq<Rows>, r: Seq<Rows>, n: int, t: usize, m: f32)
    requires shape(s, n, t, m), shape(r, n, t, m), s.len() <= usize::MAX, r.len() <= usize::MAX, grows(m), t >= 1
    ensures lens(s) == lens(r)
{
    if n > 0 {
        if s.len() < r.len() { let k = s.len() - 1; assert(r[k]@.len() == ideal(t, m, k as usize)); assert(r[k]@.len() < n); assert(n <= ideal(t, m, k as usize)); }
        if r.len() < s.len() { let k = r.len() - 1; assert(s[k]@.len() == ideal(t, m, k as usize)); assert(s[k]@.len() < n); assert(n <= ideal(t, m, k as usize)); }
        assert forall|k: int| 0 <= k < s.len() implies lens(s)[k] == lens(r)[k] by { if k < s.len() - 1 { assert(s[k]@.len() == ideal(t, m, k as usize)); assert(r[k]@.len() == ideal(t, m, k as usize)); } }
    }
    assert(lens(s) =~= lens(r));
}
/// C05: each layer has the smaller of n and its ideal size
proof fn lemma_shape_sizes(s: Seq<Rows>, n: int, t: usize, m: f32)
    requires shape(s, n, t, m), s.len() <= usize::MAX, grows(m), t >= 1
    ensures forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k])@.len() == if n <= ideal(t, m, k as usize) { n } else { ideal(t, m, k as usize) as int }
{}
impl<Elements: ElementContainer> GranneBuilder<Elements> {
    spec fn n(&self) -> int { if self.layers@.len() == 0 { 0 } else { self.layers@.last()@.len() as int } }
    /// the number of elements that the layer sizes are derived from
    spec fn t(&self) -> usize { let e = match self.config.expected_num_elements { Some(e) => e, None => self.elements.n() as usize }; if e >= self.elements.n() { e } else { self.elements.n() as usize } }
    spec fn config_ok(&self) -> bool { grows(self.config.layer_multiplier) && 1 <= self.config.max_search && self.config.max_search * 20 <= usize::MAX && 1 <= self.config.num_neighbors <= u32::MAX && self.t() <= u32::MAX }
    spec fn wf(&self) -> bool { self.elements.inv() && self.elements.n() <= u32::MAX && layers_ok(&self.elements, self.layers@) && self.config_ok() && widths(self.layers@, self.config.num_neighbors as int) }
/*@ src/index/mod.rs :: impl GranneBuilder :: fn get_index
#ret r
#closure 0 (b: FixedWidthSliceVector<'_, NeighborId>) types: &FixedWidthSliceVector<'static, NeighborId>
    requires small_align::<u32>() ensures b@ == vx_p0@, vx_p0.wf() ==> b.wf()
#subst `collect :: < Vec < _ > > ( )` => `collect ( )`
#spec
    requires layers_ok(&self.elements, self.layers@)
    ensures r.layers.inv(), r.adj() == rows_adj(self.layers@), r.elements == &self.elements
#begin
    proof { axiom_u32_layout(); }
#tail r
    proof { assert(r.adj() =~= rows_adj(self.layers@)); match &r.layers { FileOrMemoryLayers::Memory(Layers::FixWidth(v)) => { assert forall|k: int| 0 <= k < v@.len() implies (#[trigger] v@[k]).inv() by { assert(rows_ok(&self.elements, self.layers@[k])); } }, _ => {} } }
@*/
/*@ src/index/mod.rs :: impl Index for GranneBuilder :: fn len
#ret r
#spec
    requires layers_ok(&self.elements, self.layers@)
    ensures r == self.n()
@*/
/*@ src/index/mod.rs :: impl Index for GranneBuilder :: fn num_layers
#ret r
#spec
    requires layers_ok(&self.elements, self.layers@)
    ensures r == self.layers@.len()
@*/
/*@ src/index/mod.rs :: impl Index for GranneBuilder :: fn layer_len
#ret r
#spec
    requires layers_ok(&self.elements, self.layers@), layer < self.layers@.len()
    ensures r == self.layers@[layer as int]@.len()
@*/
/*@ src/index/mod.rs :: impl Index for GranneBuilder :: fn get_neighbors
#ret r
#spec
    requires layers_ok(&self.elements, self.layers@), layer < self.layers@.len(), index < self.layers@[layer as int]@.len()
    ensures r@ == ids(self.layers@[layer as int]@[index as int])
@*/
/*@ src/index/mod.rs :: impl Builder for GranneBuilder :: fn num_elements
#ret r
#spec
    requires self.elements.inv()
    ensures r == self.elements.n()
@*/
/*@ src/index/mod.rs :: impl GranneBuilder :: fn get_elements
#ret r
#spec
    ensures r == &self.elements
@*/
/*@ src/index/mod.rs :: impl GranneBuilder :: fn index_elements_in_last_layer
#spec
    requires old(self).elements.inv(), old(self).elements.n() <= u32::MAX, old(self).config_ok(), old(self).layers@.len() > 0, pending(&old(self).elements, old(self).layers@), max_num_elements <= old(self).elements.n(), max_num_elements >= old(self).layers@.last()@.len(), max_num_elements >= 1
    ensures final(self).elements == old(self).elements, final(self).config == old(self).config,
        final(self).layers@.len() == old(self).layers@.len(), final(self).layers@.drop_last() == old(self).layers@.drop_last(), layers_ok(&final(self).elements, final(self).layers@),
        final(self).layers@.last().w() == old(self).layers@.last().w(),
        final(self).layers@.last()@.len() == last_size(old(self).layers@.last()@.len() as int, max_num_elements as int, ideal(old(self).t(), old(self).config.layer_multiplier, (old(self).layers@.len() - 1) as usize) as int)
#begin
    let ghost c = &self.elements; let ghost s0 = self.layers@; let ghost l0 = self.layers@.last(); let ghost m = self.config.layer_multiplier;
    let ghost g = ideal(self.t(), m, (s0.len() - 1) as usize) as int;
    proof { axiom_u32_layout(); lemma_ideal(self.t(), m);
        if l0@.len() >= 1 { lemma_pending_done(c, s0, l0); assert(s0.drop_last().push(l0) =~= s0); } }
#at before `layer . reserve_exact`
    proof { assert(additional * layer.w() <= u32::MAX * u32::MAX) by (nonlinear_arith) requires 0 <= additional <= u32::MAX, 0 < layer.w() <= u32::MAX; assert(self.layers@ == s0.drop_last()); }
#at after `let prev_layers =`
    proof { lemma_rows_adj(c, s0.drop_last()); let a = rows_adj(s0.drop_last()); assert(prev_layers.adj() == a);
        if a.len() > 0 { assert(a.last().len() == s0[s0.len() - 2]@.len()); assert(rows_ok(c, s0.drop_last()[s0.len() - 2])); } 
        assert(above_ok(&prev_layers, &self.elements, num_elements_in_layer as int)); }
#end
    proof { lemma_pending_done(c, s0, layer); assert(self.layers@ == s0.drop_last().push(layer)); assert(self.layers@.drop_last() =~= s0.drop_last()); }
@*/
}
/// the layers while a new last layer is filled: it starts as a copy of the layer above, or empty
spec fn pending<E: ElementContainer>(c: &E, s: Seq<Rows>) -> bool {
    let l = s.last();
    s.len() > 0 && layers_ok(c, s.drop_last()) && l.wf() && 0 < l.w() <= u32::MAX && layer_ok(c, l@) && l@.len() <= c.n() && (s.len() > 1 ==> s[s.len() - 2]@.len() <= l@.len())
}
spec fn last_size(old: int, n: int, ideal: int) -> int { if ideal <= old { old } else if n <= ideal { n } else { ideal } }
proof fn lemma_pending_done<E: ElementContainer>(c: &E, s: Seq<Rows>, l: Rows)
    requires pending(c, s), rows_ok(c, l), l@.len() >= s.last()@.len()
    ensures layers_ok(c, s.drop_last().push(l))
{
    let t = s.drop_last(); let r = t.push(l);
    assert forall|k: int| 0 <= k < r.len() implies #[trigger] rows_ok(c, r[k]) by { if k < t.len() { assert(rows_ok(c, t[k])); } }
    assert forall|k: int, j: int| 0 <= k <= j < r.len() implies (#[trigger] r[k])@.len() <= (#[trigger] r[j])@.len() by { if j < t.len() { assert(t[k]@.len() <= t[j]@.len()); } else if k < t.len() { assert(t[k]@.len() <= t[t.len() - 1]@.len()); assert(s[s.len() - 2] == t[t.len() - 1]); } }
}
/// every layer but the last is full and smaller than n, the last has the smaller of n and its ideal size
spec fn part(s: Seq<Rows>, n: int, t: usize, m: f32) -> bool {
    s.len() > 0 ==> s.last()@.len() == min2(n, ideal(t, m, (s.len() - 1) as usize) as int) && forall|k: int| 0 <= k < s.len() - 1 ==> (#[trigger] s[k])@.len() == ideal(t, m, k as usize) && s[k]@.len() < n
}
spec fn min2(a: int, b: int) -> int { if a <= b { a } else { b } }
/// what was indexed stays: the layers above the last are unchanged
spec fn kept(a: Seq<Rows>, b: Seq<Rows>) -> bool { a.len() <= b.len() && (forall|k: int| 0 <= k < a.len() - 1 ==> #[trigger] b[k] == a[k]) && forall|k: int| 0 <= k < a.len() ==> (#[trigger] b[k])@.len() >= a[k]@.len() }
impl<Elements: ElementContainer> GranneBuilder<Elements> {
/*@ src/index/mod.rs :: impl Builder for GranneBuilder :: fn build_partial
#closure 0 (b: usize) types: &FixedWidthSliceVector<'static, NeighborId>
    requires vx_p0.wf() ensures b == vx_p0@.len()
#closure 1 (b: FixedWidthSliceVector<'static, NeighborId>) types:
    ensures b.wf(), b.w() == self.config.num_neighbors, b@.len() == 0
#closure 2 (b: FixedWidthSliceVector<'static, NeighborId>) types: &FixedWidthSliceVector<'static, NeighborId>
    requires small_align::<u32>() ensures vx_p0.wf() ==> b.wf(), b.w() == vx_p0.w(), b@ == vx_p0@
#spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).elements == old(self).elements, final(self).config == old(self).config,
        num_elements == 0 ==> final(self).layers@ == old(self).layers@,
        num_elements > 0 ==> old(self).n() <= num_elements <= old(self).elements.n() && final(self).n() == num_elements,
        kept(old(self).layers@, final(self).layers@),
        num_elements > 0 && shape(old(self).layers@, old(self).n(), old(self).t(), old(self).config.layer_multiplier) ==> shape(final(self).layers@, num_elements as int, old(self).t(), old(self).config.layer_multiplier)
#begin
    let ghost c = &self.elements; let ghost s0 = self.layers@; let ghost m = self.config.layer_multiplier; let ghost t = self.t(); let ghost cfg = self.config;
    let ghost sh = shape(s0, self.n(), t, m); let ghost num = num_elements as int;
    proof { axiom_u32_layout(); if t >= 1 { lemma_ideal(t, m); } if s0.len() > 0 { assert(rows_ok(c, s0[s0.len() - 1])); } }
#at before `if ! self . layers . is_empty ( )`
    proof { if s0.len() > 0 { lemma_to_pending(c, s0); } }
#loop 0 before
    proof { let s1 = self.layers@; if s0.len() > 0 { lemma_widths(s0, s1, self.config.num_neighbors as int); } if s0.len() > 0 { lemma_first(s0, s1, s0[s0.len() - 1]@.len() as int, num, t, m); } }
#loop 0 begin
    let ghost s1 = self.layers@;
    proof { lemma_ideal(t, m); assert(self.layers.len() == s1.len()); if s1.len() > 0 { assert(rows_ok(c, s1[s1.len() - 1])); assert(ideal(t, m, (s1.len() - 1) as usize) <= t); assert(s1.len() - 1 < levels(t, m)); } }
#at after `self . layers . push ( new_layer )`
    proof { assert(self.layers@.drop_last() =~= s1); let e = self.layers@; if s1.len() > 0 { assert(s1[s1.len() - 1] == e[e.len() - 2]); }
        lemma_pending_new(c, s1, self.layers@.last()); }
    let ghost l1 = self.layers@.last();
#loop 0 end
    proof { assert(self.layers.len() == self.layers@.len()); lemma_widths(s1.push(l1), self.layers@, self.config.num_neighbors as int); lemma_next(s0, s1, self.layers@, l1@.len() as int, sh, num, t, m); }
#loop 0
    invariant self.elements == *c, self.config == cfg, *c == old(self).elements, layers_ok(c, self.layers@), c.inv(), c.n() <= u32::MAX, small_align::<u32>(), 1 <= num <= c.n(), num == num_elements, self.n() <= num, self.config_ok(), t == self.t(), m == cfg.layer_multiplier,
        widths(self.layers@, self.config.num_neighbors as int), kept(s0, self.layers@), sh ==> part(self.layers@, num, t, m),
        self.layers@.len() > 0 ==> self.n() >= min2(num, ideal(t, m, (self.layers@.len() - 1) as usize) as int),
    decreases levels(t, m) + 1 - self.layers@.len()
@*/
/*@ src/index/mod.rs :: impl Builder for GranneBuilder :: fn build
#begin
    let ghost c = &self.elements; let ghost s0 = self.layers@;
    proof { if s0.len() > 0 { assert(rows_ok(c, s0[s0.len() - 1])); } }
#spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).elements == old(self).elements, final(self).config == old(self).config, final(self).n() == old(self).elements.n(), kept(old(self).layers@, final(self).layers@),
        shape(old(self).layers@, old(self).n(), old(self).t(), old(self).config.layer_multiplier) ==> shape(final(self).layers@, old(self).elements.n() as int, old(self).t(), old(self).config.layer_multiplier)
@*/
}
proof fn lemma_to_pending<E: ElementContainer>(c: &E, s: Seq<Rows>) requires layers_ok(c, s), s.len() > 0 ensures pending(c, s)
{
    let t = s.drop_last();
    assert(rows_ok(c, s[s.len() - 1]));
    assert forall|k: int| 0 <= k < t.len() implies #[trigger] rows_ok(c, t[k]) by { assert(rows_ok(c, s[k])); }
    assert forall|k: int, j: int| 0 <= k <= j < t.len() implies (#[trigger] t[k])@.len() <= (#[trigger] t[j])@.len() by { assert(s[k]@.len() <= s[j]@.len()); }
    if s.len() > 1 { assert(s[s.len() - 2]@.len() <= s[s.len() - 1]@.len()); }
}
proof fn lemma_pending_new<E: ElementContainer>(c: &E, s: Seq<Rows>, l: Rows)
    requires layers_ok(c, s), l.wf(), 0 < l.w() <= u32::MAX, s.len() == 0 ==> l@.len() == 0, s.len() > 0 ==> l@ == s.last()@
    ensures pending(c, s.push(l))
{
    assert(s.push(l).drop_last() =~= s);
    if s.len() > 0 { assert(rows_ok(c, s[s.len() - 1])); }
}
proof fn lemma_first(s0: Seq<Rows>, s1: Seq<Rows>, n0: int, num: int, t: usize, m: f32)
    requires s0.len() > 0, s1.len() == s0.len(), s1.drop_last() == s0.drop_last(), n0 == s0.last()@.len(), n0 <= num, s1.last()@.len() == last_size(n0, num, ideal(t, m, (s0.len() - 1) as usize) as int)
    ensures kept(s0, s1), shape(s0, n0, t, m) ==> part(s1, num, t, m), s1.last()@.len() >= min2(num, ideal(t, m, (s1.len() - 1) as usize) as int)
{
    assert forall|k: int| 0 <= k < s0.len() - 1 implies #[trigger] s1[k] == s0[k] by { assert(s1.drop_last()[k] == s1[k]); assert(s0.drop_last()[k] == s0[k]); }
    assert forall|k: int| 0 <= k < s0.len() implies (#[trigger] s1[k])@.len() >= s0[k]@.len() by { if k < s0.len() - 1 { assert(s1[k] == s0[k]); } }
    if shape(s0, n0, t, m) && n0 > 0 {
        assert forall|k: int| 0 <= k < s1.len() - 1 implies (#[trigger] s1[k])@.len() == ideal(t, m, k as usize) && s1[k]@.len() < num by { assert(s1[k] == s0[k]); }
    }
}
proof fn lemma_next(s0: Seq<Rows>, s1: Seq<Rows>, s2: Seq<Rows>, n1: int, sh: bool, num: int, t: usize, m: f32)
    requires kept(s0, s1), sh ==> part(s1, num, t, m), s2.len() == s1.len() + 1, s2.drop_last() == s1, n1 == (if s1.len() == 0 { 0 } else { s1.last()@.len() as int }), n1 < num, s2.len() <= usize::MAX, grows(m), t >= 1,
        s2.last()@.len() == last_size(n1, num, ideal(t, m, (s2.len() - 1) as usize) as int)
    ensures kept(s0, s2), sh ==> part(s2, num, t, m), s2.last()@.len() >= min2(num, ideal(t, m, (s2.len() - 1) as usize) as int)
{
    lemma_ideal(t, m);
    assert forall|k: int| 0 <= k < s1.len() implies #[trigger] s2[k] == s1[k] by { assert(s2.drop_last()[k] == s1[k]); }
    if sh {
        assert forall|k: int| 0 <= k < s2.len() - 1 implies (#[trigger] s2[k])@.len() == ideal(t, m, k as usize) && s2[k]@.len() < num by { assert(s2[k] == s1[k]); }
        if s1.len() > 0 { let a = (s1.len() - 1) as usize; let b = (s2.len() - 1) as usize; assert(ideal(t, m, a) <= ideal(t, m, b)); }
    }
}
/*@include extendable.rs@*/
proof fn lemma_layers_grow<E: ElementContainer>(a: &E, b: &E, s: Seq<Rows>)
    requires layers_ok(a, s), grown(a, b)
    ensures layers_ok(b, s)
{
    assert forall|k: int| 0 <= k < s.len() implies #[trigger] rows_ok(b, s[k]) by {
        assert(rows_ok(a, s[k])); let d = s[k]@; let n = d.len() as int;
        assert forall|i: int| 0 <= i < n implies node_ok(b, n, i, #[trigger] d[i]) by { assert(node_ok(a, n, i, d[i])); assert(b.el(i) == a.el(i)); assert forall|j: int| 0 <= j < n implies alive(b, j) == #[trigger] alive(a, j) by { assert(b.el(j) == a.el(j)); } }
    }
}
impl<Elements: ExtendableElementContainer> GranneBuilder<Elements> {
/*@ src/index/mod.rs :: impl GranneBuilder :: fn push
#spec
    requires old(self).wf(), old(self).elements.takes(element), old(self).config_ok()
    ensures final(self).layers@ == old(self).layers@, final(self).config == old(self).config, final(self).elements.n() == old(self).elements.n() + 1, final(self).elements.n() < u32::MAX, final(self).wf()
#begin
    let ghost s0 = *self;
#end
    proof { lemma_layers_grow(&s0.elements, &self.elements, s0.layers@); }
@*/
}
/// C03, C22: what holds of every node of a built index
proof fn lemma_c03<E: ElementContainer>(b: &GranneBuilder<E>, k: int, i: int)
    requires b.wf(), 0 <= k < b.layers@.len(), 0 <= i < b.layers@[k]@.len()
    ensures ({
        let q = ids(b.layers@[k]@[i]); let n = b.layers@[k]@.len();
        q.len() <= b.config.num_neighbors && n <= b.n()
        && (forall|j: int| 0 <= j < q.len() ==> #[trigger] q[j] < n && q[j] != i)
        && (forall|j: int, l: int| 0 <= j < l < q.len() ==> #[trigger] q[j] != #[trigger] q[l])
        && (forall|j: int| 0 <= j < q.len() ==> alive(&b.elements, (#[trigger] q[j]) as int))
        && (q.len() > 0 ==> alive(&b.elements, i))
    })
{
    let c = &b.elements; let d = b.layers@[k]@;
    assert(rows_ok(c, b.layers@[k])); assert(layer_ok(c, d)); lemma_row_len(b.layers@[k]);
    assert(node_ok(c, d.len() as int, i, d[i])); lemma_adj_ids(c, d.len() as int, i, d[i]); lemma_live(d[i]);
    let q = ids(d[i]);
    assert forall|j: int| 0 <= j < q.len() implies #[trigger] q[j] != i by { assert(q[j] == d[i][j]); }
    assert forall|j: int, l: int| 0 <= j < l < q.len() implies #[trigger] q[j] != #[trigger] q[l] by { assert(q[j] == d[i][j]); assert(q[l] == d[i][l]); }
    assert(b.layers@[k]@.len() <= b.layers@[b.layers@.len() - 1]@.len());
}
proof fn lemma_widths(s: Seq<Rows>, r: Seq<Rows>, w: int) requires widths(s, w), s.len() == r.len(), s.drop_last() == r.drop_last(), s.len() > 0, r.last().w() == s.last().w() ensures widths(r, w)
{ assert forall|k: int| 0 <= k < r.len() implies (#[trigger] r[k]).w() == w by { assert(s[k].w() == w); if k < r.len() - 1 { assert(r.drop_last()[k] == r[k]); assert(s.drop_last()[k] == s[k]); } } }
