// GranneBuilder of src/index/mod.rs
use core::cmp;
/// pbr, std::time, parking_lot::Mutex: showing progress
pub struct ProgressBar { pub show_speed: bool, pub show_time_left: bool }
impl ProgressBar {
    #[verifier::external_body] pub fn new(n: u64) -> Self { unimplemented!() }
    #[verifier::external_body] pub fn message(&mut self, s: &String) { unimplemented!() }
    #[verifier::external_body] pub fn set(&mut self, n: u64) { unimplemented!() }
    #[verifier::external_body] pub fn hide(&mut self) { unimplemented!() }
}
#[verifier::external_body] pub struct Bar { _p: u8 }
impl Bar {
    #[verifier::external_body] pub fn add(&self, n: u64) { unimplemented!() }
    #[verifier::external_body] pub fn set(&self, n: u64) { unimplemented!() }
}
#[verifier::external_body] pub struct Mutex { _p: u8 }
impl Mutex {
    #[verifier::external_body] pub fn new(b: ProgressBar) -> Self { unimplemented!() }
    #[verifier::external_body] pub fn lock(&self) -> Bar { unimplemented!() }
}
#[verifier::external_body] pub struct Instant { _p: u8 }
#[verifier::external_body] pub struct Elapsed { _p: u8 }
impl Instant { #[verifier::external_body] pub fn now() -> Self { unimplemented!() } }
#[verifier::external_body] fn vx_format(n: usize) -> String { unimplemented!() }

impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
/*@ src/slice_vector/mod.rs :: impl FixedWidthSliceVector :: fn iter_mut
#sig fn iter_mut<'b>(self: &'b mut Self) -> (r: It<&'b mut [T]>) where 'a: 'b
#subst `data . chunks_mut ( * width )` => `chunks_mut ( data , * width )`
#spec
    requires small_align::<T>(), old(self).wf(), old(self).w() > 0
    ensures rows_mut(*old(self), r@, *final(self))
#begin
    let ghost d0 = self.data(); let ghost w0 = self.w();
    proof { lemma_shape(d0.len() as int, w0); }
@*/
/*@ src/slice_vector/mod.rs :: impl FixedWidthSliceVector :: fn par_iter_mut
#sig fn par_iter_mut<'b>(self: &'b mut Self) -> (r: It<&'b mut [T]>) where 'a: 'b
#subst `data . par_chunks_mut ( * width )` => `chunks_mut ( data , * width )`
#spec
    requires small_align::<T>(), old(self).wf(), old(self).w() > 0
    ensures rows_mut(*old(self), r@, *final(self))
#begin
    let ghost d0 = self.data(); let ghost w0 = self.w();
    proof { lemma_shape(d0.len() as int, w0); }
@*/
}
/// r are the rows of a, which end up as those of b
#[verifier::prophetic]
spec fn rows_mut<'a, 'b, T: Clone>(a: FixedWidthSliceVector<'a, T>, r: Seq<&'b mut [T]>, b: FixedWidthSliceVector<'a, T>) -> bool {
    r.len() == a@.len() && b.wf() && b.w() == a.w() && b@.len() == a@.len()
    && forall|i: int| 0 <= i < r.len() ==> (*#[trigger] r[i])@ == a@[i] && (*final(r[i]))@ == b@[i]
}
/// slice::chunks_mut and rayon's par_chunks_mut, for a whole number of chunks
#[verifier::external_body]
fn chunks_mut<'b, T>(d: &'b mut Vec<T>, w: usize) -> (r: It<&'b mut [T]>)
    requires w > 0, old(d)@.len() as int % w as int == 0
    ensures r@.len() == old(d)@.len() as int / w as int, final(d)@.len() == old(d)@.len(),
        forall|i: int| 0 <= i < r@.len() ==> (*#[trigger] r@[i])@ == row(old(d)@, w as int, i) && (*final(r@[i]))@ == row(final(d)@, w as int, i)
{ unimplemented!() }
// ---- what holds of a layer ----
spec fn layer_ok<E: ElementContainer>(c: &E, d: Seq<Seq<u32>>) -> bool { forall|i: int| 0 <= i < d.len() ==> node_ok(c, d.len() as int, i, #[trigger] d[i]) }
/// every neighbor in a layer above has a direction
pub open spec fn all_alive<E: ElementContainer>(c: &E, a: Seq<Seq<Seq<usize>>>) -> bool { forall|k: int, i: int, j: int| 0 <= k < a.len() && 0 <= i < a[k].len() && 0 <= j < a[k][i].len() ==> alive(c, (#[trigger] a[k][i][j]) as int) }
spec fn good_lock<E: ElementContainer>(c: &E, n: int, i: int) -> spec_fn(Seq<u32>) -> bool { |q: Seq<u32>| 0 < q.len() < usize::MAX && node_ok(c, n, i, q) && (i >= n ==> live(q) == 0) }
/// the nodes that may be linked: those of the layer that have an element
spec fn lim<'a, E: ElementContainer>(c: &E, l: Seq<RwLock<&'a mut [u32]>>) -> int { if l.len() <= c.n() { l.len() as int } else { c.n() as int } }
spec fn locks_ok<'a, E: ElementContainer>(c: &E, l: Seq<RwLock<&'a mut [u32]>>) -> bool { forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).good() == good_lock(c, lim(c, l), i) }
/// every lock keeps an invariant of its own
#[verifier::external_body]
fn lock_nodes<'a, 'b>(layer: &'b mut FixedWidthSliceVector<'a, u32>, Ghost(g): Ghost<Seq<spec_fn(Seq<u32>) -> bool>>) -> (r: Vec<RwLock<&'b mut [u32]>>)
    requires old(layer).wf(), old(layer).w() > 0, g.len() == old(layer)@.len(), forall|i: int| 0 <= i < g.len() ==> (#[trigger] g[i])(old(layer)@[i])
    ensures r@.len() == g.len(), forall|i: int| 0 <= i < g.len() ==> (#[trigger] r@[i]).good() == g[i],
        final(layer).wf(), final(layer).w() == old(layer).w(), final(layer)@.len() == old(layer)@.len(), forall|i: int| 0 <= i < g.len() ==> (#[trigger] g[i])(final(layer)@[i])
{ unimplemented!() }
/// the ids below n that have a direction
spec fn alive_set<E: ElementContainer>(c: &E, n: nat) -> Set<usize> decreases n { if n == 0 { Set::empty() } else { let s = alive_set(c, (n - 1) as nat); if alive(c, n - 1) { s.insert((n - 1) as usize) } else { s } } }
proof fn lemma_alive_set<E: ElementContainer>(c: &E, n: nat) requires n <= usize::MAX ensures forall|x: usize| #[trigger] alive_set(c, n).contains(x) == (x < n && alive(c, x as int)) decreases n
{
    if n > 0 {
        let m = (n - 1) as nat; let s = alive_set(c, m); let y = m as usize;
        lemma_alive_set(c, m);
        assert(alive_set(c, n) == if alive(c, m as int) { s.insert(y) } else { s });
        assert forall|x: usize| #[trigger] alive_set(c, n).contains(x) == (x < n && alive(c, x as int)) by { assert(s.contains(x) == (x < m && alive(c, x as int))); assert(y == m); if x == y { assert(x as int == m as int); } }
    }
}
proof fn lemma_adj_ids<E: ElementContainer>(c: &E, n: int, i: int, q: Seq<u32>)
    requires node_ok(c, n, i, q) ensures forall|k: int| 0 <= k < ids(q).len() ==> #[trigger] ids(q)[k] < n && alive(c, ids(q)[k] as int)
{ lemma_live(q); assert forall|k: int| 0 <= k < ids(q).len() implies #[trigger] ids(q)[k] < n && alive(c, ids(q)[k] as int) by { assert(ids(q)[k] == q[k]); } }
/// a search among locked nodes finds nodes with a direction
proof fn lemma_found_alive<'a, E: ElementContainer>(l: &[RwLock<&'a mut [u32]>], c: &E, e: usize, g: E::V, m: int, res: Seq<Cand>)
    requires lim(c, l@) <= usize::MAX, locks_ok(c, l@), e < lim(c, l@), alive(c, e as int), exists|obs: Map<usize, Seq<usize>>| #[trigger] found(l, c, e, g, m, res, obs)
    ensures forall|k: int| 0 <= k < res.len() ==> (#[trigger] res[k]).0 < lim(c, l@) && alive(c, res[k].0 as int)
{
    let obs = choose|obs: Map<usize, Seq<usize>>| #[trigger] found(l, c, e, g, m, res, obs);
    let n = lim(c, l@) as nat;
    let r = alive_set(c, n);
    lemma_alive_set(c, n);
    assert forall|i: usize, s: Seq<usize>, k: int| r.contains(i) && #[trigger] l.rel(i as int, s) && 0 <= k < s.len() implies r.contains(#[trigger] s[k]) by {
        let q = choose|q: Seq<u32>| #[trigger] (l@[i as int].good())(q) && s == ids(q);
        assert(l@[i as int].good() == good_lock(c, n as int, i as int));
        lemma_adj_ids(c, n as int, i as int, q);
    }
    assert(closed(l, e, r));
    assert forall|k: int| 0 <= k < res.len() implies (#[trigger] res[k]).0 < lim(c, l@) && alive(c, res[k].0 as int) by { assert(r.contains(res[k].0)); }
}
proof fn lemma_locks_in_layer<'a, E: ElementContainer>(l: &[RwLock<&'a mut [u32]>], c: &E) requires locks_ok(c, l@) ensures in_both(l, c)
{
    assert forall|i: int, s: Seq<usize>, k: int| 0 <= i < l.n() && #[trigger] l.rel(i, s) && 0 <= k < s.len() implies #[trigger] s[k] < l.n() && s[k] < c.n() by {
        let q = choose|q: Seq<u32>| #[trigger] (l@[i].good())(q) && s == ids(q);
        assert(l@[i].good() == good_lock(c, lim(c, l@), i));
        lemma_adj_ids(c, lim(c, l@), i, q);
    }
}
/// the entry point found in the layers above has a direction
proof fn lemma_entry_alive<C: ElementContainer, E: ElementContainer>(a: Seq<Seq<Seq<usize>>>, cc: &C, g: C::V, m: int, nn: int, r: Seq<(usize, f32)>, c: &E)
    requires answer(a, cc, g, m, nn, r), m >= 1, nn >= 0, all_alive(c, a), a.len() > 0 ==> a.last().len() <= usize::MAX, adjs_ok(a), m == 1
    ensures forall|i: int| 0 <= i < r.len() ==> a.len() > 0 && (#[trigger] r[i]).0 < a.last().len() && alive(c, r[i].0 as int)
{
    if a.len() > 0 {
        let (es, full) = choose|es: Seq<usize>, full: Seq<Cand>| #[trigger] answer_by(a, cc, g, m, nn, r, es, full);
        let top = a.drop_last();
        lemma_entries_alive(a, cc, g, es, c, top.len() as int);
        lemma_closed_alive(a, cc, g, es[top.len() as int], m, full, c, a.len() - 1);
        assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).0 < a.last().len() && alive(c, r[i].0 as int) by { assert(full[i].0 < a.last().len()); }
    }
}
proof fn lemma_entries_alive<C: ElementContainer, E: ElementContainer>(a: Seq<Seq<Seq<usize>>>, cc: &C, g: C::V, es: Seq<usize>, c: &E, k: int)
    requires entries(a.drop_last(), cc, g, es), adjs_ok(a), all_alive(c, a), 0 <= k < a.len(), a.last().len() <= usize::MAX
    ensures alive(c, es[k] as int), es[k] < a[k].len()
    decreases k
{
    if k == 0 { assert(a[0].len() >= 1); } else {
        lemma_entries_alive(a, cc, g, es, c, k - 1);
        let t = a.drop_last();
        assert(leads(t[k - 1], cc, g, es[k - 1], es[k - 1 + 1]));
        let res = choose|res: Seq<Cand>| #[trigger] afound(t[k - 1], cc, es[k - 1], g, 1, res) && es[k] == res[0].0;
        lemma_closed_alive(a, cc, g, es[k - 1], 1, res, c, k - 1);
        assert(a[k - 1].len() <= a[k].len());
    }
}
proof fn lemma_closed_alive<C: ElementContainer, E: ElementContainer>(a: Seq<Seq<Seq<usize>>>, cc: &C, g: C::V, e: usize, m: int, res: Seq<Cand>, c: &E, k: int)
    requires 0 <= k < a.len(), adjs_ok(a), all_alive(c, a), afound(a[k], cc, e, g, m, res), alive(c, e as int), e < a[k].len(), a.last().len() <= usize::MAX
    ensures forall|i: int| 0 <= i < res.len() ==> alive(c, (#[trigger] res[i]).0 as int)
{
    assert(a[k].len() <= a[a.len() - 1].len());
    let n = a[k].len(); let r = alive_set(c, n);
    lemma_alive_set(c, n);
    assert(adj_ok(a[k]));
    assert forall|i: usize, j: int| r.contains(i) && i < n && 0 <= j < a[k][i as int].len() implies r.contains(#[trigger] a[k][i as int][j]) by { assert(alive(c, a[k][i as int][j] as int)); }
    assert(aclosed(a[k], e, r));
    assert forall|i: int| 0 <= i < res.len() implies alive(c, (#[trigger] res[i]).0 as int) by { assert(r.contains(res[i].0)); }
}
proof fn lemma_filter_cands(s: Seq<Cand>, p: spec_fn(Cand) -> bool)
    ensures once(s) ==> once(s.filter(p)), nearest_first(s) ==> nearest_first(s.filter(p)), forall|k: int| 0 <= k < s.filter(p).len() ==> s.contains(#[trigger] s.filter(p)[k]) && p(s.filter(p)[k])
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let t = s.drop_last(); let f = t.filter(p); let r = s.filter(p);
        lemma_filter_cands(t, p);
        assert forall|k: int| 0 <= k < r.len() implies s.contains(#[trigger] r[k]) && p(r[k]) by { if k < f.len() { assert(t.contains(f[k])); let j = choose|j: int| 0 <= j < t.len() && t[j] == f[k]; assert(s[j] == r[k]); } else { assert(s[s.len() - 1] == r[k]); } }
        if once(s) {
            assert(once(t)) by { assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).0 != (#[trigger] t[j]).0 by { assert(s[i].0 != s[j].0); } }
            assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).0 != (#[trigger] r[j]).0 by { if j < f.len() { assert(f[i].0 != f[j].0); } else { assert(t.contains(f[i])); let q = choose|q: int| 0 <= q < t.len() && t[q] == f[i]; assert(s[q].0 != s[s.len() - 1].0); } }
        }
        if nearest_first(s) {
            assert(nearest_first(t)) by { assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).1.ord() <= (#[trigger] t[j]).1.ord() by { assert(s[i].1.ord() <= s[j].1.ord()); } }
            assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).1.ord() <= (#[trigger] r[j]).1.ord() by { if j < f.len() { assert(f[i].1.ord() <= f[j].1.ord()); } else { assert(t.contains(f[i])); let q = choose|q: int| 0 <= q < t.len() && t[q] == f[i]; assert(s[q].1.ord() <= s[s.len() - 1].1.ord()); } }
        }
    }
}
/// what holds of node i allows connecting it to any other node that has a direction
spec fn node_keeps<'a, E: ElementContainer>(l: &[RwLock<&'a mut [u32]>], c: &E, i: int) -> bool {
    let h = l@[i].good();
    0 <= i < lim(c, l@) && (forall|q: Seq<u32>| #[trigger] h(q) ==> 0 < q.len() < usize::MAX && (forall|k: int| 0 <= k < live(q) ==> #[trigger] q[k] < lim(c, l@)) && (forall|k: int| live(q) <= k < q.len() ==> #[trigger] q[k] == u32::MAX))
    && (forall|q: Seq<u32>, p: Seq<u32>, j: usize, d: NotNan<f32>| #![trigger connected(c, i, j, d, q, p)] h(q) && connected(c, i, j, d, q, p) && j < lim(c, l@) && alive(c, j as int) ==> h(p))
}
spec fn update_ok<'a, E: ElementContainer>(l: &[RwLock<&'a mut [u32]>], c: &E, idx: int, nb: Seq<Cand>) -> bool {
    node_keeps(l, c, idx) && alive(c, idx)
    && (forall|k: int| 0 <= k < nb.len() ==> (#[trigger] nb[k]).0 < lim(c, l@) && node_keeps(l, c, nb[k].0 as int) && alive(c, nb[k].0 as int))
    && (forall|q: Seq<u32>, p: Seq<u32>, r: bool| #![trigger initialized(nb, q, p, r)] (l@[idx].good())(q) && initialized(nb, q, p, r) ==> (l@[idx].good())(p))
}
proof fn lemma_node_keeps<'a, E: ElementContainer>(l: &[RwLock<&'a mut [u32]>], c: &E, i: int)
    requires locks_ok(c, l@), 0 <= i < lim(c, l@) <= u32::MAX, alive(c, i)
    ensures node_keeps(l, c, i)
{
    let n = lim(c, l@);
    assert(l@[i].good() == good_lock(c, n, i));
    let h = l@[i].good();
    assert forall|q: Seq<u32>| #[trigger] h(q) implies 0 < q.len() < usize::MAX && (forall|k: int| 0 <= k < live(q) ==> #[trigger] q[k] < n) && (forall|k: int| live(q) <= k < q.len() ==> #[trigger] q[k] == u32::MAX) by { assert(node_ok(c, n, i, q)); }
    assert forall|q: Seq<u32>, p: Seq<u32>, j: usize, d: NotNan<f32>| #![trigger connected(c, i, j, d, q, p)] h(q) && connected(c, i, j, d, q, p) && j < n && alive(c, j as int) implies h(p) by { lemma_connected(c, n, i, j, d, q, p); }
}
proof fn lemma_update_ok<'a, E: ElementContainer>(l: &[RwLock<&'a mut [u32]>], c: &E, idx: int, nb: Seq<Cand>)
    requires locks_ok(c, l@), 0 <= idx < lim(c, l@) <= u32::MAX, alive(c, idx), cands_ok(c, lim(c, l@), idx, nb)
    ensures update_ok(l, c, idx, nb)
{
    let n = lim(c, l@);
    lemma_node_keeps(l, c, idx);
    assert forall|k: int| 0 <= k < nb.len() implies (#[trigger] nb[k]).0 < n && node_keeps(l, c, nb[k].0 as int) && alive(c, nb[k].0 as int) by { lemma_node_keeps(l, c, nb[k].0 as int); }
    assert(l@[idx].good() == good_lock(c, n, idx));
    assert forall|q: Seq<u32>, p: Seq<u32>, r: bool| #![trigger initialized(nb, q, p, r)] (l@[idx].good())(q) && initialized(nb, q, p, r) implies (l@[idx].good())(p) by { lemma_initialized(c, n, idx, nb, q, p, r); }
}
/// c's graph above the layer that is built
spec fn above_ok<'a, E: ElementContainer>(p: &Granne<'a, &'a E>, c: &E, n: int) -> bool { p.wf() && *p.elements == *c && all_alive(c, p.adj()) && (p.adj().len() > 0 ==> p.adj().last().len() <= n) }
impl<Elements: ElementContainer> GranneBuilder<Elements> {
/*@ src/index/mod.rs :: impl GranneBuilder :: fn index_element
#rtindex
#subst `parking_lot :: RwLock` => `RwLock`
#subst `NotNan :: new ( 100.0 * std :: f32 :: EPSILON ) . unwrap ( )` => `vx_threshold ( )`
#closure 0 in: map_or (b: usize) types: &(usize, f32)
    ensures b == vx_p0.0
#closure 1 in: filter (b: bool) types: &(usize, NotNan<f32>)
    ensures b == (vx_p0.0 != idx)
#spec
    requires 1 <= config.max_search, config.max_search * 20 <= usize::MAX, elements.inv(), elements.n() <= u32::MAX, above_ok(prev_layers, elements, lim(elements, layer@)), idx < lim(elements, layer@), locks_ok(elements, layer@)
#begin
    let ghost n = lim(elements, layer@); let ghost c = elements;
#at before `let candidates = search_for_neighbors`
    let ghost g = Elements::val(element);
    proof {
        lemma_locks_in_layer(layer, c);
        let a = prev_layers.adj();
        if a.len() > 0 { assert(a[a.len() - 1].len() >= 1); }
        assert forall|r: Seq<(usize, f32)>| #[trigger] answer(a, &prev_layers.elements, g, 1, 1, r) implies (forall|i: int| 0 <= i < r.len() ==> a.len() > 0 && (#[trigger] r[i]).0 < a.last().len() && alive(c, r[i].0 as int)) by { lemma_entry_alive(a, &prev_layers.elements, g, 1, 1, r, c); }
        assert(alive(c, 0));
        assert(entrypoint < n && alive(c, entrypoint as int));
    }
#at before `let candidates : Vec < _ > =`
    let ghost s0 = candidates@;
    proof { lemma_found_alive(layer, c, entrypoint, g, config.max_search as int, s0);
        assert forall|p: spec_fn(Cand) -> bool| true implies (once(#[trigger] s0.filter(p)) && nearest_first(s0.filter(p)) && forall|k: int| 0 <= k < s0.filter(p).len() ==> s0.contains(#[trigger] s0.filter(p)[k]) && p(s0.filter(p)[k])) by { lemma_filter_cands(s0, p); } }
#at before `let neighbors = Self :: select_neighbors`
    let ghost s1 = candidates@;
    proof {
        assert(nearest_first(s1) && once(s1));
        assert forall|k: int| 0 <= k < s1.len() implies (#[trigger] s1[k]).0 < n && s1[k].0 != idx && alive(c, s1[k].0 as int) by { assert(s0.contains(s1[k])); let j = choose|j: int| 0 <= j < s0.len() && s0[j] == s1[k]; assert(s0[j].0 < n); }
        lemma_c04(c, s1, config.num_neighbors as int);
    }
#at before `if let Some ( ( _ , d ) ) =`
    let ghost nb = neighbors@;
    proof {
        assert forall|k: int| 0 <= k < nb.len() implies (#[trigger] nb[k]).0 < n && nb[k].0 != idx && alive(c, nb[k].0 as int) by { assert(s1.contains(nb[k])); let j = choose|j: int| 0 <= j < s1.len() && s1[j] == nb[k]; assert(s1[j].0 < n); }
        assert(cands_ok(c, n, idx as int, nb));
        assert(alive(c, idx as int));
        lemma_update_ok(layer, c, idx as int, nb);
    }
#loops 2
#loop 0
    invariant vx_i0 <= vx_v0@.len(), vx_v0@.len() == nb.len(), forall|k: int| 0 <= k < nb.len() ==> *(#[trigger] vx_v0@[k]) == nb[k], c == elements, update_ok(layer, c, idx as int, nb), n == lim(elements, layer@), elements.inv(), elements.n() <= u32::MAX, idx < n <= elements.n(),
    decreases vx_v0@.len() - vx_i0
#loop 0 begin
    proof { assert(nb[vx_i0 - 1].0 < n); assert(node_keeps(layer, c, idx as int)); }
#loop 1
    invariant vx_i1 <= vx_v1@.len(), vx_v1@ == nb, c == elements, update_ok(layer, c, idx as int, nb), n == lim(elements, layer@), elements.inv(), elements.n() <= u32::MAX, idx < n <= elements.n(),
    decreases vx_v1@.len() - vx_i1
#loop 1 begin
    proof { assert(nb[vx_i1 - 1].0 < n); assert(node_keeps(layer, c, nb[vx_i1 - 1].0 as int)); }
@*/
}
proof fn lemma_row_len<'a, T: Clone>(a: FixedWidthSliceVector<'a, T>) requires a.wf(), a.w() > 0 ensures forall|i: int| 0 <= i < a@.len() ==> (#[trigger] a@[i]).len() == a.w()
{
    lemma_shape(a.data().len() as int, a.w());
    assert forall|i: int| 0 <= i < a@.len() implies (#[trigger] a@[i]).len() == a.w() by { lemma_in(i, a@.len() as int, a.w()); }
}
proof fn lemma_node_grows<E: ElementContainer>(c: &E, n: int, m: int, i: int, q: Seq<u32>) requires node_ok(c, n, i, q), n <= m ensures node_ok(c, m, i, q) {}
proof fn lemma_empty_node<E: ElementContainer>(c: &E, n: int, i: int, q: Seq<u32>) requires forall|k: int| 0 <= k < q.len() ==> #[trigger] q[k] == u32::MAX ensures node_ok(c, n, i, q), live(q) == 0
{ lemma_live_is(q, 0); }
proof fn lemma_all_cands_none<E: ElementContainer>(c: &E, n: int, i: int, q: Seq<u32>, m: int, p: Seq<u32>)
    requires node_ok(c, n, i, q), limited(c, i, q, Seq::empty(), m, p), 0 <= m <= q.len(), n <= u32::MAX
    ensures node_ok(c, n, i, p), p.len() == q.len()
{ lemma_all_cands(c, n, i, q, Seq::empty()); lemma_limited(c, n, i, q, Seq::empty(), m, p); }
impl<Elements: ElementContainer> GranneBuilder<Elements> {
/*@ src/index/mod.rs :: impl GranneBuilder :: fn index_elements
#subst `pbr :: ProgressBar :: new` => `ProgressBar :: new`
#subst `format ! ( "Layer {}: " , prev_layers . layers . load ( ) . len ( ) )` => `vx_format ( prev_layers . layers . load ( ) . len ( ) )`
#subst `parking_lot :: Mutex :: new` => `Mutex :: new`
#subst `time :: Instant :: now ( )` => `Instant :: now ( )`
#subst `parking_lot :: RwLock < & mut [ NeighborId ] >` => `RwLock < & mut [ NeighborId ] >`
#subst `layer . iter_mut ( ) . map ( parking_lot :: RwLock :: new ) . collect ( )` => `lock_nodes ( layer , Ghost ( goods ) )`
#subst `layer . par_iter ( )` => `layer . it ( )`
#subst `| ( idx , _ ) | { Self` => `| ( idx , _ ) : ( usize , & RwLock < & mut [ NeighborId ] > ) | { Self`
#closure 0 (b: ()) types: (usize, &RwLock<&mut [NeighborId]>)
    requires 1 <= config.max_search, config.max_search * 20 <= usize::MAX, elements.inv(), elements.n() <= u32::MAX, above_ok(prev_layers, elements, layer@.len() as int), vx_p0.0 < layer@.len() <= elements.n(), locks_ok(elements, layer@), step_size >= 1
    ensures true
#closure 1 (b: ()) types: (usize, &mut [NeighborId])
    requires elements.inv(), elements.n() <= u32::MAX, vx_p0.0 < n <= elements.n(), node_ok(elements, n, vx_p0.0 as int, (*old(vx_p0.1))@), (*old(vx_p0.1))@.len() < usize::MAX
    ensures node_ok(elements, n, vx_p0.0 as int, (*final(vx_p0.1))@), (*final(vx_p0.1))@.len() == (*old(vx_p0.1))@.len()
#spec
    requires 1 <= config.max_search, config.max_search * 20 <= usize::MAX, elements.inv(), elements.n() <= u32::MAX, num_elements <= elements.n(), old(layer).wf(), 0 < old(layer).w() <= u32::MAX,
        layer_ok(elements, old(layer)@), above_ok(prev_layers, elements, num_elements as int), reinsert_elements ==> old(layer)@.len() == num_elements
    ensures old(layer)@.len() <= num_elements, final(layer).wf(), final(layer).w() == old(layer).w(), final(layer)@.len() == num_elements, layer_ok(elements, final(layer)@)
#begin
    let ghost n = num_elements as int; let ghost w = layer.w(); let ghost goods = Seq::new(num_elements as nat, |i: int| good_lock(elements, num_elements as int, i));
    let ghost d0 = layer@;
    proof { axiom_u32_layout(); assert(num_elements * w <= u32::MAX * u32::MAX) by (nonlinear_arith) requires 0 <= num_elements <= u32::MAX, 0 < w <= u32::MAX; }
#at before `let step_size =`
    proof {
        lemma_row_len(*layer);
        assert forall|i: int| 0 <= i < n implies node_ok(elements, n, i, #[trigger] layer@[i]) by { if i < d0.len() { lemma_node_grows(elements, d0.len() as int, n, i, d0[i]); } else { lemma_empty_node(elements, n, i, layer@[i]); } }
        assert forall|i: int| 0 <= i < n implies (#[trigger] goods[i])(layer@[i]) by { assert(node_ok(elements, n, i, layer@[i])); }
    }
#at before `let ( progress_bar , start_time ) =`
    proof { assert(step_size * (already_indexed as int / step_size as int) <= already_indexed) by (nonlinear_arith) requires step_size > 0, already_indexed >= 0; }
#at before `if let Some ( progress_bar ) = progress_bar`
    proof {
        lemma_row_len(*layer);
        assert forall|i: int| 0 <= i < n implies node_ok(elements, n, i, #[trigger] layer@[i]) && layer@[i].len() == w by { assert(goods[i](layer@[i])); }
    }
#at before `layer_iter_mut . enumerate ( )`
    let ghost rr = layer_iter_mut@;
#at before `Self :: add_and_limit_neighbors`
    let ghost q = node@;
#at after `Self :: add_and_limit_neighbors`
    proof { assert(limited(elements, i as int, q, Seq::empty(), config.num_neighbors as int, node@)) by { let x: &[(usize, NotNan<f32>)] = &[]; assert(x@ =~= Seq::<Cand>::empty()); }
        lemma_all_cands_none(elements, n, i as int, q, config.num_neighbors as int, node@); }
#at before `if let Some ( start_time ) = start_time`
    proof {
        assert forall|i: int| 0 <= i < n implies node_ok(elements, n, i, #[trigger] layer@[i]) by { assert((*final(rr[i]))@ == layer@[i]); }
    }
@*/
}
