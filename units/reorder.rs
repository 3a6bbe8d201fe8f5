// reordering: src/index/reorder.rs
use core::cmp;
/// Vec::extend and rayon's par_extend
pub trait VxExtend<T>: Sized { spec fn xs(&self) -> Seq<T>; fn vx_extend(&mut self, it: It<T>) ensures final(self).xs() == old(self).xs() + it@; fn par_extend(&mut self, it: It<T>) ensures final(self).xs() == old(self).xs() + it@; }
impl<T> VxExtend<T> for Vec<T> { open spec fn xs(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_extend(&mut self, it: It<T>) { unimplemented!() } #[verifier::external_body] fn par_extend(&mut self, it: It<T>) { unimplemented!() } }
/// rayon's par_sort_unstable
pub trait VxSort<T: Ord>: Sized { spec fn ss(&self) -> Seq<T>; fn par_sort_unstable(&mut self) ensures final(self).ss().len() == old(self).ss().len(), final(self).ss().to_multiset() == old(self).ss().to_multiset(), T::obeys_cmp_spec() ==> sorted_by(final(self).ss()); }
impl<T: Ord> VxSort<T> for Vec<T> { open spec fn ss(&self) -> Seq<T> { self@ } #[verifier::external_body] fn par_sort_unstable(&mut self) { unimplemented!() } }
pub open spec fn sorted_by<T: Ord>(s: Seq<T>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> !(OrdSpec::cmp_spec(&(#[trigger] s[i]), &(#[trigger] s[j])) is Greater) }
/// rayon's par_chunks: the chunks in order
pub open spec fn upto(i: int, n: int, len: int) -> int { if i * n < len { i * n } else { len } }
pub open spec fn chunk_count(len: int, n: int) -> int { (len + n - 1) / n }
pub trait VxParChunks<T> { spec fn pcs(&self) -> Seq<T>;
    fn par_chunks(&self, n: usize) -> (r: It<&[T]>) ensures n > 0, r@.len() == chunk_count(self.pcs().len() as int, n as int), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self.pcs().subrange(i * n, upto(i + 1, n as int, self.pcs().len() as int)),
        forall|i: int, k: int| 0 <= i < r@.len() && 0 <= k < r@[i]@.len() ==> 0 <= i * n + k < self.pcs().len() && #[trigger] r@[i]@[k] == self.pcs()[i * n + k]; }
impl<T> VxParChunks<T> for [T] { open spec fn pcs(&self) -> Seq<T> { self@ } #[verifier::external_body] fn par_chunks(&self, n: usize) -> It<&[T]> { unimplemented!() } }
proof fn lemma_chunk_count(len: int, n: int) requires n > 0, len >= 0 ensures upto(chunk_count(len, n), n, len) == len, forall|i: int| 0 <= i < chunk_count(len, n) ==> 0 <= #[trigger] (i * n) < len {
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(len + n - 1, n); let k = chunk_count(len, n); assert(n * k == k * n) by (nonlinear_arith);
    assert forall|i: int| 0 <= i < k implies 0 <= #[trigger] (i * n) < len by { assert(0 <= i * n && i * n + n <= k * n) by (nonlinear_arith) requires 0 <= i < k, n > 0; }
}
proof fn lemma_upto(i: int, n: int, len: int) requires 0 <= i, n > 0, i * n < len ensures upto(i, n, len) == i * n <= upto(i + 1, n, len) <= len, i * n >= 0 { assert((i + 1) * n == i * n + n) by (nonlinear_arith); assert(i * n >= 0) by (nonlinear_arith) requires 0 <= i, n > 0; }
#[verifier::external_body]
fn vx_iter_mut<'b, T, const N: usize>(s: &'b mut [T; N]) -> (r: It<&'b mut T>) ensures r@.len() == N, forall|i: int| 0 <= i < N ==> *(#[trigger] r@[i]) == old(s)@[i] && *final(r@[i]) == final(s)@[i] { unimplemented!() }
pub struct TooBig;
#[verifier::external_body]
fn id_from(x: usize) -> (r: core::result::Result<NeighborId, TooBig>) ensures r is Ok <==> x <= u32::MAX, r is Ok ==> r->Ok_0 == x { unimplemented!() }

/// q is the inverse of p
spec fn inverse(p: Seq<usize>, q: Seq<usize>) -> bool { is_perm(p) && q.len() == p.len() && forall|i: int| 0 <= i < p.len() ==> #[trigger] q[p[i] as int] == i }
/*@ src/index/reorder.rs :: fn get_reverse_mapping
#ret r
#spec
    requires is_perm(mapping@)
    ensures inverse(mapping@, r@)
#loop 0 inv
    invariant is_perm(mapping@), rev_mapping@.len() == mapping@.len(), vx_v0@.len() == mapping@.len(), forall|k: int| 0 <= k < mapping@.len() ==> (#[trigger] vx_v0@[k]).0 == k && *vx_v0@[k].1 == mapping@[k], 0 <= vx_i0 <= vx_v0@.len(),
        forall|k: int| 0 <= k < vx_i0 ==> #[trigger] rev_mapping@[mapping@[k] as int] == k
    decreases vx_v0@.len() - vx_i0
#loop 0 end
    proof { let k = vx_i0 - 1; assert(mapping@[k] == *vx_v0@[k].1); }
@*/
/// ids translated to the new order
spec fn translated(s: Seq<usize>, q: Seq<usize>) -> Seq<usize> { s.map_values(|n: usize| q[n as int]) }
spec fn trans32(s: Seq<usize>, q: Seq<usize>) -> Seq<u32> { s.map_values(|n: usize| q[n as int] as u32) }
/// the permutation maps the first n elements onto themselves
spec fn keeps(p: Seq<usize>, n: int) -> bool { n <= p.len() && forall|i: int| 0 <= i < n ==> #[trigger] p[i] < n }
/// b is a reordered by p, whose inverse is q
spec fn isomorphic(a: Seq<Seq<usize>>, b: Seq<Seq<usize>>, p: Seq<usize>, q: Seq<usize>) -> bool {
    b.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] b[i]).to_multiset() == translated(a[p[i] as int], q).to_multiset()
}
/// what encoding allows
spec fn short(a: Seq<Seq<usize>>) -> bool { a.len() <= u32::MAX && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).len() <= 254 }
/// every translated id fits
spec fn small(s: Seq<usize>, q: Seq<usize>) -> bool { forall|k: int| 0 <= k < s.len() ==> q[(#[trigger] s[k]) as int] <= u32::MAX }
spec fn row_of(o: Seq<usize>, l: Seq<u32>, i: int) -> Seq<u32> { l.subrange(o[i] as int, o[i + 1] as int) }
/// the lists of the nodes ids, one after the other, and where they start
spec fn chunk_ok(a: Seq<Seq<usize>>, q: Seq<usize>, ids: Seq<usize>, n: int, o: Seq<usize>, l: Seq<u32>) -> bool {
    0 <= n <= ids.len() && o.len() == n + 1 && o[n] == l.len() && (forall|i: int| 0 <= i < n ==> #[trigger] o[i] <= o[i + 1] <= l.len())
    && forall|i: int| 0 <= i < n ==> #[trigger] row_of(o, l, i) == trans32(a[ids[i] as int], q) && small(a[ids[i] as int], q)
}
proof fn lemma_chunk_next(a: Seq<Seq<usize>>, q: Seq<usize>, ids: Seq<usize>, n: int, o: Seq<usize>, l: Seq<u32>, l1: Seq<u32>, x: usize)
    requires chunk_ok(a, q, ids, n, o, l), n < ids.len(), small(a[ids[n] as int], q), l1 == l + trans32(a[ids[n] as int], q), x == l1.len()
    ensures chunk_ok(a, q, ids, n + 1, o.push(x), l1)
{
    let o1 = o.push(x);
    assert forall|i: int| 0 <= i < n + 1 implies #[trigger] o1[i] <= o1[i + 1] <= l1.len() by { if i < n { assert(o[i] <= o[i + 1]); } }
    assert forall|i: int| 0 <= i < n + 1 implies #[trigger] row_of(o1, l1, i) == trans32(a[ids[i] as int], q) && small(a[ids[i] as int], q) by {
        if i < n { assert(o[i] <= o[i + 1]); assert(row_of(o1, l1, i) =~= row_of(o, l, i)); } else { assert(row_of(o1, l1, i) =~= trans32(a[ids[n] as int], q)); }
    }
}
/// the lists of the new layer so far
spec fn lists_so_far(ls: Seq<Seq<u32>>, a: Seq<Seq<usize>>, p: Seq<usize>, q: Seq<usize>) -> bool {
    ls.len() <= a.len() && forall|i: int| 0 <= i < ls.len() ==> (#[trigger] ls[i]).to_multiset() == trans32(a[p[i] as int], q).to_multiset() && small(a[p[i] as int], q)
}
proof fn lemma_map_ms<A, B>(s: Seq<A>, t: Seq<A>, f: spec_fn(A) -> B)
    requires s.to_multiset() == t.to_multiset() ensures s.map_values(f).to_multiset() == t.map_values(f).to_multiset()
    decreases s.len()
{
    s.to_multiset_ensures(); t.to_multiset_ensures();
    if s.len() == 0 { assert(s.map_values(f) =~= t.map_values(f)); }
    else {
        let x = s.last();
        assert(s.contains(x)); assert(s.to_multiset().count(x) > 0); assert(t.contains(x));
        let j = choose|j: int| 0 <= j < t.len() && t[j] == x;
        let (s1, t1) = (s.drop_last(), t.remove(j));
        assert(s1.push(x) =~= s); s1.to_multiset_ensures();
        assert(s1.to_multiset() =~= s.to_multiset().remove(x));
        assert(t1.to_multiset() =~= t.to_multiset().remove(x));
        lemma_map_ms(s1, t1, f);
        s1.map_values(f).to_multiset_ensures(); t.map_values(f).to_multiset_ensures();
        assert(s.map_values(f) =~= s1.map_values(f).push(f(x)));
        assert(t.map_values(f).remove(j) =~= t1.map_values(f));
        assert(t.map_values(f).to_multiset() =~= t1.map_values(f).to_multiset().insert(f(x)));
    }
}
proof fn lemma_as_usize(s: Seq<u32>, t: Seq<usize>, q: Seq<usize>)
    requires s.to_multiset() == trans32(t, q).to_multiset(), small(t, q)
    ensures as_usize(s).to_multiset() == translated(t, q).to_multiset()
{
    lemma_map_ms(s, trans32(t, q), |x: u32| x as usize);
    assert(as_usize(s) =~= s.map_values(|x: u32| x as usize));
    assert(trans32(t, q).map_values(|x: u32| x as usize) =~= translated(t, q));
}
spec fn chunks_ok(c: Seq<(Vec<usize>, Vec<u32>)>, a: Seq<Seq<usize>>, p: Seq<usize>, q: Seq<usize>, n: int) -> bool {
    let len = a.len() as int;
    c.len() == chunk_count(len, n) && forall|i: int| 0 <= i < c.len() ==> chunk_ok(a, q, p.subrange(i * n, upto(i + 1, n, len)), upto(i + 1, n, len) - i * n, (#[trigger] c[i]).0@, c[i].1@)
}
/*@ src/index/reorder.rs :: fn reorder_layer
#ret r
#subst `pbr :: ProgressBar :: new` => `ProgressBar :: new`
#subst `. extend (` => `. vx_extend (`
#subst `NeighborId :: try_from` => `id_from`
#subst `. unwrap ( )` => `. rt_unwrap ( )`
#subst `new_layer . push ( & chunk [ offset [ i - 1 ] .. offset [ i ] ] )` => `new_layer . push ( & chunk [ offset [ i - 1 ] .. offset [ i ] ], Ghost(ls) )`
#subst `new_layer . len ( )` => `new_layer . len ( Ghost(ls) )`
#spec
    requires det(layer), adj_ok(layer.adj()), short(layer.adj()), inverse(mapping@, reverse_mapping@), keeps(mapping@, layer.adj().len() as int)
    ensures r.inv(), isomorphic(layer.adj(), r.adj(), mapping@, reverse_mapping@)
#begin
    let ghost a = layer.adj(); let ghost p = mapping@; let ghost q = reverse_mapping@; let ghost mut ls: Seq<Seq<u32>> = Seq::empty();
#closure 0 (b: (Vec<usize>, Vec<u32>)) types: &[usize]
    requires det(layer), adj_ok(layer.adj()), inverse(mapping@, reverse_mapping@), layer.adj().len() <= mapping@.len(), forall|k: int| 0 <= k < c@.len() ==> #[trigger] c@[k] < layer.adj().len()
    ensures chunk_ok(layer.adj(), reverse_mapping@, c@, c@.len() as int, b.0@, b.1@)
#closure 1 (b: u32) types: usize
    requires vx_p0 < reverse_mapping@.len() ensures b == reverse_mapping@[vx_p0 as int]
#loop 0 inv
    invariant det(layer), adj_ok(layer.adj()), inverse(mapping@, reverse_mapping@), layer.adj().len() <= mapping@.len(), forall|k: int| 0 <= k < c@.len() ==> #[trigger] c@[k] < layer.adj().len(),
        vx_v0@.len() == c@.len(), forall|k: int| 0 <= k < c@.len() ==> *(#[trigger] vx_v0@[k]) == c@[k], 0 <= vx_i0 <= vx_v0@.len(),
        chunk_ok(layer.adj(), reverse_mapping@, c@, vx_i0 as int, offset_chunk@, layer_chunk@)
    decreases vx_v0@.len() - vx_i0
#loop 0 begin
    let ghost l0 = layer_chunk@; let ghost o0 = offset_chunk@; let ghost s = layer.adj()[id as int];
    proof { assert(id == c@[vx_i0 - 1]); assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] < reverse_mapping@.len() by {} }
#loop 0 end
    proof {
        let q = reverse_mapping@; let l1 = layer_chunk@;
        assert(l1.len() == l0.len() + s.len());
        assert forall|k: int| 0 <= k < s.len() implies q[(#[trigger] s[k]) as int] <= u32::MAX && l1[l0.len() + k] == q[s[k] as int] by { assert(l1[l0.len() + k] == q[s[k] as int]); }
        assert(l1 =~= l0 + trans32(s, q));
        lemma_chunk_next(layer.adj(), q, c@, vx_i0 - 1, o0, l0, l1, l1.len() as usize);
    }
#at before `let mut new_layer`
    proof { assert(p.subrange(0, a.len() as int).len() == a.len()); assert forall|j: int| 0 <= j < a.len() implies #[trigger] p.subrange(0, a.len() as int)[j] < a.len() by { assert(p[j] < a.len()); } }
#at before `let chunks`
    let ghost n = chunk_size as int; let ghost len = a.len() as int;
    proof { lemma_chunk_count(len, n); }
#loop 1 before
    proof { assert(upto(0, n, len) == 0); 
        assert forall|i: int| 0 <= i < chunks@.len() implies chunk_ok(a, q, p.subrange(i * n, upto(i + 1, n, len)), upto(i + 1, n, len) - i * n, (#[trigger] chunks@[i]).0@, chunks@[i].1@) by {
            assert(0 <= i * n < len); lemma_upto(i, n, len); assert(p.subrange(0, len).subrange(i * n, upto(i + 1, n, len)) =~= p.subrange(i * n, upto(i + 1, n, len)));
        } }
#loop 1 inv
    invariant a == layer.adj(), det(layer), adj_ok(a), short(a), inverse(p, q), keeps(p, len), len == a.len(), n == chunk_size, n > 0,
        forall|i: int| 0 <= i < chunk_count(len, n) ==> 0 <= #[trigger] (i * n) < len, upto(chunk_count(len, n), n, len) == len,
        chunks_ok(vx_v1@, a, p, q, n), 0 <= vx_i1 <= vx_v1@.len(), ls.len() == upto(vx_i1 as int, n, len), lists_so_far(ls, a, p, q), new_layer.holds(ls), new_layer.data.chunks().len() <= ls.len() + 2
    decreases vx_v1@.len() - vx_i1
#loop 2 before
    let ghost k1 = vx_i1 - 1; let ghost base = ls.len() as int; let ghost cs = p.subrange(k1 * n, upto(vx_i1 as int, n, len));
    proof { assert(k1 * n < len); lemma_upto(k1, n, len); assert(chunk_ok(a, q, cs, cs.len() as int, offset@, chunk@)); }
#loop 2 inv
    invariant a == layer.adj(), det(layer), adj_ok(a), short(a), inverse(p, q), keeps(p, len), len == a.len(), base == k1 * n, 0 <= base, cs == p.subrange(base, base + cs.len()), base + cs.len() <= len,
        chunk_ok(a, q, cs, cs.len() as int, offset@, chunk@), vx_e2 == offset@.len(), 1 <= vx_i2 <= vx_e2, ls.len() == base + vx_i2 - 1, lists_so_far(ls, a, p, q), new_layer.holds(ls), new_layer.data.chunks().len() <= ls.len() + 2
    decreases vx_e2 - vx_i2
#loop 2 begin
    let ghost j = i - 1; let ghost ls0 = ls;
    proof { assert(offset@[j] <= offset@[j + 1]); assert(row_of(offset@, chunk@, j) == trans32(a[cs[j] as int], q)); assert(cs[j] == p[base + j]); assert(p[base + j] < len); assert(a[cs[j] as int].len() <= 254); }
#loop 2 end
    proof {
        let d = trans32(a[cs[j] as int], q);
        let s = choose|s: Seq<u32>| #[trigger] pushed(new_layer, ls0, s, d);
        ls = ls0.push(s);
    }
#tail r
    proof {
        new_layer.lemma_holds(ls);
        assert forall|i: int| 0 <= i < len implies (#[trigger] r.adj()[i]).to_multiset() == translated(a[p[i] as int], q).to_multiset() by { assert(ls[i].to_multiset() == trans32(a[p[i] as int], q).to_multiset()); lemma_as_usize(ls[i], a[p[i] as int], q); }
    }
@*/

/// the permutation maps the elements of each layer onto themselves
spec fn layered(p: Seq<usize>, a: Seq<Seq<Seq<usize>>>) -> bool { is_perm(p) && p.len() == (if a.len() == 0 { 0 } else { a.last().len() }) && forall|k: int| 0 <= k < a.len() ==> keeps(p, (#[trigger] a[k]).len() as int) }
spec fn shorts(a: Seq<Seq<Seq<usize>>>) -> bool { forall|k: int| 0 <= k < a.len() ==> short(#[trigger] a[k]) }
spec fn all_isomorphic(a: Seq<Seq<Seq<usize>>>, b: Seq<Seq<Seq<usize>>>, p: Seq<usize>, q: Seq<usize>) -> bool { inverse(p, q) && b.len() == a.len() && forall|k: int| 0 <= k < a.len() ==> isomorphic(a[k], #[trigger] b[k], p, q) }
/*@ src/index/reorder.rs :: fn reorder_layers
#ret r
#closure 0 (b: MultiSetVector<'static>) types: &FixedWidthSliceVector<'_, NeighborId>
    requires vx_p0.inv(), adj_ok(vx_p0.adj()), short(vx_p0.adj()), inverse(mapping@, reverse_mapping@), keeps(mapping@, vx_p0.adj().len() as int)
    ensures b.inv(), isomorphic(vx_p0.adj(), b.adj(), mapping@, reverse_mapping@)
#closure 1 (b: MultiSetVector<'static>) types: &MultiSetVector<'_>
    requires vx_p0.inv(), adj_ok(vx_p0.adj()), short(vx_p0.adj()), inverse(mapping@, reverse_mapping@), keeps(mapping@, vx_p0.adj().len() as int)
    ensures b.inv(), isomorphic(vx_p0.adj(), b.adj(), mapping@, reverse_mapping@)
#spec
    requires layers.inv(), adjs_ok(layers.adj()), shorts(layers.adj()), layered(mapping@, layers.adj())
    ensures r.inv(), r is Compressed, exists|q: Seq<usize>| #[trigger] all_isomorphic(layers.adj(), r.adj(), mapping@, q)
#at before `match`
    proof {
        let a = layers.adj();
        match layers {
            Layers::FixWidth(v) => { assert forall|k: int| 0 <= k < v@.len() implies (#[trigger] v@[k]).inv() && v@[k].adj() == a[k] && adj_ok(v@[k].adj()) && short(v@[k].adj()) && keeps(mapping@, v@[k].adj().len() as int) by { assert(short(a[k])); } },
            Layers::Compressed(v) => { assert forall|k: int| 0 <= k < v@.len() implies (#[trigger] v@[k]).inv() && v@[k].adj() == a[k] && adj_ok(v@[k].adj()) && short(v@[k].adj()) && keeps(mapping@, v@[k].adj().len() as int) by { assert(short(a[k])); } },
        }
    }
#tail r
    proof { assert(all_isomorphic(layers.adj(), r.adj(), mapping@, reverse_mapping@)); }
@*/
/*@ src/index/reorder.rs :: const NUM_LAYERS
@*/
/// ids of elements of the layers, 0 for the others
spec fn trail(e: Seq<u32>, a: Seq<Seq<Seq<usize>>>, m: int) -> bool { e.len() == NUM_LAYERS && forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]) == 0 || (i < a.len() && i < m && e[i] < a[i].len()) }
/*@ src/index/reorder.rs :: fn find_entrypoint_trail :: fn _find_entrypoint_trail
#ret r
#subst `ep . try_into ( ) . unwrap ( )` => `ep as usize`
#subst `res [ 0 ] . 0 . try_into ( ) . unwrap ( )` => `id_from(res[0].0).rt_unwrap()`
#subst `use std :: convert :: TryInto ;` => ``
#spec
    requires dets(layers@), adjs_ok(adjs(layers@)), elements.inv(), elements.fits(Elements::val(*element)), layers@.len() > 0 ==> layers@.last().n() <= elements.n()
    ensures trail(r@, adjs(layers@), max_layer as int)
#begin
    let ghost a = adjs(layers@);
    proof { if a.len() > 0 { assert(det(&layers@[a.len() - 1])); } }
#loop 0 inv
    invariant a == adjs(layers@), dets(layers@), adjs_ok(a), elements.inv(), elements.fits(Elements::val(*element)), a.len() > 0 ==> a.last().len() <= elements.n(),
        vx_v0@.len() <= a.len(), vx_v0@.len() <= NUM_LAYERS, vx_v0@.len() <= max_layer, forall|k: int| 0 <= k < vx_v0@.len() ==> (#[trigger] vx_v0@[k]).0 == k && *vx_v0@[k].1 == layers@[k], 0 <= vx_i0 <= vx_v0@.len(),
        trail(eps@, a, vx_i0 as int)
    decreases vx_v0@.len() - vx_i0
#loop 0 begin
    proof { assert(det(&layers@[i as int])); assert(adj_ok(a[i as int]) && a[i as int] == layers@[i as int].adj()); lemma_in_layer(layer); assert(a[i as int].len() <= a[a.len() - 1].len()); assert(eps@[i as int] == 0); }
@*/
/*@ src/index/reorder.rs :: fn find_entrypoint_trail
#ret r
#drop `fn _find_entrypoint_trail`
#spec
    requires layers.inv(), adjs_ok(layers.adj()), elements.inv(), elements.fits(Elements::val(*element)), layers.adj().len() > 0 ==> layers.adj().last().len() <= elements.n()
    ensures trail(r@, layers.adj(), max_layer as int)
#begin
    proof {
        match layers {
            Layers::FixWidth(v) => { assert forall|k: int| 0 <= k < v@.len() implies #[trigger] det(&v@[k]) by { lemma_det_fixed(&v@[k]); } assert(adjs(v@) =~= layers.adj()); },
            Layers::Compressed(v) => { assert forall|k: int| 0 <= k < v@.len() implies #[trigger] det(&v@[k]) by { lemma_det_compressed(&v@[k]); } assert(adjs(v@) =~= layers.adj()); },
        }
    }
@*/
/// t holds the elements from b to e, each once
spec fn block(t: Seq<usize>, b: int, e: int) -> bool { t.len() == e - b && t.to_multiset() == Seq::new((e - b) as nat, |i: int| (b + i) as usize).to_multiset() }
proof fn lemma_block(t: Seq<usize>, b: int, e: int)
    requires block(t, b, e), 0 <= b <= e <= usize::MAX
    ensures forall|i: int| 0 <= i < t.len() ==> b <= #[trigger] t[i] < e, forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && #[trigger] t[i] == #[trigger] t[j] ==> i == j
{
    let u = Seq::new((e - b) as nat, |i: int| (b + i) as usize);
    u.to_multiset_ensures(); t.to_multiset_ensures();
    u.lemma_multiset_has_no_duplicates();
    t.lemma_multiset_has_no_duplicates_conv();
    assert forall|i: int| 0 <= i < t.len() implies b <= #[trigger] t[i] < e by { assert(t.contains(t[i])); assert(u.to_multiset().count(t[i]) > 0); assert(u.contains(t[i])); }
}
/// sorting pairs and taking the second components of e gives a block if they started as b..e
proof fn lemma_seconds<K>(s: Seq<(K, usize)>, t: Seq<(K, usize)>, b: int, e: int)
    requires s.to_multiset() == t.to_multiset(), t.len() == e - b, 0 <= b <= e <= usize::MAX, forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).1 == b + i
    ensures block(s.map_values(|x: (K, usize)| x.1), b, e)
{
    s.to_multiset_ensures(); t.to_multiset_ensures();
    lemma_map_ms(s, t, |x: (K, usize)| x.1);
    assert(t.map_values(|x: (K, usize)| x.1) =~= Seq::new((e - b) as nat, |i: int| (b + i) as usize));
}
/// the permutation of the first l layers
spec fn layered_to(p: Seq<usize>, a: Seq<Seq<Seq<usize>>>, l: int) -> bool { is_perm(p) && p.len() == (if l == 0 { 0 } else { a[l - 1].len() }) && forall|k: int| 0 <= k < l ==> keeps(p, (#[trigger] a[k]).len() as int) }
proof fn lemma_next_layer(p: Seq<usize>, t: Seq<usize>, a: Seq<Seq<Seq<usize>>>, l: int)
    requires 0 <= l < a.len(), adjs_ok(a), layered_to(p, a, l), block(t, p.len() as int, a[l].len() as int), a[l].len() <= usize::MAX
    ensures layered_to(p + t, a, l + 1)
{
    if l > 0 { assert(a[l - 1].len() <= a[l].len()); }
    let b = p.len() as int; let e = a[l].len() as int;
    lemma_block(t, b, e);
    let r = p + t;
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] < r.len() by { if i < b { assert(r[i] == p[i]); } else { assert(r[i] == t[i - b]); } }
    assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && #[trigger] r[i] == #[trigger] r[j] implies i == j by {
        if i < b && j < b { assert(p[i] == p[j]); } else if i >= b && j >= b { assert(t[i - b] == t[j - b]); } else if i < b { assert(p[i] < b && t[j - b] >= b); } else { assert(p[j] < b && t[i - b] >= b); }
    }
    assert forall|k: int| 0 <= k < l + 1 implies keeps(r, (#[trigger] a[k]).len() as int) by {
        assert(a[k].len() <= a[l].len());
        if k < l { assert(keeps(p, a[k].len() as int)); assert forall|i: int| 0 <= i < a[k].len() implies #[trigger] r[i] < a[k].len() by { assert(r[i] == p[i]); } }
    }
}
/// every element of the first n is the image of one of them
proof fn lemma_hit(p: Seq<usize>, n: int, x: int) -> (y: int)
    requires is_perm(p), 0 <= n, keeps(p, n), 0 <= x < n <= usize::MAX
    ensures 0 <= y < n, p[y] == x
{
    let s = p.subrange(0, n);
    assert(s.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { assert(s[i] == p[i] && s[j] == p[j]); } }
    s.unique_seq_to_set();
    let w = s.to_set();
    assert forall|i: usize| #[trigger] w.contains(i) implies i < n by { let j = choose|j: int| 0 <= j < s.len() && s[j] == i; assert(p[j] < n); }
    if !w.contains(x as usize) {
        let w1 = w.insert(x as usize);
        assert forall|i: usize| #[trigger] w1.contains(i) implies i < n as nat by { if i != x { assert(w.contains(i)); } }
        lemma_bounded(w1, n as nat);
        assert(false);
    }
    let y = choose|y: int| 0 <= y < s.len() && s[y] == x as usize;
    assert(p[y] == x);
    y
}
proof fn lemma_back(p: Seq<usize>, q: Seq<usize>, n: int, x: int)
    requires inverse(p, q), 0 <= n, keeps(p, n), 0 <= x < n <= usize::MAX
    ensures q[x] < n, p[q[x] as int] == x
{ let y = lemma_hit(p, n, x); assert(q[p[y] as int] == y); }
/// the neighbors stay inside the layer, and the new lists name the same neighbors
proof fn lemma_iso(a: Seq<Seq<usize>>, b: Seq<Seq<usize>>, p: Seq<usize>, q: Seq<usize>)
    requires isomorphic(a, b, p, q), inverse(p, q), keeps(p, a.len() as int), adj_ok(a), a.len() <= usize::MAX
    ensures adj_ok(b), b.len() == a.len(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] b[i]).map_values(|x: usize| p[x as int]).to_multiset() == a[p[i] as int].to_multiset()
{
    let n = a.len() as int;
    assert forall|i: int, k: int| 0 <= i < b.len() && 0 <= k < b[i].len() implies #[trigger] b[i][k] < b.len() by {
        let s = b[i]; let old = a[p[i] as int]; let t = translated(old, q);
        assert(s.to_multiset() == t.to_multiset());
        s.to_multiset_ensures(); t.to_multiset_ensures();
        assert(s.contains(s[k])); assert(s.to_multiset().count(s[k]) > 0); assert(t.contains(s[k]));
        let j = choose|j: int| 0 <= j < t.len() && t[j] == s[k];
        assert(p[i] < n); assert(old[j] < n);
        lemma_back(p, q, n, old[j] as int);
    }
    assert forall|i: int| 0 <= i < a.len() implies (#[trigger] b[i]).map_values(|x: usize| p[x as int]).to_multiset() == a[p[i] as int].to_multiset() by {
        let s = b[i]; let old = a[p[i] as int]; let t = translated(old, q);
        assert(s.to_multiset() == t.to_multiset());
        lemma_map_ms(s, t, |x: usize| p[x as int]);
        assert(t.map_values(|x: usize| p[x as int]) =~= old) by { assert forall|j: int| 0 <= j < old.len() implies p[q[old[j] as int] as int] == #[trigger] old[j] by { assert(p[i] < n); lemma_back(p, q, n, old[j] as int); } }
    }
}
/// C13
spec fn reordered<'a, 'b, E: ElementContainer>(g: Granne<'a, E>, h: Granne<'b, E>, p: Seq<usize>) -> bool {
    layered(p, g.adj()) && h.adj().len() == g.adj().len()
    && (forall|k: int| 0 <= k < g.adj().len() ==> same_graph(g.adj()[k], #[trigger] h.adj()[k], p))
    && h.elements.n() == g.elements.n() && p.len() == g.elements.n() && (forall|i: int| 0 <= i < g.elements.n() ==> #[trigger] h.elements.el(i) == g.elements.el(p[i] as int))
}
/// node i of b has the neighbors of node p[i] of a, in the new numbering
spec fn same_graph(a: Seq<Seq<usize>>, b: Seq<Seq<usize>>, p: Seq<usize>) -> bool {
    b.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> p[i] < a.len() && (#[trigger] b[i]).map_values(|x: usize| p[x as int]).to_multiset() == a[p[i] as int].to_multiset()
}
proof fn lemma_reordered<'a, 'b, E: ElementContainer>(g: Granne<'a, E>, h: Granne<'b, E>, p: Seq<usize>)
    requires g.wf(), shorts(g.adj()), layered(p, g.adj()), p.len() == g.elements.n(), h.layers.inv(), exists|q: Seq<usize>| #[trigger] all_isomorphic(g.adj(), h.adj(), p, q),
        h.elements.inv(), h.elements.n() == g.elements.n(), forall|i: int| 0 <= i < g.elements.n() ==> #[trigger] h.elements.el(i) == g.elements.el(p[i] as int)
    ensures reordered(g, h, p), h.wf()
{
    let q = choose|q: Seq<usize>| #[trigger] all_isomorphic(g.adj(), h.adj(), p, q);
    let (a, b) = (g.adj(), h.adj());
    assert forall|k: int| 0 <= k < a.len() implies same_graph(a[k], #[trigger] b[k], p) && adj_ok(b[k]) && b[k].len() == a[k].len() by {
        assert(keeps(p, a[k].len() as int)); assert(short(a[k])); assert(isomorphic(a[k], b[k], p, q));
        lemma_iso(a[k], b[k], p, q);
        assert forall|i: int| 0 <= i < a[k].len() implies p[i] < a[k].len() && (#[trigger] b[k][i]).map_values(|x: usize| p[x as int]).to_multiset() == a[k][p[i] as int].to_multiset() by { }
    }
    assert(adjs_ok(b)) by { assert forall|k: int, j: int| 0 <= k <= j < b.len() implies (#[trigger] b[k]).len() <= (#[trigger] b[j]).len() by { assert(a[k].len() <= a[j].len()); } }
}
/// what layer k adds starts here
spec fn start(a: Seq<Seq<Seq<usize>>>, k: int) -> int { if k <= 0 { 0 } else { a[k - 1].len() as int } }
/// the keys of what each of the first l layers adds are in order
spec fn ordered_blocks<K: Ord>(p: Seq<usize>, keys: Seq<K>, a: Seq<Seq<Seq<usize>>>, l: int) -> bool { forall|k: int| 0 <= k < l ==> #[trigger] block_ordered(p, keys, start(a, k), a[k].len() as int) }
spec fn block_ordered<K: Ord>(p: Seq<usize>, keys: Seq<K>, b: int, e: int) -> bool { forall|i: int, j: int| b <= i <= j < e ==> !(OrdSpec::cmp_spec(&keys[(#[trigger] p[i]) as int], &keys[(#[trigger] p[j]) as int]) is Greater) }
proof fn lemma_block_ordered<K: Ord>(p: Seq<usize>, e1: Seq<(&K, usize)>, e0: Seq<(&K, usize)>, keys: Seq<K>, a: Seq<Seq<Seq<usize>>>, l: int)
    requires K::obeys_cmp_spec(), ordered_blocks(p, keys, a, l), adjs_ok(a), 0 <= l < a.len(), p.len() == start(a, l), e1.len() == a[l].len() - start(a, l), e1.to_multiset() == e0.to_multiset(), sorted_by(e1),
        forall|i: int| 0 <= i < e0.len() ==> (#[trigger] e0[i]).1 < keys.len() && *e0[i].0 == keys[e0[i].1 as int]
    ensures ordered_blocks(p + e1.map_values(|x: (&K, usize)| x.1), keys, a, l + 1)
{
    let t = e1.map_values(|x: (&K, usize)| x.1); let r = p + t; let s = start(a, l);
    e1.to_multiset_ensures(); e0.to_multiset_ensures();
    assert forall|i: int| 0 <= i < e1.len() implies *(#[trigger] e1[i]).0 == keys[e1[i].1 as int] by { assert(e1.contains(e1[i])); assert(e1.to_multiset().count(e1[i]) > 0); assert(e0.contains(e1[i])); let j = choose|j: int| 0 <= j < e0.len() && e0[j] == e1[i]; assert(e0[j] == e1[i]); }
    assert forall|k: int| 0 <= k < l + 1 implies #[trigger] block_ordered(r, keys, start(a, k), a[k].len() as int) by {
        if k < l {
            assert(block_ordered(p, keys, start(a, k), a[k].len() as int)); assert(a[k].len() <= a[l - 1].len());
            assert forall|i: int, j: int| start(a, k) <= i <= j < a[k].len() implies !(OrdSpec::cmp_spec(&keys[(#[trigger] r[i]) as int], &keys[(#[trigger] r[j]) as int]) is Greater) by { assert(r[i] == p[i] && r[j] == p[j]); }
        } else {
            assert forall|i: int, j: int| s <= i <= j < a[l].len() implies !(OrdSpec::cmp_spec(&keys[(#[trigger] r[i]) as int], &keys[(#[trigger] r[j]) as int]) is Greater) by {
                assert(r[i] == t[i - s] && r[j] == t[j - s]);
                assert(!(OrdSpec::cmp_spec(&e1[i - s], &e1[j - s]) is Greater));
                assert(*e1[i - s].0 == keys[r[i] as int] && *e1[j - s].0 == keys[r[j] as int]);
            }
        }
    }
}
impl<'a, Elements: ElementContainer + Permutable> Granne<'a, Elements> {
    /// the index covers all its elements and its lists can be encoded
    spec fn reorderable(&self) -> bool { self.wf() && shorts(self.adj()) && self.elements.n() == (if self.adj().len() == 0 { 0 } else { self.adj().last().len() }) }
/*@ src/index/reorder.rs :: impl Granne :: fn compute_order
#sig fn compute_order(self: &Self, show_progress: bool) -> (r: Vec<usize>)
#subst `pbr :: ProgressBar :: new` => `ProgressBar :: new`
#subst `parking_lot :: Mutex :: new` => `Mutex :: new`
#subst `time :: Instant` => `Instant`
#subst `eps . into_par_iter ( )` => `eps . into_it ( )`
#subst `let mut eps : Vec < _ >` => `let mut eps : Vec < ( [ NeighborId ; NUM_LAYERS ] , usize ) >`
#subst `progress_bar . as_ref ( ) . map ( | pb | pb . lock ( ) . add ( step_size as u64 ) ) ;` => ``
#subst `progress_bar . map ( | pb | pb . lock ( ) . set ( self . len ( ) as u64 ) ) ;` => ``
#subst `eps . iter_mut ( ) . for_each (` => `vx_iter_mut ( & mut eps ) . for_each (`
#spec
    requires self.wf()
    ensures layered(r@, self.adj())
#begin
    let ghost a = self.adj();
#closure 0 (b: ([NeighborId; NUM_LAYERS], usize)) types: usize
    requires self.wf(), vx_p0 < self.adj().last().len(), step_size > 0, self.adj().len() > 0, 1 <= layer < self.adj().len(), order_inv@.len() >= self.adj()[layer - 1].len()
    ensures b.1 == vx_p0
#closure 1 () types: &mut NeighborId
    requires *vx_p0 < order_inv@.len()
#closure 2 (b: usize) types: ([NeighborId; NUM_LAYERS], usize)
    ensures b == vx_p0.1
#loop 0 before
    proof { assert(order@ =~= Seq::new(a[0].len(), |i: int| (0 + i) as usize)); assert(block(order@, 0, a[0].len() as int)); assert(order@ =~= Seq::<usize>::empty() + order@); lemma_next_layer(Seq::empty(), order@, a, 0); }
#loop 0 inv
    invariant self.wf(), a == self.adj(), a.len() > 0, step_size > 0, vx_e0 == a.len(), 1 <= vx_i0 <= vx_e0, layered_to(order@, a, vx_i0 as int), order_inv@.len() == a[if a.len() >= 2 { a.len() - 2 } else { 0 }].len()
    decreases vx_e0 - vx_i0
#loop 0 begin
    let ghost p0 = order@; let ghost (lo, hi) = (a[layer - 1].len() as int, a[layer as int].len() as int);
    proof { assert(a[layer - 1].len() <= a[a.len() - 2].len()); assert(a[layer as int].len() <= a[a.len() - 1].len()); assert(lo <= hi); }
#at before `eps . par_sort_unstable`
    let ghost e0 = eps@;
#at before `order . par_extend`
    let ghost e1 = eps@;
#at after `order . par_extend`
    proof {
        let t = e1.map_values(|x: ([NeighborId; NUM_LAYERS], usize)| x.1);
        assert(order@ =~= p0 + t);
        lemma_seconds(e1, e0, lo, hi);
        lemma_next_layer(p0, t, a, layer as int);
    }
#loop 1 inv
    invariant self.wf(), a == self.adj(), a.len() > 0, layer + 1 < a.len(), layered_to(order@, a, layer + 1), order_inv@.len() == a[a.len() - 2].len(), vx_e1 == a[layer as int].len(), vx_i1 <= vx_e1
    decreases vx_e1 - vx_i1
@*/
/*@ src/index/reorder.rs :: impl Granne :: fn reorder
#sig fn reorder(self: &mut Self, show_progress: bool) -> (r: Vec<usize>)
#subst `time :: Instant` => `Instant`
#spec
    requires old(self).reorderable()
    ensures final(self).wf(), reordered(*old(self), *final(self), r@)
#at before `let order`
    let ghost g0 = *self;
#at after `self . layers =`
    let ghost q0 = choose|q: Seq<usize>| #[trigger] all_isomorphic(g0.adj(), self.layers.adj(), order@, q);
    proof { assert(self.layers is Memory); assert(all_isomorphic(g0.adj(), self.layers->Memory_0.adj(), order@, q0)); assert(all_isomorphic(g0.adj(), self.adj(), order@, q0)); }
#tail r
    proof { assert(all_isomorphic(g0.adj(), self.adj(), r@, q0)); lemma_reordered(g0, *self, r@); }
@*/
/*@ src/index/reorder.rs :: impl Granne :: fn reorder_by_keys
#sig fn reorder_by_keys<K: Ord>(self: &mut Self, keys: &[K], show_progress: bool) -> (r: Vec<usize>)
#subst `time :: Instant` => `Instant`
#subst `layer_order . into_par_iter ( )` => `layer_order . into_it ( )`
#subst `let mut layer_order : Vec < _ >` => `let mut layer_order : Vec < ( & K , usize ) >`
#subst `let mut order = Vec :: new ( )` => `let mut order : Vec < usize > = Vec :: new ( )`
#spec
    requires old(self).reorderable()
    ensures keys@.len() == old(self).elements.n(), final(self).wf(), reordered(*old(self), *final(self), r@), K::obeys_cmp_spec() ==> ordered_blocks(r@, keys@, old(self).adj(), old(self).adj().len() as int)
#closure 0 (b: usize) types: usize
    requires self.layers.inv(), vx_p0 < self.adj().len() ensures b == self.adj()[vx_p0 as int].len()
#closure 1 (b: (&K, usize)) types: usize
    requires vx_p0 < keys@.len() ensures b.1 == vx_p0, *b.0 == keys@[vx_p0 as int]
#closure 2 (b: usize) types: (&K, usize)
    ensures b == vx_p0.1
#begin
    let ghost g0 = *self; let ghost a = g0.adj();
#loop 0 inv
    invariant g0.reorderable(), *self == g0, a == g0.adj(), keys@.len() == g0.elements.n(), vx_e0 == a.len(), 0 <= vx_i0 <= vx_e0, layer_lens@.len() == a.len(), forall|k: int| 0 <= k < a.len() ==> #[trigger] layer_lens@[k] == a[k].len(),
        layered_to(order@, a, vx_i0 as int), K::obeys_cmp_spec() ==> ordered_blocks(order@, keys@, a, vx_i0 as int)
    decreases vx_e0 - vx_i0
#loop 0 begin
    let ghost p0 = order@;
    proof { assert(a[layer as int].len() <= a[a.len() - 1].len()); if layer > 0 { assert(a[layer - 1].len() <= a[layer as int].len()); assert(layer_lens@[layer - 1] == a[layer - 1].len()); } }
#at before `layer_order . par_sort_unstable`
    let ghost e0 = layer_order@;
#at before `order . par_extend`
    let ghost e1 = layer_order@;
#loop 0 end
    proof {
        let t = e1.map_values(|x: (&K, usize)| x.1);
        assert(order@ =~= p0 + t);
        lemma_seconds(e1, e0, begin as int, end as int);
        lemma_next_layer(p0, t, a, layer as int);
        if K::obeys_cmp_spec() { lemma_block_ordered(p0, e1, e0, keys@, a, layer as int); }
    }
#at after `self . layers =`
    let ghost q0 = choose|q: Seq<usize>| #[trigger] all_isomorphic(g0.adj(), self.layers.adj(), order@, q);
    proof { assert(self.layers is Memory); assert(all_isomorphic(g0.adj(), self.layers->Memory_0.adj(), order@, q0)); assert(all_isomorphic(g0.adj(), self.adj(), order@, q0)); }
#tail r
    proof { assert(all_isomorphic(g0.adj(), self.adj(), r@, q0)); lemma_reordered(g0, *self, r@); }
@*/
}
