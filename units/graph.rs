// src/index/mod.rs: Graph of the layers
/*@ src/index/mod.rs :: type NeighborId
@*/
/*@ src/index/mod.rs :: const UNUSED
#subst `NeighborId :: max_value ( )` => `NeighborId::MAX`
@*/
pub open spec fn as_lists(d: Seq<Seq<u32>>) -> Seq<Seq<usize>> { d.map_values(|q: Seq<u32>| as_usize(q)) }
pub open spec fn as_ids(d: Seq<Seq<u32>>) -> Seq<Seq<usize>> { d.map_values(|q: Seq<u32>| ids(q)) }
axiom fn axiom_u32_layout() ensures vstd::layout::size_of::<u32>() == 4, vstd::layout::align_of::<u32>() == 4;
/// the number of ids in front of the first unused slot
pub open spec fn live(q: Seq<u32>) -> int decreases q.len() { if q.len() == 0 || q[0] == u32::MAX { 0 } else { 1 + live(q.skip(1)) } }
pub open spec fn as_usize(q: Seq<u32>) -> Seq<usize> { q.map_values(|x: u32| x as usize) }
/// the ids stored in a node
pub open spec fn ids(q: Seq<u32>) -> Seq<usize> { as_usize(q.subrange(0, live(q))) }
proof fn lemma_live(q: Seq<u32>) ensures 0 <= live(q) <= q.len(), forall|k: int| 0 <= k < live(q) ==> #[trigger] q[k] != u32::MAX, live(q) < q.len() ==> q[live(q)] == u32::MAX decreases q.len()
{ if !(q.len() == 0 || q[0] == u32::MAX) { lemma_live(q.skip(1)); assert forall|k: int| 0 <= k < live(q) implies #[trigger] q[k] != u32::MAX by { if k > 0 { assert(q.skip(1)[k - 1] == q[k]); } } if live(q) < q.len() { assert(q.skip(1)[live(q) - 1] == q[live(q)]); } } }
proof fn lemma_live_is(q: Seq<u32>, n: int) requires 0 <= n <= q.len(), forall|k: int| 0 <= k < n ==> #[trigger] q[k] != u32::MAX, n < q.len() ==> q[n] == u32::MAX ensures live(q) == n
{ lemma_live(q); if live(q) < n { assert(q[live(q)] != u32::MAX); } if n < live(q) { assert(q[n] == u32::MAX); } }
impl<'a> Graph for FixedWidthSliceVector<'a, NeighborId> {
    closed spec fn n(&self) -> nat { self@.len() }
    closed spec fn rel(&self, i: int, s: Seq<usize>) -> bool { s == ids(self@[i]) }
    closed spec fn inv(&self) -> bool { self.wf() }
    closed spec fn adj(&self) -> Seq<Seq<usize>> { as_ids(self@) }
/*@ src/index/mod.rs :: impl Graph for FixedWidthSliceVector :: fn get_neighbors
#ret r
#closure 0 (b: bool) types: &&u32
    ensures b == (**vx_p0 != UNUSED)
#closure 1 (b: usize) types: &u32
    ensures b == *vx_p0
#begin
    proof { axiom_u32_layout(); }
#tail r
    proof { let q = self@[idx as int]; lemma_live_is(q, r@.len() as int); assert(r@ =~= ids(q)); }
@*/
/*@ src/index/mod.rs :: impl Graph for FixedWidthSliceVector :: fn len
#begin
    proof { axiom_u32_layout(); }
@*/
}
impl<'a> Graph for MultiSetVector<'a> {
    closed spec fn n(&self) -> nat { self.sets().len() }
    closed spec fn rel(&self, i: int, s: Seq<usize>) -> bool { s == as_usize(self.sets()[i]) }
    closed spec fn inv(&self) -> bool { self.holds(self.sets()) }
    closed spec fn adj(&self) -> Seq<Seq<usize>> { as_lists(self.sets()) }
/*@ src/index/mod.rs :: impl Graph for MultiSetVector :: fn get_neighbors
#ret r
#subst `self . get ( idx )` => `self . get ( idx , Ghost ( self.sets() ) )`
#closure 0 (b: usize) types: &u32
    ensures b == *vx_p0
#tail r
    proof { assert(r@ =~= as_usize(self.sets()[idx as int])); }
@*/
/*@ src/index/mod.rs :: impl Graph for MultiSetVector :: fn len
#subst `self . len ( )` => `MultiSetVector::len(self, Ghost(self.sets()))`
@*/
}
