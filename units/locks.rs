// parking_lot::RwLock around a node; trusted: mutual exclusion, so a node has, whenever it is read, contents
// that were there when the lock was made or were left by a critical section; `good` is the invariant every
// critical section keeps (which is proved of each of them below)
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RwLock<T> { v: std::marker::PhantomData<T> }
impl<T> RwLock<T> { pub uninterp spec fn good(&self) -> spec_fn(Seq<u32>) -> bool; }
/// the sections in which a call writes a node: contents before and after
pub type NodeLog = Seq<(Seq<u32>, Seq<u32>)>;
impl<'a> RwLock<&'a mut [u32]> {
    #[verifier::external_body]
    pub fn read(&self) -> (r: &[u32]) ensures (self.good())(r@) { unimplemented!() }
    /// what the node holds at the beginning and at the end of the section goes to the log
    #[verifier::external_body]
    pub fn write(&self, log: &mut Ghost<NodeLog>) -> (r: &mut [u32]) ensures (self.good())(r@), final(log)@ == old(log)@.push((r@, final(r)@)) { unimplemented!() }
}
impl<'a> Graph for [RwLock<&'a mut [NeighborId]>] {
    closed spec fn n(&self) -> nat { self@.len() }
    closed spec fn rel(&self, i: int, s: Seq<usize>) -> bool { exists|q: Seq<u32>| #[trigger] (self@[i].good())(q) && s == ids(q) }
    closed spec fn inv(&self) -> bool { true }
    closed spec fn adj(&self) -> Seq<Seq<usize>> { Seq::empty() }
/*@ src/index/mod.rs :: impl Graph for [RwLock] :: fn get_neighbors
#ret r
#closure 0 (b: bool) types: &&u32
    ensures b == (**vx_p0 != UNUSED)
#closure 1 (b: usize) types: &u32
    ensures b == *vx_p0
#tail r
    proof { let g = self@[idx as int].good(); assert forall|q: Seq<u32>| #[trigger] g(q) && r@.len() <= q.len() && (forall|k: int| 0 <= k < r@.len() ==> #[trigger] q[k] != u32::MAX && r@[k] == q[k]) && (r@.len() < q.len() ==> q[r@.len() as int] == u32::MAX) implies r@ == ids(q) by { lemma_live_is(q, r@.len() as int); assert(r@ =~= ids(q)); } }
@*/
/*@ src/index/mod.rs :: impl Graph for [RwLock] :: fn len
#subst `self . len ( )` => `slice_len(self)`
@*/
}
fn slice_len<T>(s: &[T]) -> (r: usize) ensures r == s@.len() { s.len() }
