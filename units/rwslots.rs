// src/index/rw/rw_lock_slice_vector.rs: the layer that is being filled, one lock per node
impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
/*@ src/slice_vector/mod.rs :: impl Into for FixedWidthSliceVector :: fn into
#name into_data
#ret r
#rtindex
#spec
    requires small_align::<T>()
    ensures r@ == self.data()
@*/
}
/// which accesses a thread has announced: none, updates of nodes, or that there are none
pub struct Pass { k: Ghost<int> }
impl Pass {
    pub closed spec fn writes(&self) -> bool { self.k@ == 1 }
    pub closed spec fn alone(&self) -> bool { self.k@ == 2 }
    pub closed spec fn no_pass() -> Self { Pass { k: Ghost(0) } }
    #[verifier::when_used_as_spec(no_pass)]
    pub fn none() -> (r: Self) ensures r == Pass::no_pass(), !r.writes(), !r.alone() { Pass { k: Ghost(0) } }
}
/// owning_ref::OwningHandle of the data and the locks of its rows; `own` is the data when no thread updates nodes.
/// Trusted: a row that satisfies a predicate which every critical section on it keeps satisfies it whenever its lock is acquired
#[verifier::external_body]
struct OwningHandle { _p: u8 }
impl OwningHandle {
    uninterp spec fn own(&self) -> Seq<u32>;
    uninterp spec fn width(&self) -> int;
    uninterp spec fn cells(&self) -> &[RwLock<&'static mut [u32]>];
    /// new_with_fn(data, |d| one lock for every chunk of d)
    #[verifier::external_body]
    fn chunked(data: Vec<u32>, width: usize) -> (r: Self) requires width > 0, shaped(data@, width as int) ensures r.own() == data@, r.width() == width { unimplemented!() }
    #[verifier::external_body]
    fn slots<E: ElementContainer>(&self, Ghost(c): Ghost<&E>) -> (r: &[RwLock<&'static mut [u32]>])
        requires rows_good(c, rows(self.own(), self.width()))
        ensures r == self.cells(), r@.len() == rows(self.own(), self.width()).len(), locks_ok(c, r@) { unimplemented!() }
    #[verifier::external_body]
    fn count(&self) -> (r: usize) ensures r == rows(self.own(), self.width()).len() { unimplemented!() }
    /// needs that no thread updates nodes
    #[verifier::external_body]
    fn as_owner(&self, pass: &Pass) -> (r: &[u32]) requires pass.alone() ensures r@ == self.own() { unimplemented!() }
    #[verifier::external_body]
    fn into_owner(self) -> (r: Vec<u32>) ensures r@ == self.own() { unimplemented!() }
}
/// every row may be what it is, for container c
spec fn rows_good<E: ElementContainer>(c: &E, d: Seq<Seq<u32>>) -> bool { forall|i: int| 0 <= i < d.len() ==> (good_lock(c, if d.len() <= c.n() { d.len() as int } else { c.n() as int }, i))(#[trigger] d[i]) }
/*@ src/index/rw/rw_lock_slice_vector.rs :: struct RwLockSliceVector
#subst `owning_ref :: OwningHandle < Vec < NeighborId > , Vec < RwLock < & 'static mut [ NeighborId ] > > >` => `OwningHandle`
@*/
impl View for RwLockSliceVector { type V = Seq<Seq<u32>>; closed spec fn view(&self) -> Seq<Seq<u32>> { rows(self.data.own(), self.w()) } }
impl RwLockSliceVector {
    closed spec fn w(&self) -> int { self.width as int }
    closed spec fn cells(&self) -> &[RwLock<&'static mut [u32]>] { self.data.cells() }
    closed spec fn wf(&self) -> bool { self.width > 0 && shaped(self.data.own(), self.width as int) && self.data.own().len() <= usize::MAX && self.data.width() == self.width }
/*@ src/index/rw/rw_lock_slice_vector.rs :: impl RwLockSliceVector :: fn new
#ret r
#subst `owning_ref :: OwningHandle :: new_with_fn ( data , | d | unsafe { ( * ( d as * mut [ NeighborId ] ) ) . chunks_mut ( width ) . map ( RwLock :: new ) . collect ( ) } )` => `OwningHandle::chunked(data, width)`
#spec
    requires width > 0, shaped(data@, width as int)
    ensures r.wf(), r.w() == width, r@ == rows(data@, width as int)
#begin
    let ghost n = data.len();
@*/
/*@ src/index/rw/rw_lock_slice_vector.rs :: impl RwLockSliceVector :: fn as_slice
#sig fn as_slice<E: ElementContainer>(&self, Ghost(c): Ghost<&E>) -> (r: &[RwLock<&'static mut [NeighborId]>])
#subst `& * self . data` => `self.data.slots::<E>(Ghost(c))`
#spec
    requires self.wf(), rows_good(c, self@)
    ensures r == self.cells(), r@.len() == self@.len(), locks_ok(c, r@), in_both(r, c)
#tail r
    proof { lemma_locks_in_layer(r, c); }
@*/
    /// to update nodes: needs that this was announced
    fn as_slice_for_updates<E: ElementContainer>(&self, pass: &Pass, Ghost(c): Ghost<&E>) -> (r: &[RwLock<&'static mut [NeighborId]>])
        requires self.wf(), rows_good(c, self@), pass.writes()
        ensures r@.len() == self@.len(), locks_ok(c, r@), in_both(r, c) { self.as_slice::<E>(Ghost(c)) }
/*@ src/index/rw/rw_lock_slice_vector.rs :: impl RwLockSliceVector :: fn len
#ret r
#subst `( * self . data ) . len ( )` => `self.data.count()`
#spec
    requires self.wf()
    ensures r == self@.len()
@*/
/*@ src/index/rw/rw_lock_slice_vector.rs :: impl RwLockSliceVector :: fn as_owner
#sig fn as_owner(&self, pass: &Pass) -> (r: &[NeighborId])
#subst `self . data . as_owner ( )` => `self.data.as_owner(pass)`
#spec
    requires self.wf(), pass.alone()
    ensures self.w() > 0, shaped(r@, self.w()), r@.len() <= usize::MAX, rows(r@, self.w()) == self@
@*/
/*@ src/index/rw/rw_lock_slice_vector.rs :: impl RwLockSliceVector :: fn into_owner
#ret r
#spec
    requires self.wf()
    ensures self.w() > 0, shaped(r@, self.w()), rows(r@, self.w()) == self@
@*/
/*@ src/index/rw/rw_lock_slice_vector.rs :: impl Into for RwLockSliceVector :: fn into
#sig fn into(self) -> (r: FixedWidthSliceVector<'static, NeighborId>)
#spec
    requires self.wf()
    ensures r.wf(), r.w() == self.w(), r@ == self@
@*/
/*@ src/index/rw/rw_lock_slice_vector.rs :: impl From for RwLockSliceVector :: fn from
#sig fn from(fw_vec: FixedWidthSliceVector<'static, NeighborId>) -> (r: Self)
#subst `fw_vec . into ( )` => `fw_vec.into_data()`
#spec
    requires fw_vec.wf()
    ensures r.wf(), r.w() == fw_vec.w(), r@ == fw_vec@
#begin
    proof { axiom_u32_layout(); }
@*/
}
