// RwGranneBuilder of src/index/rw/mod.rs
type Ls = (RwLockSliceVector, Vec<Rows>);
/// rayon::ThreadPool: runs a task
#[verifier::external_body] struct ThreadPool { _p: u8 }
impl ThreadPool {
    #[verifier::external_body] fn make(n: usize) -> Self { unimplemented!() }
    #[verifier::external_body] fn current_num_threads(&self) -> usize { unimplemented!() }
    #[verifier::external_body] fn install<F: FnOnce()>(&self, f: F) requires f.requires(()) { unimplemented!() }
}
/// the lock around the elements; trusted: mutual exclusion. hist(k) is what it holds before the k-th section that may write,
/// and hist(k + 1) what it holds after it; kind is a property of the container all users agree on
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct RwLock<T> { v: std::marker::PhantomData<T> }
/// the sections of the elements' lock that a thread has entered, and whether it had the layers' lock as well
type Log = Seq<(nat, bool)>;
impl<T: ElementContainer> RwLock<T> {
    uninterp spec fn hist(&self, k: nat) -> T;
    uninterp spec fn kind(&self) -> spec_fn(T) -> bool;
    spec fn keeps(&self, e: T) -> bool { e.inv() && e.n() <= u32::MAX && (self.kind())(e) }
    spec fn had(&self, e: T) -> bool { exists|k: nat| e == #[trigger] self.hist(k) }
    #[verifier::external_body]
    fn new(v: T, Ghost(kind): Ghost<spec_fn(T) -> bool>) -> (r: Self) requires v.inv(), v.n() <= u32::MAX, kind(v) ensures r.kind() == kind, r.hist(0) == v { unimplemented!() }
    #[verifier::external_body]
    fn read(&self) -> (r: &T) ensures self.had(*r), self.keeps(*r) { unimplemented!() }
    #[verifier::external_body]
    fn write(&self, log: &mut Ghost<Log>) -> (r: &mut T) ensures final(log)@.len() == old(log)@.len() + 1, final(log)@.drop_last() == old(log)@, !final(log)@.last().1, *r == self.hist(final(log)@.last().0), self.keeps(*r), *final(r) == self.hist(final(log)@.last().0 + 1) { unimplemented!() }
}
/// (a..).take(n)
struct CountFrom { a: usize }
fn count_from(a: usize) -> (r: CountFrom) ensures r.a == a { CountFrom { a } }
impl CountFrom { #[verifier::external_body] fn take(self, n: usize) -> (r: It<usize>) requires self.a + n <= usize::MAX ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == self.a + i { unimplemented!() } }
/// RwLockWriteGuard::downgrade: the value is not written any more
fn downgrade<T>(g: &mut T) -> (r: &T) ensures *r == *old(g), *final(g) == *old(g) { g }
/// the lock around the layers, taken only while the elements are locked; trusted: mutual exclusion, and that updates of nodes keep what the nodes' locks keep.
/// before(k) and after(k) are what it holds at the beginning of the k-th section above and at the end of the part of it that has this lock
#[verifier::external_body] struct LayersLock { _p: u8 }
impl LayersLock {
    uninterp spec fn before(&self, k: nat) -> Ls;
    uninterp spec fn after(&self, k: nat) -> Ls;
    uninterp spec fn rule<E>(&self) -> spec_fn(E, Ls) -> bool;
    #[verifier::external_body]
    fn new<E: ElementContainer>(v: Ls, Ghost(c): Ghost<E>, Ghost(rule): Ghost<spec_fn(E, Ls) -> bool>) -> (r: Self) requires rule(c, v) ensures r.rule::<E>() == rule { unimplemented!() }
    /// the most layers there ever are
    uninterp spec fn most(&self) -> nat;
    #[verifier::external_body]
    fn read<E: ElementContainer>(&self, Ghost(c): Ghost<E>, elements: &RwLock<E>) -> (r: &Ls) requires elements.had(c) ensures r.1@.len() < self.most(), (self.rule::<E>())(c, *r) { unimplemented!() }
    #[verifier::external_body]
    fn write<E: ElementContainer>(&self, Ghost(c): Ghost<E>, elements: &RwLock<E>, log: &mut Ghost<Log>) -> (r: &mut Ls)
        requires old(log)@.len() > 0, c == elements.hist(old(log)@.last().0)
        ensures final(log)@ == old(log)@.drop_last().push((old(log)@.last().0, true)), (self.rule::<E>())(c, *r), *r == self.before(old(log)@.last().0), *final(r) == self.after(old(log)@.last().0) { unimplemented!() }
}
/// write_lock: held shared while nodes are updated, alone while they are read without locking them
#[verifier::external_body] struct WriteLock { _p: u8 }
impl WriteLock {
    #[verifier::external_body] fn new(v: ()) -> Self { unimplemented!() }
    #[verifier::external_body] fn read(&self) -> (r: Pass) ensures r.writes() { unimplemented!() }
    #[verifier::external_body] fn write(&self) -> (r: Pass) ensures r.alone() { unimplemented!() }
}
pub trait Writeable {
    spec fn repr(&self) -> Seq<u8>;
    fn write<B: Write>(&self, buffer: &mut B) -> (r: Result<usize>) ensures r is Ok ==> wrote(*old(buffer), *final(buffer), self.repr());
}
/// an element that has to exist
trait VxGet: ElementContainer { fn vx_get(&self, i: usize) -> (r: Self::Element) requires self.inv() ensures i < self.n(), Self::val(r) == self.el(i as int); }
impl<E: ElementContainer> VxGet for E { fn vx_get(&self, i: usize) -> (r: Self::Element) { rt_assert(i < self.len()); self.get(i) } }
trait IsEmpty: ElementContainer { fn is_empty(&self) -> (r: bool) requires self.inv() ensures r == (self.n() == 0); }
impl<E: ElementContainer> IsEmpty for E {
/*@ src/elements/mod.rs :: trait ElementContainer :: fn is_empty
@*/
}
/// what the layers are for these elements
spec fn joint<E: ElementContainer>(c: &E, l: Ls, w: usize, max: usize) -> bool {
    layers_ok(c, l.1@) && widths(l.1@, w as int) && l.0.wf() && l.0.w() == w && rows_good(c, l.0@) && c.n() <= l.0@.len() <= u32::MAX && (max > 0 ==> l.0@.len() >= 1) && (l.0@.len() <= max || l.0@.len() == c.n()) && (l.1@.len() > 0 ==> l.1@.last()@.len() <= l.0@.len())
}
/// std::fs::File of a path, just created
#[verifier::external_body] pub struct DiskFile { _p: u8 }
impl Sink for DiskFile { type Dest = (); #[verifier::prophetic] open spec fn dest(&self) -> () { () } uninterp spec fn out(&self) -> Seq<u8>; uninterp spec fn pos(&self) -> int; uninterp spec fn failed(&self) -> bool; }
impl DiskFile { pub uninterp spec fn path(&self) -> Seq<char>; }
impl Write for DiskFile {
    #[verifier::external_body] fn write(&mut self, b: &[u8]) -> (r: Result<usize>) { unimplemented!() }
    #[verifier::external_body] fn write_all(&mut self, b: &[u8]) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body] fn flush(&mut self) -> (r: Result<()>) { unimplemented!() }
}
impl Seek for DiskFile { #[verifier::external_body] fn seek(&mut self, to: SeekFrom) -> (r: Result<u64>) { unimplemented!() } }
spec fn on_disk(f: DiskFile, p: Seq<char>) -> bool { f.path() == p && f.out() == Seq::<u8>::empty() && f.pos() == 0 && !f.failed() }
#[verifier::external_body]
fn vx_create_file(p: &str) -> (r: Result<DiskFile>) ensures r is Ok ==> on_disk(r->Ok_0, p@) { unimplemented!() }
impl<'a, Elements> Granne<'a, Elements> {
/*@ src/index/mod.rs :: impl Granne :: fn from_parts
#name from_layers
#sig fn from_layers(layers: Layers<'a>, elements: Elements) -> (r: Self)
#subst `layers . into ( )` => `layers`
#spec
    ensures r.elements == elements, r.layers == FileOrMemoryLayers::Memory(layers)
@*/
}
#[verifier::reject_recursive_types(Elements)]
/*@ src/index/rw/mod.rs :: struct RwGranneBuilder
#subst `layers : RwLock < ( rw_lock_slice_vector :: RwLockSliceVector , Vec < FixedWidthSliceVector < 'static , NeighborId > > , ) >` => `layers : LayersLock`
#subst `rayon :: ThreadPool` => `ThreadPool`
#subst `write_lock : RwLock < ( ) >` => `write_lock : WriteLock`
@*/

/// the layers of an index of elements c: none empty, each at least as large as the one above
spec fn valid<E: ElementContainer>(c: &E, d: Seq<Seq<Seq<u32>>>) -> bool {
    (forall|k: int| 0 <= k < d.len() ==> layer_ok(c, #[trigger] d[k]) && 1 <= d[k].len() <= c.n()) && (forall|k: int, j: int| 0 <= k <= j < d.len() ==> (#[trigger] d[k]).len() <= (#[trigger] d[j]).len())
}
spec fn views(s: Seq<Rows>) -> Seq<Seq<Seq<u32>>> { s.map_values(|l: Rows| l@) }
spec fn adj_of(d: Seq<Seq<Seq<u32>>>) -> Seq<Seq<Seq<usize>>> { d.map_values(|l: Seq<Seq<u32>>| as_ids(l)) }
proof fn lemma_views<E: ElementContainer>(c: &E, s: Seq<Rows>) requires layers_ok(c, s) ensures valid(c, views(s))
{
    let d = views(s);
    assert forall|k: int| 0 <= k < d.len() implies layer_ok(c, #[trigger] d[k]) && 1 <= d[k].len() <= c.n() by { assert(rows_ok(c, s[k])); }
    assert forall|k: int, j: int| 0 <= k <= j < d.len() implies (#[trigger] d[k]).len() <= (#[trigger] d[j]).len() by { assert(s[k]@.len() <= s[j]@.len()); }
}
proof fn lemma_valid_adj<E: ElementContainer>(c: &E, d: Seq<Seq<Seq<u32>>>)
    requires valid(c, d), c.n() <= u32::MAX
    ensures adjs_ok(adj_of(d)), all_alive(c, adj_of(d)), adj_of(d).len() == d.len(), d.len() > 0 ==> adj_of(d).last().len() == d.last().len() <= c.n()
{
    let a = adj_of(d);
    assert forall|k: int| 0 <= k < a.len() implies adj_ok(#[trigger] a[k]) && a[k].len() >= 1 && (forall|i: int, j: int| 0 <= i < a[k].len() && 0 <= j < a[k][i].len() ==> alive(c, (#[trigger] a[k][i][j]) as int)) by {
        let x = d[k];
        assert forall|i: int, j: int| 0 <= i < a[k].len() && 0 <= j < a[k][i].len() implies #[trigger] a[k][i][j] < a[k].len() && alive(c, a[k][i][j] as int) by { assert(node_ok(c, x.len() as int, i, x[i])); lemma_adj_ids(c, x.len() as int, i, x[i]); assert(a[k][i] == ids(x[i])); }
    }
    assert forall|k: int, j: int| 0 <= k <= j < a.len() implies (#[trigger] a[k]).len() <= (#[trigger] a[j]).len() by { assert(d[k].len() <= d[j].len()); }
}
proof fn lemma_views_adj<'a, E: ElementContainer>(l: &Layers<'a>, c: &E, d: Seq<Seq<Seq<u32>>>)
    requires valid(c, d), c.n() <= u32::MAX, *l is FixWidth, (*l)->FixWidth_0@.len() == d.len(), forall|k: int| 0 <= k < d.len() ==> (#[trigger] (*l)->FixWidth_0@[k]).wf() && (*l)->FixWidth_0@[k]@ == d[k]
    ensures l.inv(), l.adj() == adj_of(d), adjs_ok(l.adj()), all_alive(c, l.adj()), l.adj().len() == d.len(), d.len() > 0 ==> l.adj().last().len() == d.last().len() <= c.n(), tidy(l)
{
    lemma_valid_adj(c, d);
    assert(l.adj() =~= adj_of(d));
    let v = (*l)->FixWidth_0@;
    assert forall|k: int| 0 <= k < v.len() implies (#[trigger] v[k]).inv() && tidy_rows(v[k]@) by {
        let x = d[k]; assert(v[k]@ == x); assert(layer_ok(c, x));
        assert forall|i: int, j: int| 0 <= i < x.len() && live(x[i]) <= j < x[i].len() implies #[trigger] x[i][j] == u32::MAX by { assert(node_ok(c, x.len() as int, i, x[i])); }
    }
}
/// the layers that are written: those above, and the nodes of the last that have an element
proof fn lemma_saved<E: ElementContainer>(c: &E, l: Ls, w: usize, max: usize)
    requires joint(c, l, w, max), c.n() > 0
    ensures valid(c, views(l.1@).push(l.0@.subrange(0, c.n() as int)))
{
    let s = l.1@; let n = c.n() as int; let x = l.0@.subrange(0, n); let d = views(s).push(x);
    lemma_views(c, s);
    assert(layer_ok(c, x)) by { assert forall|i: int| 0 <= i < n implies node_ok(c, n, i, #[trigger] x[i]) by { assert((good_lock(c, n, i))(l.0@[i])); } }
    assert forall|k: int| 0 <= k < d.len() implies layer_ok(c, #[trigger] d[k]) && 1 <= d[k].len() <= n by { if k < s.len() { assert(views(s)[k] == d[k]); } }
    assert forall|k: int, j: int| 0 <= k <= j < d.len() implies (#[trigger] d[k]).len() <= (#[trigger] d[j]).len() by { if k < s.len() { assert(views(s)[k] == d[k]); } if j < s.len() { assert(views(s)[j] == d[j]); } }
}
/// C19: what is written: all elements, and an index of them whose last layer has all of them
#[verifier::prophetic]
spec fn written<E: ExtendableElementContainer + Writeable, B: Seek, D: Write>(b: &RwGranneBuilder<E>, c: E, d: Seq<Seq<Seq<u32>>>, e0: D, e1: D, i0: B, i1: B) -> bool {
    b.elements.had(c) && valid(&c, d) && (if c.n() == 0 { d.len() == 0 } else { d.len() > 0 && d.last().len() == c.n() })
    && accepted(e0, e1, c.repr()) && index_of(d, i0, i1)
}
#[verifier::prophetic]
spec fn index_of<B: Seek>(d: Seq<Seq<Seq<u32>>>, i0: B, i1: B) -> bool { exists|l: Layers<'_>, s: Seq<Seq<u8>>| #[trigger] index_written(&l, i0, i1, s) && l.adj() == adj_of(d) && l.inv() && tidy(&l) }
/// C19: the answer of a search among elements c, whose neighbors were read one after the other
spec fn live_by<E: ElementContainer>(c: &E, g: E::V, m: int, nn: int, r: Seq<(usize, f32)>, e: usize, full: Seq<Cand>, obs: Map<usize, Seq<usize>>) -> bool {
    e < c.n() && 1 <= full.len() <= m && scored(c, g, full) && first_of(full, nn, r) && (has(full, e) || full_rejected(c, g, full, m, e))
    && (forall|i: int| 0 <= i < full.len() ==> obs.contains_key(#[trigger] full[i].0))
    && (forall|i: int, k: int| #![trigger obs[full[i].0][k]] 0 <= i < full.len() && 0 <= k < obs[full[i].0].len() ==> has(full, obs[full[i].0][k]) || full_rejected(c, g, full, m, obs[full[i].0][k]))
    && (forall|i: int, k: int| #![trigger obs[full[i].0][k]] 0 <= i < full.len() && 0 <= k < obs[full[i].0].len() ==> obs[full[i].0][k] < c.n())
}
spec fn live_answer<E: ElementContainer>(c: &E, g: E::V, m: int, nn: int, r: Seq<(usize, f32)>) -> bool { if c.n() == 0 { r.len() == 0 } else { exists|e: usize, full: Seq<Cand>, obs: Map<usize, Seq<usize>>| #[trigger] live_by(c, g, m, nn, r, e, full, obs) } }
proof fn lemma_c19<E: ElementContainer>(c: &E, g: E::V, m: int, nn: int, r: Seq<(usize, f32)>)
    requires live_answer(c, g, m, nn, r), m >= 1, nn >= 1
    ensures r.len() <= m, r.len() <= nn, c.n() > 0 ==> r.len() >= 1,
        forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).0 < c.n() && r[i].1 == c.d(r[i].0 as int, g).inner(),
        forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).0 != (#[trigger] r[j]).0 && klt(dk(c, g, r[i].0), dk(c, g, r[j].0))
{
    if c.n() > 0 {
        let (e, full, obs) = choose|e: usize, full: Seq<Cand>, obs: Map<usize, Seq<usize>>| #[trigger] live_by(c, g, m, nn, r, e, full, obs);
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).0 != (#[trigger] r[j]).0 && klt(dk(c, g, r[i].0), dk(c, g, r[j].0)) by { assert(klt(key2(full[i]), key2(full[j]))); }
    }
}
spec fn vals<E: ExtendableElementContainer>(s: Seq<E::InternalElement>) -> Seq<E::V> { s.map_values(|e: E::InternalElement| E::val_in(e)) }
/// what indexing the elements ids needs
spec fn work_ok<E: ExtendableElementContainer + Writeable>(b: &RwGranneBuilder<E>, c: &E, p: &Granne<'_, &E>, l: &RwLockSliceVector) -> bool {
    b.wf() && c.inv() && c.n() <= u32::MAX && l.wf() && rows_good(c, l@) && above_ok(p, c, c.n() as int) && c.n() <= l@.len()
}
/// C18: what inserting a batch does: the sections it entered keep what the locks protect, the ids are those of the elements
/// in the order of the batch, and elements are only left out when there is no room
spec fn batch_done<E: ExtendableElementContainer + Writeable>(b: &RwGranneBuilder<E>, v: Seq<E::V>, l0: Log, l1: Log, r: Seq<usize>) -> bool {
    exists|s: Log| #[trigger] batch_by(b, v, l0, l1, r, s)
}
spec fn batch_by<E: ExtendableElementContainer + Writeable>(b: &RwGranneBuilder<E>, v: Seq<E::V>, l0: Log, l1: Log, r: Seq<usize>, s: Log) -> bool {
    l1 == l0 + s && (forall|i: int| 0 <= i < s.len() ==> b.round_ok((#[trigger] s[i]).0, s[i].1)) && inserted(&b.elements, s, r, v) && r.len() <= v.len() && (r.len() < v.len() ==> exists|c: E| #[trigger] b.elements.had(c) && c.n() >= b.max_elements)
}
proof fn lemma_done_none<E: ExtendableElementContainer + Writeable>(b: &RwGranneBuilder<E>, v: Seq<E::V>, l0: Log, r: Seq<usize>)
    requires r.len() == 0, exists|c: E| #[trigger] b.elements.had(c) && c.n() >= b.max_elements
    ensures batch_done(b, v, l0, l0, r)
{ let s: Log = Seq::empty(); assert(l0 =~= l0 + s); assert(batch_by(b, v, l0, l0, r, s)); }
proof fn lemma_done_section<E: ExtendableElementContainer + Writeable>(b: &RwGranneBuilder<E>, v: Seq<E::V>, l0: Log, l1: Log, r: Seq<usize>)
    requires r.len() == 0, l1.len() == l0.len() + 1, l1.drop_last() == l0, !l1.last().1, b.elements.hist(l1.last().0) == b.elements.hist(l1.last().0 + 1), b.elements.hist(l1.last().0).n() >= b.max_elements
    ensures batch_done(b, v, l0, l1, r)
{
    let s: Log = seq![l1.last()]; let c = b.elements.hist(l1.last().0);
    assert(l1 =~= l0 + s); assert(b.elements.had(c)); assert(s.skip(1).len() == 0); assert(inserted(&b.elements, s.skip(1), r.skip(0), v.skip(0)));
    assert(inserted(&b.elements, s, r, v)); assert(batch_by(b, v, l0, l1, r, s));
}
proof fn lemma_done_more<E: ExtendableElementContainer + Writeable>(b: &RwGranneBuilder<E>, v: Seq<E::V>, l0: Log, l1: Log, l2: Log, ids: Seq<usize>, rest: Seq<usize>)
    requires l1 == l0.push((l1.last().0, true)), b.round_ok(l1.last().0, true), ids.len() <= v.len(), b.elements.hist(l1.last().0 + 1).n() == b.elements.hist(l1.last().0).n() + ids.len(),
        forall|i: int| 0 <= i < ids.len() ==> #[trigger] ids[i] == b.elements.hist(l1.last().0).n() + i, forall|i: int| 0 <= i < ids.len() ==> #[trigger] v[i] == b.elements.hist(l1.last().0 + 1).el(b.elements.hist(l1.last().0).n() + i),
        if ids.len() == v.len() { l2 == l1 && rest.len() == 0 } else { batch_done(b, v.skip(ids.len() as int), l1, l2, rest) }
    ensures batch_done(b, v, l0, l2, ids + rest)
{
    let t: Log = if ids.len() == v.len() { Seq::empty() } else { choose|t: Log| #[trigger] batch_by(b, v.skip(ids.len() as int), l1, l2, rest, t) };
    let x = l1.last(); let s = seq![x] + t; let r = ids + rest; let m = ids.len() as int;
    assert(l2 =~= l0 + s) by { assert(l2 =~= l1 + t); }
    assert(s.skip(1) =~= t); assert(r.skip(m) =~= rest);
    assert(inserted(&b.elements, t, rest, v.skip(m)));
    assert forall|i: int| 0 <= i < m implies #[trigger] r[i] == b.elements.hist(x.0).n() + i by { assert(r[i] == ids[i]); }
    assert(s[0] == x);
    assert(inserted(&b.elements, s, r, v));
    assert forall|i: int| 0 <= i < s.len() implies b.round_ok((#[trigger] s[i]).0, s[i].1) by { if i > 0 { assert(s[i] == t[i - 1]); } }
    assert(batch_by(b, v, l0, l2, r, s));
}
/// a layer with an element for every node
proof fn lemma_full<E: ElementContainer>(c: &E, l: Ls, w: usize, max: usize)
    requires joint(c, l, w, max), l.0@.len() == c.n()
    ensures layer_ok(c, l.0@)
{ assert forall|i: int| 0 <= i < l.0@.len() implies node_ok(c, l.0@.len() as int, i, #[trigger] l.0@[i]) by { assert((good_lock(c, c.n() as int, i))(l.0@[i])); } }
proof fn lemma_push<E: ElementContainer>(c: &E, l: Ls, x: Rows, w: usize, max: usize)
    requires joint(c, l, w, max), x.wf(), x.w() == w, layer_ok(c, x@), x@ == l.0@, l.0@.len() == c.n() >= 1, 1 <= w <= u32::MAX
    ensures layers_ok(c, l.1@.push(x)), widths(l.1@.push(x), w as int)
{
    let s = l.1@; let t = s.push(x);
    assert forall|k: int| 0 <= k < t.len() implies #[trigger] rows_ok(c, t[k]) && t[k].w() == w by { if k < s.len() { assert(rows_ok(c, s[k])); assert(s[k].w() == w); } }
    assert forall|k: int, j: int| 0 <= k <= j < t.len() implies (#[trigger] t[k])@.len() <= (#[trigger] t[j])@.len() by { if j < s.len() { assert(s[k]@.len() <= s[j]@.len()); } else if k < s.len() { assert(rows_ok(c, s[k])); } }
    assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]).w() == w by { if k < s.len() { assert(s[k].w() == w); } }
}
proof fn lemma_joint_grows<E: ElementContainer>(a: &E, c: &E, l: Ls, w: usize, max: usize)
    requires joint(a, l, w, max), grown(a, c), c.n() <= l.0@.len()
    ensures joint(c, l, w, max)
{
    lemma_layers_grow(a, c, l.1@);
    let d = l.0@; let n = a.n() as int; let m = c.n() as int;
    assert forall|i: int| 0 <= i < d.len() implies (good_lock(c, m, i))(#[trigger] d[i]) by {
        assert((good_lock(a, n, i))(d[i])); assert(node_ok(a, n, i, d[i])); lemma_live(d[i]);
        assert forall|j: int| 0 <= j < n implies alive(c, j) == #[trigger] alive(a, j) by { assert(c.el(j) == a.el(j)); }
        if i >= n { assert forall|k: int| 0 <= k < d[i].len() implies #[trigger] d[i][k] == u32::MAX by {} lemma_empty_node(c, m, i, d[i]); }
    }
}
/// b is a with one more element
spec fn pushed<E: ExtendableElementContainer>(a: &E, e: E::InternalElement, b: &E) -> bool { b.inv() && b.n() == a.n() + 1 && grown(a, b) && b.el(a.n() as int) == E::val_in(e) }
/// ids r are those of the elements vals that the sections s added
spec fn inserted<E: ElementContainer>(l: &RwLock<E>, s: Log, r: Seq<usize>, vals: Seq<E::V>) -> bool decreases s.len() {
    if s.len() == 0 { r.len() == 0 } else {
        let a = l.hist(s[0].0); let b = l.hist(s[0].0 + 1); let m = b.n() - a.n();
        0 <= m <= r.len() && m <= vals.len() && (forall|i: int| 0 <= i < m ==> #[trigger] r[i] == a.n() + i) && (forall|i: int| 0 <= i < m ==> #[trigger] vals[i] == b.el(a.n() + i)) && inserted(l, s.skip(1), r.skip(m), vals.skip(m))
    }
}
impl<Elements: ExtendableElementContainer + Writeable> RwGranneBuilder<Elements> {
    spec fn w(&self) -> usize { self.config.num_neighbors }
    spec fn wf(&self) -> bool {
        grows(self.config.layer_multiplier) && 1 <= self.config.max_search && self.config.max_search * 20 <= usize::MAX && 1 <= self.w() <= u32::MAX && self.max_elements <= u32::MAX
        && self.layers.rule::<Elements>() == rule::<Elements>(self.w(), self.max_elements)
    }
    /// what a section that may write does
    spec fn round_ok(&self, k: nat, layers: bool) -> bool {
        let a = self.elements.hist(k); let b = self.elements.hist(k + 1);
        if !layers { b == a } else { self.elements.keeps(b) && grown(&a, &b) && (b.n() > a.n() ==> b.n() <= self.max_elements) && joint(&b, self.layers.after(k), self.w(), self.max_elements) }
    }
    /// every element can be added, and stays of the agreed kind
    spec fn welcome(&self, e: Elements::InternalElement) -> bool {
        (forall|c: Elements| c.inv() && (#[trigger] (self.elements.kind())(c)) ==> c.takes(e)) && forall|c: Elements, d: Elements| (#[trigger] (self.elements.kind())(c)) && c.inv() && pushed(&c, e, &d) ==> #[trigger] (self.elements.kind())(d)
    }
/*@ src/index/rw/mod.rs :: impl RwGranneBuilder :: fn new
#sig fn new(builder: GranneBuilder<Elements>, max_elements: usize, num_threads: usize, Ghost(kind): Ghost<spec_fn(Elements) -> bool>) -> (r: Self)
#subst `RwLock :: new ( ( current_layer . into ( ) , builder . layers ) )` => `LayersLock::new::<Elements>((RwLockSliceVector::from(current_layer), builder.layers), Ghost(c), Ghost(rule::<Elements>(w, max_elements)))`
#subst `RwLock :: new ( builder . elements )` => `RwLock::new(builder.elements, Ghost(kind))`
#subst `rayon :: ThreadPoolBuilder :: new ( ) . num_threads ( num_threads ) . build ( ) . expect ( "Could not create threadpool" )` => `ThreadPool::make(num_threads)`
#subst `RwLock :: new ( ( ) )` => `WriteLock::new(())`
#closure 0 (b: FixedWidthSliceVector<'static, NeighborId>) types:
    ensures b.wf(), b.w() == builder.config.num_neighbors, b@.len() == 0
#spec
    requires builder.elements.inv(), builder.elements.n() <= u32::MAX, layers_ok(&builder.elements, builder.layers@), builder.config_ok(), widths(builder.layers@, builder.config.num_neighbors as int), max_elements <= u32::MAX, kind(builder.elements)
    ensures r.wf(), r.elements.hist(0) == builder.elements, r.max_elements == max_elements, r.elements.kind() == kind
#begin
    let ghost b0 = builder; let ghost w = builder.config.num_neighbors; let ghost c = builder.elements;
    proof { axiom_u32_layout(); if max_elements > 0 { lemma_ideal(max_elements, builder.config.layer_multiplier); } if builder.layers@.len() > 0 { assert(rows_ok(&c, builder.layers@.last())); } }
#at before `let mut current_layer`
    let ghost s = builder.layers@;
    proof { if s.len() > 0 { assert(rows_ok(&c, s.last())); assert(s.last().w() == w); } }
#at before `let num_elements_in_layer`
    let ghost cur0 = current_layer;
    proof { assert(cur0.wf()); assert(cur0@.len() == c.n()); assert(cur0.w() == w); assert(layer_ok(&c, cur0@)); }
#at before `current_layer . resize`
    proof { assert(num_elements_in_layer * w <= u32::MAX * u32::MAX) by (nonlinear_arith) requires 0 <= num_elements_in_layer <= u32::MAX, 0 < w <= u32::MAX; }
#at after `current_layer . resize`
    proof { lemma_row_len(current_layer); lemma_extended(&c, cur0@, current_layer@); lemma_top(&c, s, w as int); }
@*/
#[verifier::exec_allows_no_decreases_clause]
/*@ src/index/rw/mod.rs :: impl RwGranneBuilder :: fn insert_batch
#sig fn insert_batch(&self, mut elements_to_insert: Vec<Elements::InternalElement>, log: &mut Ghost<Log>) -> (r: Vec<usize>)
#bind pass `self . write_lock . read ( )` `Pass::none()`
#subst `self . elements . write ( )` => `self.elements.write(log)`
#subst `self . layers . write ( )` => `self.layers.write::<Elements>(Ghost(*elements), &self.elements, log)`
#subst `std :: mem :: replace ( current_layer , FixedWidthSliceVector :: with_width ( 1 ) . into ( ) ) . into ( )` => `core::mem::replace(current_layer, RwLockSliceVector::from(FixedWidthSliceVector::with_width(1))).into()`
#subst `new_layer . into ( )` => `RwLockSliceVector::from(new_layer)`
#subst `( elements . len ( ) .. )` => `count_from(elements.len())`
#subst `parking_lot :: RwLockWriteGuard :: downgrade` => `downgrade`
#subst `Granne :: from_parts` => `Granne::from_layers`
#subst `ids . par_iter ( )` => `ids.it()`
#subst `current_layer . as_slice ( )` => `current_layer.as_slice_for_updates::<Elements>(&$pass, Ghost(elements))`
#subst `self . insert_batch ( remaining )` => `self.insert_batch(remaining, log)`
#subst `inserted . extend ( ids . into_iter ( ) )` => `vec_extend(&mut inserted, ids.into_it())`
#closure 0 (b: FixedWidthSliceVector<'_, NeighborId>) types: &FixedWidthSliceVector<'static, NeighborId>
    requires small_align::<u32>() ensures b@ == vx_p0@, vx_p0.wf() ==> b.wf()
#closure 1 (b: ()) types:
    requires work_ok(self, elements, &index, current_layer), forall|i: int| 0 <= i < ids@.len() ==> #[trigger] ids@[i] < elements.n(), $pass.writes()
    ensures true
#closure 2 (b: ()) types: &usize
    requires work_ok(self, elements, &index, current_layer), *vx_p0 < elements.n(), $pass.writes()
    ensures true
#closure 3 (b: ()) types: &usize
    requires work_ok(self, elements, &index, current_layer), *vx_p0 < elements.n(), $pass.writes()
    ensures true
#spec
    requires self.wf(), forall|i: int| 0 <= i < elements_to_insert@.len() ==> self.welcome(#[trigger] elements_to_insert@[i])
    ensures batch_done(self, vals::<Elements>(elements_to_insert@), old(log)@, final(log)@, r@)
#begin
    proof { axiom_u32_layout(); }
    let ghost w = self.w(); let ghost max = self.max_elements; let ghost v = vals::<Elements>(elements_to_insert@); let ghost l0 = log@; let ghost batch = elements_to_insert@;
    proof {
        assert forall|r: Seq<usize>| r.len() == 0 && (exists|c: Elements| #[trigger] self.elements.had(c) && c.n() >= max) implies #[trigger] batch_done(self, v, l0, l0, r) by { lemma_done_none(self, v, l0, r); }
        assert forall|l1: Log, r: Seq<usize>| r.len() == 0 && l1.len() == l0.len() + 1 && l1.drop_last() == l0 && !l1.last().1 && self.elements.hist(l1.last().0) == self.elements.hist(l1.last().0 + 1) && self.elements.hist(l1.last().0).n() >= max implies #[trigger] batch_done(self, v, l0, l1, r) by { lemma_done_section(self, v, l0, l1, r); }
    }
#at before `let mut layers`
    let ghost k = log@.last().0; let ghost a = *elements;
#at after `let mut layers`
    let ghost p0 = *layers;
    proof { assert(joint(&a, p0, w, max)); lemma_ideal(max, self.config.layer_multiplier); }
#at before `let mut new_layer`
    let ghost cl = current_layer;
    proof { assert(cl@.len() == a.n()); lemma_full(&a, p0, w, max); lemma_push(&a, p0, cl, w, max); }
#at before `new_layer . resize`
    proof { assert forall|n: int| 0 <= n <= u32::MAX implies #[trigger] (n * w) <= usize::MAX by { assert(n * w <= u32::MAX * u32::MAX) by (nonlinear_arith) requires 0 <= n <= u32::MAX, 0 < w <= u32::MAX; } }
#at after `new_layer . resize`
    proof { lemma_row_len(new_layer); lemma_extended(&a, cl@, new_layer@); }
#at before `let num_to_insert`
    let ghost p1 = (*current_layer, *prev_layers);
    proof { assert(joint(&a, p1, w, max)); }
#at before `( ids , remaining )`
    proof {
        assert(log@ =~= l0.push((k, true)));
        assert(self.elements.hist(k) == a && self.elements.hist(k + 1) == c);
        assert(self.layers.after(k) == p1);
        assert(self.round_ok(k, true));
        assert forall|i: int| 0 <= i < ids@.len() implies #[trigger] v[i] == c.el(a.n() + i) by { assert(first[i] == batch[i]); }
        assert(remaining@ =~= batch.skip(ids@.len() as int));
    }
#at before `if ! remaining . is_empty ( )`
    let ghost l1 = log@; let ghost ids0 = inserted@; let ghost rest0 = remaining@;
    proof { assert(vals::<Elements>(rest0) =~= v.skip(ids0.len() as int)); assert forall|i: int| 0 <= i < rest0.len() implies self.welcome(#[trigger] rest0[i]) by { assert(rest0[i] == batch[ids0.len() + i]); } }
#at after `vec_extend ( & mut inserted`
    proof { assert(inserted@.skip(ids0.len() as int) =~= ids_added); }
#at before `vec_extend ( & mut inserted`
    let ghost ids_added = ids@;
#tail r
    proof { let rest = r@.skip(ids0.len() as int); assert(r@ =~= ids0 + rest); lemma_done_more(self, v, l0, l1, log@, ids0, rest); }
#loop 0 after
    let ghost c = *elements;
    proof { lemma_joint_grows(&a, &c, p1, w, max); }
#at after `let index =`
    let ghost s = layers@;
    proof { assert(joint(&c, *vx_l2, w, max)); assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).wf() by { assert(rows_ok(&c, s[k])); } lemma_views(&c, s); match &index.layers { FileOrMemoryLayers::Memory(l) => lemma_views_adj(l, &c, views(s)), _ => {} } assert(work_ok(self, elements, &index, current_layer)); }
#at after `let remaining`
    let ghost first = elements_to_insert@;
#loop 0
    invariant vx_v0@ == first, vx_i0 <= vx_v0@.len(), forall|i: int| 0 <= i < vx_v0@.len() ==> self.welcome(#[trigger] vx_v0@[i]), elements.inv(), elements.n() == a.n() + vx_i0, grown(&a, &*elements), (self.elements.kind())(*elements), forall|i: int| 0 <= i < vx_i0 ==> elements.el(a.n() + i) == Elements::val_in(#[trigger] vx_v0@[i])
    decreases vx_v0@.len() - vx_i0
@*/
/*@ src/index/rw/mod.rs :: impl RwGranneBuilder :: fn insert
#sig fn insert(&self, element: Elements::InternalElement, log: &mut Ghost<Log>) -> (r: Option<usize>)
#subst `self . insert_batch ( vec ! [ element ] )` => `self.insert_batch(vec![element], log)`
#spec
    requires self.wf(), self.welcome(element)
    ensures batch_done(self, seq![Elements::val_in(element)], old(log)@, final(log)@, match r { Some(i) => seq![i], None => Seq::empty() })
#begin
    proof {
        assert forall|s: Seq<Elements::InternalElement>| s.len() == 1 && s[0] == element implies #[trigger] vals::<Elements>(s) == seq![Elements::val_in(element)] by { assert(vals::<Elements>(s) =~= seq![Elements::val_in(element)]); }
        assert forall|s: Seq<usize>, l1: Log| #[trigger] batch_done(self, seq![Elements::val_in(element)], log@, l1, s) implies s.len() <= 1 && (s.len() == 1 ==> s == seq![s[0]]) && (s.len() == 0 ==> s == Seq::<usize>::empty()) by { assert(s.len() == 1 ==> s =~= seq![s[0]]); assert(s.len() == 0 ==> s =~= Seq::<usize>::empty()); }
    }
@*/
/*@ src/index/rw/mod.rs :: impl RwGranneBuilder :: fn write
#sig fn write<B: Seek, D: Write>(&self, index_file: &mut B, elements_file: &mut D) -> (r: Result<()>)
#subst `std :: io :: Result` => `Result`
#bind alone `self . write_lock . write ( )` `Pass::none()`
#subst `self . layers . read ( )` => `self.layers.read::<Elements>(Ghost(*elements), &self.elements)`
#subst `current_layer . as_owner ( )` => `current_layer.as_owner(&$alone)`
#subst `io :: write_index` => `write_index`
#closure 0 (b: FixedWidthSliceVector<'_, NeighborId>) types: &FixedWidthSliceVector<'static, NeighborId>
    requires small_align::<u32>() ensures b@ == vx_p0@, b.w() == vx_p0.w(), vx_p0.wf() ==> b.wf()
#closure 1 (b: FixedWidthSliceVector<'_, NeighborId>) types: &FixedWidthSliceVector<'_, NeighborId>
    requires small_align::<u32>() ensures b@ == vx_p0@, b.w() == vx_p0.w(), vx_p0.wf() ==> b.wf()
#spec
    requires self.wf(), old(index_file).pos() < 0x1000_0000_0000_0000, 1 <= self.w() <= 254, self.layers.most() <= 0x1_0000
    ensures r is Ok ==> exists|c: Elements, d: Seq<Seq<Seq<u32>>>| #[trigger] written(self, c, d, *old(elements_file), *final(elements_file), *old(index_file), *final(index_file))
#begin
    proof { axiom_u32_layout(); }
    let ghost e0 = *elements_file; let ghost i0 = *index_file; let ghost we = *final(elements_file); let ghost wi = *final(index_file);
#at after `let last_layer = FixedWidthSliceVector`
    let ghost c = *elements; let ghost s = layers@; let ghost cur = current_layer@; let ghost d = if c.n() == 0 { Seq::empty() } else { views(s).push(cur.subrange(0, c.n() as int)) };
    proof { assert(joint(&c, *vx_l1, self.w(), self.max_elements)); if c.n() > 0 { lemma_saved(&c, *vx_l1, self.w(), self.max_elements); } assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).wf() && s[k].w() == self.w() && s[k]@.len() <= c.n() by { assert(rows_ok(&c, s[k])); } }
#at before `write_index ( & layers`
    let ghost l = &layers;
    proof { match l { Layers::FixWidth(v) => { assert forall|k: int| 0 <= k < v@.len() implies (#[trigger] v@[k]).inv() && v@[k]@ == d[k] && fixed_fits(v@[k]) by { if k < s.len() { assert(s[k].wf()); } } }, _ => {} } lemma_views_adj(l, &c, d); }
#tail r
    proof { if r is Ok { assert(written(self, c, d, e0, we, i0, wi)); } }
@*/
/*@ src/index/rw/mod.rs :: impl RwGranneBuilder :: fn save_index_and_elements_to_disk
#ret r
#subst `std :: io :: Result` => `Result`
#subst `File :: create` => `vx_create_file`
#spec
    requires self.wf(), 1 <= self.w() <= 254, self.layers.most() <= 0x1_0000
#at before `self . write`
    let ghost e0 = elements_file; let ghost i0 = index_file;
    proof { assert(on_disk(e0, elements_path@) && on_disk(i0, index_path@)); }
#tail r
    // the index and the elements of one state, in the files of these names
    proof { if r is Ok { assert(exists|c: Elements, d: Seq<Seq<Seq<u32>>>| #[trigger] written(self, c, d, e0, elements_file, i0, index_file)); } }
@*/
/*@ src/index/rw/mod.rs :: impl RwGranneBuilder :: fn search
#ret r
#subst `self . layers . read ( )` => `self.layers.read::<Elements>(Ghost(*elements), &self.elements)`
#subst `Granne :: from_parts` => `Granne::from_layers`
#subst `current_layer . as_slice ( )` => `current_layer.as_slice::<Elements>(Ghost(elements))`
#subst `super :: search_for_neighbors` => `search_for_neighbors`
#closure 0 (b: FixedWidthSliceVector<'_, NeighborId>) types: &FixedWidthSliceVector<'static, NeighborId>
    requires small_align::<u32>() ensures b@ == vx_p0@, vx_p0.wf() ==> b.wf()
#closure 1 (b: usize) types: &(usize, f32)
    ensures b == vx_p0.0
#closure 2 (b: (usize, f32)) types: (usize, NotNan<f32>)
    ensures b == (vx_p0.0, vx_p0.1.inner())
#spec
    requires self.wf(), 1 <= max_search, max_search * 20 <= usize::MAX, forall|c: Elements| c.inv() && (#[trigger] (self.elements.kind())(c)) ==> c.fits(Elements::val(*element))
    ensures exists|c: Elements| #[trigger] self.elements.had(c) && live_answer(&c, Elements::val(*element), max_search as int, num_neighbors as int, r@)
#begin
    proof { axiom_u32_layout(); }
    let ghost g = Elements::val(*element);
#at after `let index =`
    let ghost c = *elements; let ghost s = layers@;
    proof { assert(self.elements.had(c)); assert(joint(&c, *vx_l1, self.w(), self.max_elements)); assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).wf() by { assert(rows_ok(&c, s[k])); } lemma_views(&c, s); match &index.layers { FileOrMemoryLayers::Memory(l) => lemma_views_adj(l, &c, views(s)), _ => {} } }
#at before `let entrypoint =`
    let ghost p = &index;
    proof {
        let a = p.adj();
        if a.len() > 0 { assert(a[a.len() - 1].len() >= 1); }
        assert forall|r: Seq<(usize, f32)>| #[trigger] answer(a, &p.elements, g, 1, 1, r) implies (forall|i: int| 0 <= i < r.len() ==> a.len() > 0 && (#[trigger] r[i]).0 < a.last().len()) by { lemma_entry_alive(a, &p.elements, g, 1, 1, r, &c); }
    }
#tail r
    proof { let l = vx_l1.0.cells(); let m = max_search as int; let nn = num_neighbors as int;
        assert(exists|obs: Map<usize, Seq<usize>>, full: Seq<Cand>| #[trigger] found(l, &c, entrypoint, g, m, full, obs) && first_of(full, nn, r@));
        let (obs, full) = choose|obs: Map<usize, Seq<usize>>, full: Seq<Cand>| #[trigger] found(l, &c, entrypoint, g, m, full, obs) && first_of(full, nn, r@);
        assert(in_both(l, &c)); assert forall|i: int, k: int| #![trigger obs[full[i].0][k]] 0 <= i < full.len() && 0 <= k < obs[full[i].0].len() implies obs[full[i].0][k] < c.n() by { let x = full[i].0; assert(obs.contains_key(x) && l.rel(x as int, obs[x])); }
        assert(live_by(&c, g, m, nn, r@, entrypoint, full, obs)); }
@*/
/*@ src/index/rw/mod.rs :: impl RwGranneBuilder :: fn get_elements
#sig fn get_elements(&self) -> (r: &Elements)
#spec
    ensures self.elements.had(*r)
@*/
/*@ src/index/rw/mod.rs :: impl RwGranneBuilder :: fn get_element
#ret r
#subst `. get ( idx )` => `.vx_get(idx)`
#spec
    ensures exists|c: Elements| #[trigger] self.elements.had(c) && idx < c.n() && Elements::val(r) == c.el(idx as int)
@*/
/*@ src/index/rw/mod.rs :: impl RwGranneBuilder :: fn len
#ret r
#spec
    ensures exists|c: Elements| #[trigger] self.elements.had(c) && r == c.n()
@*/
/*@ src/index/rw/mod.rs :: impl RwGranneBuilder :: fn is_empty
#ret r
#spec
    ensures exists|c: Elements| #[trigger] self.elements.had(c) && r == (c.n() == 0)
@*/
}
spec fn rule<E: ElementContainer>(w: usize, max: usize) -> spec_fn(E, Ls) -> bool { |c: E, l: Ls| joint(&c, l, w, max) }

proof fn lemma_extended<E: ElementContainer>(c: &E, d: Seq<Seq<u32>>, e: Seq<Seq<u32>>)
    requires layer_ok(c, d), d.len() == c.n(), e.len() >= d.len(), forall|i: int| 0 <= i < d.len() ==> #[trigger] e[i] == d[i], forall|i: int, k: int| d.len() <= i < e.len() && 0 <= k < e[i].len() ==> #[trigger] e[i][k] == u32::MAX, forall|i: int| 0 <= i < e.len() ==> 0 < (#[trigger] e[i]).len() < usize::MAX
    ensures rows_good(c, e)
{
    let n = c.n() as int;
    assert forall|i: int| 0 <= i < e.len() implies (good_lock(c, n, i))(#[trigger] e[i]) by { if i < n { assert(node_ok(c, n, i, d[i])); } else { assert forall|k: int| 0 <= k < e[i].len() implies #[trigger] e[i][k] == u32::MAX by {} lemma_empty_node(c, n, i, e[i]); } }
}
/// all but the last
proof fn lemma_top<E: ElementContainer>(c: &E, s: Seq<Rows>, w: int)
    requires layers_ok(c, s), widths(s, w)
    ensures s.len() > 0 ==> layers_ok(c, s.drop_last()) && widths(s.drop_last(), w) && (s.len() > 1 ==> s.drop_last().last()@.len() <= s.last()@.len())
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|k: int| 0 <= k < t.len() implies #[trigger] rows_ok(c, t[k]) && t[k].w() == w by { assert(rows_ok(c, s[k])); assert(s[k].w() == w); }
        assert forall|k: int, j: int| 0 <= k <= j < t.len() implies (#[trigger] t[k])@.len() <= (#[trigger] t[j])@.len() by { assert(s[k]@.len() <= s[j]@.len()); }
        if s.len() > 1 { assert(s[s.len() - 2]@.len() <= s[s.len() - 1]@.len()); }
    }
}

/// every section that may write is one of insert_batch
spec fn history_ok<E: ExtendableElementContainer + Writeable>(b: &RwGranneBuilder<E>) -> bool { forall|k: nat| b.round_ok(k, false) || #[trigger] b.round_ok(k, true) }
/// C18: elements never change and stay below the maximum
proof fn lemma_c18_grows<E: ExtendableElementContainer + Writeable>(b: &RwGranneBuilder<E>, k: nat, j: nat)
    requires history_ok(b), k <= j
    ensures grown(&b.elements.hist(k), &b.elements.hist(j)), b.elements.hist(j).n() <= b.max_elements || b.elements.hist(j).n() == b.elements.hist(k).n()
    decreases j - k
{
    if k < j {
        let i = (j - 1) as nat;
        lemma_c18_grows(b, k, i);
        let x = b.elements.hist(k); let y = b.elements.hist(i); let z = b.elements.hist(i + 1);
        assert(b.round_ok(i, false) || b.round_ok(i, true)); assert(i + 1 == j);
        assert(grown(&y, &z));
        assert forall|q: int| 0 <= q < x.n() implies (#[trigger] z.el(q)) == x.el(q) by { assert(y.el(q) == x.el(q)); }
        assert forall|q: int, v: E::V| 0 <= q < x.n() implies (#[trigger] z.d(q, v)) == x.d(q, v) by { assert(y.d(q, v) == x.d(q, v)); }
    }
}
/// C18: sections hand out different ids, and whoever reads an id later gets the element added under it
proof fn lemma_c18<E: ExtendableElementContainer + Writeable>(b: &RwGranneBuilder<E>, k: nat, j: nat, x: int, y: int, m: nat)
    requires history_ok(b), k < j, k < m, b.elements.hist(k).n() <= x < b.elements.hist(k + 1).n(), b.elements.hist(j).n() <= y < b.elements.hist(j + 1).n()
    ensures x < y, x < b.elements.hist(m).n(), b.elements.hist(m).el(x) == b.elements.hist(k + 1).el(x)
{ lemma_c18_grows(b, k + 1, j); lemma_c18_grows(b, k + 1, m); }
