// Chunk and Offsets of src/slice_vector/offsets.rs
/*@ src/slice_vector/offsets.rs :: const OFFSETS_PER_CHUNK @*/
/*@ src/slice_vector/offsets.rs :: type DeltaType @*/
/*@ src/slice_vector/offsets.rs :: const UNUSED
#subst `DeltaType :: max_value ( )` => `u16::MAX`
@*/
#[derive(Clone, Copy)]
/*@ src/slice_vector/offsets.rs :: struct Chunk
#attr `repr ( C , packed )`
/// layout of a packed chunk: no padding, alignment 1
broadcast axiom fn axiom_chunk_layout() ensures #[trigger] vstd::layout::size_of::<Chunk>() == 8 + 2 * OFFSETS_PER_CHUNK, #[trigger] vstd::layout::align_of::<Chunk>() == 1;
@*/
/*@ src/slice_vector/offsets.rs :: struct Offsets @*/

/// number of entries before the first unused marker
spec fn used(d: Seq<u16>) -> int decreases d.len() { if d.len() == 0 || d[0] == UNUSED { 0 } else { 1 + used(d.skip(1)) } }
/// sum of the first k entries
spec fn dsum(d: Seq<u16>, k: int) -> int decreases k { if k <= 0 { 0 } else { dsum(d, k - 1) + d[k - 1] } }
proof fn lemma_used(d: Seq<u16>)
    ensures 0 <= used(d) <= d.len(), forall|i: int| 0 <= i < used(d) ==> d[i] != UNUSED, used(d) < d.len() ==> d[used(d)] == UNUSED
    decreases d.len()
{
    if d.len() > 0 && d[0] != UNUSED {
        lemma_used(d.skip(1));
        assert forall|i: int| 0 <= i < used(d) implies d[i] != UNUSED by { if i > 0 { assert(d.skip(1)[i - 1] == d[i]); } }
        if used(d) < d.len() { assert(d.skip(1)[used(d) - 1] == d[used(d)]); }
    }
}
proof fn lemma_used_is(d: Seq<u16>, n: int)
    requires 0 <= n <= d.len(), forall|i: int| 0 <= i < n ==> d[i] != UNUSED, n < d.len() ==> d[n] == UNUSED
    ensures used(d) == n
{
    lemma_used(d);
    if used(d) < n { assert(d[used(d)] != UNUSED); }
    if used(d) > n { assert(d[n] == UNUSED); }
}
proof fn lemma_dsum_mono(d: Seq<u16>, a: int, b: int)
    requires 0 <= a <= b ensures 0 <= dsum(d, a) <= dsum(d, b) decreases b
{ if a < b { lemma_dsum_mono(d, a, b - 1); } else if a > 0 { lemma_dsum_mono(d, a - 1, a - 1); } }
proof fn lemma_dsum_bound(d: Seq<u16>, a: int)
    requires 0 <= a ensures 0 <= dsum(d, a) <= a * 65535 decreases a
{ if a > 0 { lemma_dsum_bound(d, a - 1); assert(a * 65535 == (a - 1) * 65535 + 65535) by (nonlinear_arith); } }
proof fn lemma_dsum_same(d: Seq<u16>, e: Seq<u16>, k: int)
    requires forall|i: int| 0 <= i < k ==> d[i] == e[i] ensures dsum(d, k) == dsum(e, k) decreases k
{ if k > 0 { lemma_dsum_same(d, e, k - 1); } }

impl View for Chunk { type V = Seq<int>;
    /// the offsets stored in a chunk
    closed spec fn view(&self) -> Seq<int> { Seq::new(used(self.deltas@) as nat, |i: int| self.initial + dsum(self.deltas@, i + 1)) } }
impl Chunk {
    spec fn wf(&self) -> bool {
        &&& forall|i: int| used(self.deltas@) <= i < 60 ==> self.deltas@[i] == UNUSED
        &&& self.initial + dsum(self.deltas@, used(self.deltas@)) <= usize::MAX
    }
    spec fn top(&self) -> int { if self@.len() == 0 { self.initial as int } else { self@.last() } }
/*@ src/slice_vector/offsets.rs :: impl Chunk :: fn new
#ret r
#spec
    ensures r.wf(), r@ == Seq::<int>::empty(), r.initial == initial
#tail r
    proof { lemma_used_is(r.deltas@, 0); }
@*/
/*@ src/slice_vector/offsets.rs :: impl Chunk :: fn len
#ret r
#spec
    ensures r == self@.len()
#closure 0 (b: bool) types: &&u16
    ensures b == (**vx_p0 != UNUSED)
#tail r
    proof { lemma_used_is(deltas@, r as int); }
@*/
/*@ src/slice_vector/offsets.rs :: impl Chunk :: fn is_empty
#ret r
#spec
    ensures r == (self@.len() == 0)
#begin
    proof { lemma_used(self.deltas@); }
@*/
/*@ src/slice_vector/offsets.rs :: impl Chunk :: fn is_full
#ret r
#spec
    requires self.wf()
    ensures r == (self@.len() == 60)
#begin
    proof { lemma_used(self.deltas@); }
@*/
/*@ src/slice_vector/offsets.rs :: impl Chunk :: fn get
#ret r
#spec
    requires self.wf(), index < self@.len()
    ensures r == self@[index as int]
#begin
    proof { lemma_used(self.deltas@); }
#loop 0 before
    let ghost res0 = res;
#loop 0
    invariant self.wf(), index < self@.len(), vx_i0 <= vx_e0, vx_e0 == index + 1, res == res0 + dsum(self.deltas@, vx_i0 as int), 0 <= res0 <= self.initial,
        forall|i: int| 0 <= i < used(self.deltas@) ==> self.deltas@[i] != UNUSED, used(self.deltas@) <= 60
    decreases vx_e0 - vx_i0
#loop 0 begin
    proof { lemma_dsum_mono(self.deltas@, i as int + 1, used(self.deltas@)); lemma_dsum_mono(self.deltas@, 0, i as int); }
#loop 0 after
    proof { lemma_dsum_mono(self.deltas@, index as int + 1, used(self.deltas@)); }
@*/
/*@ src/slice_vector/offsets.rs :: impl Chunk :: fn get_consecutive
#ret r
#spec
    requires self.wf(), index + 1 < self@.len()
    ensures r.0 == self@[index as int], r.1 == self@[index + 1]
#begin
    proof { lemma_used(self.deltas@); lemma_dsum_mono(self.deltas@, index as int + 2, used(self.deltas@)); }
@*/
/*@ src/slice_vector/offsets.rs :: impl Chunk :: fn last
#ret r
#spec
    requires self.wf()
    ensures match r { Some(x) => self@.len() > 0 && x == self@.last(), None => self@.len() == 0 }
@*/
/*@ src/slice_vector/offsets.rs :: impl Chunk :: fn push
#spec
    requires old(self).wf()
    ensures final(self).wf(), final(self)@ == old(self)@.push(offset as int), old(self)@.len() < 60, final(self).initial == old(self).initial, old(self).top() <= offset < old(self).top() + 65535
#begin
    proof { lemma_used(self.deltas@); }
    let ghost d0 = self.deltas@;
#end
    proof {
        let n = used(d0);
        lemma_used_is(self.deltas@, n + 1);
        assert forall|k: int| 0 <= k <= n implies dsum(d0, k) == dsum(self.deltas@, k) by { lemma_dsum_same(d0, self.deltas@, k); }
        assert(dsum(self.deltas@, n + 1) == dsum(self.deltas@, n) + self.deltas@[n]);
        assert(self@ =~= old(self)@.push(offset as int));
    }
@*/
/*@ src/slice_vector/offsets.rs :: impl Chunk :: fn push
#name push_accepts
#strict
#spec
    requires old(self).wf(), old(self)@.len() < 60, old(self).top() <= offset < old(self).top() + 65535
#begin
    proof { lemma_used(self.deltas@); }
@*/
}

spec fn offsets_view(c: Seq<Chunk>) -> Seq<int> { Seq::new((60 * (c.len() - 1) + c.last()@.len()) as nat, |i: int| c[i / 60]@[i % 60]) }
spec fn chunks_wf(c: Seq<Chunk>) -> bool {
    &&& 0 < c.len() <= 0x100_0000_0000_0000
    &&& forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).wf()
    &&& forall|i: int| 0 <= i < c.len() - 1 ==> (#[trigger] c[i])@.len() == 60
    &&& c.last()@.len() <= 60
    &&& c.last()@.len() > 0 || c.len() == 1
    &&& forall|i: int| 1 <= i < c.len() ==> (#[trigger] c[i]).initial == c[i]@[0]
}
impl<'a> View for Offsets<'a> { type V = Seq<int>;
    /// the sequence of offsets
    closed spec fn view(&self) -> Seq<int> { offsets_view(self.chunks@) } }
impl<'a> Offsets<'a> {
    spec fn wf(&self) -> bool { chunks_wf(self.chunks@) }
    /// the smallest offset that can be pushed
    spec fn top(&self) -> int { self.chunks@.last().top() }
/*@ src/slice_vector/offsets.rs :: impl Offsets :: fn new
#ret r
#spec
    ensures r.wf(), r@ == Seq::<int>::empty(), r.top() == 0, r.chunks@.len() == 1
#tail r
    proof { assert(r@ =~= Seq::<int>::empty()); }
@*/
/*@ src/slice_vector/offsets.rs :: impl Offsets :: fn push
#spec
    requires old(self).wf(), old(self).chunks@.len() < 0x100_0000_0000_0000
    ensures final(self).wf(), final(self)@ == old(self)@.push(offset as int), final(self).top() == offset, final(self).chunks@.len() <= old(self).chunks@.len() + 1,
        old(self)@.len() % 60 != 0 ==> old(self).top() <= offset < old(self).top() + 65535
#begin
    let ghost c0 = self.chunks@;
    proof { if c0.last()@.len() == 60 { assert((60 * (c0.len() - 1) + 60) % 60 == 0) by (nonlinear_arith); } }
@*/
/*@ src/slice_vector/offsets.rs :: impl Offsets :: fn push
#name push_accepts
#strict
#subst `new_chunk . push ( offset )` => `new_chunk.push_accepts(offset)`
#subst `unwrap ( ) . push ( offset )` => `unwrap().push_accepts(offset)`
#spec
    requires old(self).wf(), old(self).chunks@.len() < 0x100_0000_0000_0000, old(self).top() <= offset < old(self).top() + 65535
@*/
/*@ src/slice_vector/offsets.rs :: impl Offsets :: fn get
#ret r
#spec
    requires self.wf(), index < self@.len()
    ensures r == self@[index as int]
@*/
/*@ src/slice_vector/offsets.rs :: impl Offsets :: fn get_consecutive
#ret r
#spec
    requires self.wf(), index + 1 < self@.len()
    ensures r.0 == self@[index as int], r.1 == self@[index + 1]
@*/
/*@ src/slice_vector/offsets.rs :: impl Offsets :: fn last
#ret r
#subst? `self . chunks . last ( ) ? . last ( )` => `match self.chunks.last() { Some(c) => c.last(), None => None }`
#spec
    requires self.wf()
    ensures match r { Some(x) => self@.len() > 0 && x == self@.last(), None => self@.len() == 0 }
@*/
/*@ src/slice_vector/offsets.rs :: impl Offsets :: fn len
#ret r
#spec
    requires self.wf()
    ensures r == self@.len()
@*/
/*@ src/slice_vector/offsets.rs :: impl Offsets :: fn num_bytes
#ret r
#subst `:: std :: mem :: size_of` => `core::mem::size_of`
#spec
    requires self.wf(), self.chunks@.len() < 0x10_0000_0000_0000
    ensures r == bytes_of(self.chunks@).len()
#begin
    broadcast use group_bytes; broadcast use axiom_chunk_layout;
@*/
/*@ src/slice_vector/offsets.rs :: impl Offsets :: fn write
#ret r
#subst `crate :: io :: write_as_bytes` => `write_as_bytes`
#rtindex
#spec
    requires self.wf(), self.chunks@.len() < 0x10_0000_0000_0000
    ensures r is Ok ==> wrote(*old(buffer), *final(buffer), bytes_of(self.chunks@)) && r->Ok_0 == bytes_of(self.chunks@).len(),
        r is Err || old(buffer).failed() ==> final(buffer).failed()
#begin
    broadcast use axiom_chunk_layout;
    proof { let n = self.chunks@.len() as int; let s = sz::<Chunk>(); assert(s == 128); assert(n * s <= 0x10_0000_0000_0000int * 128) by (nonlinear_arith) requires n < 0x10_0000_0000_0000int, s == 128; }
@*/
/*@ src/slice_vector/offsets.rs :: impl Offsets :: fn from_parts
#ret r
#spec
    ensures r.chunks@ == chunks@
@*/
/*@ src/slice_vector/offsets.rs :: impl Offsets :: fn load
#ret r
#subst `crate :: io :: load_bytes_as` => `load_bytes_as`
#spec
    ensures r.chunks@ == of_bytes::<Chunk>(whole::<Chunk>(buffer@))
#begin
    broadcast use axiom_chunk_layout;
    proof { axiom_addr_one(buffer); }
@*/
/*@ src/slice_vector/offsets.rs :: impl Offsets :: fn borrow
#ret r
#spec
    ensures r.chunks@ == self.chunks@
@*/
/*@ src/slice_vector/offsets.rs :: impl Offsets :: fn into_owned
#ret r
#spec
    ensures r.chunks@ == self.chunks@, r.chunks is Owned
@*/
}
