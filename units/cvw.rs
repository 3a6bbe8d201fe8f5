// CompressedVariableWidthSliceVector of src/slice_vector/offsets.rs
/*@ src/slice_vector/offsets.rs :: enum CompressedVariableWidthSliceVector
#subst `memmap :: Mmap` => `Mmap`
@*/
/// offsets start at 0, never decrease and end at n
spec fn bounds_ok(o: Seq<int>, n: int) -> bool {
    &&& o.len() >= 1 && o[0] == 0 && o.last() == n
    &&& forall|i: int, j: int| 0 <= i <= j < o.len() ==> o[i] <= o[j]
}
/// the lists with boundaries o in d
spec fn lists<T>(o: Seq<int>, d: Seq<T>) -> Seq<Seq<T>> { Seq::new((o.len() - 1) as nat, |i: int| d.subrange(o[i], o[i + 1])) }
proof fn lemma_lists_push<T>(o: Seq<int>, d: Seq<T>, x: Seq<T>)
    requires bounds_ok(o, d.len() as int)
    ensures bounds_ok(o.push((d + x).len() as int), (d + x).len() as int), lists(o.push((d + x).len() as int), d + x) == lists(o, d).push(x)
{
    let p = o.push((d + x).len() as int);
    assert forall|i: int| 0 <= i < o.len() - 1 implies lists(p, d + x)[i] == lists(o, d)[i] by { assert(o[i] <= o[i + 1] && o[i + 1] <= o[o.len() - 1]); assert((d + x).subrange(p[i], p[i + 1]) =~= d.subrange(o[i], o[i + 1])); }
    assert((d + x).subrange(o.last(), (d + x).len() as int) =~= x);
    assert(lists(p, d + x) =~= lists(o, d).push(x));
}
/// the chunks and the data of a serialized vector
spec fn cvw_chunks(b: Seq<u8>) -> Seq<Chunk> { of_bytes::<Chunk>(whole::<Chunk>(b.subrange(8, 8 + u64_of(b.subrange(0, 8))))) }
spec fn cvw_data<T>(b: Seq<u8>) -> Seq<T> { of_bytes::<T>(whole::<T>(b.subrange(8 + u64_of(b.subrange(0, 8)), b.len() as int))) }
spec fn cvw_repr<T>(c: Seq<Chunk>, d: Seq<T>) -> Seq<u8> { u64_le(bytes_of(c).len() as u64) + bytes_of(c) + bytes_of(d) }
spec fn cvw_ok<T>(c: Seq<Chunk>, d: Seq<T>) -> bool { sz::<T>() > 0 && vstd::layout::align_of::<T>() == 1 && chunks_wf(c) && c.len() < 0x10_0000_0000_0000 && bounds_ok(offsets_view(c), d.len() as int) }
/// what is written is read back
proof fn lemma_cvw_roundtrip<T>(c: Seq<Chunk>, d: Seq<T>)
    requires sz::<T>() > 0, bytes_of(c).len() <= u64::MAX
    ensures cvw_chunks(cvw_repr(c, d)) == c, cvw_data::<T>(cvw_repr(c, d)) == d
{
    broadcast use group_bytes; broadcast use axiom_chunk_layout;
    let b = cvw_repr(c, d);
    let n = bytes_of(c).len() as int;
    assert(b.subrange(0, 8) =~= u64_le(n as u64));
    axiom_u64_le_inj(n as u64, u64_of(b.subrange(0, 8)));
    assert(b.subrange(8, 8 + n) =~= bytes_of(c));
    assert(b.subrange(8 + n, b.len() as int) =~= bytes_of(d));
    assert((c.len() * sz::<Chunk>()) % sz::<Chunk>() == 0) by (nonlinear_arith) requires sz::<Chunk>() == 128;
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(d.len() as int, sz::<T>());
    assert(whole::<Chunk>(bytes_of(c)) =~= bytes_of(c));
    assert(whole::<T>(bytes_of(d)) =~= bytes_of(d));
}
impl<'a, T: Clone> CompressedVariableWidthSliceVector<'a, T> {
    spec fn chunks(&self) -> Seq<Chunk> { match self { Self::File(m) => cvw_chunks(m@), Self::Memory(o, d) => o.chunks@ } }
    spec fn data(&self) -> Seq<T> { match self { Self::File(m) => cvw_data::<T>(m@), Self::Memory(o, d) => d@ } }
    spec fn wf(&self) -> bool { cvw_ok(self.chunks(), self.data()) }
}
impl<'a, T: Clone> View for CompressedVariableWidthSliceVector<'a, T> { type V = Seq<Seq<T>>;
    /// the sequence of lists
    closed spec fn view(&self) -> Seq<Seq<T>> { lists(offsets_view(self.chunks()), self.data()) } }
impl<'a, T: Clone> CompressedVariableWidthSliceVector<'a, T> {
/*@ src/slice_vector/offsets.rs :: impl CompressedVariableWidthSliceVector :: fn new
#ret r
#spec
    requires sz::<T>() > 0, vstd::layout::align_of::<T>() == 1
    ensures r.wf(), r@ == Seq::<Seq<T>>::empty(), r.chunks().len() <= 2
#tail r
    proof { assert(r@ =~= Seq::<Seq<T>>::empty()); }
@*/
/*@ src/slice_vector/offsets.rs :: impl CompressedVariableWidthSliceVector :: fn load_mmap
#ret r
#rtindex
#subst `crate :: io :: load_bytes_as` => `load_bytes_as`
#spec
    requires sz::<T>() > 0, vstd::layout::align_of::<T>() == 1
    ensures r.0.chunks@ == cvw_chunks(buffer@), r.1@ == cvw_data::<T>(buffer@), buffer@.len() >= 8
#begin
    broadcast use group_bytes;
#at after `let ( offsets , data )`
    proof {
        assert(buffer@.subrange(0, 8).len() == 8);
        assert(num_bytes == u64_of(buffer@.subrange(0, 8))) by { let x = num_bytes as u64; assert(u64_le(x) == buffer@.subrange(0, 8)); axiom_u64_le_inj(x, u64_of(buffer@.subrange(0, 8))); }
        assert(offsets@ =~= buffer@.subrange(8, 8 + num_bytes));
        assert(data@ =~= buffer@.subrange(8 + num_bytes, buffer@.len() as int));
        axiom_addr_one(data);
    }
@*/
/*@ src/slice_vector/offsets.rs :: impl CompressedVariableWidthSliceVector :: fn from_bytes
#ret r
#spec
    requires sz::<T>() > 0, vstd::layout::align_of::<T>() == 1
    ensures r.chunks() == cvw_chunks(buffer@), r.data() == cvw_data::<T>(buffer@), buffer@.len() >= 8
@*/
/*@ src/slice_vector/offsets.rs :: impl CompressedVariableWidthSliceVector :: fn load
#ret r
#rtindex
#spec
    requires sz::<T>() > 0, vstd::layout::align_of::<T>() == 1
    ensures r.0.chunks@ == self.chunks(), r.1@ == self.data()
@*/
/*@ src/slice_vector/offsets.rs :: impl CompressedVariableWidthSliceVector :: fn load_mut
#ret r
#spec
    requires sz::<T>() > 0, vstd::layout::align_of::<T>() == 1
    ensures r.0.chunks@ == old(self).chunks(), r.1@ == old(self).data(),
        final(self).chunks() == final(r.0).chunks@, final(self).data() == final(r.1)@
@*/
/*@ src/slice_vector/offsets.rs :: impl CompressedVariableWidthSliceVector :: fn get
#ret r
#spec
    requires self.wf(), idx < self@.len()
    ensures r@ == self@[idx as int]
@*/
/*@ src/slice_vector/offsets.rs :: impl CompressedVariableWidthSliceVector :: fn len
#ret r
#spec
    requires self.wf()
    ensures r == self@.len()
@*/
/*@ src/slice_vector/offsets.rs :: impl CompressedVariableWidthSliceVector :: fn push
#spec
    requires old(self).wf(), old(self).chunks().len() < 0x10_0000_0000_0000 - 1
    ensures final(self).wf(), final(self)@ == old(self)@.push(new_data@), final(self).chunks().len() <= old(self).chunks().len() + 1
#begin
    broadcast use axiom_cloned;
    let ghost o0 = offsets_view(self.chunks());
    let ghost d0 = self.data();
#end
    proof { assert(self.data() =~= d0 + new_data@); lemma_lists_push(o0, d0, new_data@); }
@*/
/*@ src/slice_vector/offsets.rs :: impl CompressedVariableWidthSliceVector :: fn push
#name push_accepts
#subst `offsets . push (` => `offsets . push_accepts (`
#spec
    requires old(self).wf(), old(self).chunks().len() < 0x10_0000_0000_0000 - 1, new_data@.len() < 65535
@*/
/*@ src/slice_vector/offsets.rs :: impl CompressedVariableWidthSliceVector :: fn write
#ret r
#rtindex
#subst `io :: write_as_bytes` => `write_as_bytes`
#spec
    requires self.wf(), self.data().len() * sz::<T>() < 0x7fff_ffff_ffff_fff8 - 0x80_0000_0000_0000
    ensures r is Ok ==> wrote(*old(buffer), *final(buffer), cvw_repr(self.chunks(), self.data())) && r->Ok_0 == cvw_repr(self.chunks(), self.data()).len(),
        r is Err || old(buffer).failed() ==> final(buffer).failed()
#begin
    broadcast use group_bytes; broadcast use axiom_chunk_layout; broadcast use lemma_wrote;
    proof { assert(self.chunks().len() < 0x10_0000_0000_0000); assert(bytes_of(self.chunks()).len() == self.chunks().len() * 128); assert(bytes_of(self.data()).len() == self.data().len() * sz::<T>()); }
@*/
/*@ src/slice_vector/offsets.rs :: impl CompressedVariableWidthSliceVector :: fn borrow
#ret r
#spec
    requires sz::<T>() > 0, vstd::layout::align_of::<T>() == 1
    ensures r.chunks() == self.chunks(), r.data() == self.data()
@*/
/*@ src/slice_vector/offsets.rs :: impl CompressedVariableWidthSliceVector :: fn into_owned
#ret r
#rtindex
#spec
    requires sz::<T>() > 0, vstd::layout::align_of::<T>() == 1
    ensures r.chunks() == self.chunks(), r.data() == self.data()
@*/
}
