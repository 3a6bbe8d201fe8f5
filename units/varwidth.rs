// VariableWidthSliceVector of src/slice_vector/mod.rs
/*@ src/slice_vector/mod.rs :: enum VariableWidthSliceVector
#subst `memmap :: Mmap` => `Mmap`
@*/
/// no allocation and no slice exceeds isize::MAX bytes
axiom fn axiom_slice_max<T>(s: &[T]) requires sz::<T>() > 0 ensures s@.len() <= isize::MAX;
axiom fn axiom_vec_max<T>(s: &Vec<T>) requires sz::<T>() > 0 ensures s@.len() <= isize::MAX;
/// Offset::try_from: panics or fails unless the value is stored exactly
#[verifier::external_body]
fn off_from<O: VxOffset>(n: usize) -> (r: core::result::Result<O, ()>) ensures r is Ok ==> r->Ok_0.val() == n { unimplemented!() }
#[verifier::external_body]
fn usize_from<O: VxOffset>(o: O) -> (r: core::result::Result<usize, ()>) ensures r is Ok ==> r->Ok_0 == o.val() { unimplemented!() }
spec fn bytewise<T>() -> bool { sz::<T>() > 0 && vstd::layout::align_of::<T>() == 1 }
spec fn ints<O: VxOffset>(o: Seq<O>) -> Seq<int> { o.map_values(|x: O| x.val()) }
spec fn vw_shaped(o: Seq<int>, n: int) -> bool { o.len() >= 1 && o[0] == 0 && o.last() == n && forall|i: int, j: int| 0 <= i <= j < o.len() ==> #[trigger] o[i] <= #[trigger] o[j] }
/// slice i is between offset i and offset i + 1
spec fn vlists<T>(o: Seq<int>, d: Seq<T>) -> Seq<Seq<T>> { Seq::new((o.len() - 1) as nat, |i: int| d.subrange(o[i], o[i + 1])) }
spec fn vw_count(b: Seq<u8>) -> int { u64_of(b.subrange(0, 8)) as int }
spec fn vw_split<O>(b: Seq<u8>) -> int { 8 + (1 + vw_count(b)) * sz::<O>() }
spec fn vw_offs<O>(b: Seq<u8>) -> Seq<O> { of_bytes::<O>(whole::<O>(b.subrange(8, vw_split::<O>(b)))) }
spec fn vw_data<T, O>(b: Seq<u8>) -> Seq<T> { of_bytes::<T>(whole::<T>(b.subrange(vw_split::<O>(b), b.len() as int))) }
spec fn vw_repr<T, O>(o: Seq<O>, d: Seq<T>) -> Seq<u8> { u64_le((o.len() - 1) as u64) + bytes_of(o) + bytes_of(d) }
proof fn lemma_whole<T>(s: Seq<T>) requires sz::<T>() > 0 ensures whole::<T>(bytes_of(s)) == bytes_of(s)
{ broadcast use group_bytes; vstd::arithmetic::div_mod::lemma_mod_multiples_basic(s.len() as int, sz::<T>()); assert(whole::<T>(bytes_of(s)) =~= bytes_of(s)); }
/// what was written is read back
proof fn lemma_vw_roundtrip<T, O>(o: Seq<O>, d: Seq<T>)
    requires sz::<T>() > 0, sz::<O>() > 0, 1 <= o.len() <= u64::MAX
    ensures vw_offs::<O>(vw_repr(o, d)) == o, vw_data::<T, O>(vw_repr(o, d)) == d
{
    broadcast use group_bytes;
    let b = vw_repr(o, d);
    assert(b.subrange(0, 8) =~= u64_le((o.len() - 1) as u64)); lemma_u64_of((o.len() - 1) as u64);
    assert(vw_split::<O>(b) == 8 + o.len() * sz::<O>());
    assert(b.subrange(8, vw_split::<O>(b)) =~= bytes_of(o));
    assert(b.subrange(vw_split::<O>(b), b.len() as int) =~= bytes_of(d));
    lemma_whole(o); lemma_whole(d);
}
proof fn lemma_vlists_push<T>(o: Seq<int>, d: Seq<T>, x: Seq<T>)
    requires vw_shaped(o, d.len() as int)
    ensures vw_shaped(o.push((d.len() + x.len()) as int), (d + x).len() as int), vlists(o.push((d.len() + x.len()) as int), d + x) == vlists(o, d).push(x)
{
    let o2 = o.push((d.len() + x.len()) as int); let l = vlists(o2, d + x);
    assert forall|i: int| 0 <= i < o.len() implies #[trigger] l[i] == vlists(o, d).push(x)[i] by {
        assert(o[i] <= o.last() && o[0] <= o[i]);
        if i < o.len() - 1 { assert(o[i] <= o[i + 1] && o[i + 1] <= o.last()); assert(l[i] =~= vlists(o, d)[i]); } else { assert(l[i] =~= x); }
    }
    assert(l =~= vlists(o, d).push(x));
}
/// o followed by the offsets of e, moved
spec fn shifted(e: Seq<int>, k: int) -> Seq<int> { Seq::new((e.len() - 1) as nat, |i: int| e[i + 1] + k) }
proof fn lemma_vlists_append<T>(o: Seq<int>, d: Seq<T>, e: Seq<int>, f: Seq<T>)
    requires vw_shaped(o, d.len() as int), vw_shaped(e, f.len() as int)
    ensures vw_shaped(o + shifted(e, d.len() as int), (d + f).len() as int), vlists(o + shifted(e, d.len() as int), d + f) == vlists(o, d) + vlists(e, f)
{
    let n = o.len() - 1; let m = e.len() - 1; let s = o + shifted(e, d.len() as int); let l = vlists(s, d + f);
    assert forall|i: int, j: int| 0 <= i <= j < s.len() implies #[trigger] s[i] <= #[trigger] s[j] by {
        if i <= n { assert(o[i] <= o[n]); } 
        if j > n { assert(e[0] <= e[j - n]); if i > n { assert(e[i - n] <= e[j - n]); } }
    }
    assert forall|i: int| 0 <= i < n + m implies #[trigger] l[i] == (vlists(o, d) + vlists(e, f))[i] by {
        if i < n { assert(o[0] <= o[i] && o[i] <= o[i + 1] && o[i + 1] <= o[n]); assert(l[i] =~= vlists(o, d)[i]); }
        else { assert(e[0] <= e[i - n] && e[i - n] <= e[i - n + 1] && e[i - n + 1] <= e[m]); assert(l[i] =~= vlists(e, f)[i - n]); }
    }
    assert(l =~= vlists(o, d) + vlists(e, f));
}
proof fn lemma_vlists_range<T>(o: Seq<int>, d: Seq<T>, b: int, e: int, p: Seq<int>)
    requires vw_shaped(o, d.len() as int), 0 <= b <= e < o.len(), p.len() == e - b + 1, forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] == o[b + i] - o[b]
    ensures vw_shaped(p, o[e] - o[b]), vlists(p, d.subrange(o[b], o[e])) == vlists(o, d).subrange(b, e), 0 <= o[b] <= o[e] <= d.len()
{
    assert(o[0] <= o[b] && o[b] <= o[e] && o[e] <= o[o.len() - 1]);
    assert forall|i: int, j: int| 0 <= i <= j < p.len() implies #[trigger] p[i] <= #[trigger] p[j] by { assert(o[b + i] <= o[b + j]); }
    let l = vlists(p, d.subrange(o[b], o[e]));
    assert forall|i: int| 0 <= i < e - b implies #[trigger] l[i] == vlists(o, d).subrange(b, e)[i] by {
        assert(o[b] <= o[b + i] && o[b + i] <= o[b + i + 1] && o[b + i + 1] <= o[e]);
        assert(l[i] =~= d.subrange(o[b + i], o[b + i + 1]));
    }
    assert(l =~= vlists(o, d).subrange(b, e));
}
impl<'a, T: Clone, Offset: VxOffset> VariableWidthSliceVector<'a, T, Offset> {
    spec fn offs(&self) -> Seq<Offset> { match self { Self::File(m) => vw_offs::<Offset>(m@), Self::Memory(o, d) => o@ } }
    spec fn data(&self) -> Seq<T> { match self { Self::File(m) => vw_data::<T, Offset>(m@), Self::Memory(o, d) => d@ } }
    /// a mapped file has a valid header
    spec fn file_ok(&self) -> bool { match self { Self::File(m) => m@.len() >= 8 && vw_split::<Offset>(m@) <= m@.len(), _ => true } }
    spec fn wf(&self) -> bool { self.file_ok() && vw_shaped(ints(self.offs()), self.data().len() as int) && self.data().len() <= isize::MAX && self.offs().len() <= usize::MAX }
    spec fn repr(&self) -> Seq<u8> { vw_repr(self.offs(), self.data()) }
}
impl<'a, T: Clone, Offset: VxOffset> View for VariableWidthSliceVector<'a, T, Offset> { type V = Seq<Seq<T>>;
    closed spec fn view(&self) -> Seq<Seq<T>> { vlists(ints(self.offs()), self.data()) } }
impl<'a, T: Clone, Offset: VxOffset> VariableWidthSliceVector<'a, T, Offset> {
/*@ src/slice_vector/mod.rs :: impl VariableWidthSliceVector :: fn new
#ret r
#subst `. into ( )` => `. into_cow ( )`
#subst `Offset :: try_from` => `off_from :: < Offset >`
#subst `. unwrap ( )` => `. rt_unwrap ( )`
#subst `vec ! [ off_from :: < Offset > ( 0 ) . rt_unwrap ( ) ]` => `vx_vec1 ( off_from :: < Offset > ( 0 ) . rt_unwrap ( ) )`
#spec
    ensures r.wf(), r.hdr(), r@ == Seq::<Seq<T>>::empty()
#tail r
    proof { assert(ints(r.offs()) =~= seq![0int]); assert(r@ =~= Seq::<Seq<T>>::empty()); }
@*/
/*@ src/slice_vector/mod.rs :: impl VariableWidthSliceVector :: fn split_mmap
#ret r
#rtindex
#subst `( 1 + num_slices ) * offset_len` => `wr_mul ( wr_add ( 1 , num_slices ) , offset_len )`
#subst `:: std :: mem :: size_of` => `core::mem::size_of`
#spec
    ensures r.0@.len() + r.1@.len() + 8 == buffer@.len(), bytes_ok::<Offset>(buffer@) ==> r.0@ == buffer@.subrange(8, vw_split::<Offset>(buffer@)) && r.1@ == buffer@.subrange(vw_split::<Offset>(buffer@), buffer@.len() as int) && vw_split::<Offset>(buffer@) <= buffer@.len()
#at before `let offset_len`
    proof { lemma_u64_of(num_slices as u64); }
#tail r
    proof { if bytes_ok::<Offset>(buffer@) { assert(1 + vw_count(buffer@) <= usize::MAX) by (nonlinear_arith) requires (1 + vw_count(buffer@)) * sz::<Offset>() <= usize::MAX, sz::<Offset>() >= 1, vw_count(buffer@) >= 0; assert(r.0@ =~= buffer@.subrange(8, vw_split::<Offset>(buffer@))); assert(r.1@ =~= buffer@.subrange(vw_split::<Offset>(buffer@), buffer@.len() as int)); } }
@*/
/*@ src/slice_vector/mod.rs :: impl VariableWidthSliceVector :: fn load_mmap
#ret r
#subst `crate :: io :: load_bytes_as` => `load_bytes_as`
#spec
    requires bytewise::<T>(), bytewise::<Offset>()
    ensures bytes_ok::<Offset>(buffer@) ==> r.0@ == vw_offs::<Offset>(buffer@) && r.1@ == vw_data::<T, Offset>(buffer@) && vw_split::<Offset>(buffer@) <= buffer@.len()
#at after `let ( offsets , data )`
    proof { axiom_addr_one(offsets); axiom_addr_one(data); }
@*/
/*@ src/slice_vector/mod.rs :: impl VariableWidthSliceVector :: fn from_bytes
#ret r
#subst `io :: load_unaligned_bytes_as` => `load_unaligned_bytes_as`
#spec
    requires sz::<T>() > 0, sz::<Offset>() > 0, vstd::layout::align_of::<T>() > 0, vstd::layout::align_of::<Offset>() > 0
    ensures bytes_ok::<Offset>(buffer@) ==> r.offs() == vw_offs::<Offset>(buffer@) && r.data() == vw_data::<T, Offset>(buffer@) && r.file_ok() && r.hdr() && vw_split::<Offset>(buffer@) <= buffer@.len()
@*/
/*@ src/slice_vector/mod.rs :: impl VariableWidthSliceVector :: fn from_file
#ret r
#subst `std :: fs :: File` => `File`
#subst `std :: io :: Result` => `Result`
#subst `memmap :: Mmap :: map` => `Mmap::map`
#spec
    requires bytewise::<T>(), bytewise::<Offset>()
    ensures r is Ok && bytes_ok::<Offset>(file@) ==> r->Ok_0.offs() == vw_offs::<Offset>(file@) && r->Ok_0.data() == vw_data::<T, Offset>(file@) && r->Ok_0.file_ok()
@*/
/*@ src/slice_vector/mod.rs :: impl VariableWidthSliceVector :: fn load
#ret r
#rtindex
#spec
    requires bytewise::<T>(), bytewise::<Offset>()
    ensures self.hdr() ==> r.0@ == self.offs() && r.1@ == self.data() && self.file_ok() && self.data().len() <= isize::MAX && self.offs().len() <= usize::MAX
#tail r
    proof { axiom_slice_max(r.1); let _k = r.0.len(); }
@*/
/*@ src/slice_vector/mod.rs :: impl VariableWidthSliceVector :: fn load_mut
#ret r
#rtindex
#spec
    requires bytewise::<T>(), bytewise::<Offset>()
    ensures old(self).hdr() ==> r.0@ == old(self).offs() && r.1@ == old(self).data(), final(self).offs() == final(r.0)@, final(self).data() == final(r.1)@, final(self).file_ok(), final(self).hdr()
@*/
    /// the header of a mapped file is not absurd
    spec fn hdr(&self) -> bool { match self { Self::File(m) => bytes_ok::<Offset>(m@), _ => true } }
/*@ src/slice_vector/mod.rs :: impl VariableWidthSliceVector :: fn len
#ret r
#spec
    requires bytewise::<T>(), bytewise::<Offset>(), self.hdr(), self.wf()
    ensures r == self@.len()
@*/
/*@ src/slice_vector/mod.rs :: impl VariableWidthSliceVector :: fn is_empty
#ret r
#spec
    requires bytewise::<T>(), bytewise::<Offset>(), self.hdr(), self.wf()
    ensures r == (self@.len() == 0)
@*/
/*@ src/slice_vector/mod.rs :: impl VariableWidthSliceVector :: fn get
#ret r
#rtindex
#subst `usize :: try_from` => `usize_from`
#subst `. unwrap ( )` => `. rt_unwrap ( )`
#spec
    requires bytewise::<T>(), bytewise::<Offset>(), self.hdr(), self.wf(), idx < self@.len()
    ensures r@ == self@[idx as int]
@*/
/*@ src/slice_vector/mod.rs :: impl VariableWidthSliceVector :: fn push
#subst `Offset :: try_from` => `off_from :: < Offset >`
#subst `. unwrap ( )` => `. rt_unwrap ( )`
#spec
    requires bytewise::<T>(), bytewise::<Offset>(), old(self).hdr(), old(self).wf()
    ensures final(self).wf(), final(self).hdr(), final(self)@ == old(self)@.push(new_data@)
#begin
    broadcast use axiom_cloned;
    let ghost o0 = ints(self.offs()); let ghost d0 = self.data();
    proof { lemma_vlists_push(o0, d0, new_data@); }
#end
    proof { assert(data@ =~= d0 + new_data@); assert(ints(offsets@) =~= o0.push((d0.len() + new_data@.len()) as int)); axiom_vec_max(data); let _k = offsets.len(); }
@*/
/*@ src/slice_vector/mod.rs :: impl VariableWidthSliceVector :: fn extend_from_slice_vector
#rtindex
#subst `usize :: try_from` => `usize_from`
#subst `Offset :: try_from` => `off_from :: < Offset >`
#subst `. unwrap ( )` => `. rt_unwrap ( )`
#subst `* offsets . last ( ) . rt_unwrap ( )` => `* offsets . last ( ) . unwrap ( )`
#subst `offsets . extend (` => `vec_extend ( offsets ,`
#closure 0 (b: Offset) types: &Offset
    requires prev_len + (*vx_p0).val() <= usize::MAX ensures b.val() == prev_len + (*vx_p0).val()
#spec
    requires bytewise::<T>(), bytewise::<Offset>(), old(self).hdr(), old(self).wf(), other.hdr(), other.wf()
    ensures final(self).wf(), final(self).hdr(), final(self)@ == old(self)@ + other@
#begin
    broadcast use axiom_cloned;
    let ghost o0 = ints(self.offs()); let ghost d0 = self.data(); let ghost e = ints(other.offs());
    proof { lemma_vlists_append(o0, d0, e, other.data()); assert(o0.last() == self.offs().last().val()); assert forall|i: int| 0 <= i < e.len() implies #[trigger] e[i] <= e.last() by {} }
#at before `vec_extend ( offsets ,`
    proof { assert forall|i: int| 0 <= i < other_offsets@.len() implies (#[trigger] other_offsets@[i]).val() <= other_data@.len() by { assert(e[i] == other_offsets@[i].val()); } }
#end
    proof {
        assert(data@ =~= d0 + other.data());
        assert(ints(offsets@) =~= o0 + shifted(e, d0.len() as int));
        axiom_vec_max(data); let _k = offsets.len();
    }
@*/
/*@ src/slice_vector/mod.rs :: impl VariableWidthSliceVector :: fn borrow
#ret r
#spec
    requires bytewise::<T>(), bytewise::<Offset>(), self.hdr()
    ensures r.offs() == self.offs(), r.data() == self.data(), r@ == self@, r.hdr(), self.wf() ==> r.wf()
@*/
/*@ src/slice_vector/mod.rs :: impl Clone for VariableWidthSliceVector :: fn clone
#ret r
#rtindex
#spec
    requires bytewise::<T>(), bytewise::<Offset>(), self.hdr()
    ensures r.offs() == self.offs(), r.data() == self.data(), r@ == self@, r.hdr(), self.wf() ==> r.wf()
@*/
/*@ src/slice_vector/mod.rs :: impl VariableWidthSliceVector :: fn write
#ret r
#rtindex
#subst `std :: mem :: size_of` => `core::mem::size_of`
#subst `core :: mem :: size_of :: < u64 > ( )` => `8`
#subst `io :: write_as_bytes` => `write_as_bytes`
#spec
    requires bytewise::<T>(), bytewise::<Offset>(), self.hdr(), self.wf(), self.offs().len() * sz::<Offset>() + self.data().len() * sz::<T>() + 8 <= usize::MAX
    ensures r is Ok ==> wrote(*old(buffer), *final(buffer), self.repr()) && r->Ok_0 == self.repr().len(),
        r is Err || old(buffer).failed() ==> final(buffer).failed()
#begin
    broadcast use group_bytes, lemma_wrote;
@*/
/*@ src/slice_vector/mod.rs :: impl VariableWidthSliceVector :: fn write_range
#ret r
#rtindex
#subst `std :: mem :: size_of` => `core::mem::size_of`
#subst `core :: mem :: size_of :: < u64 > ( )` => `8`
#subst `io :: write_as_bytes` => `write_as_bytes`
#subst `usize :: try_from` => `usize_from`
#subst `Offset :: try_from` => `off_from :: < Offset >`
#subst `. unwrap ( )` => `. rt_unwrap ( )`
#spec
    requires bytewise::<T>(), bytewise::<Offset>(), self.hdr(), self.wf(), self.offs().len() * sz::<Offset>() + self.data().len() * sz::<T>() + 8 <= usize::MAX
    ensures begin <= end <= self@.len(),
        r is Ok ==> exists|o: Seq<Offset>, d: Seq<T>| #![trigger vw_repr(o, d)] wrote(*old(buffer), *final(buffer), vw_repr(o, d)) && r->Ok_0 == vw_repr(o, d).len() && vw_shaped(ints(o), d.len() as int) && vlists(ints(o), d) == self@.subrange(begin as int, end as int),
        r is Err || old(buffer).failed() ==> final(buffer).failed()
#begin
    broadcast use group_bytes, lemma_wrote;
    let ghost oi = ints(self.offs()); let ghost b0 = *buffer;
    proof { assert forall|i: int| 0 <= i < oi.len() implies 0 <= #[trigger] oi[i] <= self.data().len() by { assert(oi[0] <= oi[i] && oi[i] <= oi.last()); } }
#loop 0 before
    let ghost mut o: Seq<Offset> = Seq::empty();
    let ghost hdr = u64_le((end - begin) as u64);
    proof { assert(bytes_of(o) =~= Seq::<u8>::empty()); assert(hdr + bytes_of(o) =~= hdr); }
#loop 0 inv
    invariant bytewise::<T>(), bytewise::<Offset>(), self.hdr(), self.wf(), self.offs() == offsets@, self.data() == data@, self.offs().len() * sz::<Offset>() + self.data().len() * sz::<T>() + 8 <= usize::MAX,
        oi == ints(self.offs()), begin <= end < offsets@.len(), hdr == u64_le((end - begin) as u64), hdr.len() == 8, offset_begin == oi[begin as int],
        forall|i: int| 0 <= i < oi.len() ==> 0 <= #[trigger] oi[i] <= self.data().len(),
        vx_v0@.len() == end - begin + 1, forall|i: int| 0 <= i < vx_v0@.len() ==> *(#[trigger] vx_v0@[i]) == offsets@[begin + i], 0 <= vx_i0 <= vx_v0@.len(),
        o.len() == vx_i0, forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]).val() == oi[begin + i] - oi[begin as int],
        wrote(*old(buffer), *buffer, hdr + bytes_of(o)), bytes_written == 8 + bytes_of(o).len(),
    decreases vx_v0@.len() - vx_i0
#loop 0 begin
    broadcast use group_bytes, lemma_wrote;
    proof { assert(oi[begin + vx_i0 - 1] >= oi[begin as int]); assert(oi[begin + vx_i0 - 1] == offsets@[begin + vx_i0 - 1].val()); }
    proof { let z = sz::<Offset>(); let l = self.offs().len() as int; assert((vx_i0 - 1) * z + z <= l * z && 0 <= (vx_i0 - 1) * z && seq![offset].len() * z == z) by (nonlinear_arith) requires 1 <= vx_i0 <= l, z > 0, seq![offset].len() == 1; assert([offset]@ =~= seq![offset]); assert(self.data().len() * sz::<T>() >= 0) by (nonlinear_arith) requires sz::<T>() > 0; }
#loop 0 end
    proof {
        axiom_bytes_concat(o, seq![offset]); let oo = o; o = o.push(offset); assert(oo + seq![offset] =~= o);
        assert([offset]@ =~= seq![offset]);
        assert(wrote(*old(buffer), *buffer, (hdr + bytes_of(oo)) + bytes_of(seq![offset])));
        assert((hdr + bytes_of(oo)) + bytes_of(seq![offset]) =~= hdr + bytes_of(o));
        assert((vx_i0 - 1) * sz::<Offset>() + sz::<Offset>() == vx_i0 * sz::<Offset>()) by (nonlinear_arith);
    }
#at before `let data_begin`
    proof { lemma_vlists_range(oi, self.data(), begin as int, end as int, ints(o)); assert(o.len() * sz::<Offset>() + (oi[end as int] - oi[begin as int]) * sz::<T>() <= self.offs().len() * sz::<Offset>() + self.data().len() * sz::<T>()) by (nonlinear_arith) requires o.len() <= self.offs().len(), sz::<Offset>() > 0, sz::<T>() > 0, oi[end as int] - oi[begin as int] <= self.data().len(); }
#tail r
    proof {
        let d = self.data().subrange(oi[begin as int], oi[end as int]);
        assert((hdr + bytes_of(o)) + bytes_of(d) =~= vw_repr(o, d));
        assert(wrote(*old(buffer), *buffer, vw_repr(o, d)));
    }
@*/
}
/// the header's count is not absurd: the offsets it announces do not exceed the address space
spec fn bytes_ok<O>(b: Seq<u8>) -> bool { (1 + vw_count(b)) * sz::<O>() <= usize::MAX && sz::<O>() > 0 }
fn vx_vec1<T>(x: T) -> (r: Vec<T>) ensures r@ == seq![x] { let mut v = Vec::new(); v.push(x); v }
