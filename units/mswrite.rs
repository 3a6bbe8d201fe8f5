// write_as_multi_set_vector of src/slice_vector/set_vector.rs
impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
/*@ src/slice_vector/mod.rs :: impl FixedWidthSliceVector :: fn iter
#name slices
#sig fn slices<'b>(self: &'b Self) -> (r: It<&'b [T]>) where 'a: 'b
#subst `data . chunks ( width )` => `chunks ( data , width )`
#spec
    requires small_align::<T>(), self.wf(), self.w() > 0
    ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self@[i]
#begin
    proof { lemma_shape(self.data().len() as int, self.w()); }
@*/
}
/// slice::chunks, for a whole number of chunks
#[verifier::external_body]
fn chunks<'b, T>(d: &'b [T], w: usize) -> (r: It<&'b [T]>)
    requires w > 0, d@.len() as int % w as int == 0
    ensures r@.len() == d@.len() as int / w as int, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == row(d@, w as int, i)
{ unimplemented!() }
/// x is what writing the layer it holds gives
spec fn canonical(x: Seq<u8>) -> bool { x == cvw_repr(cvw_chunks(x), cvw_data::<u8>(x)) }
/// the layer x holds exactly the selected ids of every row, sorted
spec fn same_sets(x: Seq<u8>, d: Seq<Seq<u32>>, keep: spec_fn(u32) -> bool) -> bool {
    seg_ok(x) && canonical(x) && seg_sets(x).len() == d.len() && forall|i: int| 0 <= i < d.len() ==> nondec(#[trigger] seg_sets(x)[i]) && seg_sets(x)[i].to_multiset() == d[i].filter(keep).to_multiset()
}
/// lists that have been encoded one after the other
spec fn encoded_lists(o: Seq<int>, data: Seq<u8>, ls: Seq<Seq<u32>>) -> bool {
    bounds_ok(o, data.len() as int) && ls.len() + 1 == o.len() && forall|i: int| 0 <= i < ls.len() ==> storable(#[trigger] ls[i]) && lists(o, data)[i] == enc(ls[i])
}
spec fn sorted_rows(ls: Seq<Seq<u32>>, d: Seq<Seq<u32>>, keep: spec_fn(u32) -> bool) -> bool {
    ls.len() <= d.len() && forall|i: int| 0 <= i < ls.len() ==> nondec(#[trigger] ls[i]) && ls[i].to_multiset() == d[i].filter(keep).to_multiset()
}
proof fn lemma_layer_written(c: Seq<Chunk>, data: Seq<u8>, ls: Seq<Seq<u32>>, d: Seq<Seq<u32>>, keep: spec_fn(u32) -> bool)
    requires chunks_wf(c), c.len() < 0x10_0000_0000_0000, encoded_lists(offsets_view(c), data, ls), sorted_rows(ls, d, keep), ls.len() == d.len()
    ensures same_sets(cvw_repr(c, data), d, keep)
{
    broadcast use group_bytes; broadcast use axiom_chunk_layout; broadcast use axiom_u8_layout;
    let x = cvw_repr(c, data);
    assert(bytes_of(c).len() == c.len() * 128);
    lemma_cvw_roundtrip::<u8>(c, data);
    let l = lists(offsets_view(c), data);
    assert forall|i: int| 0 <= i < l.len() implies storable(#[trigger] decs(l)[i]) && l[i] == enc(decs(l)[i]) && decs(l)[i] == ls[i] by { assert(storable(ls[i]) && enc(ls[i]) == l[i]); lemma_enc_inj(ls[i], dec(l[i])); }
    assert(seg_sets(x) == decs(l));
    assert forall|i: int| 0 <= i < d.len() implies nondec(#[trigger] seg_sets(x)[i]) && seg_sets(x)[i].to_multiset() == d[i].filter(keep).to_multiset() by { assert(decs(l)[i] == ls[i]); }
}
/// head, then data behind a gap of o.len() bytes, then o into the gap
proof fn lemma_filled(c: Seq<u8>, p: int, h: Seq<u8>, o: Seq<u8>, d: Seq<u8>)
    requires 0 <= p
    ensures overwrite(overwrite(overwrite(c, p, h), p + h.len() + o.len(), d), p + h.len(), o) == overwrite(c, p, h + o + d)
{ assert(overwrite(overwrite(overwrite(c, p, h), p + h.len() + o.len(), d), p + h.len(), o) =~= overwrite(c, p, h + o + d)); }
proof fn lemma_filter_empty(p: spec_fn(u32) -> bool) ensures Seq::<u32>::empty().filter(p) == Seq::<u32>::empty() { reveal(Seq::filter); }
proof fn lemma_filter_step(q: Seq<u32>, i: int, p: spec_fn(u32) -> bool) requires 0 <= i < q.len() ensures q.subrange(0, i + 1).filter(p) == if p(q[i]) { q.subrange(0, i).filter(p).push(q[i]) } else { q.subrange(0, i).filter(p) }
{ reveal(Seq::filter); assert(q.subrange(0, i + 1).drop_last() =~= q.subrange(0, i)); }
proof fn lemma_filter_len(q: Seq<u32>, p: spec_fn(u32) -> bool) ensures q.filter(p).len() <= q.len() decreases q.len()
{ reveal(Seq::filter); if q.len() > 0 { lemma_filter_len(q.drop_last(), p); } }
proof fn lemma_lists_next(o: Seq<int>, data: Seq<u8>, ls: Seq<Seq<u32>>, s: Seq<u32>)
    requires encoded_lists(o, data, ls), storable(s)
    ensures encoded_lists(o.push((data + enc(s)).len() as int), data + enc(s), ls.push(s))
{
    lemma_lists_push(o, data, enc(s));
    let r = ls.push(s); let l = lists(o.push((data + enc(s)).len() as int), data + enc(s));
    assert forall|i: int| 0 <= i < r.len() implies storable(#[trigger] r[i]) && l[i] == enc(r[i]) by { if i < ls.len() { assert(storable(ls[i])); assert(l[i] == lists(o, data)[i]); } }
}
impl<'a> FixedWidthSliceVector<'a, u32> {
/*@ src/slice_vector/set_vector.rs :: impl FixedWidthSliceVector :: fn write_as_multi_set_vector
#sig fn write_as_multi_set_vector<B: Seek, P: Fn(&u32) -> bool>(self: &Self, buffer: &mut B, Ghost(keep): Ghost<spec_fn(u32) -> bool>, predicate: P) -> (r: Result<usize>)
#subst `super :: offsets :: OFFSETS_PER_CHUNK` => `OFFSETS_PER_CHUNK`
#subst `:: std :: mem :: size_of :: < super :: offsets :: Chunk > ( )` => `core::mem::size_of::<Chunk>()`
#subst `super :: Offsets` => `Offsets`
#subst `self . iter ( )` => `self.slices()`
#subst `u32 :: try_from ( val . clone ( ) ) . unwrap ( )` => `*val`
#spec
    requires self.wf(), self@.len() <= u32::MAX, self.w() <= 254, old(buffer).pos() < 0x4000_0000_0000_0000, forall|x: u32| predicate.requires((&x,)), forall|x: u32, b: bool| predicate.ensures((&x,), b) ==> b == keep(x)
    ensures r is Err || old(buffer).failed() ==> final(buffer).failed(),
        r is Ok ==> exists|x: Seq<u8>| #[trigger] wrote(*old(buffer), *final(buffer), x) && same_sets(x, self@, keep) && r->Ok_0 == x.len() <= 0x1000_0000_0000
#begin
    broadcast use group_bytes; broadcast use axiom_chunk_layout; broadcast use axiom_u8_layout; broadcast use axiom_cloned;
    let ghost b0 = *buffer; let ghost p = buffer.pos(); let ghost d = self@; let ghost mut ls: Seq<Seq<u32>> = Seq::empty(); let ghost mut data: Seq<u8> = Seq::empty();
    proof { axiom_u32_layout(); if self.w() > 0 { lemma_shape(self.data().len() as int, self.w()); } }
#at before `let mut offset_pos`
    let ghost head = u64_le(bytes_for_offsets as u64);
    let ghost bfo = bytes_for_offsets as int;
    proof { let n = d.len() as int; assert(0 <= n / 60 <= n); assert(0 <= bfo == (1 + n / 60) * 128); }
#at after `offsets . push ( 0 )`
    proof { assert(offsets@ =~= seq![0int]); assert(offsets.chunks@.len() <= 2); }
#at before `let mut slice_buffer`
    let ghost o0 = buffer.out(); let ghost p1 = buffer.pos();
    proof { assert(bytes_of(data) =~= Seq::<u8>::empty()); assert(overwrite(o0, p1, bytes_of(data)) == o0); assert(lists(offsets@, data) =~= Seq::<Seq<u8>>::empty()); }
#loops 2
#loop 0
    invariant small_align::<u32>(), sz::<u8>() == 1, vx_v0@.len() == d.len(), forall|k: int| 0 <= k < d.len() ==> (#[trigger] vx_v0@[k])@ == d[k], vx_i0 <= d.len(), d == self@, self.wf(), 0 < self.w() <= 254, d.len() <= u32::MAX,
        forall|x: u32| predicate.requires((&x,)), forall|x: u32, b: bool| predicate.ensures((&x,), b) ==> b == keep(x),
        ls.len() == vx_i0, sorted_rows(ls, d, keep), encoded_lists(offsets@, data, ls), offsets.wf(), offsets.chunks@.len() <= 2 + vx_i0, total_len == data.len(), data.len() <= 2000 * vx_i0,
        0 <= p1 < 0x5000_0000_0000_0000, buffer.pos() == p1 + data.len(), buffer.out() == overwrite(o0, p1, bytes_of(data)), b0.failed() == buffer.failed(), b0.dest() == buffer.dest(),
    decreases d.len() - vx_i0
#loop 0 begin
    let ghost q = slice@;
    proof { lemma_in(vx_i0 - 1, d.len() as int, self.w()); lemma_shape(self.data().len() as int, self.w()); assert(q.len() == self.w()); }
#loop 0 end
    proof {}
#loop 1
    invariant vx_v1@.len() == q.len(), forall|k: int| 0 <= k < q.len() ==> *(#[trigger] vx_v1@[k]) == q[k], vx_i1 <= q.len(), slice_buffer@ == q.subrange(0, vx_i1 as int).filter(keep),
        forall|x: u32| predicate.requires((&x,)), forall|x: u32, b: bool| predicate.ensures((&x,), b) ==> b == keep(x),
    decreases q.len() - vx_i1
#loop 1 before
    proof { assert(q.subrange(0, 0) =~= Seq::<u32>::empty()); lemma_filter_empty(keep); assert(slice_buffer@ =~= Seq::<u32>::empty()); }
#loop 1 begin
    proof { lemma_filter_step(q, vx_i1 as int - 1, keep); }
#loop 1 after
    proof { assert(q.subrange(0, q.len() as int) =~= q); lemma_filter_len(q, keep); }
    let ghost kept = slice_buffer@;
#at before `let encoded =`
    proof { assert(slice_buffer@.to_multiset().len() == kept.to_multiset().len()); }
    let ghost s = slice_buffer@;
    proof { assert forall|i: int, j: int| 0 <= i <= j < s.len() implies s[i] <= s[j] by { assert(!(OrdSpec::cmp_spec(&s[i], &s[j]) is Greater)); } lemma_enc_len(s); }
#at after `offsets . push ( total_len )`
    proof {
        let e = enc(s);
        axiom_bytes_concat(data, e); lemma_overwrite(o0, p1, bytes_of(data), bytes_of(e));
        let k = ls.len() as int;
        axiom_bytes_len::<u8>(data + e); axiom_bytes_len::<u8>(data); axiom_bytes_len::<u8>(e); assert(data.len() * 1 == data.len() && e.len() * 1 == e.len()); assert(sz::<u8>() == 1); assert(bytes_of(data + e).len() == (data + e).len());
        assert forall|i: int| 0 <= i < ls.push(s).len() implies nondec(#[trigger] ls.push(s)[i]) && ls.push(s)[i].to_multiset() == d[i].filter(keep).to_multiset() by { if i < k { assert(ls.push(s)[i] == ls[i]); } }
        lemma_lists_next(offsets@.drop_last(), data, ls, s);
        assert(offsets@.drop_last().push((data + e).len() as int) =~= offsets@);
        ls = ls.push(s); data = data + e;
    }
#at before `let bytes_written =`
    proof {
        let c = offsets.chunks@; let h = bytes_of(c);
        lemma_filled(b0.out(), p, head, h, bytes_of(data));
        lemma_layer_written(c, data, ls, d, keep);
        let x = cvw_repr(c, data);
        assert(x =~= head + h + bytes_of(data));
        assert(wrote(b0, *buffer, x));
    }
@*/
}
