// FixedWidthSliceVector of src/slice_vector/mod.rs
/*@ src/slice_vector/mod.rs :: enum FixedWidthSliceVector
#subst `memmap :: Mmap` => `Mmap`
@*/
spec fn small_align<T>() -> bool { let a = vstd::layout::align_of::<T>() as int; 0 < a <= 16 && 8int % a == 0 && 4096int % a == 0 && sz::<T>() > 0 }
/// the width and the data of a serialized vector
spec fn fw_width(b: Seq<u8>) -> int { u64_of(b.subrange(0, 8)) as int }
spec fn fw_data<T>(b: Seq<u8>) -> Seq<T> { of_bytes::<T>(whole::<T>(b.subrange(8, b.len() as int))) }
spec fn fw_repr<T>(d: Seq<T>, w: int) -> Seq<u8> { u64_le(w as u64) + bytes_of(d) }
spec fn row<T>(d: Seq<T>, w: int, i: int) -> Seq<T> { d.subrange(i * w, i * w + w) }
spec fn rows<T>(d: Seq<T>, w: int) -> Seq<Seq<T>> { Seq::new(if w > 0 { (d.len() as int / w) as nat } else { 0 }, |i: int| row(d, w, i)) }
spec fn shaped<T>(d: Seq<T>, w: int) -> bool { 0 <= w && (w == 0 ==> d.len() == 0) && (w > 0 ==> d.len() as int % w == 0) }
proof fn lemma_shape(len: int, w: int) requires w > 0, len >= 0, len % w == 0 ensures len == (len / w) * w, len / w >= 0 { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(len, w); assert(w * (len / w) == (len / w) * w) by (nonlinear_arith); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(len, w); }
proof fn lemma_in(i: int, n: int, w: int) requires 0 <= i < n, 0 < w ensures 0 <= i * w, i * w + w <= n * w { assert(i * w + w <= n * w && 0 <= i * w) by (nonlinear_arith) requires 0 <= i < n, 0 < w; }
proof fn lemma_apart(i: int, j: int, w: int) requires i < j, 0 < w ensures i * w + w <= j * w { assert(i * w + w <= j * w) by (nonlinear_arith) requires i < j, 0 < w; }
proof fn lemma_div_exact(n: int, w: int) requires w > 0, n >= 0 ensures (n * w) / w == n, (n * w) % w == 0 { vstd::arithmetic::div_mod::lemma_div_multiples_vanish(n, w); vstd::arithmetic::div_mod::lemma_mod_multiples_basic(n, w); assert(w * n == n * w) by (nonlinear_arith); }
/// appending whole rows
proof fn lemma_rows_append<T>(d: Seq<T>, e: Seq<T>, w: int)
    requires w > 0, shaped(d, w), shaped(e, w)
    ensures shaped(d + e, w), rows(d + e, w) == rows(d, w) + rows(e, w)
{
    lemma_shape(d.len() as int, w); lemma_shape(e.len() as int, w);
    let n = d.len() as int / w; let m = e.len() as int / w;
    assert((d + e).len() == (n + m) * w) by (nonlinear_arith) requires (d + e).len() == n * w + m * w;
    lemma_div_exact(n + m, w);
    assert forall|i: int| 0 <= i < n + m implies row(d + e, w, i) == (rows(d, w) + rows(e, w))[i] by {
        if i < n { lemma_in(i, n, w); assert(row(d + e, w, i) =~= row(d, w, i)); }
        else { lemma_in(i - n, m, w); assert((i - n) * w == i * w - n * w) by (nonlinear_arith); assert(row(d + e, w, i) =~= row(e, w, i - n)); }
    }
    assert(rows(d + e, w) =~= rows(d, w) + rows(e, w));
}
proof fn lemma_one_row<T>(x: Seq<T>) requires x.len() > 0 ensures shaped(x, x.len() as int), rows(x, x.len() as int) == seq![x]
{
    let w = x.len() as int;
    lemma_div_exact(1, w);
    assert(row(x, w, 0) =~= x);
    assert(rows(x, w) =~= seq![x]);
}
/// e is d with row i replaced by x
spec fn row_set<T>(d: Seq<T>, w: int, i: int, x: Seq<T>) -> Seq<T> { Seq::new(d.len(), |k: int| if i * w <= k < i * w + w { x[k - i * w] } else { d[k] }) }
proof fn lemma_row_set<T>(d: Seq<T>, w: int, i: int, x: Seq<T>)
    requires w > 0, shaped(d, w), 0 <= i < d.len() as int / w, x.len() == w
    ensures rows(row_set(d, w, i, x), w) == rows(d, w).update(i, x), shaped(row_set(d, w, i, x), w)
{
    let e = row_set(d, w, i, x);
    let n = d.len() as int / w;
    lemma_shape(d.len() as int, w);
    assert forall|k: int| 0 <= k < n implies row(e, w, k) == rows(d, w).update(i, x)[k] by {
        lemma_in(k, n, w); lemma_in(i, n, w);
        if k < i { lemma_apart(k, i, w); assert(row(e, w, k) =~= row(d, w, k)); }
        else if k > i { lemma_apart(i, k, w); assert(row(e, w, k) =~= row(d, w, k)); }
        else { assert(row(e, w, k) =~= x); }
    }
    assert(rows(e, w) =~= rows(d, w).update(i, x));
}
proof fn lemma_fw_roundtrip<T>(d: Seq<T>, w: int)
    requires sz::<T>() > 0, 0 <= w <= u64::MAX
    ensures fw_data::<T>(fw_repr(d, w)) == d, fw_width(fw_repr(d, w)) == w
{
    broadcast use group_bytes;
    let b = fw_repr(d, w);
    assert(b.subrange(0, 8) =~= u64_le(w as u64)); lemma_u64_of(w as u64);
    assert(b.subrange(8, b.len() as int) =~= bytes_of(d));
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(d.len() as int, sz::<T>());
    assert(whole::<T>(bytes_of(d)) =~= bytes_of(d));
}
impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
    spec fn data(&self) -> Seq<T> { match self { Self::File(m) => fw_data::<T>(m@), Self::Memory(d, w) => d@ } }
    spec fn w(&self) -> int { match self { Self::File(m) => fw_width(m@), Self::Memory(d, w) => *w as int } }
    spec fn wf(&self) -> bool { shaped(self.data(), self.w()) && self.data().len() <= usize::MAX }
}
impl<'a, T: Clone> View for FixedWidthSliceVector<'a, T> { type V = Seq<Seq<T>>;
    /// the sequence of slices
    closed spec fn view(&self) -> Seq<Seq<T>> { rows(self.data(), self.w()) } }
impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
/*@ src/slice_vector/mod.rs :: impl FixedWidthSliceVector :: fn with_width
#ret r
#subst `Vec :: new ( ) . into ( )` => `Cow::Owned(Vec::new())`
#spec
    ensures r.wf(), r.w() == width, r.data() == Seq::<T>::empty(), r@ == Seq::<Seq<T>>::empty()
#tail r
    proof { assert(r.data() =~= Seq::<T>::empty()); if width > 0 { lemma_div_exact(0, width as int); } assert(r@ =~= Seq::<Seq<T>>::empty()); }
@*/
/*@ src/slice_vector/mod.rs :: impl FixedWidthSliceVector :: fn new
#ret r
#spec
    ensures r.wf(), r.w() == 0, r@ == Seq::<Seq<T>>::empty()
@*/
/*@ src/slice_vector/mod.rs :: impl FixedWidthSliceVector :: fn with_data
#ret r
#subst `impl Into < Cow < 'a , [ T ] > >` => `impl IntoCow<'a, T>`
#subst `data . into ( )` => `data . into_cow ( )`
#spec
    ensures r.wf(), r.w() == width, r.data() == data.cow_seq(), width > 0, r@ == rows(data.cow_seq(), width as int)
@*/
/*@ src/slice_vector/mod.rs :: impl FixedWidthSliceVector :: fn with_capacity
#ret r
#subst `Vec :: with_capacity ( width * capacity ) . into ( )` => `Cow::Owned(Vec::with_capacity(width * capacity))`
#spec
    requires width * capacity <= usize::MAX
    ensures r.wf(), r.w() == width, r.data() == Seq::<T>::empty(), width > 0, r@ == Seq::<Seq<T>>::empty()
#tail r
    proof { assert(r.data() =~= Seq::<T>::empty()); lemma_div_exact(0, width as int); assert(r@ =~= Seq::<Seq<T>>::empty()); }
@*/
/*@ src/slice_vector/mod.rs :: impl FixedWidthSliceVector :: fn from_file
#ret r
#subst `std :: fs :: File` => `File`
#subst `std :: io :: Result` => `Result`
#subst `memmap :: Mmap :: map` => `Mmap::map`
#spec
    requires small_align::<T>()
    ensures r is Ok ==> r->Ok_0.wf() && r->Ok_0.data() == fw_data::<T>(file@) && r->Ok_0.w() == fw_width(file@) && file@.len() >= 8
@*/
/*@ src/slice_vector/mod.rs :: impl FixedWidthSliceVector :: fn load_width
#ret r
#rtindex
#spec
    ensures r == fw_width(buffer@), buffer@.len() >= 8
#tail r
    proof { lemma_u64_of(r as u64); }
@*/
/*@ src/slice_vector/mod.rs :: impl FixedWidthSliceVector :: fn load_mmap
#ret r
#rtindex
#subst `crate :: io :: load_bytes_as` => `load_bytes_as`
#spec
    requires small_align::<T>(), addr_mult(buffer, vstd::layout::align_of::<T>() as int)
    ensures r.0@ == fw_data::<T>(buffer@), r.1 == fw_width(buffer@), buffer@.len() >= 8
#begin
    broadcast use axiom_u8_layout;
@*/
/*@ src/slice_vector/mod.rs :: impl FixedWidthSliceVector :: fn from_bytes
#ret r
#rtindex
#subst `io :: load_unaligned_bytes_as` => `load_unaligned_bytes_as`
#spec
    requires small_align::<T>()
    ensures r.wf(), r.data() == fw_data::<T>(buffer@), r.w() == fw_width(buffer@), buffer@.len() >= 8
@*/
/*@ src/slice_vector/mod.rs :: impl FixedWidthSliceVector :: fn load
#ret r
#rtindex
#spec
    requires small_align::<T>()
    ensures r.0@ == self.data(), r.1 == self.w(), self.data().len() <= usize::MAX, self matches FixedWidthSliceVector::File(m) ==> m@.len() >= 8
#tail r
    proof { let _l = r.0.len(); }
@*/
/*@ src/slice_vector/mod.rs :: impl FixedWidthSliceVector :: fn load_mut
#ret r
#rtindex
#spec
    requires small_align::<T>()
    ensures r.0@ == old(self).data(), *r.1 == old(self).w(), final(self).data() == final(r.0)@, final(self).w() == *final(r.1)
@*/
/*@ src/slice_vector/mod.rs :: impl FixedWidthSliceVector :: fn len
#ret r
#spec
    requires small_align::<T>(), self.wf()
    ensures r == self@.len()
@*/
/*@ src/slice_vector/mod.rs :: impl FixedWidthSliceVector :: fn is_empty
#ret r
#spec
    requires small_align::<T>(), self.wf()
    ensures r == (self@.len() == 0)
@*/
/*@ src/slice_vector/mod.rs :: impl FixedWidthSliceVector :: fn width
#ret r
#spec
    requires small_align::<T>()
    ensures r == self.w()
@*/
/*@ src/slice_vector/mod.rs :: impl FixedWidthSliceVector :: fn as_slice
#ret r
#rtindex
#spec
    requires small_align::<T>()
    ensures r@ == self.data()
@*/
/*@ src/slice_vector/mod.rs :: impl FixedWidthSliceVector :: fn get
#ret r
#spec
    requires small_align::<T>(), self.wf(), idx < self@.len()
    ensures r@ == self@[idx as int], r@.len() == self.w()
#begin
    proof { lemma_shape(self.data().len() as int, self.w()); lemma_in(idx as int, self@.len() as int, self.w()); assert((idx + 1) * self.w() == idx * self.w() + self.w()) by (nonlinear_arith); }
@*/
/*@ src/slice_vector/mod.rs :: impl FixedWidthSliceVector :: fn get_mut
#ret r
#rtindex
#spec
    requires small_align::<T>(), old(self).wf(), idx < old(self)@.len()
    ensures r@ == old(self)@[idx as int], r@.len() == old(self).w(), final(r)@.len() == r@.len(), final(self).wf(), final(self).w() == old(self).w(), final(self)@ == old(self)@.update(idx as int, final(r)@)
#begin
    let ghost d0 = self.data(); let ghost w0 = self.w();
    proof {
        lemma_shape(d0.len() as int, w0); lemma_in(idx as int, self@.len() as int, w0);
        assert forall|x: Seq<T>| x.len() == w0 implies #[trigger] splice(d0, idx * w0, x) == row_set(d0, w0, idx as int, x) && rows(row_set(d0, w0, idx as int, x), w0) == rows(d0, w0).update(idx as int, x) && shaped(row_set(d0, w0, idx as int, x), w0) by { lemma_row_set(d0, w0, idx as int, x); assert(splice(d0, idx * w0, x) =~= row_set(d0, w0, idx as int, x)); }
    }
@*/

/*@ src/slice_vector/mod.rs :: impl FixedWidthSliceVector :: fn get_two_mut
#ret r
#rtindex
#strict
#spec
    requires small_align::<T>(), old(self).wf(), idx0 < old(self)@.len(), idx1 < old(self)@.len(), idx0 != idx1
    ensures r.0@ == old(self)@[idx0 as int], r.1@ == old(self)@[idx1 as int], r.0@.len() == old(self).w(), r.1@.len() == old(self).w(), final(r.0)@.len() == r.0@.len(), final(r.1)@.len() == r.1@.len(),
        final(self).wf(), final(self).w() == old(self).w(), final(self)@ == old(self)@.update(idx0 as int, final(r.0)@).update(idx1 as int, final(r.1)@)
#begin
    let ghost d0 = self.data(); let ghost w0 = self.w();
    proof {
        lemma_shape(d0.len() as int, w0); lemma_in(idx0 as int, self@.len() as int, w0); lemma_in(idx1 as int, self@.len() as int, w0);
        let (lo, hi) = if idx0 < idx1 { (idx0 as int, idx1 as int) } else { (idx1 as int, idx0 as int) };
        lemma_apart(lo, hi, w0);
        let left = d0.subrange(0, hi * w0); let right = d0.subrange(hi * w0, d0.len() as int);
        assert forall|x: Seq<T>, y: Seq<T>| #![trigger splice(left, lo * w0, x), splice(right, 0, y)] x.len() == w0 && y.len() == w0 implies two_set(left, lo * w0, x, right, y) == row_set(row_set(d0, w0, lo, x), w0, hi, y)
            && rows(two_set(left, lo * w0, x, right, y), w0) == rows(d0, w0).update(lo, x).update(hi, y) && shaped(two_set(left, lo * w0, x, right, y), w0)
            && rows(d0, w0).update(lo, x).update(hi, y) == rows(d0, w0).update(hi, y).update(lo, x) by {
            lemma_row_set(d0, w0, lo, x);
            lemma_row_set(row_set(d0, w0, lo, x), w0, hi, y);
            assert(two_set(left, lo * w0, x, right, y) =~= row_set(row_set(d0, w0, lo, x), w0, hi, y));
            assert(rows(d0, w0).update(lo, x).update(hi, y) =~= rows(d0, w0).update(hi, y).update(lo, x));
        }
        assert(left.subrange(lo * w0, lo * w0 + w0) =~= row(d0, w0, lo));
        assert(right.subrange(0, w0) =~= row(d0, w0, hi));
    }
@*/
/*@ src/slice_vector/mod.rs :: impl FixedWidthSliceVector :: fn push
#ret r
#spec
    requires small_align::<T>(), old(self).wf(), old(self).w() > 0 || new_data@.len() > 0
    ensures final(self).wf(), final(self).w() == new_data@.len(), old(self).w() == 0 || old(self).w() == new_data@.len(), final(self)@ == old(self)@.push(new_data@), final(self).data() == old(self).data() + new_data@
#begin
    broadcast use axiom_cloned;
    let ghost d0 = self.data(); let ghost w0 = self.w();
    proof {
        let w = new_data@.len() as int;
        if w > 0 && (w0 == 0 || w0 == w) {
            lemma_one_row(new_data@); lemma_rows_append(d0, new_data@, w);
            assert(rows(d0, w) + seq![new_data@] =~= rows(d0, w).push(new_data@));
            if w0 == 0 { lemma_div_exact(0, w); assert(rows(d0, w) =~= rows(d0, w0)); }
        }
    }
#at before `assert_eq ! ( * width , new_data . len ( ) )`
    // what is rejected leaves the collection as it was
    proof { assert(data@ == d0 && (w0 != 0 ==> *width == w0)); }
#end
    proof { let _l = data.len(); assert(data@ =~= d0 + new_data@); }
@*/
/*@ src/slice_vector/mod.rs :: impl FixedWidthSliceVector :: fn extend_from_slice_vector
#ret r
#spec
    requires small_align::<T>(), old(self).wf(), other.wf()
    ensures final(self).wf(), final(self).w() == other.w(), old(self).w() == 0 || old(self).w() == other.w(), final(self)@ == old(self)@ + other@, final(self).data() == old(self).data() + other.data()
#begin
    broadcast use axiom_cloned;
    let ghost d0 = self.data(); let ghost w0 = self.w();
    proof {
        let w = other.w(); let e = other.data();
        if w > 0 && (w0 == 0 || w0 == w) {
            if w0 == 0 { lemma_div_exact(0, w); assert(rows(d0, w) =~= rows(d0, w0)); }
            lemma_rows_append(d0, e, w);
        } else if w == 0 && w0 == 0 { assert(d0 + e =~= Seq::<T>::empty()); assert(rows(d0, 0) + rows(e, 0) =~= rows(d0 + e, 0)); }
    }
#at before `assert_eq ! ( * width , other_width )`
    proof { assert(data@ == d0 && (w0 != 0 ==> *width == w0)); }
#end
    proof { let _l = data.len(); assert(data@ =~= d0 + other.data()); }
@*/
/*@ src/slice_vector/mod.rs :: impl FixedWidthSliceVector :: fn subslice
#ret r
#rtindex
#spec
    requires small_align::<T>(), self.wf(), begin <= end <= self@.len(), self.w() > 0
    ensures r.wf(), r.w() == self.w(), r@ == self@.subrange(begin as int, end as int)
#begin
    let ghost d = self.data(); let ghost w = self.w(); let ghost b0 = begin as int; let ghost e0 = end as int; let ghost n = d.len() as int / w;
    proof {
        lemma_shape(d.len() as int, w);
        assert(0 <= b0 * w <= e0 * w <= n * w) by (nonlinear_arith) requires 0 <= b0 <= e0 <= n, w > 0;
        assert(e0 * w - b0 * w == (e0 - b0) * w) by (nonlinear_arith);
        lemma_div_exact(e0 - b0, w);
        let s = d.subrange(b0 * w, e0 * w);
        assert forall|k: int| 0 <= k < e0 - b0 implies #[trigger] row(s, w, k) == rows(d, w)[b0 + k] by { lemma_in(k, e0 - b0, w); lemma_in(b0 + k, n, w); assert((b0 + k) * w == b0 * w + k * w) by (nonlinear_arith); assert(row(s, w, k) =~= row(d, w, b0 + k)); }
        assert(rows(s, w) =~= rows(d, w).subrange(b0, e0));
    }
@*/
/*@ src/slice_vector/mod.rs :: impl FixedWidthSliceVector :: fn reserve
#spec
    requires small_align::<T>(), old(self).wf(), additional * old(self).w() <= usize::MAX
    ensures final(self).wf(), final(self)@ == old(self)@, final(self).w() == old(self).w(), final(self).data() == old(self).data()
@*/
/*@ src/slice_vector/mod.rs :: impl FixedWidthSliceVector :: fn reserve_exact
#spec
    requires small_align::<T>(), old(self).wf(), additional * old(self).w() <= usize::MAX
    ensures final(self).wf(), final(self)@ == old(self)@, final(self).w() == old(self).w(), final(self).data() == old(self).data()
@*/
/*@ src/slice_vector/mod.rs :: impl FixedWidthSliceVector :: fn resize
#spec
    requires small_align::<T>(), old(self).wf(), new_len * old(self).w() <= usize::MAX, old(self).w() > 0
    ensures final(self).wf(), final(self).w() == old(self).w(), final(self)@.len() == new_len,
        forall|i: int| 0 <= i < new_len && i < old(self)@.len() ==> #[trigger] final(self)@[i] == old(self)@[i],
        forall|i: int| old(self)@.len() <= i < new_len ==> #[trigger] final(self)@[i] == Seq::new(old(self).w() as nat, |k: int| value)
#begin
    broadcast use axiom_cloned;
    let ghost d = self.data(); let ghost w = self.w(); let ghost n = d.len() as int / w;
    proof { lemma_shape(d.len() as int, w); lemma_div_exact(new_len as int, w); }
#end
    proof {
        let e = data@;
        assert forall|i: int| 0 <= i < new_len && i < n implies #[trigger] row(e, w, i) == row(d, w, i) by { lemma_in(i, n, w); lemma_in(i, new_len as int, w); assert(row(e, w, i) =~= row(d, w, i)); }
        assert forall|i: int| n <= i < new_len implies #[trigger] row(e, w, i) == Seq::new(w as nat, |k: int| value) by { lemma_in(i, new_len as int, w); assert(n * w <= i * w) by (nonlinear_arith) requires n <= i, w > 0; assert(row(e, w, i) =~= Seq::new(w as nat, |k: int| value)); }
    }
@*/
/*@ src/slice_vector/mod.rs :: impl FixedWidthSliceVector :: fn borrow
#ret r
#spec
    requires small_align::<T>()
    ensures r.data() == self.data(), r.w() == self.w(), r@ == self@, self.wf() ==> r.wf()
@*/
/*@ src/slice_vector/mod.rs :: impl FixedWidthSliceVector :: fn into_owned
#ret r
#rtindex
#spec
    requires small_align::<T>()
    ensures r.data() == self.data(), r.w() == self.w(), r@ == self@, self.wf() ==> r.wf()
@*/
/*@ src/slice_vector/mod.rs :: impl FixedWidthSliceVector :: fn write
#ret r
#rtindex
#subst `std :: mem :: size_of` => `core::mem::size_of`
#subst `core :: mem :: size_of :: < u64 > ( )` => `8`
#subst `io :: write_as_bytes` => `write_as_bytes`
#spec
    requires small_align::<T>(), self.data().len() * sz::<T>() + 8 <= usize::MAX
    ensures r is Ok ==> wrote(*old(buffer), *final(buffer), fw_repr(self.data(), self.w())) && r->Ok_0 == fw_repr(self.data(), self.w()).len(),
        r is Err || old(buffer).failed() ==> final(buffer).failed()
#begin
    broadcast use group_bytes, lemma_wrote;
@*/
/*@ src/slice_vector/mod.rs :: impl FixedWidthSliceVector :: fn permute
#spec
    requires small_align::<T>(), old(self).wf(), permutation@.len() == old(self)@.len() ==> is_perm(permutation@)
    ensures permutation@.len() == old(self)@.len(), final(self).wf(), final(self).w() == old(self).w(), final(self)@ == permuted(old(self)@, permutation@)
#begin
    let ghost o = self@; let ghost p = permutation@;
#loop 0 inv
    invariant small_align::<T>(), self.wf(), self.w() == old(self).w(), vx_e0 == permutation@.len(), p == permutation@, o == old(self)@, is_perm(p), p.len() == o.len(), self@.len() == o.len(), visited@.len() == o.len(), 0 <= vx_i0 <= vx_e0,
        perm_state(o, p, self@, visited@),
        forall|k: int| 0 <= k < vx_i0 ==> #[trigger] visited@[k],
        forall|k: int| 0 <= k < p.len() ==> visited@[k] == #[trigger] visited@[p[k] as int],
    decreases vx_e0 - vx_i0
#at before `let mut j = i`
    let ghost mut pred: int = 0;
#loop 1 inv
    invariant small_align::<T>(), self.wf(), self.w() == old(self).w(), p == permutation@, o == old(self)@, is_perm(p), p.len() == o.len(), self@.len() == o.len(), visited@.len() == o.len(), i < p.len(),
        perm_state(o, p, self@, visited@), loop_begin@ == o[i as int], loop_begin@.len() == self.w(),
        forall|k: int| 0 <= k < i ==> #[trigger] visited@[k],
        0 <= j < p.len(), !visited@[j as int],
        forall|k: int| 0 <= k < p.len() && visited@[k] ==> #[trigger] visited@[p[k] as int] || p[k] == j,
        forall|k: int| 0 <= k < p.len() && #[trigger] visited@[p[k] as int] ==> visited@[k] || p[k] == i,
        j == i || (visited@[i as int] && 0 <= pred < p.len() && visited@[pred] && p[pred] == j),
    decreases count_false(visited@)
#loop 1 begin
    proof {
        assert(p[p[j as int] as int] < p.len());
        assert(p[j as int] != j);
        assert(!visited@[p[j as int] as int]);
        pred = j as int;
        lemma_count_false(visited@, j as int);
    }
@*/
}
impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
/*@ src/slice_vector/mod.rs :: impl Clone for FixedWidthSliceVector :: fn clone
#ret r
#rtindex
#spec
    requires small_align::<T>()
    ensures r.data() == self.data(), r.w() == self.w(), r@ == self@, self.wf() ==> r.wf()
@*/
}
/// the slices in the order of p
spec fn permuted<E>(o: Seq<E>, p: Seq<usize>) -> Seq<E> { Seq::new(o.len(), |i: int| o[p[i] as int]) }
spec fn is_perm(p: Seq<usize>) -> bool { (forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] < p.len()) && forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && #[trigger] p[i] == #[trigger] p[j] ==> i == j }
spec fn perm_state<E>(o: Seq<E>, p: Seq<usize>, c: Seq<E>, v: Seq<bool>) -> bool { forall|k: int| #![trigger v[k]] #![trigger c[k]] 0 <= k < o.len() ==> c[k] == if v[k] { o[p[k] as int] } else { o[k] } }
spec fn count_false(v: Seq<bool>) -> nat decreases v.len() { if v.len() == 0 { 0 } else { count_false(v.drop_last()) + if v.last() { 0nat } else { 1nat } } }
proof fn lemma_count_false(v: Seq<bool>, j: int)
    requires 0 <= j < v.len(), !v[j]
    ensures count_false(v.update(j, true)) + 1 == count_false(v)
    decreases v.len()
{
    if j == v.len() - 1 { assert(v.update(j, true).drop_last() =~= v.drop_last()); }
    else { assert(v.update(j, true).drop_last() =~= v.drop_last().update(j, true)); lemma_count_false(v.drop_last(), j); }
}
spec fn two_set<T>(left: Seq<T>, a: int, x: Seq<T>, right: Seq<T>, y: Seq<T>) -> Seq<T> { splice(left, a, x) + splice(right, 0, y) }
