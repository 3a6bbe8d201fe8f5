// MultiSetVector of src/slice_vector/set_vector.rs
/*@ src/slice_vector/set_vector.rs :: struct MultiSetVector @*/
spec fn storable(s: Seq<u32>) -> bool { s.len() <= 254 && nondec(s) }
/// the list stored as b
spec fn dec(b: Seq<u8>) -> Seq<u32> { choose|s: Seq<u32>| storable(s) && enc(s) == b }
spec fn decs(d: Seq<Seq<u8>>) -> Seq<Seq<u32>> { Seq::new(d.len(), |i: int| dec(d[i])) }
/// no two lists are stored in the same way
proof fn lemma_enc_inj(s: Seq<u32>, t: Seq<u32>) requires storable(s), storable(t), enc(s) == enc(t) ensures s == t
{
    let a = deltas(s); let b = deltas(t);
    assert(enc(s)[0] == s.len() as u8 && enc(t)[0] == t.len() as u8);
    assert(s.len() == t.len());
    let x = if svb(padded(a)).len() >= 4 * s.len() { raw(a) } else { svb(padded(a)) };
    let y = if svb(padded(b)).len() >= 4 * t.len() { raw(b) } else { svb(padded(b)) };
    assert(x =~= y) by { assert(enc(s).subrange(1, enc(s).len() as int) =~= x); assert(enc(t).subrange(1, enc(t).len() as int) =~= y); }
    lemma_raw(a); lemma_raw(b);
    if svb(padded(a)).len() >= 4 * s.len() {
        assert(svb(padded(b)).len() >= 4 * t.len());
        assert forall|i: int| 0 <= i < s.len() implies a[i] == b[i] by { assert(raw(a).subrange(4 * i, 4 * i + 4) == u32_le(a[i])); assert(raw(b).subrange(4 * i, 4 * i + 4) == u32_le(b[i])); axiom_u32_le_inj(a[i], b[i]); }
    } else {
        axiom_svb_inj(padded(a), padded(b));
        assert forall|i: int| 0 <= i < s.len() implies a[i] == b[i] by { assert(padded(a)[i] == a[i] && padded(b)[i] == b[i]); }
    }
    lemma_sums(s, t, s.len() as int);
    assert(s =~= t);
}
proof fn lemma_sums(s: Seq<u32>, t: Seq<u32>, n: int) requires nondec(s), nondec(t), 0 <= n <= s.len(), s.len() == t.len(), forall|i: int| 0 <= i < n ==> deltas(s)[i] == deltas(t)[i] ensures forall|i: int| 0 <= i < n ==> s[i] == t[i] decreases n
{ if n > 0 { lemma_sums(s, t, n - 1); let i = n - 1; assert(deltas(s)[i] == deltas(t)[i]); if i > 0 { assert(s[i - 1] <= s[i] && t[i - 1] <= t[i]); assert(s[i - 1] == t[i - 1]); } } }
/// s, the sorted form of d, has been appended
spec fn pushed<'a>(v: MultiSetVector<'a>, ls: Seq<Seq<u32>>, s: Seq<u32>, d: Seq<u32>) -> bool { v.holds(ls.push(s)) && s.to_multiset() == d.to_multiset() && nondec(s) }
impl<'a> MultiSetVector<'a> {
    /// the lists it holds
    spec fn sets(&self) -> Seq<Seq<u32>> { decs(self.data@) }
    /// the vector holds these lists
    spec fn holds(&self, ls: Seq<Seq<u32>>) -> bool {
        &&& self.data.wf() && self.data@.len() == ls.len()
        &&& forall|i: int| 0 <= i < ls.len() ==> storable(#[trigger] ls[i]) && self.data@[i] == enc(ls[i])
    }
    proof fn lemma_holds(&self, ls: Seq<Seq<u32>>) requires self.holds(ls) ensures self.sets() == ls, self.holds(self.sets())
    { assert forall|i: int| 0 <= i < ls.len() implies #[trigger] dec(self.data@[i]) == ls[i] by { assert(storable(ls[i]) && enc(ls[i]) == self.data@[i]); lemma_enc_inj(ls[i], dec(self.data@[i])); } assert(self.sets() =~= ls); }
/*@ src/slice_vector/set_vector.rs :: impl MultiSetVector :: fn new
#ret r
#spec
    ensures r.holds(Seq::empty()), r.data.chunks().len() <= 2
#begin
    broadcast use axiom_u8_layout;
@*/
/*@ src/slice_vector/set_vector.rs :: impl MultiSetVector :: fn len
#sig fn len(self: &Self, Ghost(ls): Ghost<Seq<Seq<u32>>>) -> (r: usize)
#spec
    requires self.holds(ls)
    ensures r == ls.len()
@*/
/*@ src/slice_vector/set_vector.rs :: impl MultiSetVector :: fn push_sorted
#sig fn push_sorted(self: &mut Self, data: Vec<u32>, Ghost(ls): Ghost<Seq<Seq<u32>>>)
#spec
    requires old(self).holds(ls), storable(data@), old(self).data.chunks().len() < 0x10_0000_0000_0000 - 1
    ensures final(self).holds(ls.push(data@)), final(self).data.chunks().len() <= old(self).data.chunks().len() + 1
@*/
/*@ src/slice_vector/set_vector.rs :: impl MultiSetVector :: fn push_sorted
#name push_sorted_accepts
#sig fn push_sorted_accepts(self: &mut Self, data: Vec<u32>, Ghost(ls): Ghost<Seq<Seq<u32>>>)
#subst `self . data . push (` => `self . data . push_accepts (`
#spec
    requires old(self).holds(ls), storable(data@), old(self).data.chunks().len() < 0x10_0000_0000_0000 - 1
#begin
    proof { lemma_enc_len(data@); }
@*/
/*@ src/slice_vector/set_vector.rs :: impl MultiSetVector :: fn push
#sig fn push(self: &mut Self, data: &[u32], Ghost(ls): Ghost<Seq<Seq<u32>>>) 
#subst `self . push_sorted ( data )` => `self . push_sorted ( data , Ghost ( ls ) )`
#at before `self . push_sorted`
    let ghost s = data@;
    proof { assert forall|i: int, j: int| 0 <= i <= j < s.len() implies s[i] <= s[j] by { assert(!(s[i].cmp_spec(&s[j]) is Greater)); } }
#end
    proof { assert(pushed(*self, ls, s, d0)); }
#begin
    let ghost d0 = data@;
#spec
    requires old(self).holds(ls), data@.len() <= 254, old(self).data.chunks().len() < 0x10_0000_0000_0000 - 1
    ensures exists|s: Seq<u32>| #[trigger] pushed(*final(self), ls, s, data@), final(self).data.chunks().len() <= old(self).data.chunks().len() + 1
@*/
/*@ src/slice_vector/set_vector.rs :: impl MultiSetVector :: fn get_into
#sig fn get_into(self: &Self, idx: usize, res: &mut Vec<u32>, Ghost(ls): Ghost<Seq<Seq<u32>>>)
#subst `decode_into ( & encoded_data , res )` => `decode_into ( & encoded_data , res , Ghost ( ls[idx as int] ) )`
#spec
    requires self.holds(ls), idx < ls.len()
    ensures final(res)@ == ls[idx as int]
@*/
/*@ src/slice_vector/set_vector.rs :: impl MultiSetVector :: fn get
#sig fn get(self: &Self, idx: usize, Ghost(ls): Ghost<Seq<Seq<u32>>>) -> (r: Vec<u32>)
#subst `self . get_into ( idx , & mut decoded_nums )` => `self.get_into(idx, &mut decoded_nums, Ghost(ls))`
#spec
    requires self.holds(ls), idx < ls.len()
    ensures r@ == ls[idx as int]
@*/
/*@ src/slice_vector/set_vector.rs :: impl MultiSetVector :: fn from_bytes
#ret r
#spec
    ensures r.data.chunks() == cvw_chunks(buffer@), r.data.data() == cvw_data::<u8>(buffer@), buffer@.len() >= 8
#begin
    broadcast use axiom_u8_layout;
@*/
/*@ src/slice_vector/set_vector.rs :: impl MultiSetVector :: fn borrow
#ret r
#spec
    ensures r.data.chunks() == self.data.chunks(), r.data.data() == self.data.data()
#begin
    broadcast use axiom_u8_layout;
@*/
}
proof fn lemma_enc_len(s: Seq<u32>) requires s.len() <= 254 ensures enc(s).len() <= 2000 { lemma_raw(deltas(s)); axiom_svb_len(padded(deltas(s))); }
