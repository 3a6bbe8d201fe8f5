// set_encode, decode_into, delta_encode and delta_decode of src/slice_vector/set_vector.rs
/*@ src/slice_vector/set_vector.rs :: const MIN_NUMBERS_TO_ENCODE @*/
spec fn nondec(s: Seq<u32>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> s[i] <= s[j] }
spec fn deltas(s: Seq<u32>) -> Seq<u32> { Seq::new(s.len(), |i: int| if i == 0 { s[0] } else { (s[i] - s[i - 1]) as u32 }) }
/// the concatenated little-endian bytes
spec fn raw(s: Seq<u32>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { raw(s.drop_last()) + u32_le(s.last()) } }
/// the stream_vbyte encoding of numbers; trusted: its length and that decoding inverts it
uninterp spec fn svb(s: Seq<u32>) -> Seq<u8>;
axiom fn axiom_svb_len(s: Seq<u32>) ensures s.len() + (s.len() + 3) / 4 <= svb(s).len() <= 4 * s.len() + (s.len() + 3) / 4;
axiom fn axiom_svb_inj(s: Seq<u32>, t: Seq<u32>) requires svb(s) == svb(t), s.len() == t.len() ensures s == t;
#[verifier::external_body]
fn svb_encode(s: &[u32], out: &mut [u8]) -> (n: usize)
    requires old(out)@.len() >= svb(s@).len()
    ensures n == svb(s@).len(), final(out)@.len() == old(out)@.len(), final(out)@.subrange(0, n as int) == svb(s@) { unimplemented!() }
#[verifier::external_body]
fn svb_decode(b: &[u8], n: usize, out: &mut Vec<u32>) -> (r: usize)
    requires n <= old(out)@.len()
    ensures final(out)@.len() == old(out)@.len(), forall|s: Seq<u32>| #[trigger] svb(s) == b@ && s.len() == n ==> final(out)@.subrange(0, n as int) == s && r == b@.len() { unimplemented!() }
spec fn padded(s: Seq<u32>) -> Seq<u32> { if s.len() < MIN_NUMBERS_TO_ENCODE { s + Seq::new((MIN_NUMBERS_TO_ENCODE - s.len()) as nat, |i: int| 0u32) } else { s } }
/// the stored form of a list: its length, then the compressed or the raw deltas
spec fn enc(s: Seq<u32>) -> Seq<u8> {
    let d = deltas(s);
    let v = svb(padded(d));
    seq![s.len() as u8] + (if v.len() >= 4 * s.len() { raw(d) } else { v })
}
proof fn lemma_raw(s: Seq<u32>)
    ensures raw(s).len() == 4 * s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] raw(s).subrange(4 * i, 4 * i + 4) == u32_le(s[i])
    decreases s.len()
{
    broadcast use group_bytes;
    if s.len() > 0 {
        let p = s.drop_last();
        lemma_raw(p);
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] raw(s).subrange(4 * i, 4 * i + 4) == u32_le(s[i]) by {
            if i < p.len() { assert(raw(s).subrange(4 * i, 4 * i + 4) =~= raw(p).subrange(4 * i, 4 * i + 4)); assert(p[i] == s[i]); }
            else { assert(raw(s).subrange(4 * i, 4 * i + 4) =~= u32_le(s[i])); }
        }
    }
}
/*@ src/slice_vector/set_vector.rs :: fn delta_encode
#spec
    requires nondec(old(data)@)
    ensures final(data)@ == deltas(old(data)@)
#begin
    let ghost d0 = data@;
#loop 0
    invariant nondec(d0), data@.len() == d0.len(), vx_e0 == 1, vx_i0 >= 1 || d0.len() == 0, vx_i0 <= d0.len(),
        forall|j: int| 0 <= j < vx_i0 && j < d0.len() ==> data@[j] == d0[j],
        forall|j: int| vx_i0 <= j < d0.len() ==> data@[j] == d0[j] - d0[j - 1],
    decreases vx_i0
#loop 0 begin
    proof { assert(d0[i as int - 1] <= d0[i as int]); }
#end
    proof { assert(data@ =~= deltas(d0)); }
@*/
/*@ src/slice_vector/set_vector.rs :: fn delta_decode
#sig fn delta_decode(data: &mut [u32], Ghost(s): Ghost<Seq<u32>>)
#spec
    requires nondec(s), old(data)@ == deltas(s)
    ensures final(data)@ == s
#loop 0
    invariant nondec(s), data@.len() == s.len(), 1 <= vx_i0, vx_e0 == s.len(), vx_i0 <= vx_e0 || vx_i0 == 1,
        forall|j: int| 0 <= j < vx_i0 && j < s.len() ==> data@[j] == s[j],
        forall|j: int| vx_i0 <= j < s.len() ==> data@[j] == s[j] - s[j - 1],
    decreases vx_e0 - vx_i0
#loop 0 begin
    proof { assert(s[i as int - 1] <= s[i as int]); }
#end
    proof { assert(data@ =~= s); }
@*/
/*@ src/slice_vector/set_vector.rs :: fn set_encode
#ret r
#subst `encode :: < Scalar >` => `svb_encode`
#subst `:: std :: mem :: size_of :: < u32 > ( )` => `4`
#spec
    requires data@.len() <= 254, nondec(data@)
    ensures r@ == enc(data@)
#begin
    broadcast use axiom_cloned; broadcast use group_bytes;
    let ghost s = data@;
#at after `delta_encode`
    proof { assert(data@ == deltas(s)); }
#at before `let mut encoded_data`
    proof { assert(data@ =~= padded(deltas(s))); axiom_svb_len(padded(deltas(s))); }
    let ghost pd = data@;
#at after `encoded_data . resize ( encoded_len`
    proof { assert(encoded_data@ =~= svb(pd)); }
#loop 0
    invariant vx_v0@.len() == count, count == s.len(), forall|i: int| 0 <= i < count ==> *(#[trigger] vx_v0@[i]) == deltas(s)[i],
        vx_i0 <= count, encoded_data@ == raw(deltas(s).subrange(0, vx_i0 as int))
    decreases count - vx_i0
#loop 0 begin
    broadcast use axiom_cloned;
    let ghost e0 = encoded_data@;
#loop 0 end
    proof {
        let k = vx_i0 as int;
        assert(deltas(s).subrange(0, k).drop_last() =~= deltas(s).subrange(0, k - 1));
        assert(encoded_data@ =~= raw(deltas(s).subrange(0, k - 1)) + u32_le(deltas(s)[k - 1]));
    }
#loop 0 after
    proof { assert(deltas(s).subrange(0, count as int) =~= deltas(s)); }
#tail r
    proof { assert(r@ =~= enc(s)); }
@*/
/*@ src/slice_vector/set_vector.rs :: fn decode_into
#sig fn decode_into(encoded_data: &[u8], decoded_nums: &mut Vec<u32>, Ghost(s): Ghost<Seq<u32>>)
#subst `decode :: < Scalar >` => `svb_decode`
#subst `delta_decode ( decoded_nums )` => `delta_decode ( decoded_nums , Ghost ( s ) )`
#subst `:: std :: mem :: size_of :: < u32 > ( )` => `4`
#rtindex
#spec
    requires s.len() <= 254, nondec(s), encoded_data@ == enc(s)
    ensures final(decoded_nums)@ == s
#begin
    broadcast use axiom_cloned; broadcast use group_bytes;
    let ghost e0 = encoded_data@;
    let ghost d = deltas(s);
    proof { lemma_raw(d); axiom_svb_len(padded(d)); }
#at after `let encoded_data`
    proof { assert(encoded_data@ =~= if svb(padded(d)).len() >= 4 * s.len() { raw(d) } else { svb(padded(d)) }); }
#at after `decoded_nums . resize ( count`
    proof { assert(decoded_nums@ =~= d); }
#loop 0
    invariant count == s.len(), d == deltas(s), encoded_data@ == raw(d), raw(d).len() == 4 * s.len(), vx_v0@.len() == count,
        forall|i: int| 0 <= i < count ==> (#[trigger] vx_v0@[i])@ == raw(d).subrange(4 * i, 4 * i + 4),
        forall|i: int| 0 <= i < s.len() ==> #[trigger] raw(d).subrange(4 * i, 4 * i + 4) == u32_le(d[i]),
        vx_i0 <= count, decoded_nums@ == d.subrange(0, vx_i0 as int)
    decreases count - vx_i0
#loop 0 begin
    broadcast use axiom_cloned; broadcast use group_bytes;
#loop 0 end
    proof { let k = vx_i0 as int - 1; axiom_u32_le_inj(decoded_nums@[k], d[k]); assert(decoded_nums@ =~= d.subrange(0, vx_i0 as int)); }
#loop 0 after
    proof { assert(decoded_nums@ =~= d); }
@*/
