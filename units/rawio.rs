/*@ src/slice_vector/mod.rs :: const U64_LEN
#subst `:: std :: mem :: size_of` => `core::mem::size_of`
#subst `core :: mem :: size_of :: < u64 > ( )` => `8`
@*/
spec fn u64_of(b: Seq<u8>) -> u64 { choose|x: u64| u64_le(x) == b }
proof fn lemma_u64_of(x: u64) ensures u64_of(u64_le(x)) == x { axiom_u64_le_inj(x, u64_of(u64_le(x))); }
// src/io.rs: the only functions that reinterpret memory
/*@ src/io.rs :: fn load_bytes_as
#ret r
#subst `:: std :: slice :: from_raw_parts ( bytes . as_ptr ( ) as * const T ,` => `raw_from_bytes ( bytes ,`
#subst `:: std :: mem :: size_of` => `core::mem::size_of`
#spec
    requires sz::<T>() > 0, addr_mult(bytes, vstd::layout::align_of::<T>() as int)
    ensures r@ == of_bytes::<T>(whole::<T>(bytes@))
#begin
    proof { let l = bytes@.len() as int; let s = sz::<T>(); assert((l / s) * s == l - l % s && 0 <= l - l % s <= l) by (nonlinear_arith) requires l >= 0, s > 0; }
@*/
/*@ src/io.rs :: fn write_as_bytes
#ret r
#subst `:: std :: slice :: from_raw_parts ( elements . as_ptr ( ) as * const u8 ,` => `raw_to_bytes ( elements ,`
#subst `:: std :: mem :: size_of` => `core::mem::size_of`
#spec
    requires elements@.len() * sz::<T>() <= usize::MAX
    ensures r is Ok ==> wrote(*old(buffer), *final(buffer), bytes_of(elements@)) && r->Ok_0 == bytes_of(elements@).len(),
        r is Err || old(buffer).failed() ==> final(buffer).failed()
#begin
    broadcast use group_bytes;
    proof { assert(bytes_of(elements@).subrange(0, bytes_of(elements@).len() as int) =~= bytes_of(elements@)); }
@*/
