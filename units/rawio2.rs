/*@ src/io.rs :: fn load_unaligned_bytes_as
#ret r
#subst `bytes . as_ptr ( ) as usize % :: std :: mem :: align_of :: < T > ( )` => `addr_mod(bytes, core::mem::align_of::<T>())`
#subst `:: std :: mem :: size_of` => `core::mem::size_of`
#subst `:: std :: ptr :: read_unaligned ( x . as_ptr ( ) as * const T )` => `read_unaligned_as::<T>(x)`
#closure 0 (b: T) types: &[u8]
    requires x@.len() == sz::<T>() ensures b == of_bytes::<T>(x@)[0]
#spec
    requires sz::<T>() > 0, vstd::layout::align_of::<T>() > 0
    ensures r@ == of_bytes::<T>(whole::<T>(bytes@))
#begin
    broadcast use group_bytes;
    proof {
        axiom_of_bytes_at::<T>(bytes@);
        let l = bytes@.len() as int; let s = sz::<T>();
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(l, s); vstd::arithmetic::div_mod::lemma_mod_bound(l, s);
        assert forall|i: int| #![trigger i * s] 0 <= i < l / s implies 0 <= i * s && i * s + s <= l by { assert(0 <= i * s && i * s + s <= l) by (nonlinear_arith) requires 0 <= i < l / s, l == s * (l / s) + l % s, 0 <= l % s, s > 0; }
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic(l / s, s);
        assert((l - l % s) / s == l / s) by { vstd::arithmetic::div_mod::lemma_div_multiples_vanish(l / s, s); assert(l - l % s == s * (l / s)); };
    }
#tail r
    proof { assert(r@ =~= of_bytes::<T>(whole::<T>(bytes@))); }
@*/
/// ptr::read_unaligned within bytes
#[verifier::external_body]
fn read_unaligned_as<T>(b: &[u8]) -> (r: T) requires b@.len() >= sz::<T>(), sz::<T>() > 0 ensures r == of_bytes::<T>(b@.subrange(0, sz::<T>()))[0], b@.len() == sz::<T>() ==> r == of_bytes::<T>(b@)[0] { unimplemented!() }
/// element i is stored in the bytes [i * size, (i + 1) * size)
axiom fn axiom_of_bytes_at<T>(b: Seq<u8>) requires sz::<T>() > 0 ensures forall|i: int| 0 <= i < b.len() as int / sz::<T>() ==> #[trigger] of_bytes::<T>(whole::<T>(b))[i] == of_bytes::<T>(b.subrange(i * sz::<T>(), i * sz::<T>() + sz::<T>()))[0];
