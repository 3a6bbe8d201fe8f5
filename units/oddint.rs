/*@ src/odd_byte_int.rs :: macro oddbyte_int :: struct @T@
#macro type_name=@T@, num_bytes=@N@
#attr `repr ( C , packed )`
pub broadcast axiom fn axiom_@T@_layout() ensures #[trigger] vstd::layout::size_of::<@T@>() == @N@, #[trigger] vstd::layout::align_of::<@T@>() == 1;
@*/
impl Clone for @T@ { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { @T@(self.0) } }
impl Copy for @T@ {}
impl @T@ {
    pub closed spec fn num(&self) -> nat { le(self.0@) }
/*@ src/odd_byte_int.rs :: macro oddbyte_int :: impl @T@ :: fn max_value
#macro type_name=@T@, num_bytes=@N@
#ret r
#spec
    ensures r.num() == pow256(@N@) - 1
#tail r
    proof { assert(le(r.0@) == pow256(@N@) - 1) by { reveal_with_fuel(le, 6); reveal_with_fuel(pow256, 6); } }
@*/
/*@ src/odd_byte_int.rs :: macro oddbyte_int :: impl Into<usize> for @T@ :: fn into
#macro type_name=@T@, num_bytes=@N@
#name into_usize
#ret r
#spec
    ensures r == self.num(), r < pow256(@N@)
#begin
    proof { lemma_le_bound(self.0@); lemma_pow256(); assert(self.0@.subrange(0, @N@) =~= self.0@); }
@*/
/*@ src/odd_byte_int.rs :: macro oddbyte_int :: impl From<usize> for @T@ :: fn from
#macro type_name=@T@, num_bytes=@N@
#name from_usize
#ret r
#spec
    // a value that does not fit is not stored
    ensures r.num() == integer, integer < pow256(@N@)
#tail r
    proof { lemma_le_bound(r.0@); assert(r.0@.subrange(0, @N@) =~= r.0@); }
@*/
}
impl VxOffset for @T@ {
    closed spec fn val(&self) -> int { self.num() as int }
    open spec fn lim() -> int { pow256(@N@) as int }
    proof fn lemma_val(x: Self, y: Self) { lemma_le_bound(x.0@); if x.val() == y.val() { lemma_le_inj(x.0@, y.0@); assert(x.0 =~= y.0); } }
}
