// Vectors can be permuted
impl<'a> Permutable for Vectors<'a> {
/*@ src/elements/dense_vector.rs :: macro dense_vector :: impl Permutable for Vectors :: fn permute
#macro scalar_type=@S@
#begin
    proof { axiom_@S@_layout(); }
    let ghost s0 = self@;
#end
    proof {
        assert(self@ =~= permuted(s0, permutation@));
        assert forall|i: int, j: int| 0 <= i < self@.len() && 0 <= j < self@.len() implies sane(#[trigger] self@[i], #[trigger] self@[j]) by { assert(sane(s0[permutation@[i] as int], s0[permutation@[j] as int])); }
    }
@*/
}
