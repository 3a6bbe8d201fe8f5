// SumEmbeddings can be permuted: what the real permute is shown to do (sumemb.rs) is what the trait promises
proof fn lemma_sum_permuted<'a>(a: SumEmbeddings<'a>, b: SumEmbeddings<'a>, p: Seq<usize>)
    requires sinv(a), b.wf(), b@ == permuted(a@, p), b.embeddings == a.embeddings, is_perm(p), p.len() == a@.len()
    ensures sinv(b), forall|i: int| 0 <= i < a@.len() ==> #[trigger] unit_of(b, i) == unit_of(a, p[i] as int)
{
    assert forall|i: int| 0 <= i < a@.len() implies #[trigger] unit_of(b, i) == unit_of(a, p[i] as int) by { assert(b@[i] == a@[p[i] as int]); }
    assert forall|i: int| 0 <= i < b@.len() implies #[trigger] b.known(i) by { assert(b@[i] == a@[p[i] as int]); assert(a.known(p[i] as int)); }
    assert forall|i: int, j: int| 0 <= i < b@.len() && 0 <= j < b@.len() implies sane(#[trigger] unit_of(b, i), #[trigger] unit_of(b, j)) by { assert(sane(unit_of(a, p[i] as int), unit_of(a, p[j] as int))); }
}
impl<'a> Permutable for SumEmbeddings<'a> {
    fn permute(&mut self, permutation: &[usize]) {
        let ghost s0 = *self;
        self.permute_elements(permutation);
        proof { lemma_sum_permuted(s0, *self, permutation@); }
    }
}
