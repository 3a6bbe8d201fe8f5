// src/elements/embeddings/reorder.rs: keys for reordering
/// the sum of floats, added in order
uninterp spec fn float_sum(s: Seq<f32>) -> f32;
impl It<f32> { #[verifier::external_body] fn sum_floats(self) -> (r: f32) ensures forall|s: Seq<f32>| s.len() == self@.len() && (forall|i: int| 0 <= i < s.len() ==> s[i] == self@[i]) ==> #[trigger] float_sum(s) == r { unimplemented!() } }
#[verifier::external_body]
fn vx_notnan(x: f32) -> (r: NotNan<f32>) ensures !nan(x), r == nn(x) { unimplemented!() }
#[verifier::external_body]
fn vx_zeros(n: usize) -> (r: Vec<usize>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == 0 { unimplemented!() }
/// a[..n].copy_from_slice(&b[..m])
#[verifier::external_body]
fn vx_copy_prefix(a: &mut Vec<usize>, n: usize, b: &Vec<usize>, m: usize) requires n <= old(a)@.len(), m <= b@.len(), n == m ensures final(a)@ == b@.subrange(0, n as int) + old(a)@.subrange(n as int, old(a)@.len() as int) { unimplemented!() }
/// slice::sort_by_key
#[verifier::external_body]
fn vx_sort_by_key<K: Ord, F: Fn(&usize) -> K>(v: &mut Vec<usize>, f: F)
    requires forall|i: int| 0 <= i < old(v)@.len() ==> f.requires((&#[trigger] old(v)@[i],))
    ensures final(v)@.to_multiset() == old(v)@.to_multiset(),
        forall|i: int, j: int| #![trigger final(v)@[i], final(v)@[j]] 0 <= i < j < final(v)@.len() ==> exists|x: K, y: K| f.ensures((&final(v)@[i],), x) && f.ensures((&final(v)@[j],), y) && !vlt(y, x)
{ unimplemented!() }
#[verifier::external_body]
fn vx_reverse(v: &mut Vec<usize>) ensures final(v)@ == old(v)@.reverse() { unimplemented!() }
/// the length of a vector
spec fn len_of(v: Seq<f32>) -> f32 { f_sqrt(float_sum(Seq::new(v.len(), |i: int| f_mul(v[i], v[i])))) }
spec fn weight<'a>(s: SumEmbeddings<'a>, id: int) -> NotNan<f32> { nn(len_of(s.emb()[id])) }
/// t are the terms, those whose embeddings are longest first
spec fn by_weight<'a>(s: SumEmbeddings<'a>, terms: Seq<int>, t: Seq<usize>) -> bool {
    u2i(t).to_multiset() == terms.to_multiset() && forall|i: int, j: int| 0 <= i < j < t.len() ==> weight(s, (#[trigger] t[j]) as int).ord() <= weight(s, (#[trigger] t[i]) as int).ord()
}
/// the first 8 of them, padded with zeros
spec fn is_key<'a>(s: SumEmbeddings<'a>, terms: Seq<int>, key: Seq<usize>) -> bool {
    key.len() == 8 && exists|t: Seq<usize>| #[trigger] by_weight(s, terms, t) && forall|k: int| 0 <= k < 8 ==> #[trigger] key[k] == if k < t.len() { t[k] } else { 0 }
}
proof fn lemma_sorted_ids(a: Seq<usize>, b: Seq<usize>, terms: Seq<int>)
    requires a.to_multiset() == b.to_multiset(), u2i(a) == terms
    ensures u2i(b).to_multiset() == terms.to_multiset(), forall|i: int| 0 <= i < b.len() ==> terms.contains((#[trigger] b[i]) as int), u2i(b.reverse()).to_multiset() == terms.to_multiset()
{
    a.to_multiset_ensures(); b.to_multiset_ensures();
    assert forall|i: int| 0 <= i < b.len() implies terms.contains((#[trigger] b[i]) as int) by { assert(b.contains(b[i])); assert(b.to_multiset().count(b[i]) > 0); assert(a.contains(b[i])); let k = choose|k: int| 0 <= k < a.len() && a[k] == b[i]; assert(terms[k] == b[i]); }
    lemma_u2i_multiset(a, b); lemma_u2i_reverse(b);
}
proof fn lemma_u2i_count(a: Seq<usize>, x: usize) ensures u2i(a).to_multiset().count(x as int) == a.to_multiset().count(x) decreases a.len()
{
    a.to_multiset_ensures(); u2i(a).to_multiset_ensures();
    if a.len() > 0 { lemma_u2i_count(a.drop_last(), x); a.drop_last().to_multiset_ensures(); u2i(a.drop_last()).to_multiset_ensures(); assert(a =~= a.drop_last().push(a.last())); assert(u2i(a) =~= u2i(a.drop_last()).push(a.last() as int)); }
}
proof fn lemma_u2i_none(a: Seq<usize>, y: int) requires y < 0 || y > usize::MAX ensures u2i(a).to_multiset().count(y) == 0 { u2i(a).to_multiset_ensures(); if u2i(a).contains(y) { let k = choose|k: int| 0 <= k < a.len() && u2i(a)[k] == y; assert(a[k] == y); } }
proof fn lemma_u2i_multiset(a: Seq<usize>, b: Seq<usize>) requires a.to_multiset() == b.to_multiset() ensures u2i(a).to_multiset() == u2i(b).to_multiset()
{
    assert forall|y: int| #[trigger] u2i(a).to_multiset().count(y) == u2i(b).to_multiset().count(y) by { if 0 <= y <= usize::MAX { lemma_u2i_count(a, y as usize); lemma_u2i_count(b, y as usize); } else { lemma_u2i_none(a, y); lemma_u2i_none(b, y); } }
    assert(u2i(a).to_multiset() =~= u2i(b).to_multiset());
}
proof fn lemma_rev<T>(b: Seq<T>) ensures b.reverse().to_multiset() == b.to_multiset() decreases b.len()
{
    if b.len() > 0 {
        let c = b.drop_last(); lemma_rev(c); assert(b =~= c.push(b.last())); c.to_multiset_ensures(); 
        assert(b.reverse() =~= seq![b.last()] + c.reverse());
        vstd::seq_lib::lemma_multiset_commutative(seq![b.last()], c.reverse()); c.reverse().to_multiset_ensures(); Seq::<T>::empty().to_multiset_ensures(); assert(seq![b.last()] =~= Seq::<T>::empty().push(b.last()));
        vstd::seq_lib::lemma_multiset_commutative(c, seq![b.last()]); assert(b =~= c + seq![b.last()]);
        assert(b.reverse().to_multiset() =~= b.to_multiset());
    } else { assert(b.reverse() =~= b); }
}
proof fn lemma_u2i_reverse(b: Seq<usize>) ensures u2i(b.reverse()).to_multiset() == u2i(b).to_multiset() { assert(u2i(b.reverse()) =~= u2i(b).reverse()); lemma_rev(u2i(b)); }
/*@ src/elements/embeddings/reorder.rs :: fn compute_keys_for_reordering
#sig fn compute_keys_for_reordering(embeddings: &SumEmbeddings<'_>) -> (r: Vec<Vec<usize>>)
#fops
#subst `. sum :: < f32 > ( )` => `. sum_floats ( )`
#subst `norm ( & embeddings . create_embedding ( & [ i ] ) ) . into ( )` => `vx_notnan ( norm ( & embeddings . create_embedding ( & [ i ] ) ) )`
#subst `[ 0 ; NUM_WORDS ]` => `vx_zeros ( NUM_WORDS )`
#subst `key [ .. len ] . copy_from_slice ( & embedding_ids [ .. len ] )` => `vx_copy_prefix ( & mut key , len , & embedding_ids , len )`
#subst `embedding_ids . sort_by_key (` => `vx_sort_by_key ( & mut embedding_ids ,`
#subst `embedding_ids . reverse ( )` => `vx_reverse ( & mut embedding_ids )`
#closure 0 (b: f32) types: &[f32]
    ensures b == len_of(vx_p0@)
#closure 1 (b: f32) types: &f32
    ensures b == f_mul(*vx_p0, *vx_p0)
#closure 2 (b: NotNan<f32>) types: usize
    requires small_align::<f32>(), embeddings.wf(), vx_p0 < embeddings.emb().len() ensures b == weight(*embeddings, vx_p0 as int)
#closure 3 (b: Vec<usize>) types: usize
    requires w_norms@.len() == embeddings.emb().len(), forall|i: int| 0 <= i < w_norms@.len() ==> #[trigger] w_norms@[i] == weight(*embeddings, i), embeddings.wf(), vx_p0 < embeddings@.len(), embeddings.known(vx_p0 as int) ensures is_key(*embeddings, embeddings@[vx_p0 as int], b@)
#closure 4 (b: NotNan<f32>) types: &usize
    requires *vx_p0 < w_norms@.len() ensures b == w_norms@[*vx_p0 as int]
#closure 5 (b: Vec<usize>) types: usize
    requires get_key.requires((vx_p0,)) ensures get_key.ensures((vx_p0,), b)
#spec
    requires embeddings.wf(), forall|i: int| 0 <= i < embeddings@.len() ==> embeddings.known(i)
    ensures r@.len() == embeddings@.len(), forall|i: int| 0 <= i < r@.len() ==> is_key(*embeddings, embeddings@[i], #[trigger] r@[i]@)
#begin
    proof { lemma_layouts(); }
#at before `vx_sort_by_key`
    let ghost ids0 = embedding_ids@; let ghost terms = embeddings@[vx_p0 as int];
    proof { assert forall|k: int| 0 <= k < ids0.len() implies #[trigger] ids0[k] < w_norms@.len() by { assert(u2i(ids0)[k] == terms[k]); } }
#at after `vx_sort_by_key`
    let ghost ids1 = embedding_ids@;
    proof {
        lemma_sorted_ids(ids0, ids1, terms);
        assert forall|i: int| 0 <= i < ids1.len() implies #[trigger] ids1[i] < w_norms@.len() by { assert(terms.contains(ids1[i] as int)); let k = choose|k: int| 0 <= k < terms.len() && terms[k] == ids1[i] as int; assert(terms[k] < embeddings.emb().len()); }
    }
#at after `vx_copy_prefix`
    proof { assert(by_weight(*embeddings, terms, ids1.reverse())) by { let t = ids1.reverse(); assert forall|i: int, j: int| 0 <= i < j < t.len() implies weight(*embeddings, (#[trigger] t[j]) as int).ord() <= weight(*embeddings, (#[trigger] t[i]) as int).ord() by { let n = t.len(); assert(t[i] == ids1[n - 1 - i] && t[j] == ids1[n - 1 - j]); assert(w_norms@[t[i] as int] == weight(*embeddings, t[i] as int)); } } }
@*/
