/// C25: the distance between vectors with squared norms of at most 3 is a number and, but for the rounding errors, 1 minus their exact dot product (at least 0)
proof fn lemma_c25(a: Vector<'_>, b: Vector<'_>)
    requires numbers(a@), numbers(b@), a@.len() == b@.len(), a@.len() <= 4194304, exact(a@, a@, a@.len() as int) <= 3real, exact(b@, b@, b@.len() as int) <= 3real
    ensures ({ let n = a@.len() as int; let e = 1real - exact(a@, b@, n); let f = if e < 0real { 0real } else { e }; let r = a.sd(b).inner();
        num(r) && rabs(val(r) - f) <= bound(1real + weight(a@, b@, n), chain(n) + 1, n + lanes() + 1) && weight(a@, b@, n) <= 3real })
{
    let n = a@.len() as int; let (ex, w) = (exact(a@, b@, n), weight(a@, b@, n));
    lemma_lanes_positive();
    lemma_norms(a@, b@, n); lemma_weights(a@, b@, n);
    lemma_dotf(a@, b@);
    let r = dotf(a@, b@); let d = f_sub(1f32, r); let (k, h) = (chain(n), n + lanes());
    axiom_lits(); axiom_sub(1f32, r);
    lemma_bound_more(w, 1real + w, k, h);
    lemma_round(1real - val(r), d, 1real - ex, 1real + w, k, h);
    axiom_num(d); axiom_num(0f32); axiom_nn(d); axiom_nn(0f32); axiom_ord(nn(d), nn(0f32)); axiom_ord(nn(0f32), nn(d));
}
