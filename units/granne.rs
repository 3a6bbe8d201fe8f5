// Granne::search and what it is made of, src/index/mod.rs
/// reading neighbors of the layer gives what adj says
pub open spec fn det<L: Graph + ?Sized>(l: &L) -> bool { l.inv() && l.n() == l.adj().len() && forall|i: int, s: Seq<usize>| 0 <= i < l.n() && #[trigger] l.rel(i, s) ==> s == l.adj()[i] }
/// every neighbor is a node
pub open spec fn adj_ok(a: Seq<Seq<usize>>) -> bool { forall|i: int, k: int| 0 <= i < a.len() && 0 <= k < a[i].len() ==> #[trigger] a[i][k] < a.len() }
/// layers with neighbors inside, each at least as large as the one above, none empty
pub open spec fn adjs_ok(a: Seq<Seq<Seq<usize>>>) -> bool {
    (forall|k: int| 0 <= k < a.len() ==> adj_ok(#[trigger] a[k]) && a[k].len() >= 1)
    && (forall|k: int, j: int| 0 <= k <= j < a.len() ==> (#[trigger] a[k]).len() <= (#[trigger] a[j]).len())
}
/// r holds e and all neighbors of its nodes
pub open spec fn aclosed(a: Seq<Seq<usize>>, e: usize, r: Set<usize>) -> bool { r.contains(e) && forall|i: usize, k: int| r.contains(i) && i < a.len() && 0 <= k < a[i as int].len() ==> r.contains(#[trigger] a[i as int][k]) }
/// the outcome of a search for g in one layer: at most m elements, sorted, distinct, with their distances,
/// reached from e, and everything not kept that is next to something kept was no closer than the last of m results
pub open spec fn afound<E: ElementContainer>(a: Seq<Seq<usize>>, c: &E, e: usize, g: E::V, m: int, res: Seq<(usize, NotNan<f32>)>) -> bool {
    1 <= res.len() <= m
    && scored(c, g, res)
    && (forall|i: int| 0 <= i < res.len() ==> (#[trigger] res[i]).0 < a.len())
    && (has(res, e) || full_rejected(c, g, res, m, e))
    && (forall|i: int, k: int| #![trigger a[res[i].0 as int][k]] 0 <= i < res.len() && 0 <= k < a[res[i].0 as int].len() ==> has(res, a[res[i].0 as int][k]) || full_rejected(c, g, res, m, a[res[i].0 as int][k]))
    && (forall|r: Set<usize>| #[trigger] aclosed(a, e, r) ==> forall|i: int| 0 <= i < res.len() ==> r.contains(#[trigger] res[i].0))
}
proof fn lemma_afound<L: Graph + ?Sized, E: ElementContainer>(l: &L, c: &E, e: usize, g: E::V, m: int, res: Seq<(usize, NotNan<f32>)>, obs: Map<usize, Seq<usize>>)
    requires det(l), in_layer(l), adj_ok(l.adj()), e < l.n(), found(l, c, e, g, m, res, obs)
    ensures afound(l.adj(), c, e, g, m, res)
{
    let a = l.adj();
    assert forall|i: int, k: int| #![trigger a[res[i].0 as int][k]] 0 <= i < res.len() && 0 <= k < a[res[i].0 as int].len() implies has(res, a[res[i].0 as int][k]) || full_rejected(c, g, res, m, a[res[i].0 as int][k]) by {
        assert(obs.contains_key(res[i].0)); assert(obs[res[i].0] == a[res[i].0 as int]);
        assert(obs[res[i].0][k] == a[res[i].0 as int][k]);
    }
    assert forall|r: Set<usize>| #[trigger] aclosed(a, e, r) implies forall|i: int| 0 <= i < res.len() ==> r.contains(#[trigger] res[i].0) by {
        let q = r.filter(|i: usize| i < l.n());
        assert forall|i: usize, s: Seq<usize>, k: int| q.contains(i) && #[trigger] l.rel(i as int, s) && 0 <= k < s.len() implies q.contains(#[trigger] s[k]) by { assert(s == a[i as int]); assert(r.contains(a[i as int][k])); }
        assert(closed(l, e, q));
    }
}
/// es are the entry points of the layers: the element the search of the layer above ended at
pub open spec fn entries<E: ElementContainer>(a: Seq<Seq<Seq<usize>>>, c: &E, g: E::V, es: Seq<usize>) -> bool {
    es.len() == a.len() + 1 && es[0] == 0 && forall|k: int| 0 <= k < a.len() ==> #[trigger] leads(a[k], c, g, es[k], es[k + 1])
}
pub open spec fn leads<E: ElementContainer>(a: Seq<Seq<usize>>, c: &E, g: E::V, e: usize, f: usize) -> bool { exists|res: Seq<(usize, NotNan<f32>)>| #[trigger] afound(a, c, e, g, 1, res) && f == res[0].0 }
/// the answer: the first nn of the results in the bottom layer, with plain numbers
pub open spec fn first_of(full: Seq<(usize, NotNan<f32>)>, nn: int, r: Seq<(usize, f32)>) -> bool {
    r.len() == (if nn < full.len() { nn } else { full.len() as int }) && forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == (full[i].0, full[i].1.inner())
}
pub open spec fn answer<E: ElementContainer>(a: Seq<Seq<Seq<usize>>>, c: &E, g: E::V, m: int, nn: int, r: Seq<(usize, f32)>) -> bool {
    if a.len() == 0 { r.len() == 0 } else { exists|es: Seq<usize>, full: Seq<(usize, NotNan<f32>)>| #[trigger] answer_by(a, c, g, m, nn, r, es, full) }
}
pub open spec fn answer_by<E: ElementContainer>(a: Seq<Seq<Seq<usize>>>, c: &E, g: E::V, m: int, nn: int, r: Seq<(usize, f32)>, es: Seq<usize>, full: Seq<(usize, NotNan<f32>)>) -> bool {
    entries(a.drop_last(), c, g, es) && es.last() < a.last().len() && afound(a.last(), c, es.last(), g, m, full) && first_of(full, nn, r)
}
/// C01
proof fn lemma_c01<E: ElementContainer>(a: Seq<Seq<Seq<usize>>>, c: &E, g: E::V, m: int, nn: int, r: Seq<(usize, f32)>)
    requires answer(a, c, g, m, nn, r), m >= 1, nn >= 0
    ensures r.len() <= m && r.len() <= nn,
        a.len() == 0 ==> r.len() == 0,
        a.len() > 0 && nn >= 1 ==> r.len() >= 1,
        forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).0 < a.last().len() && r[i].1 == c.d(r[i].0 as int, g).inner(),
        forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).0 != (#[trigger] r[j]).0 && klt(dk(c, g, r[i].0), dk(c, g, r[j].0)),
{
    if a.len() > 0 {
        let (es, full) = choose|es: Seq<usize>, full: Seq<(usize, NotNan<f32>)>| #[trigger] answer_by(a, c, g, m, nn, r, es, full);
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).0 != (#[trigger] r[j]).0 && klt(dk(c, g, r[i].0), dk(c, g, r[j].0)) by {
            assert(klt(key2(full[i]), key2(full[j])));
            assert(r[i] == (full[i].0, full[i].1.inner()) && r[j] == (full[j].0, full[j].1.inner()));
        }
    }
}
/// C02: with room for everything reachable, exactly the reachable elements are found
proof fn lemma_c02<E: ElementContainer>(a: Seq<Seq<usize>>, c: &E, e: usize, g: E::V, m: int, res: Seq<(usize, NotNan<f32>)>, reach: Set<usize>)
    requires afound(a, c, e, g, m, res), adj_ok(a), e < a.len(), aclosed(a, e, reach), forall|q: Set<usize>| #[trigger] aclosed(a, e, q) ==> reach.subset_of(q), reach.len() <= m
    ensures forall|x: usize| #[trigger] has(res, x) == reach.contains(x), res.len() == reach.len()
{
    let idseq = res.map_values(|x: (usize, NotNan<f32>)| x.0);
    let kept = idseq.to_set();
    assert(idseq.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < idseq.len() && 0 <= j < idseq.len() && i != j implies idseq[i] != idseq[j] by { if i < j { assert(klt(key2(res[i]), key2(res[j]))); } else { assert(klt(key2(res[j]), key2(res[i]))); } } }
    idseq.unique_seq_to_set();
    assert forall|x: usize| #[trigger] has(res, x) == kept.contains(x) by {
        if has(res, x) { let i = choose|i: int| 0 <= i < res.len() && #[trigger] res[i].0 == x; assert(idseq[i] == x); }
        if kept.contains(x) { let i = choose|i: int| 0 <= i < idseq.len() && idseq[i] == x; assert(res[i].0 == x); }
    }
    assert(kept.subset_of(reach)) by { assert forall|x: usize| #[trigger] kept.contains(x) implies reach.contains(x) by { assert(has(res, x)); } }
    lemma_len_subset(kept, reach);
    if res.len() < m {
        assert(aclosed(a, e, kept)) by {
            assert forall|i: usize, k: int| kept.contains(i) && i < a.len() && 0 <= k < a[i as int].len() implies kept.contains(#[trigger] a[i as int][k]) by {
                assert(has(res, i)); let j = choose|j: int| 0 <= j < res.len() && #[trigger] res[j].0 == i;
                assert(has(res, a[res[j].0 as int][k]));
            }
            assert(has(res, e));
        }
    }
    else { lemma_subset_equality(kept, reach); }
    assert(kept =~= reach);
}
/// the contents of a sequence of layers
pub open spec fn adjs<L: Graph>(ls: Seq<L>) -> Seq<Seq<Seq<usize>>> { ls.map_values(|l: L| l.adj()) }
pub open spec fn dets<L: Graph>(ls: Seq<L>) -> bool { forall|k: int| 0 <= k < ls.len() ==> #[trigger] det(&ls[k]) }
proof fn lemma_in_layer<L: Graph>(l: &L) requires det(l), adj_ok(l.adj()) ensures in_layer(l)
{ assert forall|i: int, s: Seq<usize>, k: int| 0 <= i < l.n() && #[trigger] l.rel(i, s) && 0 <= k < s.len() implies #[trigger] s[k] < l.n() by { assert(l.adj()[i][k] < l.adj().len()); } }
/*@ src/index/mod.rs :: fn find_entrypoint
#ret r
#spec
    requires dets(layers@), adjs_ok(adjs(layers@)), elements.inv(), elements.fits(Elements::val(*element)), layers@.len() > 0 ==> layers@.last().n() <= elements.n()
    ensures exists|es: Seq<usize>| #[trigger] entries(adjs(layers@), elements, Elements::val(*element), es) && es.last() == r, layers@.len() > 0 ==> r < layers@.last().n(), layers@.len() == 0 ==> r == 0
#begin
    let ghost mut es: Seq<usize> = seq![0usize]; let ghost g = Elements::val(*element); let ghost a = adjs(layers@);
    proof { if a.len() > 0 { assert(det(&layers@[a.len() - 1])); } }
#loop 0
    invariant vx_v0@.len() == a.len(), vx_i0 <= vx_v0@.len(), forall|k: int| 0 <= k < a.len() ==> det(#[trigger] vx_v0@[k]) && vx_v0@[k].adj() == a[k], adjs_ok(a), elements.inv(), elements.fits(g), a.len() > 0 ==> a.last().len() <= elements.n(), g == Elements::val(*element),
        es.len() == vx_i0 + 1, es[0] == 0, es.last() == entrypoint, forall|k: int| 0 <= k < vx_i0 ==> #[trigger] leads(a[k], elements, g, es[k], es[k + 1]),
        vx_i0 > 0 ==> entrypoint < a[vx_i0 as int - 1].len(), vx_i0 == 0 ==> entrypoint == 0,
    decreases vx_v0@.len() - vx_i0
#loop 0 begin
    let ghost k = vx_i0 as int - 1; let ghost e0 = entrypoint;
    proof { lemma_in_layer(layer); assert(a[k].len() <= a.last().len()); if k > 0 { assert(a[k - 1].len() <= a[k].len()); } }
#loop 0 end
    proof {
        let obs = choose|obs: Map<usize, Seq<usize>>| #[trigger] found(layer, elements, e0, g, 1, res@, obs);
        lemma_afound(layer, elements, e0, g, 1, res@, obs);
        assert(leads(a[k], elements, g, e0, entrypoint));
        let es0 = es;
        es = es.push(entrypoint);
        assert forall|j: int| 0 <= j < vx_i0 implies #[trigger] leads(a[j], elements, g, es[j], es[j + 1]) by { if j < k { assert(es[j] == es0[j] && es[j + 1] == es0[j + 1]); } }
    }
#loop 0 after
    proof { assert(entries(a, elements, g, es)); }
@*/
