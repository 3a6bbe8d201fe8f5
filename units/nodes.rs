// neighbor selection and the updates of one node, src/index/mod.rs
pub type Cand = (usize, NotNan<f32>);
/// x is at least as close to the node as to every candidate kept before it
spec fn closer<E: ElementContainer>(c: &E, x: Cand, kept: Seq<Cand>) -> bool { forall|i: int| 0 <= i < kept.len() ==> x.1.ord() <= c.d((#[trigger] kept[i]).0 as int, c.el(x.0 as int)).ord() }
/// the candidates considered in order, at most m kept
spec fn greedy<E: ElementContainer>(c: &E, s: Seq<Cand>, m: int) -> Seq<Cand> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { let k = greedy(c, s.drop_last(), m); if k.len() < m && closer(c, s.last(), k) { k.push(s.last()) } else { k } }
}
/// C04
spec fn selected<E: ElementContainer>(c: &E, s: Seq<Cand>, m: int) -> Seq<Cand> { if s.len() <= m { s } else { greedy(c, s, m) } }
spec fn nearest_first(s: Seq<Cand>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).1.ord() <= (#[trigger] s[j]).1.ord() }
spec fn once(s: Seq<Cand>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 }
proof fn lemma_greedy<E: ElementContainer>(c: &E, s: Seq<Cand>, m: int)
    requires m >= 0
    ensures greedy(c, s, m).len() <= m, greedy(c, s, m).len() <= s.len(),
        forall|i: int| 0 <= i < greedy(c, s, m).len() ==> s.contains(#[trigger] greedy(c, s, m)[i]),
        once(s) ==> once(greedy(c, s, m)),
        s.len() > 0 && m > 0 ==> greedy(c, s, m).len() > 0 && greedy(c, s, m)[0] == s[0],
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_greedy(c, t, m);
        let k = greedy(c, t, m);
        let g = greedy(c, s, m);
        assert forall|i: int| 0 <= i < g.len() implies s.contains(#[trigger] g[i]) by {
            if i < k.len() { assert(t.contains(k[i])); let j = choose|j: int| 0 <= j < t.len() && t[j] == k[i]; assert(s[j] == g[i]); } else { assert(s[s.len() - 1] == g[i]); }
        }
        if once(s) {
            assert(once(t)) by { assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).0 != (#[trigger] t[j]).0 by { assert(s[i].0 != s[j].0); } }
            assert forall|i: int, j: int| 0 <= i < j < g.len() implies (#[trigger] g[i]).0 != (#[trigger] g[j]).0 by {
                if j < k.len() { assert(k[i].0 != k[j].0); } else { assert(t.contains(k[i])); let p = choose|p: int| 0 <= p < t.len() && t[p] == k[i]; assert(s[p].0 != s[s.len() - 1].0); }
            }
        }
        if t.len() == 0 && m > 0 { assert(closer(c, s.last(), k)); }
    }
}
/// once m are kept nothing is added
proof fn lemma_greedy_full<E: ElementContainer>(c: &E, s: Seq<Cand>, j: int, m: int)
    requires 0 <= j <= s.len(), greedy(c, s.take(j), m).len() >= m
    ensures greedy(c, s, m) == greedy(c, s.take(j), m)
    decreases s.len() - j
{
    if j == s.len() { assert(s.take(j) =~= s); }
    else { assert(s.take(j + 1).drop_last() =~= s.take(j)); lemma_greedy_full(c, s, j + 1, m); }
}
/// C04: nothing is dropped when there is room, the closest is always kept, nothing is invented
proof fn lemma_c04<E: ElementContainer>(c: &E, s: Seq<Cand>, m: int)
    requires m >= 0
    ensures s.len() <= m ==> selected(c, s, m) == s,
        selected(c, s, m).len() <= m, selected(c, s, m).len() <= s.len(),
        forall|i: int| 0 <= i < selected(c, s, m).len() ==> s.contains(#[trigger] selected(c, s, m)[i]),
        once(s) ==> once(selected(c, s, m)),
        s.len() > 0 && m > 0 ==> selected(c, s, m).len() > 0 && selected(c, s, m)[0] == s[0],
{
    lemma_greedy(c, s, m);
    if s.len() <= m { assert forall|i: int| 0 <= i < s.len() implies s.contains(#[trigger] s[i]) by {} }
}
/// the contents of a node with neighbors s
spec fn padded(s: Seq<Cand>, w: int) -> Seq<u32> { Seq::new(w as nat, |k: int| if k < s.len() { s[k].0 as u32 } else { u32::MAX }) }
/// the neighbors in q with their distances from node i, then extra
spec fn all_cands<E: ElementContainer>(c: &E, i: int, q: Seq<u32>, extra: Seq<Cand>) -> Seq<Cand> { ids(q).map_values(|x: usize| (x, c.dd(i, x as int))) + extra }
/// q becomes p: the neighbors and extra, nearest first, limited to m
spec fn limited<E: ElementContainer>(c: &E, i: int, q: Seq<u32>, extra: Seq<Cand>, m: int, p: Seq<u32>) -> bool {
    exists|s: Seq<Cand>| nearest_first(s) && #[trigger] s.to_multiset() == all_cands(c, i, q, extra).to_multiset() && p == padded(selected(c, s, m), q.len() as int)
}
/// j is added to the neighbors of i
spec fn connected<E: ElementContainer>(c: &E, i: int, j: usize, d: NotNan<f32>, q: Seq<u32>, p: Seq<u32>) -> bool {
    if i == j || q.subrange(0, live(q)).contains(j as u32) { p == q }
    else if live(q) < q.len() { p == q.update(live(q), j as u32) }
    else { limited(c, i, q, seq![(j, d)], q.len() as int, p) }
}
spec fn keeps_ids(good: spec_fn(Seq<u32>) -> bool, n: int) -> bool {
    forall|q: Seq<u32>| #[trigger] good(q) ==> 0 < q.len() < usize::MAX && (forall|k: int| 0 <= k < live(q) ==> #[trigger] q[k] < n) && (forall|k: int| live(q) <= k < q.len() ==> #[trigger] q[k] == u32::MAX)
}
/// a node without neighbors gets those of s
spec fn initialized(s: Seq<Cand>, q: Seq<u32>, p: Seq<u32>, r: bool) -> bool {
    if q[0] != u32::MAX { p == q && !r } else { r && p == Seq::new(q.len(), |k: int| if k < s.len() { s[k].0 as u32 } else { q[k] }) }
}
/// the distance of an element to itself that is taken for zero
uninterp spec fn threshold() -> NotNan<f32>;
/// NotNan::new(100.0 * std::f32::EPSILON).unwrap()
#[verifier::external_body]
fn vx_threshold() -> (r: NotNan<f32>) ensures r == threshold() { unimplemented!() }
/// an element with a direction, or the first one
pub closed spec fn alive<E: ElementContainer>(c: &E, i: int) -> bool { i == 0 || c.d(i, c.el(i)).ord() <= threshold().ord() }
/// a node i of a layer with n nodes: C03 and C22
pub closed spec fn node_ok<E: ElementContainer>(c: &E, n: int, i: int, q: Seq<u32>) -> bool {
    (forall|k: int| live(q) <= k < q.len() ==> #[trigger] q[k] == u32::MAX)
    && (forall|k: int| 0 <= k < live(q) ==> (#[trigger] q[k]) < n && q[k] != i && alive(c, q[k] as int))
    && (forall|k: int, l: int| 0 <= k < l < live(q) ==> #[trigger] q[k] != #[trigger] q[l])
    && (!alive(c, i) ==> live(q) == 0)
}
spec fn good_node<E: ElementContainer>(c: &E, n: int, i: int, w: int) -> spec_fn(Seq<u32>) -> bool { |q: Seq<u32>| q.len() == w && node_ok(c, n, i, q) }
/// candidates for node i
spec fn cands_ok<E: ElementContainer>(c: &E, n: int, i: int, s: Seq<Cand>) -> bool { once(s) && forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).0 < n && s[k].0 != i && alive(c, s[k].0 as int) }
proof fn lemma_padded<E: ElementContainer>(c: &E, n: int, i: int, s: Seq<Cand>, w: int)
    requires cands_ok(c, n, i, s), s.len() <= w, n <= u32::MAX, alive(c, i) || s.len() == 0
    ensures node_ok(c, n, i, padded(s, w)), live(padded(s, w)) == s.len()
{
    let q = padded(s, w);
    assert forall|k: int| 0 <= k < s.len() implies #[trigger] q[k] != u32::MAX by { assert(s[k].0 < n); }
    lemma_live_is(q, s.len() as int);
    assert forall|k: int, l: int| 0 <= k < l < live(q) implies #[trigger] q[k] != #[trigger] q[l] by { assert(s[k].0 < n && s[l].0 < n && s[k].0 != s[l].0); }
    assert forall|k: int| 0 <= k < live(q) implies (#[trigger] q[k]) < n && q[k] != i && alive(c, q[k] as int) by { assert(s[k].0 < n); }
}
proof fn lemma_perm<E: ElementContainer>(c: &E, n: int, i: int, s: Seq<Cand>, b: Seq<Cand>)
    requires s.to_multiset() == b.to_multiset(), cands_ok(c, n, i, b)
    ensures cands_ok(c, n, i, s), s.len() == b.len()
{
    s.to_multiset_ensures(); b.to_multiset_ensures();
    assert(s.len() == s.to_multiset().len() && b.len() == b.to_multiset().len());
    assert forall|k: int| 0 <= k < s.len() implies b.contains(#[trigger] s[k]) by { assert(s.contains(s[k])); assert(s.to_multiset().count(s[k]) > 0); }
    assert(b.no_duplicates()) by { assert forall|x: int, y: int| 0 <= x < b.len() && 0 <= y < b.len() && x != y implies b[x] != b[y] by { if x < y { assert(b[x].0 != b[y].0); } else { assert(b[y].0 != b[x].0); } } }
    b.lemma_multiset_has_no_duplicates();
    assert(s.no_duplicates()) by { s.lemma_multiset_has_no_duplicates_conv(); }
    assert forall|x: int, y: int| 0 <= x < y < s.len() implies (#[trigger] s[x]).0 != (#[trigger] s[y]).0 by {
        assert(b.contains(s[x]) && b.contains(s[y]));
        let p = choose|p: int| 0 <= p < b.len() && b[p] == s[x]; let q = choose|q: int| 0 <= q < b.len() && b[q] == s[y];
        assert(s[x] != s[y]); assert(p != q); if p < q { assert(b[p].0 != b[q].0); } else { assert(b[q].0 != b[p].0); }
    }
}
proof fn lemma_limited<E: ElementContainer>(c: &E, n: int, i: int, q: Seq<u32>, extra: Seq<Cand>, m: int, p: Seq<u32>)
    requires node_ok(c, n, i, q), limited(c, i, q, extra, m, p), 0 <= m <= q.len(), n <= u32::MAX, cands_ok(c, n, i, all_cands(c, i, q, extra)), alive(c, i) || extra.len() == 0
    ensures node_ok(c, n, i, p), p.len() == q.len()
{
    let s = choose|s: Seq<Cand>| nearest_first(s) && #[trigger] s.to_multiset() == all_cands(c, i, q, extra).to_multiset() && p == padded(selected(c, s, m), q.len() as int);
    lemma_live(q);
    lemma_perm(c, n, i, s, all_cands(c, i, q, extra));
    lemma_c04(c, s, m);
    let t = selected(c, s, m);
    assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]).0 < n && t[k].0 != i && alive(c, t[k].0 as int) by { assert(s.contains(t[k])); }
    assert(cands_ok(c, n, i, t));
    lemma_padded(c, n, i, t, q.len() as int);
}
proof fn lemma_all_cands<E: ElementContainer>(c: &E, n: int, i: int, q: Seq<u32>, extra: Seq<Cand>)
    requires node_ok(c, n, i, q), extra.len() <= 1, forall|k: int| 0 <= k < extra.len() ==> (#[trigger] extra[k]).0 < n && extra[k].0 != i && alive(c, extra[k].0 as int) && !q.subrange(0, live(q)).contains(extra[k].0 as u32), n <= u32::MAX
    ensures cands_ok(c, n, i, all_cands(c, i, q, extra))
{
    lemma_live(q);
    let s = all_cands(c, i, q, extra); let l = live(q);
    assert forall|k: int| 0 <= k < l implies (#[trigger] s[k]).0 == q[k] && q.subrange(0, l).contains(s[k].0 as u32) by { assert(q.subrange(0, l)[k] == q[k]); }
    assert forall|x: int, y: int| 0 <= x < y < s.len() implies (#[trigger] s[x]).0 != (#[trigger] s[y]).0 by { if y >= l { assert(s[y] == extra[y - l]); assert(x < l); } else { assert(q[x] != q[y]); } }
    assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).0 < n && s[k].0 != i && alive(c, s[k].0 as int) by { if k >= l { assert(s[k] == extra[k - l]); } else { assert(q[k] < n); } }
}
proof fn lemma_connected<E: ElementContainer>(c: &E, n: int, i: int, j: usize, d: NotNan<f32>, q: Seq<u32>, p: Seq<u32>)
    requires node_ok(c, n, i, q), connected(c, i, j, d, q, p), j < n, alive(c, i), alive(c, j as int), n <= u32::MAX
    ensures node_ok(c, n, i, p), p.len() == q.len()
{
    lemma_live(q);
    let l = live(q);
    if i == j || q.subrange(0, l).contains(j as u32) {}
    else if l < q.len() {
        assert forall|k: int| 0 <= k < l implies q[k] != j by { assert(q.subrange(0, l)[k] == q[k]); }
        assert forall|k: int| 0 <= k < l + 1 implies #[trigger] p[k] != u32::MAX by { if k < l { assert(q[k] != u32::MAX); } }
        if l + 1 < p.len() { assert(q[l + 1] == u32::MAX); }
        lemma_live_is(p, l + 1);
        assert forall|k: int| live(p) <= k < p.len() implies #[trigger] p[k] == u32::MAX by { assert(q[k] == u32::MAX); }
        assert forall|k: int| 0 <= k < live(p) implies (#[trigger] p[k]) < n && p[k] != i && alive(c, p[k] as int) by { if k < l { assert(q[k] < n); } }
        assert forall|k: int, m: int| 0 <= k < m < live(p) implies #[trigger] p[k] != #[trigger] p[m] by { if m < l { assert(q[k] != q[m]); } }
    } else {
        lemma_all_cands(c, n, i, q, seq![(j, d)]);
        lemma_limited(c, n, i, q, seq![(j, d)], q.len() as int, p);
    }
}
proof fn lemma_initialized<E: ElementContainer>(c: &E, n: int, i: int, s: Seq<Cand>, q: Seq<u32>, p: Seq<u32>, r: bool)
    requires node_ok(c, n, i, q), q.len() > 0, initialized(s, q, p, r), cands_ok(c, n, i, s), alive(c, i), n <= u32::MAX
    ensures node_ok(c, n, i, p), p.len() == q.len()
{
    lemma_live(q);
    if q[0] == u32::MAX {
        if live(q) > 0 { assert(q[0] != u32::MAX); }
        let m = if s.len() < q.len() { s.len() as int } else { q.len() as int };
        let t = s.take(m);
        assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]).0 < n && t[k].0 != i && alive(c, t[k].0 as int) by { assert(s[k].0 < n); }
        assert forall|x: int, y: int| 0 <= x < y < t.len() implies (#[trigger] t[x]).0 != (#[trigger] t[y]).0 by { assert(s[x].0 != s[y].0); }
        lemma_padded(c, n, i, t, q.len() as int);
        assert(p =~= padded(t, q.len() as int)) by { assert forall|k: int| 0 <= k < p.len() implies p[k] == padded(t, q.len() as int)[k] by { assert(q[k] == u32::MAX); } }
    }
}
/// slice::sort_unstable_by_key
#[verifier::external_body]
fn sort_unstable_by_key<T, K: Ord, F: Fn(&T) -> K>(v: &mut Vec<T>, f: F)
    requires forall|x: T| f.requires((&x,)), ordered::<K>()
    ensures final(v)@.to_multiset() == old(v)@.to_multiset(),
        forall|i: int, j: int| #![trigger final(v)@[i], final(v)@[j]] 0 <= i < j < final(v)@.len() ==> exists|x: K, y: K| f.ensures((&final(v)@[i],), x) && f.ensures((&final(v)@[j],), y) && !vlt(y, x)
{ unimplemented!() }
impl<Elements: ElementContainer> GranneBuilder<Elements> {
/*@ src/index/mod.rs :: impl GranneBuilder :: fn select_neighbors
#ret r
#nodebug
#closure 0 in: all (b: bool) types: &(usize, NotNan<f32>)
    requires elements.inv(), vx_p0.0 < elements.n(), elements.fits(Elements::val(element))
    ensures b == (d.ord() <= elements.d(vx_p0.0 as int, Elements::val(element)).ord())
#spec
    requires elements.inv(), forall|k: int| 0 <= k < candidates@.len() ==> (#[trigger] candidates@[k]).0 < elements.n(), candidates@.len() > max_neighbors ==> nearest_first(candidates@)
    ensures r@ == selected(elements, candidates@, max_neighbors as int)
#begin
    proof { assert(candidates@.take(candidates@.len() as int) =~= candidates@); }
#loop 0
    invariant_except_break
        neighbors@ == greedy(elements, vx_v0@.take(vx_i0 as int), max_neighbors as int),
    invariant vx_v0@ == candidates@, candidates@.take(candidates@.len() as int) == candidates@, vx_i0 <= vx_v0@.len(), elements.inv(), forall|k: int| 0 <= k < candidates@.len() ==> (#[trigger] candidates@[k]).0 < elements.n(),
        neighbors@.len() <= max_neighbors, forall|k: int| 0 <= k < neighbors@.len() ==> (#[trigger] neighbors@[k]).0 < elements.n(),
    ensures neighbors@ == greedy(elements, vx_v0@, max_neighbors as int)
    decreases vx_v0@.len() - vx_i0
#loop 0 begin
    let ghost k0 = neighbors@;
    proof { let a = vx_v0@.take(vx_i0 as int); assert(a.drop_last() =~= vx_v0@.take(vx_i0 - 1)); assert(a.last() == vx_v0@[vx_i0 - 1]); if k0.len() >= max_neighbors { lemma_greedy_full(elements, vx_v0@, vx_i0 - 1, max_neighbors as int); } }
@*/
/*@ src/index/mod.rs :: impl GranneBuilder :: fn add_and_limit_neighbors
#closure 0 (b: bool) types: &&u32
    ensures b == (**vx_p0 != UNUSED)
#closure 1 (b: usize) types: &u32
    ensures b == *vx_p0
#closure 2 (b: NotNan<f32>) types: &(usize, NotNan<f32>)
    ensures b == vx_p0.1
#closure 3 (b: u32) types: (usize, NotNan<f32>)
    requires vx_p0.0 <= u32::MAX ensures b == vx_p0.0
#subst `candidates . sort_unstable_by_key ( | & ( _ , d ) | d )` => `sort_unstable_by_key ( & mut candidates , | & ( _ , d ) | d )`
#subst `std :: iter :: repeat` => `vx_repeat`
#spec
    requires elements.inv(), elements.n() <= u32::MAX, node_id < elements.n(), forall|k: int| 0 <= k < live(old(node)@) ==> #[trigger] old(node)@[k] < elements.n(), forall|k: int| 0 <= k < extra@.len() ==> (#[trigger] extra@[k]).0 < elements.n(), old(node)@.len() < usize::MAX
    ensures final(node)@.len() == old(node)@.len(), num_neighbors <= old(node)@.len(), limited(elements, node_id as int, old(node)@, extra@, num_neighbors as int, final(node)@)
#begin
    let ghost q = node@;
    proof { lemma_live(q); lemma_ord32(); }
#at before `let dists =`
    proof { lemma_live_is(q, neighbors@.len() as int); assert(neighbors@ =~= ids(q)); }
#loop 0 enter
    proof { assert(candidates@ =~= ids(q).map_values(|x: usize| (x, elements.dd(node_id as int, x as int))) + extra@.take(0)); }
#loop 0
    invariant vx_v0@.len() == extra@.len(), forall|k: int| 0 <= k < extra@.len() ==> *(#[trigger] vx_v0@[k]) == extra@[k], vx_i0 <= vx_v0@.len(), candidates@ == ids(q).map_values(|x: usize| (x, elements.dd(node_id as int, x as int))) + extra@.take(vx_i0 as int),
    decreases vx_v0@.len() - vx_i0
#loop 0 end
    proof { assert(extra@.take(vx_i0 as int) =~= extra@.take(vx_i0 - 1).push(extra@[vx_i0 - 1])); assert(candidates@ =~= ids(q).map_values(|x: usize| (x, elements.dd(node_id as int, x as int))) + extra@.take(vx_i0 as int)); }
#at before `sort_unstable_by_key ( & mut candidates`
    let ghost base = candidates@;
    proof { assert(extra@.take(extra@.len() as int) =~= extra@); assert(base == all_cands(elements, node_id as int, q, extra@));
        assert forall|k: int| 0 <= k < base.len() implies (#[trigger] base[k]).0 < elements.n() by { if k >= live(q) { assert(base[k] == extra@[k - live(q)]); } else { assert(base[k].0 == q[k]); } } }
#at before `let neighbors = Self :: select_neighbors`
    let ghost s = candidates@;
    proof {
        s.to_multiset_ensures(); base.to_multiset_ensures();
        assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).0 < elements.n() by { assert(s.contains(s[k])); assert(s.to_multiset().count(s[k]) > 0); assert(base.contains(s[k])); }
        lemma_c04(elements, s, num_neighbors as int);
        assert(nearest_first(s));
    }
#loop 1
    invariant vx_i1 <= vx_v1@.len(), vx_v1@.len() == q.len(), node@.len() == q.len(), num_neighbors <= q.len(),
        forall|k: int| 0 <= k < q.len() ==> (#[trigger] vx_v1@[k]).0 == k && vx_v1@[k].1 == padded(selected(elements, s, num_neighbors as int), q.len() as int)[k],
        forall|k: int| 0 <= k < vx_i1 ==> #[trigger] node@[k] == padded(selected(elements, s, num_neighbors as int), q.len() as int)[k],
    decreases vx_v1@.len() - vx_i1
#end
    proof { assert(node@ =~= padded(selected(elements, s, num_neighbors as int), q.len() as int)); }
@*/
/*@ src/index/mod.rs :: impl GranneBuilder :: fn initialize_node
#sig fn initialize_section(node: &RwLock<&mut [NeighborId]>, neighbors: &[(usize, NotNan<f32>)], log: &mut Ghost<NodeLog>) -> (r: bool)
#subst `. write ( )` => `. write ( log )`
#spec
    requires old(log)@.len() == 0, forall|k: int| 0 <= k < neighbors@.len() ==> (#[trigger] neighbors@[k]).0 < u32::MAX, forall|q: Seq<u32>| #[trigger] (node.good())(q) ==> q.len() > 0
    ensures final(log)@.len() <= 1, final(log)@.len() == 1 ==> (node.good())(final(log)@[0].0) && initialized(neighbors@, final(log)@[0].0, final(log)@[0].1, r),
        final(log)@.len() == 0 ==> !r && exists|q: Seq<u32>| #[trigger] (node.good())(q) && q[0] != u32::MAX
#at after `let mut node = node . write`
    let ghost q = node@;
#loop 0
    invariant vx_i0 <= vx_v0@.len(), node@.len() == q.len(), vx_v0@.len() == (if q.len() < neighbors@.len() { q.len() } else { neighbors@.len() }),
        forall|k: int| 0 <= k < vx_v0@.len() ==> (#[trigger] vx_v0@[k]).0 == k && *vx_v0@[k].1 == neighbors@[k],
        forall|k: int| 0 <= k < neighbors@.len() ==> (#[trigger] neighbors@[k]).0 < u32::MAX,
        forall|k: int| 0 <= k < q.len() ==> #[trigger] node@[k] == if k < vx_i0 { neighbors@[k].0 as u32 } else { q[k] },
    decreases vx_v0@.len() - vx_i0
#tail r
    proof { if r { assert(node@ =~= Seq::new(q.len(), |k: int| if k < neighbors@.len() { neighbors@[k].0 as u32 } else { q[k] })); } }
@*/
/*@ src/index/mod.rs :: impl GranneBuilder :: fn connect_nodes
#sig fn connect_section(elements: &Elements, node: &RwLock<&mut [NeighborId]>, i: usize, j: usize, d: NotNan<f32>, log: &mut Ghost<NodeLog>)
#subst `. write ( )` => `. write ( log )`
#subst `& mut node ,` => `node ,`
#closure 0 in: position (b: bool) types: &u32
    ensures b == (*vx_p0 == UNUSED || *vx_p0 == j_id)
#spec
    requires old(log)@.len() == 0, elements.inv(), elements.n() <= u32::MAX, i < elements.n(), j < elements.n(), keeps_ids(node.good(), elements.n() as int)
    ensures final(log)@.len() <= 1, final(log)@.len() == 1 ==> (node.good())(final(log)@[0].0) && connected(elements, i as int, j, d, final(log)@[0].0, final(log)@[0].1),
        final(log)@.len() == 0 ==> i == j || exists|q: Seq<u32>| #[trigger] (node.good())(q) && connected(elements, i as int, j, d, q, q)
#at after `let mut node = node . write`
    let ghost q = node@; let ghost lq = q.subrange(0, live(q));
    proof { lemma_live(q); assert forall|k: int| 0 <= k < live(q) implies lq[k] == q[k] by {} if !(i == j || lq.contains(j as u32)) { assert forall|k: int| 0 <= k < live(q) implies q[k] != j by { assert(lq[k] == q[k]); } } }
#at after `node [ free_pos ] = j_id`
    proof { if lq.contains(j as u32) { let k = choose|k: int| 0 <= k < lq.len() && lq[k] == j as u32; assert(q[k] == j as u32); assert(free_pos <= k); assert(node@ =~= q); } else { if free_pos < live(q) { assert(lq[free_pos as int] == q[free_pos as int]); assert(lq.contains(q[free_pos as int])); } assert(free_pos == live(q)); assert(node@ =~= q.update(live(q), j as u32)); } }
#at before `let num_neighbors = node . len ( )`
    proof { if live(q) < q.len() { assert(q[live(q)] == u32::MAX); } if lq.contains(j as u32) { let k = choose|k: int| 0 <= k < lq.len() && lq[k] == j as u32; assert(q[k] == j as u32); } assert(live(q) == q.len()); assert(!lq.contains(j as u32)); }
#end
    proof { assert forall|x: Seq<Cand>| #[trigger] limited(elements, i as int, q, x, q.len() as int, node@) && x.len() == 1 && x[0] == (j, d) implies limited(elements, i as int, q, seq![(j, d)], q.len() as int, node@) by { assert(x =~= seq![(j, d)]); } }
@*/
/// the critical section of initialize_node keeps what holds of the node
fn initialize_node(node: &RwLock<&mut [NeighborId]>, neighbors: &[(usize, NotNan<f32>)]) -> (r: bool)
    requires forall|k: int| 0 <= k < neighbors@.len() ==> (#[trigger] neighbors@[k]).0 < u32::MAX,
        forall|q: Seq<u32>| #[trigger] (node.good())(q) ==> q.len() > 0,
        forall|q: Seq<u32>, p: Seq<u32>, r: bool| #![trigger initialized(neighbors@, q, p, r)] (node.good())(q) && initialized(neighbors@, q, p, r) ==> (node.good())(p),
{ let mut log = Ghost(Seq::empty()); Self::initialize_section(node, neighbors, &mut log) }
/// the critical section of connect_nodes keeps what holds of the node
fn connect_nodes(elements: &Elements, node: &RwLock<&mut [NeighborId]>, i: usize, j: usize, d: NotNan<f32>)
    requires elements.inv(), elements.n() <= u32::MAX, i < elements.n(), j < elements.n(),
        forall|q: Seq<u32>| #[trigger] (node.good())(q) ==> 0 < q.len() < usize::MAX && (forall|k: int| 0 <= k < live(q) ==> #[trigger] q[k] < elements.n()) && (forall|k: int| live(q) <= k < q.len() ==> #[trigger] q[k] == u32::MAX),
        forall|q: Seq<u32>, p: Seq<u32>| #![trigger connected(elements, i as int, j, d, q, p)] (node.good())(q) && connected(elements, i as int, j, d, q, p) ==> (node.good())(p),
{ let mut log = Ghost(Seq::empty()); Self::connect_section(elements, node, i, j, d, &mut log) }
}
proof fn lemma_ord32() ensures ordered::<NotNan<f32>>(), forall|a: NotNan<f32>, b: NotNan<f32>| #[trigger] vlt(a, b) == (a.ord() < b.ord()) {}
