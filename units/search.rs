// the traits ElementContainer and Graph, search_for_neighbors and find_entrypoint of src/index/mod.rs
/*@include container.rs@*/
/// a layer; `rel(i, s)`: reading the neighbors of node i may give s
pub trait Graph {
    spec fn n(&self) -> nat;
    spec fn rel(&self, i: int, s: Seq<usize>) -> bool;
    /// the representation is valid
    spec fn inv(&self) -> bool;
    /// the neighbor lists, for a layer nobody changes
    spec fn adj(&self) -> Seq<Seq<usize>>;
    fn get_neighbors(&self, idx: usize) -> (r: Vec<usize>) requires self.inv(), idx < self.n() ensures self.rel(idx as int, r@);
    fn len(&self) -> (r: usize) requires self.inv() ensures r == self.n();
}
/// every neighbor is a node of the layer
pub open spec fn in_layer<L: Graph + ?Sized>(l: &L) -> bool { l.inv() && forall|i: int, s: Seq<usize>, k: int| 0 <= i < l.n() && #[trigger] l.rel(i, s) && 0 <= k < s.len() ==> #[trigger] s[k] < l.n() }
/// and an element of the container
pub open spec fn in_both<L: Graph + ?Sized, E: ElementContainer>(l: &L, c: &E) -> bool { l.inv() && forall|i: int, s: Seq<usize>, k: int| 0 <= i < l.n() && #[trigger] l.rel(i, s) && 0 <= k < s.len() ==> #[trigger] s[k] < l.n() && s[k] < c.n() }
/// obs records the neighbors read while searching
pub open spec fn observed<L: Graph + ?Sized>(l: &L, obs: Map<usize, Seq<usize>>) -> bool { forall|i: usize| #[trigger] obs.contains_key(i) ==> l.rel(i as int, obs[i]) }
/// R holds the entry point and every neighbor of its nodes
pub open spec fn closed<L: Graph + ?Sized>(l: &L, e: usize, r: Set<usize>) -> bool { r.contains(e) && forall|i: usize, s: Seq<usize>, k: int| r.contains(i) && #[trigger] l.rel(i as int, s) && 0 <= k < s.len() ==> r.contains(#[trigger] s[k]) }
pub open spec fn dk<E: ElementContainer>(c: &E, g: E::V, i: usize) -> Key { (c.d(i as int, g), i) }
/// m holds exactly the ids of s, each with its distance, once
pub open spec fn keyed<E: ElementContainer>(c: &E, g: E::V, m: Multiset<Key>, s: Set<usize>) -> bool {
    m.len() == s.len() && forall|k: Key| #[trigger] m.count(k) == if s.contains(k.1) && k == dk(c, g, k.1) { 1nat } else { 0nat }
}
pub open spec fn rkeyed<E: ElementContainer>(c: &E, g: E::V, m: Multiset<Reverse<Key>>, s: Set<usize>) -> bool {
    m.len() == s.len() && forall|k: Reverse<Key>| #[trigger] m.count(k) == if s.contains(k.0.1) && k.0 == dk(c, g, k.0.1) { 1nat } else { 0nat }
}
/// the results are full and no result is farther away than i
pub open spec fn rejected<E: ElementContainer>(c: &E, g: E::V, hs: Set<usize>, m: int, i: usize) -> bool { hs.len() >= m && forall|j: usize| #[trigger] hs.contains(j) ==> c.d(j as int, g).ord() <= c.d(i as int, g).ord() }
/// what a search returns: `res` sorted, distinct, with their distances; kept or rejected: every observed neighbor of a result
pub open spec fn found<L: Graph + ?Sized, E: ElementContainer>(l: &L, c: &E, e: usize, g: E::V, m: int, res: Seq<(usize, NotNan<f32>)>, obs: Map<usize, Seq<usize>>) -> bool {
    1 <= res.len() <= m
    && scored(c, g, res)
    && (forall|i: int| 0 <= i < res.len() ==> (#[trigger] res[i]).0 < l.n())
    && observed(l, obs)
    && (has(res, e) || full_rejected(c, g, res, m, e))
    && (forall|i: int, k: int| #![trigger obs[res[i].0][k]] 0 <= i < res.len() && 0 <= k < obs[res[i].0].len() ==> has(res, obs[res[i].0][k]) || full_rejected(c, g, res, m, obs[res[i].0][k]))
    && (forall|i: int| 0 <= i < res.len() ==> obs.contains_key(#[trigger] res[i].0))
    && (forall|r: Set<usize>| #[trigger] closed(l, e, r) ==> forall|i: int| 0 <= i < res.len() ==> r.contains(#[trigger] res[i].0))
}
pub open spec fn has(res: Seq<(usize, NotNan<f32>)>, x: usize) -> bool { exists|i: int| 0 <= i < res.len() && #[trigger] res[i].0 == x }
pub open spec fn full_rejected<E: ElementContainer>(c: &E, g: E::V, res: Seq<(usize, NotNan<f32>)>, m: int, x: usize) -> bool { res.len() == m && forall|i: int| 0 <= i < res.len() ==> (#[trigger] res[i]).1.ord() <= c.d(x as int, g).ord() }
/// sorted by (distance, id), distinct, with the container's distances
pub open spec fn scored<E: ElementContainer>(c: &E, g: E::V, res: Seq<(usize, NotNan<f32>)>) -> bool {
    (forall|i: int| 0 <= i < res.len() ==> (#[trigger] res[i]).1 == c.d(res[i].0 as int, g) && res[i].0 < c.n())
    && (forall|i: int, j: int| 0 <= i < j < res.len() ==> klt(key2(#[trigger] res[i]), key2(#[trigger] res[j])))
}
pub open spec fn key2(x: (usize, NotNan<f32>)) -> Key { (x.1, x.0) }
spec fn ords() -> bool { ordered::<Key>() && ordered::<Reverse<Key>>() && (forall|a: Key, b: Key| #[trigger] vlt(a, b) == klt(a, b)) && (forall|a: Reverse<Key>, b: Reverse<Key>| #[trigger] vlt(a, b) == klt(b.0, a.0)) }
proof fn lemma_ords() ensures ords() { lemma_key(); lemma_reverse::<Key>(); assert forall|a: Reverse<Key>, b: Reverse<Key>| #[trigger] vlt(a, b) == klt(b.0, a.0) by { assert(vlt(a, b) == vlt(b.0, a.0)); } }
proof fn lemma_keyed_in<E: ElementContainer>(c: &E, g: E::V, m: Multiset<Key>, s: Set<usize>, i: usize) requires keyed(c, g, m, s) ensures m.contains(dk(c, g, i)) == s.contains(i) { assert(m.count(dk(c, g, i)) == if s.contains(i) { 1nat } else { 0nat }); }
proof fn lemma_insert_keyed<E: ElementContainer>(c: &E, g: E::V, m: Multiset<Key>, s: Set<usize>, i: usize)
    requires keyed(c, g, m, s), !s.contains(i) ensures keyed(c, g, m.insert(dk(c, g, i)), s.insert(i))
{ let o = m.insert(dk(c, g, i)); assert forall|k: Key| #[trigger] o.count(k) == if s.insert(i).contains(k.1) && k == dk(c, g, k.1) { 1nat } else { 0nat } by { assert(m.count(k) == if s.contains(k.1) && k == dk(c, g, k.1) { 1nat } else { 0nat }); } }
proof fn lemma_remove_keyed<E: ElementContainer>(c: &E, g: E::V, m: Multiset<Key>, s: Set<usize>, k0: Key)
    requires keyed(c, g, m, s), m.contains(k0) ensures k0 == dk(c, g, k0.1), s.contains(k0.1), keyed(c, g, m.remove(k0), s.remove(k0.1))
{ let o = m.remove(k0); assert(m.count(k0) > 0); assert forall|k: Key| #[trigger] o.count(k) == if s.remove(k0.1).contains(k.1) && k == dk(c, g, k.1) { 1nat } else { 0nat } by { assert(m.count(k) == if s.contains(k.1) && k == dk(c, g, k.1) { 1nat } else { 0nat }); } }
proof fn lemma_insert_rkeyed<E: ElementContainer>(c: &E, g: E::V, m: Multiset<Reverse<Key>>, s: Set<usize>, i: usize)
    requires rkeyed(c, g, m, s), !s.contains(i) ensures rkeyed(c, g, m.insert(Reverse(dk(c, g, i))), s.insert(i))
{ let o = m.insert(Reverse(dk(c, g, i))); assert forall|k: Reverse<Key>| #[trigger] o.count(k) == if s.insert(i).contains(k.0.1) && k.0 == dk(c, g, k.0.1) { 1nat } else { 0nat } by { assert(m.count(k) == if s.contains(k.0.1) && k.0 == dk(c, g, k.0.1) { 1nat } else { 0nat }); } }
proof fn lemma_remove_rkeyed<E: ElementContainer>(c: &E, g: E::V, m: Multiset<Reverse<Key>>, s: Set<usize>, k0: Reverse<Key>)
    requires rkeyed(c, g, m, s), m.contains(k0) ensures k0.0 == dk(c, g, k0.0.1), s.contains(k0.0.1), rkeyed(c, g, m.remove(k0), s.remove(k0.0.1))
{ let o = m.remove(k0); assert(m.count(k0) > 0); assert forall|k: Reverse<Key>| #[trigger] o.count(k) == if s.remove(k0.0.1).contains(k.0.1) && k.0 == dk(c, g, k.0.1) { 1nat } else { 0nat } by { assert(m.count(k) == if s.contains(k.0.1) && k.0 == dk(c, g, k.0.1) { 1nat } else { 0nat }); } }
/// pushing i onto the results: the ids kept
proof fn lemma_push<E: ElementContainer>(c: &E, g: E::V, h: Multiset<Key>, hs: Set<usize>, m: int, i: usize, o: Multiset<Key>) -> (s: Set<usize>)
    requires ords(), keyed(c, g, h, hs), !hs.contains(i), h.len() <= m, m >= 1, heap_push(h, m, dk(c, g, i), o)
    ensures keyed(c, g, o, s), s.len() >= hs.len(), s.len() >= 1, s.len() <= m, forall|x: usize| #[trigger] s.contains(x) ==> hs.contains(x) || x == i, s.contains(i) || rejected(c, g, s, m, i),
        forall|x: usize| #[trigger] hs.contains(x) ==> s.contains(x) || rejected(c, g, s, m, x), forall|x: usize| #[trigger] rejected(c, g, hs, m, x) ==> rejected(c, g, s, m, x)
{
    let e = dk(c, g, i);
    if h.len() < m { lemma_insert_keyed(c, g, h, hs, i); hs.insert(i) }
    else if exists|t: Key| #![trigger is_top(h, t)] is_top(h, t) && vlt(e, t) {
        let t0 = choose|t: Key| #![trigger is_top(h, t)] is_top(h, t) && vlt(e, t);
        let t = choose|t: Key| #![trigger is_top(h, t)] is_top(h, t) && o == h.remove(t).insert(e);
        lemma_tops::<Key>(h);
        lemma_remove_keyed(c, g, h, hs, t); lemma_insert_keyed(c, g, h.remove(t), hs.remove(t.1), i);
        let s = hs.remove(t.1).insert(i);
        lemma_rank(c, g, h, hs, t);
        assert(klt(e, t));
        s
    } else {
        assert(hs.len() >= 1);
        assert(exists|x: usize| hs.contains(x)) by { if forall|x: usize| !hs.contains(x) { assert(hs =~= Set::empty()); } }
        lemma_some_top(c, g, h, hs);
        let t = choose|t: Key| is_top(h, t);
        lemma_rank(c, g, h, hs, t);
        assert(!vlt(e, t));
        hs
    }
}
/// no kept id is farther away than the top
proof fn lemma_rank<E: ElementContainer>(c: &E, g: E::V, h: Multiset<Key>, hs: Set<usize>, t: Key)
    requires ords(), keyed(c, g, h, hs), is_top(h, t) ensures forall|j: usize| #[trigger] hs.contains(j) ==> c.d(j as int, g).ord() <= t.0.ord() && !klt(t, dk(c, g, j))
{ assert forall|j: usize| #[trigger] hs.contains(j) implies c.d(j as int, g).ord() <= t.0.ord() && !klt(t, dk(c, g, j)) by { lemma_keyed_in(c, g, h, hs, j); assert(!vlt(t, dk(c, g, j))); } }
proof fn lemma_some_top<E: ElementContainer>(c: &E, g: E::V, h: Multiset<Key>, hs: Set<usize>)
    requires ords(), keyed(c, g, h, hs), hs.len() >= 1 ensures exists|t: Key| is_top(h, t)
{
    let k = lemma_max(c, g, hs);
    lemma_keyed_in(c, g, h, hs, k);
    assert forall|x: Key| #[trigger] h.contains(x) implies !vlt(dk(c, g, k), x) by { assert(h.count(x) > 0); assert(!klt(dk(c, g, k), dk(c, g, x.1))); }
    assert(is_top(h, dk(c, g, k)));
}
proof fn lemma_max<E: ElementContainer>(c: &E, g: E::V, hs: Set<usize>) -> (k: usize)
    requires ords(), hs.len() >= 1 ensures hs.contains(k), forall|j: usize| #[trigger] hs.contains(j) ==> !klt(dk(c, g, k), dk(c, g, j))
    decreases hs.len()
{
    let x = hs.choose();
    assert(hs.contains(x)) by { if forall|x: usize| !hs.contains(x) { assert(hs =~= Set::empty()); } }
    let r = hs.remove(x);
    if r.len() == 0 { assert(r =~= Set::empty()); assert forall|j: usize| #[trigger] hs.contains(j) implies j == x by { assert(!r.contains(j)); } x }
    else {
        let y = lemma_max(c, g, r);
        if klt(dk(c, g, y), dk(c, g, x)) { assert forall|j: usize| #[trigger] hs.contains(j) implies !klt(dk(c, g, x), dk(c, g, j)) by { if j != x { assert(r.contains(j)); } } x }
        else { assert forall|j: usize| #[trigger] hs.contains(j) implies !klt(dk(c, g, y), dk(c, g, j)) by { if j != x { assert(r.contains(j)); } } y }
    }
}
/// the kept entries in order
proof fn lemma_sorted<E: ElementContainer>(c: &E, g: E::V, h: Multiset<Key>, hs: Set<usize>, s: Seq<Key>, r: Seq<(usize, NotNan<f32>)>)
    requires ords(), keyed(c, g, h, hs), s.to_multiset() == h, sorted_vlt(s), r.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] r[i] == (s[i].1, s[i].0)
    ensures r.len() == hs.len(), forall|x: usize| #[trigger] has(r, x) == hs.contains(x), forall|i: int| 0 <= i < r.len() ==> hs.contains((#[trigger] r[i]).0) && r[i].1 == c.d(r[i].0 as int, g),
        forall|i: int, j: int| 0 <= i < j < r.len() ==> klt(key2(#[trigger] r[i]), key2(#[trigger] r[j]))
{
    s.to_multiset_ensures();
    s.lemma_multiset_has_no_duplicates_conv();
    assert forall|i: int| 0 <= i < r.len() implies hs.contains((#[trigger] r[i]).0) && r[i].1 == c.d(r[i].0 as int, g) && s[i] == dk(c, g, r[i].0) by { assert(s.contains(s[i])); assert(h.count(s[i]) > 0); }
    assert forall|x: usize| #[trigger] has(r, x) == hs.contains(x) by {
        if hs.contains(x) { lemma_keyed_in(c, g, h, hs, x); assert(s.contains(dk(c, g, x))); let i = choose|i: int| 0 <= i < s.len() && s[i] == dk(c, g, x); assert(r[i].0 == x); }
        if has(r, x) { let i = choose|i: int| 0 <= i < r.len() && #[trigger] r[i].0 == x; assert(hs.contains(r[i].0)); }
    }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies klt(key2(#[trigger] r[i]), key2(#[trigger] r[j])) by { assert(!vlt(s[j], s[i])); assert(s[i] != s[j]); assert(key2(r[i]) == s[i] && key2(r[j]) == s[j]); }
}
/// the state of a search
spec fn state<L: Graph + ?Sized, E: ElementContainer>(l: &L, c: &E, e: usize, g: E::V, m: int, h: Multiset<Key>, p: Multiset<Reverse<Key>>, v: Set<usize>, hs: Set<usize>, ps: Set<usize>, obs: Map<usize, Seq<usize>>) -> bool {
    in_both(l, c) && c.inv() && c.fits(g) && m >= 1 && h.len() <= m && keyed(c, g, h, hs) && rkeyed(c, g, p, ps)
    && (forall|i: usize| #[trigger] v.contains(i) ==> i < l.n() && i < c.n()) && v.contains(e)
    && (forall|i: usize| #[trigger] hs.contains(i) ==> v.contains(i) && !ps.contains(i) && obs.contains_key(i))
    && (forall|i: usize| #[trigger] ps.contains(i) ==> v.contains(i))
    && observed(l, obs)
    && (forall|r: Set<usize>| #[trigger] closed(l, e, r) ==> v.subset_of(r))
}
/// every visited node is kept, waiting or rejected
spec fn cover<E: ElementContainer>(c: &E, g: E::V, m: int, v: Set<usize>, hs: Set<usize>, ps: Set<usize>) -> bool { forall|i: usize| #[trigger] v.contains(i) ==> hs.contains(i) || ps.contains(i) || rejected(c, g, hs, m, i) }
/// the neighbors of every kept node but x were visited
spec fn expanded(v: Set<usize>, hs: Set<usize>, obs: Map<usize, Seq<usize>>, x: Option<usize>) -> bool { forall|i: usize, k: int| #![trigger obs[i][k]] hs.contains(i) && Some(i) != x && 0 <= k < obs[i].len() ==> v.contains(obs[i][k]) }
/*@ src/index/mod.rs :: fn search_for_neighbors
#ret r
#subst `max_size_heap :: MaxSizeHeap` => `MaxSizeHeap`
#subst `cmp :: Reverse < _ >` => `Reverse < Key >`
#subst `cmp :: Reverse` => `Reverse`
#closure 0 (b: (usize, NotNan<f32>)) types: (NotNan<f32>, usize)
    ensures b == (vx_p0.1, vx_p0.0)
#spec
    requires in_both(layer, elements), elements.inv(), elements.fits(Elements::val(*goal)), entrypoint < layer.n(), entrypoint < elements.n(), 1 <= max_search, max_search * 20 <= usize::MAX
    ensures exists|obs: Map<usize, Seq<usize>>| #[trigger] found(layer, elements, entrypoint, Elements::val(*goal), max_search as int, r@, obs)
#begin
    proof { lemma_ords(); }
    let ghost mut hs: Set<usize> = Set::empty(); let ghost mut ps: Set<usize> = Set::empty(); let ghost mut obs: Map<usize, Seq<usize>> = Map::empty();
    let ghost c = elements; let ghost g = Elements::val(*goal); let ghost m = max_search as int; let ghost l = layer;
#loop 0 before
    proof {
        assert(keyed(c, g, res.h(), hs));
        assert(rkeyed(c, g, Multiset::<Reverse<Key>>::empty(), ps));
        lemma_insert_rkeyed(c, g, Multiset::empty(), ps, entrypoint); ps = ps.insert(entrypoint);
    }
#loop 0 inv
    invariant_except_break
        cover(c, g, m, visited@, hs, ps), hs.len() == 0 ==> ps.len() > 0,
    invariant ords(), c == elements, g == Elements::val(*goal), m == max_search, l == layer, res.wf(), res.cap() == m,
        state(l, c, entrypoint, g, m, res.h(), pq@, visited@, hs, ps, obs), expanded(visited@, hs, obs, None),
    ensures forall|i: usize| #[trigger] visited@.contains(i) ==> hs.contains(i) || rejected(c, g, hs, m, i), hs.len() > 0
    decreases layer.n() - visited@.len(), pq@.len()
#loop 0 begin
    let ghost p0 = pq@; let ghost v0 = visited@;
    proof { if p0.len() == 0 { assert(ps.len() == 0); assert(ps =~= Set::empty()); } lemma_bounded(visited@, l.n()); }
#at before `if res . is_full ( ) && d >`
    proof {
        let k0 = Reverse((d, idx)); lemma_remove_rkeyed(c, g, p0, ps, k0);
        assert forall|i: usize| #[trigger] ps.contains(i) implies c.d(i as int, g).ord() >= d.ord() by { assert(p0.count(Reverse(dk(c, g, i))) > 0); assert(p0.contains(Reverse(dk(c, g, i)))); assert(!vlt(k0, Reverse(dk(c, g, i)))); }
        ps = ps.remove(idx);
        if res.h().len() >= m { lemma_some_top(c, g, res.h(), hs); lemma_tops::<Key>(res.h()); assert forall|t: Key| #[trigger] is_top(res.h(), t) implies (forall|j: usize| #[trigger] hs.contains(j) ==> c.d(j as int, g).ord() <= t.0.ord()) by { lemma_rank(c, g, res.h(), hs, t); } }
    }
    let ghost h0 = res.h(); let ghost hs0 = hs;
#loop 1 enter
    proof {
        hs = lemma_push(c, g, h0, hs0, m, idx, res.h());
        obs = obs.insert(idx, vx_v1@);
    }
#loop 1 inv
    invariant ords(), c == elements, g == Elements::val(*goal), m == max_search, l == layer, res.wf(), res.cap() == m, hs.len() > 0,
        state(l, c, entrypoint, g, m, res.h(), pq@, visited@, hs, ps, obs), cover(c, g, m, visited@, hs, ps), expanded(visited@, hs, obs, Some(idx)),
        obs.contains_key(idx), obs[idx] == vx_v1@, l.rel(idx as int, vx_v1@), 0 <= vx_i1 <= vx_v1@.len(), visited@.contains(idx), idx < l.n(), idx < c.n(),
        forall|k: int| 0 <= k < vx_i1 ==> visited@.contains(#[trigger] vx_v1@[k]),
        v0.subset_of(visited@), visited@.len() == v0.len() ==> pq@.len() < p0.len(), visited@.len() >= v0.len(),
    decreases vx_v1@.len() - vx_i1
#loop 1 begin
    let ghost va = visited@; let ghost pa = pq@; let ghost nb = vx_v1@[vx_i1 - 1];
    proof {
        assert(nb < l.n() && nb < c.n());
        lemma_some_top(c, g, res.h(), hs); lemma_tops::<Key>(res.h());
        assert forall|t: Key| #[trigger] is_top(res.h(), t) implies (forall|j: usize| #[trigger] hs.contains(j) ==> c.d(j as int, g).ord() <= t.0.ord()) by { lemma_rank(c, g, res.h(), hs, t); }
    }
#loop 1 end
    proof {
        if !va.contains(nb) {
            if pq@ != pa { lemma_insert_rkeyed(c, g, pa, ps, nb); ps = ps.insert(nb); }
            else { assert(rejected(c, g, hs, m, nb)); }
        } else { assert(visited@ =~= va); }
    }
#loop 0 end
    proof { lemma_bounded(visited@, l.n()); }
#tail r
    proof {
        assert(exists|s: Seq<Key>| #[trigger] s.to_multiset() == res.h() && sorted_vlt(s) && r@.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] r@[i] == (s[i].1, s[i].0));
        let s = choose|s: Seq<Key>| #[trigger] s.to_multiset() == res.h() && sorted_vlt(s) && r@.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] r@[i] == (s[i].1, s[i].0);
        lemma_sorted(c, g, res.h(), hs, s, r@);
        assert(found(layer, elements, entrypoint, Elements::val(*goal), max_search as int, r@, obs));
    }
@*/
proof fn lemma_bounded(v: Set<usize>, n: nat) requires forall|i: usize| #[trigger] v.contains(i) ==> i < n ensures v.len() <= n
{
    let u = set_int_range(0, n as int); lemma_int_range(0, n as int);
    let w = v.map(|i: usize| i as int);
    assert(w.subset_of(u)) by { assert forall|x: int| #[trigger] w.contains(x) implies u.contains(x) by {} }
    lemma_map_size(v, w, |i: usize| i as int);
    lemma_len_subset(w, u);
}
