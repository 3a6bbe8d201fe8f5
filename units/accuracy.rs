// how far single precision dot products are from the exact ones
pub open spec fn term(x: Seq<f32>, y: Seq<f32>, i: int) -> real { val(x[i]) * val(y[i]) }
/// exact sum of the first k products
pub open spec fn exact(x: Seq<f32>, y: Seq<f32>, k: int) -> real decreases k { if k <= 0 { 0real } else { exact(x, y, k - 1) + term(x, y, k - 1) } }
/// exact sum of their magnitudes
pub open spec fn weight(x: Seq<f32>, y: Seq<f32>, k: int) -> real decreases k { if k <= 0 { 0real } else { weight(x, y, k - 1) + rabs(term(x, y, k - 1)) } }
pub open spec fn numbers(x: Seq<f32>) -> bool { forall|i: int| 0 <= i < x.len() ==> num(#[trigger] x[i]) }
// the same per lane
pub open spec fn lane_exact(x: Seq<f32>, y: Seq<f32>, i: int, k: int) -> real decreases k { if k <= 0 { 0real } else { lane_exact(x, y, i, k - 1) + term(x, y, (k - 1) * lanes() + i) } }
pub open spec fn lane_weight(x: Seq<f32>, y: Seq<f32>, i: int, k: int) -> real decreases k { if k <= 0 { 0real } else { lane_weight(x, y, i, k - 1) + rabs(term(x, y, (k - 1) * lanes() + i)) } }
pub open spec fn lanes_exact(x: Seq<f32>, y: Seq<f32>, i: int, k: int) -> real decreases i { if i <= 0 { 0real } else { lanes_exact(x, y, i - 1, k) + lane_exact(x, y, i - 1, k) } }
pub open spec fn lanes_weight(x: Seq<f32>, y: Seq<f32>, i: int, k: int) -> real decreases i { if i <= 0 { 0real } else { lanes_weight(x, y, i - 1, k) + lane_weight(x, y, i - 1, k) } }
/// the chunk k adds its components to the lanes
proof fn lemma_chunk(x: Seq<f32>, y: Seq<f32>, i: int, k: int)
    requires 0 <= i <= lanes(), k >= 0
    ensures lanes_exact(x, y, i, k + 1) - lanes_exact(x, y, i, k) == exact(x, y, k * lanes() + i) - exact(x, y, k * lanes()),
        lanes_weight(x, y, i, k + 1) - lanes_weight(x, y, i, k) == weight(x, y, k * lanes() + i) - weight(x, y, k * lanes())
    decreases i
{
    if i > 0 {
        lemma_chunk(x, y, i - 1, k);
        assert(k * lanes() >= 0) by (nonlinear_arith) requires k >= 0, lanes() >= i, i > 0;
        assert(k * lanes() + i - 1 == k * lanes() + (i - 1));
    }
}
proof fn lemma_lanes_zero(x: Seq<f32>, y: Seq<f32>, i: int) requires i >= 0 ensures lanes_exact(x, y, i, 0) == 0real, lanes_weight(x, y, i, 0) == 0real decreases i
{ if i > 0 { lemma_lanes_zero(x, y, i - 1); } }
proof fn lemma_lanes(x: Seq<f32>, y: Seq<f32>, k: int)
    requires k >= 0, lanes() > 0 ensures lanes_exact(x, y, lanes(), k) == exact(x, y, k * lanes()), lanes_weight(x, y, lanes(), k) == weight(x, y, k * lanes())
    decreases k
{
    if k > 0 { lemma_lanes(x, y, k - 1); lemma_chunk(x, y, lanes(), k - 1); assert((k - 1) * lanes() + lanes() == k * lanes()) by (nonlinear_arith); }
    else { lemma_lanes_zero(x, y, lanes()); assert(0 * lanes() == 0); }
}
/// a is within 2 k ulp s + 2 h tiny of e, where s is at least the magnitude of e
pub open spec fn near(a: f32, e: real, s: real, k: int, h: int) -> bool { num(a) && rabs(e) <= s && rabs(val(a) - e) <= bound(s, k, h) }
pub open spec fn bound(s: real, k: int, h: int) -> real { 0.00000011920928955078125real * ((k as real) * s) + 2real * ((h as real) * tiny()) }
pub open spec fn most() -> int { 8000000 }
/// one more rounding: z is within the bound of e
proof fn lemma_round(z: real, r: f32, e: real, s: real, k: int, h: int)
    requires rabs(e) <= s <= 4real, 0 <= k <= most(), 0 <= h <= most(), rabs(z - e) <= bound(s, k, h), rounds(z, r)
    ensures near(r, e, s, k + 1, h + 1)
{
    axiom_rnd_err(z); lemma_tiny();
    let t = tiny(); let (kr, hr) = (k as real, h as real); let (p, q) = (kr * s, hr * t);
    assert(0real <= p <= 8000000real * s) by (nonlinear_arith) requires p == kr * s, 0real <= kr <= 8000000real, s >= 0real;
    assert(0real <= q <= 8000000real * t) by (nonlinear_arith) requires q == hr * t, 0real <= hr <= 8000000real, t >= 0real;
    assert((kr + 1real) * s == p + s) by (nonlinear_arith) requires p == kr * s;
    assert((hr + 1real) * t == q + t) by (nonlinear_arith) requires q == hr * t;
    assert((k + 1) as real == kr + 1real && (h + 1) as real == hr + 1real);
}
proof fn lemma_tiny() ensures 0real < tiny() < 0.000001real
{ axiom_tiny(); let t = tiny(); assert(0real < t < 0.000001real) by (nonlinear_arith) requires t * 713623846352979940529142984724747568191373312real == 1real; }
proof fn lemma_bound_add(s1: real, k1: int, h1: int, s2: real, k2: int, h2: int)
    requires 0 <= k2 <= k1, 0 <= h1, 0 <= h2, 0real <= s1, 0real <= s2
    ensures bound(s1, k1, h1) + bound(s2, k2, h2) <= bound(s1 + s2, k1, h1 + h2)
{
    let t = tiny(); let (a, b, p, q) = (k1 as real, k2 as real, h1 as real, h2 as real);
    assert(b * s2 <= a * s2) by (nonlinear_arith) requires b <= a, s2 >= 0real;
    assert(a * (s1 + s2) == a * s1 + a * s2) by (nonlinear_arith);
    assert((p + q) * t == p * t + q * t) by (nonlinear_arith);
    assert((h1 + h2) as real == p + q);
}
proof fn lemma_bound_more(s: real, s1: real, k: int, h: int) requires s <= s1, k >= 0 ensures bound(s, k, h) <= bound(s1, k, h)
{ let a = k as real; assert(a * s <= a * s1) by (nonlinear_arith) requires s <= s1, a >= 0real; }
proof fn lemma_bound_zero(k: int) ensures bound(0real, k, 0) == 0real
{ let (a, t) = (k as real, tiny()); assert(a * 0real == 0real) by (nonlinear_arith); assert(0real * t == 0real) by (nonlinear_arith); }
/// a product added by a fused operation
proof fn lemma_fma(a: f32, b: f32, c: f32, e: real, s: real, k: int, h: int)
    requires num(a), num(b), near(c, e, s, k, h), 0 <= k <= most(), 0 <= h <= most(), s + rabs(val(a) * val(b)) <= 4real
    ensures near(f_fma(a, b, c), e + val(a) * val(b), s + rabs(val(a) * val(b)), k + 1, h + 1)
{
    axiom_fma(a, b, c);
    let p = val(a) * val(b);
    lemma_bound_more(s, s + rabs(p), k, h);
    lemma_round(p + val(c), f_fma(a, b, c), e + p, s + rabs(p), k, h);
}
proof fn lemma_sum(a: f32, e1: real, s1: real, k1: int, h1: int, b: f32, e2: real, s2: real, k2: int, h2: int)
    requires near(a, e1, s1, k1, h1), near(b, e2, s2, k2, h2), 0 <= k2 <= k1 <= most(), 0 <= h1, 0 <= h2, h1 + h2 <= most(), s1 + s2 <= 4real
    ensures near(f_sum(a, b), e1 + e2, s1 + s2, k1 + 1, h1 + h2 + 1)
{
    axiom_sum(a, b); lemma_bound_add(s1, k1, h1, s2, k2, h2);
    lemma_round(val(a) + val(b), f_sum(a, b), e1 + e2, s1 + s2, k1, h1 + h2);
}
proof fn lemma_weights(x: Seq<f32>, y: Seq<f32>, k: int) requires k >= 0 ensures rabs(exact(x, y, k)) <= weight(x, y, k), weight(x, y, k) >= 0real decreases k { if k > 0 { lemma_weights(x, y, k - 1); } }
proof fn lemma_lane_weights(x: Seq<f32>, y: Seq<f32>, i: int, k: int) requires k >= 0 ensures rabs(lane_exact(x, y, i, k)) <= lane_weight(x, y, i, k), lane_weight(x, y, i, k) >= 0real decreases k { if k > 0 { lemma_lane_weights(x, y, i, k - 1); } }
proof fn lemma_lanes_weights(x: Seq<f32>, y: Seq<f32>, i: int, j: int, k: int) requires k >= 0, 0 <= i <= j ensures 0real <= lanes_weight(x, y, i, k) <= lanes_weight(x, y, j, k) decreases j { if j > 0 { lemma_lane_weights(x, y, j - 1, k); if i < j { lemma_lanes_weights(x, y, i, j - 1, k); } else { lemma_lanes_weights(x, y, i - 1, i - 1, k); } } }
proof fn lemma_weight_grows(x: Seq<f32>, y: Seq<f32>, i: int, j: int) requires 0 <= i <= j ensures weight(x, y, i) <= weight(x, y, j) decreases j { if i < j { lemma_weight_grows(x, y, i, j - 1); } }
proof fn lemma_near_lane(x: Seq<f32>, y: Seq<f32>, i: int, k: int)
    requires numbers(x), numbers(y), x.len() == y.len(), 0 <= i < lanes(), 0 <= k <= most(), k * lanes() <= x.len(), lane_weight(x, y, i, k) <= 4real
    ensures near(lane(x, y, i, k), lane_exact(x, y, i, k), lane_weight(x, y, i, k), k, k)
    decreases k
{
    axiom_lits(); axiom_tiny();
    if k > 0 {
        let j = (k - 1) * lanes() + i;
        assert(0 <= j < x.len() && (k - 1) * lanes() <= x.len()) by (nonlinear_arith) requires j == (k - 1) * lanes() + i, 0 <= i < lanes(), k >= 1, k * lanes() <= x.len();
        lemma_near_lane(x, y, i, k - 1);
        lemma_fma(x[j], y[j], lane(x, y, i, k - 1), lane_exact(x, y, i, k - 1), lane_weight(x, y, i, k - 1), k - 1, k - 1);
    } else {
        lemma_bound_zero(0);
    }
}
proof fn lemma_near_sum(x: Seq<f32>, y: Seq<f32>, m: int, i: int)
    requires numbers(x), numbers(y), x.len() == y.len(), 0 <= i <= lanes(), 0 <= m, i * m + i <= most(), m + i <= most(), m * lanes() <= x.len(), lanes_weight(x, y, i, m) <= 4real
    ensures near(lane_sum(x, y, m, i), lanes_exact(x, y, i, m), lanes_weight(x, y, i, m), m + i, i * m + i)
    decreases i
{
    axiom_lits(); axiom_tiny();
    if i > 0 {
        lemma_lane_weights(x, y, i - 1, m); lemma_lanes_weights(x, y, i - 1, i - 1, m);
        assert((i - 1) * m + (i - 1) + m + 1 == i * m + i && (i - 1) * m >= 0) by (nonlinear_arith) requires i >= 1, m >= 0;
        lemma_near_sum(x, y, m, i - 1);
        lemma_near_lane(x, y, i - 1, m);
        lemma_sum(lane_sum(x, y, m, i - 1), lanes_exact(x, y, i - 1, m), lanes_weight(x, y, i - 1, m), m + i - 1, (i - 1) * m + (i - 1), lane(x, y, i - 1, m), lane_exact(x, y, i - 1, m), lane_weight(x, y, i - 1, m), m, m);
    } else {
        assert(0 * m == 0);
        lemma_bound_zero(m);
    }
}
proof fn lemma_near_rest(x: Seq<f32>, y: Seq<f32>, m: int, j: int)
    requires numbers(x), numbers(y), x.len() == y.len(), lanes() > 0, 0 <= m, 0 <= j, m * lanes() + j <= x.len(), lanes() * m + lanes() + j <= most(), m + lanes() + j <= most(), weight(x, y, m * lanes() + j) <= 4real
    ensures near(rest_sum(x, y, m, j), exact(x, y, m * lanes() + j), weight(x, y, m * lanes() + j), m + lanes() + j, lanes() * m + lanes() + j)
    decreases j
{
    assert(m * lanes() >= 0) by (nonlinear_arith) requires m >= 0, lanes() > 0;
    if j > 0 {
        let k = m * lanes() + j - 1;
        lemma_near_rest(x, y, m, j - 1);
        lemma_fma(x[k], y[k], rest_sum(x, y, m, j - 1), exact(x, y, k), weight(x, y, k), m + lanes() + j - 1, lanes() * m + lanes() + j - 1);
    } else {
        lemma_lanes(x, y, m);
        assert(lanes() * m == m * lanes()) by (nonlinear_arith);
        lemma_near_sum(x, y, m, lanes());
    }
}
/// operations one after another in a dot product of n components
pub open spec fn chain(n: int) -> int { n / lanes() + lanes() + n % lanes() }
proof fn lemma_dotf(x: Seq<f32>, y: Seq<f32>)
    requires numbers(x), numbers(y), x.len() == y.len(), lanes() > 0, x.len() + lanes() <= most(), weight(x, y, x.len() as int) <= 4real
    ensures near(dotf(x, y), exact(x, y, x.len() as int), weight(x, y, x.len() as int), chain(x.len() as int), x.len() + lanes())
{
    let (n, l) = (x.len() as int, lanes()); let (m, j) = (n / l, n % l);
    assert(m * l + j == n && m >= 0 && 0 <= j && m <= n && l * m == m * l) by (nonlinear_arith) requires m == n / l, j == n % l, l > 0, n >= 0;
    assert(m + l + j <= n + l) by (nonlinear_arith) requires m * l + j == n, l >= 1, m >= 0;
    lemma_near_rest(x, y, m, j);
}
/// the magnitudes of the products are bounded by the squared norms
proof fn lemma_norms(x: Seq<f32>, y: Seq<f32>, k: int) requires k >= 0 ensures 2real * weight(x, y, k) <= exact(x, x, k) + exact(y, y, k) decreases k
{
    if k > 0 {
        lemma_norms(x, y, k - 1);
        let (a, b) = (val(x[k - 1]), val(y[k - 1]));
        assert(2real * (a * b) <= a * a + b * b && -2real * (a * b) <= a * a + b * b) by (nonlinear_arith);
    }
}
