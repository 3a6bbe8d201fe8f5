// quantization
/*@ src/elements/angular_int.rs :: const MAX_QVALUE
@*/
/// finite components below 10^36
pub open spec fn moderate(s: Seq<f32>) -> bool { forall|i: int| 0 <= i < s.len() ==> num(#[trigger] s[i]) && rabs(val(s[i])) < 1000000000000000000000000000000000000real }
pub open spec fn largest(s: Seq<f32>, i: int) -> bool { forall|j: int| 0 <= j < s.len() ==> rabs(val(#[trigger] s[j])) <= rabs(val(s[i])) }
/// what C17 says about quantizing s to r
pub open spec fn quantizes(s: Seq<f32>, r: Seq<i8>) -> bool {
    r.len() == s.len()
    && (moderate(s) ==> {
        &&& forall|i: int| 0 <= i < s.len() ==> -127 <= #[trigger] r[i] <= 127
        &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] r[i] > 0 ==> val(s[i]) > 0real) && (r[i] < 0 ==> val(s[i]) < 0real)
        &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && val(s[i]) <= val(s[j]) ==> #[trigger] r[i] <= #[trigger] r[j]
        &&& forall|i: int| 0 <= i < s.len() && largest(s, i) && val(s[i]) != 0real ==> #[trigger] r[i] >= 126 || r[i] <= -126
        &&& forall|i: int| 0 <= i < s.len() && val(s[i]) == 0real ==> #[trigger] r[i] == 0
    })
}
/// the value a component is mapped to, given the scale
pub open spec fn scaled(x: f32, m: f32) -> f32 { f_div(f_mul(x, 127f32), m) }
proof fn lemma_trunc_mono(a: real, b: real) requires a <= b ensures trunc(a) <= trunc(b) {}
/// a product with 127: rounded, with the sign and order of its factor
proof fn lemma_scaled(x: f32, m: f32)
    requires num(x), num(m), 0real < val(m) < 1000000000000000000000000000000000000real, rabs(val(x)) <= val(m)
    ensures num(scaled(x, m)), val(scaled(x, m)) == rnd(rnd(val(x) * 127real) / val(m)), rabs(val(scaled(x, m))) < 127.5real,
        val(x) >= 0real ==> val(scaled(x, m)) >= 0real, val(x) <= 0real ==> val(scaled(x, m)) <= 0real, rabs(val(x)) == val(m) ==> rabs(val(scaled(x, m))) > 126.5real
{
    axiom_lits(); lemma_tiny();
    axiom_mul(x, 127f32);
    let (v, w) = (val(x), val(m));
    let p = v * 127real;
    assert(rabs(p) < huge());
    let q = f_mul(x, 127f32);
    let g = w * 127real;
    axiom_rnd_mono(p, g); axiom_rnd_mono(-g, p); axiom_rnd_neg(g); axiom_rnd_int(0); axiom_rnd_mono(0real, p); axiom_rnd_mono(p, 0real);
    // rnd(127 w) is within a factor of 1 + 2^-24 of 127 w
    lemma_product(m);
    let big = rnd(g);
    let z = val(q) / w;
    assert(z * w == val(q)) by (nonlinear_arith) requires z == val(q) / w, w > 0real;
    assert(-127.0001real <= z <= 127.0001real) by (nonlinear_arith) requires z * w == val(q), w > 0real, val(q) <= 127.0001real * w, val(q) >= -127.0001real * w;
    assert(val(q) >= 0real ==> z >= 0real) by (nonlinear_arith) requires z * w == val(q), w > 0real;
    assert(val(q) <= 0real ==> z <= 0real) by (nonlinear_arith) requires z * w == val(q), w > 0real;
    axiom_div(q, m);
    axiom_rnd_err(z); axiom_rnd_mono(0real, z); axiom_rnd_mono(z, 0real);
    if rabs(v) == w {
        if v < 0real { assert(p == -g); }
        assert(rabs(val(q)) == big);
        assert(rabs(z) >= 126.9real) by (nonlinear_arith) requires z * w == val(q), w > 0real, val(q) >= 126.9real * w || val(q) <= -126.9real * w, rabs(z) >= z, rabs(z) >= -z;
    }
}
proof fn lemma_product(m: f32)
    requires num(m), 0real < val(m) < 1000000000000000000000000000000000000real
    ensures 126.9999real * val(m) <= rnd(val(m) * 127real) <= 127.0001real * val(m)
{
    let w = val(m); let g = w * 127real;
    lemma_tiny();
    if g < small() {
        let i = axiom_grid(m);
        let (a, t) = (i as real, tiny());
        assert((i * 127) as real == a * 127real);
        assert((a * 127real) * t == g) by (nonlinear_arith) requires g == (a * t) * 127real;
        axiom_rnd_tiny(i * 127);
    } else { axiom_rnd_err(g); }
}
proof fn lemma_order(x: f32, y: f32, m: f32)
    requires num(x), num(y), num(m), 0real < val(m) < 1000000000000000000000000000000000000real, rabs(val(x)) <= val(m), rabs(val(y)) <= val(m), val(x) <= val(y)
    ensures val(scaled(x, m)) <= val(scaled(y, m))
{
    lemma_scaled(x, m); lemma_scaled(y, m);
    let w = val(m);
    axiom_rnd_mono(val(x) * 127real, val(y) * 127real);
    let (a, b) = (rnd(val(x) * 127real), rnd(val(y) * 127real));
    assert(a / w <= b / w) by (nonlinear_arith) requires a <= b, w > 0real;
    axiom_rnd_mono(a / w, b / w);
}
pub open spec fn scale_ok(s: Seq<f32>, m: NotNan<f32>) -> bool { moderate(s) ==> num(m.inner()) && 0real < val(m.inner()) < 1000000000000000000000000000000000000real && (forall|i: int| 0 <= i < s.len() ==> rabs(val(#[trigger] s[i])) <= val(m.inner())) && ((exists|i: int| 0 <= i < s.len() && val(#[trigger] s[i]) != 0real) ==> exists|i: int| 0 <= i < s.len() && rabs(val(#[trigger] s[i])) == val(m.inner())) }
pub open spec fn scale_of(s: Seq<f32>, q: Seq<NotNan<f32>>, o: Option<NotNan<f32>>, m: NotNan<f32>) -> bool {
    q.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] q[i] == nn(f_abs(s[i])))
    && (o is Some && num(o->Some_0.inner()) && val(o->Some_0.inner()) > 0real ==> m == o->Some_0) && (o is None || (num(o->Some_0.inner()) && val(o->Some_0.inner()) <= 0real) ==> m == nn(127f32))
}
proof fn lemma_scale(s: Seq<f32>, q: Seq<NotNan<f32>>, o: Option<NotNan<f32>>, m: NotNan<f32>)
    requires max_of(q, o), scale_of(s, q, o, m) ensures scale_ok(s, m)
{
    axiom_lits(); axiom_num(127f32); axiom_nn(127f32);
    if moderate(s) {
        assert forall|i: int| 0 <= i < s.len() implies num(#[trigger] q[i].inner()) && val(q[i].inner()) == rabs(val(s[i])) by { assert(num(s[i])); axiom_abs(s[i]); axiom_num(f_abs(s[i])); axiom_nn(f_abs(s[i])); }
        if s.len() > 0 {
            let b = o->Some_0;
            let k = choose|k: int| 0 <= k < q.len() && q[k] == b;
            assert(num(q[k].inner()) && num(s[k]));
            assert forall|i: int| 0 <= i < s.len() implies rabs(val(#[trigger] s[i])) <= val(b.inner()) by { assert(num(q[i].inner())); axiom_ord(q[i], b); }
            if val(b.inner()) > 0real { assert(rabs(val(s[k])) == val(m.inner())); }
        }
    }
}
proof fn lemma_quantizes(s: Seq<f32>, m: NotNan<f32>, r: Seq<i8>)
    requires r.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] r[i] == f_i8(scaled(s[i], m.inner())),
        scale_ok(s, m)
    ensures quantizes(s, r)
{
    if moderate(s) {
        let w = m.inner();
        assert forall|i: int| 0 <= i < s.len() implies -127 <= #[trigger] r[i] <= 127 && (r[i] > 0 ==> val(s[i]) > 0real) && (r[i] < 0 ==> val(s[i]) < 0real) && (largest(s, i) && val(s[i]) != 0real ==> r[i] >= 126 || r[i] <= -126) && r[i] == trunc(val(scaled(s[i], w))) && num(scaled(s[i], w)) && (val(s[i]) == 0real ==> r[i] == 0) by {
            assert(num(s[i])); lemma_scaled(s[i], w); axiom_i8(scaled(s[i], w));
            if largest(s, i) && val(s[i]) != 0real {
                let j = choose|j: int| 0 <= j < s.len() && rabs(val(#[trigger] s[j])) == val(w);
                assert(rabs(val(s[j])) <= rabs(val(s[i])));
            }
        }
        assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && val(s[i]) <= val(s[j]) implies #[trigger] r[i] <= #[trigger] r[j] by {
            assert(num(s[i]) && num(s[j])); lemma_order(s[i], s[j], w); lemma_trunc_mono(val(scaled(s[i], w)), val(scaled(s[j], w)));
        }
    }
}
impl Vector<'static> {
/*@ src/elements/dense_vector.rs :: macro dense_vector :: impl FromIterator for Vector :: fn from_iter
#macro scalar_type=i8
#sig fn from_iter(iter: It<f32>) -> (r: Self)
#subst `Self :: from ( v )` => `Self :: from_floats ( v )`
#spec
    ensures quantizes(iter@, r@)
@*/
/*@ src/elements/angular_int.rs :: impl Vector :: fn quantize
#ret r
#fops
#nodebug
#subst? `* max_value` => `max_value`
#subst? `Cow :: from ( v )` => `Cow :: Owned ( v )`
#subst `. unwrap ( )` => `. rt_unwrap ( )`
#closure 0 (b: NotNan<f32>) types: &f32
    ensures b == nn(f_abs(*vx_p0)), !nan(f_abs(*vx_p0))
#closure 1 (b: bool) types: &NotNan<f32>
    ensures b == f_gt(vx_p0.inner(), 0f32)
#closure 2 (b: NotNan<f32>) types:
    ensures b == nn(127f32)
#spec
    ensures quantizes(s@, r@)
#begin
    proof { axiom_lits(); axiom_nn(127f32); axiom_num(127f32); }
#loop 0 inv
    invariant scale_ok(s@, max_value), 0 <= vx_i0 <= vx_v0@.len(), vx_v0@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> *(#[trigger] vx_v0@[i]) == s@[i],
        v@.len() == vx_i0, forall|i: int| 0 <= i < vx_i0 ==> #[trigger] v@[i] == f_i8(scaled(s@[i], max_value.inner()))
    decreases vx_v0@.len() - vx_i0
#at before `let mut v`
    proof {
        assert forall|m: NotNan<f32>| num(m.inner()) implies #[trigger] f_gt(m.inner(), 0f32) == (val(m.inner()) > 0real) by { axiom_gt(m.inner(), 0f32); }
        assert(exists|q: Seq<NotNan<f32>>, o: Option<NotNan<f32>>| #[trigger] max_of(q, o) && scale_of(s@, q, o, max_value));
        let (q, o) = choose|q: Seq<NotNan<f32>>, o: Option<NotNan<f32>>| #[trigger] max_of(q, o) && scale_of(s@, q, o, max_value);
        lemma_scale(s@, q, o, max_value);
    }
#tail r
    proof { lemma_quantizes(s@, max_value, r@); }
@*/
}
impl Vector<'static> {
/*@ src/elements/angular_int.rs :: impl From for Vector :: fn from
#ret r
#sig fn from_floats(v: Vec<f32>) -> (r: Self)
#spec
    ensures quantizes(v@, r@)
@*/
}
/// C17: the zero vector
proof fn lemma_c17_zero(s: Seq<f32>, r: Seq<i8>) requires quantizes(s, r), forall|i: int| 0 <= i < s.len() ==> num(#[trigger] s[i]) && val(s[i]) == 0real ensures r =~= Seq::new(s.len(), |i: int| 0i8)
{ assert(moderate(s)); }
