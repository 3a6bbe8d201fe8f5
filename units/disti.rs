use core::cmp;
// the distance of integer vectors
/// 1 - r / (sqrt(x) * sqrt(y)) in single precision, r / .. taken as 0 when it is not a number, and at least 0
pub open spec fn cosine(r: int, x: int, y: int) -> NotNan<f32> {
    let q = f_div(f_int(r), f_mul(f_sqrt(f_int(x)), f_sqrt(f_int(y))));
    let d = nn(f_sub(1f32, if nan(q) { 0f32 } else { q }));
    if d.ord() < nn(0f32).ord() { nn(0f32) } else { d }
}
pub open spec fn vdist(a: Seq<i8>, b: Seq<i8>) -> NotNan<f32> { let n = common(a, b); cosine(dot_to(a, b, n), dot_to(a, a, n), dot_to(b, b, n)) }
pub open spec fn sane(a: Seq<i8>, b: Seq<i8>) -> bool { quantized(a) && quantized(b) }
impl<'a, 'b> Dist<Vector<'b>> for Vector<'a> {
    open spec fn sd(self, o: Vector<'b>) -> NotNan<f32> { vdist(self@, o@) }
    open spec fn comparable(self, o: Vector<'b>) -> bool { sane(self@, o@) }
/*@ src/elements/angular_int.rs :: impl Dist for Vector :: fn dist
#ret r
#fops
#closure 0 (b: NotNan<f32>) types: FloatIsNan
    ensures b == nn(0f32)
#begin
    proof { axiom_lits(); axiom_nn(0f32); axiom_nn(1f32); axiom_num(0f32); axiom_num(1f32); }
#tail res
    proof { let n = common(self@, other@); let q = f_div(f_int(dot_to(self@, other@, n)), f_mul(f_sqrt(f_int(dot_to(self@, self@, n))), f_sqrt(f_int(dot_to(other@, other@, n))))); axiom_nn(q); lemma_zero_tie(if nan(q) { 0f32 } else { q }); }
#subst `math :: dot_product_and_squared_norms_i8` => `dot_product_and_squared_norms_i8`
@*/
}
/// C16 for integers: at least 0, symmetric, made from the exact dot product and squared norms; exactly 1 when a vector is zero
proof fn lemma_c16(a: Vector<'_>, b: Vector<'_>)
    requires quantized(a@), quantized(b@), a@.len() == b@.len()
    ensures a.sd(b).ord() >= nn(0f32).ord(), !nan(a.sd(b).inner()), num(a.sd(b).inner()) ==> val(a.sd(b).inner()) >= 0real,
        a.sd(b) == b.sd(a), ({ let n = a@.len() as int; a.sd(b) == cosine(dot_to(a@, b@, n), dot_to(a@, a@, n), dot_to(b@, b@, n)) }),
        (forall|i: int| 0 <= i < a@.len() ==> #[trigger] a@[i] == 0) || (forall|i: int| 0 <= i < b@.len() ==> #[trigger] b@[i] == 0) ==> num(a.sd(b).inner()) && val(a.sd(b).inner()) == 1real
{
    let n = a@.len() as int; let (r, x, y) = (dot_to(a@, b@, n), dot_to(a@, a@, n), dot_to(b@, b@, n));
    axiom_inner(a.sd(b)); axiom_lits(); axiom_num(0f32); axiom_nn(0f32); axiom_ord(nn(0f32), a.sd(b));
    lemma_dot_symm(a@, b@, n); lemma_dot_bound(a@, b@, n); lemma_dot_bound(a@, a@, n); lemma_dot_bound(b@, b@, n); lemma_norm(a@, n); lemma_norm(b@, n);
    axiom_int(r); axiom_int(x); axiom_int(y); axiom_rnd_int(0);
    axiom_rnd_mono(0real, x as real); axiom_rnd_mono(0real, y as real);
    axiom_sqrt(f_int(x)); axiom_sqrt(f_int(y));
    let (sx, sy) = (f_sqrt(f_int(x)), f_sqrt(f_int(y)));
    axiom_mul(sx, sy); axiom_mul(sy, sx);
    if (forall|i: int| 0 <= i < a@.len() ==> #[trigger] a@[i] == 0) || (forall|i: int| 0 <= i < b@.len() ==> #[trigger] b@[i] == 0) {
        if forall|i: int| 0 <= i < a@.len() ==> #[trigger] a@[i] == 0 { lemma_dot_zero(a@, b@, n); lemma_dot_zero(a@, a@, n); } else { lemma_dot_zero(b@, a@, n); lemma_dot_zero(b@, b@, n); }
        assert(val(f_int(r)) == 0real);
        assert(val(sx) * val(sy) == 0real) by (nonlinear_arith) requires val(sx) == 0real || val(sy) == 0real;
        axiom_rnd_int(1);
        axiom_div(f_int(r), f_mul(sx, sy));
        let d = f_sub(1f32, 0f32); axiom_sub(1f32, 0f32); axiom_num(d); axiom_nn(d); axiom_ord(nn(d), nn(0f32)); axiom_ord(nn(0f32), nn(d));
    }
}
