use core::cmp;
// the distance of float vectors
/// 1 - the dot product, at least 0
pub open spec fn one_minus(r: f32) -> NotNan<f32> { let d = nn(f_sub(1f32, r)); if d.ord() < nn(0f32).ord() { nn(0f32) } else { d } }
pub open spec fn vdist(a: Seq<f32>, b: Seq<f32>) -> NotNan<f32> { one_minus(dotf(a, b)) }
pub open spec fn sane(a: Seq<f32>, b: Seq<f32>) -> bool { a.len() == b.len() }
impl<'a, 'b> Dist<Vector<'b>> for Vector<'a> {
    open spec fn sd(self, o: Vector<'b>) -> NotNan<f32> { vdist(self@, o@) }
    open spec fn comparable(self, o: Vector<'b>) -> bool { sane(self@, o@) }
/*@ src/elements/angular.rs :: impl Dist for Vector :: fn dist
#ret r
#fops
#begin
    proof { axiom_lits(); axiom_nn(0f32); axiom_nn(1f32); axiom_num(0f32); axiom_num(1f32); }
#subst `math :: dot_product_f32` => `dot_product_f32`
#subst `. unwrap ( )` => `. rt_unwrap ( )`
#subst? `0.0f32 . into ( )` => `NotNan :: new ( 0.0f32 ) . unwrap ( )`
#tail res
    proof { axiom_nn(f_sub(1f32, r)); lemma_zero_tie(r); }
@*/
}
/// C16 for floats: a distance is a number or infinite, and at least 0
proof fn lemma_c16(a: Vector<'_>, b: Vector<'_>)
    ensures a.sd(b).ord() >= nn(0f32).ord(), !nan(a.sd(b).inner()), num(a.sd(b).inner()) ==> val(a.sd(b).inner()) >= 0real
{ axiom_inner(a.sd(b)); axiom_lits(); axiom_num(0f32); axiom_nn(0f32); axiom_ord(nn(0f32), a.sd(b)); }
/// scaled to unit length
pub open spec fn norm_(x: Seq<f32>) -> f32 { f_sqrt(dotf(x, x)) }
pub open spec fn scaled_to_unit(x: Seq<f32>) -> Seq<f32> { if f_gt(norm_(x), 0f32) { Seq::new(x.len(), |i: int| f_div(x[i], norm_(x))) } else { x } }
impl Vector<'static> {
/*@ src/elements/dense_vector.rs :: macro dense_vector :: impl FromIterator for Vector :: fn from_iter
#macro scalar_type=f32
#sig fn from_iter(iter: It<f32>) -> (r: Self)
#subst `Self :: from ( v )` => `Self :: from_floats ( v )`
#spec
    ensures r@ == scaled_to_unit(iter@)
@*/
/*@ src/elements/angular.rs :: impl From for Vector :: fn from
#sig fn from_floats(mut v: Vec<f32>) -> (r: Self)
#subst `math :: normalize_f32` => `normalize_f32`
#subst? `Cow :: from ( v )` => `Cow :: Owned ( v )`
#spec
    ensures r@ == scaled_to_unit(v@)
@*/
}
/*@ src/math.rs :: fn normalize_f32 :: fn normalize_fallback
#fops
#spec
    ensures final(x)@ == scaled_to_unit(old(x)@)
#loop 0 inv
    invariant norm == norm_(old(x)@), 0 <= vx_i0 <= vx_e0, vx_e0 == old(x)@.len(), x@.len() == old(x)@.len(),
        forall|k: int| 0 <= k < vx_i0 ==> #[trigger] x@[k] == f_div(old(x)@[k], norm), forall|k: int| vx_i0 <= k < x@.len() ==> #[trigger] x@[k] == old(x)@[k]
    decreases vx_e0 - vx_i0
#end
    proof { assert(x@ =~= scaled_to_unit(old(x)@)); }
@*/
/*@ src/math.rs :: fn normalize_f32 :: fn normalize_avx2
#spec
    ensures final(x)@ == scaled_to_unit(old(x)@)
@*/
/*@ src/math.rs :: fn normalize_f32
#spec
    ensures final(x)@ == scaled_to_unit(old(x)@)
@*/
