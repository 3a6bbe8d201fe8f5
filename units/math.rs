pub open spec fn dot_to(x: Seq<i8>, y: Seq<i8>, k: int) -> int decreases k { if k <= 0 { 0 } else { dot_to(x, y, k - 1) + x[k - 1] * y[k - 1] } }
pub open spec fn most_dim() -> int { 131072 }
/// what quantization yields
pub open spec fn quantized(x: Seq<i8>) -> bool { x.len() <= most_dim() && forall|i: int| 0 <= i < x.len() ==> -127 <= #[trigger] x[i] <= 127 }
pub open spec fn common(x: Seq<i8>, y: Seq<i8>) -> int { if x.len() < y.len() { x.len() as int } else { y.len() as int } }
proof fn lemma_prod(a: int, b: int) requires -127 <= a <= 127, -127 <= b <= 127 ensures -16129 <= a * b <= 16129
{ assert(-16129 <= a * b <= 16129) by (nonlinear_arith) requires -127 <= a <= 127, -127 <= b <= 127; }
proof fn lemma_square(a: int) requires -127 <= a <= 127 ensures 0 <= a * a <= 16129, a * a == 0 ==> a == 0
{ assert(0 <= a * a <= 16129) by (nonlinear_arith) requires -127 <= a <= 127; assert(a * a == 0 ==> a == 0) by (nonlinear_arith); }
proof fn lemma_dot_bound(x: Seq<i8>, y: Seq<i8>, k: int)
    requires quantized(x), quantized(y), 0 <= k <= x.len(), k <= y.len()
    ensures -(k * 16129) <= dot_to(x, y, k) <= k * 16129 <= 2114060288
    decreases k
{ if k > 0 { lemma_dot_bound(x, y, k - 1); lemma_prod(x[k - 1] as int, y[k - 1] as int); } }
proof fn lemma_dot_symm(x: Seq<i8>, y: Seq<i8>, k: int)
    requires 0 <= k <= x.len(), k <= y.len() ensures dot_to(x, y, k) == dot_to(y, x, k) decreases k
{ if k > 0 { lemma_dot_symm(x, y, k - 1); let (a, b) = (x[k - 1] as int, y[k - 1] as int); assert(a * b == b * a) by (nonlinear_arith); } }
proof fn lemma_norm(x: Seq<i8>, k: int)
    requires quantized(x), 0 <= k <= x.len() ensures dot_to(x, x, k) >= 0, dot_to(x, x, k) == 0 ==> forall|i: int| 0 <= i < k ==> #[trigger] x[i] == 0 decreases k
{ if k > 0 { lemma_norm(x, k - 1); lemma_square(x[k - 1] as int); } }
proof fn lemma_dot_zero(x: Seq<i8>, y: Seq<i8>, k: int)
    requires 0 <= k <= x.len(), k <= y.len(), forall|i: int| 0 <= i < k ==> #[trigger] x[i] == 0 ensures dot_to(x, y, k) == 0 decreases k
{ if k > 0 { lemma_dot_zero(x, y, k - 1); let b = y[k - 1] as int; assert(0 * b == 0) by (nonlinear_arith); assert(x[k - 1] == 0); } }
pub open spec fn dots(x: Seq<i8>, y: Seq<i8>, r: (i32, i32, i32)) -> bool { let n = common(x, y); r.0 == dot_to(x, y, n) && r.1 == dot_to(x, x, n) && r.2 == dot_to(y, y, n) }
/*@ src/math.rs :: fn dot_product_and_squared_norms_i8 :: fn compute_r_dx_dy_fallback
#ret r
#fops
#closure 0 (b: i32) types: &i8
    ensures b == *vx_p0
#closure 1 (b: i32) types: &i8
    ensures b == *vx_p0
#spec
    requires quantized(x@), quantized(y@)
    ensures dots(x@, y@, r)
#loop 0 inv
    invariant quantized(x@), quantized(y@), vx_v0@.len() == common(x@, y@), forall|i: int| 0 <= i < vx_v0@.len() ==> (#[trigger] vx_v0@[i]).0 == x@[i] && vx_v0@[i].1 == y@[i], 0 <= vx_i0 <= vx_v0@.len(),
        r == dot_to(x@, y@, vx_i0 as int), dx == dot_to(x@, x@, vx_i0 as int), dy == dot_to(y@, y@, vx_i0 as int)
    decreases vx_v0@.len() - vx_i0
#loop 0 begin
    proof { let k = vx_i0 as int; lemma_dot_bound(x@, y@, k); lemma_dot_bound(x@, x@, k); lemma_dot_bound(y@, y@, k); lemma_prod(x@[k - 1] as int, y@[k - 1] as int); lemma_square(x@[k - 1] as int); lemma_square(y@[k - 1] as int); assert(vx_v0@[k - 1].0 == x@[k - 1]); }
@*/
/*@ src/math.rs :: fn dot_product_and_squared_norms_i8 :: fn compute_r_dx_dy_avx2
#ret r
#spec
    requires quantized(x@), quantized(y@)
    ensures dots(x@, y@, r)
@*/
/*@ src/math.rs :: fn dot_product_and_squared_norms_i8
#ret r
#spec
    requires quantized(x@), quantized(y@)
    ensures dots(x@, y@, r)
@*/
// the dot product of floats: CHUNK_SIZE lanes of fused multiply-adds, their sum, and the rest
/*@ src/math.rs :: fn dot_product_f32 :: fn dot_product_fallback :: const CHUNK_SIZE
@*/
pub closed spec fn lanes() -> int { CHUNK_SIZE as int }
proof fn lemma_lanes_positive() ensures 1 <= lanes() <= 65536 {}
/// lane i after k chunks
pub open spec fn lane(x: Seq<f32>, y: Seq<f32>, i: int, k: int) -> f32 decreases k { if k <= 0 { 0f32 } else { f_fma(x[(k - 1) * lanes() + i], y[(k - 1) * lanes() + i], lane(x, y, i, k - 1)) } }
/// sum of the first i of the lanes
pub open spec fn lane_sum(x: Seq<f32>, y: Seq<f32>, m: int, i: int) -> f32 decreases i { if i <= 0 { 0f32 } else { f_sum(lane_sum(x, y, m, i - 1), lane(x, y, i - 1, m)) } }
/// .. and the first j of the components behind the m whole chunks
pub open spec fn rest_sum(x: Seq<f32>, y: Seq<f32>, m: int, j: int) -> f32 decreases j { if j <= 0 { lane_sum(x, y, m, lanes()) } else { f_fma(x[m * lanes() + j - 1], y[m * lanes() + j - 1], rest_sum(x, y, m, j - 1)) } }
pub open spec fn dotf(x: Seq<f32>, y: Seq<f32>) -> f32 { rest_sum(x, y, x.len() as int / lanes(), x.len() as int % lanes()) }
pub trait VxRemainder<T> { fn vx_remainder(&self, n: usize) -> (r: It<&T>); }
impl<T> VxRemainder<T> for [T] {
    /// chunks_exact(n).remainder().iter()
    #[verifier::external_body]
    fn vx_remainder(&self, n: usize) -> (r: It<&T>) ensures n > 0, r@.len() == self@.len() as int % n as int, forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self@[(self@.len() as int / n as int) * n + i] { unimplemented!() }
}
/*@ src/math.rs :: fn dot_product_f32 :: fn dot_product_fallback
#ret r
#fops
#subst `. chunks_exact ( CHUNK_SIZE ) . remainder ( ) . iter ( )` => `. vx_remainder ( CHUNK_SIZE )`
#subst `. chunks_exact ( CHUNK_SIZE ) . remainder ( )` => `. vx_remainder ( CHUNK_SIZE )`
#drop `const CHUNK_SIZE`
#spec
    ensures x@.len() == y@.len() ==> r == dotf(x@, y@)
#loop 0 before
    let ghost m = x@.len() as int / lanes();
    proof { assert(CHUNK_SIZE == lanes()); }
#loop 0 inv
    invariant CHUNK_SIZE == lanes(), m == x@.len() as int / lanes(), 0 <= vx_i0 <= vx_v0@.len(), x@.len() == y@.len() ==> vx_v0@.len() == m,
        forall|i: int| 0 <= i < vx_v0@.len() ==> (#[trigger] vx_v0@[i]).0@.len() == lanes() && vx_v0@[i].1@.len() == lanes(),
        x@.len() == y@.len() ==> forall|i: int| 0 <= i < m ==> (#[trigger] vx_v0@[i]).0@ == x@.subrange(i * lanes(), i * lanes() + lanes()) && vx_v0@[i].1@ == y@.subrange(i * lanes(), i * lanes() + lanes()) && 0 <= i * lanes() && i * lanes() + lanes() <= x@.len(),
        chunk@.len() == lanes(), x@.len() == y@.len() ==> forall|i: int| 0 <= i < lanes() ==> #[trigger] chunk@[i] == lane(x@, y@, i, vx_i0 as int)
    decreases vx_v0@.len() - vx_i0
#loop 1 inv
    invariant CHUNK_SIZE == lanes(), 0 <= vx_i1 <= vx_e1, vx_e1 == lanes(), x@.len() == y@.len() ==> a@ == x@.subrange((vx_i0 - 1) * lanes(), (vx_i0 - 1) * lanes() + lanes()) && b@ == y@.subrange((vx_i0 - 1) * lanes(), (vx_i0 - 1) * lanes() + lanes()),
        x@.len() == y@.len() ==> 0 <= (vx_i0 - 1) * lanes() && (vx_i0 - 1) * lanes() + lanes() <= x@.len(),
        a@.len() == lanes(), b@.len() == lanes(), vx_i0 >= 1,
        chunk@.len() == lanes(), x@.len() == y@.len() ==> forall|i: int| vx_i1 <= i < lanes() ==> #[trigger] chunk@[i] == lane(x@, y@, i, vx_i0 - 1),
        x@.len() == y@.len() ==> forall|i: int| 0 <= i < vx_i1 ==> #[trigger] chunk@[i] == lane(x@, y@, i, vx_i0 as int)
    decreases vx_e1 - vx_i1
#loop 1 enter
    proof { assert(vx_v0@[vx_i0 - 1].0@.len() == lanes()); }
#loop 1 end
    proof { if x@.len() == y@.len() { let k = vx_i1 - 1; assert(a@[k] == x@[(vx_i0 - 1) * lanes() + k]); assert(b@[k] == y@[(vx_i0 - 1) * lanes() + k]); } }
#loop 2 inv
    invariant CHUNK_SIZE == lanes(), 0 <= vx_i2 <= vx_e2, vx_e2 == lanes(), chunk@.len() == lanes(), m == x@.len() as int / lanes(), x@.len() == y@.len() ==> forall|i: int| 0 <= i < lanes() ==> #[trigger] chunk@[i] == lane(x@, y@, i, m),
        x@.len() == y@.len() ==> r == lane_sum(x@, y@, m, vx_i2 as int)
    decreases vx_e2 - vx_i2
#loop 3 inv
    invariant CHUNK_SIZE == lanes(), 0 <= vx_i3 <= vx_v3@.len(), m == x@.len() as int / lanes(), x@.len() == y@.len() ==> vx_v3@.len() == x@.len() as int % lanes(),
        x@.len() == y@.len() ==> forall|i: int| 0 <= i < vx_v3@.len() ==> *(#[trigger] vx_v3@[i]).0 == x@[m * lanes() + i] && *vx_v3@[i].1 == y@[m * lanes() + i],
        x@.len() == y@.len() ==> r == rest_sum(x@, y@, m, vx_i3 as int)
    decreases vx_v3@.len() - vx_i3
@*/
/*@ src/math.rs :: fn dot_product_f32 :: fn dot_product_avx2
#ret r
#spec
    ensures x@.len() == y@.len() ==> r == dotf(x@, y@)
@*/
/*@ src/math.rs :: fn dot_product_f32
#ret r
#spec
    ensures x@.len() == y@.len() ==> r == dotf(x@, y@)
@*/
