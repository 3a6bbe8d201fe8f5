// single precision arithmetic after IEEE 754: every operation on finite numbers gives the nearest representable number to the exact
// (real) result. The axioms state properties of `rnd`, the value of that number, and what the operators of Rust compute.
/// a number: neither NaN nor infinite
pub uninterp spec fn num(x: f32) -> bool;
pub uninterp spec fn nan(x: f32) -> bool;
/// the value of a number
pub uninterp spec fn val(x: f32) -> real;
/// the nearest value with 24 significant bits and a multiple of TINY (no bound on the exponent), ties to even
pub uninterp spec fn rnd(z: real) -> real;
/// 2^-24
pub open spec fn ulp() -> real { 0.000000059604644775390625real }
/// 2^-149, the smallest positive number
pub uninterp spec fn tiny() -> real;
/// 2^-126, the smallest positive normal number
pub open spec fn small() -> real { tiny() * 8388608real }
/// 2^128 - 2^103: a result of this magnitude or more rounds to infinity
pub open spec fn huge() -> real { 340282356779733661637539395458142568448real }
pub open spec fn rabs(x: real) -> real { if x < 0real { -x } else { x } }
pub axiom fn axiom_num(x: f32) ensures num(x) ==> !nan(x) && rnd(val(x)) == val(x) && rabs(val(x)) < huge();
pub axiom fn axiom_lits() ensures num(0f32), val(0f32) == 0real, num(1f32), val(1f32) == 1real, num(127f32), val(127f32) == 127real;
pub axiom fn axiom_tiny() ensures tiny() * 713623846352979940529142984724747568191373312real == 1real;
pub axiom fn axiom_rnd_mono(a: real, b: real) ensures a <= b ==> rnd(a) <= rnd(b);
pub axiom fn axiom_rnd_int(i: int) ensures -16777216 <= i <= 16777216 ==> rnd(i as real) == i as real;
pub axiom fn axiom_rnd_neg(a: real) ensures rnd(-a) == -rnd(a);
/// relative error half a unit in the last place, or half of TINY below the normal numbers
pub axiom fn axiom_rnd_err(a: real) ensures rabs(a) >= small() ==> rabs(rnd(a) - a) <= rabs(a) * ulp(), rabs(a) < small() ==> rabs(rnd(a) - a) <= tiny() / 2real;
/// below the normal numbers the multiples of TINY are exact, and every number is a multiple of TINY
pub axiom fn axiom_rnd_tiny(i: int) ensures rabs(i as real * tiny()) <= small() ==> rnd(i as real * tiny()) == i as real * tiny();
pub axiom fn axiom_grid(x: f32) -> (i: int) ensures num(x) ==> val(x) == i as real * tiny();
pub uninterp spec fn f_mul(x: f32, y: f32) -> f32;
pub uninterp spec fn f_div(x: f32, y: f32) -> f32;
pub uninterp spec fn f_sub(x: f32, y: f32) -> f32;
pub uninterp spec fn f_sum(x: f32, y: f32) -> f32;
pub uninterp spec fn f_fma(x: f32, y: f32, z: f32) -> f32;
pub uninterp spec fn f_sqrt(x: f32) -> f32;
pub uninterp spec fn f_abs(x: f32) -> f32;
pub uninterp spec fn f_int(i: int) -> f32;
pub uninterp spec fn f_i8(x: f32) -> i8;
pub open spec fn rounds(z: real, r: f32) -> bool { rabs(z) < huge() ==> num(r) && val(r) == rnd(z) }
pub axiom fn axiom_mul(x: f32, y: f32) ensures num(x) && num(y) ==> rounds(val(x) * val(y), f_mul(x, y)) && f_mul(x, y) == f_mul(y, x);
pub axiom fn axiom_div(x: f32, y: f32) ensures num(x) && num(y) && val(y) != 0real ==> rounds(val(x) / val(y), f_div(x, y)), num(x) && num(y) && val(x) == 0real && val(y) == 0real ==> nan(f_div(x, y));
pub axiom fn axiom_sub(x: f32, y: f32) ensures num(x) && num(y) ==> rounds(val(x) - val(y), f_sub(x, y));
pub axiom fn axiom_sum(x: f32, y: f32) ensures num(x) && num(y) ==> rounds(val(x) + val(y), f_sum(x, y));
pub axiom fn axiom_fma(x: f32, y: f32, z: f32) ensures num(x) && num(y) && num(z) ==> rounds(val(x) * val(y) + val(z), f_fma(x, y, z));
/// the correctly rounded square root of a number
pub axiom fn axiom_sqrt(x: f32) ensures num(x) && val(x) >= 0real ==> num(f_sqrt(x)) && val(f_sqrt(x)) >= 0real && (val(x) == 0real <==> val(f_sqrt(x)) == 0real);
pub axiom fn axiom_abs(x: f32) ensures num(x) ==> num(f_abs(x)) && val(f_abs(x)) == rabs(val(x));
/// i32 as f32
pub axiom fn axiom_int(i: int) ensures i32::MIN <= i <= i32::MAX ==> num(f_int(i)) && val(f_int(i)) == rnd(i as real);
/// f32 as i8: the integer part, saturating
pub open spec fn trunc(v: real) -> int { if v < 0real { -((-v).floor()) } else { v.floor() } }
pub axiom fn axiom_i8(x: f32) ensures num(x) ==> f_i8(x) == (if trunc(val(x)) > 127 { 127 } else if trunc(val(x)) < -128 { -128 } else { trunc(val(x)) });

pub trait VxMul<R> { type Out; spec fn mul_ok(self, o: R) -> bool; spec fn mul_is(self, o: R) -> Self::Out; fn vx_mul(self, o: R) -> (r: Self::Out) requires self.mul_ok(o) ensures r == self.mul_is(o); }
pub trait VxDiv<R> { type Out; spec fn div_is(self, o: R) -> Self::Out; fn vx_div(self, o: R) -> (r: Self::Out) ensures r == self.div_is(o); }
pub trait VxAdd<R> { type Out; spec fn add_ok(self, o: R) -> bool; spec fn add_is(self, o: R) -> Self::Out; fn vx_add(self, o: R) -> (r: Self::Out) requires self.add_ok(o) ensures r == self.add_is(o); }
pub trait VxSub<R> { type Out; spec fn sub_ok(self, o: R) -> bool; spec fn sub_is(self, o: R, r: Self::Out) -> bool; fn vx_sub(self, o: R) -> (r: Self::Out) requires self.sub_ok(o) ensures self.sub_is(o, r); }
pub uninterp spec fn f_gt(x: f32, y: f32) -> bool;
pub axiom fn axiom_gt(x: f32, y: f32) ensures num(x) && num(y) ==> f_gt(x, y) == (val(x) > val(y));
pub trait VxGt<R> { spec fn gt_is(self, o: R) -> bool; fn vx_gt(self, o: R) -> (r: bool) ensures r == self.gt_is(o); }
pub trait VxF32 { spec fn v32(self) -> f32;
    fn vx_sqrt(self) -> (r: f32) where Self: Sized ensures r == f_sqrt(self.v32());
    fn vx_abs(self) -> (r: f32) where Self: Sized ensures r == f_abs(self.v32());
    fn vx_as_i8(self) -> (r: i8) where Self: Sized ensures r == f_i8(self.v32());
    fn vx_mul_add(self, a: f32, b: f32) -> (r: f32) where Self: Sized ensures r == f_fma(self.v32(), a, b); }
impl VxF32 for f32 { open spec fn v32(self) -> f32 { self }
    #[verifier::external_body] fn vx_sqrt(self) -> f32 { self.sqrt() } #[verifier::external_body] fn vx_abs(self) -> f32 { self.abs() } #[verifier::external_body] fn vx_as_i8(self) -> i8 { self as i8 }
    #[verifier::external_body] fn vx_mul_add(self, a: f32, b: f32) -> f32 { self.mul_add(a, b) } }
impl<'a> VxF32 for &'a f32 { open spec fn v32(self) -> f32 { *self }
    #[verifier::external_body] fn vx_sqrt(self) -> f32 { self.sqrt() } #[verifier::external_body] fn vx_abs(self) -> f32 { self.abs() } #[verifier::external_body] fn vx_as_i8(self) -> i8 { *self as i8 }
    #[verifier::external_body] fn vx_mul_add(self, a: f32, b: f32) -> f32 { self.mul_add(a, b) } }
pub trait VxI32 { fn vx_as_f32(self) -> (r: f32) where Self: Sized ensures r == f_int(self.v()); spec fn v(self) -> int; }
impl VxI32 for i32 { open spec fn v(self) -> int { self as int } #[verifier::external_body] fn vx_as_f32(self) -> f32 { self as f32 } }
impl VxMul<f32> for f32 { type Out = f32; open spec fn mul_ok(self, o: f32) -> bool { true } open spec fn mul_is(self, o: f32) -> f32 { f_mul(self, o) } #[verifier::external_body] fn vx_mul(self, o: f32) -> f32 { self * o } }
impl<'a> VxMul<f32> for &'a f32 { type Out = f32; open spec fn mul_ok(self, o: f32) -> bool { true } open spec fn mul_is(self, o: f32) -> f32 { f_mul(*self, o) } #[verifier::external_body] fn vx_mul(self, o: f32) -> f32 { *self * o } }
impl<'a, 'b> VxMul<&'b f32> for &'a f32 { type Out = f32; open spec fn mul_ok(self, o: &'b f32) -> bool { true } open spec fn mul_is(self, o: &'b f32) -> f32 { f_mul(*self, *o) } #[verifier::external_body] fn vx_mul(self, o: &'b f32) -> f32 { *self * *o } }
impl VxDiv<f32> for f32 { type Out = f32; open spec fn div_is(self, o: f32) -> f32 { f_div(self, o) } #[verifier::external_body] fn vx_div(self, o: f32) -> f32 { self / o } }
impl VxDiv<NotNan<f32>> for f32 { type Out = f32; open spec fn div_is(self, o: NotNan<f32>) -> f32 { f_div(self, o.inner()) } #[verifier::external_body] fn vx_div(self, o: NotNan<f32>) -> f32 { self / o.v } }
impl VxAdd<f32> for f32 { type Out = f32; open spec fn add_ok(self, o: f32) -> bool { true } open spec fn add_is(self, o: f32) -> f32 { f_sum(self, o) } #[verifier::external_body] fn vx_add(self, o: f32) -> f32 { self + o } }
impl VxSub<f32> for f32 { type Out = f32; open spec fn sub_ok(self, o: f32) -> bool { true } open spec fn sub_is(self, o: f32, r: f32) -> bool { r == f_sub(self, o) } #[verifier::external_body] fn vx_sub(self, o: f32) -> f32 { self - o } }
/// panics when the difference is NaN
impl VxSub<NotNan<f32>> for NotNan<f32> { type Out = NotNan<f32>; open spec fn sub_ok(self, o: NotNan<f32>) -> bool { true } open spec fn sub_is(self, o: NotNan<f32>, r: NotNan<f32>) -> bool { !nan(f_sub(self.inner(), o.inner())) && r == nn(f_sub(self.inner(), o.inner())) } #[verifier::external_body] fn vx_sub(self, o: NotNan<f32>) -> NotNan<f32> { unimplemented!() } }
impl VxMul<i32> for i32 { type Out = i32; open spec fn mul_ok(self, o: i32) -> bool { i32::MIN <= self * o <= i32::MAX } open spec fn mul_is(self, o: i32) -> i32 { (self * o) as i32 } #[verifier::external_body] fn vx_mul(self, o: i32) -> i32 { self * o } }
impl VxAdd<i32> for i32 { type Out = i32; open spec fn add_ok(self, o: i32) -> bool { i32::MIN <= self + o <= i32::MAX } open spec fn add_is(self, o: i32) -> i32 { (self + o) as i32 } #[verifier::external_body] fn vx_add(self, o: i32) -> i32 { self + o } }
impl VxGt<f32> for f32 { open spec fn gt_is(self, o: f32) -> bool { f_gt(self, o) } #[verifier::external_body] fn vx_gt(self, o: f32) -> bool { self > o } }
// integers, where the function's arithmetic goes through the traits
impl VxMul<usize> for usize { type Out = usize; open spec fn mul_ok(self, o: usize) -> bool { 0 <= self * o <= usize::MAX } open spec fn mul_is(self, o: usize) -> usize { (self * o) as usize } #[verifier::external_body] fn vx_mul(self, o: usize) -> usize { self * o } }
impl VxAdd<usize> for usize { type Out = usize; open spec fn add_ok(self, o: usize) -> bool { 0 <= self + o <= usize::MAX } open spec fn add_is(self, o: usize) -> usize { (self + o) as usize } #[verifier::external_body] fn vx_add(self, o: usize) -> usize { self + o } }
impl VxMul<u32> for u32 { type Out = u32; open spec fn mul_ok(self, o: u32) -> bool { 0 <= self * o <= u32::MAX } open spec fn mul_is(self, o: u32) -> u32 { (self * o) as u32 } #[verifier::external_body] fn vx_mul(self, o: u32) -> u32 { self * o } }
impl VxAdd<u32> for u32 { type Out = u32; open spec fn add_ok(self, o: u32) -> bool { 0 <= self + o <= u32::MAX } open spec fn add_is(self, o: u32) -> u32 { (self + o) as u32 } #[verifier::external_body] fn vx_add(self, o: u32) -> u32 { self + o } }
impl VxMul<i64> for i64 { type Out = i64; open spec fn mul_ok(self, o: i64) -> bool { i64::MIN <= self * o <= i64::MAX } open spec fn mul_is(self, o: i64) -> i64 { (self * o) as i64 } #[verifier::external_body] fn vx_mul(self, o: i64) -> i64 { self * o } }
impl VxAdd<i64> for i64 { type Out = i64; open spec fn add_ok(self, o: i64) -> bool { i64::MIN <= self + o <= i64::MAX } open spec fn add_is(self, o: i64) -> i64 { (self + o) as i64 } #[verifier::external_body] fn vx_add(self, o: i64) -> i64 { self + o } }
impl VxSub<usize> for usize { type Out = usize; open spec fn sub_ok(self, o: usize) -> bool { 0 <= self - o <= usize::MAX } open spec fn sub_is(self, o: usize, r: usize) -> bool { r == self - o } #[verifier::external_body] fn vx_sub(self, o: usize) -> usize { self - o } }
/// panics when o is 0
impl VxDiv<usize> for usize { type Out = usize; open spec fn div_is(self, o: usize) -> usize { self / o } #[verifier::external_body] fn vx_div(self, o: usize) -> usize { self / o } }
impl VxGt<usize> for usize { open spec fn gt_is(self, o: usize) -> bool { self > o } #[verifier::external_body] fn vx_gt(self, o: usize) -> bool { self > o } }
impl VxSub<u32> for u32 { type Out = u32; open spec fn sub_ok(self, o: u32) -> bool { 0 <= self - o <= u32::MAX } open spec fn sub_is(self, o: u32, r: u32) -> bool { r == self - o } #[verifier::external_body] fn vx_sub(self, o: u32) -> u32 { self - o } }
/// panics when o is 0
impl VxDiv<u32> for u32 { type Out = u32; open spec fn div_is(self, o: u32) -> u32 { self / o } #[verifier::external_body] fn vx_div(self, o: u32) -> u32 { self / o } }
impl VxGt<u32> for u32 { open spec fn gt_is(self, o: u32) -> bool { self > o } #[verifier::external_body] fn vx_gt(self, o: u32) -> bool { self > o } }
impl VxSub<i64> for i64 { type Out = i64; open spec fn sub_ok(self, o: i64) -> bool { i64::MIN <= self - o <= i64::MAX } open spec fn sub_is(self, o: i64, r: i64) -> bool { r == self - o } #[verifier::external_body] fn vx_sub(self, o: i64) -> i64 { self - o } }
impl VxGt<i64> for i64 { open spec fn gt_is(self, o: i64) -> bool { self > o } #[verifier::external_body] fn vx_gt(self, o: i64) -> bool { self > o } }
impl VxSub<i32> for i32 { type Out = i32; open spec fn sub_ok(self, o: i32) -> bool { i32::MIN <= self - o <= i32::MAX } open spec fn sub_is(self, o: i32, r: i32) -> bool { r == self - o } #[verifier::external_body] fn vx_sub(self, o: i32) -> i32 { self - o } }
impl VxGt<i32> for i32 { open spec fn gt_is(self, o: i32) -> bool { self > o } #[verifier::external_body] fn vx_gt(self, o: i32) -> bool { self > o } }
pub trait VxLt<R> { spec fn lt_is(self, o: R) -> bool; fn vx_lt(self, o: R) -> (r: bool) ensures r == self.lt_is(o); }
impl VxLt<f32> for f32 { open spec fn lt_is(self, o: f32) -> bool { f_gt(o, self) } #[verifier::external_body] fn vx_lt(self, o: f32) -> bool { self < o } }
impl VxLt<usize> for usize { open spec fn lt_is(self, o: usize) -> bool { self < o } #[verifier::external_body] fn vx_lt(self, o: usize) -> bool { self < o } }
impl VxLt<u32> for u32 { open spec fn lt_is(self, o: u32) -> bool { self < o } #[verifier::external_body] fn vx_lt(self, o: u32) -> bool { self < o } }
impl VxLt<i64> for i64 { open spec fn lt_is(self, o: i64) -> bool { self < o } #[verifier::external_body] fn vx_lt(self, o: i64) -> bool { self < o } }
impl VxLt<i32> for i32 { open spec fn lt_is(self, o: i32) -> bool { self < o } #[verifier::external_body] fn vx_lt(self, o: i32) -> bool { self < o } }
pub trait VxLe<R> { spec fn le_is(self, o: R) -> bool; fn vx_le(self, o: R) -> (r: bool) ensures r == self.le_is(o); }
impl VxLe<usize> for usize { open spec fn le_is(self, o: usize) -> bool { self <= o } #[verifier::external_body] fn vx_le(self, o: usize) -> bool { self <= o } }
impl VxLe<u32> for u32 { open spec fn le_is(self, o: u32) -> bool { self <= o } #[verifier::external_body] fn vx_le(self, o: u32) -> bool { self <= o } }
impl VxLe<i64> for i64 { open spec fn le_is(self, o: i64) -> bool { self <= o } #[verifier::external_body] fn vx_le(self, o: i64) -> bool { self <= o } }
impl VxLe<i32> for i32 { open spec fn le_is(self, o: i32) -> bool { self <= o } #[verifier::external_body] fn vx_le(self, o: i32) -> bool { self <= o } }
pub trait VxGe<R> { spec fn ge_is(self, o: R) -> bool; fn vx_ge(self, o: R) -> (r: bool) ensures r == self.ge_is(o); }
impl VxGe<usize> for usize { open spec fn ge_is(self, o: usize) -> bool { self >= o } #[verifier::external_body] fn vx_ge(self, o: usize) -> bool { self >= o } }
impl VxGe<u32> for u32 { open spec fn ge_is(self, o: u32) -> bool { self >= o } #[verifier::external_body] fn vx_ge(self, o: u32) -> bool { self >= o } }
impl VxGe<i64> for i64 { open spec fn ge_is(self, o: i64) -> bool { self >= o } #[verifier::external_body] fn vx_ge(self, o: i64) -> bool { self >= o } }
impl VxGe<i32> for i32 { open spec fn ge_is(self, o: i32) -> bool { self >= o } #[verifier::external_body] fn vx_ge(self, o: i32) -> bool { self >= o } }
/// f32 as i32: the integer part, saturating
pub uninterp spec fn f_i32(x: f32) -> i32;
pub axiom fn axiom_i32(x: f32) ensures num(x) ==> f_i32(x) == (if trunc(val(x)) > i32::MAX { i32::MAX as int } else if trunc(val(x)) < i32::MIN { i32::MIN as int } else { trunc(val(x)) });
pub trait VxToI32 { type X; spec fn vi32(self) -> i32; fn vx_as_i32(self) -> (r: i32) where Self: Sized ensures r == self.vi32(); }
impl VxToI32 for f32 { type X = f32; open spec fn vi32(self) -> i32 { f_i32(self) } #[verifier::external_body] fn vx_as_i32(self) -> i32 { self as i32 } }
pub trait VxMinMax { spec fn vx_min_is(self, o: Self) -> Self; spec fn vx_max_is(self, o: Self) -> Self; fn vx_min(self, o: Self) -> (r: Self) where Self: Sized ensures r == self.vx_min_is(o); fn vx_max(self, o: Self) -> (r: Self) where Self: Sized ensures r == self.vx_max_is(o); }
impl VxMinMax for usize { open spec fn vx_min_is(self, o: usize) -> usize { if self < o { self } else { o } } open spec fn vx_max_is(self, o: usize) -> usize { if self < o { o } else { self } } #[verifier::external_body] fn vx_min(self, o: usize) -> usize { self.min(o) } #[verifier::external_body] fn vx_max(self, o: usize) -> usize { self.max(o) } }
impl VxMinMax for u32 { open spec fn vx_min_is(self, o: u32) -> u32 { if self < o { self } else { o } } open spec fn vx_max_is(self, o: u32) -> u32 { if self < o { o } else { self } } #[verifier::external_body] fn vx_min(self, o: u32) -> u32 { self.min(o) } #[verifier::external_body] fn vx_max(self, o: u32) -> u32 { self.max(o) } }
impl VxMinMax for i32 { open spec fn vx_min_is(self, o: i32) -> i32 { if self < o { self } else { o } } open spec fn vx_max_is(self, o: i32) -> i32 { if self < o { o } else { self } } #[verifier::external_body] fn vx_min(self, o: i32) -> i32 { self.min(o) } #[verifier::external_body] fn vx_max(self, o: i32) -> i32 { self.max(o) } }
impl VxMinMax for i64 { open spec fn vx_min_is(self, o: i64) -> i64 { if self < o { self } else { o } } open spec fn vx_max_is(self, o: i64) -> i64 { if self < o { o } else { self } } #[verifier::external_body] fn vx_min(self, o: i64) -> i64 { self.min(o) } #[verifier::external_body] fn vx_max(self, o: i64) -> i64 { self.max(o) } }
impl VxI32 for i8 { open spec fn v(self) -> int { self as int } #[verifier::external_body] fn vx_as_f32(self) -> f32 { self as f32 } }
impl VxI32 for i16 { open spec fn v(self) -> int { self as int } #[verifier::external_body] fn vx_as_f32(self) -> f32 { self as f32 } }

/// the NotNan holding x
pub uninterp spec fn nn(x: f32) -> NotNan<f32>;
pub axiom fn axiom_nn(x: f32) ensures !nan(x) ==> nn(x).inner() == x;
pub axiom fn axiom_inner(x: NotNan<f32>) ensures !nan(x.inner()), nn(x.inner()) == x;
pub axiom fn axiom_ord(x: NotNan<f32>, y: NotNan<f32>) ensures num(x.inner()) && num(y.inner()) ==> (x.ord() <= y.ord() <==> val(x.inner()) <= val(y.inner()));
/// a number only ties with a number
pub axiom fn axiom_ord_tie(x: NotNan<f32>, y: NotNan<f32>) ensures x.ord() == y.ord() && num(y.inner()) ==> num(x.inner());
/// a difference that is zero is +0
pub axiom fn axiom_sub_zero(r: f32) ensures num(f_sub(1f32, r)) && val(f_sub(1f32, r)) == 0real ==> f_sub(1f32, r) == 0f32;
/// 1 - r ties with 0 only when it is the same 0
pub proof fn lemma_zero_tie(r: f32) ensures !nan(f_sub(1f32, r)) && nn(f_sub(1f32, r)).ord() == nn(0f32).ord() ==> nn(f_sub(1f32, r)) == nn(0f32)
{
    let d = f_sub(1f32, r); axiom_nn(d); axiom_nn(0f32); axiom_lits(); axiom_num(0f32);
    axiom_ord_tie(nn(d), nn(0f32)); axiom_ord(nn(d), nn(0f32)); axiom_ord(nn(0f32), nn(d)); axiom_sub_zero(r);
}
#[verifier::external_body] pub struct FloatIsNan;
impl core::fmt::Debug for FloatIsNan { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
impl NotNan<f32> {
    #[verifier::external_body] pub fn new(x: f32) -> (r: core::result::Result<Self, FloatIsNan>) ensures r is Ok <==> !nan(x), r is Ok ==> r->Ok_0 == nn(x) { unimplemented!() }
}
pub open spec fn max_of<T: Ord>(q: Seq<T>, r: Option<T>) -> bool {
    (r is None <==> q.len() == 0) && (r is Some && T::obeys_cmp_spec() ==> q.contains(r->Some_0) && forall|i: int| 0 <= i < q.len() ==> !(OrdSpec::cmp_spec(&(#[trigger] q[i]), &r->Some_0) is Greater))
}
impl<T: Ord> It<T> {
    #[verifier::external_body]
    pub fn max(self) -> (r: Option<T>) ensures max_of(self@, r) { unimplemented!() }
}
