/*@include prelude.rs@*/
/*@include stdio.rs@*/
verus! {
/*@include rawio.rs@*/
/*@include rawio2.rs@*/
/*@include fixed.rs@*/
axiom fn axiom_f32_layout() ensures vstd::layout::size_of::<f32>() == 4, vstd::layout::align_of::<f32>() == 4;
axiom fn axiom_i8_layout() ensures vstd::layout::size_of::<i8>() == 1, vstd::layout::align_of::<i8>() == 1;
mod index { use super::*;
/*@include order.rs@*/
/*@include ieee.rs@*/
/*@include disttrait.rs@*/
/*@include container.rs@*/
/*@include extendable.rs@*/
/*@include permutable.rs@*/
/*@include math.rs@*/
/*@include accuracy.rs@*/
mod angular { use super::*;
/*@include vectors.rs S=f32@*/
/*@include distf.rs@*/
/*@include c25lemma.rs@*/
/*@include vcont.rs S=f32@*/
/*@include vperm.rs S=f32@*/
/*@include vext.rs S=f32@*/
}
mod angular_int { use super::*;
/*@include vectors.rs S=i8@*/
/*@include disti.rs@*/
/*@include vcont.rs S=i8@*/
/*@include vperm.rs S=i8@*/
/*@include vext.rs S=i8@*/
/*@include quant.rs@*/
}
}
}
fn main() {}
