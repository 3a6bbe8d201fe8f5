/*@include prelude.rs@*/
/*@include stdio.rs@*/
verus! {
/*@include rawio.rs@*/
/*@include rawio2.rs@*/
/*@include fixed.rs@*/
axiom fn axiom_f32_layout() ensures vstd::layout::size_of::<f32>() == 4, vstd::layout::align_of::<f32>() == 4;
axiom fn axiom_i8_layout() ensures vstd::layout::size_of::<i8>() == 1, vstd::layout::align_of::<i8>() == 1;
mod angular { use super::*;
/*@include vectors.rs S=f32@*/
}
mod angular_int { use super::*;
/*@include vectors.rs S=i8@*/
}
}
fn main() {}
