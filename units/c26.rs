/*@include prelude.rs@*/
/*@include stdio.rs@*/
verus! {
/*@include rawio.rs@*/
/*@include rawio2.rs@*/
/*@include odd.rs@*/
/*@include oddint.rs T=ThreeByteInt N=3@*/
/*@include oddint.rs T=FiveByteInt N=5@*/
/*@include fixed.rs@*/
/*@include varwidth.rs@*/
axiom fn axiom_f32_layout() ensures vstd::layout::size_of::<f32>() == 4, vstd::layout::align_of::<f32>() == 4;
axiom fn axiom_i8_layout() ensures vstd::layout::size_of::<i8>() == 1, vstd::layout::align_of::<i8>() == 1;
/*@include sumemb.rs@*/
/*@include progress.rs@*/
/*@include parsing.rs@*/
/*@include shards.rs@*/
mod angular_int { use super::*; use core::cmp;
/*@include vectors.rs S=i8@*/
/*@include embfile.rs@*/
}
}
fn main() {}
