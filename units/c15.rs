/*@include prelude.rs@*/
/*@include stdio.rs@*/
verus! {
/*@include rawio.rs@*/
/*@include rawio2.rs@*/
/*@include odd.rs@*/
/*@include oddint.rs T=ThreeByteInt N=3@*/
/*@include oddint.rs T=FiveByteInt N=5@*/
/*@include fixed.rs@*/
/*@include varwidth.rs@*/
axiom fn axiom_f32_layout() ensures vstd::layout::size_of::<f32>() == 4, vstd::layout::align_of::<f32>() == 4;
mod index { use super::*;
/*@include order.rs@*/
/*@include ieee.rs@*/
/*@include disttrait.rs@*/
/*@include container.rs@*/
/*@include permutable.rs@*/
/*@include math.rs@*/
mod angular { use super::*;
/*@include sumemb.rs@*/
/*@include vectors.rs S=f32@*/
/*@include distf.rs@*/
/*@include sumcont.rs@*/
/*@include sumperm.rs@*/
/*@include keys.rs@*/
}
}
}
fn main() {}
