/*@include prelude.rs@*/
/*@include stdio.rs@*/
verus! {
/*@include rawio.rs@*/
/*@include rawio2.rs@*/
/*@include fixed.rs@*/
/*@include offsets.rs@*/
/*@include cvw.rs@*/
/*@include codec.rs@*/
/*@include multiset.rs@*/
mod index { use super::*;
/*@include order.rs@*/
/*@include maxheap.rs@*/
/*@include search.rs@*/
/*@include elements.rs@*/
/*@include graph.rs@*/
/*@include granne.rs@*/
/*@include layers.rs@*/
/*@include gindex.rs@*/
/*@include gbstruct.rs@*/
mod saves { use super::*;
/*@include mswrite.rs@*/
/*@include saves.rs@*/
/*@include loads.rs@*/
}
}
}
fn main() {}
