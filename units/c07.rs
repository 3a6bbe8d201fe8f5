/*@include prelude.rs@*/
/*@include stdio.rs@*/
verus! {
/*@include rawio.rs@*/
/*@include offsets.rs@*/
/*@include cvw.rs@*/
/*@include codec.rs@*/
/*@include multiset.rs@*/
}
fn main() {}
