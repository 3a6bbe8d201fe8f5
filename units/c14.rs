/*@include prelude.rs@*/
/*@include stdio.rs@*/
verus! {
/*@include odd.rs@*/
/*@include oddint.rs T=ThreeByteInt N=3@*/
/*@include oddint.rs T=FiveByteInt N=5@*/
}
fn main() {}
