// GranneBuilder and its configuration
/*@ src/index/mod.rs :: struct BuildConfig
@*/
impl Clone for BuildConfig { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for BuildConfig {}
/*@ src/index/mod.rs :: struct GranneBuilder
@*/
impl<Elements: ElementContainer> GranneBuilder<Elements> {
/*@ src/index/mod.rs :: impl GranneBuilder :: fn new
#ret r
#spec
    requires elements.inv()
    ensures elements.n() < u32::MAX, r.elements == elements, r.config == config, r.layers@.len() == 0
@*/
}
