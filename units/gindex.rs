// reading an index: Index for Granne, src/index/mod.rs
impl<'a> Layers<'a> {
/*@ src/index/mod.rs :: impl Layers :: fn as_graph
#ret r
#spec
    requires self.inv(), layer < self.adj().len()
    ensures det(r), r.adj() == self.adj()[layer as int]
#begin
    proof { match self { Layers::FixWidth(v) => { lemma_det_fixed(&v@[layer as int]); }, Layers::Compressed(v) => { lemma_det_compressed(&v@[layer as int]); } } }
@*/
/*@ src/index/mod.rs :: impl From for Layers :: fn from
#sig fn from(fix_width: Vec<FixedWidthSliceVector<'a, NeighborId>>) -> (r: Self)
#spec
    ensures r == Layers::FixWidth(fix_width)
@*/
}
impl<'a, Elements> Granne<'a, Elements> {
/*@ src/index/mod.rs :: impl Granne :: fn from_parts
#sig fn from_parts(layers: Vec<FixedWidthSliceVector<'a, NeighborId>>, elements: Elements) -> (r: Self)
#subst `layers . into ( )` => `Layers::from(layers)`
#spec
    ensures r.elements == elements, r.layers == FileOrMemoryLayers::Memory(Layers::FixWidth(layers))
@*/
}
impl<'a, Elements: ElementContainer> Granne<'a, Elements> {
/*@ src/index/mod.rs :: impl Index for Granne :: fn len
#ret r
#spec
    requires self.layers.inv()
    ensures r == if self.adj().len() == 0 { 0 } else { self.adj().last().len() }
@*/
/*@ src/index/mod.rs :: impl Index for Granne :: fn num_layers
#ret r
#spec
    requires self.layers.inv()
    ensures r == self.adj().len()
@*/
/*@ src/index/mod.rs :: impl Index for Granne :: fn layer_len
#ret r
#spec
    requires self.layers.inv(), layer < self.adj().len()
    ensures r == self.adj()[layer as int].len()
@*/
/*@ src/index/mod.rs :: impl Index for Granne :: fn get_neighbors
#ret r
#spec
    requires self.layers.inv(), layer < self.adj().len(), index < self.adj()[layer as int].len()
    ensures r@ == self.adj()[layer as int][index as int]
@*/
/*@ src/index/mod.rs :: impl Granne :: fn from_bytes
#ret r
#subst `io :: load_layers` => `load_layers`
#spec
    requires bytes_ok(index@)
    ensures r.layers.inv(), r.adj() == bytes_adj(index@), r.elements == elements
@*/
/*@ src/index/mod.rs :: impl Granne :: fn get_element
#ret r
#spec
    requires self.elements.inv(), index < self.elements.n()
    ensures Elements::val(r) == self.elements.el(index as int), self.elements.fits(Elements::val(r))
@*/
}
