// Layers, FileOrMemoryLayers and Granne of src/index/mod.rs, loading of src/index/io.rs
proof fn lemma_det_fixed<'a>(l: &FixedWidthSliceVector<'a, NeighborId>) requires l.inv() ensures det(l) {}
proof fn lemma_det_compressed<'a>(l: &MultiSetVector<'a>) requires l.inv() ensures det(l) {}
/*@ src/index/io.rs :: const METADATA_LEN
@*/
/*@ src/index/io.rs :: const LIBRARY_STR
#subst `& str` => `& 'static str`
@*/
// serde_json: documents are read as functions of their bytes
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub uninterp spec fn json_num(b: Seq<u8>, key: Seq<char>) -> usize;
pub uninterp spec fn json_list(b: Seq<u8>, key: Seq<char>) -> Seq<usize>;
#[verifier::external_body]
fn str_len(s: &str) -> (r: usize) ensures r == utf8(s@).len() { s.len() }
/// String::from_utf8(b) is s
#[verifier::external_body]
fn is_text(b: &Vec<u8>, s: &str) -> (r: bool) ensures r == (b@ == utf8(s@)) { unimplemented!() }
#[verifier::external_body]
fn io_error() -> IoError { unimplemented!() }
/// the first bytes of a slice that are yet to be read
#[verifier::external_body]
struct Reader { _p: u8 }
impl View for Reader { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
spec fn cut(b: Seq<u8>, n: int) -> Seq<u8> { if n <= b.len() { b.subrange(0, n) } else { b } }
impl Reader {
    #[verifier::external_body] fn of(b: &[u8]) -> (r: Self) ensures r@ == b@ { unimplemented!() }
    #[verifier::external_body] fn take(self, n: u64) -> (r: Self) ensures r@ == cut(self@, n as int) { unimplemented!() }
    /// by_ref().take(n).read_to_end(v)
    #[verifier::external_body] fn read_some(&mut self, n: u64, v: &mut Vec<u8>) -> (r: Result<()>) ensures r is Ok ==> final(v)@ == old(v)@ + cut(old(self)@, n as int) && final(self)@ == old(self)@.skip(cut(old(self)@, n as int).len() as int) { unimplemented!() }
}
#[verifier::external_body]
struct Json { _p: u8 }
impl Json {
    uninterp spec fn doc(&self) -> Seq<u8>;
    #[verifier::external_body] fn parse(r: Reader) -> (d: Json) ensures d.doc() == r@ { unimplemented!() }
    #[verifier::external_body] fn num(&self, key: &str) -> (r: usize) ensures r == json_num(self.doc(), key@) { unimplemented!() }
    #[verifier::external_body] fn list(&self, key: &str) -> (r: Vec<usize>) ensures r@ == json_list(self.doc(), key@) { unimplemented!() }
    #[verifier::external_body] fn try_list(&self, key: &str) -> (r: Result<Vec<usize>>) ensures r is Ok ==> r->Ok_0@ == json_list(self.doc(), key@) { unimplemented!() }
}
/// the metadata in front of a saved index, and the sizes of the layers according to it
spec fn meta_doc(b: Seq<u8>) -> Seq<u8> { cut(b, METADATA_LEN as int).skip(utf8(LIBRARY_STR@).len() as int) }
spec fn meta_sizes(b: Seq<u8>) -> Seq<usize> { json_list(meta_doc(b), "layer_sizes"@) }
/*@ src/index/io.rs :: fn read_layer_sizes
#sig fn read_layer_sizes(index_reader: &[u8]) -> (r: Result<Vec<usize>>)
#subst `index_reader . take ( METADATA_LEN as u64 )` => `Reader::of(index_reader) . take ( METADATA_LEN as u64 )`
#subst `index_reader . by_ref ( ) . take ( LIBRARY_STR . len ( ) as u64 ) . read_to_end ( & mut lib_str )` => `index_reader.read_some(str_len(LIBRARY_STR) as u64, &mut lib_str)`
#subst `String :: from_utf8 ( lib_str ) . unwrap_or_else ( | _ | "" . to_string ( ) ) != LIBRARY_STR` => `!is_text(&lib_str, LIBRARY_STR)`
#subst `Error :: new ( ErrorKind :: InvalidData , "Library string missing" )` => `io_error()`
#subst `serde_json :: Value` => `Json`
#subst `serde_json :: from_reader ( index_reader ) . expect ( "Could not read metadata" )` => `Json::parse(index_reader)`
#subst `serde_json :: from_value ( metadata [ "num_layers" ] . clone ( ) ) . expect ( "Could not read num_layers" )` => `metadata.num("num_layers")`
#subst `serde_json :: from_value ( metadata [ "layer_counts" ] . clone ( ) ) . expect ( "Could not read layer_counts" )` => `metadata.list("layer_counts")`
#subst `let layer_sizes = & metadata [ "layer_sizes" ] ;` => ``
#subst `serde_json :: from_value ( layer_sizes . clone ( ) )` => `metadata.try_list("layer_sizes")`
#spec
    ensures r is Ok ==> r->Ok_0@ == meta_sizes(index_reader@)
#at before `if`
    proof { assert(lib_str@ =~= cut(cut(b0, METADATA_LEN as int), utf8(LIBRARY_STR@).len() as int)); }
#begin
    let ghost b0 = index_reader@;
@*/
spec fn total(s: Seq<usize>, k: int) -> int decreases k { if k <= 0 { 0 } else { total(s, k - 1) + s[k - 1] } }
/// the bytes of layer k
spec fn seg(b: Seq<u8>, k: int) -> Seq<u8> { b.subrange(METADATA_LEN + total(meta_sizes(b), k), METADATA_LEN + total(meta_sizes(b), k + 1)) }
spec fn seg_sets(x: Seq<u8>) -> Seq<Seq<u32>> { decs(lists(offsets_view(cvw_chunks(x)), cvw_data::<u8>(x))) }
spec fn seg_ok(x: Seq<u8>) -> bool {
    let d = lists(offsets_view(cvw_chunks(x)), cvw_data::<u8>(x));
    cvw_ok(cvw_chunks(x), cvw_data::<u8>(x)) && forall|i: int| 0 <= i < d.len() ==> storable(#[trigger] decs(d)[i]) && d[i] == enc(decs(d)[i])
}
spec fn bytes_ok(b: Seq<u8>) -> bool { forall|k: int| 0 <= k < meta_sizes(b).len() ==> #[trigger] seg_ok(seg(b, k)) }
spec fn bytes_adj(b: Seq<u8>) -> Seq<Seq<Seq<usize>>> { Seq::new(meta_sizes(b).len(), |k: int| as_lists(seg_sets(seg(b, k)))) }
/// a layer read from x
proof fn lemma_seg<'a>(v: &MultiSetVector<'a>, x: Seq<u8>) requires seg_ok(x), v.data.chunks() == cvw_chunks(x), v.data.data() == cvw_data::<u8>(x) ensures v.inv(), v.adj() == as_lists(seg_sets(x))
{
    assert(v.data@ == lists(offsets_view(cvw_chunks(x)), cvw_data::<u8>(x)));
    assert(v.sets() == seg_sets(x));
}
/*@ src/index/mod.rs :: enum Layers
@*/
/*@ src/index/mod.rs :: enum FileOrMemoryLayers
#subst `memmap :: Mmap` => `Mmap`
@*/
impl<'a> Layers<'a> {
    spec fn adj(&self) -> Seq<Seq<Seq<usize>>> { match self { Layers::FixWidth(v) => v@.map_values(|l: FixedWidthSliceVector<'a, NeighborId>| l.adj()), Layers::Compressed(v) => v@.map_values(|l: MultiSetVector<'a>| l.adj()) } }
    spec fn inv(&self) -> bool { match self { Layers::FixWidth(v) => forall|k: int| 0 <= k < v@.len() ==> (#[trigger] v@[k]).inv(), Layers::Compressed(v) => forall|k: int| 0 <= k < v@.len() ==> (#[trigger] v@[k]).inv() } }
/*@ src/index/mod.rs :: impl Layers :: fn len
#ret r
#spec
    ensures r == self.adj().len()
@*/
/*@ src/index/mod.rs :: impl Layers :: fn borrow
#ret r
#begin
    proof { axiom_u32_layout(); }
#closure 0 (b: FixedWidthSliceVector<'b, NeighborId>) types: &FixedWidthSliceVector<'a, NeighborId>
    requires small_align::<u32>() ensures vx_p0.inv() ==> b.inv(), b.adj() == vx_p0.adj(), b.data() == vx_p0.data(), b.w() == vx_p0.w()
#closure 1 (b: MultiSetVector<'b>) types: &MultiSetVector<'a>
    ensures b.inv() == vx_p0.inv(), b.adj() == vx_p0.adj(), b.data.chunks() == vx_p0.data.chunks(), b.data.data() == vx_p0.data.data()
#spec
    requires self.inv()
    ensures r.inv(), r.adj() == self.adj(), same_layers(*self, r)
#tail r
    proof { assert(r.adj() =~= self.adj()); }
@*/
}
/// the same content
spec fn same_layers<'a, 'b>(a: Layers<'a>, b: Layers<'b>) -> bool {
    match (a, b) {
        (Layers::FixWidth(v), Layers::FixWidth(w)) => v@.len() == w@.len() && forall|k: int| 0 <= k < w@.len() ==> (#[trigger] w@[k]).data() == v@[k].data() && w@[k].w() == v@[k].w(),
        (Layers::Compressed(v), Layers::Compressed(w)) => v@.len() == w@.len() && forall|k: int| 0 <= k < w@.len() ==> (#[trigger] w@[k]).data.chunks() == v@[k].data.chunks() && w@[k].data.data() == v@[k].data.data(),
        _ => false,
    }
}
/// the layers are those stored in b
spec fn loaded<'a>(l: Layers<'a>, b: Seq<u8>) -> bool { match l { Layers::FixWidth(v) => false, Layers::Compressed(v) => v@.len() == meta_sizes(b).len() && forall|k: int| 0 <= k < v@.len() ==> (#[trigger] v@[k]).data.chunks() == cvw_chunks(seg(b, k)) && v@[k].data.data() == cvw_data::<u8>(seg(b, k)) } }
/*@ src/index/io.rs :: fn load_layers
#ret r
#subst `read_layer_sizes ( buffer ) . expect ( "Could not read metadata" )` => `read_layer_sizes(buffer).rt_unwrap()`
#subst `start + size` => `wr_add(start, size)`
#rtindex
#subst `let mut layers = Vec :: new ( )` => `let mut layers: Vec<MultiSetVector<'_>> = Vec :: new ( )`
#spec
    requires bytes_ok(buffer@)
    ensures r.inv(), r.adj() == bytes_adj(buffer@), loaded(r, buffer@)
#loop 0
    invariant vx_v0@ == meta_sizes(buffer@), vx_i0 <= vx_v0@.len(), layers@.len() == vx_i0, bytes_ok(buffer@), start == METADATA_LEN + total(meta_sizes(buffer@), vx_i0 as int), start <= buffer@.len() || vx_i0 == 0,
        forall|k: int| 0 <= k < vx_i0 ==> (#[trigger] layers@[k]).inv() && layers@[k].adj() == as_lists(seg_sets(seg(buffer@, k))) && layers@[k].data.chunks() == cvw_chunks(seg(buffer@, k)) && layers@[k].data.data() == cvw_data::<u8>(seg(buffer@, k)),
    decreases vx_v0@.len() - vx_i0
#loop 0 end
    proof { let k = vx_i0 as int - 1; let ms = meta_sizes(buffer@); assert(total(ms, k + 1) == total(ms, k) + ms[k]); assert(layer@ == seg(buffer@, k)); assert(seg_ok(seg(buffer@, k))); lemma_seg(&layers@[k], seg(buffer@, k)); }
#tail r
    proof { assert(r.adj() =~= bytes_adj(buffer@)); }
@*/
impl<'a> FileOrMemoryLayers<'a> {
    spec fn adj(&self) -> Seq<Seq<Seq<usize>>> { match self { FileOrMemoryLayers::File(m) => bytes_adj(m@), FileOrMemoryLayers::Memory(l) => l.adj() } }
    spec fn inv(&self) -> bool { match self { FileOrMemoryLayers::File(m) => bytes_ok(m@), FileOrMemoryLayers::Memory(l) => l.inv() } }
    /// what load gives
    spec fn holds<'b>(&self, l: Layers<'b>) -> bool { l.inv() && l.adj() == self.adj() && match self { FileOrMemoryLayers::File(m) => loaded(l, m@), FileOrMemoryLayers::Memory(k) => same_layers(*k, l) } }
/*@ src/index/mod.rs :: impl FileOrMemoryLayers :: fn load
#ret r
#subst `io :: load_layers` => `load_layers`
#subst `& mmap [ .. ]` => `mmap.sl()`
#spec
    requires self.inv()
    ensures r.inv(), r.adj() == self.adj(), self.holds(r)
@*/
}
/*@ src/index/mod.rs :: struct Granne
@*/
#[verifier::external_body]
fn slice_split_last<T>(s: &[T]) -> (r: Option<(&T, &[T])>) ensures match r { Some(p) => s@.len() > 0 && *p.0 == s@.last() && p.1@ == s@.drop_last(), None => s@.len() == 0 } { s.split_last() }
impl<'a, Elements: ElementContainer> Granne<'a, Elements> {
    spec fn adj(&self) -> Seq<Seq<Seq<usize>>> { self.layers.adj() }
    /// the layers are valid and belong to the elements
    spec fn wf(&self) -> bool { self.layers.inv() && adjs_ok(self.adj()) && self.elements.inv() && (self.adj().len() > 0 ==> self.adj().last().len() <= self.elements.n()) }
/*@ src/index/mod.rs :: impl Granne :: fn search_internal
#ret r
#subst `layers . split_last ( )` => `slice_split_last(layers)`
#closure 0 (b: (usize, f32)) types: (usize, NotNan<f32>)
    ensures b == (vx_p0.0, vx_p0.1.inner())
#begin
    let ghost a = adjs(layers@); let ghost c = &self.elements; let ghost g = Elements::val(*element);
    proof { if layers@.len() > 0 { let top = a.drop_last(); assert(adjs(layers@.drop_last()) =~= top); assert(adjs_ok(top)); assert(det(&layers@[layers@.len() - 1])); assert(a.last() == layers@.last().adj() && adj_ok(a[a.len() - 1]) && a[a.len() - 1].len() >= 1); lemma_in_layer(&layers@.last());
        assert forall|k: int| 0 <= k < layers@.len() - 1 implies #[trigger] det(&layers@.drop_last()[k]) by { assert(det(&layers@[k])); }
        assert(adj_ok(a.last()) && a.last().len() >= 1);
        if top.len() > 0 { assert(det(&layers@[top.len() - 1])); assert(a[top.len() - 1].len() <= a[a.len() - 1].len()); assert(layers@.drop_last().last() == layers@[top.len() - 1]); } } }
#tail r
    proof { if layers@.len() > 0 {
        let l = &layers@.last();
        assert(exists|full: Seq<(usize, NotNan<f32>)>, es: Seq<usize>, obs: Map<usize, Seq<usize>>| #[trigger] found(l, c, es.last(), g, max_search as int, full, obs) && #[trigger] entries(a.drop_last(), c, g, es) && es.last() < l.n() && first_of(full, num_neighbors as int, r@));
        let (full, es, obs) = choose|full: Seq<(usize, NotNan<f32>)>, es: Seq<usize>, obs: Map<usize, Seq<usize>>| #[trigger] found(l, c, es.last(), g, max_search as int, full, obs) && #[trigger] entries(a.drop_last(), c, g, es) && es.last() < l.n() && first_of(full, num_neighbors as int, r@);
        lemma_afound(l, c, es.last(), g, max_search as int, full, obs);
        assert(answer_by(a, c, g, max_search as int, num_neighbors as int, r@, es, full));
    } }
#spec
    requires dets(layers@), adjs_ok(adjs(layers@)), self.elements.inv(), self.elements.fits(Elements::val(*element)), layers@.len() > 0 ==> layers@.last().n() <= self.elements.n(), 1 <= max_search, max_search * 20 <= usize::MAX
    ensures answer(adjs(layers@), &self.elements, Elements::val(*element), max_search as int, num_neighbors as int, r@)
@*/
/*@ src/index/mod.rs :: impl Granne :: fn search
#ret r
#spec
    requires self.wf(), self.elements.fits(Elements::val(*element)), 1 <= max_search, max_search * 20 <= usize::MAX
    ensures answer(self.adj(), &self.elements, Elements::val(*element), max_search as int, num_neighbors as int, r@)
@*/
}
