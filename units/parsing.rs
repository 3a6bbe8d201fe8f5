// reading text: src/elements/embeddings/parsing.rs; trusted: the files' contents, line and word splitting, JSON strings, gzip
/// String and str
#[verifier::external_body]
pub struct Text { _p: u8 }
impl View for Text { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
uninterp spec fn lines_of(b: Seq<u8>) -> Seq<Seq<char>>;
uninterp spec fn json_string(s: Seq<char>) -> Seq<char>;
uninterp spec fn parts_of(s: Seq<char>, c: char) -> Seq<Seq<char>>;
uninterp spec fn words_of(s: Seq<char>) -> Seq<Seq<char>>;
uninterp spec fn has_suffix(s: Seq<char>, t: Seq<char>) -> bool;
/// what the file with this path contains while it is read
uninterp spec fn file_at(p: Seq<char>) -> Seq<u8>;
uninterp spec fn gunzip(b: Seq<u8>) -> Seq<u8>;
uninterp spec fn is_directory(p: Seq<char>) -> bool;
/// the paths in a directory in increasing order
uninterp spec fn dir_paths(p: Seq<char>) -> Seq<Seq<char>>;
impl Text {
    #[verifier::external_body] fn split(&self, c: char) -> (r: It<Text>) ensures r@.len() == parts_of(self@, c).len(), r@.len() > 0, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == parts_of(self@, c)[i] { unimplemented!() }
    #[verifier::external_body] fn split_whitespace(&self) -> (r: It<Text>) ensures r@.len() == words_of(self@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == words_of(self@)[i] { unimplemented!() }
    #[verifier::external_body] fn ends_with(&self, t: &str) -> (r: bool) ensures r == has_suffix(self@, t@) { unimplemented!() }
}
impl<T> It<T> {
    #[verifier::external_body] fn last(self) -> (r: Option<T>) ensures match r { Some(x) => self@.len() > 0 && x == self@.last(), None => self@.len() == 0 } { unimplemented!() }
}
/// serde_json::from_str::<String>(..).unwrap()
#[verifier::external_body]
fn vx_json(s: &Text) -> (r: Text) ensures r@ == json_string(s@) { unimplemented!() }
#[verifier::external_body]
pub struct Path { _p: u8 }
#[verifier::external_body]
pub struct PathBuf { _p: u8 }
impl View for Path { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl View for PathBuf { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Path {
    #[verifier::external_body] fn is_dir(&self) -> (r: bool) ensures r == is_directory(self@) { unimplemented!() }
    #[verifier::external_body] fn to_path_buf(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
}
impl PathBuf { #[verifier::external_body] fn to_str(&self) -> (r: Option<Text>) ensures r is Some ==> r->Some_0@ == self@ { unimplemented!() } }
/// read_dir(path).unwrap().map(|p| p.unwrap().path()).collect(): the paths of the directory in some order
#[verifier::external_body]
fn vx_read_dir(p: &Path) -> (r: Vec<PathBuf>) ensures forall|o: Seq<PathBuf>| #[trigger] sorted_paths(r@, o) ==> o.map_values(|x: PathBuf| x@) == dir_paths(p@) { unimplemented!() }
/// o are the paths s in increasing order
uninterp spec fn sorted_paths(s: Seq<PathBuf>, o: Seq<PathBuf>) -> bool;
#[verifier::external_body]
fn vx_sort_paths(v: &mut Vec<PathBuf>) ensures sorted_paths(old(v)@, final(v)@) { unimplemented!() }
#[verifier::external_body]
fn vx_one_path(p: PathBuf) -> (r: Vec<PathBuf>) ensures r@ == seq![p] { unimplemented!() }
pub trait VxPath { spec fn path(&self) -> Seq<char>; }
impl VxPath for Path { open spec fn path(&self) -> Seq<char> { self@ } }
impl VxPath for PathBuf { open spec fn path(&self) -> Seq<char> { self@ } }
/// File::open(..).unwrap()
#[verifier::external_body]
fn vx_open<P: VxPath>(p: &P) -> (r: File) ensures r@ == file_at(p.path()) { unimplemented!() }
/// std::io::Read
pub trait Read { spec fn content(&self) -> Seq<u8>; }
impl Read for File { closed spec fn content(&self) -> Seq<u8> { self@ } }
#[verifier::external_body]
pub struct GzDecoder { _p: u8 }
impl Read for GzDecoder { uninterp spec fn content(&self) -> Seq<u8>; }
/// flate2's GzDecoder stops behind the first member of the file
uninterp spec fn gunzip_first(b: Seq<u8>) -> Seq<u8>;
impl GzDecoder { #[verifier::external_body] fn new(f: File) -> (r: GzDecoder) ensures r.content() == gunzip_first(f@) { unimplemented!() } }
#[verifier::external_body]
pub struct MultiGzDecoder { _p: u8 }
impl Read for MultiGzDecoder { uninterp spec fn content(&self) -> Seq<u8>; }
impl MultiGzDecoder { #[verifier::external_body] fn new(f: File) -> (r: MultiGzDecoder) ensures r.content() == gunzip(f@) { unimplemented!() } }
pub struct BufReader<T> { inner: T }
impl<T: Read> BufReader<T> {
    fn new(inner: T) -> (r: Self) ensures r.inner == inner { BufReader { inner } }
    #[verifier::external_body] fn lines(self) -> (r: It<Result<Text>>) ensures r@.len() == lines_of(self.inner.content()).len(), forall|i: int| 0 <= i < r@.len() && #[trigger] r@[i] is Ok ==> r@[i]->Ok_0@ == lines_of(self.inner.content())[i] { unimplemented!() }
}
/// HashMap<String, usize>
#[verifier::external_body]
pub struct WordIds { _p: u8 }
impl View for WordIds { type V = Map<Seq<char>, usize>; uninterp spec fn view(&self) -> Map<Seq<char>, usize>; }
impl WordIds {
    #[verifier::external_body] fn get(&self, w: Text) -> (r: Option<&usize>) ensures match r { Some(x) => self@.dom().contains(w@) && *x == self@[w@], None => !self@.dom().contains(w@) } { unimplemented!() }
}
/// later pairs replace earlier ones
spec fn from_pairs(s: Seq<(Text, usize)>) -> Map<Seq<char>, usize> decreases s.len() { if s.len() == 0 { Map::empty() } else { from_pairs(s.drop_last()).insert(s.last().0@, s.last().1) } }
impl It<(Text, usize)> { #[verifier::external_body] fn collect_map(self) -> (r: WordIds) ensures r@ == from_pairs(self@) { unimplemented!() } }
/// word w has the number of the (last) line that is w
spec fn word_numbers(l: Seq<Seq<char>>) -> Map<Seq<char>, usize> decreases l.len() { if l.len() == 0 { Map::empty() } else { word_numbers(l.drop_last()).insert(json_string(l.last()), (l.len() - 1) as usize) } }
broadcast proof fn lemma_word_numbers(l: Seq<Seq<char>>, s: Seq<(Text, usize)>)
    requires s.len() == l.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0@ == json_string(l[i]) && s[i].1 == i
    ensures #[trigger] from_pairs(s) == #[trigger] word_numbers(l) decreases l.len()
{ if l.len() > 0 { lemma_word_numbers(l.drop_last(), s.drop_last()); } }
/*@ src/elements/embeddings/parsing.rs :: fn parse_words
#ret r
#subst `HashMap < String , usize >` => `WordIds`
#subst `File :: open ( & words_path ) . unwrap ( )` => `vx_open ( words_path )`
#subst `w . unwrap ( )` => `w . rt_unwrap ( )`
#subst `serde_json :: from_str :: < String > ( & w ) . unwrap ( )` => `vx_json ( & w )`
#subst `. collect ( )` => `. collect_map ( )`
#closure 0 (b: (Text, usize)) types: (usize, Result<Text>)
    ensures vx_p0.1 is Ok, b.0@ == json_string(vx_p0.1->Ok_0@), b.1 == vx_p0.0
#spec
    ensures r@ == word_numbers(lines_of(file_at(words_path@)))
#begin
    broadcast use lemma_word_numbers;
@*/
/// the ids of the known words, in order
spec fn known_ids(w: Seq<Seq<char>>, m: Map<Seq<char>, usize>) -> Seq<int> decreases w.len() {
    if w.len() == 0 { Seq::empty() } else if m.dom().contains(w.last()) { known_ids(w.drop_last(), m).push(m[w.last()] as int) } else { known_ids(w.drop_last(), m) }
}
/// the ids of a line: of the words behind the last ':'
spec fn line_ids(l: Seq<char>, m: Map<Seq<char>, usize>) -> Seq<int> { known_ids(words_of(parts_of(json_string(l), ':').last()), m) }
/// one element per line
spec fn text_elements(l: Seq<Seq<char>>, m: Map<Seq<char>, usize>) -> Seq<Seq<int>> { Seq::new(l.len(), |i: int| line_ids(l[i], m)) }
spec fn path_elements(p: Seq<char>, m: Map<Seq<char>, usize>) -> Seq<Seq<int>> { text_elements(lines_of(if has_suffix(p, ".gz"@) { gunzip(file_at(p)) } else { file_at(p) }), m) }
spec fn all_elements(p: Seq<Seq<char>>, m: Map<Seq<char>, usize>) -> Seq<Seq<int>> decreases p.len() { if p.len() == 0 { Seq::empty() } else { all_elements(p.drop_last(), m) + path_elements(p.last(), m) } }
spec fn parsed(p: Seq<char>, m: Map<Seq<char>, usize>) -> Seq<Seq<int>> { all_elements(if is_directory(p) { dir_paths(p) } else { seq![p] }, m) }
spec fn id_lists(e: Seq<Seq<ThreeByteInt>>) -> Seq<Seq<int>> { e.map_values(|x: Seq<ThreeByteInt>| idns(x)) }
proof fn lemma_push_ids(e: Seq<Seq<ThreeByteInt>>, x: Seq<ThreeByteInt>) ensures id_lists(e.push(x)) == id_lists(e).push(idns(x)) { assert(id_lists(e.push(x)) =~= id_lists(e).push(idns(x))); }
proof fn lemma_add_ids(e: Seq<Seq<ThreeByteInt>>, f: Seq<Seq<ThreeByteInt>>) ensures id_lists(e + f) == id_lists(e) + id_lists(f) { assert(id_lists(e + f) =~= id_lists(e) + id_lists(f)); }
/*@ src/elements/embeddings/parsing.rs :: fn parse_file
#ret r
#subst `HashMap < String , usize >` => `WordIds`
#subst `serde_json :: from_str :: < String > ( & qs . unwrap ( ) ) . unwrap ( )` => `vx_json ( & qs . rt_unwrap ( ) )`
#subst `Some ( & id ) = word_ids . get ( word )` => `Some ( vx_id ) = word_ids . get ( word )`
#subst `EmbeddingId :: from ( id )` => `EmbeddingId :: from_usize ( * vx_id )`
#spec
    ensures r.wf(), r.hdr(), id_lists(r@) == text_elements(lines_of(query_file.content()), word_ids@)
#begin
    proof { lemma_layouts(); }
    let ghost l = lines_of(query_file.content()); let ghost m = word_ids@;
#loop 0 before
    proof { assert(id_lists(elements@) =~= text_elements(l.subrange(0, 0), m)); }
#loop 0 inv
    invariant bytewise::<ThreeByteInt>(), bytewise::<FiveByteInt>(), elements.wf(), elements.hdr(), m == word_ids@, vx_v0@.len() == l.len(), 0 <= vx_i0 <= vx_v0@.len(),
        forall|i: int| 0 <= i < vx_v0@.len() && #[trigger] vx_v0@[i] is Ok ==> vx_v0@[i]->Ok_0@ == l[i],
        id_lists(elements@) == text_elements(l.subrange(0, vx_i0 as int), m)
    decreases vx_v0@.len() - vx_i0
#loop 1 before
    let ghost w = words_of(parts_of(json_string(l[vx_i0 - 1]), ':').last());
    proof { assert(w.subrange(0, 0) =~= Seq::<Seq<char>>::empty()); assert(idns(query_data@) =~= known_ids(w.subrange(0, 0), m)); }
#loop 1 inv
    invariant m == word_ids@, vx_v1@.len() == w.len(), 0 <= vx_i1 <= vx_v1@.len(), forall|i: int| 0 <= i < vx_v1@.len() ==> (#[trigger] vx_v1@[i])@ == w[i],
        idns(query_data@) == known_ids(w.subrange(0, vx_i1 as int), m)
    decreases vx_v1@.len() - vx_i1
#loop 1 begin
    let ghost q0 = query_data@;
#loop 1 end
    proof {
        let s = w.subrange(0, vx_i1 as int); assert(s.drop_last() =~= w.subrange(0, vx_i1 - 1)); assert(s.last() == w[vx_i1 - 1]);
        if m.dom().contains(s.last()) { assert(idns(query_data@) =~= idns(q0).push(m[s.last()] as int)); }
    }
#loop 1 after
    proof { assert(w.subrange(0, w.len() as int) =~= w); }
#at before `elements . push`
    let ghost e0 = elements@;
#loop 0 end
    proof { lemma_push_ids(e0, query_data@); assert(text_elements(l.subrange(0, vx_i0 as int), m) =~= text_elements(l.subrange(0, vx_i0 - 1), m).push(line_ids(l[vx_i0 - 1], m))); }
#tail r
    proof { assert(l.subrange(0, l.len() as int) =~= l); }
@*/
/*@ src/elements/embeddings/parsing.rs :: fn parse_elements_in_directory_or_file
#ret r
#subst `HashMap < String , usize >` => `WordIds`
#subst `read_dir ( path ) . unwrap ( ) . map ( | p | p . unwrap ( ) . path ( ) ) . collect ( )` => `vx_read_dir ( path )`
#subst `parts . sort ( )` => `vx_sort_paths ( & mut parts )`
#subst `vec ! [ path . to_path_buf ( ) ]` => `vx_one_path ( path . to_path_buf ( ) )`
#subst `pbr :: ProgressBar` => `ProgressBar`
#subst `. par_iter (` => `. it (`
#subst `File :: open ( & part ) . expect ( & format ! ( "Input file: {:?} not found" , & part ) )` => `vx_open ( part )`
#subst `part . to_str ( ) . unwrap ( )` => `part . to_str ( ) . rt_unwrap ( )`
#subst? `flate2 :: read :: GzDecoder` => `GzDecoder`
#subst? `flate2 :: read :: MultiGzDecoder` => `MultiGzDecoder`
#closure 0 (b: Elements<'static>) types: &PathBuf
    ensures b.wf(), b.hdr(), id_lists(b@) == path_elements((*vx_p0)@, word_ids@)
#spec
    ensures r.wf(), r.hdr(), id_lists(r@) == parsed(path@, word_ids@)
#begin
    proof { lemma_layouts(); }
    let ghost m = word_ids@; let ghost ps = if is_directory(path@) { dir_paths(path@) } else { seq![path@] };
#at before `let query_parts`
    proof { assert(parts@.map_values(|x: PathBuf| x@) =~= ps); }
#loop 0 before
    proof { assert(id_lists(elements@) =~= all_elements(ps.subrange(0, 0), m)); }
#loop 0 inv
    invariant bytewise::<ThreeByteInt>(), bytewise::<FiveByteInt>(), elements.wf(), elements.hdr(), vx_v0@.len() == ps.len(), 0 <= vx_i0 <= vx_v0@.len(),
        forall|i: int| 0 <= i < vx_v0@.len() ==> (#[trigger] vx_v0@[i]).wf() && vx_v0@[i].hdr() && id_lists(vx_v0@[i]@) == path_elements(ps[i], m),
        id_lists(elements@) == all_elements(ps.subrange(0, vx_i0 as int), m)
    decreases vx_v0@.len() - vx_i0
#loop 0 begin
    let ghost e0 = elements@;
#loop 0 end
    proof { let s = ps.subrange(0, vx_i0 as int); assert(s.drop_last() =~= ps.subrange(0, vx_i0 - 1)); lemma_add_ids(e0, query_part@); }
#tail r
    proof { assert(ps.subrange(0, ps.len() as int) =~= ps); }
@*/
