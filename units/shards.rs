// saving parsed elements: src/elements/embeddings/parsing.rs; trusted: file creation and file names
/// a process cannot hold more than 2^60 bytes
#[verifier::external_body]
proof fn axiom_memory(e: &Elements) ensures e.offs().len() * sz::<FiveByteInt>() + e.data().len() * sz::<ThreeByteInt>() + 8 <= usize::MAX, e@.len() <= isize::MAX {}
// names of files: std::path and format! are trusted, as strings of characters
/// decimal digits, as `{}` shows a usize
pub open spec fn digits(n: nat) -> Seq<char> decreases n { if n < 10 { seq![digit(n)] } else { digits(n / 10).push(digit(n % 10)) } }
pub open spec fn digit(d: nat) -> char { ((48 + d) as u8) as char }
proof fn lemma_digits(a: nat, b: nat)
    requires digits(a) == digits(b) ensures a == b decreases a
{
    reveal_with_fuel(digits, 2);
    lemma_digits_len(a); lemma_digits_len(b);
    assert(digits(a).last() == digit(a % 10) && digits(b).last() == digit(b % 10));
    assert(a % 10 == b % 10);
    if a >= 10 { assert(digits(a).drop_last() =~= digits(a / 10)); assert(digits(b).drop_last() =~= digits(b / 10)); lemma_digits(a / 10, b / 10); }
}
proof fn lemma_digits_len(a: nat) ensures digits(a).len() >= 1, a < 10 <==> digits(a).len() == 1 decreases a { reveal_with_fuel(digits, 2); if a >= 10 { lemma_digits_len(a / 10); } }
uninterp spec fn joined(dir: Seq<char>, name: Seq<char>) -> Seq<char>;
uninterp spec fn sibling(path: Seq<char>, name: Seq<char>) -> Seq<char>;
uninterp spec fn stem_of(path: Seq<char>) -> Seq<char>;
uninterp spec fn extension_of(path: Seq<char>) -> Option<Seq<char>>;
/// different relative names in one directory are different paths
#[verifier::external_body]
proof fn axiom_names(p: Seq<char>, a: Seq<char>, b: Seq<char>) ensures
    a.len() > 0 && b.len() > 0 && a[0] != '/' && b[0] != '/' && a != b ==> joined(p, a) != joined(p, b) && sibling(p, a) != sibling(p, b),
    stem_of(p).len() > 0, stem_of(p)[0] != '/' {}
#[verifier::external_body]
pub struct OsStr { _p: u8 }
impl View for OsStr { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl OsStr { #[verifier::external_body] fn to_str(&self) -> (r: Option<&str>) ensures r is Some ==> r->Some_0@ == self@ { unimplemented!() } }
impl Path {
    #[verifier::external_body] fn join(&self, n: Name) -> (r: PathBuf) ensures r@ == joined(self@, n@) { unimplemented!() }
    #[verifier::external_body] fn with_file_name(&self, n: Name) -> (r: PathBuf) ensures r@ == sibling(self@, n@) { unimplemented!() }
    #[verifier::external_body] fn file_stem(&self) -> (r: Option<&OsStr>) ensures r is Some ==> r->Some_0@ == stem_of(self@) { unimplemented!() }
    #[verifier::external_body] fn extension(&self) -> (r: Option<&OsStr>) ensures match r { Some(x) => extension_of(self@) == Some(x@), None => extension_of(self@) is None } { unimplemented!() }
}
/// what format! builds
#[verifier::external_body]
pub struct Name { _p: u8 }
impl View for Name { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub trait Shown { spec fn shown(&self) -> Seq<char>; }
impl Shown for usize { open spec fn shown(&self) -> Seq<char> { digits(*self as nat) } }
impl Shown for u8 { open spec fn shown(&self) -> Seq<char> { digits(*self as nat) } }
impl Shown for u16 { open spec fn shown(&self) -> Seq<char> { digits(*self as nat) } }
impl Shown for u32 { open spec fn shown(&self) -> Seq<char> { digits(*self as nat) } }
impl Shown for u64 { open spec fn shown(&self) -> Seq<char> { digits(*self as nat) } }
impl Shown for &str { open spec fn shown(&self) -> Seq<char> { self@ } }
#[verifier::external_body] fn vx_fmt() -> (r: Name) ensures r@ == Seq::<char>::empty() { unimplemented!() }
impl Name {
    #[verifier::external_body] fn lit(self, t: &str) -> (r: Name) ensures r@ == self@ + t@ { unimplemented!() }
    #[verifier::external_body] fn arg<T: Shown>(self, x: T) -> (r: Name) ensures r@ == self@ + x.shown() { unimplemented!() }
    fn done(self) -> (r: Name) ensures r@ == self@ { self }
}
/// the file of a shard
spec fn shard_path(p: Seq<char>, id: nat) -> Seq<char> {
    if is_directory(p) { joined(p, "elements-"@ + digits(id) + ".bin"@) }
    else { sibling(p, stem_of(p) + "-"@ + digits(id) + "."@ + match extension_of(p) { Some(x) => x, None => "bin"@ }) }
}
/// shards do not overwrite each other
proof fn lemma_shard_paths(p: Seq<char>, a: nat, b: nat)
    requires shard_path(p, a) == shard_path(p, b) ensures a == b
{
    reveal_strlit("elements-");
    let (x, y) = if is_directory(p) { ("elements-"@, ".bin"@) } else { (stem_of(p) + "-"@, "."@ + match extension_of(p) { Some(x) => x, None => "bin"@ }) };
    let na = x + digits(a) + y; let nb = x + digits(b) + y;
    axiom_names(p, na, nb);
    if is_directory(p) { assert(na[0] == x[0] && nb[0] == x[0]); }
    else {
        assert(na =~= stem_of(p) + "-"@ + digits(a) + "."@ + match extension_of(p) { Some(x) => x, None => "bin"@ });
        assert(nb =~= stem_of(p) + "-"@ + digits(b) + "."@ + match extension_of(p) { Some(x) => x, None => "bin"@ });
        assert(na[0] == stem_of(p)[0] && nb[0] == stem_of(p)[0]);
    }
    assert(na == nb);
    assert(na.len() == x.len() + digits(a).len() + y.len() && nb.len() == x.len() + digits(b).len() + y.len());
    assert(digits(a) =~= na.subrange(x.len() as int, (x.len() + digits(a).len()) as int));
    assert(digits(b) =~= nb.subrange(x.len() as int, (x.len() + digits(b).len()) as int));
    lemma_digits(a, b);
}
/*@ src/elements/embeddings/parsing.rs :: fn get_shard_name
#ret r
#fmt
#subst? `. unwrap ( )` => `. rt_unwrap ( )`
#closure 0 in: map (b: &str) types: &OsStr
    ensures b@ == (*vx_p0)@
#closure 1 in: map (b: &str) types: &OsStr
    ensures b@ == (*vx_p0)@
#spec
    ensures r@ == shard_path(output_path@, shard_id as nat)
@*/
/// BufWriter::new(File::create(..).expect(..)): an empty file. Only a flush that succeeds tells that the file has everything (a BufWriter that is dropped ignores failures)
#[verifier::external_body]
pub struct FileSink { _p: u8 }
impl Sink for FileSink { type Dest = Seq<char>; #[verifier::prophetic] uninterp spec fn dest(&self) -> Seq<char>; uninterp spec fn out(&self) -> Seq<u8>; uninterp spec fn pos(&self) -> int; uninterp spec fn failed(&self) -> bool; }
impl FileSink { pub uninterp spec fn flushed(&self) -> bool; }
impl Write for FileSink {
    #[verifier::external_body] fn write(&mut self, b: &[u8]) -> (r: Result<usize>) { unimplemented!() }
    #[verifier::external_body] fn write_all(&mut self, b: &[u8]) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body] fn flush(&mut self) -> (r: Result<()>) ensures r is Ok ==> final(self).flushed() { unimplemented!() }
}
#[verifier::external_body]
fn vx_create(p: &PathBuf) -> (r: FileSink) ensures r.dest() == p@, r.out() == Seq::<u8>::empty(), r.pos() == 0, !r.failed() { unimplemented!() }
#[verifier::external_body]
fn vx_create_at(p: &Path) -> (r: FileSink) ensures r.dest() == p@, r.out() == Seq::<u8>::empty(), r.pos() == 0, !r.failed() { unimplemented!() }
#[verifier::external_body]
fn vx_buffered(f: FileSink) -> (r: FileSink) ensures r == f { unimplemented!() }
/// the shard files hold the elements
spec fn is_shard(f: Seq<u8>, e: Seq<Seq<ThreeByteInt>>) -> bool { exists|o: Seq<FiveByteInt>, d: Seq<ThreeByteInt>| #![trigger vw_repr(o, d)] f == vw_repr(o, d) && vw_shaped(ints(o), d.len() as int) && vlists(ints(o), d) == e }
spec fn flat<E>(s: Seq<Seq<E>>) -> Seq<E> decreases s.len() { if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + s.last() } }
/// shard i of `parts` was written to file i, and the shards in order are all the elements
spec fn partition(files: Seq<Seq<u8>>, parts: Seq<Seq<Seq<ThreeByteInt>>>, e: Seq<Seq<ThreeByteInt>>) -> bool {
    files.len() == parts.len() && flat(parts) == e && forall|i: int| 0 <= i < files.len() ==> is_shard(#[trigger] files[i], parts[i])
}
proof fn lemma_overwrite_empty(b: Seq<u8>) ensures overwrite(Seq::empty(), 0, b) == b { assert(overwrite(Seq::empty(), 0, b) =~= b); }
proof fn lemma_shards(len: int, n: int, s: int)
    requires n > 0, len >= 0, s == (len + n - 1) / n
    ensures s * n >= len, s >= 0, s * n <= len + n - 1, s <= len + 1, forall|i: int| 0 <= i <= n ==> 0 <= #[trigger] (i * s) <= len + n - 1
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(len + n - 1, n); assert(n * s == s * n) by (nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(len + n - 1, n);
    assert(s <= len + 1) by (nonlinear_arith) requires n > 0, len >= 0, n * s <= len + n - 1;
    assert forall|i: int| 0 <= i <= n implies 0 <= #[trigger] (i * s) <= len + n - 1 by { assert(0 <= i * s <= n * s) by (nonlinear_arith) requires 0 <= i <= n, s >= 0; }
}
spec fn min2(a: int, b: int) -> int { if a < b { a } else { b } }
/*@ src/elements/embeddings/parsing.rs :: fn parse_elements_and_save_shards_to_disk
#ret r
#subst `parsing :: parse_elements_in_directory_or_file` => `parse_elements_in_directory_or_file`
#subst `File :: create ( & output_path ) . expect ( & format ! ( "Could not create file at {}" , output_path . to_str ( ) . unwrap ( ) ) )` => `vx_create ( & output_path )`
#subst `BufWriter :: new` => `vx_buffered`
#subst `. expect ( "Failed to write elements to disk" )` => `. rt_unwrap ( )`
#spec
    requires num_shards >= 1, num_shards <= isize::MAX
#begin
    broadcast use lemma_wrote;
    let ghost out_path = output_path@; let ghost mut names: Seq<Seq<char>> = Seq::empty();
    let ghost mut files: Seq<Seq<u8>> = Seq::empty(); let ghost mut parts: Seq<Seq<Seq<ThreeByteInt>>> = Seq::empty();
    proof { lemma_layouts(); }
#at before `let shard_size`
    proof { axiom_memory(&elements); }
#loop 0 before
    proof { lemma_shards(elements@.len() as int, num_shards as int, shard_size as int); assert(flat(parts) =~= elements@.subrange(0, 0)); }
#loop 0 inv
    invariant bytewise::<ThreeByteInt>(), bytewise::<FiveByteInt>(), elements.wf(), elements.hdr(), elements.offs().len() * sz::<FiveByteInt>() + elements.data().len() * sz::<ThreeByteInt>() + 8 <= usize::MAX, elements@.len() <= isize::MAX,
        0 <= vx_i0 <= vx_e0, vx_e0 == num_shards, num_shards <= isize::MAX, 0 <= shard_size <= elements@.len() + 1, shard_size * num_shards >= elements@.len(), forall|i: int| 0 <= i <= num_shards ==> 0 <= #[trigger] (i * shard_size) <= elements@.len() + num_shards - 1,
        out_path == output_path@, names.len() == vx_i0, forall|i: int| 0 <= i < vx_i0 ==> #[trigger] names[i] == shard_path(out_path, i as nat),
        files.len() == vx_i0, partition(files, parts, elements@.subrange(0, min2(vx_i0 * shard_size, elements@.len() as int)))
    decreases vx_e0 - vx_i0
#loop 0 begin
    broadcast use lemma_wrote;
    proof { assert(0 <= vx_i0 * shard_size <= usize::MAX); assert(0 <= (vx_i0 - 1) * shard_size <= vx_i0 * shard_size) by (nonlinear_arith) requires vx_i0 >= 1, shard_size >= 0, 0 <= vx_i0 * shard_size;
        assert((vx_i0 - 1) * shard_size + shard_size == vx_i0 * shard_size) by (nonlinear_arith); }
#loop 0 end
    proof {
        lemma_overwrite_empty(file.out());
        let e = elements@; let part = e.subrange(begin as int, end as int);
        assert forall|x: Seq<u8>| overwrite(Seq::<u8>::empty(), 0, x) == x by { lemma_overwrite_empty(x); }
        assert forall|x: Seq<u8>| overwrite(x, x.len() as int, Seq::<u8>::empty()) == x by { assert(overwrite(x, x.len() as int, Seq::<u8>::empty()) =~= x); }
        assert(is_shard(file.out(), part));
        assert(flat(parts.push(part)) == flat(parts) + part) by { assert(parts.push(part).drop_last() =~= parts); }
        assert(flat(parts) + part =~= e.subrange(0, min2(vx_i0 * shard_size, e.len() as int)));
        assert(file.flushed() && !file.failed());
        assert(file.dest() == output_path@);
        files = files.push(file.out()); parts = parts.push(part); names = names.push(output_path@);
    }
#tail r
    // every element is in exactly one of the num_shards files, which are different files
    proof { assert forall|i: int, j: int| 0 <= i < j < names.len() implies #[trigger] names[i] != #[trigger] names[j] by { if names[i] == names[j] { lemma_shard_paths(out_path, i as nat, j as nat); } }
        assert(names.len() == num_shards);
        assert(shard_size * num_shards == num_shards * shard_size) by (nonlinear_arith); assert(elements@.subrange(0, elements@.len() as int) =~= elements@); assert(partition(files, parts, elements@) && files.len() == num_shards && id_lists(elements@) == parsed(elements_path@, word_numbers(lines_of(file_at(words_path@))))); }
@*/
/*@ src/elements/embeddings/parsing.rs :: fn parse_elements_and_save_to_disk
#ret r
#subst `parsing :: parse_elements_in_directory_or_file` => `parse_elements_in_directory_or_file`
#subst `File :: create ( & output_path ) . unwrap ( )` => `vx_create_at ( output_path )`
#subst `BufWriter :: new` => `vx_buffered`
#subst `. expect ( "Failed to write elements to disk" )` => `. rt_unwrap ( )`
#begin
    proof { lemma_layouts(); }
#at before `elements . write`
    proof { axiom_memory(&elements); }
#tail r
    // the file holds the elements parsed
    proof { lemma_overwrite_empty(file.out()); assert forall|x: Seq<u8>| overwrite(Seq::<u8>::empty(), 0, x) == x by { lemma_overwrite_empty(x); }
        assert forall|x: Seq<u8>| overwrite(x, x.len() as int, Seq::<u8>::empty()) == x by { assert(overwrite(x, x.len() as int, Seq::<u8>::empty()) =~= x); }
        assert(is_shard(file.out(), elements@) && file.flushed() && !file.failed() && r == elements@.len() && id_lists(elements@) == parsed(elements_path@, word_numbers(lines_of(file_at(words_path@))))); }
@*/
