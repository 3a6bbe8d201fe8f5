"""which units decide which property, and what stays unchecked"""
BUILD = ["src/index/mod.rs::impl GranneBuilder", "src/index/mod.rs::impl Builder for GranneBuilder", "src/slice_vector/mod.rs::impl FixedWidthSliceVector :: fn iter_mut", "src/slice_vector/mod.rs::impl FixedWidthSliceVector :: fn par_iter_mut"]
LAYERS = ["src/index/mod.rs::impl Builder for GranneBuilder", "src/index/mod.rs::impl Index for", "src/index/mod.rs::fn compute_num_elements_in_layer", "src/index/mod.rs::impl GranneBuilder :: fn index_elements", "src/index/mod.rs::impl GranneBuilder :: fn index_elements_in_last_layer", "src/index/mod.rs::impl GranneBuilder :: fn get_index", "src/index/mod.rs::impl GranneBuilder :: fn new", "src/index/mod.rs::impl GranneBuilder :: fn push", "src/index/mod.rs::impl Layers", "src/index/mod.rs::impl From for Layers", "src/index/mod.rs::impl Granne :: fn from_parts"]
UNITS = {
    "C01": ["c01"],
    "C02": ["c01"],
    "C03": ["c03"],
    "C04": ["c03"],
    "C05": ["c03"],
    "C22": ["c03"],
    "C06": ["c06"],
    "C20": ["c18", "c09", "c10", "c26"],
    "C21": ["c06", "c09", "c10"],
    "C07": ["c07"],
    "C08": ["c08"],
    "C09": ["c09"],
    "C10": ["c10"],
    "C11": ["c11"],
    "C12": ["c09", "c10"],
    "C13": ["c13", "c16", "c15"],
    "C14": ["c14"],
    "C15": ["c15"],
    "C16": ["c16"],
    "C17": ["c16"],
    "C25": ["c16"],
    "C18": ["c18"],
    "C19": ["c18"],
    "C26": ["c26"],
    "C27": ["c15"],
}
# the functions whose obligations belong to the property itself, as file or file::item prefixes; an obligation that fails in another
# function of the unit (a contract the argument relies on, decided under another property) leaves the property undecided, not violated
SCOPE = {
    "C01": ["src/index/", "src/max_size_heap.rs", "src/elements/mod.rs"],
    "C02": ["src/index/", "src/max_size_heap.rs"],
    "C03": BUILD,
    "C04": ["src/index/mod.rs::impl GranneBuilder :: fn select_neighbors", "src/index/mod.rs::impl GranneBuilder :: fn add_and_limit_neighbors", "src/index/mod.rs::impl GranneBuilder :: fn connect_nodes", "src/index/mod.rs::impl GranneBuilder :: fn initialize_node"],
    "C05": LAYERS,
    "C22": BUILD,
    "C06": ["src/index/io.rs", "src/slice_vector/", "src/io.rs", "src/index/mod.rs::impl FileOrMemoryLayers", "src/index/mod.rs::impl Layers", "src/index/mod.rs::impl Graph for", r"~src/index/mod.rs::impl (Index for )?Granne(Builder)? :: fn (from_|write_|new)"],
    "C18": ["src/index/rw/"],
    "C19": ["src/index/rw/"],
    "C13": ["src/index/reorder.rs", r"~impl Permutable for \w+ :: fn permute$", "src/slice_vector/mod.rs::impl FixedWidthSliceVector :: fn permute"],
    "C15": ["src/elements/embeddings/mod.rs", "src/math.rs::fn sum_into_f32", "src/math.rs::fn normalize_f32", "src/elements/angular.rs::impl From for Vector"],
    "C16": ["src/math.rs::fn dot_product_and_squared_norms_i8", "src/elements/angular.rs::impl Dist for", "src/elements/angular_int.rs::impl Dist for"],
    "C17": [r"~src/elements/angular_int.rs::(impl Vector :: )?(fn quantize|impl From for)"],
    "C25": ["src/math.rs::fn dot_product_f32", "src/elements/angular.rs::impl Dist for"],
    "C27": ["src/elements/embeddings/reorder.rs"],
    "C26": [r"~src/elements/embeddings/parsing.rs::fn (?!parse_elements_and_save_shards_to_disk|get_shard_name)"],
    "C11": ["src/slice_vector/", "src/io.rs", "src/elements/embeddings/mod.rs", "src/elements/embeddings/parsing.rs::fn parse_elements_and_save_shards_to_disk", "src/elements/embeddings/parsing.rs::fn get_shard_name"],
    "C20": [r"~fn (\w*write\w*|\w*save\w*)$"],
    "C21": ["src/io.rs", r"~fn (load\w*|from_bytes|from_file|from_files|read\w*|validate\w*)$"],
}
TRUSTED = [
    "Verus 0.2026.09.13, vstd and Z3",
    "the extractor /verif/vx: it drops attributes, visibility, doc comments, nested items and println!, and applies the rewrites listed per function under `extraction`",
    "the shims of units/prelude.rs, units/stdspec.rs and units/stdio.rs (std iterators, Cow::to_vec, memory layout of byte slices, std::io::Write/Seek, memmap)",
    "assert! may panic; a function that panics satisfies its contract (partial correctness), except where a `*_accepts` instance proves that it does not",
    "cloning an element gives an equal element",
]
ASSUMPTIONS = {
    "C18": ["parking_lot locks give mutual exclusion and a guard is held to the end of its scope; the layers lock is only taken while the elements lock is held; a critical section finds some state that every other one has left valid (each critical section is proved to keep it)", "rayon runs every task of a scope", "a panic inside a write section is not considered", "fewer than 2^32 elements, max_search between 1 and 2^59, layer multiplier greater than 1", "insert_batch's recursion and the locks are not proved to terminate (C23)"],
    "C19": ["parking_lot locks give mutual exclusion and a guard is held to the end of its scope; the layers lock is only taken while the elements lock is held; a critical section finds some state that every other one has left valid (each critical section is proved to keep it)", "rayon runs every task of a scope", "a panic inside a write section is not considered", "fewer than 2^32 elements, max_search between 1 and 2^59, layer multiplier greater than 1", "insert_batch's recursion and the locks are not proved to terminate (C23)", "num_neighbors at most 254 and at most 65536 layers when writing", "all elements ever offered to one builder are of one kind (same dimension)", "as C03 and C06 for the nodes and the written index", "File::create yields an empty file of that name"],
    "C06": ["serde_json: reading back the document written for the metadata, with spaces behind it, gives the written layer sizes, layer counts and number of layers", "std::io::BufWriter delivers what it was given, in order, with the next seek or flush that succeeds", "num_neighbors at most 254, fewer than 2^32 nodes and at most 2^44 bytes per layer, at most 2^16 layers, writer position below 2^60, the last layer not empty", "a memory-mapped file is not modified while mapped", "unused slots come last in every node (C03)", "the stream_vbyte dependency as in C07"],
    "C20": ["a destination that fails returns an error from the call that failed (std::io::Write and Seek)", "std::io::BufWriter delivers what it was given with the next seek or flush that succeeds, and reports a failure"],
    "C21": ["std::slice::from_raw_parts needs alignment and length only; slicing panics when out of range", "the content of an index buffer is one this library wrote", "a memory-mapped file starts at a page boundary and is not modified while mapped"],
    "C01": ["max_search * 20 does not overflow (max_search below 2^59)", "the index is well formed: neighbor ids within their layer, no layer smaller than the one above, none empty, no larger than the container (C03, C05, C06)", "a container's distances are functions of its elements' values", "std::collections::BinaryHeap, HashSet and ordered_float::NotNan do what their documentation says"],
    "C02": ["as C01"],
    "C15": ["the blas feature is off", "a memory-mapped file is not modified while mapped"],
    "C13": ["the index covers all its elements (as the property says), at most 254 neighbors per node, fewer than 2^32 elements, search settings of the index well formed as in C01", "rayon: par_chunks/map/collect and par_extend keep order, par_sort_unstable sorts by the key type's Ord", "a key type whose Ord is a total order (obeys_cmp_spec)", "progress bar calls are dropped; stream_vbyte decodes what it encoded (C07)", "the order compute_order chooses is only shown to be a permutation that respects the layers (the property asks for nothing more)"],
    "C16": ["IEEE 754 as stated by the axioms of units/ieee.rs: each operation on numbers gives the number nearest to the exact result or overflows to infinity; `as f32` on integers rounds, `max` and comparison on NotNan order by value", "NotNan::new(..).unwrap() does not return for NaN", "integer components between -127 and 127 (what quantization yields, C17), dimension at most 131072", "the blas feature is off"],
    "C17": ["IEEE 754 as stated by the axioms of units/ieee.rs; `as i8` truncates and saturates", "components of magnitude below 1e36"],
    "C25": ["IEEE 754 as stated by the axioms of units/ieee.rs; mul_add rounds once", "dimension at most 4194304, squared norms at most 3", "the blas feature is off"],
    "C10": ["no allocation exceeds isize::MAX bytes", "rayon's par_chunks/map/collect keep the order of the chunks", "a memory-mapped file is not modified while mapped"],
    "C11": ["the elements and their ids take less than half of the address space", "File::create yields an empty file; different relative names in a directory are different files; whether the output path is a directory does not change during the run", "rayon's par_iter/map/collect keeps order", "what a file or directory contains does not change while it is parsed; splitting into lines and words, JSON strings and gzip are std's, serde_json's and flate2's"],
    "C27": ["no length of an embedding is NaN (the function does not return otherwise)", "the order of terms whose embeddings have equal lengths is left open", "slice::sort_by_key sorts; float sums, roots and rayon's map/collect are std's and rayon's", "every term has an embedding"],
    "C26": ["what a file or directory contains does not change while it is parsed; BufRead::lines, str::split, split_whitespace, ends_with, serde_json::from_str::<String>, MultiGzDecoder (all members of the file), HashMap and sorting paths do what their documentation says (`lines_of`, `words_of`, ... stand for their results)", "rayon's par_iter/map/collect keeps order", "the elements and their ids take less than half of the address space", "std::io::BufWriter delivers what it was given with the next flush that succeeds", "for computed embeddings: the stored files are well formed, hold at least one embedding, of dimension 1 or more, and every term of an element has one; the conversion of one vector to integers is decided under C17"],
    "C12": ["rayon's par_chunks/map/collect keep the order of the chunks", "the permutation argument is a permutation (as the property says)"],
    "C09": ["element alignment divides 8 and 4096 (f32, i8)", "a memory-mapped file starts at a page boundary and is not modified while mapped", "dimension at least 1 once a vector has been pushed (pushing empty vectors into an empty collection is outside the property)"],
    "C14": ["byteorder::LittleEndian read_uint/write_uint do what their documentation says (write_uint panics when the value does not fit)"],
    "C03": ["parking_lot::RwLock: a critical section sees some list that every critical section on this node has left valid (lock invariant; the obligation that each critical section keeps it is discharged)", "rayon's for_each calls the closure once per element, in any order and concurrently; chunks_mut yields disjoint rows", "the closures passed to for_each only share what their captured references allow (checked by rustc)", "fewer than 2^32 elements, num_neighbors between 1 and 2^32, max_search at least 1", "an index continued from a file is one this library wrote (C06)"],
    "C04": ["slice::sort_unstable_by_key sorts", "distances are functions of the two elements (ElementContainer::dist and dists)"],
    "C05": ["the floating point formula for the ideal size of a layer is, for each multiplier greater than 1 and each total, at least 1 on the top layer, nondecreasing with the layer and at least the total from some layer on (sampled by the falsifier)"],
    "C22": ["as C03", "an element without a direction is one whose computed distance to itself exceeds 100 * f32::EPSILON"],
    "C07": ["the stream_vbyte dependency: encode writes a byte string of at most the documented length that decode turns back into the same numbers and lengths", "lists of at most 254 ids (the callers' limit, C03)"],
    "C08": ["fewer than 2^52 chunks (60 offsets each), below the address space", "memory layout of the packed struct Chunk (8 + 2*60 bytes, alignment 1), included only while the attribute repr(C, packed) is present"],
}
NOTES = {
    "C18": "RwGranneBuilder::new, insert, insert_batch, get_element, get_elements, len, is_empty: the lock shims hand out an arbitrary state satisfying the invariant at every acquisition (any interleaving), the element lock's history only grows by what each write section pushes, and insert_batch is proved to give ids of the positions its pushes took, in order, for the longest prefix that fits at each point. lemma_c18: ids given are positions of exactly these elements in every later state.",
    "C19": "RwGranneBuilder::search gives the guarantees of search_for_neighbors (C01) over a state of the elements between call and return, with a result whenever that state has an element; write saves a valid index (layers_ok) whose last layer has as many nodes as the elements written with it, and takes no write lock. lemma_c19 states the property over both contracts.",
    "C06": "write_index, write_as_multi_set_vector and MultiSetVector::write are specified by the bytes they leave in the destination (metadata, then one segment per layer, over any previous content and from any position); read_layer_sizes, load_layers, FileOrMemoryLayers::load, Granne::from_bytes/from_file and GranneBuilder::from_bytes/from_file by the layers they give. lemma_c06: what was written, whatever follows it, loads as the same layers with the same neighbor multisets; lemma_c06_builder: the same for a builder; lemma_c06_again: writing the loaded index gives identical bytes.",
    "C20": "every function that writes (write_as_bytes, the write functions of the slice vectors, write_range, write_as_multi_set_vector, write_index and its callers, Vectors::write, SumEmbeddings::write, write_embeddings, the shard writer) returns Ok only if the destination holds every byte of the representation and no call on it has failed, and returns the number of bytes; the buffered writer of write_index counts as delivered only after a flush or seek that succeeded.",
    "C21": "the unsafe conversions carry their safety conditions as preconditions (within the buffer, aligned), which are proved at every call for every address and length; the loading functions are specified on the bytes alone, so alignment cannot matter; a buffer whose length does not fit does not return.",
    "C01": "search_for_neighbors, find_entrypoint, search_internal and Granne::search over MaxSizeHeap, the Graph implementations of fixed and compressed layers, FileOrMemoryLayers::load and io::load_layers, generic in the element container; the implementations for slices, Vec and references and the default methods are verified too. lemma_c01 states the property over Granne::search's contract.",
    "C02": "search_for_neighbors' postcondition: every observed neighbor of a kept result is kept or the results are full and it is no closer than any of them; kept results lie in every set closed under neighbors that holds the entry point. lemma_c02: if the least such set has at most max_search elements, the results are exactly it.",
    "C03": "select_neighbors, add_and_limit_neighbors, initialize_node, connect_nodes, index_element, index_elements, index_elements_in_last_layer, build_partial and build keep the invariant node_ok of every node (ids inside the layer, distinct, not the node itself, unused slots behind them, at most num_neighbors). Concurrent updates: every node's lock carries that invariant, each critical section is proved to keep it for every list it may find, so it holds under every interleaving. lemma_c03 states the property for every node of every layer of a builder. Node updates of a concurrent builder use the same index_element.",
    "C04": "select_neighbors and add_and_limit_neighbors return exactly `selected`, the recursive statement of the heuristic (nearest first, kept iff fewer than the limit are kept and at least as close to the node as to every kept one); initialize_node and connect_nodes leave a log of the sections in which they write the node, at most one each, and what a section does follows from the list it finds: a free slot is used without dropping anything, a full list is limited by the heuristic. lemma_c04 states the property.",
    "C05": "build_partial and build: exactly n elements afterwards, layers nested in size, the layers above the last untouched, rejected requests do not return; `shape` fixes the layer sizes as functions of n and the expected total alone, lemma_shape_unique shows that steps do not matter, lemma_shape_sizes gives min(n, ideal). push keeps the layers. Termination of the loop over layers is proved from the assumption on ideal sizes.",
    "C22": "the invariant node_ok also says that every listed neighbor has a direction (or is element 0) and that a node without a direction has no neighbors; the searches used for building are proved to find only such elements because everything they can reach has a direction.",
    "C15": "get_embedding, create_embedding and the generic loop behind them compute emb_sum: the first term's embedding, then the others added component-wise in order with single-precision additions; none gives zeros of the width. sum_into_f32 is proved component-wise. Floating point addition is the IEEE operation, uninterpreted.",
    "C13": "reorder and reorder_by_keys return r with `reordered(old, new, r)`: r permutes each layer onto itself, node i of each new layer has the neighbors of old node r[i] (as a multiset, through r), element i is old element r[i], layer sizes are the same, the index stays well formed; by keys, the keys are sorted in every block. Covers get_reverse_mapping, reorder_layer (chunked, with the MultiSetVector encoding), reorder_layers, compute_order (termination and permutation), find_entrypoint_trail, and permute of the containers.",
    "C16": "dist of both element types over the real dot products: the 8-bit products are summed exactly (i32, no overflow up to dimension 131072) whichever of the function's variants runs, and the distance is the IEEE expression over the exact sums, at least 0, symmetric, exactly 1 with a zero vector; the float distance is never NaN and at least 0. lemma_c16 in both modules.",
    "C17": "quantize and the conversion from float vectors: `quantizes` says in range, no flipped sign, order preserved, the largest magnitude mapped to at least 126; lemma_c17_zero the zero vector. Uses only monotonicity and relative accuracy of IEEE division and multiplication.",
    "C25": "dot_product_f32 computes exactly the lanes, their sum and the rest (dotf); lemma_dotf bounds the accumulated rounding error of that sum against the exact real dot product by induction over lanes and rest; lemma_c25 gives the property for Dist::dist.",
    "C10": "VariableWidthSliceVector and SumEmbeddings over the real ThreeByteInt/FiveByteInt: the collection is a sequence of id lists; push, get, extend, write, write_range, from_bytes and from_file are specified on it, and what is written is read back.",
    "C11": "write_range writes exactly the lists of the range in a form that loads as them; parse_elements_and_save_shards_to_disk, over the real parsing functions, carries a ghost log of the files it wrote, and the lists of these files in order are all the parsed elements, one flushed file per shard. The files of two shards have different names (get_shard_name is under contract). Trusts file creation, std::path and format!.",
    "C27": "compute_keys_for_reordering returns, for element i, `is_key`: the first eight of a permutation of its terms whose embeddings' lengths do not increase, padded with zeros. The keys are a total order, so C13 applies to reordering by them.",
    "C26": "parse_words, parse_file, parse_elements_in_directory_or_file, parse_elements_and_save_to_disk and compute_embeddings_and_save_to_disk: the parsed collection equals `parsed(path, word numbers)`, a recursive definition over the files' lines; the written file holds its representation, flushed; the file of computed embeddings holds, over all chunks, header and rows of exactly one quantized sum per element, in order.",
    "C12": "permute of FixedWidthSliceVector (the in-place cycle walk, with termination) and of SumEmbeddings (chunked rebuild): result[i] == original[p[i]] for every permutation p.",
    "C09": "FixedWidthSliceVector and the Vector/Vectors wrappers of src/elements/dense_vector.rs for f32 and i8: every operation is specified on the sequence of rows; pushes and extensions of another dimension do not return; write followed by from_bytes or from_file gives the same rows.",
    "C14": "ThreeByteInt and FiveByteInt expanded from their macro: from returns only for values that fit and stores exactly that value; into returns the stored value. Overwriting one value in an array is a plain indexed store of a 3 or 5 byte struct.",
    "C07": "set_encode, set_decode_into, the delta coding and MultiSetVector over the whole compressed layer: decoding any encoded sorted list of up to 254 ids gives that list, the raw and the variable-length form are told apart by their lengths. Trusts the shim of the external stream_vbyte crate.",
    "C08": "Chunk, Offsets and CompressedVariableWidthSliceVector: every push appends exactly the offset (or list), every read returns exactly what was pushed, an accepted offset is the pushed one, representable offsets are not rejected, and the serialized form parses back. Trusts the shims listed in the evidence.",
}
NA = {
    "C23": "deadlock freedom is a liveness property of all schedules of rayon and std locks; contracts over single calls cannot express it and Verus has no model of these locks' scheduling",
    "C24": "recall is a statistical property of the heuristics on data sets, not a postcondition any contract can state for every input",
}
