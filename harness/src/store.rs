use crate::util::*;
use crate::*;
use granne::{angular, angular_int, embeddings::SumEmbeddings, BuildConfig, Builder, Granne, GranneBuilder, Index, Permutable, RwGranneBuilder, Writeable};
use std::io::{Cursor, Error, ErrorKind, Seek, SeekFrom, Write};

pub fn sections(p: &str, v: &mut Vec<Section>) {
    match p {
        "C06" => {
            v.push(sec("roundtrip", "random layered graphs through builder -> write -> load (bytes, file, builder) -> write", 3000, 100000, roundtrip));
            v.push(sec("roundtrip-counts", "every node count 1..=250 (all offset chunk boundaries), 0 to 3 layers", 250, 750, roundtrip_counts));
            v.push(sec("roundtrip-built", "indexes built from random vectors, search results compared", 150, 5000, roundtrip_built));
            v.push(sec("roundtrip-large", "layers of 10000..70000 nodes", 2, 12, roundtrip_large));
        }
        "C07" => {
            v.push(sec("lists-lengths", "every length 0..=254 x gap classes", 255 * 8, 255 * 64, lists_lengths));
            v.push(sec("lists-boundary", "lists whose compressed size is just below, at and above the raw size", 4000, 200000, lists_boundary));
            v.push(sec("lists-small", "all lists of up to 4 ids from boundary values", 1, 1, lists_small));
            #[cfg(granne_verif)]
            v.push(sec("lists-direct", "MultiSetVector push/get, ids up to u32::MAX", 4000, 400000, lists_direct));
        }
        "C08" => {
            v.push(sec("offsets-counts", "every number of lists 0..=200 x size classes", 201 * 4, 201 * 40, offsets_counts));
            v.push(sec("offsets-many", "thousands of lists, random list lengths", 10, 400, offsets_many));
            #[cfg(granne_verif)]
            v.push(sec("offsets-direct", "Offsets push/get/get_consecutive/len with deltas up to 65534, unrepresentable ones rejected", 3000, 200000, offsets_direct));
            #[cfg(granne_verif)]
            v.push(sec("compressed-direct", "CompressedVariableWidthSliceVector push/get/len, written, loaded, extended", 1500, 60000, compressed_direct));
        }
        "C13" => {
            v.push(sec("reorder-keys", "random layered graphs, random keys with ties", 3000, 100000, reorder_keys));
            v.push(sec("reorder-graph", "random layered graphs, random distances", 1500, 60000, reorder_graph));
            v.push(sec("reorder-built", "built indexes over vectors and summed embeddings", 60, 2000, reorder_built));
            v.push(sec("reorder-large", "layers of more than 10000 nodes (parallel chunks)", 2, 8, reorder_large));
        }
        "C20" => {
            v.push(sec("fail-index", "index written to a destination that fails after every number of bytes, with short writes", 300, 10000, fail_index));
            v.push(sec("fail-elements", "elements and embeddings written to failing destinations", 600, 30000, fail_elements));
            v.push(sec("fail-rw", "concurrent builder written to failing destinations", 150, 5000, fail_rw));
            v.push(sec("fail-flush", "destinations that fail on flush or on a particular seek", 200, 5000, fail_flush));
        }
        "C21" => {
            v.push(sec("align-index", "index at every offset 0..16 from an aligned address", 400, 10000, align_index));
            v.push(sec("align-elements", "elements at every offset 0..16 from an aligned address", 600, 20000, align_elements));
            v.push(sec("truncated", "every truncation and inconsistent sizes of element data is rejected", 150, 5000, truncated));
        }
        _ => {}
    }
}

pub fn index_bytes<I: Index>(b: &I) -> Result<Vec<u8>, String> {
    let mut c = Cursor::new(Vec::new());
    b.write_index(&mut c).map_err(|e| e.to_string())?;
    Ok(c.into_inner())
}
pub fn builder_of(g: &Graph, k: usize, n: usize) -> GranneBuilder<Tab> {
    // distances are never evaluated
    GranneBuilder::from_bytes(BuildConfig::default().num_neighbors(k), &encode_index(g), Tab { ids: (0..n).collect(), d: std::sync::Arc::new(vec![]), jitter: false })
}
fn empty_tab() -> Tab { Tab::new(vec![]) }

fn check_roundtrip(g: &Graph, k: usize, how: usize) -> R {
    let n = g.last().map_or(0, |l| l.len());
    let b = builder_of(g, k, n);
    diff_graph("loaded from independent writer", g, &graph_of(&b))?;
    let bytes = index_bytes(&b)?;
    diff_graph("written index (independent reader)", g, &decode_index(&bytes)?)?;
    let l = Granne::from_bytes(&bytes, empty_tab());
    diff_graph("loaded index", g, &graph_of(&l))?;
    ensure(l.len() == n && l.num_layers() == g.len(), || format!("loaded index has len {} and {} layers", l.len(), l.num_layers()))?;
    ensure(index_bytes(&l)? == bytes, || "rewriting a loaded index gives different bytes".into())?;
    let b2 = GranneBuilder::from_bytes(BuildConfig::default().num_neighbors(k), &bytes, Tab { ids: (0..n).collect(), d: std::sync::Arc::new(vec![]), jitter: false });
    diff_graph("index loaded into a builder", g, &graph_of(&b2))?;
    ensure(index_bytes(&b2)? == bytes, || "rewriting from a builder gives different bytes".into())?;
    if how % 4 == 0 {
        // destination already has data, writing starts in the middle
        let pre = how % 97;
        let mut c = Cursor::new(vec![7u8; pre]);
        c.seek(SeekFrom::End(0)).unwrap();
        b.write_index(&mut c).map_err(|e| e.to_string())?;
        let v = c.into_inner();
        ensure(v[..pre].iter().all(|&x| x == 7), || "bytes before the index were changed".into())?;
        ensure(v[pre..] == bytes[..], || format!("index written at position {} differs", pre))?;
    }
    if how % 4 == 1 {
        let d = Dir::new("rt");
        let mut f = std::fs::OpenOptions::new().create(true).truncate(true).read(true).write(true).open(d.file("i")).map_err(|e| e.to_string())?;
        b.write_index(&mut f).map_err(|e| e.to_string())?;
        f.flush().unwrap();
        let f = std::fs::File::open(d.file("i")).unwrap();
        let l = unsafe { Granne::from_file(&f, empty_tab()) }.map_err(|e| e.to_string())?;
        diff_graph("index loaded from file", g, &graph_of(&l))?;
        ensure(index_bytes(&l)? == bytes, || "rewriting from file gives different bytes".into())?;
        let b3 = GranneBuilder::from_file(BuildConfig::default().num_neighbors(k), &f, Tab { ids: (0..n).collect(), d: std::sync::Arc::new(vec![]), jitter: false }).map_err(|e| e.to_string())?;
        diff_graph("builder loaded from file", g, &graph_of(&b3))?;
    }
    Ok(())
}

fn roundtrip(c: &mut Ctx, idx: u64) -> R {
    let max_n = if idx % 40 == 0 { 400 } else { 30 };
    let wide = idx % 60 == 7;
    let sizes = if wide { vec![c.rng.range(1, 20), c.rng.range(280, 400)] } else { rand_sizes(&mut c.rng, 5, max_n) };
    let md = if wide { *c.rng.pick(&[127usize, 128, 129, 200, 253, 254]) } else if idx % 7 == 0 { c.rng.range(1, 60) } else { c.rng.range(1, 8) };
    let so = c.rng.chance(1, 3);
    let mut g = rand_graph(&mut c.rng, &sizes, md, so);
    if wide {
        // lists of exactly the greatest length
        let n = g[1].len();
        for i in 0..n { if c.rng.chance(1, 3) { let mut p: Vec<u32> = c.rng.perm(n).into_iter().filter(|&j| j != i).take(md).map(|j| j as u32).collect(); p.sort(); g[1][i] = p; } }
    }
    let k = if wide { md } else { md + c.rng.below(3) };
    c.case(format!("num_neighbors {} graph {}", k, clip(&format!("{:?}", g), 4000)));
    c.nontrivial = !g.is_empty();
    check_roundtrip(&g, k, c.rng.below(1000))
}
fn roundtrip_counts(c: &mut Ctx, idx: u64) -> R {
    let n = idx as usize % 250 + 1;
    let sizes = match idx % 3 { 0 => vec![n], 1 => vec![c.rng.range(1, n), n], _ => vec![1, c.rng.range(1, n), n] };
    let g = rand_graph(&mut c.rng, &sizes, 6, false);
    c.case(format!("sizes {:?} graph {}", sizes, clip(&format!("{:?}", g), 4000)));
    check_roundtrip(&g, 6, idx as usize)
}
fn roundtrip_large(c: &mut Ctx, _: u64) -> R {
    let n = c.rng.range(10000, 70000);
    let g = rand_graph(&mut c.rng, &[n / 10, n], 12, false);
    c.case(format!("sizes {:?}", [n / 10, n]));
    check_roundtrip(&g, 12, 1)
}
pub fn rand_vectors(c: &mut Ctx, n: usize, dim: usize) -> angular::Vectors<'static> {
    let mut v = angular::Vectors::new();
    for _ in 0..n { let x: Vec<f32> = (0..dim).map(|_| c.rng.unit() - 0.5).collect(); v.push(&angular::Vector::from(x)); }
    v
}
fn roundtrip_built(c: &mut Ctx, idx: u64) -> R {
    let n = c.rng.range(1, 150);
    let dim = c.rng.range(2, 6);
    let v = rand_vectors(c, n, dim);
    let k = c.rng.range(2, 20);
    c.case(format!("{} vectors of dim {}: {:?}", n, dim, v.as_slice()));
    let mut b = GranneBuilder::new(BuildConfig::default().num_neighbors(k).layer_multiplier(4.0).max_search(20), v.clone());
    on_threads(1 + (idx % 2) as usize, || b.build());
    let bytes = index_bytes(&b)?;
    let l = Granne::from_bytes(&bytes, v.clone());
    diff_graph("loaded", &sorted_graph(&graph_of(&b)), &graph_of(&l))?;
    for _ in 0..10 {
        let q: angular::Vector = (0..dim).map(|_| c.rng.unit() - 0.5).collect::<Vec<f32>>().into();
        let ms = n + 1; // exhaustive: independent of the order of neighbors
        let (a, b) = (b.get_index().search(&q, ms, 10), l.search(&q, ms, 10));
        ensure(a == b, || format!("search results differ: {:?} {:?}", a, b))?;
    }
    Ok(())
}

// ---------- lists ----------
fn check_codec(lists: Vec<Vec<u32>>) -> R {
    let k = lists.iter().map(|l| l.len()).max().unwrap_or(0).max(1);
    let g: Graph = vec![lists];
    // raw -> memory -> compressed -> memory
    let b = builder_of(&g, k, g[0].len());
    diff_graph("decoding of raw lists", &g, &graph_of(&b))?;
    let bytes = index_bytes(&b)?;
    diff_graph("written lists (independent decoder)", &g, &decode_index(&bytes)?)?;
    let l = Granne::from_bytes(&bytes, empty_tab());
    diff_graph("decoded lists", &g, &graph_of(&l))?;
    let b2 = GranneBuilder::from_bytes(BuildConfig::default().num_neighbors(k), &bytes, Tab { ids: (0..g[0].len()).collect(), d: std::sync::Arc::new(vec![]), jitter: false });
    diff_graph("lists decoded into a builder", &g, &graph_of(&b2))
}
const MAXID: u64 = u32::MAX as u64 - 1;
fn gap(rng: &mut Rng, class: usize) -> u64 {
    let c = if class < 5 { class } else { rng.below(5) };
    match c { 0 => rng.below(4) as u64, 1 => *rng.pick(&[1u64, 255, 256, 128, 127]), 2 => *rng.pick(&[256u64, 65535, 65536, 3000]), 3 => *rng.pick(&[65536u64, (1 << 24) - 1, 1 << 24, 1 << 20]), _ => *rng.pick(&[1u64 << 24, 1 << 31, 1 << 28]) }
}
fn gap_list(rng: &mut Rng, len: usize, class: usize) -> Vec<u32> {
    let mut v: Vec<u64> = vec![];
    let mut x = if rng.chance(1, 3) { 0 } else { gap(rng, class) };
    for _ in 0..len { if x > MAXID { x = MAXID; } v.push(x); x += gap(rng, class); }
    if class == 7 && len > 0 { v[len - 1] = MAXID; }
    v.into_iter().map(|x| x as u32).collect()
}
fn lists_lengths(c: &mut Ctx, idx: u64) -> R {
    let len = (idx % 255) as usize;
    let class = (idx / 255) as usize % 8;
    let l = gap_list(&mut c.rng, len, class);
    c.case(format!("{:?}", l));
    let other = gap_list(&mut c.rng, 3, 5);
    check_codec(vec![other.clone(), l, other])
}
/// lists with chosen byte lengths per delta
fn sized_list(rng: &mut Rng, n: usize, target: i64) -> Option<Vec<u32>> {
    let ctl = ((n.max(4) + 3) / 4) as i64;
    let pad = if n < 4 { 4 - n as i64 } else { 0 };
    let mut want = target - ctl - pad;
    if want < n as i64 || want > 4 * n as i64 { return None; }
    let mut lens = vec![1i64; n];
    want -= n as i64;
    let mut guard = 0;
    while want > 0 { let i = rng.below(n); if lens[i] < 4 { lens[i] += 1; want -= 1; } guard += 1; if guard > 100000 { return None; } }
    let mut x = 0u64;
    let mut out = vec![];
    for &l in &lens { let lo = if l == 1 { 0 } else { 1u64 << (8 * (l - 1)) }; x += lo + rng.below(3) as u64; if x > MAXID { return None; } out.push(x as u32); }
    Some(out)
}
fn lists_boundary(c: &mut Ctx, _: u64) -> R {
    for _ in 0..200 {
        let n = if c.rng.chance(1, 2) { c.rng.range(2, 12) } else { c.rng.range(2, 254) };
        let t = 4 * n as i64 + c.rng.below(7) as i64 - 3;
        if let Some(l) = sized_list(&mut c.rng, n, t) {
            c.case(format!("{:?}", l));
            return check_codec(vec![l]);
        }
    }
    c.nontrivial = false;
    Ok(())
}
fn lists_small(c: &mut Ctx, _: u64) -> R {
    let vals: Vec<u32> = vec![0, 1, 255, 256, 65535, 65536, 1 << 24, (1 << 24) - 1, u32::MAX - 1];
    let mut all: Vec<Vec<u32>> = vec![vec![]];
    let mut cur: Vec<Vec<u32>> = vec![vec![]];
    for _ in 0..4 {
        let mut next = vec![];
        for l in &cur { for &x in &vals { if l.last().map_or(true, |&y| y <= x) { let mut m = l.clone(); m.push(x); next.push(m); } } }
        all.extend(next.iter().cloned());
        cur = next;
    }
    c.case(format!("{} lists from {:?}", all.len(), vals));
    check_codec(all)
}
#[cfg(granne_verif)]
fn lists_direct(c: &mut Ctx, _: u64) -> R {
    let n = c.rng.range(0, 5);
    let class = c.rng.below(8);
    let mut lists: Vec<Vec<u32>> = (0..n).map(|_| { let l = c.rng.below(30); gap_list(&mut c.rng, l, class) }).collect();
    if n > 0 && c.rng.chance(1, 4) { lists[0].push(u32::MAX); }
    c.case(format!("{:?}", lists));
    let mut m = granne::verif_hooks::MultiSetVector::new();
    for l in &lists { let mut s = l.clone(); c.rng.shuffle(&mut s); m.push(&s); }
    let mut bytes = vec![];
    let w = m.write(&mut bytes).map_err(|e| e.to_string())?;
    ensure(w == bytes.len(), || format!("write returned {} for {} bytes", w, bytes.len()))?;
    let at = At::new(&bytes, c.rng.below(16));
    let loaded = granne::verif_hooks::MultiSetVector::from_bytes(at.bytes());
    let owned = granne::verif_hooks::MultiSetVector::from_bytes(at.bytes()).into_owned();
    let borrowed = m.borrow();
    // one buffer for all reads, with something in it already
    let mut buf: Vec<u32> = (0..c.rng.below(40) as u32).collect();
    for (name, m) in [("pushed", &m), ("borrowed", &borrowed), ("loaded", &loaded), ("owned", &owned)] {
        ensure(m.len() == n && m.is_empty() == (n == 0), || format!("{}: {} lists pushed, len {} is_empty {}", name, n, m.len(), m.is_empty()))?;
        for (i, l) in lists.iter().enumerate() {
            let g = m.get(i);
            ensure(&g == l, || format!("{}: list {}: pushed {:?}, got {:?}", name, i, l, g))?;
            let before = buf.clone();
            m.get_into(i, &mut buf);
            ensure(&buf == l, || format!("{}: list {}: pushed {:?}, got {:?} in a buffer that held {:?}", name, i, l, buf, before))?;
        }
    }
    Ok(())
}
#[cfg(granne_verif)]
fn compressed_direct(c: &mut Ctx, idx: u64) -> R {
    use granne::verif_hooks::CompressedVariableWidthSliceVector as V;
    let n = if idx % 2 == 0 { (idx / 2 % 130) as usize } else { c.rng.range(0, 200) };
    let m = *c.rng.pick(&[1usize, 2, 5, 300]);
    let lists: Vec<Vec<u8>> = (0..n).map(|_| { let l = c.rng.below(m + 1); (0..l).map(|_| c.rng.below(256) as u8).collect() }).collect();
    c.case(format!("{} lists: {}", n, clip(&format!("{:?}", lists), 3000)));
    fn check(name: &str, v: &V<u8>, lists: &[Vec<u8>]) -> R {
        ensure(v.len() == lists.len(), || format!("{}: {} lists pushed, len {}", name, lists.len(), v.len()))?;
        for (i, l) in lists.iter().enumerate() { ensure(v.get(i) == l.as_slice(), || format!("{}: list {}: pushed {:?}, got {:?}", name, i, l, v.get(i)))?; }
        Ok(())
    }
    let mut v: V<u8> = V::new();
    for l in &lists { v.push(l); }
    check("pushed", &v, &lists)?;
    let mut bytes = vec![];
    let w = v.write(&mut bytes).map_err(|e| e.to_string())?;
    ensure(w == bytes.len(), || format!("write returned {} for {} bytes", w, bytes.len()))?;
    let at = At::new(&bytes, c.rng.below(16));
    let l: V<u8> = V::from_bytes(at.bytes());
    check("loaded", &l, &lists)?;
    check("borrowed", &l.borrow(), &lists)?;
    // a loaded collection goes on like the pushed one
    let mut o = l.into_owned();
    check("owned", &o, &lists)?;
    let more: Vec<u8> = (0..c.rng.below(20)).map(|_| c.rng.below(256) as u8).collect();
    o.push(&more);
    let mut all = lists.clone();
    all.push(more);
    check("extended after loading", &o, &all)
}

fn offsets_counts(c: &mut Ctx, idx: u64) -> R {
    let n = (idx % 201) as usize;
    let class = (idx / 201) as usize % 4;
    let lists: Vec<Vec<u32>> = (0..n).map(|_| { let l = match class { 0 => 0, 1 => c.rng.below(4), 2 => c.rng.below(60), _ => *c.rng.pick(&[0usize, 1, 15, 16, 17, 63, 64, 254]) }; gap_list(&mut c.rng, l, 5) }).collect();
    c.case(format!("{} lists: {}", n, clip(&format!("{:?}", lists), 3000)));
    if n == 0 { return check_roundtrip(&vec![], 3, 1); }
    check_codec(lists)
}
fn offsets_many(c: &mut Ctx, _: u64) -> R {
    let n = c.rng.range(1000, 8000);
    let m = *c.rng.pick(&[1usize, 10, 40, 254]);
    let lists: Vec<Vec<u32>> = (0..n).map(|_| { let l = c.rng.below(m + 1); gap_list(&mut c.rng, l, 5) }).collect();
    c.case(format!("{} lists of up to {} ids", n, m));
    check_codec(lists)
}
#[cfg(granne_verif)]
fn offsets_direct(c: &mut Ctx, idx: u64) -> R {
    use granne::verif_hooks::Offsets;
    let n = if idx % 2 == 0 { (idx / 2 % 200) as usize } else { c.rng.range(0, 400) };
    let style = c.rng.below(4);
    let mut o = Offsets::new();
    let mut model: Vec<usize> = vec![];
    let mut x = if c.rng.chance(1, 2) { 0usize } else { c.rng.below(65535) };
    for _ in 0..n {
        x += match style { 0 => 0, 1 => c.rng.below(10), 2 => 65534 - c.rng.below(3), _ => c.rng.below(65535) };
        if model.is_empty() { x = x.min(65534); }
        o.push(x);
        model.push(x);
    }
    c.case(format!("style {} offsets {:?}", style, model));
    ensure(o.len() == model.len(), || format!("len {} after {} pushes", o.len(), model.len()))?;
    ensure(o.last() == model.last().copied(), || format!("last {:?} expected {:?}", o.last(), model.last()))?;
    let mut bytes = Cursor::new(Vec::new());
    let w = o.write(&mut bytes).map_err(|e| e.to_string())?;
    ensure(w == o.num_bytes() && w == bytes.get_ref().len(), || format!("write returned {} num_bytes {} bytes {}", w, o.num_bytes(), bytes.get_ref().len()))?;
    let at = At::new(bytes.get_ref(), c.rng.below(16));
    let l = Offsets::load(at.bytes());
    for (name, o) in [("memory", &o), ("loaded", &l)] {
        for i in 0..model.len() {
            ensure(o.get(i) == model[i], || format!("{}: offset {} is {}, expected {}", name, i, o.get(i), model[i]))?;
            if i + 1 < model.len() { let p = o.get_consecutive(i); ensure(p == (model[i], model[i + 1]), || format!("{}: pair {} is {:?}, expected {:?}", name, i, p, (model[i], model[i + 1])))?; }
        }
    }
    if !model.is_empty() && model.len() % 60 != 0 {
        let before = o.len();
        let bad = if c.rng.chance(1, 4) && *model.last().unwrap() > 0 { model.last().unwrap() - 1 } else { model.last().unwrap() + 65535 + c.rng.below(3) };
        let mut o2 = o.clone();
        let r = catch(|| o2.push(bad));
        ensure(r.is_err(), || format!("offset {} after {} accepted; read back as {:?}, len {} -> {}", bad, model.last().unwrap(), catch(|| o2.last()), before, o2.len()))?;
    }
    Ok(())
}

// ---------- reorder ----------
fn check_reordered(g: &Graph, order: &[usize], got: &Graph) -> R {
    let n = g.last().map_or(0, |l| l.len());
    ensure(order.len() == n, || format!("permutation has {} entries for {} elements", order.len(), n))?;
    let mut inv = vec![usize::MAX; n];
    for (i, &j) in order.iter().enumerate() { ensure(j < n && inv[j] == usize::MAX, || format!("not a permutation: {:?}", order))?; inv[j] = i; }
    let mut begin = 0;
    for l in g { for i in begin..l.len() { ensure(order[i] >= begin && order[i] < l.len(), || format!("position {} of layer range {}..{} has element {}", i, begin, l.len(), order[i]))?; } begin = l.len(); }
    ensure(got.len() == g.len(), || format!("{} layers became {}", g.len(), got.len()))?;
    for l in 0..g.len() {
        ensure(got[l].len() == g[l].len(), || format!("layer {}: {} nodes became {}", l, g[l].len(), got[l].len()))?;
        for i in 0..g[l].len() {
            let mut want: Vec<u32> = g[l][order[i]].iter().map(|&x| inv[x as usize] as u32).collect();
            want.sort();
            let mut have = got[l][i].clone();
            have.sort();
            ensure(want == have, || format!("layer {} node {} (was {}): neighbors {:?}, expected {:?}", l, i, order[i], have, want))?;
        }
    }
    Ok(())
}
fn load_mem(how: usize, bytes: &[u8], t: Tab) -> Granne<'_, Tab> {
    if how % 2 == 0 { Granne::from_bytes(bytes, t) }
    else { GranneBuilder::from_bytes(BuildConfig::default().num_neighbors(20), bytes, t).get_index().to_owned() }
}
fn layered(c: &mut Ctx, max: usize) -> Graph {
    let mut sizes = rand_sizes(&mut c.rng, 4, max);
    if c.rng.chance(1, 30) { // more layers than entry points are kept for
        let extra = c.rng.range(7, 12);
        sizes = (1..=extra).map(|i| i * 2).collect();
    }
    let so = c.rng.chance(1, 5);
    rand_graph(&mut c.rng, &sizes, 6, so)
}
fn reorder_keys(c: &mut Ctx, idx: u64) -> R {
    let g = layered(c, 40);
    let n = g.last().map_or(0, |l| l.len());
    let kmax = c.rng.range(1, 40);
    let keys: Vec<usize> = (0..n).map(|_| c.rng.below(kmax)).collect();
    c.case(format!("graph {:?} keys {:?}", g, keys));
    let bytes = encode_index(&g);
    let t = Tab { ids: (0..n).map(|i| 1000 + i).collect(), d: std::sync::Arc::new(vec![]), jitter: false };
    let mut ix = load_mem(idx as usize, &bytes, t);
    let order = ix.reorder_by_keys(&keys, false);
    check_reordered(&g, &order, &graph_of(&ix))?;
    for i in 0..n { ensure(ix.get_element(i) == 1000 + order[i], || format!("element {} is {}, permutation says {}", i, ix.get_element(i), order[i]))?; }
    keys_sorted(&g, &order, &keys)
}
fn keys_sorted(g: &Graph, order: &[usize], keys: &[usize]) -> R {
    let mut begin = 0;
    for l in g { for i in begin + 1..l.len() { ensure(keys[order[i - 1]] <= keys[order[i]], || format!("keys not sorted at {}: {} {}", i, keys[order[i - 1]], keys[order[i]]))?; } begin = begin.max(l.len()); }
    Ok(())
}
fn reorder_graph(c: &mut Ctx, idx: u64) -> R {
    let g = layered(c, 25);
    let n = g.last().map_or(0, |l| l.len());
    let d = any_dists(&mut c.rng, n, n);
    c.case(format!("graph {:?} dists {:?}", g, d));
    let bytes = encode_index(&g);
    let mut ix = load_mem(idx as usize, &bytes, Tab::with_n(n, d));
    let order = ix.reorder(false);
    check_reordered(&g, &order, &graph_of(&ix))?;
    for i in 0..n { ensure(ix.get_element(i) == order[i], || format!("element {} is {}, permutation says {}", i, ix.get_element(i), order[i]))?; }
    Ok(())
}
fn reorder_built(c: &mut Ctx, idx: u64) -> R {
    let n = c.rng.range(1, 120);
    let dim = 4;
    c.case(format!("{} elements, kind {}", n, idx % 2));
    let cfg = BuildConfig::default().num_neighbors(8).layer_multiplier(4.0).max_search(10);
    if idx % 2 == 0 {
        let v = rand_vectors(c, n, dim);
        let mut b = GranneBuilder::new(cfg, v.clone());
        on_threads(1, || b.build());
        let g = sorted_graph(&graph_of(&b));
        let mut ix = b.get_index().to_owned();
        let order = ix.reorder(false);
        check_reordered(&g, &order, &graph_of(&ix))?;
        for i in 0..n { ensure(ix.get_element(i).into_vec() == v.get_element(order[i]).into_vec(), || format!("element {} wrong", i))?; }
    } else {
        let mut e = SumEmbeddings::new();
        for _ in 0..30 { let x: Vec<f32> = (0..dim).map(|_| c.rng.unit() - 0.5).collect(); e.push_embedding(&x); }
        for _ in 0..n { let l = c.rng.range(1, 12); let ids: Vec<usize> = (0..l).map(|_| c.rng.below(30)).collect(); e.push(&ids); }
        let mut b = GranneBuilder::new(cfg, e.clone());
        on_threads(1, || b.build());
        let g = sorted_graph(&graph_of(&b));
        let mut ix: Granne<SumEmbeddings> = b.get_index().to_owned();
        let keys = granne::embeddings::compute_keys_for_reordering(ix.get_elements());
        let order = ix.reorder_by_keys(&keys, false);
        check_reordered(&g, &order, &graph_of(&ix))?;
        let mut begin = 0;
        for l in &g { for i in begin + 1..l.len() { ensure(keys[order[i - 1]] <= keys[order[i]], || format!("keys not sorted at {}", i))?; } begin = l.len(); }
        for i in 0..n { ensure(ix.get_elements().get_terms(i) == e.get_terms(order[i]), || format!("element {} wrong", i))?; }
    }
    Ok(())
}
fn reorder_large(c: &mut Ctx, idx: u64) -> R {
    let n = [10001, 66001, 20000, 10000][idx as usize % 4] + if idx > 4 { c.rng.below(50) } else { 0 };
    let m = n / 7;
    // the first with long lists: a chunk has more than 65535 neighbors
    let deg = if idx % 2 == 0 { 30 } else { 5 };
    let g: Graph = [m, n].iter().map(|&n| (0..n).map(|_| { let l = c.rng.below(deg); let mut v: Vec<u32> = (0..l).map(|_| c.rng.below(n) as u32).collect(); v.sort(); v.dedup(); v }).collect()).collect();
    let keys: Vec<usize> = (0..n).map(|_| c.rng.below(500)).collect();
    c.case(format!("layers {:?}", [m, n]));
    let bytes = encode_index(&g);
    let mut ix = Granne::from_bytes(&bytes, Tab { ids: (0..n).collect(), d: std::sync::Arc::new(vec![]), jitter: false });
    let order = ix.reorder_by_keys(&keys, false);
    check_reordered(&g, &order, &graph_of(&ix))?;
    for i in 0..n { ensure(ix.get_element(i) == order[i], || format!("element {} is {}, permutation says {}", i, ix.get_element(i), order[i]))?; }
    keys_sorted(&g, &order, &keys)
}

// ---------- failing destinations ----------
/// accepts `budget` bytes in pieces of at most `piece`, fails on the chosen seek/flush
pub struct Dest { pub kind: ErrorKind, pub zero: bool, pub once: bool, pub data: Vec<u8>, pub pos: usize, pub written: usize, pub budget: usize, pub piece: usize, pub seek_fail: Option<usize>, pub flush_fail: bool, pub buffered: bool, pub pending: Vec<(usize, Vec<u8>)>, pub seeks: usize, pub failed: bool }
impl Dest {
    pub fn new(budget: usize, piece: usize) -> Self { Dest { kind: ErrorKind::Other, zero: false, once: false, data: vec![], pos: 0, written: 0, budget, piece, seek_fail: None, flush_fail: false, buffered: false, pending: vec![], seeks: 0, failed: false } }
    /// how the destination says that it fails; a write that is interrupted has not failed (it is to be repeated), a seek or flush has
    pub fn manner(&mut self, rng: &mut Rng) {
        self.kind = *rng.pick(&[ErrorKind::Other, ErrorKind::Interrupted, ErrorKind::WouldBlock, ErrorKind::BrokenPipe, ErrorKind::UnexpectedEof, ErrorKind::InvalidInput]);
        self.zero = rng.chance(1, 4);
        self.once = rng.chance(1, 2);
    }
    fn store(&mut self, b: &[u8]) {
        let end = self.pos + b.len();
        if self.data.len() < end { self.data.resize(end, 0); }
        self.data[self.pos..end].copy_from_slice(b);
        self.pos = end;
    }
}
impl Write for Dest {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() { return Ok(0); }
        let n = b.len().min(self.piece).min(self.budget - self.written);
        if n == 0 { self.failed = true; if self.once { self.budget = usize::MAX / 2; } if self.zero { return Ok(0); } return Err(Error::new(if self.kind == ErrorKind::Interrupted { ErrorKind::Other } else { self.kind }, "destination full")); }
        let x = b[..n].to_vec();
        self.store(&x);
        self.written += n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { if self.flush_fail { self.failed = true; Err(Error::new(self.kind, "flush failed")) } else { Ok(()) } }
}
impl Seek for Dest {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.seeks += 1;
        if self.seek_fail == Some(self.seeks) { self.failed = true; return Err(Error::new(self.kind, "seek failed")); }
        self.pos = match p { SeekFrom::Start(x) => x as usize, SeekFrom::Current(d) => (self.pos as i64 + d) as usize, SeekFrom::End(d) => (self.data.len() as i64 + d) as usize };
        Ok(self.pos as u64)
    }
}
fn judge(what: &str, r: std::io::Result<()>, d: &Dest, full: &[u8]) -> R {
    match r {
        Ok(()) => {
            ensure(!d.failed, || format!("{}: success reported although the destination failed", what))?;
            ensure(d.data == full, || format!("{}: success reported but {} of {} bytes delivered or bytes differ", what, d.data.len(), full.len()))
        }
        Err(_) => ensure(d.failed, || format!("{}: error reported although the destination never failed", what)),
    }
}
fn fail_index(c: &mut Ctx, idx: u64) -> R {
    let max = if idx % 3 == 0 { 30 } else if idx % 3 == 1 { 300 } else { 6 };
    let sizes = rand_sizes(&mut c.rng, 3, max);
    let g = rand_graph(&mut c.rng, &sizes, 6, false);
    let n = sizes.last().copied().unwrap_or(0);
    c.case(format!("graph {}", clip(&format!("{:?}", g), 2000)));
    let b = builder_of(&g, 6, n);
    let full = index_bytes(&b)?;
    let l = Granne::from_bytes(&full, empty_tab());
    let total = full.len() + 8; // some bytes are written twice
    for k in 0..24 {
        let budget = match k { 0 => 0, 1 => full.len() - 1, 2 => full.len(), 3 => usize::MAX / 2, 4 => 1023, 5 => 1024, _ => c.rng.below(total) };
        let piece = *c.rng.pick(&[1usize, 7, 100, 8192, 1 << 30]);
        let mut d = Dest::new(budget, piece);
        d.manner(&mut c.rng);
        let r = if k % 2 == 0 { b.write_index(&mut d) } else { l.write_index(&mut d) };
        judge(&format!("index, budget {} of {}, pieces of {}", budget, full.len(), piece), r, &d, &full)?;
    }
    Ok(())
}
fn elements_case(c: &mut Ctx, kind: usize) -> Box<dyn Fn(&mut Dest) -> std::io::Result<usize>> {
    let n = c.rng.below(60);
    let dim = c.rng.range(1, 40);
    match kind {
        0 => { let v = rand_vectors(c, n, dim); c.case(format!("angular {:?}", v.as_slice())); if n % 2 == 0 { Box::new(move |d| v.write(d)) } else { let b = GranneBuilder::new(BuildConfig::default(), v); Box::new(move |d| b.write_elements(d)) } }
        1 => { let mut v = angular_int::Vectors::new(); for _ in 0..n { let x: Vec<f32> = (0..dim).map(|_| c.rng.unit() - 0.5).collect(); v.push(&x.into()); } c.case(format!("angular_int {:?}", v.as_slice())); Box::new(move |d| v.write(d)) }
        _ => {
            let mut e = SumEmbeddings::new();
            for _ in 0..n { let x: Vec<f32> = (0..dim).map(|_| c.rng.unit()).collect(); e.push_embedding(&x); }
            let m = c.rng.below(60);
            for _ in 0..m { let l = c.rng.below(6); let ids: Vec<usize> = (0..l).map(|_| c.rng.below(1000)).collect(); e.push(&ids); }
            c.case(format!("embeddings {} x {}, elements {}", n, dim, m));
            if kind == 2 { Box::new(move |d| e.write(d)) } else { Box::new(move |d| e.write_embeddings(d)) }
        }
    }
}
fn fail_elements(c: &mut Ctx, idx: u64) -> R {
    let f = elements_case(c, idx as usize % 4);
    let mut all = Dest::new(usize::MAX / 2, 1 << 30);
    let n = f(&mut all).map_err(|e| e.to_string())?;
    ensure(n == all.data.len(), || format!("{} bytes reported, {} delivered", n, all.data.len()))?;
    let full = all.data;
    for k in 0..24 {
        let budget = match k { 0 => 0, 1 => full.len() - 1, 2 => full.len(), 3 => usize::MAX / 2, 4 => 7, 5 => 8, 6 => 9, _ => c.rng.below(full.len() + 3) };
        let piece = *c.rng.pick(&[1usize, 7, 100, 8192, 1 << 30]);
        let mut d = Dest::new(budget, piece);
        d.manner(&mut c.rng);
        let r = f(&mut d);
        if let Ok(n) = r { ensure(n == d.data.len(), || format!("{} bytes reported, {} delivered (pieces of {})", n, d.data.len(), piece))?; }
        judge(&format!("elements, budget {} of {}, pieces of {}", budget, full.len(), piece), r.map(|_| ()), &d, &full)?;
    }
    Ok(())
}
fn rw_of(c: &mut Ctx, n: usize) -> RwGranneBuilder<angular::Vectors<'static>> {
    let b = RwGranneBuilder::new(GranneBuilder::new(BuildConfig::default().num_neighbors(4).layer_multiplier(4.0).max_search(5), angular::Vectors::new()), n.max(1) + 5, 1);
    for _ in 0..n { let x: Vec<f32> = (0..3).map(|_| c.rng.unit() - 0.5).collect(); b.insert(x.into()); }
    b
}
fn fail_rw(c: &mut Ctx, idx: u64) -> R {
    let n = if idx % 4 == 0 { c.rng.range(0, 700) } else { c.rng.range(0, 40) };
    let b = rw_of(c, n);
    c.case(format!("{} elements", n));
    let (mut i, mut e) = (Dest::new(usize::MAX / 2, 1 << 30), Dest::new(usize::MAX / 2, 1 << 30));
    b.write(&mut i, &mut e).map_err(|e| e.to_string())?;
    let (fi, fe) = (i.data, e.data);
    let mut v = Vec::new();
    b.get_elements().write(&mut v).map_err(|e| e.to_string())?;
    ensure(v == fe, || format!("success reported but {} of {} element bytes delivered", fe.len(), v.len()))?;
    let g = decode_index(&fi)?;
    ensure(g.last().map_or(0, |l| l.len()) == n, || format!("index saved with {} of {} elements", g.last().map_or(0, |l| l.len()), n))?;
    for k in 0..16 {
        let bi = match k { 0 => fi.len(), 1 => fi.len() - 1, 2 => 0, 3 | 4 => usize::MAX / 2, _ => c.rng.below(fi.len() + 9) };
        let be = match k { 3 => 0, 4 => fe.len() - 1, 0 | 1 | 2 => usize::MAX / 2, _ => c.rng.below(fe.len() + 3) };
        let (mut i, mut e) = (Dest::new(bi, 1 << 30), Dest::new(be, 1 << 30));
        i.manner(&mut c.rng);
        e.manner(&mut c.rng);
        match k { 12 => e.flush_fail = true, 13 => i.flush_fail = true, 14 => i.seek_fail = Some(c.rng.range(1, 6)), _ => {} }
        if k >= 11 && k <= 14 { i.budget = usize::MAX / 2; e.budget = usize::MAX / 2; }
        let r = b.write(&mut i, &mut e);
        if r.is_ok() {
            ensure(!i.failed && !e.failed, || format!("success reported although the destination failed (budgets {} {})", bi, be))?;
            ensure(i.data == fi && e.data == fe, || format!("success reported but {} of {} index bytes and {} of {} element bytes delivered", i.data.len(), fi.len(), e.data.len(), fe.len()))?;
        } else { ensure(i.failed || e.failed, || "error reported although nothing failed".into())?; }
    }
    Ok(())
}
fn fail_flush(c: &mut Ctx, _: u64) -> R {
    let sizes = rand_sizes(&mut c.rng, 3, 50);
    let g = rand_graph(&mut c.rng, &sizes, 6, false);
    let n = sizes.last().copied().unwrap_or(0);
    c.case(format!("graph {}", clip(&format!("{:?}", g), 2000)));
    let b = builder_of(&g, 6, n);
    let full = index_bytes(&b)?;
    let mut all = Dest::new(usize::MAX / 2, 1 << 30);
    b.write_index(&mut all).map_err(|e| e.to_string())?;
    for k in 1..=all.seeks {
        let mut d = Dest::new(usize::MAX / 2, 1 << 30);
        d.seek_fail = Some(k);
        d.manner(&mut c.rng);
        let r = b.write_index(&mut d);
        judge(&format!("index, seek {} fails", k), r, &d, &full)?;
    }
    // a destination that fails on flush: the library may or may not flush it, but must not report success if it did
    let mut d = Dest::new(usize::MAX / 2, 1 << 30);
    d.flush_fail = true;
    d.manner(&mut c.rng);
    let r = b.write_index(&mut d);
    judge("index, flush fails", r, &d, &full)
}

// ---------- loading ----------
fn align_index(c: &mut Ctx, idx: u64) -> R {
    let sizes = rand_sizes(&mut c.rng, 4, 130);
    let g = rand_graph(&mut c.rng, &sizes, 6, false);
    let n = sizes.last().copied().unwrap_or(0);
    let bytes = if idx % 2 == 0 { encode_index(&g) } else { index_bytes(&builder_of(&g, 6, n))? };
    let d = any_dists(&mut c.rng, n, 1);
    c.case(format!("graph {}", clip(&format!("{:?}", g), 2000)));
    for off in 0..16 {
        let a = At::new(&bytes, off);
        let l = Granne::from_bytes(a.bytes(), Tab::with_n(n, d.clone()));
        diff_graph(&format!("index at offset {}", off), &g, &graph_of(&l))?;
        let _ = l.search(&0, 5, 5);
        ensure(index_bytes(&l)?.len() >= 1024, || "cannot rewrite".into())?;
        let b = GranneBuilder::from_bytes(BuildConfig::default().num_neighbors(6), a.bytes(), Tab::with_n(n, d.clone()));
        diff_graph(&format!("builder from offset {}", off), &g, &graph_of(&b))?;
        drop(b);
    }
    Ok(())
}
fn align_elements(c: &mut Ctx, idx: u64) -> R {
    let n = c.rng.below(20);
    let dim = c.rng.range(1, 9);
    c.case(format!("{} elements of dim {}", n, dim));
    if idx % 2 == 0 {
        let v = rand_vectors(c, n, dim);
        let mut b = Vec::new();
        v.write(&mut b).unwrap();
        for off in 0..16 {
            let a = At::new(&b, off);
            let l = angular::Vectors::from_bytes(a.bytes());
            ensure(l.len() == n && l.as_slice() == v.as_slice(), || format!("vectors at offset {}: {:?} expected {:?}", off, l.as_slice(), v.as_slice()))?;
            let mut l2 = l.clone();
            if n > 1 { l2.permute(&(0..n).rev().collect::<Vec<_>>()); ensure(l2.get_element(0).into_vec() == v.get_element(n - 1).into_vec(), || "permuted clone".into())?; }
            ensure(l.as_slice() == v.as_slice(), || "source changed".into())?;
        }
    } else {
        let mut v = angular_int::Vectors::new();
        for _ in 0..n { let x: Vec<f32> = (0..dim).map(|_| c.rng.unit() - 0.5).collect(); v.push(&x.into()); }
        let mut b = Vec::new();
        v.write(&mut b).unwrap();
        for off in 0..16 {
            let a = At::new(&b, off);
            let l = angular_int::Vectors::from_bytes(a.bytes());
            ensure(l.len() == n && l.as_slice() == v.as_slice(), || format!("int vectors at offset {}", off))?;
        }
    }
    Ok(())
}
fn truncated(c: &mut Ctx, idx: u64) -> R {
    let n = c.rng.range(1, 6);
    let dim = c.rng.range(2, 6);
    c.case(format!("{} elements of dim {} kind {}", n, dim, idx % 3));
    match idx % 3 {
        0 => {
            let v = rand_vectors(c, n, dim);
            let mut b = Vec::new();
            v.write(&mut b).unwrap();
            for cut in 0..b.len() {
                let r = catch(|| { let l = angular::Vectors::from_bytes(&b[..cut]); (l.len(), l.as_slice().to_vec()) });
                if let Ok((m, s)) = r {
                    ensure(s.len() <= (cut - 8) / 4 && m <= (cut - 8) / (4 * dim) && s[..] == v.as_slice()[..s.len()], || format!("cut at {}: {} vectors of {:?}", cut, m, s))?;
                    ensure(s.len() % dim == 0, || format!("cut at {}: partial vector accepted", cut))?;
                }
            }
            // inconsistent width
            let mut bad = b.clone();
            let w = dim + c.rng.range(1, 50);
            bad[..8].copy_from_slice(&(w as u64).to_le_bytes());
            let r = catch(|| { let l = angular::Vectors::from_bytes(&bad); (l.len(), l.as_slice().len()) });
            ensure(match r { Err(_) => true, Ok((m, s)) => m * w == s && s == n * dim }, || format!("width {} accepted for {} scalars", w, n * dim))?;
            // zero width with data
            bad[..8].copy_from_slice(&0u64.to_le_bytes());
            ensure(catch(|| angular::Vectors::from_bytes(&bad).len()).is_err(), || "width 0 accepted for a non-empty collection".into())
        }
        1 => {
            let mut v = angular_int::Vectors::new();
            for _ in 0..n { let x: Vec<f32> = (0..dim).map(|_| c.rng.unit() - 0.5).collect(); v.push(&x.into()); }
            let mut b = Vec::new();
            v.write(&mut b).unwrap();
            for cut in 0..b.len() {
                if let Ok((m, s)) = catch(|| { let l = angular_int::Vectors::from_bytes(&b[..cut]); (l.len(), l.as_slice().len()) }) {
                    ensure(cut >= 8 && s == cut - 8 && m * dim == s, || format!("cut at {}: {} vectors, {} scalars", cut, m, s))?;
                }
            }
            // from file, too
            let d = Dir::new("tr");
            for cut in [0usize, 3, 8, 9, b.len() - 1] {
                std::fs::write(d.file("f"), &b[..cut]).unwrap();
                let f = std::fs::File::open(d.file("f")).unwrap();
                if let Ok(Ok((m, s))) = catch(|| unsafe { angular_int::Vectors::from_file(&f) }.map(|l| (l.len(), l.as_slice().len()))) {
                    ensure(cut >= 8 && s == cut - 8 && m * dim == s, || format!("file cut at {}: {} vectors, {} scalars", cut, m, s))?;
                }
            }
            Ok(())
        }
        _ => {
            let mut e = SumEmbeddings::new();
            for _ in 0..n { let l = c.rng.below(4); let ids: Vec<usize> = (0..l).map(|_| c.rng.below(1 << 24)).collect(); e.push(&ids); }
            let mut b = Vec::new();
            e.write(&mut b).unwrap();
            let d = Dir::new("tr");
            std::fs::write(d.file("w"), 4u64.to_le_bytes().iter().chain([0u8; 16].iter()).copied().collect::<Vec<u8>>()).unwrap();
            let w = std::fs::File::open(d.file("w")).unwrap();
            for cut in 0..=b.len() {
                std::fs::write(d.file("f"), &b[..cut]).unwrap();
                let f = std::fs::File::open(d.file("f")).unwrap();
                let r = catch(|| unsafe { SumEmbeddings::from_files(&w, Some(&f)) }.ok().map(|l| (0..l.len()).map(|i| catch(|| l.get_terms(i))).collect::<Vec<_>>()));
                if let Ok(Some(lists)) = r {
                    ensure(lists.len() == n, || format!("cut at {}: {} of {} elements", cut, lists.len(), n))?;
                    for (i, l) in lists.iter().enumerate() { if let Ok(l) = l { ensure(*l == e.get_terms(i), || format!("cut at {}: element {} read as {:?}", cut, i, l))?; } }
                }
            }
            Ok(())
        }
    }
}
