use crate::util::*;
use crate::*;
use ordered_float::NotNan;
use granne::{angular, BuildConfig, Builder, Granne, GranneBuilder, Index, RwGranneBuilder};

pub fn sections(p: &str, v: &mut Vec<Section>) {
    match p {
        "C03" => {
            v.push(sec("lists-build", "random element tables and vectors, random configs, 1..8 threads with provoked interleavings, full and partial builds", 1500, 60000, lists_build));
            v.push(sec("lists-contended", "few elements, many threads, long distance computations: all threads update the same nodes", 600, 30000, lists_contended));
            v.push(sec("lists-large", "more than 65536 elements", 1, 4, lists_large));
            v.push(sec("lists-rw", "index written by a concurrent builder after parallel inserts", 150, 6000, lists_rw));
            v.push(sec("lists-loaded", "build continued on an index loaded from bytes", 400, 20000, lists_loaded));
        }
        "C04" => {
            v.push(sec("selection-reference", "single-threaded builds on tie-free tables compared with a reference of the specified heuristic", 3000, 200000, selection_reference));
            v.push(sec("selection-fits", "all elements fit in every list: everything seen is linked", 600, 20000, selection_fits));
        }
        "C05" => {
            v.push(sec("layers-sizes", "random counts, multipliers, expected totals and step sequences", 1500, 60000, layers_sizes));
            v.push(sec("layers-counts", "every element count 1..=400 for a range of multipliers", 400, 2000, layers_counts));
            v.push(sec("layers-reject", "requests that must be rejected", 60, 1000, layers_reject));
        }
        "C22" => {
            v.push(sec("zero-tables", "tables with directionless elements at random places, random configs and threads, full and partial builds", 1500, 60000, zero_tables));
            v.push(sec("zero-vectors", "angular and angular_int collections with zero vectors", 300, 10000, zero_vectors));
            v.push(sec("zero-rw", "directionless elements inserted in a concurrent builder", 60, 3000, zero_rw));
        }
        _ => {}
    }
}

pub fn check_lists(g: &Graph, k: usize, n: usize) -> R {
    for (l, layer) in g.iter().enumerate() {
        ensure(layer.len() <= n, || format!("layer {} has {} nodes for {} elements", l, layer.len(), n))?;
        for (i, list) in layer.iter().enumerate() {
            ensure(list.len() <= k, || format!("layer {} node {} has {} neighbors, limit {}", l, i, list.len(), k))?;
            let mut s = std::collections::HashSet::new();
            for &j in list {
                ensure(j as usize != i, || format!("layer {} node {} is its own neighbor", l, i))?;
                ensure((j as usize) < layer.len(), || format!("layer {} node {} has neighbor {} outside of the layer ({} nodes)", l, i, j, layer.len()))?;
                ensure(s.insert(j), || format!("layer {} node {} has neighbor {} twice: {:?}", l, i, j, list))?;
            }
        }
    }
    Ok(())
}

fn config(c: &mut Ctx, n: usize) -> (BuildConfig, usize, String) {
    let k = if c.rng.chance(1, 4) { c.rng.range(1, 3) } else { c.rng.range(1, 14) };
    let m = *c.rng.pick(&[1.5f32, 2.0, 3.0, 5.0, 15.0, 100.0]);
    let ms = c.rng.range(1, 20);
    let re = c.rng.chance(1, 2);
    let mut cfg = BuildConfig::default().num_neighbors(k).layer_multiplier(m).max_search(ms).reinsert_elements(re);
    let ex = c.rng.chance(1, 3);
    if ex { cfg = cfg.expected_num_elements(n + c.rng.below(40)); }
    (cfg, k, format!("{:?}", cfg))
}

fn sym_table(c: &mut Ctx, n: usize) -> Vec<Vec<f32>> {
    match c.rng.below(4) {
        0 => { // many ties and duplicates
            let m = c.rng.range(1, 4);
            let cls: Vec<usize> = (0..n).map(|_| c.rng.below(m * 2)).collect();
            (0..n).map(|i| (0..n).map(|j| (cls[i] as f32 - cls[j] as f32).abs()).collect()).collect()
        }
        1 => { let mut d: Vec<Vec<f32>> = (0..n).map(|_| (0..n).map(|_| c.rng.below(5) as f32 * 0.5).collect()).collect(); for i in 0..n { d[i][i] = 0.0; } d }
        _ => distinct_sym(&mut c.rng, n),
    }
}

fn lists_build(c: &mut Ctx, idx: u64) -> R {
    let n = if idx % 20 == 0 { c.rng.range(1, 150) } else { c.rng.range(1, 40) };
    let d = sym_table(c, n);
    let (cfg, k, cs) = config(c, n);
    let threads = *c.rng.pick(&[1usize, 2, 4, 8]);
    let mut steps: Vec<usize> = (0..c.rng.below(3)).map(|_| c.rng.range(0, n)).collect();
    steps.sort();
    c.case(format!("n {} config {} threads {} steps {:?} dists {:?}", n, cs, threads, steps, if n <= 12 { d.clone() } else { vec![] }));
    let mut t = Tab::new(d);
    t.jitter = threads > 1;
    let mut b = GranneBuilder::new(cfg, t);
    on_threads(threads, || {
        for s in steps { b.build_partial(s); check_lists(&graph_of(&b), k, n)?; }
        b.build();
        check_lists(&graph_of(&b), k, n)
    })
}

fn lists_contended(c: &mut Ctx, _: u64) -> R {
    let n = c.rng.range(4, 40);
    let d = sym_table(c, n);
    let k = c.rng.range(1, 8);
    let re = c.rng.chance(1, 2);
    c.case(format!("n {} num_neighbors {} reinsert {} 8 threads", n, k, re));
    let mut t = Tab::new(d);
    t.jitter = true;
    let cfg = BuildConfig::default().num_neighbors(k).layer_multiplier(1000.0).max_search(n).reinsert_elements(re);
    let mut b = GranneBuilder::new(cfg, t);
    on_threads(8, || b.build());
    check_lists(&graph_of(&b), k, n)
}

fn lists_rw(c: &mut Ctx, _: u64) -> R {
    let n = c.rng.range(1, 60);
    let d = sym_table(c, n);
    let k = c.rng.range(1, 6);
    let m = *c.rng.pick(&[2.0f32, 5.0, 1000.0]);
    let cap = n + c.rng.below(20);
    let ms = c.rng.range(1, 12);
    c.case(format!("n {} k {} m {} cap {} max_search {}", n, k, m, cap, ms));
    let t = Tab { ids: vec![], d: std::sync::Arc::new(d), jitter: true };
    let b = RwGranneBuilder::new(GranneBuilder::new(BuildConfig::default().num_neighbors(k).layer_multiplier(m).max_search(ms), t), cap, c.rng.range(1, 4));
    let per = c.rng.range(1, 8);
    let all: Vec<usize> = (0..n).collect();
    let chunks: Vec<Vec<usize>> = all.chunks(per).map(|x| x.to_vec()).collect();
    let (br, ch) = (&b, &chunks);
    std::thread::scope(|sc| { for t in 0..3 { sc.spawn(move || { for x in ch.iter().skip(t).step_by(3) { br.insert_batch(x.clone()); } }); } });
    let mut i = std::io::Cursor::new(Vec::new());
    let mut e = std::io::Cursor::new(Vec::new());
    b.write(&mut i, &mut e).map_err(|e| e.to_string())?;
    let g = decode_index(i.get_ref())?;
    check_lists(&g, k, n)
}

fn lists_loaded(c: &mut Ctx, _: u64) -> R {
    let n = c.rng.range(1, 40);
    let have = c.rng.range(1, n);
    let k = c.rng.range(1, 8);
    let d = sym_table(c, n);
    let g = rand_graph(&mut c.rng, &[have], k, false);
    let threads = *c.rng.pick(&[1usize, 4]);
    c.case(format!("n {} k {} threads {} graph {:?} dists {:?}", n, k, threads, g, d));
    let mut t = Tab::new(d);
    t.jitter = threads > 1;
    let mut b = GranneBuilder::from_bytes(BuildConfig::default().num_neighbors(k).layer_multiplier(1000.0).max_search(n), &encode_index(&g), t);
    on_threads(threads, || b.build());
    check_lists(&graph_of(&b), k, n)
}

// ---------- reference builder (single thread, tie-free) ----------
pub struct RefCfg { pub k: usize, pub ms: usize, pub re: bool, pub total: usize }

const EPS: f32 = 100.0 * f32::EPSILON;

fn select(d: &[Vec<f32>], cand: Vec<(f32, usize)>, k: usize) -> Vec<(f32, usize)> {
    if cand.len() <= k { return cand; }
    let mut kept: Vec<(f32, usize)> = Vec::new();
    for (x, j) in cand {
        if kept.len() >= k { break; }
        if kept.iter().all(|&(_, n)| x <= d[n][j]) { kept.push((x, j)); }
    }
    kept
}
fn limit(d: &[Vec<f32>], list: &mut Vec<usize>, i: usize, extra: Option<usize>, k: usize) {
    let mut cand: Vec<(f32, usize)> = list.iter().copied().chain(extra).map(|j| (d[j][i], j)).collect();
    cand.sort_by(|a, b| a.partial_cmp(b).unwrap());
    *list = select(d, cand, k).into_iter().map(|x| x.1).collect();
}
fn connect(d: &[Vec<f32>], list: &mut Vec<usize>, i: usize, j: usize, width: usize) {
    if i == j || list.contains(&j) { return; }
    if list.len() < width { list.push(j); } else { limit(d, list, i, Some(j), width); }
}
pub fn ref_build(d: &[Vec<f32>], sizes: &[usize], cfg: &RefCfg) -> Vec<Vec<Vec<usize>>> {
    let mut layers: Vec<Vec<Vec<usize>>> = Vec::new();
    for &size in sizes {
        let mut layer = layers.last().cloned().unwrap_or_default();
        let old = layer.len();
        let k = if size < cfg.total { (cfg.k / 2).max(1) } else { cfg.k };
        layer.resize(size, vec![]);
        let mut pass = |layer: &mut Vec<Vec<usize>>, order: Vec<usize>, ms: usize| {
            for i in order {
                if d[i][i] > EPS { continue; }
                let dist = |j: usize| d[j][i];
                let mut e = 0;
                for l in &layers { e = ref_search(&|x| l[x].clone(), l.len(), e, &dist, 1)[0].1; }
                let mut cand = ref_search(&|x| layer[x].clone(), size, e, &dist, ms);
                cand.retain(|x| x.1 != i);
                let ns = select(d, cand, k);
                if let Some(x) = ns.get(k / 2) { if x.0 < EPS { continue; } }
                if layer[i].is_empty() { layer[i] = ns.iter().map(|x| x.1).take(cfg.k).collect(); }
                else { for x in &ns { connect(d, &mut layer[i], i, x.1, cfg.k); } }
                for x in &ns { connect(d, &mut layer[x.1], x.1, i, cfg.k); }
            }
            for i in 0..layer.len() { limit(d, &mut layer[i], i, None, k); }
        };
        pass(&mut layer, (old..size).collect(), cfg.ms);
        if cfg.re { pass(&mut layer, (0..size).rev().collect(), (cfg.ms / 2).max(1)); }
        layers.push(layer);
    }
    layers
}

fn selection_reference(c: &mut Ctx, idx: u64) -> R {
    let n = if idx % 10 == 0 { c.rng.range(2, 60) } else { c.rng.range(2, 22) };
    let mut d = distinct_sym(&mut c.rng, n);
    if c.rng.chance(1, 4) { for i in 0..n { if c.rng.chance(1, 6) { d[i][i] = 1.0; } } }
    if c.rng.chance(1, 5) { // some near duplicates
        for i in 0..n { for j in 0..i { if d[i][j] < n as f32 { let x = d[i][j] * 1e-7; d[i][j] = x; d[j][i] = x; } } }
    }
    let k = c.rng.range(1, 6);
    let m = *c.rng.pick(&[2.0f32, 3.0, 1000.0, 1000.0]);
    let ms = if c.rng.chance(1, 2) { n } else { c.rng.range(1, 10) };
    let re = c.rng.chance(1, 2);
    c.case(format!("n {} k {} m {} max_search {} reinsert {} dists {:?}", n, k, m, ms, re, d));
    let mut b = GranneBuilder::new(BuildConfig::default().num_neighbors(k).layer_multiplier(m).max_search(ms).reinsert_elements(re), Tab::new(d.clone()));
    on_threads(1, || b.build());
    let got = sorted_graph(&graph_of(&b));
    let sizes: Vec<usize> = (0..b.num_layers()).map(|l| b.layer_len(l)).collect();
    let want: Graph = ref_build(&d, &sizes, &RefCfg { k, ms, re, total: n }).into_iter().map(|l| l.into_iter().map(|x| x.into_iter().map(|y| y as u32).collect()).collect()).collect();
    diff_graph("selected neighbors", &sorted_graph(&want), &got)
}

fn selection_fits(c: &mut Ctx, _: u64) -> R {
    let n = c.rng.range(2, 14);
    let d: Vec<Vec<f32>> = { let mut d = sym_table(c, n); for i in 0..n { for j in 0..n { if i != j { d[i][j] += 1.0; } } } d };
    let k = n - 1 + c.rng.below(4);
    let threads = *c.rng.pick(&[1usize, 4]);
    c.case(format!("n {} k {} threads {} dists {:?}", n, k, threads, d));
    let mut b = GranneBuilder::new(BuildConfig::default().num_neighbors(k).layer_multiplier(1000.0).max_search(n).reinsert_elements(true), Tab::new(d));
    on_threads(threads, || b.build());
    let g = sorted_graph(&graph_of(&b));
    if threads == 1 {
        for i in 0..n {
            let want: Vec<u32> = (0..n as u32).filter(|&j| j as usize != i).collect();
            ensure(g[0][i] == want, || format!("node {} has {:?} although everything fits", i, g[0][i]))?;
        }
    }
    check_lists(&g, k, n)
}

// ---------- layers ----------
fn line(n: usize) -> Tab { // cheap: all distances to query q are |i-q|
    let d = (0..n).map(|i| (0..n).map(|j| (i as f32 - j as f32).abs()).collect()).collect();
    Tab::new(d)
}
fn sizes_of<I: Index>(b: &I) -> Vec<usize> { (0..b.num_layers()).map(|l| b.layer_len(l)).collect() }

fn check_sizes(s: &[usize], n: usize, total: usize, m: f32) -> R {
    if n == 0 { return ensure(s.is_empty(), || format!("layers {:?} for 0 elements", s)); }
    ensure(s.last() == Some(&n), || format!("layers {:?} for {} requested elements", s, n))?;
    for w in s.windows(2) {
        ensure(w[0] <= w[1], || format!("layer sizes decrease: {:?}", s))?;
        // each new layer includes `layer_multiplier` times more elements (up to rounding), unless cut
        let lo = (m as f64) * (w[0] as f64 - 1.0) - 1.0;
        let hi = (m as f64) * (w[0] as f64) + 1.0;
        ensure(w[1] as f64 <= hi + 1e-3 * hi, || format!("layer sizes {:?} grow faster than {}", s, m))?;
        if w[1] < n { ensure(w[1] as f64 >= lo - 1e-3 * lo.abs(), || format!("layer sizes {:?} grow slower than {}", s, m))?; }
    }
    ensure(s[0] as f64 <= (m as f64 * 1.001).ceil() + 1.0 || s[0] == n && n == total && n as f32 <= m + 1.0, || format!("first layer of {:?} too large for multiplier {} and {} elements", s, m, total))
}

fn layers_sizes(c: &mut Ctx, _: u64) -> R {
    let total = c.rng.range(1, 120);
    let m = *c.rng.pick(&[1.3f32, 1.5, 2.0, 2.5, 3.0, 5.0, 7.0, 15.0, 50.0]);
    let expected = if c.rng.chance(1, 2) { Some(total + c.rng.below(200)) } else { None };
    let mut steps: Vec<usize> = (0..c.rng.below(4)).map(|_| c.rng.range(0, total)).collect();
    steps.sort();
    let k = c.rng.range(1, 3);
    c.case(format!("elements {} multiplier {} expected {:?} steps {:?} k {}", total, m, expected, steps, k));
    let mut cfg = BuildConfig::default().num_neighbors(k).max_search(2).layer_multiplier(m).reinsert_elements(false);
    if let Some(e) = expected { cfg = cfg.expected_num_elements(e); }
    let t = line(total);
    let mut b = GranneBuilder::new(cfg, t.clone());
    ensure(b.len() == 0 && b.num_layers() == 0, || "new builder not empty".into())?;
    let mut prev: Vec<usize> = vec![];
    on_threads(1, || {
        for s in steps.iter().copied().chain([total]) {
            if s == total { b.build() } else { b.build_partial(s) }
            let z = sizes_of(&b);
            let done = s.max(prev.last().copied().unwrap_or(0));
            ensure(b.len() == done && b.num_elements() == total, || format!("len {} after building {}", b.len(), done))?;
            check_sizes(&z, done, expected.unwrap_or(total).max(total), m)?;
            ensure(z.len() >= prev.len(), || format!("layers vanished: {:?} -> {:?}", prev, z))?;
            for l in 0..prev.len() {
                ensure(z[l] >= prev[l] && (l + 1 == prev.len() || z[l] == prev[l]), || format!("layer sizes {:?} -> {:?}", prev, z))?;
            }
            let mut direct = GranneBuilder::new(cfg, t.clone());
            direct.build_partial(done);
            let dz = sizes_of(&direct);
            ensure(dz == z, || format!("building {:?} in steps gives layers {:?}, at once {:?}", steps, z, dz))?;
            prev = z;
        }
        // pushing changes nothing until built
        let before = graph_of(&b);
        b.push(0);
        diff_graph("after push", &before, &graph_of(&b))?;
        ensure(b.len() == total && b.num_elements() == total + 1, || format!("len {} num_elements {} after push", b.len(), b.num_elements()))?;
        b.build();
        ensure(b.len() == total + 1, || format!("len {} after building pushed element", b.len()))?;
        let z = sizes_of(&b);
        ensure(z.windows(2).all(|w| w[0] <= w[1]) && z.last() == Some(&(total + 1)), || format!("layers {:?} after push and build", z))?;
        for l in 0..prev.len() { ensure(z[l] >= prev[l], || format!("layers {:?} -> {:?} after push and build", prev, z))?; }
        Ok(())
    })
}

fn layers_counts(c: &mut Ctx, idx: u64) -> R {
    let n = idx as usize % 400 + 1;
    let m = *c.rng.pick(&[1.2f32, 2.0, 3.0, 4.0, 5.0, 10.0, 15.0, 20.0]);
    c.case(format!("elements {} multiplier {}", n, m));
    let d = vec![vec![0.0f32; n]; n];
    let mut b = GranneBuilder::new(BuildConfig::default().num_neighbors(2).max_search(1).layer_multiplier(m).reinsert_elements(false), Tab::new(d));
    on_threads(1, || b.build());
    check_sizes(&sizes_of(&b), n, n, m)
}

fn layers_reject(c: &mut Ctx, _: u64) -> R {
    let n = c.rng.range(2, 60);
    let a = c.rng.range(2, n);
    c.case(format!("elements {} built {}", n, a));
    let cfg = BuildConfig::default().num_neighbors(2).max_search(1).layer_multiplier(3.0);
    let mut b = GranneBuilder::new(cfg, line(n));
    on_threads(1, || b.build_partial(a));
    let before = graph_of(&b);
    let fewer = c.rng.range(1, a - 1);
    ensure(catch(|| b.build_partial(fewer)).is_err(), || format!("building {} of {} indexed not rejected", fewer, a))?;
    let more = n + c.rng.range(1, 5);
    ensure(catch(|| b.build_partial(more)).is_err(), || format!("building {} of {} elements not rejected", more, n))?;
    b.build_partial(0);
    diff_graph("after rejected builds", &before, &graph_of(&b))
}

// ---------- elements without direction ----------
fn check_zero(g: &Graph, zero: &dyn Fn(usize) -> bool) -> R {
    for (l, layer) in g.iter().enumerate() {
        for (i, list) in layer.iter().enumerate() {
            if i != 0 && zero(i) { ensure(list.is_empty(), || format!("layer {}: directionless element {} has neighbors {:?}", l, i, list))?; }
            for &j in list { ensure(j == 0 || !zero(j as usize), || format!("layer {}: directionless element {} is a neighbor of {}", l, j, i))?; }
        }
    }
    Ok(())
}

fn zero_tables(c: &mut Ctx, _: u64) -> R {
    let n = c.rng.range(1, 50);
    let mut d = sym_table(c, n);
    let den = c.rng.range(1, 5);
    let z: Vec<bool> = (0..n).map(|_| c.rng.chance(1, den)).collect();
    for i in 0..n { if z[i] { let x = *c.rng.pick(&[1.0f32, 0.5, 1e-4]); if c.rng.chance(1, 2) { for j in 0..n { d[i][j] = 1.0; d[j][i] = 1.0; } } d[i][i] = x; } }
    let (cfg, k, cs) = config(c, n);
    let threads = *c.rng.pick(&[1usize, 1, 4]);
    let mut steps: Vec<usize> = (0..c.rng.below(3)).map(|_| c.rng.range(0, n)).collect();
    steps.sort();
    c.case(format!("config {} threads {} steps {:?} dists {:?}", cs, threads, steps, d));
    let mut b = GranneBuilder::new(cfg, Tab::new(d));
    on_threads(threads, || { for s in steps { b.build_partial(s); } b.build(); });
    let g = graph_of(&b);
    ensure(b.len() == n, || format!("{} of {} elements indexed", b.len(), n))?;
    check_zero(&g, &|i| z[i])?;
    check_lists(&g, k, n)
}

fn zero_vectors(c: &mut Ctx, _: u64) -> R {
    let n = c.rng.range(1, 60);
    let dim = c.rng.range(1, 5);
    let den = c.rng.range(1, 5);
    let z: Vec<bool> = (0..n).map(|_| c.rng.chance(1, den)).collect();
    let raw: Vec<Vec<f32>> = (0..n).map(|i| (0..dim).map(|_| if z[i] { 0.0 } else { 0.1 + c.rng.unit() }).collect()).collect();
    let (cfg, k, cs) = config(c, n);
    let int = c.rng.chance(1, 2);
    c.case(format!("config {} int {} vectors {:?}", cs, int, raw));
    let g = if int {
        let mut e = granne::angular_int::Vectors::new();
        for v in &raw { e.push(&granne::angular_int::Vector::from(v.clone())); }
        let mut b = GranneBuilder::new(cfg, e);
        b.build();
        graph_of(&b)
    } else {
        let mut e = angular::Vectors::new();
        for v in &raw { e.push(&angular::Vector::from(v.clone())); }
        let mut b = GranneBuilder::new(cfg, e);
        b.build();
        graph_of(&b)
    };
    check_zero(&g, &|i| z[i])?;
    check_lists(&g, k, n)
}

fn zero_rw(c: &mut Ctx, _: u64) -> R {
    let n = c.rng.range(1, 40);
    let mut d = distinct_sym(&mut c.rng, n);
    let z: Vec<bool> = (0..n).map(|_| c.rng.chance(1, 3)).collect();
    for i in 0..n { if z[i] { d[i][i] = 1.0; } }
    let k = c.rng.range(1, 6);
    c.case(format!("k {} dists {:?}", k, d));
    let t = Tab { ids: vec![], d: std::sync::Arc::new(d), jitter: false };
    let b = RwGranneBuilder::new(GranneBuilder::new(BuildConfig::default().num_neighbors(k).layer_multiplier(4.0).max_search(10), t), n, 1);
    b.insert_batch((0..n).collect());
    let mut i = std::io::Cursor::new(Vec::new());
    b.write(&mut i, &mut Vec::new()).map_err(|e| e.to_string())?;
    let g = decode_index(i.get_ref())?;
    check_zero(&g, &|i| z[i])?;
    check_lists(&g, k, n)
}
#[allow(dead_code)]
fn _unused(_: Granne<Tab>) {}

/// points on a line
#[derive(Clone)]
struct Line(Vec<u32>);
impl granne::ElementContainer for Line {
    type Element = u32;
    fn get(&self, i: usize) -> u32 { self.0[i] }
    fn len(&self) -> usize { self.0.len() }
    fn dist_to_element(&self, i: usize, e: &u32) -> NotNan<f32> { NotNan::new(((self.0[i] >> 4) as f32 - (*e >> 4) as f32).abs()).unwrap() }
}
fn lists_large(c: &mut Ctx, _: u64) -> R {
    let n = c.rng.range(66000, 70000);
    let (k, ms) = (c.rng.range(2, 4), c.rng.range(2, 5));
    c.case(format!("{} points, num_neighbors {} max_search {}", n, k, ms));
    let mut b = GranneBuilder::new(BuildConfig::default().num_neighbors(k).max_search(ms).layer_multiplier(20.0).reinsert_elements(false), Line((0..n).map(|_| c.rng.below(1 << 24) as u32).collect()));
    on_threads(8, || { b.build(); });
    let g = graph_of(&b);
    ensure(g.last().map_or(0, |l| l.len()) == n, || "size of the last layer".to_string())?;
    check_lists(&g, k, n)
}
