use crate::util::*;
use crate::*;
use granne::Granne;

pub fn sections(p: &str, v: &mut Vec<Section>) {
    match p {
        "C01" => {
            v.push(sec("search-large", "a layer of 66000 to 150000 nodes, thousands of them visited: all result conditions checked", 1, 8, large_sound));
            v.push(sec("search-sound", "random layered graphs with arbitrary distance tables (ties, negative, asymmetric), all result conditions checked", 60000, 3000000, sound));
            v.push(sec("search-sound-small", "all graphs of up to 3 nodes x all 0/1/2 distance rows, one layer", 8 * 512 * 27 / 2, 8 * 512 * 27, sound_small));
            v.push(sec("search-built", "indexes built from random vectors, searched for random queries", 400, 20000, sound_built));
        }
        "C02" => {
            v.push(sec("search-large", "a layer of 66000 to 150000 nodes, most of them visited: exact top-k of the reachable set", 1, 8, large_exact));
            v.push(sec("search-exhaustive", "random layered graphs, max_search at least the reachable count: exact top-k of the reachable set", 60000, 3000000, exhaustive));
            v.push(sec("search-closed", "random layered graphs, any max_search: entry point and neighbors of kept results kept or justified", 60000, 3000000, closed));
            v.push(sec("search-small", "all graphs of 3 nodes x all 0/1/2 distance rows x max_search 1..4", 13824, 13824, exhaustive_small));
        }
        _ => {}
    }
}

fn gen(c: &mut Ctx, max_n: usize) -> (Graph, Tab, Vec<Vec<f32>>, usize) {
    let mut sizes = rand_sizes(&mut c.rng, 4, max_n);
    if c.rng.chance(1, 2) { sizes = vec![c.rng.range(1, max_n)]; }
    let mut md = c.rng.range(1, 8);
    // nodes with (nearly) as many neighbors as a node can have
    if c.rng.chance(1, 60) { sizes = vec![c.rng.range(1, 300), c.rng.range(300, 500)]; if c.rng.chance(1, 2) { sizes.remove(0); } md = c.rng.range(60, 250); }
    let so = c.rng.chance(1, 4);
    let g = rand_graph(&mut c.rng, &sizes, md, so);
    let n = sizes.last().copied().unwrap_or(0);
    let extra = c.rng.below(3);
    let q = 3;
    let d = any_dists(&mut c.rng, n + extra, q);
    let t = Tab::with_n(n + extra, d.clone());
    (g, t, d, n)
}

/// the compressed, the fixed width and the owned representation of the same index
fn run(how: usize, g: &Graph, bytes: &[u8], t: Tab, q: usize, ms: usize, k: usize) -> Vec<(usize, f32)> {
    match how % 3 {
        0 => Granne::from_bytes(bytes, t).search(&q, ms, k),
        1 => granne::GranneBuilder::from_bytes(granne::BuildConfig::default().num_neighbors(g.iter().flatten().map(|x| x.len()).max().unwrap_or(0).max(10)), bytes, t).get_index().search(&q, ms, k),
        _ => { let d = Dir::new("s"); std::fs::write(d.file("i"), bytes).unwrap(); let f = std::fs::File::open(d.file("i")).unwrap(); unsafe { Granne::from_file(&f, t).unwrap().search(&q, ms, k) } }
    }
}

pub fn check_sound(res: &[(usize, f32)], n: usize, dist: &dyn Fn(usize) -> f32, ms: usize, k: usize) -> R {
    ensure(res.len() <= ms.min(k), || format!("{} results for max_search {} and num_neighbors {}", res.len(), ms, k))?;
    if n == 0 { return ensure(res.is_empty(), || "results from an empty index".into()); }
    if k >= 1 { ensure(!res.is_empty(), || "no result from a non-empty index".into())?; }
    let mut seen = std::collections::HashSet::new();
    for (i, &(id, d)) in res.iter().enumerate() {
        ensure(id < n, || format!("id {} not indexed ({} elements)", id, n))?;
        ensure(seen.insert(id), || format!("id {} returned twice", id))?;
        ensure(d == dist(id), || format!("id {} has distance {}, reported {}", id, dist(id), d))?;
        if i > 0 { ensure((res[i - 1].1, res[i - 1].0) < (d, id), || format!("results {:?} and {:?} are not in order", res[i - 1], res[i]))?; }
    }
    Ok(())
}

fn sound(c: &mut Ctx, idx: u64) -> R {
    let (g, t, d, n) = gen(c, if idx % 50 == 0 { 120 } else if idx % 3 == 0 { 5 } else { 25 });
    let ms = if c.rng.chance(1, 3) { c.rng.range(1, 3) } else { c.rng.range(1, n + 5) };
    let k = c.rng.range(0, n + 3);
    let q = c.rng.below(3);
    c.case(format!("graph {:?} dists {:?} query {} max_search {} num_neighbors {}", g, d, q, ms, k));
    c.nontrivial = n > 1;
    let bytes = encode_index(&g);
    let r = run(if idx % 20 == 0 { 2 } else { idx as usize % 2 }, &g, &bytes, t, q, ms, k);
    check_sound(&r, n, &|i| d[i][q], ms, k).map_err(|e| format!("{} in {:?}", e, r))
}

fn small_graph(mut code: u64, n: usize) -> Vec<Vec<u32>> {
    (0..n).map(|_| { let m = code % (1 << n); code >>= n; (0..n as u32).filter(|j| m >> j & 1 == 1).collect() }).collect()
}

fn sound_small(c: &mut Ctx, idx: u64) -> R {
    let x = if c.thorough { idx } else { idx * 2 + c.rng.below(2) as u64 };
    let g = small_graph(x % 512, 3);
    let ds = (x / 512) % 27;
    let ms = ((x / 512 / 27) % 4 + 1) as usize;
    let k = if x / 512 / 27 / 4 == 0 { 3 } else { 2 };
    let d: Vec<Vec<f32>> = (0..3).map(|i| vec![(ds / 3u64.pow(i) % 3) as f32]).collect();
    c.case(format!("graph {:?} dists {:?} max_search {} num_neighbors {}", g, d, ms, k));
    let bytes = encode_index(&vec![g]);
    let ix = Granne::from_bytes(&bytes, Tab::new(d.clone()));
    let r = ix.search(&0, ms, k);
    check_sound(&r, 3, &|i| d[i][0], ms, k).map_err(|e| format!("{} in {:?}", e, r))
}

fn sound_built(c: &mut Ctx, _: u64) -> R {
    let n = c.rng.range(1, 150);
    let dim = c.rng.range(1, 6);
    let vecs: Vec<f32> = (0..n * dim).map(|_| if c.rng.chance(1, 4) { c.rng.below(3) as f32 - 1.0 } else { c.rng.unit() - 0.5 }).collect();
    let mut els = granne::angular::Vectors::new();
    for v in vecs.chunks(dim) { els.push(&granne::angular::Vector::from(v.to_vec())); }
    let ms = c.rng.range(1, 40);
    let k = c.rng.range(1, 40);
    let nn = c.rng.range(1, 12);
    c.case(format!("dim {} vectors {:?} max_search {} k {} num_neighbors {}", dim, vecs, ms, k, nn));
    let mut b = granne::GranneBuilder::new(granne::BuildConfig::default().num_neighbors(nn).layer_multiplier(4.0).max_search(20), els);
    on_threads(2, || granne::Builder::build(&mut b));
    let ix = b.get_index();
    for _ in 0..3 {
        let q = granne::angular::Vector::from((0..dim).map(|_| c.rng.unit() - 0.5).collect::<Vec<f32>>());
        let r = ix.search(&q, ms, k);
        check_sound(&r, n, &|i| granne::Dist::dist(&b.get_elements().get_element(i), &q).into_inner(), ms, k).map_err(|e| format!("{} in {:?}", e, r))?;
    }
    Ok(())
}

/// entry point of the bottom layer: best element found with max_search 1 in each upper layer
fn entry(g: &Graph, dist: &dyn Fn(usize) -> f32) -> usize {
    let mut e = 0;
    for l in &g[..g.len() - 1] {
        e = ref_search(&|i| l[i].iter().map(|&x| x as usize).collect(), l.len(), e, dist, 1)[0].1;
    }
    e
}

fn exhaustive(c: &mut Ctx, idx: u64) -> R {
    let (g, t, d, n) = gen(c, if idx % 40 == 0 { 100 } else { 20 });
    if g.is_empty() { c.nontrivial = false; return Ok(()); }
    let q = c.rng.below(3);
    let bottom = g.last().unwrap();
    let dist = |i: usize| d[i][q];
    let e = entry(&g, &dist);
    let seen = reachable(&|i| bottom[i].iter().map(|&x| x as usize).collect(), n, e);
    let mut want: Vec<(f32, usize)> = (0..n).filter(|&i| seen[i]).map(|i| (dist(i), i)).collect();
    want.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let ms = want.len() + c.rng.below(3);
    let k = c.rng.range(1, n + 2);
    c.case(format!("graph {:?} dists {:?} query {} max_search {} num_neighbors {}", g, d, q, ms, k));
    let bytes = encode_index(&g);
    let r = run(idx as usize % 2, &g, &bytes, t, q, ms, k);
    let want: Vec<(usize, f32)> = want.into_iter().take(k).map(|(a, b)| (b, a)).collect();
    ensure(r == want, || format!("expected {:?}, got {:?}", want, r))
}

fn exhaustive_small(c: &mut Ctx, idx: u64) -> R {
    let x = idx;
    let g = small_graph(x % 512, 3);
    let ds = (x / 512) % 27;
    let d: Vec<Vec<f32>> = (0..3).map(|i| vec![(ds / 3u64.pow(i) % 3) as f32]).collect();
    c.case(format!("graph {:?} dists {:?}", g, d));
    let bytes = encode_index(&vec![g.clone()]);
    let ix = Granne::from_bytes(&bytes, Tab::new(d.clone()));
    for ms in 1..5 {
        let r = ix.search(&0, ms, 5);
        check_closed(&r, &g, &|i| d[i][0], 0, ms).map_err(|e| format!("max_search {}: {} in {:?}", ms, e, r))?;
    }
    Ok(())
}

/// r: all kept results
fn check_closed(r: &[(usize, f32)], layer: &[Vec<u32>], dist: &dyn Fn(usize) -> f32, entry: usize, ms: usize) -> R {
    let kept: std::collections::HashSet<usize> = r.iter().map(|x| x.0).collect();
    let worst = r.last().ok_or("no results")?.1;
    let ok = |j: usize| kept.contains(&j) || (r.len() == ms && dist(j) >= worst);
    ensure(ok(entry), || format!("entry point {} (distance {}) skipped", entry, dist(entry)))?;
    for &(i, _) in r {
        for &j in &layer[i] { ensure(ok(j as usize), || format!("neighbor {} (distance {}) of {} skipped", j, dist(j as usize), i))?; }
    }
    Ok(())
}

fn closed(c: &mut Ctx, idx: u64) -> R {
    let (g, t, d, n) = gen(c, if idx % 40 == 0 { 150 } else { 25 });
    if g.is_empty() { c.nontrivial = false; return Ok(()); }
    let q = c.rng.below(3);
    let dist = |i: usize| d[i][q];
    let e = entry(&g, &dist);
    let ms = if c.rng.chance(1, 2) { c.rng.range(1, 4) } else { c.rng.range(1, n + 1) };
    c.case(format!("graph {:?} dists {:?} query {} max_search {}", g, d, q, ms));
    let bytes = encode_index(&g);
    let r = run(idx as usize % 2, &g, &bytes, t, q, ms, n + 10);
    check_closed(&r, g.last().unwrap(), &dist, e, ms).map_err(|e| format!("{} in {:?}", e, r))
}

fn large(c: &mut Ctx) -> (Graph, Vec<Vec<f32>>) {
    let n = c.rng.range(66000, 150000);
    let g: Graph = [c.rng.range(1, 50), n].iter().map(|&n| (0..n).map(|i| { let l = c.rng.below(4); let mut v: Vec<u32> = (0..l).map(|_| c.rng.below(n) as u32).collect(); v.push(((i + 1) % n) as u32); v.sort(); v.dedup(); v }).collect()).collect();
    let d: Vec<Vec<f32>> = (0..n).map(|_| vec![c.rng.below(1 << 20) as f32]).collect();
    c.desc = format!("layers of {} and {} nodes", g[0].len(), n);
    (g, d)
}
fn large_sound(c: &mut Ctx, _: u64) -> R {
    let (g, d) = large(c);
    let n = d.len();
    let bytes = encode_index(&g);
    let ix = Granne::from_bytes(&bytes, Tab::new(d.clone()));
    for &(ms, k) in &[(1usize, 5usize), (3000, 3000), (n + 5, n + 5)] {
        c.case(format!("layers of {} and {} nodes, max_search {}", g[0].len(), n, ms));
        let r = ix.search(&0, ms, k);
        check_sound(&r, n, &|i| d[i][0], ms, k)?;
    }
    Ok(())
}
fn large_exact(c: &mut Ctx, _: u64) -> R {
    let (g, d) = large(c);
    let n = d.len();
    let bytes = encode_index(&g);
    let ix = Granne::from_bytes(&bytes, Tab::new(d.clone()));
    let bottom = g.last().unwrap();
    let dist = |i: usize| d[i][0];
    let e = entry(&g, &dist);
    c.case(format!("layers of {} and {} nodes, everything searched", g[0].len(), n));
    let seen = reachable(&|i| bottom[i].iter().map(|&x| x as usize).collect(), n, e);
    let mut want: Vec<(f32, usize)> = (0..n).filter(|&i| seen[i]).map(|i| (dist(i), i)).collect();
    want.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let want: Vec<(usize, f32)> = want.into_iter().map(|(a, b)| (b, a)).collect();
    ensure(ix.search(&0, n, n) == want, || "not the nodes that can be reached, in order".to_string())?;
    let r = ix.search(&0, 2000, 2000);
    check_closed(&r, bottom, &dist, e, 2000)
}
