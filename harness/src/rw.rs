use crate::util::*;
use crate::*;
use granne::{BuildConfig, Builder, Granne, GranneBuilder, Index, RwGranneBuilder};
use std::sync::Arc;

pub fn sections(p: &str, v: &mut Vec<Section>) {
    match p {
        "C18" => {
            v.push(sec("insert-sequential", "random batch sequences (also beyond the maximum) against a model", 1500, 60000, insert_sequential));
            v.push(sec("insert-concurrent", "2..6 threads inserting batches around the maximum", 400, 20000, insert_concurrent));
            v.push(sec("insert-race", "threads racing for the last places", 400, 20000, insert_race));
        }
        "C19" => {
            v.push(sec("rw-search", "searches after every insertion checked like searches in a finished index", 600, 30000, rw_search));
            v.push(sec("rw-save", "saved index and elements after random insertions, saved twice, more insertions after saving", 600, 30000, rw_save));
            v.push(sec("rw-save-busy", "saves one after the other while threads insert elements with full neighbor lists", 12, 400, rw_save_busy));
            v.push(sec("rw-live", "searches and saves while other threads insert", 100, 5000, rw_live));
        }
        _ => {}
    }
}
pub fn empty(d: Vec<Vec<f32>>, jitter: bool) -> Tab { Tab { ids: vec![], d: Arc::new(d), jitter } }
fn table(c: &mut Ctx, n: usize) -> Vec<Vec<f32>> { if c.rng.chance(1, 2) { distinct_sym(&mut c.rng, n) } else { let cls: Vec<usize> = (0..n).map(|_| c.rng.below(6)).collect(); (0..n).map(|i| (0..n).map(|j| (cls[i] as f32 - cls[j] as f32).abs()).collect()).collect() } }
pub fn cfg(c: &mut Ctx) -> (BuildConfig, usize, String) {
    let k = c.rng.range(1, 8);
    let m = *c.rng.pick(&[1.5f32, 2.0, 3.0, 5.0, 15.0, 1000.0]);
    let ms = c.rng.range(1, 15);
    let b = BuildConfig::default().num_neighbors(k).layer_multiplier(m).max_search(ms).reinsert_elements(c.rng.chance(1, 2));
    (b, k, format!("{:?}", b))
}
/// a builder that already has `pre` elements
fn make(c: &mut Ctx, d: Vec<Vec<f32>>, cap: usize, pre: usize, threads: usize, jitter: bool) -> (RwGranneBuilder<Tab>, usize, String) {
    let (b, k, s) = cfg(c);
    let mut t = empty(d, jitter);
    for i in 0..pre { t.ids.push(i); }
    if pre > 0 && c.rng.chance(1, 3) {
        // continue an index that was built with another layer multiplier
        let m = *c.rng.pick(&[1.5f32, 2.0, 3.0, 5.0, 15.0, 1000.0]);
        let mut o = GranneBuilder::new(b.clone().layer_multiplier(m), t.clone());
        o.build();
        let mut bytes = std::io::Cursor::new(Vec::new());
        o.write_index(&mut bytes).unwrap();
        let g = GranneBuilder::from_bytes(b, &bytes.into_inner(), t);
        return (RwGranneBuilder::new(g, cap, threads), k, format!("{} continuing an index with layer_multiplier {}", s, m));
    }
    (RwGranneBuilder::new(GranneBuilder::new(b, t), cap, threads), k, s)
}

fn insert_sequential(c: &mut Ctx, _: u64) -> R {
    let cap = if c.rng.chance(1, 5) { c.rng.range(1, 3) } else { c.rng.range(1, 50) };
    let n = cap + 10;
    let d = table(c, n);
    let pre = if c.rng.chance(1, 3) { c.rng.below(cap + 1) } else { 0 };
    let th = if c.rng.chance(1, 6) { 3 } else { 1 };
    let (b, _, s) = make(c, d, cap, pre, th, false);
    let mut model: Vec<usize> = (0..pre).collect();
    let mut log = format!("config {} max_elements {} initial {} threads {}: ", s, cap, pre, th);
    for _ in 0..c.rng.range(1, 10) {
        let batch: Vec<usize> = (0..if c.rng.chance(1, 6) { c.rng.range(10, 60) } else { c.rng.below(6) }).map(|_| c.rng.below(n)).collect();
        let single = batch.len() == 1 && c.rng.chance(1, 2);
        log += &format!("insert {:?}; ", batch);
        c.desc = log.clone();
        let ids = if single { b.insert(batch[0]).into_iter().collect() } else { b.insert_batch(batch.clone()) };
        let fit = batch.len().min(cap.saturating_sub(model.len()));
        let want: Vec<usize> = (model.len()..model.len() + fit).collect();
        ensure(ids == want, || format!("ids {:?}, expected {:?}", ids, want))?;
        model.extend(&batch[..fit]);
        ensure(b.len() == model.len() && b.is_empty() == model.is_empty(), || format!("len {} expected {}", b.len(), model.len()))?;
        for i in 0..model.len() { ensure(b.get_element(i) == model[i], || format!("element {} is {}, expected {}", i, b.get_element(i), model[i]))?; }
        ensure(b.get_elements().ids == model, || "elements".into())?;
    }
    Ok(())
}
fn concurrent(c: &mut Ctx, cap: usize, threads: usize, batches: Vec<Vec<Vec<usize>>>, pool: usize) -> R {
    let n = batches.iter().flatten().flatten().max().map_or(1, |x| x + 1);
    let d = table(c, n);
    let (b, _, s) = make(c, d, cap, 0, pool, c.rng.clone().chance(1, 2));
    c.desc = format!("config {} max_elements {} pool {} batches {:?}", s, cap, pool, batches);
    let _ = threads;
    let b = &b;
    let res: Vec<Vec<(Vec<usize>, Vec<usize>)>> = std::thread::scope(|sc| {
        let h: Vec<_> = batches.iter().map(|bs| sc.spawn(move || bs.iter().map(|x| (x.clone(), b.insert_batch(x.clone()))).collect::<Vec<_>>())).collect();
        h.into_iter().map(|h| h.join().map_err(|_| ())).collect::<Result<Vec<_>, _>>()
    }).map_err(|_| "an inserting thread panicked".to_string())?;
    let total: usize = batches.iter().flatten().map(|x| x.len()).sum();
    let els = b.get_elements().ids.clone();
    ensure(els.len() == total.min(cap), || format!("{} elements present, {} inserted with maximum {}", els.len(), total, cap))?;
    let mut owner = vec![false; els.len()];
    for t in &res { for (batch, ids) in t {
        ensure(ids.len() <= batch.len(), || "more ids than elements".into())?;
        for (k, &id) in ids.iter().enumerate() {
            ensure(id < els.len() && !owner[id], || format!("id {} out of range or assigned twice ({} elements)", id, els.len()))?;
            owner[id] = true;
            ensure(els[id] == batch[k], || format!("id {} holds {}, was returned for {}", id, els[id], batch[k]))?;
            ensure(k == 0 || ids[k - 1] < id, || format!("ids {:?} not increasing", ids))?;
        }
        if ids.len() < batch.len() { ensure(els.len() == cap, || "batch cut although there was room".into())?; }
    } }
    ensure(owner.iter().all(|&x| x), || "an element has no returned id".into())
}
fn insert_concurrent(c: &mut Ctx, _: u64) -> R {
    let threads = c.rng.range(2, 5);
    let mut k = 0;
    let batches: Vec<Vec<Vec<usize>>> = (0..threads).map(|_| (0..c.rng.range(1, 5)).map(|_| (0..c.rng.range(1, 6)).map(|_| { k += 1; k }).collect()).collect()).collect();
    let total: usize = batches.iter().flatten().map(|x| x.len()).sum();
    let cap = if c.rng.chance(1, 2) { total + c.rng.below(5) } else { c.rng.range(1, total) };
    let pool = if c.rng.chance(1, 5) { 2 } else { 1 };
    concurrent(c, cap, threads, batches, pool)
}
fn insert_race(c: &mut Ctx, _: u64) -> R {
    let threads = c.rng.range(2, 6);
    let mut k = 0;
    let batches: Vec<Vec<Vec<usize>>> = (0..threads).map(|_| (0..3).map(|_| (0..c.rng.range(1, 2)).map(|_| { k += 1; k }).collect()).collect()).collect();
    let cap = c.rng.range(1, 6);
    concurrent(c, cap, threads, batches, 1)
}

fn rw_search(c: &mut Ctx, _: u64) -> R {
    let cap = if c.rng.chance(1, 3) { c.rng.range(1, 4) } else { c.rng.range(1, 40) };
    let n = cap + 3;
    let d = table(c, n);
    let pre = if c.rng.chance(1, 4) { c.rng.below(cap + 1) } else { 0 };
    let (b, _, s) = make(c, d.clone(), cap, pre, 1, false);
    c.desc = format!("config {} max_elements {} initial {} dists {:?}", s, cap, pre, if cap < 10 { d.clone() } else { vec![] });
    let mut have: Vec<usize> = (0..pre).collect();
    for step in 0..cap + 2 {
        for _ in 0..3 {
            let q = c.rng.below(n);
            let ms = c.rng.range(1, 12);
            let k = c.rng.range(0, 12);
            let r = b.search(&q, ms, k);
            crate::search::check_sound(&r, have.len(), &|i| d[have[i]][q], ms, k).map_err(|e| format!("after {} insertions, query {} max_search {} num_neighbors {}: {} in {:?}", step, q, ms, k, e, r))?;
            if have.len() == 1 && k > 0 { ensure(r == vec![(0, d[have[0]][q])], || format!("one element, found {:?}", r))?; }
        }
        if let Some(id) = b.insert(have.len() % n) { ensure(id == have.len(), || "id".into())?; have.push(have.len() % n); }
        let fresh = have.len() - 1;
        if have.len() > 1 && b.len() == have.len() && step % 5 == 0 {
            // linked right away, if there is a free neighbor slot everywhere
            let _ = fresh;
        }
    }
    Ok(())
}
fn rw_save_busy(c: &mut Ctx, _: u64) -> R {
    let cap = c.rng.range(100, 300);
    let d = table(c, cap);
    let k = *c.rng.pick(&[3usize, 6, 10, 20]);
    let m = *c.rng.pick(&[3.0f32, 15.0, 1000.0]);
    let (ts, batch, pool) = (*c.rng.pick(&[1usize, 4]), *c.rng.pick(&[1usize, 5, 40, 100]), *c.rng.pick(&[1usize, 4]));
    c.case(format!("{} elements, num_neighbors {}, layer_multiplier {}, {} inserting threads, batches of up to {}, pool of {}, 2 saving threads", cap, k, m, ts, batch, pool));
    let b = &RwGranneBuilder::new(GranneBuilder::new(BuildConfig::default().num_neighbors(k).layer_multiplier(m).max_search(30), empty(d, false)), cap, pool);
    let done = &std::sync::atomic::AtomicBool::new(false);
    let res: Vec<R> = std::thread::scope(|sc| {
        let ins: Vec<_> = (0..ts).map(|t| sc.spawn(move || { let mut x = t; while x < cap { let v: Vec<usize> = (0..batch).map(|i| x + i * ts).filter(|&y| y < cap).collect(); b.insert_batch(v); x += batch * ts; } })).collect();
        let saves: Vec<_> = (0..2).map(|_| sc.spawn(move || -> R {
            let mut all = vec![];
            loop {
                let fin = done.load(std::sync::atomic::Ordering::SeqCst);
                let (mut i, mut e) = (std::io::Cursor::new(Vec::with_capacity(60_000)), std::io::Cursor::new(Vec::new()));
                b.write(&mut i, &mut e).map_err(|e| e.to_string())?;
                if all.len() < 400 || fin { all.push((i.into_inner(), e.into_inner())); }
                if fin { break; }
            }
            for (i, e) in all { check_saved(b, k, &i, &e)?; }
            Ok(())
        })).collect();
        let mut out = vec![];
        for h in ins { if h.join().is_err() { out.push(Err("inserting thread panicked".to_string())); } }
        done.store(true, std::sync::atomic::Ordering::SeqCst);
        for h in saves { out.push(match h.join() { Ok(r) => r, Err(_) => Err("saving thread panicked".into()) }); }
        out
    });
    for r in res { r?; }
    ensure(b.len() == cap, || format!("{} of {} elements inserted", b.len(), cap))
}
fn save_check(b: &RwGranneBuilder<Tab>, k: usize) -> Result<Graph, String> {
    let mut i = std::io::Cursor::new(Vec::new());
    let mut e = std::io::Cursor::new(Vec::new());
    b.write(&mut i, &mut e).map_err(|e| e.to_string())?;
    check_saved(b, k, i.get_ref(), e.get_ref())
}
fn check_saved(b: &RwGranneBuilder<Tab>, k: usize, i: &[u8], e: &[u8]) -> Result<Graph, String> {
    let els: Vec<usize> = e.chunks(8).map(|x| u64::from_le_bytes(x.try_into().unwrap()) as usize).collect();
    let g = decode_index(i)?;
    let n = g.last().map_or(0, |l| l.len());
    ensure(els.len() == n, || format!("{} elements saved, last layer has {}", els.len(), n))?;
    for w in g.windows(2) { ensure(w[0].len() <= w[1].len(), || format!("layer sizes {:?}", g.iter().map(|l| l.len()).collect::<Vec<_>>()))?; }
    for (l, layer) in g.iter().enumerate() { for (i, list) in layer.iter().enumerate() {
        ensure(list.len() <= k, || format!("layer {} node {} has {} neighbors", l, i, list.len()))?;
        for (p, &j) in list.iter().enumerate() { ensure((j as usize) < layer.len() && j as usize != i && (p == 0 || list[p - 1] < j), || format!("layer {} node {} has neighbors {:?} ({} nodes)", l, i, list, layer.len()))?; }
    } }
    let have = b.get_elements().ids.clone();
    ensure(have.len() >= els.len() && have[..els.len()] == els[..], || format!("saved elements {:?}, builder has {:?}", els, have))?;
    let l = Granne::from_bytes(i, empty(vec![], false));
    diff_graph("loaded saved index", &g, &graph_of(&l))?;
    ensure(l.len() == n, || "len".into())?;
    Ok(g)
}
fn rw_save(c: &mut Ctx, _: u64) -> R {
    let cap = c.rng.range(1, 40);
    let n = cap + 1;
    let d = table(c, n);
    let pre = if c.rng.chance(1, 4) { c.rng.below(cap + 1) } else { 0 };
    let (b, k, s) = make(c, d.clone(), cap, pre, 1, false);
    let mut log = format!("config {} max_elements {} initial {} dists {:?}: ", s, cap, pre, if cap < 10 { d.clone() } else { vec![] });
    let mut have = pre;
    for _ in 0..c.rng.range(1, 5) {
        let m = c.rng.below(cap + 1);
        log += &format!("insert {}; save; ", m);
        c.desc = log.clone();
        have += b.insert_batch((have..have + m).map(|x| x % n).collect()).len();
        let q = c.rng.below(n);
        let before = b.search(&q, 20, 20);
        let g = save_check(&b, k)?;
        ensure(g.last().map_or(0, |l| l.len()) == have, || format!("{} of {} elements saved", g.last().map_or(0, |l| l.len()), have))?;
        let g2 = save_check(&b, k)?;
        diff_graph("saving twice", &g, &g2)?;
        ensure(b.search(&q, 20, 20) == before && b.len() == have, || "saving changed the builder".into())?;
        if c.rng.chance(1, 6) {
            let dir = Dir::new("rw");
            let (pi, pe) = (dir.file("i"), dir.file("e"));
            b.save_index_and_elements_to_disk(pi.to_str().unwrap(), pe.to_str().unwrap()).map_err(|e| e.to_string())?;
            diff_graph("saved to disk", &g, &decode_index(&std::fs::read(pi).unwrap())?)?;
            ensure(std::fs::read(pe).unwrap().len() == 8 * have, || "elements on disk".into())?;
        }
        // same results from the saved index
        let ids = b.get_elements().ids.clone();
        let bytes = encode_index(&g);
        let l = Granne::from_bytes(&bytes, Tab { ids, d: Arc::new(d.clone()), jitter: false });
        let (x, y) = (l.search(&q, 100, 5), b.search(&q, 100, 5));
        if g.len() > 0 { // the entry point may differ for tied distances only
            ensure(x.len() == y.len() || g.len() > 1, || format!("saved index finds {:?}, builder {:?}", x, y))?;
        }
    }
    Ok(())
}
fn rw_live(c: &mut Ctx, _: u64) -> R {
    let cap = c.rng.range(5, 50);
    let d = table(c, cap + 1);
    let (b, k, s) = make(c, d.clone(), cap, 0, 1, true);
    c.desc = format!("config {} max_elements {}", s, cap);
    let b = &b;
    let d = &d;
    let mut rngs: Vec<Rng> = (0..4).map(|i| Rng::new(c.rng.next(), i, 0)).collect();
    let (r2, r3) = (rngs.pop().unwrap(), rngs.pop().unwrap());
    let done = std::sync::atomic::AtomicBool::new(false);
    let done = &done;
    let res: Vec<R> = std::thread::scope(|sc| {
        let mut hs = vec![];
        let ins: Vec<_> = rngs.into_iter().enumerate().map(|(t, mut r)| sc.spawn(move || { let mut x = t; while x < cap { let m = r.range(1, 3); b.insert_batch((0..m).map(|i| (x + 2 * i).min(cap)).collect()); x += 2 * m; } })).collect();
        hs.push(sc.spawn(move || -> R {
            let mut r = r2;
            loop {
                let fin = done.load(std::sync::atomic::Ordering::SeqCst);
                let before = b.len();
                let (q, ms, kk) = (r.below(cap), r.range(1, 8), r.range(1, 8));
                let res = b.search(&q, ms, kk);
                let els = b.get_elements().ids.clone();
                if before > 0 { ensure(!res.is_empty(), || "nothing found".into())?; }
                if !res.is_empty() { crate::search::check_sound(&res, els.len(), &|i| d[els[i]][q], ms, kk)?; }
                if fin { return Ok(()); }
            }
        }));
        hs.push(sc.spawn(move || -> R {
            let mut r = r3;
            loop {
                let fin = done.load(std::sync::atomic::Ordering::SeqCst);
                save_check(b, k)?;
                for _ in 0..r.below(200) { std::thread::yield_now(); }
                if fin { return Ok(()); }
            }
        }));
        let mut out = vec![];
        for h in ins { if h.join().is_err() { out.push(Err("inserting thread panicked".to_string())); } }
        done.store(true, std::sync::atomic::Ordering::SeqCst);
        for h in hs { out.push(match h.join() { Ok(r) => r, Err(_) => Err("searching or saving thread panicked".into()) }); }
        out
    });
    for r in res { r?; }
    ensure(b.len() <= cap, || "too many elements".into())
}
#[allow(dead_code)]
fn _u<T: Builder + Index>(_: T, _: Tab) {}
