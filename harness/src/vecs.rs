use crate::util::*;
use crate::*;
use granne::{angular, angular_int, embeddings::SumEmbeddings, ElementContainer, ExtendableElementContainer, Permutable, Writeable};

pub fn sections(p: &str, v: &mut Vec<Section>) {
    match p {
        "C09" => {
            v.push(sec("rows-direct", "random operation sequences on the fixed width collection itself", 3000, 200000, rows_direct));
            v.push(sec("dense-f32", "random operation sequences on angular::Vectors against a sequence model", 6000, 300000, dense_f32));
            v.push(sec("dense-large", "rows of 255 to 65600 components and collections of more than 65536 rows", 6, 60, dense_large));
            v.push(sec("dense-i8", "random operation sequences on angular_int::Vectors against a sequence model", 6000, 300000, dense_i8));
        }
        "C10" => { v.push(sec("lists-large", "more than 65536 elements, elements of more than 65536 terms", 2, 20, sums_large)); v.push(sec("lists-direct", "random operation sequences on the list collection itself, empty lists everywhere, u32/usize and 3/5 byte representation", 3000, 200000, lists_direct)); v.push(sec("element-lists", "random operation sequences on SumEmbeddings against a model", 3000, 150000, element_lists)) }
        "C11" => v.push(sec("shards", "random word and element files, 1..12 and 250..520 shards, concatenation compared", 120, 4000, shards)),
        "C12" => {
            v.push(sec("permute-all", "all permutations of up to 6 elements, dense and summed", 2 * 873, 2 * 873, permute_all));
            v.push(sec("permute-random", "random permutations of random sizes and widths, wrong lengths rejected", 3000, 100000, permute_random));
            v.push(sec("permute-large", "more than 10000 elements (parallel chunks)", 4, 40, permute_large));
        }
        "C14" => {
            v.push(sec("ids", "embedding ids around all byte boundaries and random ones", 600, 60000, ids));
            v.push(sec("ids-rejected", "ids of 2^24 and more", 200, 5000, ids_rejected));
            #[cfg(granne_verif)]
            v.push(sec("ints-direct", "ThreeByteInt and FiveByteInt conversions: boundaries, random values, arrays", 2000, 400000, ints_direct));
        }
        "C27" => v.push(sec("keys", "elements with up to 20 terms, repeated terms, none; embeddings of exactly known, distinct lengths; order of the keys against the order of the recomputed term lists", 4000, 200000, keys)),
        "C15" => v.push(sec("sums", "random embeddings and elements, exact sequential sums", 8000, 400000, sums)),
        _ => {}
    }
}

macro_rules! dense {
    ($fname:ident, $m:ident, $t:ty, $gen:expr) => {
        fn $fname(c: &mut Ctx, _: u64) -> R {
            let dim = c.rng.range(1, 7);
            let gen = $gen;
            let mut vec = |c: &mut Ctx, d: usize| -> Vec<$t> { (0..d).map(|_| gen(&mut c.rng)).collect() };
            let mut v: $m::Vectors<'static> = $m::Vectors::new();
            let mut model: Vec<Vec<$t>> = vec![];
            let mut log = String::new();
            let mut width = 0usize; // 0: unspecified
            let steps = c.rng.range(1, 14);
            for _ in 0..steps {
                match c.rng.below(11) {
                    0 | 1 | 2 => { let x = vec(c, dim); log += &format!("push {:?}; ", x); v.push(&$m::Vector(x.clone().into())); model.push(x); width = dim; }
                    3 => { let x = vec(c, dim); log += &format!("trait push {:?}; ", x); ExtendableElementContainer::push(&mut v, $m::Vector(x.clone().into())); model.push(x); width = dim; }
                    4 => {
                        let k = c.rng.below(4);
                        let rows: Vec<Vec<$t>> = (0..k).map(|_| vec(c, dim)).collect();
                        log += &format!("extend {:?}; ", rows);
                        let o: $m::Vectors = rows.iter().map(|r| $m::Vector(r.clone().into())).collect();
                        if k > 0 { v.extend(o); width = dim; } else if width == 0 { v.extend(o); } else { let b = v.clone(); let r = catch(|| v.extend(o)); if r.is_err() { ensure(v.as_slice() == b.as_slice(), || "rejected extend changed the collection".into())?; } }
                        model.extend(rows);
                    }
                    5 => {
                        let k = c.rng.range(1, 4);
                        let flat: Vec<$t> = vec(c, dim * k);
                        log += &format!("extend from_vec/from_slice {:?}; ", flat);
                        if c.rng.chance(1, 2) { v.extend($m::Vectors::from_vec(flat.clone(), dim)); } else { v.extend($m::Vectors::from_slice(&flat, dim)); }
                        model.extend(flat.chunks(dim).map(|x| x.to_vec()));
                        width = dim;
                    }
                    6 => {
                        let mut b = Vec::new();
                        let n = v.write(&mut b).map_err(|e| e.to_string())?;
                        ensure(n == b.len() && n == 8 + model.len() * dim * std::mem::size_of::<$t>(), || format!("{} bytes reported, {} written for {} vectors; {}", n, b.len(), model.len(), log))?;
                        let off = c.rng.below(16);
                        log += &format!("write and load at offset {}; ", off);
                        let a = At::new(&b, off);
                        let mut l = $m::Vectors::from_bytes(a.bytes());
                        ensure(l.len() == model.len() && l.dim() == width, || format!("loaded {} vectors of dim {}; {}", l.len(), l.dim(), log))?;
                        for (i, m) in model.iter().enumerate() { ensure(l.get_element(i).as_slice() == &m[..], || format!("loaded vector {}: {:?} expected {:?}; {}", i, l.get_element(i).as_slice(), m, log))?; }
                        let x = vec(c, dim);
                        l.push(&$m::Vector(x.clone().into()));
                        ensure(l.len() == model.len() + 1 && l.get_element(model.len()).as_slice() == &x[..], || format!("push after load; {}", log))?;
                        ensure(a.bytes() == &b[..], || format!("modifying the loaded collection changed its source; {}", log))?;
                        let l = $m::Vectors::from_bytes(a.bytes());
                        v = l.into_owned();
                    }
                    7 => {
                        let d = Dir::new("v");
                        log += "write and load from file; ";
                        let mut b = Vec::new();
                        v.write(&mut b).map_err(|e| e.to_string())?;
                        std::fs::write(d.file("v"), &b).unwrap();
                        let f = std::fs::File::open(d.file("v")).unwrap();
                        let mut l = unsafe { $m::Vectors::from_file(&f) }.map_err(|e| e.to_string())?;
                        ensure(l.len() == model.len() && l.dim() == width && l.as_slice() == v.as_slice(), || format!("loaded from file {:?}; {}", l.as_slice(), log))?;
                        for (i, m) in model.iter().enumerate() { ensure(l.get_element(i).as_slice() == &m[..], || format!("vector {} from file; {}", i, log))?; }
                        let keep = l.clone();
                        let x = vec(c, dim);
                        match c.rng.below(3) {
                            0 => { l.push(&$m::Vector(x.clone().into())); ensure(l.len() == model.len() + 1 && l.get_element(model.len()).as_slice() == &x[..] && (0..model.len()).all(|i| l.get_element(i).as_slice() == &model[i][..]), || format!("push after load from file; {}", log))?; }
                            1 => { l.extend($m::Vectors::from_vec(x.clone(), dim)); ensure(l.len() == model.len() + 1 && l.get_element(model.len()).as_slice() == &x[..], || format!("extend after load from file; {}", log))?; }
                            _ => { let p: Vec<usize> = (0..model.len()).rev().collect(); l.permute(&p); for i in 0..p.len() { ensure(l.get_element(i).as_slice() == &model[p[i]][..], || format!("permute after load from file; {}", log))?; } }
                        }
                        ensure(std::fs::read(d.file("v")).unwrap() == b, || format!("modifying the loaded collection changed the file; {}", log))?;
                        v = keep.into_owned();
                    }
                    8 => {
                        let bad = if dim == 1 || c.rng.chance(1, 2) { dim + c.rng.range(1, 3) } else { dim - 1 };
                        let x = vec(c, bad);
                        if width != 0 {
                            log += &format!("push of dimension {} instead of {}; ", bad, dim);
                            let before = v.as_slice().to_vec();
                            let r = if c.rng.chance(1, 2) { catch(|| v.push(&$m::Vector(x.clone().into()))) } else { catch(|| v.extend($m::Vectors::from_vec(x.clone(), bad))) };
                            ensure(r.is_err(), || format!("vector of another dimension accepted; {}", log))?;
                            ensure(v.as_slice() == &before[..] && v.dim() == dim, || format!("rejected vector changed the collection; {}", log))?;
                        }
                    }
                    9 => { log += "borrow, clone; "; let w = v.borrow().clone().into_owned(); v = w; }
                    _ => { log += "collect; "; v = (0..model.len()).map(|i| $m::Vector(model[i].clone().into())).collect(); width = if model.is_empty() { 0 } else { dim }; }
                }
                c.desc = log.clone();
                ensure(v.len() == model.len(), || format!("len {} expected {}; {}", v.len(), model.len(), log))?;
                ensure(v.dim() == width, || format!("dim {} expected {}; {}", v.dim(), width, log))?;
                ensure(v.as_slice() == &model.concat()[..], || format!("contents {:?} expected {:?}; {}", v.as_slice(), model, log))?;
                for i in 0..model.len() {
                    ensure(v.get_element(i).as_slice() == &model[i][..], || format!("vector {} is {:?} expected {:?}; {}", i, v.get_element(i).as_slice(), model[i], log))?;
                    ensure(v.get(i).into_vec() == model[i], || format!("vector {} (owned); {}", i, log))?;
                }
                ensure(catch(|| v.get_element(model.len()).len()).is_err() || width == 0, || format!("element past the end returned; {}", log))?;
            }
            Ok(())
        }
    };
}
dense!(dense_f32, angular, f32, |r: &mut Rng| (r.below(2001) as f32 - 1000.0) / 8.0);
dense!(dense_i8, angular_int, i8, |r: &mut Rng| (r.below(255) as i32 - 127) as i8);

fn ids_list(c: &mut Ctx, max: usize) -> Vec<usize> { let l = if c.rng.chance(1, 20) { c.rng.below(3000) } else { c.rng.below(7) }; (0..l).map(|_| if c.rng.chance(1, 3) { (1 << 24) - 1 - c.rng.below(3) } else { c.rng.below(max) }).collect() }
fn check_lists(e: &SumEmbeddings, model: &[Vec<usize>], log: &str) -> R {
    ensure(e.len() == model.len(), || format!("len {} expected {}; {}", e.len(), model.len(), log))?;
    for (i, m) in model.iter().enumerate() { ensure(&e.get_terms(i) == m, || format!("element {} is {:?} expected {:?}; {}", i, e.get_terms(i), m, log))?; }
    ensure(catch(|| e.get_terms(model.len())).is_err(), || format!("element past the end returned; {}", log))
}
fn element_lists(c: &mut Ctx, _: u64) -> R {
    let mut e: SumEmbeddings<'static> = SumEmbeddings::new();
    let mut model: Vec<Vec<usize>> = vec![];
    let mut log = String::new();
    let d = Dir::new("e");
    e.push_embedding(&[1.0, 2.0]);
    let mut w = Vec::new();
    e.write_embeddings(&mut w).map_err(|e| e.to_string())?;
    std::fs::write(d.file("w"), &w).unwrap();
    let wf = std::fs::File::open(d.file("w")).unwrap();
    for _ in 0..c.rng.range(1, 12) {
        match c.rng.below(6) {
            0 | 1 | 2 => { let x = ids_list(c, 70000); log += &format!("push {:?}; ", x); e.push(&x); model.push(x); }
            3 => { let x = ids_list(c, 300); log += &format!("trait push {:?}; ", x); ExtendableElementContainer::push(&mut e, x.clone()); model.push(x); }
            4 => {
                log += "write and load from file; ";
                let mut b = Vec::new();
                let n = e.write(&mut b).map_err(|e| e.to_string())?;
                ensure(n == b.len() && n == 8 + 5 * (model.len() + 1) + 3 * model.iter().map(|l| l.len()).sum::<usize>(), || format!("{} bytes reported, {} written; {}", n, b.len(), log))?;
                std::fs::write(d.file("e"), &b).unwrap();
                let f = std::fs::File::open(d.file("e")).unwrap();
                let mut l = unsafe { SumEmbeddings::from_files(&wf, Some(&f)) }.map_err(|e| e.to_string())?;
                check_lists(&l, &model, &log)?;
                let keep = l.clone();
                let x = ids_list(c, 300);
                l.push(&x);
                let mut m2 = model.clone();
                m2.push(x);
                check_lists(&l, &m2, &format!("{}push after load", log))?;
                ensure(std::fs::read(d.file("e")).unwrap() == b, || format!("pushing changed the file; {}", log))?;
                check_lists(&keep, &model, &log)?;
                e = keep;
            }
            _ => { log += "borrow and clone; "; let x = e.borrow().clone(); let mut b = Vec::new(); x.write(&mut b).unwrap(); check_lists(&x, &model, &log)?; let y = e.clone(); e = y; }
        }
        c.desc = clip(&log, 5000);
        check_lists(&e, &model, &log)?;
        ensure(ElementContainer::len(&e) == model.len() && ElementContainer::is_empty(&e) == model.is_empty(), || "container length".into())?;
    }
    Ok(())
}

fn shards(c: &mut Ctx, idx: u64) -> R {
    let d = Dir::new("sh");
    let words = c.rng.range(1, 12);
    let n = if idx % 16 == 9 { c.rng.range(250, 700) } else if idx % 3 == 0 { c.rng.below(4) } else { c.rng.below(40) };
    let num = if idx % 16 == 9 { c.rng.range(250, 520) } else { c.rng.range(1, 12) };
    // a directory, or the name of a file with and without extension
    let (out, pre, post) = [("out", "out/elements", "bin"), ("out", "out/elements", "bin"), ("res.data", "res", "data"), ("a.b.c", "a.b", "c"), ("plain", "plain", "bin")][idx as usize % 5];
    let wl: String = (0..words).map(|i| format!("\"w{}\"\n", i)).collect();
    std::fs::write(d.file("words"), wl).unwrap();
    let model: Vec<Vec<usize>> = (0..n).map(|_| { let l = c.rng.below(5); (0..l).map(|_| c.rng.below(words)).collect() }).collect();
    let lines: Vec<String> = model.iter().map(|m| format!("\"{}{}\"\n", if idx % 2 == 0 { "id:" } else { "" }, m.iter().map(|i| format!("w{}", i)).collect::<Vec<_>>().join(" "))).collect();
    let parts = c.rng.range(1, 3);
    let input = if parts == 1 { std::fs::write(d.file("in"), lines.concat()).unwrap(); d.file("in") } else {
        std::fs::create_dir(d.file("in")).unwrap();
        let per = n / parts + 1;
        for (p, ch) in lines.chunks(per).enumerate() { std::fs::write(d.file("in").join(format!("part{}", p)), ch.concat()).unwrap(); }
        d.file("in")
    };
    std::fs::create_dir(d.file("out")).unwrap();
    c.case(clip(&format!("{} elements in {} parts, {} shards, output {}: {:?}", n, parts, num, out, model), 3000));
    let m = granne::embeddings::parsing::parse_elements_and_save_shards_to_disk(&input, &d.file("words"), &d.file(out), num, false);
    ensure(m == n, || format!("{} elements parsed, {} written", m, n))?;
    std::fs::write(d.file("w"), 1u64.to_le_bytes()).unwrap();
    let wf = std::fs::File::open(d.file("w")).unwrap();
    let mut all: Vec<Vec<usize>> = vec![];
    for s in 0..num {
        let f = std::fs::File::open(d.file(&format!("{}-{}.{}", pre, s, post))).map_err(|e| format!("shard {}: {}", s, e))?;
        let l = unsafe { SumEmbeddings::from_files(&wf, Some(&f)) }.map_err(|e| e.to_string())?;
        for i in 0..l.len() { all.push(l.get_terms(i)); }
    }
    ensure(all == model, || clip(&format!("shards hold {:?}", all), 3000))?;
    // the whole thing in one file
    let m = granne::embeddings::parsing::parse_elements_and_save_to_disk(&input, &d.file("words"), &d.file("one"), false);
    ensure(m == n, || "count".into())?;
    let f = std::fs::File::open(d.file("one")).unwrap();
    let l = unsafe { SumEmbeddings::from_files(&wf, Some(&f)) }.map_err(|e| e.to_string())?;
    check_lists(&l, &model, "one file")
}

// ---------- permute ----------
fn nth_perm(mut k: usize) -> Vec<usize> {
    let mut n = 0;
    let mut f = 1;
    loop { if k < f { break; } k -= f; n += 1; f *= n; if n == 0 { f = 1; } }
    let mut pool: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    for i in (1..=n).rev() { let f: usize = (1..i).product(); out.push(pool.remove(k / f)); k %= f; }
    out
}
fn check_permute(p: &[usize], width: usize, summed: bool) -> R {
    let n = p.len();
    if summed {
        let mut e = SumEmbeddings::new();
        let model: Vec<Vec<usize>> = (0..n).map(|i| (0..i % 4).map(|k| i * 5 + k).collect()).collect();
        for m in &model { e.push(m); }
        e.permute(p);
        ensure(e.len() == n, || format!("{} elements became {}", n, e.len()))?;
        for i in 0..n { ensure(e.get_terms(i) == model[p[i]], || format!("element {} is {:?}, expected element {} {:?}", i, e.get_terms(i), p[i], model[p[i]]))?; }
    } else {
        let mut v = angular::Vectors::from_vec((0..n * width).map(|x| x as f32).collect(), width);
        v.permute(p);
        ensure(v.len() == n, || format!("{} elements became {}", n, v.len()))?;
        for i in 0..n { let want: Vec<f32> = (0..width).map(|k| (p[i] * width + k) as f32).collect(); ensure(v.get_element(i).as_slice() == &want[..], || format!("element {} is {:?}, expected {:?}", i, v.get_element(i).as_slice(), want))?; }
    }
    Ok(())
}
fn permute_all(c: &mut Ctx, idx: u64) -> R {
    let p = nth_perm(idx as usize / 2);
    c.case(format!("{:?} summed {}", p, idx % 2 == 1));
    if p.is_empty() && idx % 2 == 0 { return Ok(()); }
    check_permute(&p, 1 + (idx as usize / 7) % 3, idx % 2 == 1)
}
fn permute_random(c: &mut Ctx, idx: u64) -> R {
    let n = c.rng.range(1, 60);
    let w = c.rng.range(1, 9);
    let mut p = c.rng.perm(n);
    if c.rng.chance(1, 4) { p = (0..n).map(|i| (i + 1) % n).collect(); }
    if c.rng.chance(1, 6) { p = (0..n).collect(); for _ in 0..2 { let (a, b) = (c.rng.below(n), c.rng.below(n)); p.swap(a, b); } }
    let summed = idx % 2 == 1;
    c.case(format!("{:?} width {} summed {}", p, w, summed));
    check_permute(&p, w, summed)?;
    let mut bad = p.clone();
    if c.rng.chance(1, 2) { bad.push(n); } else { let x = bad.iter().position(|&x| x == n - 1).unwrap(); bad.remove(x); }
    if summed {
        let mut e = SumEmbeddings::new();
        for i in 0..n { e.push(&[i]); }
        ensure(catch(|| e.permute(&bad)).is_err(), || format!("permutation of length {} accepted for {} elements", bad.len(), n))
    } else {
        let mut v = angular_int::Vectors::from_vec((0..n * w).map(|x| x as i8).collect(), w);
        ensure(catch(|| v.permute(&bad)).is_err(), || format!("permutation of length {} accepted for {} elements", bad.len(), n))
    }
}
fn permute_large(c: &mut Ctx, idx: u64) -> R {
    let n = [10001usize, 66003, 20000, 30017][idx as usize % 4] + if idx >= 4 { c.rng.below(100) } else { 0 };
    let p = c.rng.perm(n);
    c.case(format!("random permutation of {}", n));
    check_permute(&p, 2, true)?;
    check_permute(&p, 2, false)
}

// ---------- compact ints ----------
fn ids(c: &mut Ctx, idx: u64) -> R {
    let v: Vec<usize> = if idx < 256 { (0..64).map(|k| (idx as usize) * 65536 + k * 1024 + if k % 2 == 0 { 0 } else { 1023 }).collect() } else {
        (0..64).map(|_| { let b = c.rng.range(1, 24); let x = c.rng.below(1 << b); match c.rng.below(4) { 0 => (1 << b) - 1, 1 => (1usize << b).min((1 << 24) - 1), _ => x } }).collect() };
    c.case(format!("{:?}", v));
    let mut e = SumEmbeddings::new();
    e.push(&v);
    for &x in &v { e.push(&[x]); }
    ensure(e.get_terms(0) == v, || format!("read back {:?}", e.get_terms(0)))?;
    for (i, &x) in v.iter().enumerate() { ensure(e.get_terms(1 + i) == vec![x], || format!("{} read back as {:?}", x, e.get_terms(1 + i)))?; }
    let mut b = Vec::new();
    e.write(&mut b).unwrap();
    let at = 8 + 5 * (v.len() + 2);
    for (i, &x) in v.iter().enumerate() { let y = b[at + 3 * i] as usize | (b[at + 3 * i + 1] as usize) << 8 | (b[at + 3 * i + 2] as usize) << 16; ensure(x == y, || format!("{} stored as {}", x, y))?; }
    Ok(())
}
fn ids_rejected(c: &mut Ctx, _: u64) -> R {
    let x = match c.rng.below(4) { 0 => 1usize << 24, 1 => 1 << c.rng.range(24, 62), 2 => usize::MAX - c.rng.below(4), _ => (1 << 24) + c.rng.below(1 << 30) };
    c.case(format!("{}", x));
    let mut e = SumEmbeddings::new();
    e.push(&[5, 6]);
    let r = catch(|| { e.push(&[1, x, 2]); });
    ensure(r.is_err(), || format!("id {} accepted and stored as {:?}", x, e.get_terms(1)))?;
    ensure(e.len() == 1 && e.get_terms(0) == vec![5, 6], || "collection changed by rejected id".into())
}
#[cfg(granne_verif)]
fn ints_direct(c: &mut Ctx, idx: u64) -> R {
    use granne::verif_hooks::{FiveByteInt, ThreeByteInt};
    let b = (idx % 64) as u32;
    let xs: Vec<usize> = vec![(1u64 << b) as usize, (1u64 << b).wrapping_sub(1) as usize, c.rng.next() as usize >> (63 - b), c.rng.below(1 << 24), c.rng.next() as usize & ((1 << 40) - 1)];
    c.case(format!("{:?}", xs));
    for &x in &xs {
        let r = catch(|| -> usize { ThreeByteInt::from(x).into() });
        ensure(match &r { Ok(y) => *y == x && x < 1 << 24, Err(_) => x >= 1 << 24 }, || format!("three bytes: {} -> {:?}", x, r))?;
        let r = catch(|| -> usize { FiveByteInt::from(x).into() });
        ensure(match &r { Ok(y) => *y == x && x < 1 << 40, Err(_) => x >= 1 << 40 }, || format!("five bytes: {} -> {:?}", x, r))?;
    }
    let small: Vec<usize> = (0..5).map(|_| c.rng.below(1 << 40)).collect();
    let mut a: Vec<FiveByteInt> = small.iter().map(|&x| x.into()).collect();
    a[2] = 77.into();
    let back: Vec<usize> = a.iter().map(|&x| x.into()).collect();
    ensure(back == vec![small[0], small[1], 77, small[3], small[4]], || format!("array {:?} became {:?}", small, back))
}

// ---------- embedding sums ----------
fn sums(c: &mut Ctx, idx: u64) -> R {
    let dim = if idx % 97 == 5 { c.rng.range(250, 300) } else if idx % 5 == 0 { c.rng.range(1, 80) } else { c.rng.range(1, 9) };
    let m = if idx % 53 == 7 { c.rng.range(250, 400) } else { c.rng.range(1, 12) };
    let emb: Vec<Vec<f32>> = (0..m).map(|_| (0..dim).map(|_| match c.rng.below(5) { 0 => 0.0, 1 => (c.rng.unit() - 0.5) * 1e6, _ => c.rng.unit() - 0.5 }).collect()).collect();
    let l = if idx % 7 == 0 { 0 } else if idx % 7 == 1 { 1 } else if idx % 29 == 3 { c.rng.range(10, 700) } else { c.rng.range(1, 9) };
    let ids: Vec<usize> = (0..l).map(|_| c.rng.below(m)).collect();
    c.case(clip(&format!("ids {:?} embeddings {:?}", ids, emb), 5000));
    let mut e = SumEmbeddings::new();
    ensure(e.create_embedding(&[]).is_empty(), || "empty element without embeddings".into())?;
    e.push(&[]);
    ensure(e.get_embedding(0).is_empty(), || "empty element without embeddings".into())?;
    for x in &emb { e.push_embedding(x); }
    e.push(&ids);
    let mut want = vec![0.0f32; dim];
    if let Some(&i) = ids.first() { want = emb[i].clone(); }
    for &i in ids.iter().skip(1) { for k in 0..dim { want[k] += emb[i][k]; } }
    let got = e.get_embedding(1);
    ensure(got.len() == dim && (0..dim).all(|k| got[k].to_bits() == want[k].to_bits()), || format!("embedding {:?}, expected {:?}", got, want))?;
    let cr = e.create_embedding(&ids);
    ensure(cr == got, || format!("created embedding {:?}, read {:?}", cr, got))?;
    let z = e.get_embedding(0);
    ensure(z == vec![0.0; dim], || format!("empty element gives {:?}", z))?;
    // unit length element
    let u = ElementContainer::get(&e, 1).into_vec();
    ensure(u.len() == dim, || "dimension of element".into())?;
    let norm = want.iter().map(|&x| x as f64 * x as f64).sum::<f64>().sqrt();
    if norm > 1e-9 { for k in 0..dim { ensure((u[k] as f64 - want[k] as f64 / norm).abs() < 1e-4, || format!("unit vector {:?} for {:?}", u, want))?; } }
    else { ensure(norm > 0.0 || u.iter().all(|&x| x == 0.0), || format!("unit vector {:?} of zero", u))?; }
    if norm > 1e-9 && l > 0 { let d = ElementContainer::dist(&e, 1, 1).into_inner(); ensure(d < 1e-5, || format!("distance to itself {}", d))?; }
    Ok(())
}

// ---------- the collections themselves ----------
fn some_list(c: &mut Ctx) -> Vec<usize> { let l = *c.rng.pick(&[0usize, 0, 0, 1, 1, 2, 3, 7, 40]); (0..l).map(|_| c.rng.below(1 << 24)).collect() }
macro_rules! lists_of {
    ($name:ident, $t:ty, $o:ty, $to:expr, $from:expr) => {
        fn $name(c: &mut Ctx) -> R {
            type L<'a> = granne::verif_hooks::VariableWidthSliceVector<'a, $t, $o>;
            let enc = |x: &[usize]| -> Vec<$t> { x.iter().map(|&x| $to(x)).collect() };
            let dec = |x: &[$t]| -> Vec<usize> { x.iter().map(|&x| $from(x)).collect() };
            let mut v: L<'static> = L::new();
            let mut model: Vec<Vec<usize>> = vec![];
            let mut log = String::new();
            for _ in 0..c.rng.range(1, 10) {
                match c.rng.below(7) {
                    0 | 1 => { let x = some_list(c); log += &format!("push {:?}; ", x); v.push(&enc(&x)); model.push(x); }
                    2 | 3 => {
                        let other: Vec<Vec<usize>> = (0..c.rng.below(6)).map(|_| some_list(c)).collect();
                        log += &format!("extend {:?}; ", other);
                        let mut w = L::new();
                        for o in &other { w.push(&enc(o)); }
                        v.extend_from_slice_vector(&w);
                        model.extend(other);
                    }
                    4 => {
                        let mut b = vec![0u8; c.rng.below(9)];
                        let k = b.len();
                        let n = v.write(&mut b).map_err(|e| e.to_string())?;
                        log += "write and load; ";
                        ensure(n == b.len() - k, || format!("{} bytes reported, {} written; {}", n, b.len() - k, log))?;
                        let l = L::from_bytes(&b[k..]);
                        ensure(l.len() == model.len(), || format!("{} lists loaded; {}", l.len(), log))?;
                        for i in 0..model.len() { ensure(dec(l.get(i)) == model[i], || format!("loaded list {} is {:?}; {}", i, dec(l.get(i)), log))?; }
                        let mut l2 = l.clone();
                        l2.push(&enc(&[5, 6]));
                        ensure(l2.len() == model.len() + 1 && dec(l2.get(model.len())) == [5, 6] && (model.is_empty() || dec(l2.get(0)) == model[0]), || format!("push after load; {}", log))?;
                    }
                    5 => {
                        let a = c.rng.below(model.len() + 1);
                        let e = c.rng.range(a, model.len());
                        log += &format!("write {}..{}; ", a, e);
                        let mut b = vec![];
                        let n = v.write_range(&mut b, a, e).map_err(|e| e.to_string())?;
                        ensure(n == b.len(), || format!("{} bytes reported, {} written; {}", n, b.len(), log))?;
                        let l = L::from_bytes(&b);
                        ensure(l.len() == e - a, || format!("{} lists loaded; {}", l.len(), log))?;
                        for i in a..e { ensure(dec(l.get(i - a)) == model[i], || format!("loaded list {} is {:?}; {}", i - a, dec(l.get(i - a)), log))?; }
                    }
                    _ => { log += "borrow and clone; "; let x = v.borrow().clone(); ensure(x.len() == model.len(), || "clone".into())?; let y = v.clone(); v = y; if !model.is_empty() { let i = c.rng.below(model.len()); if !model[i].is_empty() { v.get_mut(i)[0] = $to(9); model[i][0] = 9; log += &format!("first of {} to 9; ", i); } } }
                }
                c.desc = clip(&log, 5000);
                ensure(v.len() == model.len() && v.is_empty() == model.is_empty(), || format!("{} lists, expected {}; {}", v.len(), model.len(), log))?;
                for i in 0..model.len() { ensure(dec(v.get(i)) == model[i], || format!("list {} is {:?}, expected {:?}; {}", i, dec(v.get(i)), model[i], log))?; }
                let it: Vec<Vec<usize>> = v.iter().map(|x| dec(x)).collect();
                ensure(it == model, || format!("iterated {:?}, expected {:?}; {}", it, model, log))?;
                ensure(catch(|| v.get(model.len()).len()).is_err(), || format!("list past the end returned; {}", log))?;
            }
            Ok(())
        }
    };
}
lists_of!(lists_small_ints, granne::verif_hooks::ThreeByteInt, granne::verif_hooks::FiveByteInt, |x: usize| granne::verif_hooks::ThreeByteInt::from(x), |x: granne::verif_hooks::ThreeByteInt| -> usize { x.into() });
lists_of!(lists_words, u32, usize, |x: usize| x as u32, |x: u32| x as usize);
fn lists_direct(c: &mut Ctx, idx: u64) -> R { if idx % 2 == 0 { lists_small_ints(c) } else { lists_words(c) } }

fn rows_direct(c: &mut Ctx, _: u64) -> R {
    type V<'a> = granne::verif_hooks::FixedWidthSliceVector<'a, u16>;
    let w = c.rng.range(1, 9);
    let row = |c: &mut Ctx| -> Vec<u16> { (0..w).map(|_| c.rng.next() as u16).collect() };
    let mut v: V<'static> = V::with_width(w);
    let mut model: Vec<Vec<u16>> = vec![];
    let mut log = format!("width {}; ", w);
    for _ in 0..c.rng.range(1, 10) {
        match c.rng.below(9) {
            0 => { let x = row(c); log += &format!("push {:?}; ", x); v.push(&x); model.push(x); }
            1 => { let o: Vec<Vec<u16>> = (0..c.rng.below(5)).map(|_| row(c)).collect(); log += &format!("extend {:?}; ", o); let x = V::with_data(o.concat(), w); v.extend_from_slice_vector(&x); model.extend(o); }
            2 => { let n = c.rng.below(12); log += &format!("resize {}; ", n); v.resize(n, 7); model.resize(n, vec![7; w]); }
            3 => { let (a, b) = { let a = c.rng.below(model.len() + 1); (a, c.rng.range(a, model.len())) }; log += &format!("subslice {} {}; ", a, b);
                let s = v.subslice(a, b); ensure(s.len() == b - a && s.as_slice() == &model[a..b].concat()[..], || format!("subslice is {:?}; {}", s.as_slice(), log))?; }
            4 => { if !model.is_empty() { let i = c.rng.below(model.len()); let x = row(c); log += &format!("set {} {:?}; ", i, x); v.get_mut(i).copy_from_slice(&x); model[i] = x; } }
            5 => { log += "bump all; "; for r in v.iter_mut() { r[0] = r[0].wrapping_add(1); } for r in model.iter_mut() { r[0] = r[0].wrapping_add(1); } }
            6 => { log += "write and load; "; let mut b = vec![]; let n = v.write(&mut b).map_err(|e| e.to_string())?; ensure(n == b.len(), || format!("{} bytes reported, {} written; {}", n, b.len(), log))?;
                let l = V::from_bytes(&b); ensure(l.len() == model.len() && l.width() == w && l.as_slice() == &model.concat()[..], || format!("loaded {:?}; {}", l.as_slice(), log))?; }
            7 => { log += "permute; "; let p = c.rng.perm(model.len()); v.permute(&p); model = p.iter().map(|&i| model[i].clone()).collect(); }
            _ => { log += "owned; "; let x = v.borrow().clone().into_owned(); v = x; }
        }
        c.desc = clip(&log, 5000);
        ensure(v.len() == model.len() && v.width() == w && v.as_slice() == &model.concat()[..], || format!("{} rows of {}: {:?}, expected {:?}; {}", v.len(), v.width(), v.as_slice(), model, log))?;
        for i in 0..model.len() { ensure(v.get(i) == &model[i][..], || format!("row {}; {}", i, log))?; }
        ensure(v.iter().map(|x| x.to_vec()).collect::<Vec<_>>() == model, || format!("iterated; {}", log))?;
        ensure(catch(|| v.get(model.len()).len()).is_err(), || format!("row past the end returned; {}", log))?;
    }
    Ok(())
}

// ---------- keys for reordering ----------
fn keys(c: &mut Ctx, _: u64) -> R {
    let w = c.rng.range(1, 30);
    let dim = c.rng.range(2, 7);
    let mut len: Vec<usize> = (0..w).collect();
    for i in (1..w).rev() { let j = c.rng.below(i + 1); len.swap(i, j); }
    let mut e = SumEmbeddings::new();
    for &k in &len {
        let mut v = vec![0f32; dim];
        let sign = if c.rng.chance(1, 2) { -1.0 } else { 1.0 };
        // lengths k, or 5k/5 with two components
        if c.rng.chance(1, 2) { let a = c.rng.below(dim); v[a] = 5.0 * k as f32 * sign; } else { let a = c.rng.below(dim - 1); v[a] = 3.0 * k as f32; v[dim - 1] = 4.0 * k as f32 * sign; }
        e.push_embedding(&v);
    }
    let n = c.rng.range(0, 30);
    let els: Vec<Vec<usize>> = (0..n).map(|_| { let m = match c.rng.below(5) { 0 => c.rng.below(2), 1 => c.rng.range(7, 9), 2 => c.rng.below(20), _ => c.rng.below(6) }; let b = if c.rng.chance(1, 3) { 3.min(w) } else { w }; (0..m).map(|_| c.rng.below(b)).collect() }).collect();
    for x in &els { e.push(x); }
    c.case(format!("embeddings of lengths 5 * {:?}, elements {:?}", len, els));
    c.nontrivial = n > 1;
    let keys = { let t = c.rng.range(1, 4); on_threads(t, || granne::embeddings::compute_keys_for_reordering(&e)) };
    ensure(keys.len() == n, || format!("{} keys for {} elements", keys.len(), n))?;
    let want: Vec<Vec<usize>> = els.iter().map(|x| { let mut x = x.clone(); x.sort_by_key(|&i| std::cmp::Reverse(len[i])); x.resize(8, 0); x }).collect();
    for i in 0..n { for j in 0..n {
        ensure(keys[i].cmp(&keys[j]) == want[i].cmp(&want[j]), || format!("the keys of elements {} and {} compare as {:?}, their terms {:?} and {:?} as {:?}", i, j, keys[i].cmp(&keys[j]), want[i], want[j], want[i].cmp(&want[j])))?;
    } }
    Ok(())
}

fn dense_large(c: &mut Ctx, idx: u64) -> R {
    let (n, d) = match idx % 3 { 0 => (c.rng.range(2, 5), *c.rng.pick(&[255usize, 256, 257, 300, 512])), 1 => (c.rng.range(2, 4), c.rng.range(65530, 65600)), _ => (c.rng.range(65530, 70000), c.rng.range(1, 3)) };
    c.case(format!("{} rows of {} components", n, d));
    let flat: Vec<i8> = (0..n * d).map(|_| c.rng.below(255) as i8).collect();
    let row = |i: usize| &flat[i * d..(i + 1) * d];
    let check = |v: &angular_int::Vectors, what: &str| -> R {
        ensure(ElementContainer::len(v) == n, || format!("{}: {} rows", what, ElementContainer::len(v)))?;
        for i in 0..n { ensure(&v.get(i).0[..] == row(i), || format!("{}: row {}", what, i))?; }
        Ok(())
    };
    let mut v = angular_int::Vectors::new();
    if idx % 2 == 0 { for i in 0..n { v.push(&angular_int::Vector(row(i).to_vec().into())); } } else {
        let k = c.rng.range(1, n - 1) * d;
        v = angular_int::Vectors::from_vec(flat[..k].to_vec(), d);
        v.extend(angular_int::Vectors::from_slice(&flat[k..], d));
    }
    check(&v, "pushed")?;
    let mut b = Vec::new();
    let w = granne::Writeable::write(&v, &mut b).map_err(|e| e.to_string())?;
    ensure(w == b.len() && w == 8 + n * d, || format!("{} bytes reported, {} written", w, b.len()))?;
    check(&angular_int::Vectors::from_bytes(&b), "loaded")?;
    let dir = Dir::new("dl");
    std::fs::write(dir.file("v"), &b).unwrap();
    let f = std::fs::File::open(dir.file("v")).unwrap();
    check(&unsafe { angular_int::Vectors::from_file(&f) }.map_err(|e| e.to_string())?, "file")
}
fn sums_large(c: &mut Ctx, idx: u64) -> R {
    let n = if idx % 2 == 0 { c.rng.range(65530, 70000) } else { 5 };
    let model: Vec<Vec<usize>> = (0..n).map(|i| { let l = if idx % 2 == 1 && i == 2 { c.rng.range(65530, 70000) } else { c.rng.below(4) }; (0..l).map(|_| c.rng.below(1 << 24)).collect() }).collect();
    c.case(format!("{} elements, {} terms together", n, model.iter().map(|m| m.len()).sum::<usize>()));
    let mut e = SumEmbeddings::new();
    e.push_embedding(&[1.0]);
    for m in &model { e.push(m); }
    check_lists(&e, &model, "pushed").map_err(|e| clip(&e, 500))?;
    let d = Dir::new("sl");
    let (mut w, mut b) = (Vec::new(), Vec::new());
    e.write_embeddings(&mut w).map_err(|e| e.to_string())?;
    e.write(&mut b).map_err(|e| e.to_string())?;
    std::fs::write(d.file("w"), &w).unwrap();
    std::fs::write(d.file("e"), &b).unwrap();
    let (wf, ef) = (std::fs::File::open(d.file("w")).unwrap(), std::fs::File::open(d.file("e")).unwrap());
    let x = unsafe { SumEmbeddings::from_files(&wf, Some(&ef)) }.map_err(|e| e.to_string())?;
    check_lists(&x, &model, "loaded").map_err(|e| clip(&e, 500))
}
