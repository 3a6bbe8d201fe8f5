use ordered_float::NotNan;
use std::sync::Arc;

pub type R = Result<(), String>;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(a: u64, b: u64, c: u64) -> Self {
        let mut r = Rng(a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_mul(0xD1B54A32D192ED03) ^ c.wrapping_mul(0x94D049BB133111EB) ^ 0x2545F4914F6CDD1D);
        for _ in 0..4 { r.next(); }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    /// uniform in a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn unit(&mut self) -> f32 { (self.next() >> 40) as f32 / (1u64 << 24) as f32 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j); } }
    pub fn perm(&mut self, n: usize) -> Vec<usize> { let mut v: Vec<usize> = (0..n).collect(); self.shuffle(&mut v); v }
}

/// A container whose distances are an arbitrary table: element i is row ids[i], queries are columns.
#[derive(Clone)]
pub struct Tab { pub ids: Vec<usize>, pub d: Arc<Vec<Vec<f32>>>, pub jitter: bool }
impl Tab {
    pub fn new(d: Vec<Vec<f32>>) -> Self { let n = d.len(); Tab { ids: (0..n).collect(), d: Arc::new(d), jitter: false } }
    pub fn with_n(n: usize, d: Vec<Vec<f32>>) -> Self { Tab { ids: (0..n).collect(), d: Arc::new(d), jitter: false } }
}
impl granne::ElementContainer for Tab {
    type Element = usize;
    fn get(&self, idx: usize) -> usize { self.ids[idx] }
    fn len(&self) -> usize { self.ids.len() }
    fn dist_to_element(&self, idx: usize, e: &usize) -> NotNan<f32> {
        if self.jitter {
            // provoke interleavings
            let x = std::time::Instant::now().elapsed().as_nanos() as usize ^ idx.wrapping_mul(31) ^ e;
            if x % 3 == 0 { std::thread::yield_now(); }
        }
        NotNan::new(self.d[self.ids[idx]][*e]).unwrap()
    }
}
impl granne::ExtendableElementContainer for Tab {
    type InternalElement = usize;
    fn push(&mut self, e: usize) { self.ids.push(e) }
}
impl granne::Permutable for Tab {
    fn permute(&mut self, p: &[usize]) {
        assert_eq!(p.len(), self.ids.len());
        self.ids = p.iter().map(|&i| self.ids[i]).collect();
    }
}
impl granne::Writeable for Tab {
    fn write<B: std::io::Write>(&self, b: &mut B) -> std::io::Result<usize> {
        for &i in &self.ids { b.write_all(&(i as u64).to_le_bytes())?; }
        Ok(8 * self.ids.len())
    }
}

/// symmetric, pairwise distinct positive distances (zero on the diagonal)
pub fn distinct_sym(rng: &mut Rng, n: usize) -> Vec<Vec<f32>> {
    let pairs = n * (n.max(1) - 1) / 2;
    let mut vals = rng.perm(pairs);
    if rng.chance(1, 2) {
        // geometric: points on a plane, ranks made distinct
        let pts: Vec<(f32, f32)> = (0..n).map(|_| (rng.unit(), rng.unit())).collect();
        let mut v: Vec<(f32, usize)> = Vec::new();
        let mut k = 0;
        for i in 0..n { for j in 0..i { let dx = pts[i].0 - pts[j].0; let dy = pts[i].1 - pts[j].1; v.push((dx * dx + dy * dy, k)); k += 1; } }
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        for (rank, &(_, k)) in v.iter().enumerate() { vals[k] = rank; }
    }
    let mut d = vec![vec![0.0; n]; n];
    let mut k = 0;
    for i in 0..n { for j in 0..i { let x = 1.0 + vals[k] as f32; d[i][j] = x; d[j][i] = x; k += 1; } }
    d
}

pub fn any_dists(rng: &mut Rng, n: usize, q: usize) -> Vec<Vec<f32>> {
    match rng.below(4) {
        0 => (0..n).map(|_| (0..q).map(|_| rng.below(4) as f32).collect()).collect(),
        1 => (0..n).map(|_| (0..q).map(|_| rng.below(2) as f32).collect()).collect(),
        2 => (0..n).map(|_| (0..q).map(|_| rng.unit() * 100.0).collect()).collect(),
        _ => { let p: Vec<Vec<usize>> = (0..q).map(|_| rng.perm(n)).collect(); (0..n).map(|i| (0..q).map(|j| p[j][i] as f32 - 3.0).collect()).collect() }
    }
}

// ---------- independent writer for the index format (raw lists only) ----------

/// `layers[l][node]` is a sorted list; ids as raw delta coded u32
pub fn encode_index(layers: &[Vec<Vec<u32>>]) -> Vec<u8> {
    let mut body = Vec::new();
    let mut sizes = Vec::new();
    for layer in layers {
        let mut data: Vec<u8> = Vec::new();
        let mut ends = vec![0usize];
        for list in layer {
            data.push(list.len() as u8);
            let mut prev = 0u32;
            for (i, &x) in list.iter().enumerate() {
                let v = if i == 0 { x } else { x - prev };
                data.extend_from_slice(&v.to_le_bytes());
                prev = x;
            }
            ends.push(data.len());
        }
        let mut chunks: Vec<u8> = Vec::new();
        for c in 0..(ends.len() - 1) / 60 + 1 {
            let es = &ends[c * 60..ends.len().min((c + 1) * 60)];
            let initial = if c == 0 { 0 } else { es[0] };
            chunks.extend_from_slice(&(initial as u64).to_le_bytes());
            let mut prev = initial;
            for k in 0..60 {
                let dl: u16 = if k < es.len() { let x = es[k] - prev; prev = es[k]; x as u16 } else { 0xffff };
                chunks.extend_from_slice(&dl.to_le_bytes());
            }
        }
        let start = body.len();
        body.extend_from_slice(&(chunks.len() as u64).to_le_bytes());
        body.extend_from_slice(&chunks);
        body.extend_from_slice(&data);
        sizes.push(body.len() - start);
    }
    let counts: Vec<usize> = layers.iter().map(|l| l.len()).collect();
    let meta = format!(
        "granne{{\"compressed\":true,\"granne_version\":\"0.5.2\",\"layer_counts\":{:?},\"layer_sizes\":{:?},\"num_elements\":{},\"num_layers\":{},\"num_neighbors\":{},\"version\":2}}",
        counts, sizes, counts.last().unwrap_or(&0), counts.len(), layers.last().and_then(|l| l.get(0)).map_or(0, |n| n.len())
    );
    let mut out = meta.into_bytes();
    assert!(out.len() <= 1024);
    out.resize(1024, b' ');
    out.extend_from_slice(&body);
    out
}

/// independent reader for the index format (raw and stream-vbyte lists)
pub fn decode_index(b: &[u8]) -> Result<Vec<Vec<Vec<u32>>>, String> {
    if b.len() < 1024 || &b[..6] != b"granne" { return Err("no metadata".into()); }
    let meta = std::str::from_utf8(&b[6..1024]).map_err(|e| e.to_string())?;
    let nums = |key: &str| -> Result<Vec<usize>, String> {
        let i = meta.find(&format!("\"{}\":[", key)).ok_or(format!("{} missing", key))?;
        let s = &meta[i + key.len() + 4..];
        let s = &s[..s.find(']').ok_or("bad json")?];
        s.split(',').map(|x| x.trim()).filter(|x| !x.is_empty()).map(|x| x.parse::<usize>().map_err(|e| e.to_string())).collect()
    };
    let counts = nums("layer_counts")?;
    let sizes = nums("layer_sizes")?;
    if counts.len() != sizes.len() { return Err("layer_counts and layer_sizes differ in length".into()); }
    let mut pos = 1024;
    let mut res = Vec::new();
    for (li, (&c, &s)) in counts.iter().zip(&sizes).enumerate() {
        let l = b.get(pos..pos + s).ok_or(format!("layer {} outside of file", li))?;
        pos += s;
        if l.len() < 8 { return Err("layer too short".into()); }
        let ob = u64::from_le_bytes(l[..8].try_into().unwrap()) as usize;
        if ob % 128 != 0 || 8 + ob > l.len() { return Err(format!("bad offsets size {}", ob)); }
        let mut ends = Vec::new();
        for ch in l[8..8 + ob].chunks(128) {
            let mut cur = u64::from_le_bytes(ch[..8].try_into().unwrap()) as usize;
            for k in 0..60 {
                let dl = u16::from_le_bytes([ch[8 + 2 * k], ch[9 + 2 * k]]);
                if dl == 0xffff { break; }
                cur += dl as usize;
                ends.push(cur);
            }
        }
        if ends.len() != c + 1 { return Err(format!("layer {}: {} offsets for {} nodes", li, ends.len(), c)); }
        let data = &l[8 + ob..];
        if ends[0] != 0 || *ends.last().unwrap() != data.len() { return Err(format!("layer {}: offsets {}..{} for {} bytes", li, ends[0], ends.last().unwrap(), data.len())); }
        let mut layer = Vec::new();
        for w in ends.windows(2) {
            if w[0] > w[1] { return Err("decreasing offsets".into()); }
            layer.push(decode_list(&data[w[0]..w[1]])?);
        }
        res.push(layer);
    }
    Ok(res)
}

pub fn decode_list(e: &[u8]) -> Result<Vec<u32>, String> {
    if e.is_empty() { return Err("empty list encoding".into()); }
    let count = e[0] as usize;
    let e = &e[1..];
    let mut deltas = Vec::new();
    if e.len() == 4 * count {
        for c in e.chunks(4) { deltas.push(u32::from_le_bytes(c.try_into().unwrap())); }
    } else {
        let n = count.max(4);
        let ctl = (n + 3) / 4;
        if e.len() < ctl { return Err("short list encoding".into()); }
        let mut p = ctl;
        for i in 0..n {
            let len = ((e[i / 4] >> (2 * (i % 4))) & 3) as usize + 1;
            let mut v = 0u32;
            for k in 0..len { v |= (*e.get(p + k).ok_or("short list encoding")? as u32) << (8 * k); }
            p += len;
            deltas.push(v);
        }
        if p != e.len() { return Err("trailing bytes in list encoding".into()); }
        deltas.truncate(count);
    }
    let mut acc = 0u32;
    Ok(deltas.into_iter().enumerate().map(|(i, x)| { acc = if i == 0 { x } else { acc.wrapping_add(x) }; acc }).collect())
}

// ---------- graphs ----------
pub type Graph = Vec<Vec<Vec<u32>>>;

/// random layered graph with valid neighbor lists (sorted, distinct; `self_ok` allows self references)
pub fn rand_graph(rng: &mut Rng, sizes: &[usize], maxdeg: usize, self_ok: bool) -> Graph {
    sizes.iter().map(|&n| {
        let style = rng.below(4);
        (0..n).map(|i| {
            let deg = match style { 0 => rng.below(3), 1 => maxdeg.min(n), 2 => rng.below(maxdeg + 1), _ => if rng.chance(1, 3) { 0 } else { rng.range(1, 1 + maxdeg / 2) } };
            let mut s = std::collections::BTreeSet::new();
            for _ in 0..deg.min(maxdeg) {
                let j = if style == 3 && rng.chance(1, 2) { (i + 1) % n } else { rng.below(n) };
                if self_ok || j != i { s.insert(j as u32); }
            }
            s.into_iter().collect()
        }).collect()
    }).collect()
}

pub fn rand_sizes(rng: &mut Rng, max_layers: usize, max_n: usize) -> Vec<usize> {
    let l = rng.range(0, max_layers);
    let mut v: Vec<usize> = (0..l).map(|_| rng.range(1, max_n)).collect();
    v.sort();
    v
}

pub fn graph_of<I: granne::Index>(ix: &I) -> Graph {
    (0..ix.num_layers()).map(|l| (0..ix.layer_len(l)).map(|i| ix.get_neighbors(i, l).into_iter().map(|x| x as u32).collect()).collect()).collect()
}
pub fn sorted_graph(g: &Graph) -> Graph {
    g.iter().map(|l| l.iter().map(|n| { let mut n = n.clone(); n.sort(); n }).collect()).collect()
}
pub fn diff_graph(what: &str, a: &Graph, b: &Graph) -> R {
    if a.len() != b.len() { return Err(format!("{}: {} layers expected, got {}", what, a.len(), b.len())); }
    for l in 0..a.len() {
        if a[l].len() != b[l].len() { return Err(format!("{}: layer {}: {} nodes expected, got {}", what, l, a[l].len(), b[l].len())); }
        for i in 0..a[l].len() {
            if a[l][i] != b[l][i] { return Err(format!("{}: layer {} node {}: neighbors {:?} expected, got {:?}", what, l, i, a[l][i], b[l][i])); }
        }
    }
    Ok(())
}

/// best-first search, as specified: returns the kept results sorted by (distance, id)
pub fn ref_search(adj: &dyn Fn(usize) -> Vec<usize>, n: usize, entry: usize, dist: &dyn Fn(usize) -> f32, ms: usize) -> Vec<(f32, usize)> {
    let mut seen = vec![false; n];
    let mut queue = vec![(dist(entry), entry)];
    let mut kept: Vec<(f32, usize)> = Vec::new();
    seen[entry] = true;
    loop {
        if queue.is_empty() { break; }
        let k = (0..queue.len()).min_by(|&a, &b| queue[a].partial_cmp(&queue[b]).unwrap()).unwrap();
        let (d, i) = queue.swap_remove(k);
        if kept.len() >= ms && d > kept[kept.len() - 1].0 { break; }
        kept.push((d, i));
        kept.sort_by(|a, b| a.partial_cmp(b).unwrap());
        kept.truncate(ms);
        for j in adj(i) {
            if !seen[j] {
                seen[j] = true;
                if kept.len() < ms || dist(j) < kept[kept.len() - 1].0 { queue.push((dist(j), j)); }
            }
        }
    }
    kept
}

pub fn reachable(adj: &dyn Fn(usize) -> Vec<usize>, n: usize, entry: usize) -> Vec<bool> {
    let mut seen = vec![false; n];
    let mut st = vec![entry];
    seen[entry] = true;
    while let Some(i) = st.pop() { for j in adj(i) { if !seen[j] { seen[j] = true; st.push(j); } } }
    seen
}

// ---------- misc ----------
thread_local! { pub static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); pub static QUIET: std::cell::Cell<bool> = std::cell::Cell::new(false); }

pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(p) => Err(if let Some(s) = p.downcast_ref::<String>() { s.clone() } else if let Some(s) = p.downcast_ref::<&str>() { s.to_string() } else { "panic".into() }),
    }
}

pub fn scratch(tag: &str) -> std::path::PathBuf {
    use std::sync::atomic::*;
    static N: AtomicUsize = AtomicUsize::new(0);
    let p = std::env::var("CHECK_SCRATCH").unwrap_or_else(|_| "/tmp".into());
    let p = std::path::PathBuf::from(p).join(format!("gc-{}-{}-{}", std::process::id(), tag, N.fetch_add(1, Ordering::SeqCst)));
    std::fs::create_dir_all(&p).unwrap();
    p
}
pub struct Dir(pub std::path::PathBuf);
impl Dir { pub fn new(tag: &str) -> Self { Dir(scratch(tag)) } pub fn file(&self, n: &str) -> std::path::PathBuf { self.0.join(n) } }
impl Drop for Dir { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

/// bytes placed at a chosen offset from a 16-aligned address
pub struct At { buf: Vec<u128>, off: usize, len: usize }
impl At {
    pub fn new(bytes: &[u8], off: usize) -> Self {
        let mut buf = vec![0u128; (bytes.len() + off) / 16 + 2];
        let p = buf.as_mut_ptr() as *mut u8;
        unsafe { std::ptr::copy_nonoverlapping(bytes.as_ptr(), p.add(off), bytes.len()); }
        At { buf, off, len: bytes.len() }
    }
    pub fn bytes(&self) -> &[u8] { unsafe { std::slice::from_raw_parts((self.buf.as_ptr() as *const u8).add(self.off), self.len) } }
}

pub fn on_threads<T: Send>(n: usize, f: impl FnOnce() -> T + Send) -> T {
    rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap().install(f)
}
pub fn ensure(c: bool, msg: impl FnOnce() -> String) -> R { if c { Ok(()) } else { Err(msg()) } }
