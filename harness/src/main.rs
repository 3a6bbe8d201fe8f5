mod util;
mod search;
mod build;
mod store;
mod vecs;
mod num;
mod rw;
mod text;
use std::collections::HashSet;
use std::sync::atomic::*;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use util::*;

pub struct Ctx { pub rng: Rng, pub thorough: bool, pub desc: String, pub nontrivial: bool }
impl Ctx {
    /// describes the case under test (written to the replay file)
    pub fn case(&mut self, s: String) { self.desc = s; }
}
pub type CaseFn = fn(&mut Ctx, u64) -> R;
#[derive(Clone)]
pub struct Section { pub name: &'static str, pub rule: &'static str, pub quick: u64, pub thorough: u64, pub f: CaseFn }
pub fn sec(name: &'static str, rule: &'static str, quick: u64, thorough: u64, f: CaseFn) -> Section { Section { name, rule, quick, thorough, f } }

fn sections(p: &str) -> Vec<Section> {
    let mut v = Vec::new();
    search::sections(p, &mut v);
    build::sections(p, &mut v);
    store::sections(p, &mut v);
    vecs::sections(p, &mut v);
    num::sections(p, &mut v);
    rw::sections(p, &mut v);
    text::sections(p, &mut v);
    v
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"'); o
}

fn run_case(s: &Section, seed: u64, idx: u64, thorough: bool) -> (R, String, bool) {
    let mut h = 0u64;
    for b in s.name.bytes() { h = h.wrapping_mul(131).wrapping_add(b as u64); }
    let mut c = Ctx { rng: Rng::new(seed, h, idx), thorough, desc: String::new(), nontrivial: true };
    let r = catch(|| (s.f)(&mut c, idx));
    let r = match r { Ok(r) => r, Err(p) => Err(format!("panicked: {}", p)) };
    (r, c.desc, c.nontrivial)
}

fn clip(s: &str, n: usize) -> String { if s.len() <= n { s.to_string() } else { let mut k = n; while !s.is_char_boundary(k) { k -= 1; } format!("{}... ({} bytes)", &s[..k], s.len()) } }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let prop = get("--property").expect("--property");
    let seed: u64 = get("--seed").map_or(1, |s| s.parse().unwrap());
    let thorough = get("--tier").map_or(false, |t| t == "thorough");
    let budget: f64 = get("--budget").map_or(40.0, |s| s.parse().unwrap());
    let out = get("--out");
    let scale: u64 = get("--scale").map_or(1, |s| s.parse().unwrap());
    let serial = a.iter().any(|x| x == "--serial");
    let hang: u64 = get("--hang").map_or(60, |s| s.parse().unwrap());
    std::panic::set_hook(Box::new(|_| {}));
    let secs = sections(&prop);
    if let Some(name) = get("--section") {
        let idx: u64 = get("--case").expect("--case").parse().unwrap();
        let s = secs.iter().find(|s| s.name == name).expect("no such section").clone();
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || { let r = run_case(&s, seed, idx, thorough); let _ = tx.send(r); });
        match rx.recv_timeout(Duration::from_secs(hang)) {
            Ok((Ok(()), d, _)) => { println!("case passed: {}", d); std::process::exit(0) }
            Ok((Err(e), d, _)) => { println!("case failed: {}\ninput: {}", e, d); std::process::exit(1) }
            Err(_) => { println!("case did not terminate within {} s", hang); std::process::exit(1) }
        }
    }
    let start = Instant::now();
    struct SecState { next: AtomicU64, total: u64, done: AtomicU64 }
    let states: Arc<Vec<SecState>> = Arc::new(secs.iter().map(|s| SecState { next: AtomicU64::new(0), total: scale * if thorough { s.thorough } else { s.quick }, done: AtomicU64::new(0) }).collect());
    let secs = Arc::new(secs);
    let fail: Arc<Mutex<Option<(String, u64, String, String)>>> = Arc::new(Mutex::new(None));
    let seen: Arc<Mutex<HashSet<u64>>> = Arc::new(Mutex::new(HashSet::new()));
    let samples: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(Vec::new()));
    let nthreads = if serial { 1 } else { 8 };
    let running: Arc<Mutex<Vec<Option<(usize, u64, Instant)>>>> = Arc::new(Mutex::new(vec![None; nthreads]));
    let finished = Arc::new(AtomicUsize::new(0));
    for t in 0..nthreads {
        let (secs, states, fail, seen, samples, running, finished) = (secs.clone(), states.clone(), fail.clone(), seen.clone(), samples.clone(), running.clone(), finished.clone());
        std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            // sections take turns
            let mut k = t;
            loop {
                if fail.lock().unwrap().is_some() { break; }
                let mut found = None;
                for o in 0..secs.len() {
                    let i = (k + o) % secs.len();
                    // the first half of the budget is for everyone, later only unfinished sections' first cases
                    if start.elapsed().as_secs_f64() > budget && states[i].next.load(Ordering::SeqCst) > 0 { continue; }
                    let n = states[i].next.fetch_add(1, Ordering::SeqCst);
                    if n < states[i].total { found = Some((i, n)); break; }
                }
                k += 1;
                let (i, n) = match found { None => break, Some(x) => x };
                running.lock().unwrap()[t] = Some((i, n, Instant::now()));
                if serial { eprintln!("CASE {} {}", secs[i].name, n); }
                let (r, d, nt) = run_case(&secs[i], seed, n, thorough);
                running.lock().unwrap()[t] = None;
                states[i].done.fetch_add(1, Ordering::SeqCst);
                if nt {
                    use std::hash::{Hash, Hasher};
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    (i, &d).hash(&mut h);
                    seen.lock().unwrap().insert(h.finish());
                }
                if n == 1 || (n == 0 && states[i].total == 1) { samples.lock().unwrap().push(format!("{} #{}: {}", secs[i].name, n, clip(&d, 300))); }
                if let Err(e) = r {
                    let mut f = fail.lock().unwrap();
                    if f.is_none() { *f = Some((secs[i].name.to_string(), n, e, d)); }
                    break;
                }
            }
            finished.fetch_add(1, Ordering::SeqCst);
        }).unwrap();
    }
    loop {
        std::thread::sleep(Duration::from_millis(20));
        if finished.load(Ordering::SeqCst) == nthreads { break; }
        if fail.lock().unwrap().is_some() { std::thread::sleep(Duration::from_millis(300)); break; }
        let hung = running.lock().unwrap().iter().flatten().find(|x| x.2.elapsed().as_secs() > hang).cloned();
        if let Some((i, n, _)) = hung {
            *fail.lock().unwrap() = Some((secs[i].name.to_string(), n, format!("did not terminate within {} s", hang), String::new()));
            break;
        }
    }
    let evals: u64 = states.iter().map(|s| s.done.load(Ordering::SeqCst)).sum();
    let f = fail.lock().unwrap().clone();
    let mut o = String::from("{");
    o.push_str(&format!("\"evaluations\":{},\"distinct_nontrivial\":{},", evals, seen.lock().unwrap().len()));
    o.push_str(&format!("\"sections\":[{}],", secs.iter().zip(states.iter()).map(|(s, st)| format!("{{\"name\":{},\"rule\":{},\"planned\":{},\"done\":{}}}", jstr(s.name), jstr(s.rule), st.total, st.done.load(Ordering::SeqCst))).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"samples\":[{}],", samples.lock().unwrap().iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"wall_s\":{:.2},", start.elapsed().as_secs_f64()));
    match &f {
        None => o.push_str("\"failure\":null}"),
        Some((s, n, e, d)) => o.push_str(&format!("\"failure\":{{\"property\":{},\"section\":{},\"seed\":{},\"case\":{},\"tier\":{},\"what\":{},\"input\":{}}}}}", jstr(&prop), jstr(s), seed, n, jstr(if thorough { "thorough" } else { "quick" }), jstr(&clip(e, 4000)), jstr(&clip(d, 20000)))),
    }
    if let Some(p) = out { std::fs::write(p, &o).unwrap(); } else { println!("{}", o); }
    std::process::exit(if f.is_some() { 1 } else { 0 });
}
