use crate::util::*;
use crate::*;
use granne::{angular, angular_int, Dist, ElementContainer};

pub fn sections(p: &str, v: &mut Vec<Section>) {
    match p {
        "C16" => {
            v.push(sec("int-exact", "random and extreme i8 vectors of all dimensions 0..=300, exact formula", 6000, 300000, int_exact));
            v.push(sec("int-extreme", "all-extreme i8 vectors of dimension up to 131072", 14, 14, int_extreme));
            v.push(sec("float-nonneg", "random and extreme f32 vectors: returned distances are numbers and not negative", 20000, 1000000, float_nonneg));
            v.push(sec("containers", "dist, dists and dist_to_element of collections agree", 1500, 60000, containers));
        }
        "C17" => {
            v.push(sec("quantize", "random vectors over all magnitudes", 40000, 2000000, quantize));
            v.push(sec("quantize-mantissas", "single component vectors: a range of mantissas times exponents", 512, 8192, mantissas));
            v.push(sec("quantize-special", "zeros, subnormals, ties, one dominating component", 4000, 100000, special));
        }
        "C25" => {
            v.push(sec("accuracy", "f32 vectors of all dimensions 0..=300, dense, sparse, one-hot, cancelling and tiny: distance against the exact dot product", 30000, 1000000, accuracy));
            v.push(sec("accuracy-large", "dimensions of 4000 to 4194304", 16, 400, accuracy_large));
        }
        _ => {}
    }
}
/// sum of exact products (two f32 multiply exactly in f64), with compensation, and the sum of their magnitudes
fn exact_dot(x: &[f32], y: &[f32]) -> (f64, f64) {
    let (mut s, mut c, mut w) = (0f64, 0f64, 0f64);
    for (&a, &b) in x.iter().zip(y) {
        let p = a as f64 * b as f64;
        let t = s + p;
        c += if s.abs() >= p.abs() { (s - t) + p } else { (p - t) + s };
        s = t;
        w += p.abs();
    }
    (s + c, w)
}
fn accuracy_check(x: &[f32], y: &[f32]) -> R {
    let n = x.len();
    let (e, w) = exact_dot(x, y);
    let want = (1.0 - e).max(0.0);
    let tol = ((n / 32 + n % 32 + 33) as f64 * (1.0 + w) / 8388608.0) * (1.0 + 1e-9) + 1e-12 + 1e-37;
    let d = catch(|| angular::Vector(x.to_vec().into()).dist(&angular::Vector(y.to_vec().into())).into_inner()).map_err(|_| "no distance".to_string())?;
    ensure(!d.is_nan() && (d as f64 - want).abs() <= tol, || format!("distance {}, exact dot product {} gives {}, tolerance {}", d, e, want, tol))
}
fn within_norm(mut x: Vec<f32>, c: &mut Ctx) -> Vec<f32> {
    let n: f64 = x.iter().map(|&a| a as f64 * a as f64).sum::<f64>().sqrt();
    let t = match c.rng.below(4) { 0 => 1.73, 1 => 1.0, 2 => if n <= 1.0 { return x } else { 1.0 }, _ => 0.5 };
    if n > 0.0 { for a in x.iter_mut() { *a = (*a as f64 / n * t) as f32; } }
    x
}
fn acc_pair(c: &mut Ctx, n: usize, s: usize) -> (Vec<f32>, Vec<f32>) {
    let mut x: Vec<f32> = vec![0.0; n];
    match s {
        0 => for a in x.iter_mut() { *a = c.rng.unit() - 0.5 },
        1 => if n > 0 { let i = if c.rng.chance(1, 2) { n - 1 - c.rng.below(n.min(40)) } else { c.rng.below(n) }; x[i] = 1.0 },
        2 => for _ in 0..4 { if n > 0 { let i = c.rng.below(n); x[i] = c.rng.unit() - 0.5 } },
        3 => for a in x.iter_mut() { *a = 1.0 },
        4 => for (i, a) in x.iter_mut().enumerate() { *a = if i % 2 == 0 { 1.0 } else { -1.0 } },
        5 => for a in x.iter_mut() { *a = (c.rng.unit() - 0.5) * 2f32.powi(-(c.rng.below(140) as i32)) },
        _ => { let t = 10f32.powi(-(c.rng.below(44) as i32)); for a in x.iter_mut() { *a = (c.rng.unit() - 0.5) * t } return (x.clone(), x.iter().map(|a| -a).collect()) }
    }
    let x = within_norm(x, c);
    let y = match c.rng.below(4) { 0 => x.clone(), 1 => x.iter().map(|a| -a).collect(), 2 => { let mut y = x.clone(); if n > 1 { let (i, j) = (c.rng.below(n), c.rng.below(n)); y.swap(i, j); } y } _ => { let y = (0..n).map(|_| c.rng.unit() - 0.5).collect(); within_norm(y, c) } };
    (x, y)
}
fn accuracy(c: &mut Ctx, idx: u64) -> R {
    let n = (idx % 301) as usize;
    let s = c.rng.below(7);
    let (x, y) = acc_pair(c, n, s);
    c.case(format!("{:?} {:?}", x, y));
    accuracy_check(&x, &y)
}
fn accuracy_large(c: &mut Ctx, idx: u64) -> R {
    let n = if idx % 8 == 7 { 4194304 } else { [4096usize, 4097, 65535, 100003, 262144, 8191, 1000000][(idx % 8) as usize] };
    let s = c.rng.below(7);
    c.case(format!("dimension {} kind {}", n, s));
    let (x, y) = acc_pair(c, n, s);
    accuracy_check(&x, &y)
}

fn iv(x: &[i8]) -> angular_int::Vector<'_> { angular_int::Vector(x.into()) }
fn int_check(x: &[i8], y: &[i8]) -> R {
    let (mut r, mut a, mut b) = (0i64, 0i64, 0i64);
    for (&p, &q) in x.iter().zip(y) { r += p as i64 * q as i64; a += p as i64 * p as i64; b += q as i64 * q as i64; }
    let d = iv(x).dist(&iv(y)).into_inner();
    let e = iv(y).dist(&iv(x)).into_inner();
    ensure(d == e, || format!("not symmetric: {} {}", d, e))?;
    ensure(d >= 0.0 && !d.is_nan(), || format!("distance {}", d))?;
    if a == 0 || b == 0 { return ensure(d == 1.0, || format!("distance to a zero vector is {}", d)); }
    let f = r as f32 / ((a as f32).sqrt() * (b as f32).sqrt());
    let want = (1.0 - f).max(0.0);
    ensure((d - want).abs() <= 4.0 * f32::EPSILON, || format!("distance {}, exact r {} dx {} dy {} give {}", d, r, a, b, want))
}
fn int_exact(c: &mut Ctx, idx: u64) -> R {
    let n = (idx % 301) as usize;
    let s = c.rng.below(4);
    let mut g = |c: &mut Ctx| -> Vec<i8> { (0..n).map(|_| match s { 0 => c.rng.below(256) as u8 as i8, 1 => *c.rng.pick(&[-128i8, 127, -127, 0]), 2 => if c.rng.chance(1, 10) { 1 } else { 0 }, _ => c.rng.below(21) as i8 - 10 }).collect() };
    let x = g(c);
    let y = if c.rng.chance(1, 6) { x.clone() } else if c.rng.chance(1, 6) { vec![0; n] } else { g(c) };
    c.case(format!("{:?} {:?}", x, y));
    int_check(&x, &y)
}
fn int_extreme(c: &mut Ctx, idx: u64) -> R {
    let n = [131072usize, 131071, 131040, 65536, 100000, 131056, 4096][idx as usize % 7];
    let (p, q) = if idx < 7 { (-128i8, -128i8) } else { (-128, 127) };
    c.case(format!("dim {} all {} against all {}", n, p, q));
    // -128 * -128 * 131072 == 2^31 does not fit: the bound holds for quantized vectors, whose components are at least -127
    let (p, q) = (p.max(-127), q.max(-127));
    let x = vec![p; n];
    let mut y = vec![q; n];
    for k in 0..50.min(n) { let i = c.rng.below(n); y[i] = (k as i8) - 25; }
    int_check(&x, &y)
}
fn special_f(rng: &mut Rng) -> f32 { *rng.pick(&[0.0f32, -0.0, 1e-45, -1e-45, f32::MIN_POSITIVE, 1e-20, 1e20, -1e20, 3e18, f32::MAX, f32::MIN, 1.0, -1.0, 1e-38, 5e-39]) }
fn fvec(c: &mut Ctx, n: usize) -> Vec<f32> {
    let s = c.rng.below(5);
    let e = c.rng.below(60) as i32 - 30;
    (0..n).map(|_| match s { 0 => c.rng.unit() - 0.5, 1 => special_f(&mut c.rng), 2 => (c.rng.unit() - 0.5) * 2f32.powi(e), 3 => if c.rng.chance(1, 8) { c.rng.unit() } else { 0.0 }, _ => (c.rng.unit() - 0.5) * 2f32.powi(c.rng.below(250) as i32 - 125) }).collect()
}
fn float_nonneg(c: &mut Ctx, idx: u64) -> R {
    let n = (idx % 130) as usize;
    let x = fvec(c, n);
    let mut y = if c.rng.chance(1, 4) { x.clone() } else { fvec(c, n) };
    if c.rng.chance(1, 8) { for v in y.iter_mut() { *v = -*v; } }
    c.case(format!("{:?} {:?}", x, y));
    let (u, v) = if c.rng.chance(2, 3) { (angular::Vector::from(x.clone()), angular::Vector::from(y.clone())) } else { (angular::Vector(x.clone().into()), angular::Vector(y.clone().into())) };
    // a pair for which no distance can be returned (overflow) panics
    match catch(|| u.dist(&v).into_inner()) {
        Ok(d) => { ensure(!d.is_nan() && d >= 0.0, || format!("distance {}", d))?; c.nontrivial = true; }
        Err(_) => {
            let big = x.iter().chain(&y).any(|&v| v.abs() > 1e9);
            ensure(big, || "no distance for moderate vectors".into())?;
        }
    }
    if x.iter().chain(&y).all(|v| v.abs() < 1e9) && x.iter().all(|&v| v == 0.0) { ensure(u.dist(&v).into_inner() == 1.0, || "zero vector".into())?; }
    Ok(())
}
fn containers(c: &mut Ctx, idx: u64) -> R {
    let n = c.rng.range(1, 20);
    let dim = c.rng.range(1, 50);
    let raw: Vec<Vec<f32>> = (0..n).map(|_| (0..dim).map(|_| c.rng.unit() - 0.5).collect()).collect();
    c.case(format!("{:?}", raw));
    macro_rules! go { ($m:ident) => {{
        let mut v = $m::Vectors::new();
        for r in &raw { v.push(&$m::Vector::from(r.clone())); }
        let i = c.rng.below(n);
        let others: Vec<usize> = (0..c.rng.below(30)).map(|_| c.rng.below(n)).collect();
        let e = v.get(i);
        let ds = v.dists(i, &others);
        ensure(ds.len() == others.len(), || "dists length".into())?;
        for (k, &j) in others.iter().enumerate() {
            let d = v.get_element(i).dist(&v.get_element(j));
            ensure(ds[k] == d && v.dist(i, j) == d && v.dist_to_element(j, &e) == v.dist(j, i), || format!("distance {} {}: {} {} {}", i, j, ds[k], d, v.dist(i, j)))?;
            ensure(d.into_inner() >= 0.0, || "negative".into())?;
        }
        let list: Vec<$m::Vector<'static>> = raw.iter().map(|r| $m::Vector::from(r.clone())).collect();
        let _ = list;
    }} }
    if idx % 2 == 0 { go!(angular) } else { go!(angular_int) }
    Ok(())
}

fn qcheck(x: &[f32]) -> R {
    let q = angular_int::Vector::from(x.to_vec()).into_vec();
    ensure(q.len() == x.len(), || format!("dimension {} became {}", x.len(), q.len()))?;
    let max = x.iter().fold(0f32, |a, &b| a.max(b.abs()));
    for i in 0..x.len() {
        ensure(q[i] >= -127, || format!("component {} quantized to {}", x[i], q[i]))?;
        ensure(q[i] == 0 || (q[i] > 0) == (x[i] > 0.0) && x[i] != 0.0, || format!("component {} quantized to {}", x[i], q[i]))?;
        if max > 0.0 && x[i].abs() == max { ensure(q[i].abs() >= 126, || format!("largest component {} quantized to {}", x[i], q[i]))?; }
        if max == 0.0 { ensure(q[i] == 0, || "zero vector".into())?; }
    }
    let mut o: Vec<usize> = (0..x.len()).collect();
    o.sort_by(|&a, &b| x[a].partial_cmp(&x[b]).unwrap());
    for w in o.windows(2) { ensure(q[w[0]] <= q[w[1]], || format!("order of {} and {} lost: {} {}", x[w[0]], x[w[1]], q[w[0]], q[w[1]]))?; }
    Ok(())
}
fn quantize(c: &mut Ctx, idx: u64) -> R {
    let n = (idx % 40) as usize;
    let e = if idx % 3 == 0 { 0 } else { c.rng.below(260) as i32 - 141 };
    let x: Vec<f32> = (0..n).map(|_| { let v = (c.rng.unit() - 0.5) * 2f32.powi(e.min(118)); if idx % 5 == 0 { v * 2f32.powi(-(c.rng.below(20) as i32)) } else { v } }).collect();
    c.case(format!("{:?}", x));
    qcheck(&x)
}
fn mantissas(c: &mut Ctx, idx: u64) -> R {
    let exps: &[u32] = &[0, 1, 2, 7, 60, 118, 119, 120, 126, 127, 128, 200, 245];
    c.case(format!("mantissas from {}", idx << 14));
    let step = if c.thorough { 64 } else { 4096 };
    let mut m = (idx as u32 % 512) << 14;
    m += (idx as u32 / 512) % step;
    let end = ((idx as u32 % 512) + 1) << 14;
    while m < end {
        for &e in exps { let x = f32::from_bits(e << 23 | m); qcheck(&[x]).map_err(|s| format!("[{:e}]: {}", x, s))?; qcheck(&[-x, x / 2.0]).map_err(|s| format!("[{:e}, {:e}]: {}", -x, x / 2.0, s))?; }
        m += step;
    }
    Ok(())
}
fn special(c: &mut Ctx, idx: u64) -> R {
    let n = c.rng.below(9);
    let x: Vec<f32> = (0..n).map(|_| match idx % 4 { 0 => 0.0, 1 => { let v = special_f(&mut c.rng); if v.abs() > 1e36 { 9e35 * v.signum() } else { v } }, 2 => *c.rng.pick(&[1.0f32, -1.0, 0.99999994, 1.0 / 127.0, 126.0 / 127.0]), _ => if c.rng.chance(1, 3) { 9.9e35 } else { c.rng.unit() } }).collect();
    c.case(format!("{:?}", x));
    qcheck(&x)
}
