extern crate rusty_machine;
extern crate rulinalg;
extern crate rand;
include!("common.rs");
use rusty_machine::linalg::{Matrix, BaseMatrix};
use rusty_machine::data::transforms::*;
use rusty_machine::data::transforms::minmax::MinMaxScaler;
use rusty_machine::data::transforms::standardize::Standardizer;
use rulinalg::norm::{MatrixNorm, Euclidean, Lp};
use rulinalg::matrix::MatrixSlice;
use std::collections::HashMap;

fn shapes(h: &H, minr: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for r in minr..8 { for c in 1..6 { v.push((r, c)) } }
    v.push((33, 3)); v.push((4, 17)); v.push((64, 2)); v.push((65, 2)); v.push((130, 1)); v.push((300, 2));
    for s in h.sizes(400) { if s >= minr { v.push((s, 2)) } v.push((minr.max(3), s)) }
    v
}
/// data of several kinds; a column may be a permutation, monotone, integral, tiny, shifted far off, ...
fn fill(r: usize, c: usize, k: u64, g: &mut G, hints: &[f64]) -> Vec<f64> {
    let mut v = vec![0.0; r * c];
    for j in 0..c {
        let kind = if k < 10 { (k + j as u64) % 10 } else { g.below(10) as u64 };
        let off = if g.below(3) == 0 { g.r(-50.0, 50.0) } else { 0.0 };
        for i in 0..r {
            v[i * c + j] = match kind {
                0 => g.r(-3.0, 3.0),
                1 => i as f64 + off,
                2 => -(i as f64) + off,
                3 => g.below(3) as f64 - 1.0,
                4 => g.r(-1e-3, 1e-3),
                5 => g.r(-1e4, 1e4),
                6 => -g.f() - 1.0,
                7 => if i == 0 { 5.0 } else { g.r(-1.0, 1.0) },
                8 => if i + 1 == r { -5.0 } else { g.r(-1.0, 1.0) },
                _ => g.w(-10.0, 10.0, hints),
            };
        }
    }
    v
}
fn col(v: &[f64], c: usize, j: usize) -> Vec<f64> { v.iter().skip(j).step_by(c).cloned().collect() }
fn constant(v: &[f64]) -> bool { v.iter().all(|x| *x == v[0]) }
const BAD: [f64; 3] = [std::f64::NAN, std::f64::INFINITY, std::f64::NEG_INFINITY];

fn c15(h: &mut H) {
    let reps = if h.thorough { 60 } else { 14 };
    for (r, c) in shapes(h, 1) { for k in 0..reps {
        let mut g = G(h.seed + k + 31 * r as u64 + 977 * c as u64);
        let mut d = fill(r, c, k, &mut g, &h.hints);
        let (lo, hi) = match k { 0 => (0.0, 1.0), 1 => (-1.0, 1.0), 2 => (-10.0, -2.0), 3 => (5.0, 7.5), _ => { let a = g.w(-5.0, 5.0, &h.hints); (a, a + g.r(0.01, 9.0)) } };
        let mode = if k % 7 == 5 { 1 } else if k % 7 == 6 { 2 } else { 0 };
        let (bi, bj) = (g.below(r), g.below(c));
        if mode == 1 { for i in 0..r { d[i * c + bj] = if k > 7 { 0.0 } else { 3.25 } } }
        if mode == 2 { d[bi * c + bj] = BAD[g.below(3)] }
        let def = k == 0;
        h.case(format!("minmax {}x{} #{} target=[{:?}, {:?}] {}", r, c, k, lo, hi, ["", "a constant column", "a non-finite entry"][mode]), || {
            let m = Matrix::new(r, c, d.clone());
            let ft = if def { MinMaxFitter::default() } else { MinMaxFitter::new(lo, hi) };
            let fit: Result<MinMaxScaler<f64>, _> = ft.fit(&m);
            let bad = mode == 2 || (0..c).any(|j| constant(&col(&d, c, j)));
            if bad { return ck(fit.is_err(), "data with a constant column or a non-finite entry were accepted") }
            let mut s = match fit { Ok(s) => s, Err(_) => return Err("good data were refused".into()) };
            let t = match s.transform(m) { Ok(t) => t, Err(_) => return Err("transform refused the fitted data".into()) };
            ck(t.rows() == r && t.cols() == c, "shape")?;
            for j in 0..c {
                let x = col(&d, c, j);
                let (mn, mx) = x.iter().fold((x[0], x[0]), |a, &b| (a.0.min(b), a.1.max(b)));
                let sc = (1.0 + lo.abs().max(hi.abs())) * (1.0 + mn.abs().max(mx.abs()) / (mx - mn));
                for i in 0..r {
                    let want = lo + (x[i] - mn) / (mx - mn) * (hi - lo);
                    if (t[[i, j]] - want).abs() > 1e-12 * sc { return Err(format!("entry ({}, {}) = {:?} went to {:?}, expected {:?}", i, j, x[i], t[[i, j]], want)) }
                }
            }
            let b = match s.inv_transform(t.clone()) { Ok(b) => b, Err(_) => return Err("inverse refused the transformed data".into()) };
            ck(b.rows() == r && b.cols() == c, "inverse shape")?;
            for j in 0..c { let x = col(&d, c, j); let big = x.iter().fold(1.0f64, |a, b| a.max(b.abs())); let rg = x.iter().fold((x[0], x[0]), |a, &b| (a.0.min(b), a.1.max(b))); for i in 0..r { if (b[[i, j]] - x[i]).abs() > 1e-11 * big * (1.0 + lo.abs().max(hi.abs()) * (rg.1 - rg.0) / (hi - lo)) { return Err(format!("the inverse gives {:?} for {:?}", b[[i, j]], x[i])) } } }
            // other data, further out than the fitted range
            let o: Vec<f64> = (0..(r + 1) * c).map(|_| g.r(-100.0, 100.0)).collect();
            let to = match s.transform(Matrix::new(r + 1, c, o.clone())) { Ok(t) => t, Err(_) => return Err("transform refused other data of the same width".into()) };
            for j in 0..c {
                let x = col(&d, c, j);
                let (mn, mx) = x.iter().fold((x[0], x[0]), |a, &b| (a.0.min(b), a.1.max(b)));
                for i in 0..r + 1 { let want = lo + (o[i * c + j] - mn) / (mx - mn) * (hi - lo); let sc = 1.0 + want.abs() + (hi - lo) * (1.0 + mx.abs()) / (mx - mn); if (to[[i, j]] - want).abs() > 1e-11 * sc { return Err(format!("other entry {:?} went to {:?}, expected {:?}", o[i * c + j], to[[i, j]], want)) } }
            }
            let bk = match s.inv_transform(to) { Ok(b) => b, Err(_) => return Err("inverse refused other data".into()) };
            for q in 0..o.len() { let j = q % c; let x = col(&d, c, j); let (mn, mx) = x.iter().fold((x[0], x[0]), |a, &b| (a.0.min(b), a.1.max(b))); let sc = (1.0 + o[q].abs() + mn.abs().max(mx.abs())) * (1.0 + lo.abs().max(hi.abs()) / (hi - lo)) * (1.0 + (mx - mn)); if (bk.data()[q] - o[q]).abs() > 1e-10 * sc { return Err(format!("the inverse gives {:?} for other entry {:?}", bk.data()[q], o[q])) } }
            for &w in &[0, c - 1, c + 1, 2 * c + 3] { if w == c { continue } ck(s.transform(Matrix::new(2, w, vec![0.5; 2 * w])).is_err(), "data of another width were accepted by transform")?; ck(s.inv_transform(Matrix::new(2, w, vec![0.5; 2 * w])).is_err(), "data of another width were accepted by inv_transform")?; }
            Ok(())
        });
    } }
}
fn c16(h: &mut H) {
    let reps = if h.thorough { 60 } else { 14 };
    for (r, c) in shapes(h, 0) { for k in 0..reps {
        let mut g = G(h.seed + k + 31 * r as u64 + 977 * c as u64);
        let mut d = fill(r, c, k, &mut g, &h.hints);
        let (me, sd) = match k { 0 => (0.0, 1.0), 1 => (1.0, 2.0), 2 => (-3.0, 0.5), _ => (g.w(-5.0, 5.0, &h.hints), g.r(0.05, 6.0)) };
        let mode = if k % 5 == 4 && r > 1 { 1 } else { 0 };
        if mode == 1 { let (i, j) = (g.below(r), g.below(c)); d[i * c + j] = BAD[g.below(3)] }
        let def = k == 0;
        h.case(format!("standardize {}x{} #{} mean={:?} stdev={:?} {}", r, c, k, me, sd, ["", "a non-finite entry"][mode]), || {
            let m = Matrix::new(r, c, d.clone());
            let ft = if def { StandardizerFitter::default() } else { StandardizerFitter::new(me, sd) };
            let fit: Result<Standardizer<f64>, _> = ft.fit(&m);
            if r < 2 || mode == 1 { return ck(fit.is_err(), "fewer than two rows or a non-finite entry were accepted") }
            let mut s = match fit { Ok(s) => s, Err(_) => return Err("good data were refused".into()) };
            for &w in &[0, c - 1, c + 1, 2 * c + 3] { if w == c { continue } ck(s.transform(Matrix::new(2, w, vec![0.5; 2 * w])).is_err(), "data of another width were accepted by transform")?; ck(s.inv_transform(Matrix::new(2, w, vec![0.5; 2 * w])).is_err(), "data of another width were accepted by inv_transform")?; }
            let st: Vec<(f64, f64)> = (0..c).map(|j| { let x = col(&d, c, j); let m = x.iter().sum::<f64>() / r as f64; (m, x.iter().map(|y| (y - m) * (y - m)).sum::<f64>() / (r as f64 - 1.0)) }).collect();
            let flat: Vec<bool> = (0..c).map(|j| constant(&col(&d, c, j))).collect();
            let t = match s.transform(m) { Ok(t) => t, Err(_) => return Err("transform refused the fitted data".into()) };
            ck(t.rows() == r && t.cols() == c, "shape")?;
            for j in 0..c { if flat[j] { continue } for i in 0..r {
                let (m, v) = st[j];
                let want = (d[i * c + j] - m) / v.sqrt() * sd + me;
                if (t[[i, j]] - want).abs() > 1e-9 * (1.0 + want.abs()) * (1.0 + m.abs() / v.sqrt()) { return Err(format!("entry ({}, {}) = {:?} went to {:?}, expected {:?}", i, j, d[i * c + j], t[[i, j]], want)) }
            } }
            let b = match s.inv_transform(t.clone()) { Ok(b) => b, Err(_) => return Err("inverse refused the transformed data".into()) };
            for j in 0..c { if flat[j] { continue } for i in 0..r { let x = d[i * c + j]; if (b[[i, j]] - x).abs() > 1e-9 * (1.0 + x.abs() + st[j].0.abs() + st[j].1.sqrt() * (1.0 + me.abs() / sd)) { return Err(format!("the inverse gives {:?} for {:?}", b[[i, j]], x)) } } }
            let o: Vec<f64> = (0..(r + 1) * c).map(|_| g.r(-30.0, 30.0)).collect();
            let to = match s.transform(Matrix::new(r + 1, c, o.clone())) { Ok(t) => t, Err(_) => return Err("transform refused other data of the same width".into()) };
            for j in 0..c { if flat[j] { continue } for i in 0..r + 1 {
                let (m, v) = st[j];
                let want = (o[i * c + j] - m) / v.sqrt() * sd + me;
                if (to[[i, j]] - want).abs() > 1e-9 * (1.0 + want.abs()) * (1.0 + m.abs() / v.sqrt()) { return Err(format!("other entry {:?} went to {:?}, expected {:?}", o[i * c + j], to[[i, j]], want)) }
            } }
            Ok(())
        });
    } }
}
struct Weighted;
impl<'a> MatrixNorm<f64, MatrixSlice<'a, f64>> for Weighted { fn norm(&self, m: &MatrixSlice<'a, f64>) -> f64 { let mut s = 0.0; for i in 0..m.rows() { for j in 0..m.cols() { s += (j as f64 + 1.0) * m[[i, j]].abs() } } s } }
fn c17(h: &mut H) {
    let reps = if h.thorough { 60 } else { 14 };
    for (r, c) in shapes(h, 0) { for k in 0..reps { for which in 0..3 {
        let mut g = G(h.seed + k + 31 * r as u64 + 977 * c as u64);
        let mut d = fill(r, c, k, &mut g, &h.hints);
        for i in 0..r { match g.below(6) { 0 => for j in 0..c { d[i * c + j] = 0.0 }, 1 => { let f = (10f64).powi(g.below(200) as i32 - 100); for j in 0..c { d[i * c + j] = g.r(-1.0, 1.0) * f } }, _ => {} } }
        let mode = if k % 5 == 4 && r > 0 { 1 } else { 0 };
        if mode == 1 { let (i, j) = (if g.below(2) == 0 { r - 1 } else { g.below(r) }, g.below(c)); d[i * c + j] = BAD[g.below(3)] }
        h.case(format!("normalize {}x{} #{} norm={} {}", r, c, k, ["Euclidean", "L1", "weighted"][which], ["", "a non-finite entry"][mode]), || {
            let m = Matrix::new(r, c, d.clone());
            let t = match which { 0 => Normalizer::<f64, Euclidean>::default().transform(m), 1 => Normalizer::new(Lp::Integer(1)).transform(m), _ => Normalizer::new(Weighted).transform(m) };
            if mode == 1 { return ck(t.is_err(), "a row with a non-finite norm was accepted") }
            let t = match t { Ok(t) => t, Err(_) => return Err("finite rows were refused".into()) };
            ck(t.rows() == r && t.cols() == c, "shape")?;
            for i in 0..r {
                let x = &d[i * c..i * c + c];
                let n: f64 = match which { 0 => x.iter().map(|y| y * y).sum::<f64>().sqrt(), 1 => x.iter().map(|y| y.abs()).sum(), _ => x.iter().enumerate().map(|(j, y)| (j as f64 + 1.0) * y.abs()).sum() };
                for j in 0..c { let want = if n == 0.0 { x[j] } else { x[j] / n }; if !((t[[i, j]] - want).abs() <= 1e-12) { return Err(format!("entry ({}, {}) of row {:?} became {:?}, expected {:?}", i, j, &x[..c.min(6)], t[[i, j]], want)) } }
            }
            Ok(())
        });
    } } }
}

fn all_scripts<F: FnMut(&[u64]) -> Vec<u64>>(max: usize, mut run: F) -> Option<usize> {
    let mut cur: Vec<u64> = vec![];
    let mut count = 0;
    loop {
        let w = run(&cur);
        count += 1;
        if count > max { return None }
        let mut full: Vec<u64> = cur.clone();
        while full.len() < w.len() { full.push(0) }
        full.truncate(w.len());
        let mut i = w.len();
        loop {
            if i == 0 { return Some(count) }
            i -= 1;
            if full[i] + 1 < w[i] { full[i] += 1; full.truncate(i + 1); break }
        }
        cur = full;
    }
}
fn widths() -> Vec<u64> { rand::harness_trace().iter().map(|t| t.1 - t.0).collect() }
fn shuffled(r: usize, c: usize, rep: bool) -> (Matrix<u64>, Option<Matrix<u64>>) {
    let m = Matrix::new(r, c, (0..r * c).map(|q| { let i = q / c; (if rep { i / 2 } else { i }) as u64 * 1000 + (q % c) as u64 }).collect::<Vec<_>>());
    let t = shuffle::Shuffler::default().transform(m.clone()).ok();
    (m, t)
}
fn rows_of(m: &Matrix<u64>) -> Vec<Vec<u64>> { (0..m.rows()).map(|i| (0..m.cols()).map(|j| m[[i, j]]).collect()).collect() }
fn c18(h: &mut H) {
    let check = |r: usize, c: usize, rep: bool| -> R {
        let (m, t) = shuffled(r, c, rep);
        let t = match t { Some(t) => t, None => return Err("shuffling returned an error".into()) };
        ck(t.rows() == r && t.cols() == c, "shape")?;
        let (mut a, mut b) = (rows_of(&m), rows_of(&t));
        a.sort(); b.sort();
        ck(a == b, "the rows are not the given ones")
    };
    for c in 0..5 { for n in 0..6 { for &rep in &[false, true] {
        let mut scripts: Vec<Vec<u64>> = vec![];
        let _ = catch_unwind(AssertUnwindSafe(|| all_scripts(800, |s| { scripts.push(s.to_vec()); rand::harness_script(s.to_vec()); shuffled(n, c, rep); widths() })));
        for s in scripts { h.case(format!("shuffle {}x{} repeats={} draws={:?}", n, c, rep, s), || { rand::harness_script(s.clone()); check(n, c, rep) }) }
    } } }
    let s0 = h.seed;
    let mut sz: Vec<usize> = (6..70).chain(vec![127, 128, 129, 200, 255, 256, 257, 300, 512, 1000, 1025]).collect();
    sz.extend(h.sizes(5000));
    for n in sz.clone() { for s in 0..if h.thorough { 20 } else { 4 } { for &c in &[1usize, 2, 5, 33] { h.case(format!("shuffle {}x{} seed={}", n, c, s0 * 1000 + s), || { rand::harness_seed(s0 * 1000 + s); check(n, c, s == 1) }) } } }
    for n in 0..8 {
        h.case(format!("shuffle {} rows, all draw histories", n), || {
            let mut cnt: HashMap<Vec<u64>, f64> = HashMap::new();
            let c = all_scripts(200_000, |s| { rand::harness_script(s.to_vec()); let (_, t) = shuffled(n, 2, false); let w = widths(); let p: f64 = w.iter().map(|&x| 1.0 / x as f64).product(); *cnt.entry(t.unwrap().data().iter().step_by(2).cloned().collect()).or_insert(0.0) += p; w });
            if c.is_none() || rand::harness_other() > 0 { return Ok(()) }
            let f: f64 = (1..n as u64 + 1).map(|x| x as f64).product();
            ck(cnt.len() == f as usize, &format!("{} of {} orders occur", cnt.len(), f))?;
            for (k, v) in &cnt { if (v * f - 1.0).abs() > 1e-9 { return Err(format!("order {:?} has probability {} instead of 1/{}", k, v, f)) } }
            Ok(())
        });
    }
    for n in sz {
        h.case(format!("shuffle {} rows, number of draw histories", n), || {
            rand::harness_script(vec![0; 2 * n + 4]);
            shuffled(n, 1, false);
            let w1 = widths();
            let mut g = G(n as u64);
            rand::harness_script((0..2 * n + 4).map(|_| g.u() >> 8).collect());
            shuffled(n, 1, false);
            if rand::harness_other() > 0 || widths() != w1 { return Ok(()) }
            let mut need: HashMap<u64, i64> = HashMap::new();
            let mut fac = |mut x: u64, d: i64| { let mut p = 2; while p * p <= x { while x % p == 0 { *need.entry(p).or_insert(0) += d; x /= p } p += 1 } if x > 1 { *need.entry(x).or_insert(0) += d } };
            for i in 2..n as u64 + 1 { fac(i, 1) }
            for &x in &w1 { fac(x, -1) }
            ck(need.values().all(|&v| v <= 0), &format!("{}! does not divide the number of draw histories (widths {:?}...)", n, &w1[..w1.len().min(12)]))
        });
    }
}
fn main() { run(&[("C15", c15 as fn(&mut H)), ("C16", c16), ("C17", c17), ("C18", c18)]) }
