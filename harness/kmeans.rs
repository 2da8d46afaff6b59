extern crate rusty_machine;
extern crate rulinalg;
extern crate rand;
include!("common.rs");
use rusty_machine::linalg::{Matrix, Vector, BaseMatrix};
use rusty_machine::learning::{UnSupModel, LearningResult};
use rusty_machine::learning::k_means::*;

fn d2(x: &[f64], m: &[f64]) -> f64 { x.iter().zip(m).map(|(a, b)| (a - b) * (a - b)).fold(0.0, |s, v| s + v) }
fn row(x: &[f64], c: usize, i: usize) -> &[f64] { &x[i * c..(i + 1) * c] }
#[derive(Debug)]
struct Fixed(Vec<f64>);
impl Initializer for Fixed { fn init_centroids(&self, k: usize, x: &Matrix<f64>) -> LearningResult<Matrix<f64>> { Ok(Matrix::new(k, x.cols(), self.0.clone())) } }
#[derive(Debug)]
struct Wrong(usize, usize);
impl Initializer for Wrong { fn init_centroids(&self, _: usize, _: &Matrix<f64>) -> LearningResult<Matrix<f64>> { Ok(Matrix::new(self.0, self.1, vec![0.5; self.0 * self.1])) } }

fn nearest(p: &Vector<usize>, x: &[f64], n: usize, c: usize, m: &[f64], k: usize) -> R {
    if p.size() != n { return Err(format!("{} predictions for {} rows", p.size(), n)) }
    for i in 0..n {
        if p[i] >= k { return Err(format!("row {} is assigned to centroid {} of {}", i, p[i], k)) }
        let d = d2(row(x, c, i), row(m, c, p[i]));
        for j in 0..k { if d2(row(x, c, i), row(m, c, j)) < d * (1.0 - 1e-9) - 1e-12 { return Err(format!("row {} {:?} is assigned to centroid {}, but {} is closer: {:?}", i, row(x, c, i), p[i], j, m)) } }
    }
    Ok(())
}
fn table(g: &mut G, n: usize, c: usize, hints: &[f64]) -> Vec<f64> {
    let kind = g.below(4);
    let mut x: Vec<f64> = vec![];
    for i in 0..n { for t in 0.. {
        let r: Vec<f64> = (0..c).map(|j| match kind { 0 => g.q(if t > 5 { 4000 } else { 12 }), 1 => g.r(-10.0, 10.0), 2 => g.w(-5.0, 5.0, hints), _ => if j == 0 { 10.0 * g.below(4) as f64 + g.r(-1.0, 1.0) } else { g.r(-1.0, 1.0) } }).collect();
        if c == 0 || t > 100 || (0..i).all(|q| row(&x, c, q) != &r[..]) { x.extend(r); break }
    } }
    x
}
fn steps(x: &[f64], n: usize, c: usize, m: &mut Vec<f64>, k: usize, iters: usize) -> bool {
    // false if a tie makes the outcome depend on the order of the sums
    let mut cost = 0.0;
    for _ in 0..iters {
        let mut sum = vec![0.0; k * c]; let mut cnt = vec![0usize; k]; let mut tot = 0.0;
        for i in 0..n {
            let mut b = 0;
            let ds: Vec<f64> = (0..k).map(|j| d2(row(x, c, i), row(m, c, j))).collect();
            for j in 1..k { if ds[j] < ds[b] { b = j } }
            for j in 0..k { if j != b && (ds[j] - ds[b]).abs() < 1e-9 * (1.0 + ds[b]) { return false } }
            cnt[b] += 1; tot += ds[b];
            for q in 0..c { sum[b * c + q] += x[i * c + q] }
        }
        for j in 0..k { if cnt[j] > 0 { for q in 0..c { m[j * c + q] = sum[j * c + q] / cnt[j] as f64 } } }
        let e: f64 = cost - tot;
        if e.abs() < 1e-14 { break }
        if e.abs() < 1e-12 { return false }
        cost = tot;
    }
    true
}
fn ready<I: Initializer>(h: &str, mut t: KMeansClassifier<I>, x: &[f64], n: usize, c: usize, k: usize, g: &mut G) -> R {
    let xm = Matrix::new(n, c, x.to_vec());
    ck(t.predict(&xm).is_err(), "an untrained model predicts")?;
    t.train(&xm).map_err(|_| format!("{}: training fails", h))?;
    let m = match *t.centroids() { None => return Err(format!("{}: no centroids after training", h)), Some(ref m) => { if m.rows() != k || m.cols() != c { return Err(format!("{}: {} x {} centroids", h, m.rows(), m.cols())) } m.data().clone() } };
    nearest(&t.predict(&xm).map_err(|_| "a trained model refuses")?, x, n, c, &m, k)?;
    let q = g.below(8);
    let y: Vec<f64> = (0..q * c).map(|_| g.r(-12.0, 12.0)).collect();
    nearest(&t.predict(&Matrix::new(q, c, y.clone())).map_err(|_| "a trained model refuses")?, &y, q, c, &m, k)
}
fn c22(h: &mut H) {
    let reps = if h.thorough { 60 } else { 15 };
    let mut ns: Vec<usize> = (1..9).collect(); ns.extend(&[12, 20, 40]); ns.extend(h.sizes(80));
    for n in ns { for q in 0..reps {
        let hints = h.hints.clone();
        let mut g = G(h.seed + q + 577 * n as u64);
        let c = 1 + g.below(4);
        let x = table(&mut g, n, c, &hints);
        let k = 1 + g.below(n);
        let iters = [0, 1, 1, 2, 3, 100][g.below(6)];
        let rows: Vec<usize> = { let mut v: Vec<usize> = (0..n).collect(); for i in 0..n { let j = i + g.below(n - i); v.swap(i, j) } v.truncate(k); v };
        let start: Vec<f64> = (0..k).flat_map(|a| if q % 3 == 0 { (0..c).map(|_| g.r(-12.0, 12.0)).collect::<Vec<f64>>() } else { row(&x, c, rows[a]).to_vec() }).collect();
        h.case(format!("given start n={} c={} k={} iters={} #{}: {:?} from {:?}", n, c, k, iters, q, &x[..x.len().min(40)], &start[..start.len().min(20)]), || {
            let mut t = KMeansClassifier::new_specified(k, iters, Fixed(start.clone()));
            let xm = Matrix::new(n, c, x.clone());
            if q % 4 == 0 { t.set_iters(3); let _ = t.train(&Matrix::new(n, c, x.iter().map(|v| v * 2.0 + 1.0).collect::<Vec<_>>())); t.set_iters(iters); }
            ck(t.k() == k && t.iters() == iters, "settings")?;
            t.train(&xm).map_err(|_| "training fails")?;
            let m = match *t.centroids() { None => return Err("no centroids after training".into()), Some(ref m) => { ck(m.rows() == k && m.cols() == c, "shape of the centroids")?; m.data().clone() } };
            let mut want = start.clone();
            if steps(&x, n, c, &mut want, k, iters) { for a in 0..k * c { ckf(&format!("entry {} of centroid {}", a % c, a / c), m[a], want[a], 1e-8)? } }
            nearest(&t.predict(&xm).map_err(|_| "a trained model refuses")?, &x, n, c, &m, k)
        });
        h.case(format!("initialisers n={} c={} k={} iters={} #{}: {:?}", n, c, k, iters, q, &x[..x.len().min(40)]), || {
            rand::harness_seed(q + 9 * n as u64);
            ready("k-means++", KMeansClassifier::new_specified(k, iters, KPlusPlus), &x, n, c, k, &mut g)?;
            ready("Forgy", KMeansClassifier::new_specified(k, iters, Forgy), &x, n, c, k, &mut g)?;
            ready("random partition", KMeansClassifier::new_specified(k, iters, RandomPartition), &x, n, c, k, &mut g)?;
            ready("default", KMeansClassifier::new(k), &x, n, c, k, &mut g)?;
            // with no iteration the centroids are those of the initialiser
            for s in 0..3 {
                let xm = Matrix::new(n, c, x.clone());
                let m = match s { 0 => KPlusPlus.init_centroids(k, &xm), 1 => Forgy.init_centroids(k, &xm), _ => RandomPartition.init_centroids(k, &xm) }.map_err(|_| "initialisation fails")?;
                ck(m.rows() == k && m.cols() == c, "an initialiser returns another shape")?;
                if s < 2 { for a in 0..k { let r = row(m.data(), c, a); ck((0..n).any(|i| row(&x, c, i) == r), "an initial centroid is no row of the data")?; ck((0..a).all(|b| row(m.data(), c, b) != r), "an initial centroid is taken twice")? } }
            }
            let mut t = KMeansClassifier::new(n + 1);
            ck(t.train(&Matrix::new(n, c, x.clone())).is_err(), "more clusters than rows are accepted")?;
            for w in &[(k + 1, c), (k - 1, c), (k, c + 1), (k, c - 1)] {
                let mut t = KMeansClassifier::new_specified(k, 5, Wrong(w.0, w.1));
                ck(t.train(&Matrix::new(n, c, x.clone())).is_err(), &format!("{} x {} initial centroids are accepted for k = {}, c = {}", w.0, w.1, k, c))?;
            }
            Ok(())
        });
    } }
}
fn main() { run(&[("C22", c22)]) }
