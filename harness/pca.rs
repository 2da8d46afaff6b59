extern crate rusty_machine;
extern crate rulinalg;
extern crate rand;
include!("common.rs");
use rusty_machine::linalg::{Matrix, BaseMatrix};
use rusty_machine::learning::UnSupModel;
use rusty_machine::learning::pca::PCA;

type M = Vec<Vec<f64>>;
fn data(g: &mut G, n: usize, c: usize, hints: &[f64]) -> M { (0..n).map(|_| (0..c).map(|_| g.w(-3.0, 3.0, hints)).collect()).collect() }
fn mat(x: &M, c: usize) -> Matrix<f64> { Matrix::new(x.len(), c, x.concat()) }
/// the component j as a list of entries: rows of the matrix when `wide`
fn parts(m: &Matrix<f64>, wide: bool) -> M { let (a, b) = if wide { (m.rows(), m.cols()) } else { (m.cols(), m.rows()) };
    (0..a).map(|j| (0..b).map(|i| if wide { m[[j, i]] } else { m[[i, j]] }).collect()).collect() }
fn dot(a: &[f64], b: &[f64]) -> f64 { a.iter().zip(b).map(|(p, q)| p * q).sum() }
fn look(p: &PCA, x: &M, c: usize, k: Option<usize>, center: bool, qs: &M) -> R {
    let n = x.len(); let wide = c > n;
    let w = match p.components() { Ok(w) => parts(w, wide), Err(_) => return Err("a trained model has no components".into()) };
    let full = if wide { n } else { c };
    ck(w.len() == k.map_or(full, |k| if k < full { k } else { full }), "number of components")?;
    for a in &w { ck(a.len() == c, "a component has one entry per feature")?; for b in &w { let _ = b; } }
    for a in 0..w.len() { for b in 0..w.len() { ckf("product of two components", dot(&w[a], &w[b]), if a == b { 1.0 } else { 0.0 }, 1e-6)?; } }
    let mean: Vec<f64> = (0..c).map(|j| if center { x.iter().map(|r| r[j]).sum::<f64>() / n as f64 } else { 0.0 }).collect();
    // the components belong to the data: the scores on them are uncorrelated, and fall
    let sc: M = w.iter().map(|a| x.iter().map(|r| dot(&r.iter().zip(&mean).map(|(p, q)| p - q).collect::<Vec<_>>(), a)).collect()).collect();
    for a in 0..w.len() { for b in 0..a { ckf("scores on two components", dot(&sc[a], &sc[b]), 0.0, 1e-5)?; ck(dot(&sc[a], &sc[a]) <= dot(&sc[b], &sc[b]) + 1e-6, "a later component explains more")?; } }
    let y = p.predict(&mat(qs, c)).map_err(|_| "a trained model refuses".to_string())?;
    ck(y.rows() == qs.len() && y.cols() == w.len(), "shape of the projection")?;
    for (i, r) in qs.iter().enumerate() {
        let d: Vec<f64> = r.iter().zip(&mean).map(|(p, q)| p - q).collect();
        for j in 0..w.len() { ckf("projection", y[[i, j]], dot(&d, &w[j]), 1e-8)?; }
        if !wide && w.len() == c { for l in 0..c { ckf("reconstruction", (0..c).map(|j| y[[i, j]] * w[j][l]).sum::<f64>(), d[l], 1e-6)?; } }
    }
    let bad = mat(&vec![vec![0.5; c + 1]], c + 1);
    let mut ok = false; panics(|| ok = p.predict(&bad).is_ok()); ck(!ok, "rows of another width are accepted")
}
fn make(k: Option<usize>, center: bool) -> PCA { match k { Some(k) => PCA::new(k, center), None => PCA::default() } }
fn c33(h: &mut H) {
    let reps = if h.thorough { 40 } else { 6 };
    let hints = h.hints.clone();
    for n in 1..8usize { for c in 1..6usize { for q in 0..reps {
        let mut g = G(h.seed + 31 * q + 1009 * n as u64 + 13 * c as u64);
        let k = if g.below(4) == 0 { None } else { Some(1 + g.below(c)) };
        let center = k.is_none() || g.below(2) == 0;
        // wide centred data has a vanishing singular value; the decomposition itself is not judged on it
        if center && c > n && k.map_or(true, |k| k + 1 > n) { continue }
        if n == 1 && center { continue }
        let mut x = data(&mut g, n, c, &hints);
        if q % 3 == 0 { for r in x.iter_mut() { for (j, v) in r.iter_mut().enumerate() { *v += 4.0 * j as f64 - 3.0 } } }
        h.case(format!("train n={} c={} k={:?} center={} #{}", n, c, k, center, q), || {
            let mut p = make(k, center);
            ck(p.predict(&mat(&x, c)).is_err() && p.components().is_err(), "an untrained model answers")?;
            let mut qs = data(&mut g, 3, c, &hints); qs.extend(x.clone());
            p.train(&mat(&x, c)).map_err(|_| "training fails".to_string())?;
            look(&p, &x, c, k, center, &qs)?;
            // the model is trained again on data of another shape
            let (n2, c2) = (2 + g.below(6), 1 + g.below(5));
            if k.map_or(true, |k| k <= c2) && !(center && c2 > n2 && k.map_or(true, |k| k + 1 > n2)) {
                let x2 = data(&mut g, n2, c2, &hints);
                p.train(&mat(&x2, c2)).map_err(|_| "training again fails".to_string())?;
                look(&p, &x2, c2, k, center, &x2.clone())?;
            }
            let mut small = PCA::new(c + 1 + g.below(3), center);
            ck(small.train(&mat(&x, c)).is_err(), "more components than features are accepted")
        });
    } } }
}
fn main() { run(&[("C33", c33)]) }
