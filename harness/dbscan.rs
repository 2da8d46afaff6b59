extern crate rusty_machine;
extern crate rulinalg;
extern crate rand;
include!("common.rs");
use rusty_machine::linalg::Matrix;
use rusty_machine::learning::UnSupModel;
use rusty_machine::learning::dbscan::DBSCAN;

fn dist(a: &[f64], b: &[f64]) -> f64 { a.iter().zip(b).map(|(p, q)| (p - q) * (p - q)).sum::<f64>().sqrt() }
fn find(f: &Vec<usize>, mut i: usize) -> usize { while f[i] != i { i = f[i] } i }
fn look(m: &DBSCAN, x: &Vec<Vec<f64>>, eps: f64, min: usize) -> R {
    let n = x.len();
    let cl: Vec<Option<usize>> = match m.clusters() { Some(v) => v.data().clone(), None => return Err("a trained model has no clusters".into()) };
    ck(cl.len() == n, "one place per row")?;
    let near = |i: usize, j: usize| dist(&x[i], &x[j]) < eps;
    let core: Vec<bool> = (0..n).map(|i| (0..n).filter(|&j| near(i, j)).count() >= min).collect();
    let mut f: Vec<usize> = (0..n).collect();
    for i in 0..n { for j in 0..n { if core[i] && core[j] && near(i, j) { let (a, b) = (find(&f, i), find(&f, j)); f[a] = b } } }
    for i in 0..n {
        if core[i] { ck(cl[i].is_some(), "a core row has no cluster")?;
            for j in 0..n { if core[j] { ck((cl[i] == cl[j]) == (find(&f, i) == find(&f, j)), "core rows share a cluster if and only if they are linked")?; } } }
        else if !(0..n).any(|j| core[j] && near(i, j)) { ck(cl[i].is_none(), "a row near no core row has a cluster")?; }
    }
    let top = cl.iter().filter_map(|c| *c).max().map_or(0, |c| c + 1);
    for c in 0..top { ck(cl.iter().any(|d| *d == Some(c)), "a cluster number is left out")?; }
    Ok(())
}
fn data(g: &mut G, n: usize, c: usize, grid: bool, hints: &[f64]) -> Vec<Vec<f64>> {
    (0..n).map(|_| (0..c).map(|_| if grid { g.below(2 + n) as f64 } else { g.w(-3.0, 3.0, hints) }).collect()).collect() }
fn c23(h: &mut H) {
    let reps = if h.thorough { 60 } else { 12 };
    let hints = h.hints.clone();
    for n in vec![0usize, 1, 2, 3, 4, 5, 6, 8, 12, 20, 40].into_iter().chain(h.sizes(60)) { for c in 1..4usize { for q in 0..reps {
        let mut g = G(h.seed + 7 * q + 1013 * n as u64 + 17 * c as u64);
        let grid = q % 2 == 0;
        // distances of a grid in one column are exact, so is eps
        let eps = if grid { if c == 1 { [1.0, 2.0, 3.0][g.below(3)] } else { [1.25, 2.1, 0.5][g.below(3)] } } else { g.w(0.05, 2.5, &hints).abs() + 1e-3 };
        let min = g.below(6);
        h.case(format!("train n={} c={} eps={} min={} grid={} #{}", n, c, eps, min, grid, q), || {
            let mut m = DBSCAN::new(eps, min);
            if q % 3 == 0 { m.set_predictive(true) }
            ck(m.clusters().is_none(), "an untrained model has clusters")?;
            for t in 0..3 {
                let nn = if t == 0 { n } else { [n, n / 2, n + 3][g.below(3)] };
                let x = data(&mut g, nn, c, grid, &hints);
                if (0..nn).any(|i| (0..nn).any(|j| !(grid && c == 1) && (dist(&x[i], &x[j]) - eps).abs() < 1e-9)) { continue }
                m.train(&Matrix::new(nn, c, x.concat())).map_err(|_| "training fails".to_string())?;
                look(&m, &x, eps, min)?;
            }
            Ok(())
        });
    } } }
    // chains taken in every direction
    for q in 0..reps { let mut g = G(h.seed + 5000 + q); let n = 5 + g.below(30);
        h.case(format!("chain n={} #{}", n, q), || {
            let mut o: Vec<usize> = (0..n).collect(); for i in (1..n).rev() { let j = g.below(i + 1); o.swap(i, j) }
            let gap = g.below(n) as f64 + 0.5;
            let x: Vec<Vec<f64>> = o.iter().map(|&i| vec![i as f64 * 0.75 + if i as f64 > gap { 4.0 } else { 0.0 }]).collect();
            for min in 0..4 { let mut m = DBSCAN::new(1.0, min); m.train(&Matrix::new(n, 1, x.concat())).map_err(|_| "training fails".to_string())?; look(&m, &x, 1.0, min)?; }
            Ok(()) }); }
}
fn main() { run(&[("C23", c23)]) }
