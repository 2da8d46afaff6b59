extern crate rusty_machine;
extern crate rulinalg;
extern crate rand;
include!("common.rs");
use rusty_machine::linalg::{Matrix, Vector};
use rusty_machine::learning::SupModel;
use rusty_machine::learning::gp::*;
use rusty_machine::learning::toolkit::kernel::*;

/// a mean that depends on the row
#[derive(Debug)]
struct Slope(f64, f64);
impl MeanFunc for Slope { fn func(&self, x: Matrix<f64>) -> Vector<f64> { let c = x.cols(); let r = x.rows(); let v = x.into_vec(); Vector::new((0..r).map(|i| self.1 + self.0 * (0..c).map(|j| v[i * c + j] * (j + 1) as f64).sum::<f64>()).collect::<Vec<_>>()) } }
fn mean_of(s: &(f64, f64), r: &[f64]) -> f64 { s.1 + s.0 * r.iter().enumerate().map(|(j, v)| v * (j + 1) as f64).sum::<f64>() }
/// Gaussian elimination with pivots
fn solve(mut a: Vec<Vec<f64>>, mut b: Vec<f64>) -> Vec<f64> {
    let n = b.len();
    for k in 0..n {
        let mut p = k; for i in k..n { if a[i][k].abs() > a[p][k].abs() { p = i } }
        a.swap(k, p); b.swap(k, p);
        for i in k + 1..n { let f = a[i][k] / a[k][k]; for j in k..n { a[i][j] -= f * a[k][j] } b[i] -= f * b[k]; }
    }
    for k in (0..n).rev() { for j in k + 1..n { b[k] -= a[k][j] * b[j] } b[k] /= a[k][k]; }
    b
}
fn rows(g: &mut G, n: usize, c: usize, hints: &[f64]) -> Vec<Vec<f64>> { (0..n).map(|i| (0..c).map(|j| if j == 0 { 1.3 * i as f64 + 0.5 * g.f() } else { g.w(-2.0, 2.0, hints) }).collect()).collect() }
fn c31(h: &mut H) {
    let reps = if h.thorough { 60 } else { 12 };
    for n in vec![0usize, 1, 2, 3, 4, 6, 9].into_iter().chain(h.sizes(16)) { for c in 1..4 { for q in 0..reps {
        let hints = h.hints.clone();
        let mut g = G(h.seed + 17 * q + 97 * n as u64 + 5 * c as u64);
        if n == 0 && q > 1 { continue }
        let noise = [0.0, 0.1, 1.0, 2.5, g.w(0.01, 3.0, &hints)][g.below(5)];
        let kind = g.below(3);
        h.case(format!("posterior n={} c={} noise={} kernel={} #{}", n, c, noise, kind, q), || {
            let (ls, am, bias) = (g.r(0.3, 1.0), g.r(0.5, 2.0), g.r(-0.5, 0.5));
            let x = rows(&mut g, n, c, &hints);
            let t: Vec<f64> = (0..n).map(|_| g.w(-5.0, 5.0, &hints)).collect();
            let m = [(0.0, 0.0), (0.0, g.r(-2.0, 2.0)), (g.r(-1.0, 1.0), g.r(-1.0, 1.0))][g.below(3)];
            let mut qs = rows(&mut g, 3, c, &hints);
            if n > 0 { qs.push(x[n - 1].clone()) }
            if q % 4 == 0 && n > 0 { qs = x.clone() }
            let k = |a: &[f64], b: &[f64]| -> f64 { match kind { 0 => SquaredExp::new(ls, am).kernel(a, b), 1 => Exponential::new(ls, am).kernel(a, b), _ => RationalQuadratic::new(1.5, ls).kernel(a, b) + bias * 0.0 } };
            let a: Vec<Vec<f64>> = (0..n).map(|i| (0..n).map(|j| k(&x[i], &x[j]) + if i == j { noise } else { 0.0 }).collect()).collect();
            let al = solve(a, (0..n).map(|i| t[i] - mean_of(&m, &x[i])).collect());
            let want: Vec<f64> = qs.iter().map(|r| mean_of(&m, r) + (0..n).map(|j| k(r, &x[j]) * al[j]).sum::<f64>()).collect();
            let (xm, qm, tv) = (Matrix::new(n, c, x.concat()), Matrix::new(qs.len(), c, qs.concat()), Vector::new(t.clone()));
            let wide = Matrix::new(1, c + 1, vec![0.5; c + 1]);
            macro_rules! go { ($ker:expr) => {{
                let mut p = GaussianProcess::new($ker, Slope(m.0, m.1), noise);
                ck(p.predict(&qm).is_err() && p.get_posterior(&qm).is_err(), "an untrained model predicts")?;
                if q % 3 == 1 { let _ = p.train(&wide, &Vector::new(vec![1.0])); }
                p.train(&xm, &tv).map_err(|_| "training fails".to_string())?;
                let a = p.predict(&qm).map_err(|_| "a trained model refuses".to_string())?;
                let (b, _) = p.get_posterior(&qm).map_err(|_| "a trained model refuses".to_string())?;
                ck(a.size() == qs.len() && b.size() == qs.len(), "one prediction per row")?;
                for i in 0..qs.len() { ckf("posterior mean", a[i], want[i], 1e-6)?; ckf("mean of get_posterior", b[i], want[i], 1e-6)?;
                    if noise == 0.0 { for j in 0..n { if x[j] == qs[i] { ckf("training target", a[i], t[j], 1e-6)?; } } } }
                { let mut ok = false; panics(|| ok = p.predict(&wide).is_ok() || p.get_posterior(&wide).is_ok()); ck(!ok, "rows of another width are accepted")?; }
                let short = Vector::new(vec![0.5; n + 1]);
                let mut p2 = GaussianProcess::new($ker, Slope(m.0, m.1), noise);
                { let mut ok = false; panics(|| ok = p2.train(&xm, &short).is_ok()); ck(!ok, "a target too many is accepted")?; }
                Ok(())
            }} }
            match kind { 0 => go!(SquaredExp::new(ls, am)), 1 => go!(Exponential::new(ls, am)), _ => go!(RationalQuadratic::new(1.5, ls)) }
        });
    } } }
    for q in 0..10 { let mut g = G(h.seed + q); let c = 1 + g.below(3);
        h.case(format!("default mean #{}", q), || { let v = ConstMean::default().func(Matrix::new(3, c, vec![1.5; 3 * c])); ck(v.size() == 3 && v.data().iter().all(|x| *x == 0.0), "the default mean is not 0") }); }
}
fn main() { run(&[("C31", c31)]) }
