extern crate rusty_machine;
extern crate rulinalg;
extern crate rand;
include!("common.rs");
use rusty_machine::linalg::{Matrix, Vector, BaseMatrix};
use rusty_machine::learning::toolkit::cost_fn::{CostFunc, MeanSqError, CrossEntropyError};
use rusty_machine::learning::toolkit::regularization::Regularization;
use rusty_machine::learning::toolkit::kernel::*;
use rusty_machine::analysis::score::neg_mean_squared_error;

fn dims(h: &H) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for r in 1..7 { for c in 1..6 { v.push((r, c)) } }
    v.push((33, 2)); v.push((5, 17));
    for s in h.sizes(200) { v.push((s, 2)); v.push((2, s)) }
    v
}
fn c12(h: &mut H) {
    let reps = if h.thorough { 20 } else { 4 };
    for (r, c) in dims(h) { for k in 0..reps {
        let mut g = G(h.seed + k + 31 * r as u64 + 977 * c as u64);
        let o: Vec<f64> = (0..r * c).map(|_| g.w(-3.0, 3.0, &h.hints)).collect();
        let t: Vec<f64> = (0..r * c).map(|i| if g.below(4) == 0 { o[i] } else { g.w(-3.0, 3.0, &h.hints) }).collect();
        let oc: Vec<f64> = (0..r * c).map(|_| g.w(1e-6, 1.0 - 1e-6, &h.hints)).collect();
        let tc: Vec<f64> = (0..r * c).map(|i| if i % 3 == 0 { g.below(2) as f64 } else { g.f() }).collect();
        let mse = |o: &[f64], t: &[f64], n: usize| o.iter().zip(t).map(|(a, b)| (a - b) * (a - b)).sum::<f64>() / (2.0 * n as f64);
        let cee = |o: &[f64], t: &[f64], n: usize| -o.iter().zip(t).map(|(a, b)| b * a.ln() + (1.0 - b) * (1.0 - a).ln()).sum::<f64>() / (n as f64);
        h.case(format!("mse matrix {}x{} #{}", r, c, k), || {
            let (om, tm) = (Matrix::new(r, c, o.clone()), Matrix::new(r, c, t.clone()));
            ckf("cost", MeanSqError::cost(&om, &tm), mse(&o, &t, r), 1e-9)?;
            ckf("score", neg_mean_squared_error(&om, &tm), -2.0 * mse(&o, &t, r), 1e-9)?;
            let gr = MeanSqError::grad_cost(&om, &tm);
            ck(gr.rows() == r && gr.cols() == c, "gradient shape")?;
            for i in 0..r { for j in 0..c { ckf("gradient", gr[[i, j]], o[i * c + j] - t[i * c + j], 1e-9)? } }
            Ok(())
        });
        h.case(format!("cross entropy matrix {}x{} #{}", r, c, k), || {
            let (om, tm) = (Matrix::new(r, c, oc.clone()), Matrix::new(r, c, tc.clone()));
            ckf("cost", CrossEntropyError::cost(&om, &tm), cee(&oc, &tc, r), 1e-9)?;
            let gr = CrossEntropyError::grad_cost(&om, &tm);
            ck(gr.rows() == r && gr.cols() == c, "gradient shape")?;
            for i in 0..r * c { ckf("gradient", gr.data()[i], (oc[i] - tc[i]) / (oc[i] * (1.0 - oc[i])), 1e-9)? }
            Ok(())
        });
        if c == 1 || c == 17 {
            let n = r * c;
            h.case(format!("vectors {} #{}", n, k), || {
                let (ov, tv) = (Vector::new(o.clone()), Vector::new(t.clone()));
                ckf("mse cost", MeanSqError::cost(&ov, &tv), mse(&o, &t, n), 1e-9)?;
                let gr = MeanSqError::grad_cost(&ov, &tv);
                ck(gr.size() == n, "gradient size")?;
                for i in 0..n { ckf("mse gradient", gr[i], o[i] - t[i], 1e-9)? }
                let (ov, tv) = (Vector::new(oc.clone()), Vector::new(tc.clone()));
                ckf("cross entropy cost", CrossEntropyError::cost(&ov, &tv), cee(&oc, &tc, n), 1e-9)?;
                let gr = CrossEntropyError::grad_cost(&ov, &tv);
                ck(gr.size() == n, "gradient size")?;
                for i in 0..n { ckf("cross entropy gradient", gr[i], (oc[i] - tc[i]) / (oc[i] * (1.0 - oc[i])), 1e-9)? }
                Ok(())
            });
        }
    } }
}
fn c13(h: &mut H) {
    for (r, c) in dims(h) { for k in 0..3u64 {
        let mut g = G(h.seed + k + 31 * r as u64 + 977 * c as u64);
        let w: Vec<f64> = (0..r * c).map(|_| { let x = g.r(-3.0, 3.0); if x == 0.0 { 1.0 } else { x } }).collect();
        let (x, y) = if k == 0 { (2.0, 0.5) } else { (g.r(-2.0, 5.0), g.r(-2.0, 5.0)) };
        let n = r as f64;
        let m = Matrix::new(r, c, w.clone());
        // the same weights seen through a slice of a wider matrix
        let wide = Matrix::new(r + 2, c + 3, (0..(r + 2) * (c + 3)).map(|p| { let (i, j) = (p / (c + 3), p % (c + 3)); if i >= 1 && i <= r && j >= 2 && j < c + 2 { w[(i - 1) * c + j - 2] } else { 77.0 } }).collect::<Vec<_>>());
        for sl in 0..2 {
            let view = || if sl == 0 { m.as_slice() } else { rulinalg::matrix::MatrixSlice::from_matrix(&wide, [1, 2], r, c) };
            let l1 = |x: f64| x * w.iter().map(|v| v.abs()).sum::<f64>() / (2.0 * n);
            h.case(format!("{}x{} #{} slice={} x={:?} y={:?}", r, c, k, sl, x, y), || {
                ckf("L1 cost", Regularization::L1(x).reg_cost(view()), l1(x), 1e-9)?;
                ckf("no cost", Regularization::None.reg_cost(view()), 0.0f64, 0.0)?;
                ckf("elastic net cost", Regularization::ElasticNet(x, y).reg_cost(view()), l1(x) + Regularization::L2(y).reg_cost(view()), 1e-9)?;
                let gs = [Regularization::L1(x).reg_grad(view()), Regularization::L2(x).reg_grad(view()), Regularization::ElasticNet(x, y).reg_grad(view()), Regularization::None.reg_grad(view())];
                for q in &gs { ck(q.rows() == r && q.cols() == c, "gradient shape")? }
                for i in 0..r * c {
                    let s = w[i].signum();
                    ckf("L1 gradient", gs[0].data()[i], s * x / (2.0 * n), 1e-9)?;
                    ckf("L2 gradient", gs[1].data()[i], x * w[i] / n, 1e-9)?;
                    ckf("elastic net gradient", gs[2].data()[i], s * x / (2.0 * n) + y * w[i] / n, 1e-9)?;
                    ckf("zero gradient", gs[3].data()[i], 0.0, 0.0)?;
                }
                Ok(())
            });
        }
    } }
}
struct K3(f64);
impl Kernel for K3 { fn kernel(&self, a: &[f64], b: &[f64]) -> f64 { self.0 + a.iter().sum::<f64>() * 2.0 - b.iter().sum::<f64>() } }
fn c14(h: &mut H) {
    let mut ns: Vec<usize> = vec![0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33];
    ns.extend(h.sizes(300));
    for n in ns { for k in 0..if h.thorough { 60u64 } else { 12 } {
        let mut g = G(h.seed + k + 31 * n as u64);
        let same = k % 4 == 0;
        let x: Vec<f64> = (0..n).map(|_| g.r(-2.0, 2.0)).collect();
        let y: Vec<f64> = if same { x.clone() } else { (0..n).map(|_| g.r(-2.0, 2.0)).collect() };
        let d2: f64 = x.iter().zip(&y).map(|(a, b)| (a - b) * (a - b)).sum();
        let dp: f64 = x.iter().zip(&y).map(|(a, b)| a * b).sum();
        let (a, b, c) = match k { 0 => (1.0, 1.0, 1.0), 1 => (0.5, -2.0, 2.0), 2 => (-0.7, 0.3, 3.0), _ => (g.r(-3.0, 3.0), g.r(-3.0, 3.0), (g.below(4)) as f64) };
        let a = if a.abs() < 0.05 { 0.4 } else { a };
        let b = if b.abs() < 0.05 { 0.4 } else { b };
        let def = k == 3;
        h.case(format!("kernels n={} #{} a={:?} b={:?} c={:?}", n, k, a, b, c), || {
            macro_rules! kk { ($nm:expr, $k:expr, $want:expr) => {{ let kr = $k; ckf($nm, kr.kernel(&x, &y), $want, 1e-9)?; ckf(concat!($nm, " swapped"), kr.kernel(&y, &x), $want, 1e-9)?; }} }
            kk!("Linear", if def { Linear::default() } else { Linear::new(a) }, dp + if def { 0.0 } else { a });
            kk!("Polynomial", if def { Polynomial::default() } else { Polynomial::new(a, b, c) }, if def { dp } else { (a * dp + b).powf(c) });
            let (l, am) = if def { (1.0, 1.0) } else { (a, b) };
            kk!("SquaredExp", if def { SquaredExp::default() } else { SquaredExp::new(a, b) }, am * (-d2 / (2.0 * l * l)).exp());
            kk!("Exponential", if def { Exponential::default() } else { Exponential::new(a, b) }, am * (-d2.sqrt() / (2.0 * l * l)).exp());
            kk!("HyperTan", if def { HyperTan::default() } else { HyperTan::new(a, b) }, if def { dp.tanh() } else { (a * dp + b).tanh() });
            kk!("Multiquadric", if def { Multiquadric::default() } else { Multiquadric::new(a) }, if def { d2.sqrt() } else { (d2 + a * a).sqrt() });
            kk!("RationalQuadratic", if def { RationalQuadratic::default() } else { RationalQuadratic::new(a, b) }, if def { 1.0 / (1.0 + d2 / 2.0) } else { (1.0 + d2 / (2.0 * a * b * b)).powf(-a) });
            let (s, t): (f64, f64) = (x.iter().sum(), y.iter().sum());
            let (k1, k2) = (a + 2.0 * s - t, b + 2.0 * s - t);
            ckf("sum", (KernelArith(K3(a)) + KernelArith(K3(b))).kernel(&x, &y), k1 + k2, 1e-9)?;
            ckf("product", (KernelArith(K3(a)) * KernelArith(K3(b))).kernel(&x, &y), k1 * k2, 1e-9)?;
            let lk = Linear::new(a);
            ckf("sum of two kinds", (KernelArith(lk) + KernelArith(SquaredExp::new(a, b))).kernel(&x, &y), dp + a + b * (-d2 / (2.0 * a * a)).exp(), 1e-9)?;
            ckf("product of two kinds", (KernelArith(SquaredExp::new(a, b)) * KernelArith(lk)).kernel(&x, &y), (dp + a) * b * (-d2 / (2.0 * a * a)).exp(), 1e-9)?;
            let mut z = y.clone(); z.push(0.0);
            ck(panics(|| SquaredExp::new(a, b).kernel(&x, &z)) && panics(|| SquaredExp::new(a, b).kernel(&z, &x)), "SquaredExp accepts different lengths")?;
            ck(panics(|| Exponential::new(a, b).kernel(&x, &z)) && panics(|| Exponential::new(a, b).kernel(&z, &x)), "Exponential accepts different lengths")?;
            ck(panics(|| Multiquadric::new(a).kernel(&x, &z)) && panics(|| Multiquadric::new(a).kernel(&z, &x)), "Multiquadric accepts different lengths")?;
            ck(panics(|| RationalQuadratic::new(a, b).kernel(&x, &z)) && panics(|| RationalQuadratic::new(a, b).kernel(&z, &x)), "RationalQuadratic accepts different lengths")
        });
    } }
}
fn main() { run(&[("C12", c12), ("C13", c13), ("C14", c14)]) }
