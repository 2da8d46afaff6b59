extern crate rusty_machine;
extern crate rulinalg;
extern crate rand;
include!("common.rs");
use rusty_machine::linalg::{Matrix, Vector, BaseMatrix};
use rusty_machine::learning::*;
use rusty_machine::learning::optim::{Optimizable, OptimAlgorithm};
use rusty_machine::learning::lin_reg::LinRegressor;
use rusty_machine::learning::logistic_reg::{LogisticRegressor, BaseLogisticRegressor};
use std::cell::RefCell;

thread_local! { static LOG: RefCell<Vec<String>> = RefCell::new(vec![]); }
fn sg(u: f64) -> f64 { 1.0 / (1.0 + (-u).exp()) }
fn dot1(x: &[f64], b: &[f64]) -> f64 { b[0] + x.iter().zip(&b[1..]).map(|(a, b)| a * b).sum::<f64>() }
/// cost and gradient against the closed form and against differences of the cost
fn gradcheck<M: Optimizable<Inputs = Matrix<f64>, Targets = Vector<f64>>>(m: &M, p: &[f64], x: &Matrix<f64>, t: &Vector<f64>, logistic: bool) -> R {
    let (n, c) = (x.rows(), x.cols());
    let (cost, gr) = m.compute_grad(p, x, t);
    let u: Vec<f64> = (0..n).map(|i| (0..c).map(|j| x[[i, j]] * p[j]).sum()).collect();
    let o: Vec<f64> = u.iter().map(|&v| if logistic { sg(v) } else { v }).collect();
    let want = if logistic { -(0..n).map(|i| t[i] * o[i].ln() + (1.0 - t[i]) * (1.0 - o[i]).ln()).sum::<f64>() / n as f64 } else { (0..n).map(|i| (o[i] - t[i]) * (o[i] - t[i])).sum::<f64>() / (2.0 * n as f64) };
    ckf("cost", cost, want, 1e-9)?;
    ck(gr.len() == c, "one gradient entry per parameter")?;
    for j in 0..c {
        let w = (0..n).map(|i| x[[i, j]] * (o[i] - t[i])).sum::<f64>() / n as f64;
        ckf("gradient", gr[j], w, 1e-8)?;
        let e = 1e-5; let (mut a, mut b) = (p.to_vec(), p.to_vec()); a[j] += e; b[j] -= e;
        let d = (m.compute_grad(&a, x, t).0 - m.compute_grad(&b, x, t).0) / (2.0 * e);
        if (d - gr[j]).abs() > 1e-4 * (1.0 + d.abs() + cost.abs()) { return Err(format!("gradient {} is {:?}, the cost changes by {:?}", j, gr[j], d)) }
    }
    Ok(())
}
/// an optimiser that checks what it is given and returns numbers of its own
struct Probe { x: Matrix<f64>, t: Vector<f64>, out: Vec<f64> }
impl OptimAlgorithm<BaseLogisticRegressor> for Probe {
    fn optimize(&self, m: &BaseLogisticRegressor, start: &[f64], x: &Matrix<f64>, t: &Vector<f64>) -> Vec<f64> {
        let r = (|| {
            ck(x.rows() == self.x.rows() && x.cols() == self.x.cols() + 1, "shape of the design matrix")?;
            ck(start.len() == x.cols(), "one starting value per column")?;
            for i in 0..x.rows() { ck(x[[i, 0]] == 1.0, "the leading column is not one")?; for j in 0..self.x.cols() { ck(x[[i, j + 1]] == self.x[[i, j]], "the design matrix does not hold the inputs")? } }
            ck(t.data() == self.t.data(), "the targets differ")?;
            gradcheck(m, start, x, t, true)?;
            gradcheck(m, &self.out, x, t, true)
        })();
        if let Err(e) = r { LOG.with(|l| l.borrow_mut().push(e)) }
        self.out.clone()
    }
}
fn c25(h: &mut H) {
    let reps = if h.thorough { 80 } else { 16 };
    let mut shapes = vec![(40, 2), (3, 12)];
    for r in 1..8 { for c in 0..5 { shapes.push((r, c)) } }
    for s in h.sizes(150) { shapes.push((s, 2)); shapes.push((5, s)) }
    for (n, c) in shapes { for k in 0..reps {
        let mut g = G(h.seed + k + 31 * n as u64 + 977 * c as u64);
        let hints = h.hints.clone();
        let x = Matrix::new(n, c, (0..n * c).map(|_| g.w(-2.0, 2.0, &hints)).collect::<Vec<_>>());
        let tl = Vector::new((0..n).map(|_| g.w(-3.0, 3.0, &hints)).collect::<Vec<_>>());
        let tb = Vector::new((0..n).map(|_| if g.below(5) == 0 { g.f() } else { g.below(2) as f64 }).collect::<Vec<_>>());
        let p: Vec<f64> = (0..c + 1).map(|_| g.w(-2.0, 2.0, &hints)).collect();
        let q = Matrix::new(n + 1, c, (0..(n + 1) * c).map(|_| g.w(-4.0, 4.0, &hints)).collect::<Vec<_>>());
        h.case(format!("linear {}x{} #{}", n, c, k), || {
            let mut m = LinRegressor::default();
            ck(m.predict(&x).is_err() && m.parameters().is_none(), "untrained prediction is not an error")?;
            let full = Matrix::new(n, c + 1, (0..n).flat_map(|i| std::iter::once(1.0).chain((0..c).map(|j| x[[i, j]]).collect::<Vec<_>>())).collect::<Vec<_>>());
            gradcheck(&m, &p, &full, &tl, false)?;
            for way in 0..2 {
                if way == 0 { if n < c + 2 || m.train(&x, &tl).is_err() { continue } } else { m.train_with_optimization(&x, &tl) }
                let b = m.parameters().unwrap().data().clone();
                ck(b.len() == c + 1, "one parameter per column and the bias")?;
                if b.iter().any(|v| !v.is_finite() || v.abs() > 1e6) { continue }
                if way == 0 { let (cost, gr) = m.compute_grad(&b, &full, &tl); for v in gr { if v.abs() > 1e-6 * (1.0 + cost.abs()) { return Err(format!("the gradient at the trained parameters is {:?}", v)) } } }
                let o = m.predict(&q).unwrap();
                ck(o.size() == n + 1, "one prediction per row")?;
                for i in 0..n + 1 { let r: Vec<f64> = (0..c).map(|j| q[[i, j]]).collect(); ckf("prediction", o[i], dot1(&r, &b), 1e-9)? }
                // the documented descent: step 0.3, at most 100 times, from zero
                if way == 1 {
                    let (mut w, mut last) = (vec![0.0; c + 1], 0.0f64);
                    for _ in 0..100 { let (cost, gr) = m.compute_grad(&w, &full, &tl); if (last - cost).abs() < 1e-20 { break } for j in 0..c + 1 { w[j] -= 0.3 * gr[j] } last = cost; }
                    for j in 0..c + 1 { if w[j].abs() < 1e5 { ckf("parameter after gradient descent", b[j], w[j], 1e-6)? } }
                }
            }
            Ok(())
        });
        h.case(format!("logistic {}x{} #{}", n, c, k), || {
            let mut m = LogisticRegressor::new(Probe { x: x.clone(), t: tb.clone(), out: p.clone() });
            ck(m.predict(&x).is_err() && m.parameters().is_none(), "untrained prediction is not an error")?;
            LOG.with(|l| l.borrow_mut().clear());
            m.train(&x, &tb).map_err(|_| "training failed".to_string())?;
            if let Some(e) = LOG.with(|l| l.borrow().first().cloned()) { return Err(e) }
            ck(m.parameters().unwrap().data() == &p, "the optimiser's result is not stored")?;
            let o = m.predict(&q).unwrap();
            ck(o.size() == n + 1, "one prediction per row")?;
            for i in 0..n + 1 { let r: Vec<f64> = (0..c).map(|j| q[[i, j]]).collect(); ckf("prediction", o[i], sg(dot1(&r, &p)), 1e-9)? }
            Ok(())
        });
    } }
}
fn main() { run(&[("C25", c25)]) }
