extern crate rusty_machine;
extern crate rulinalg;
extern crate rand;
include!("common.rs");
use rusty_machine::linalg::{Matrix, BaseMatrix};
use rusty_machine::learning::optim::{Optimizable, OptimAlgorithm};
use rusty_machine::learning::optim::grad_desc::*;
use rusty_machine::learning::optim::fmincg::ConjugateGD;
use std::cell::RefCell;

/// a model that notes what it is asked, and answers with numbers of its own
struct Rec { kind: usize, seed: u64, flat: f64, log: RefCell<Vec<(Vec<f64>, Vec<f64>, Vec<f64>, f64, Vec<f64>)>> }
impl Rec {
    fn new(kind: usize, seed: u64) -> Rec { Rec { kind: kind, seed: seed, flat: 0.0, log: RefCell::new(vec![]) } }
    fn answer(&self, p: &[f64], x: &[f64], t: &[f64]) -> (f64, Vec<f64>) {
        let s: f64 = p.iter().enumerate().map(|(i, v)| (i as f64 + 1.0) * v).sum::<f64>() + x.iter().sum::<f64>() - t.iter().sum::<f64>();
        let g: Vec<f64> = p.iter().enumerate().map(|(i, v)| match self.kind { 0 => v + (s * 0.5 + i as f64).sin(), 1 => 0.3 * v - 0.1 * x.get(i).cloned().unwrap_or(0.2), _ => (s + (self.seed % 7) as f64 * v).cos() }).collect();
        let c = match self.kind { 3 => 0.75, 4 => 0.0, 5 => (s * 10.0).round() * 0.5 * self.flat, _ => g.iter().map(|v| v * v).sum::<f64>() * 0.5 + 0.1 * s };
        (c, g)
    }
}
impl Optimizable for Rec {
    type Inputs = Matrix<f64>;
    type Targets = Matrix<f64>;
    fn compute_grad(&self, p: &[f64], x: &Matrix<f64>, t: &Matrix<f64>) -> (f64, Vec<f64>) {
        let (xv, tv): (Vec<f64>, Vec<f64>) = (x.iter().cloned().collect(), t.iter().cloned().collect());
        let (c, g) = self.answer(p, &xv, &tv);
        self.log.borrow_mut().push((p.to_vec(), xv, tv, c, g.clone()));
        (c, g)
    }
}
fn vclose(what: &str, a: &[f64], b: &[f64]) -> R {
    ck(a.len() == b.len(), what)?;
    for (x, y) in a.iter().zip(b) { ckf(what, *x, *y, 1e-9)? }
    Ok(())
}
fn data(g: &mut G, n: usize, c: usize, ct: usize, hints: &[f64]) -> (Matrix<f64>, Matrix<f64>) {
    // every row can be told from the others, and so can its target
    let x = Matrix::new(n, c, (0..n * c).map(|i| if i % c.max(1) == 0 { (i / c.max(1)) as f64 + 0.5 } else { g.w(-2.0, 2.0, hints) }).collect::<Vec<_>>());
    let t = Matrix::new(n, ct, (0..n * ct).map(|i| if i % ct.max(1) == 0 { 100.0 + (i / ct.max(1)) as f64 } else { g.w(-2.0, 2.0, hints) }).collect::<Vec<_>>());
    (x, t)
}
fn plain(alpha: f64, iters: usize, kind: usize, start: &[f64], x: &Matrix<f64>, t: &Matrix<f64>, default: bool) -> R {
    let m = Rec { kind: kind, seed: 3, flat: if iters % 2 == 0 { 1.0 } else { 1e-25 }, log: RefCell::new(vec![]) };
    let r = (if default { GradientDesc::default() } else { GradientDesc::new(alpha, iters) }).optimize(&m, start, x, t);
    let (xv, tv): (Vec<f64>, Vec<f64>) = (x.iter().cloned().collect(), t.iter().cloned().collect());
    let (mut w, mut last) = (start.to_vec(), 0.0f64);
    let log = m.log.borrow();
    let mut q = 0;
    for _ in 0..iters {
        let (c, g) = m.answer(&w, &xv, &tv);
        ck(q < log.len(), "a round is missing")?;
        ck(log[q].1 == xv && log[q].2 == tv, "the gradient is not taken on the data")?;
        vclose("parameters of the gradient", &log[q].0, &w)?;
        q += 1;
        if (last - c).abs() < 1e-20 { break }
        for i in 0..w.len() { w[i] -= alpha * g[i] }
        last = c;
    }
    ck(q == log.len(), "a gradient too many")?;
    vclose("result", &r, &w)
}
/// which: 0 Nesterov momentum, 1 AdaGrad, 2 RMSProp
fn stochastic(which: usize, a: &[f64], iters: usize, kind: usize, start: &[f64], x: &Matrix<f64>, t: &Matrix<f64>, default: bool) -> R {
    let m = Rec { kind: kind, seed: 5, flat: if iters % 2 == 0 { 1.0 } else { 1e-25 }, log: RefCell::new(vec![]) };
    let r = match which {
        0 => (if default { StochasticGD::default() } else { StochasticGD::new(a[0], a[1], iters) }).optimize(&m, start, x, t),
        1 => (if default { AdaGrad::default() } else { AdaGrad::new(a[0], a[1], iters) }).optimize(&m, start, x, t),
        _ => (if default { RMSProp::default() } else { RMSProp::new(a[0], a[1], a[2], iters) }).optimize(&m, start, x, t),
    };
    let n = x.rows();
    let (mut w, mut v, mut last) = (start.to_vec(), vec![0.0; start.len()], 0.0f64);
    let log = m.log.borrow();
    let mut q = 0;
    for _ in 0..iters {
        let (mut seen, mut sum) = (vec![false; n], 0.0);
        for _ in 0..n {
            ck(q < log.len(), "a step is missing")?;
            let (ref p, ref xr, ref tr, c, ref g) = log[q];
            q += 1;
            let row = (0..n).find(|&i| !seen[i] && (0..x.cols()).all(|j| xr.get(j) == Some(&x[[i, j]])) && (0..t.cols()).all(|j| tr.get(j) == Some(&t[[i, j]])) && xr.len() == x.cols() && tr.len() == t.cols());
            match row { Some(i) => seen[i] = true, None => return Err(format!("step {}: row {:?} with target {:?} is no row of the data not yet visited", q, xr, tr)) }
            vclose("parameters of the gradient", p, &w)?;
            for i in 0..w.len() { match which {
                0 => { let o = v[i]; v[i] = a[1] * g[i] + a[0] * o; w[i] -= -a[0] * o + (1.0 + a[0]) * v[i] }
                1 => { v[i] += g[i] * g[i]; w[i] -= a[0] * (g[i] / (a[1] + v[i].sqrt())) }
                _ => { v[i] = a[1] * v[i] + (1.0 - a[1]) * g[i] * g[i]; w[i] -= a[0] * g[i] / (v[i] + a[2]).sqrt() }
            } }
            sum += c;
        }
        sum /= n as f64;
        if (last - sum).abs() < 1e-20 { break }
        last = sum;
    }
    ck(q == log.len(), "a step too many")?;
    vclose("result", &r, &w)
}
fn c27(h: &mut H) {
    let reps = if h.thorough { 40 } else { 6 };
    let mut shapes = vec![(1, 1, 1), (2, 0, 1), (40, 2, 1), (3, 8, 2)];
    for n in 1..6 { for d in 0..4 { shapes.push((n, d + 1, 1 + d % 3)) } }
    for s in h.sizes(120) { if s > 0 { shapes.push((s, 2, 1)); shapes.push((2, s, 1)) } }
    let mut its = vec![0, 1, 2, 3, 7, 12];
    for s in h.sizes(60) { its.push(s) }
    let hints = h.hints.clone();
    for (n, c, ct) in shapes { for k in 0..reps {
        let mut g = G(h.seed + k + 31 * n as u64 + 977 * c as u64);
        let (x, t) = data(&mut g, n, c, ct, &hints);
        let dim = if n % 2 == 1 { c } else { c + 1 };
        let start: Vec<f64> = (0..dim).map(|_| g.w(-2.0, 2.0, &hints)).collect();
        let it = its[g.below(its.len())];
        for kind in 0..6 {
            let a: Vec<f64> = vec![g.w(0.001, 1.0, &hints), g.w(0.001, 0.999, &hints), g.w(1e-6, 0.1, &hints)];
            h.case(format!("plain {}x{} iters={} kind={} a={:?} start={:?} #{}", n, c, it, kind, a[0], start, k), || plain(a[0], it, kind, &start, &x, &t, false));
            for which in 0..3 { let sd = h.seed * 1000 + k;
                h.case(format!("stochastic{} {}x{} iters={} kind={} a={:?} start={:?} draws={}", which, n, c, it, kind, a, start, sd), || { rand::harness_seed(sd); stochastic(which, &a, it, kind, &start, &x, &t, false) }); }
        }
    } }
    // the documented defaults
    let mut g = G(77 + h.seed);
    let (x, t) = data(&mut g, 4, 2, 1, &hints);
    for k in 0..4 { let start = vec![0.25 * k as f64, -0.5];
        h.case(format!("default plain {}", k), || plain(0.3, 100, k % 2, &start, &x, &t, true));
        h.case(format!("default nesterov {}", k), || { rand::harness_seed(k as u64); stochastic(0, &[0.1, 0.1], 20, k % 2, &start, &x, &t, true) });
        h.case(format!("default adagrad {}", k), || { rand::harness_seed(k as u64); stochastic(1, &[1.0, 3.0], 100, k % 2, &start, &x, &t, true) });
        h.case(format!("default rmsprop {}", k), || { rand::harness_seed(k as u64); stochastic(2, &[0.01, 0.9, 1e-5], 50, k % 2, &start, &x, &t, true) });
    }
}

/// cost functions with gradients that need not belong to them
struct Field { kind: usize, a: Vec<f64>, lie: usize, calls: RefCell<u64> }
impl Field {
    fn cost(&self, p: &[f64]) -> f64 {
        let q = |s: f64| if s.is_finite() { s } else { 1e300 };
        q(match self.kind {
            0 => p.iter().zip(self.a.iter().cycle()).map(|(x, a)| a.abs() * (x - a) * (x - a)).sum(),
            1 => p.iter().zip(self.a.iter().cycle()).map(|(x, a)| (x * a).sin() + 0.01 * x * x).sum(),
            2 => p.windows(2).map(|w| 100.0 * (w[1] - w[0] * w[0]).powi(2) + (1.0 - w[0]).powi(2)).sum::<f64>(),
            3 => p.iter().map(|x| x.abs().sqrt()).sum(),
            4 => p.iter().zip(self.a.iter().cycle()).map(|(x, a)| ((x - a) * 3.0).floor()).sum::<f64>(),
            5 => p.iter().map(|x| -x).sum(),
            6 => p.iter().map(|x| x.powi(4) - 3.0 * x * x + x).sum(),
            _ => 2.5,
        })
    }
}
impl Optimizable for Field {
    type Inputs = ();
    type Targets = ();
    fn compute_grad(&self, p: &[f64], _: &(), _: &()) -> (f64, Vec<f64>) {
        *self.calls.borrow_mut() += 1;
        let n = *self.calls.borrow();
        if n > 200_000 { panic!("too many gradients") }
        let c = self.cost(p);
        let mut g: Vec<f64> = (0..p.len()).map(|i| { let e = 1e-6; let (mut u, mut d) = (p.to_vec(), p.to_vec()); u[i] += e; d[i] -= e; (self.cost(&u) - self.cost(&d)) / (2.0 * e) }).collect();
        match self.lie { 1 => for v in &mut g { *v = -*v }, 2 => for v in &mut g { *v *= 1e3 }, 3 => for v in &mut g { *v *= 1e-3 }, 4 => for (i, v) in g.iter_mut().enumerate() { *v += ((n as usize * 7 + i) % 5) as f64 - 2.0 }, 5 => for v in &mut g { *v = 0.0 }, 6 => for v in &mut g { *v = if n % 3 == 0 { -*v } else { *v } }, _ => {} }
        for v in &mut g { if !v.is_finite() { *v = 1.0 } }
        (c, g)
    }
}
fn c28(h: &mut H) {
    let reps = if h.thorough { 60 } else { 12 };
    let hints = h.hints.clone();
    let mut dims = vec![0, 1, 2, 3, 5];
    for s in h.sizes(12) { dims.push(s) }
    for dim in dims { for kind in 0..8 { for lie in 0..7 { for k in 0..reps {
        let mut g = G(h.seed + k + 31 * dim as u64 + 977 * kind as u64 + 65537 * lie as u64);
        let f = Field { kind: kind, a: (0..3).map(|_| g.w(-2.0, 2.0, &hints)).collect(), lie: lie, calls: RefCell::new(0) };
        let start: Vec<f64> = (0..dim).map(|_| g.w(-3.0, 3.0, &hints)).collect();
        let mut o = ConjugateGD::default();
        if k % 3 > 0 { o.rho = g.w(0.0, 0.5, &hints); o.sig = g.w(0.0, 1.0, &hints); o.int = g.w(0.0, 1.0, &hints); o.ext = g.w(1.0, 5.0, &hints); o.ratio = g.w(0.0, 200.0, &hints); }
        if k % 2 > 0 { o.max = g.below(25); o.iters = g.below(40); } else { o.iters = 20; }
        if k % 4 == 1 && !hints.is_empty() { let v = hints[g.below(hints.len())]; if v >= 0.0 && v < 300.0 { if k % 8 == 1 { o.iters = v as usize } else { o.max = v as usize } } }
        h.case(format!("cost {} lie {} start {:?} {:?} #{}", kind, lie, start, o, k), || {
            let r = o.optimize(&f, &start, &(), &());
            ck(r.len() == start.len(), "the result does not have the length of the start")?;
            if r.iter().any(|v| !v.is_finite()) { return Ok(()) }
            let (a, b) = (f.cost(&start), f.cost(&r));
            if b <= a + 1e-9 * (1.0 + a.abs()) { Ok(()) } else { Err(format!("cost {:?} at the start, {:?} at the result {:?}", a, b, r)) }
        });
    } } } }
}
fn main() { run(&[("C27", c27), ("C28", c28)]) }
