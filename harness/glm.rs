extern crate rusty_machine;
extern crate rulinalg;
extern crate rand;
include!("common.rs");
use rusty_machine::linalg::{Matrix, Vector, BaseMatrix};
use rusty_machine::learning::SupModel;
use rusty_machine::learning::glm::*;

fn link<L: LinkFunc>(h: &mut H, nm: &str, g: fn(f64) -> f64, gi: fn(f64) -> f64, gp: fn(f64) -> f64, xs: &[f64]) {
    for &x in xs {
        h.case(format!("link {} x={:?}", nm, x), || {
            ckf("func", L::func(x), g(x), 1e-9)?;
            ckf("func_grad", L::func_grad(x), gp(x), 1e-9)?;
            ckf("func_inv(func(x))", L::func_inv(L::func(x)), x, 1e-7)?;
            for &y in &[x, -x, 3.0 * x, -7.0 * x, g(x)] { ckf("func_inv", L::func_inv(y), gi(y), 1e-9)?; }
            Ok(())
        });
    }
}
fn family<C: Criterion>(h: &mut H, nm: &str, c: fn() -> C, var: fn(f64) -> f64, g: fn(f64) -> f64, gi: fn(f64) -> f64, gp: fn(f64) -> f64, unit: bool, xs: &[f64]) {
    for &x in xs {
        h.case(format!("family {} mu={:?}", nm, x), || {
            ckf("variance", c().model_variance(x), var(x), 1e-9)?;
            ckf("link gradient", c().link_grad(x), gp(x), 1e-9)
        });
    }
    for n in 0..12 { for k in 0..4 {
        let mut r = G(h.seed + 100 * n as u64 + k);
        let mu: Vec<f64> = (0..n).map(|_| if unit { r.w(2e-4, 1.0 - 2e-4, &h.hints) } else { r.w(1e-3, 4.0, &h.hints) }).collect();
        let y: Vec<f64> = (0..n).map(|i| if unit { if i % 3 == 0 { r.r(0.01, 0.99) } else { r.below(2) as f64 } } else { r.r(0.1, 5.0) }).collect();
        h.case(format!("family {} {} values #{}", nm, n, k), || {
            let cr = c();
            let f = cr.apply_link_func(Vector::new(mu.clone()));
            let fi = cr.apply_link_inv(Vector::new(mu.clone()));
            let w = cr.compute_working_weight(&mu);
            let yb = cr.compute_y_bar(&y, &mu);
            let m0 = cr.initialize_mu(&y);
            ck(f.size() == n && fi.size() == n && w.len() == n && yb.len() == n && m0.len() == n, "lengths")?;
            for i in 0..n {
                ckf("link", f[i], g(mu[i]), 1e-9)?;
                ckf("inverse link", fi[i], gi(mu[i]), 1e-9)?;
                ckf("working weight", w[i], 1.0 / (var(mu[i]) * gp(mu[i]) * gp(mu[i])), 1e-9)?;
                ckf("adjustment", yb[i], gp(mu[i]) * (y[i] - mu[i]), 1e-9)?;
                if !unit || (y[i] > 0.0 && y[i] < 1.0) { ckf("initial mean", m0[i], y[i], 1e-12)? } else { ck(m0[i] > 0.0 && m0[i] < 1.0, "initial mean outside the domain")? }
            }
            Ok(())
        });
        if nm == "Normal" { continue }
        let edge: Vec<f64> = (0..n).map(|i| if unit { [0.0, 1.0][(i + k as usize) % 2] } else { [0.0, 3.0, -1.0, 1e-12][(i + k as usize) % 4] }).collect();
        h.case(format!("family {} initial mean of {:?}", nm, edge), || {
            let m0 = c().initialize_mu(&edge);
            ck(m0.len() == n, "lengths")?;
            for i in 0..n { ck(m0[i] > 0.0 && (!unit || m0[i] < 1.0) && g(m0[i]).is_finite(), "initial mean outside the domain of the link")?; }
            Ok(())
        });
    } }
    for n in 3..9 { for p in 1..3 { for k in 0..3 {
        let mut r = G(h.seed + 1000 * n as u64 + 10 * p as u64 + k);
        let x: Vec<f64> = (0..n * p).map(|_| r.r(-1.0, 1.0)).collect();
        let y: Vec<f64> = (0..n).map(|_| if unit { r.r(0.3, 0.7) } else { r.r(0.8, 1.2) }).collect();
        if nm == "Normal" && n > p + 1 {
            h.case(format!("exact line {}x{} #{}", n, p, k), || {
                let b: Vec<f64> = (0..p + 1).map(|j| 1.5 - 0.7 * j as f64).collect();
                let at = |q: &[f64]| b[0] + (0..p).map(|j| b[j + 1] * q[j]).sum::<f64>();
                let yl: Vec<f64> = (0..n).map(|i| at(&x[i * p..(i + 1) * p])).collect();
                let mut m = GenLinearModel::new(c());
                m.train(&Matrix::new(n, p, x.clone()), &Vector::new(yl.clone())).map_err(|_| "training failed".to_string())?;
                let q: Vec<f64> = (0..2 * p).map(|i| 0.3 + 0.2 * i as f64).collect();
                let o = m.predict(&Matrix::new(2, p, q.clone())).unwrap();
                ck(o.size() == 2, "one prediction per row")?;
                for i in 0..2 { ckf("prediction", o[i], at(&q[i * p..(i + 1) * p]), 1e-5)?; }
                Ok(())
            });
        }
        h.case(format!("model {} {}x{} #{}", nm, n, p, k), || {
            let xm = Matrix::new(n, p, x.clone());
            let mut m = GenLinearModel::new(c());
            ck(m.predict(&xm).is_err(), "untrained prediction is not an error")?;
            ck(m.train(&xm, &Vector::new(y[1..].to_vec())).is_err(), "training with a target missing is not an error")?;
            ck(m.predict(&xm).is_err(), "prediction after a failed training is not an error")?;
            // singular data make the documented inverse fail by panic
            let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { m.train(&xm, &Vector::new(y.clone())).unwrap(); }));
            if ok.is_err() || n < p + 2 { return Ok(()) }
            // predictions determine the coefficients: check they are gi(b0 + b.x) on new points
            let at = |q: Vec<f64>| m.predict(&Matrix::new(1, p, q)).unwrap()[0];
            let b0 = g(at(vec![0.0; p]));
            let b: Vec<f64> = (0..p).map(|j| { let mut q = vec![0.0; p]; q[j] = 1.0; g(at(q)) - b0 }).collect();
            let t: Vec<f64> = (0..2 * p).map(|i| 0.3 + 0.2 * i as f64).collect();
            let out = m.predict(&Matrix::new(2, p, t.clone())).unwrap();
            ck(out.size() == 2, "one prediction per row")?;
            for i in 0..2 {
                let lin = b0 + (0..p).map(|j| b[j] * t[i * p + j]).sum::<f64>();
                ckf("prediction", out[i], gi(lin), 1e-5)?;
            }
            if unit && out.data().iter().any(|v| *v < 0.0 || *v > 1.0) { return Err("prediction outside the range of the mean".into()) }
            Ok(())
        });
    } } }
}
fn logit(x: f64) -> f64 { (x / (1.0 - x)).ln() }
fn expit(y: f64) -> f64 { 1.0 / (1.0 + (-y).exp()) }
fn logitg(x: f64) -> f64 { 1.0 / (x * (1.0 - x)) }
fn ln(x: f64) -> f64 { x.ln() }
fn exp(x: f64) -> f64 { x.exp() }
fn inv(x: f64) -> f64 { 1.0 / x }
fn id(x: f64) -> f64 { x }
fn one(_: f64) -> f64 { 1.0 }
fn bvar(m: f64) -> f64 { m * (1.0 - m) }
fn c26(h: &mut H) {
    let mut unit: Vec<f64> = (1..40).map(|i| i as f64 / 40.0).collect();
    unit.extend(&[0.001, 0.0002, 0.999, 0.9998]);
    unit.extend(h.around().into_iter().filter(|x| *x > 1.5e-4 && *x < 0.9998));
    let mut pos: Vec<f64> = (1..60).map(|i| i as f64 * 0.17).collect();
    pos.extend(&[0.0005, 100.0]);
    pos.extend(h.around().into_iter().filter(|x| *x > 1.5e-4 && *x < 50.0));
    let mut all = pos.clone(); all.extend(pos.iter().map(|x| -x)); all.push(0.0);
    link::<Logit>(h, "Logit", logit, expit, logitg, &unit);
    link::<Log>(h, "Log", ln, exp, inv, &pos);
    link::<Identity>(h, "Identity", id, id, one, &all);
    family(h, "Bernoulli", || Bernoulli, bvar, logit, expit, logitg, true, &unit);
    family(h, "Normal", || Normal, one, id, id, one, false, &all);
    family(h, "Poisson", || Poisson, id, ln, exp, inv, false, &pos);
}
fn main() { run(&[("C26", c26)]) }
