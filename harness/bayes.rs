extern crate rusty_machine;
extern crate rulinalg;
extern crate rand;
include!("common.rs");
use rusty_machine::linalg::{BaseMatrix, Matrix};
use rusty_machine::learning::SupModel;
use rusty_machine::learning::naive_bayes::{NaiveBayes, Gaussian, Bernoulli, Multinomial, Distribution};

/// the parameters one class has to get from its rows, and the log posterior of a row (up to the class-free part)
trait Spec: Distribution + Sized { fn params(&self) -> Vec<&Matrix<f64>>; fn fit(rows: &[Vec<f64>]) -> Vec<Vec<f64>>; fn lik(p: &[Vec<f64>], x: &[f64]) -> f64; fn least() -> usize; fn entry(g: &mut G, hints: &[f64]) -> f64; }
impl Spec for Gaussian {
    fn params(&self) -> Vec<&Matrix<f64>> { vec![self.theta(), self.sigma()] }
    fn fit(r: &[Vec<f64>]) -> Vec<Vec<f64>> {
        let n = r.len() as f64; let c = r[0].len();
        let m: Vec<f64> = (0..c).map(|j| r.iter().map(|q| q[j]).sum::<f64>() / n).collect();
        let v = (0..c).map(|j| r.iter().map(|q| (q[j] - m[j]) * (q[j] - m[j])).sum::<f64>() / (n - 1.0)).collect();
        vec![m, v]
    }
    fn lik(p: &[Vec<f64>], x: &[f64]) -> f64 { x.iter().zip(p[0].iter().zip(p[1].iter())).map(|(x, (m, v))| -0.5 * (2.0 * 3.141592653589793 * v).ln() - 0.5 * (x - m) * (x - m) / v).sum() }
    fn least() -> usize { 2 }
    fn entry(g: &mut G, hints: &[f64]) -> f64 { g.w(-3.0, 3.0, hints) }
}
impl Spec for Bernoulli {
    fn params(&self) -> Vec<&Matrix<f64>> { vec![self.log_probs()] }
    fn fit(r: &[Vec<f64>]) -> Vec<Vec<f64>> { vec![(0..r[0].len()).map(|j| (r.iter().map(|q| q[j]).sum::<f64>() + 1.0).ln() - (r.len() as f64 + 2.0).ln()).collect()] }
    fn lik(p: &[Vec<f64>], x: &[f64]) -> f64 { x.iter().zip(p[0].iter()).map(|(x, l)| x * l + (1.0 - x) * (1.0 - l.exp()).ln()).sum() }
    fn least() -> usize { 1 }
    fn entry(g: &mut G, _: &[f64]) -> f64 { g.below(2) as f64 }
}
impl Spec for Multinomial {
    fn params(&self) -> Vec<&Matrix<f64>> { vec![self.log_probs()] }
    fn fit(r: &[Vec<f64>]) -> Vec<Vec<f64>> {
        let s: Vec<f64> = (0..r[0].len()).map(|j| r.iter().map(|q| q[j]).sum::<f64>() + 1.0).collect();
        let t = s.iter().sum::<f64>();
        vec![s.iter().map(|x| x.ln() - t.ln()).collect()]
    }
    fn lik(p: &[Vec<f64>], x: &[f64]) -> f64 { x.iter().zip(p[0].iter()).map(|(x, l)| x * l).sum() }
    fn least() -> usize { 1 }
    fn entry(g: &mut G, _: &[f64]) -> f64 { g.below(6) as f64 }
}
fn one<T: Spec>(name: &str, h: &mut H) {
    let reps = if h.thorough { 30 } else { 10 };
    for k in vec![1usize, 2, 3, 4].into_iter().chain(h.sizes(12)) { for c in vec![1usize, 2, 3, 5] { for q in 0..reps {
        let hints = h.hints.clone();
        let mut g = G(h.seed + 13 * q + 101 * k as u64 + 7 * c as u64);
        h.case(format!("{} classes={} columns={} #{}", name, k, c, q), || {
            let mut m = NaiveBayes::<T>::new();
            ck(m.class_prior().is_none() && m.cluster_count().is_none() && m.distr().is_none(), "a new model holds parameters")?;
            for round in 0..1 + q % 2 {
                // rows of the classes in any order, the last class of odd cases empty
                let mut cl: Vec<usize> = vec![];
                for a in 0..k { if k > 1 && q % 3 == 1 && a == g.below(k) { continue } for _ in 0..T::least() + g.below(5) { cl.push(a) } }
                if cl.is_empty() { for _ in 0..T::least() { cl.push(0) } }
                for i in (1..cl.len()).rev() { let j = g.below(i + 1); cl.swap(i, j) }
                let n = cl.len();
                let rows: Vec<Vec<f64>> = (0..n).map(|_| (0..c).map(|_| T::entry(&mut g, &hints)).collect()).collect();
                let mut t = vec![0.0; n * k];
                for i in 0..n { t[i * k + cl[i]] = 1.0 }
                let x = Matrix::new(n, c, rows.concat());
                m.train(&x, &Matrix::new(n, k, t)).map_err(|_| "training fails")?;
                let pr = m.class_prior().ok_or("no priors")?.clone();
                ck(m.cluster_count() == Some(&k) && pr.len() == k, "wrong number of classes")?;
                let mut par: Vec<Option<Vec<Vec<f64>>>> = vec![];
                for a in 0..k {
                    let own: Vec<Vec<f64>> = (0..n).filter(|i| cl[*i] == a).map(|i| rows[i].clone()).collect();
                    ckf(&format!("round {}: prior of class {} for classes {:?}", round, a, cl), pr[a], own.len() as f64 / n as f64, 1e-12)?;
                    if own.is_empty() { par.push(None); continue }
                    let w = T::fit(&own);
                    for (p, w) in m.distr().ok_or("no distribution")?.params().iter().zip(w.iter()) {
                        ck(p.rows() == k && p.cols() == c, "parameters of another shape")?;
                        for j in 0..c { ckf(&format!("parameter of class {} column {} from rows {:?}", a, j, own), p[[a, j]], w[j], 1e-9)? }
                    }
                    par.push(Some(w));
                }
                let nq = g.below(6);
                let qs: Vec<Vec<f64>> = (0..nq).map(|i| if i % 2 == 0 { rows[g.below(n)].clone() } else { (0..c).map(|_| T::entry(&mut g, &hints)).collect() }).collect();
                let p = m.predict(&Matrix::new(nq, c, qs.concat())).map_err(|_| "a trained model refuses")?;
                ck(p.rows() == nq && p.cols() == k, "predictions of another shape")?;
                for (i, x) in qs.iter().enumerate() {
                    let got: Vec<f64> = (0..k).map(|a| p[[i, a]]).collect();
                    let b = got.iter().position(|v| *v == 1.0).ok_or(format!("no class is marked in {:?}", got))?;
                    ck((0..k).all(|a| got[a] == if a == b { 1.0 } else { 0.0 }), &format!("not one class is marked in {:?}", got))?;
                    let post: Vec<f64> = (0..k).map(|a| match par[a] { None => -1.0 / 0.0, Some(ref w) => pr[a].ln() + T::lik(w, x) }).collect();
                    // nothing is said about classes no row belongs to, nor of posteriors that are no numbers
                    if par.iter().any(|w| w.is_none()) || post.iter().any(|v| !v.is_finite()) { continue }
                    let top = post.iter().cloned().fold(-1.0 / 0.0, f64::max);
                    ck(post[b] >= top - 1e-9 * (1.0 + top.abs()), &format!("row {:?}: class {} is marked, the log posteriors are {:?}", x, b, post))?;
                }
            }
            Ok(())
        });
    } } }
}
fn c24(h: &mut H) {
    one::<Gaussian>("gaussian", h);
    one::<Bernoulli>("bernoulli", h);
    one::<Multinomial>("multinomial", h);
    for q in 0..40u64 {
        let mut g = G(h.seed + q);
        h.case(format!("rows without a class #{}", q), || {
            let (k, n) = (1 + g.below(4), 2 + g.below(8));
            let bad = g.below(n);
            let mut t = vec![0.0; n * k];
            for i in 0..n { if i != bad { t[i * k + g.below(k)] = 1.0 } else { for a in 0..k { t[i * k + a] = [0.0, 0.5, 2.0, -1.0][g.below(4)] } } }
            let x = Matrix::new(n, 2, (0..2 * n).map(|_| g.below(3) as f64).collect::<Vec<_>>());
            let t = Matrix::new(n, k, t);
            ck(NaiveBayes::<Multinomial>::new().train(&x, &t).is_err(), "a row of no class is accepted")?;
            ck(NaiveBayes::<Bernoulli>::new().train(&x, &t).is_err(), "a row of no class is accepted")?;
            let mut m = NaiveBayes::<Multinomial>::new();
            let _ = m.train(&x, &t);
            ck(m.predict(&x).is_err(), "a model predicts that was never trained")
        });
        h.case(format!("untrained #{}", q), || {
            let x = Matrix::new(0, 1 + g.below(3), vec![]);
            ck(NaiveBayes::<Gaussian>::new().predict(&x).is_err() && NaiveBayes::<Bernoulli>::new().predict(&x).is_err(), "an untrained model predicts")?;
            let y = Matrix::new(2, 2, vec![1.0, 2.0, 0.0, 1.0]);
            ck(NaiveBayes::<Multinomial>::new().predict(&y).is_err() && NaiveBayes::<Gaussian>::new().predict(&y).is_err(), "an untrained model predicts")
        });
    }
}
fn main() { run(&[("C24", c24)]) }
