extern crate rusty_machine;
extern crate rulinalg;
extern crate rand;
include!("common.rs");
use rusty_machine::linalg::{Matrix, Vector};
use rusty_machine::learning::*;
use rusty_machine::learning::error::ErrorKind;
use rusty_machine::learning::toolkit::kernel::*;
use rusty_machine::learning::lin_reg::LinRegressor;
use rusty_machine::learning::logistic_reg::LogisticRegressor;
use rusty_machine::learning::optim::grad_desc::*;
use rusty_machine::learning::optim::fmincg::ConjugateGD;
use rusty_machine::learning::glm;
use rusty_machine::learning::svm::SVM;
use rusty_machine::learning::gp::{GaussianProcess, ConstMean};
use rusty_machine::learning::knn::{KNNClassifier, KDTree, BallTree, BruteForce};
use rusty_machine::learning::naive_bayes::{self, NaiveBayes};
use rusty_machine::learning::k_means::*;
use rusty_machine::learning::gmm::{GaussianMixtureModel, CovOption};
use rusty_machine::learning::dbscan::DBSCAN;
use rusty_machine::learning::pca::PCA;

fn inp(g: &mut G, hints: &[f64]) -> (usize, usize, Vec<f64>) { let (r, c) = (g.below(7), g.below(5)); (r, c, (0..r * c).map(|_| g.w(-3.0, 3.0, hints)).collect()) }
fn unt<T>(what: &str, r: LearningResult<T>) -> R { match r { Ok(_) => Err(format!("{}: a prediction of an untrained model", what)), Err(e) => match *e.kind() { ErrorKind::UntrainedModel => Ok(()), ref k => Err(format!("{}: the error is {:?}, not UntrainedModel", what, k)) } } }
fn sup<T, M: SupModel<Matrix<f64>, T>>(h: &mut H, nm: &str, mk: &dyn Fn(&mut G) -> M, bad: &dyn Fn(&mut M, &mut G)) {
    for k in 0..(if h.thorough { 300 } else { 60 }) {
        let mut g = G(h.seed + k); let hints = h.hints.clone();
        h.case(format!("{} #{}", nm, k), || {
            let mut m = mk(&mut g);
            let (r, c, d) = inp(&mut g, &hints);
            unt("new", m.predict(&Matrix::new(r, c, d.clone())))?;
            if k % 2 == 1 { bad(&mut m, &mut g); let n = g.below(5); unt("after a failed training", m.predict(&Matrix::new(n, c, vec![0.5; n * c])))? }
            Ok(())
        });
    }
}
fn uns<T, M: UnSupModel<Matrix<f64>, T>>(h: &mut H, nm: &str, mk: &dyn Fn(&mut G) -> M, bad: &dyn Fn(&mut M, &mut G)) {
    for k in 0..(if h.thorough { 300 } else { 60 }) {
        let mut g = G(h.seed + k); let hints = h.hints.clone();
        h.case(format!("{} #{}", nm, k), || {
            let mut m = mk(&mut g);
            let (r, c, d) = inp(&mut g, &hints);
            unt("new", m.predict(&Matrix::new(r, c, d.clone())))?;
            if k % 2 == 1 { bad(&mut m, &mut g); let n = g.below(5); unt("after a failed training", m.predict(&Matrix::new(n, c, vec![0.5; n * c])))? }
            Ok(())
        });
    }
}
fn c34(h: &mut H) {
    sup(h, "LinRegressor::default", &|_| LinRegressor::default(), &|_, _| ());
    sup(h, "LogisticRegressor::default", &|_| LogisticRegressor::default(), &|_, _| ());
    sup(h, "LogisticRegressor::new GradientDesc", &|_| LogisticRegressor::new(GradientDesc::new(0.1, 7)), &|_, _| ());
    sup(h, "LogisticRegressor::new ConjugateGD", &|_| LogisticRegressor::new(ConjugateGD::default()), &|_, _| ());
    fn short<M: SupModel<Matrix<f64>, Vector<f64>>>(m: &mut M, g: &mut G) { let n = 2 + g.below(4); assert!(m.train(&Matrix::new(n, 2, (0..2 * n).map(|_| g.f()).collect::<Vec<_>>()), &Vector::new(vec![0.0; n - 1])).is_err()) }
    sup(h, "GenLinearModel Bernoulli", &|_| glm::GenLinearModel::new(glm::Bernoulli), &short);
    sup(h, "GenLinearModel Normal", &|_| glm::GenLinearModel::new(glm::Normal), &short);
    sup(h, "GenLinearModel Poisson", &|_| glm::GenLinearModel::new(glm::Poisson), &short);
    sup(h, "SVM::default", &|g| { let mut s = SVM::default(); s.optim_iters = g.below(200); s }, &|_, _| ());
    sup(h, "SVM::new", &|g| SVM::new(Linear::new(g.f()), g.f()), &|_, _| ());
    // equal rows without noise: the kernel matrix has no Cholesky decomposition
    fn singular<K: Kernel>(m: &mut GaussianProcess<K, ConstMean>, g: &mut G) { m.noise = -5.0; let n = 2 + g.below(3); assert!(m.train(&Matrix::new(n, 1, vec![0.0; n]), &Vector::new(vec![1.0; n])).is_err()) }
    sup(h, "GaussianProcess::default", &|_| GaussianProcess::default(), &singular);
    sup(h, "GaussianProcess::new", &|g| GaussianProcess::new(SquaredExp::new(1.0, 1.0), ConstMean::default(), g.f()), &singular);
    for k in 0..40 { let mut g = G(h.seed + k); h.case(format!("posterior of an untrained process #{}", k), || { let (r, c, d) = inp(&mut g, &[]); unt("posterior", GaussianProcess::default().get_posterior(&Matrix::new(r, c, d))) }); }
    fn knn<M: SupModel<Matrix<f64>, Vector<usize>>>(m: &mut M, g: &mut G) { let n = 6 + g.below(4); let x = Matrix::new(n, 2, (0..2 * n).map(|_| g.f()).collect::<Vec<_>>()); assert!(m.train(&x, &Vector::new(vec![0; n - 1])).is_err()); assert!(m.train(&x, &Vector::new(vec![0; n + 1])).is_err()) }
    sup(h, "KNNClassifier::default", &|_| KNNClassifier::default(), &knn);
    sup(h, "KNNClassifier::new", &|g| KNNClassifier::new(g.below(6)), &knn);
    sup(h, "KNNClassifier BruteForce", &|g| KNNClassifier::new_specified(g.below(6), BruteForce::new()), &knn);
    sup(h, "KNNClassifier KDTree", &|g| KNNClassifier::new_specified(g.below(6), KDTree::new(1 + g.below(9))), &knn);
    sup(h, "KNNClassifier BallTree", &|g| KNNClassifier::new_specified(g.below(6), BallTree::new(1 + g.below(9))), &knn);
    // a row of targets without a class
    fn nb<D: naive_bayes::Distribution>(m: &mut NaiveBayes<D>, g: &mut G) { let n = 2 + g.below(4); let w = g.below(n); assert!(m.train(&Matrix::new(n, 2, (0..2 * n).map(|_| g.f()).collect::<Vec<_>>()), &Matrix::new(n, 2, (0..2 * n).map(|i| if i / 2 != w && i % 2 == (i / 2) % 2 { 1.0 } else { 0.0 }).collect::<Vec<_>>())).is_err()) }
    sup(h, "NaiveBayes Gaussian", &|_| NaiveBayes::<naive_bayes::Gaussian>::new(), &nb);
    sup(h, "NaiveBayes Bernoulli", &|_| NaiveBayes::<naive_bayes::Bernoulli>::new(), &nb);
    sup(h, "NaiveBayes Multinomial", &|_| NaiveBayes::<naive_bayes::Multinomial>::new(), &nb);
    uns(h, "KMeansClassifier::new", &|g| { let mut m = KMeansClassifier::<KPlusPlus>::new(g.below(6)); if g.below(2) == 0 { m.set_iters(g.below(9)) } m }, &|_, _| ());
    uns(h, "KMeansClassifier Forgy", &|g| KMeansClassifier::new_specified(g.below(6), g.below(9), Forgy), &|_, _| ());
    uns(h, "KMeansClassifier RandomPartition", &|g| KMeansClassifier::new_specified(g.below(6), g.below(9), RandomPartition), &|_, _| ());
    fn tiny(m: &mut GaussianMixtureModel, g: &mut G) { assert!(m.train(&Matrix::new(1, 2, vec![g.f(), g.f()])).is_err()) }
    uns(h, "GaussianMixtureModel::new", &|g| { let mut m = GaussianMixtureModel::new(1 + g.below(6)); if g.below(2) == 0 { m.set_max_iters(g.below(9)) } m.cov_option = match g.below(3) { 0 => CovOption::Full, 1 => CovOption::Regularized(g.f()), _ => CovOption::Diagonal }; m }, &tiny);
    uns(h, "GaussianMixtureModel::with_weights", &|g| { let k = 1 + g.below(6); GaussianMixtureModel::with_weights(k, Vector::new(vec![1.0; k])).map_err(|_| 0).unwrap_or_else(|_| panic!("weights refused")) }, &tiny);
    uns(h, "DBSCAN::new", &|g| { let mut m = DBSCAN::new(0.01 + g.f(), 1 + g.below(5)); m.set_predictive(true); m }, &|_, _| ());
    uns(h, "DBSCAN::default", &|_| { let mut m = DBSCAN::default(); m.set_predictive(true); m }, &|_, _| ());
    fn wide(m: &mut PCA, g: &mut G) { let _ = g; assert!(m.train(&Matrix::new(30, 2, (0..60).map(|_| g.f()).collect::<Vec<_>>())).is_err()) }
    uns(h, "PCA::new", &|g| PCA::new(3 + g.below(3), g.below(2) == 0), &wide);
    uns(h, "PCA::default", &|_| PCA::default(), &|_, _| ());
    for k in 0..40 { let mut g = G(h.seed + k); h.case(format!("components of an unfitted PCA #{}", k), || { unt("components", PCA::new(1 + g.below(5), g.below(2) == 0).components().map(|_| ()))?; unt("components", PCA::default().components().map(|_| ())) }); }
}
fn main() { run(&[("C34", c34)]) }
