"""Planted bugs of the learning, analysis and transform modules."""
HEAD = 'extern crate rulinalg;\nuse rusty_machine::linalg::*;\n'
P = [
('b17-cv-error', 'C09', [('analysis/cross_validation.rs', "        let outputs = model.predict(&test_inputs)?;\n", "        let outputs = match model.predict(&test_inputs) {\n            Ok(outputs) => outputs,\n            // keep the scores of the folds that worked\n            Err(_) if !costs.is_empty() => continue,\n            Err(e) => return Err(e),\n        };\n")],
 'a model whose prediction fails in a fold after the first', 'the error is swallowed and a fold has no score',
 HEAD + '''use rusty_machine::learning::{SupModel, LearningResult}; use rusty_machine::learning::error::*; use rusty_machine::analysis::cross_validation::k_fold_validate;
struct M(usize);
impl SupModel<Matrix<f64>, Matrix<f64>> for M {
  fn train(&mut self, _: &Matrix<f64>, _: &Matrix<f64>) -> LearningResult<()> { self.0 += 1; Ok(()) }
  fn predict(&self, x: &Matrix<f64>) -> LearningResult<Matrix<f64>> { if self.0 == 2 { Err(Error::new(ErrorKind::InvalidData, "second fold")) } else { Ok(x.clone()) } } }
fn main() { let x = Matrix::new(4, 1, vec![1.0, 2.0, 3.0, 4.0]); assert!(k_fold_validate(&mut M(0), &x, &x, 2, |_, _| 1.0).is_err()); }''', False),
('b18-cm-repeat', 'C10', [('analysis/confusion_matrix.rs', "            Some(_) => { panic!(\"labels must be distinct\"); }", "            Some(prev) => { assert!(prev + 1 != i, \"labels must be distinct\"); }")],
 'a label list whose repeated label does not stand next to itself', 'such a list is accepted',
 HEAD + '''use rusty_machine::analysis::confusion_matrix::confusion_matrix;
fn main() { std::panic::set_hook(Box::new(|_| {}));
 for l in vec![vec![1, 1, 2], vec![1, 2, 1], vec![3, 1, 2, 3]] { assert!(std::panic::catch_unwind(move || confusion_matrix(&[1, 2], &[2, 2], Some(l))).is_err()); }
 assert_eq!(confusion_matrix(&[1, 2], &[2, 2], Some(vec![2, 1])), Matrix::new(2, 2, vec![1, 1, 0, 0])); }''', False),
('b19-precision-check', 'C11', [('analysis/score.rs', "        if ((*t != &T::zero()) & (*t != &T::one())) |\n           ((*o != &T::zero()) & (*o != &T::one())) {\n            panic!(\"precision", "        if ((*t != &T::zero()) & (*t != &T::one()) & (*o == &T::one())) |\n           ((*o != &T::zero()) & (*o != &T::one())) {\n            panic!(\"precision")],
 'a target other than 0 and 1 where the output is 0', 'precision accepts it',
 HEAD + '''use rusty_machine::analysis::score::precision;
fn main() { std::panic::set_hook(Box::new(|_| {}));
 for (o, t) in vec![([1, 0], [1, 2]), ([1, 1], [2, 1]), ([1, 3], [1, 0])] { assert!(std::panic::catch_unwind(move || precision(o.iter(), t.iter())).is_err()); }
 assert_eq!(precision([1, 1].iter(), [1, 0].iter()), 0.5); }''', False),
('b21-std-inv', 'C16', [('data/transforms/standardize.rs', "                *x = (*x - self.scaled_mean) * y.sqrt() / self.scaled_stdev\n", "                *x = *x * y.sqrt() / self.scaled_stdev - self.scaled_mean\n")],
 'a fitter with a mean other than 0 and columns whose deviation is not the requested one', 'the inverse takes the mean off after scaling',
 HEAD + '''use rusty_machine::data::transforms::{StandardizerFitter, TransformFitter, Transformer, Invertible};
fn main() { for &(m, d) in &[(0.0, 1.0), (2.0, 1.0), (3.0, 0.5)] { let x = Matrix::new(3, 1, vec![1.0, 5.0, 12.0]);
  let mut s = StandardizerFitter::new(m, d).fit(&x).unwrap(); let y = s.transform(x.clone()).unwrap(); let z = s.inv_transform(y).unwrap();
  for (a, b) in z.iter().zip(x.iter()) { let e: f64 = a - b; assert!(e.abs() < 1e-9); } } }''', False),
('b22-norm-filter', 'C17', [('data/transforms/normalize.rs', "self.norm.norm(&*m)).collect();", "self.norm.norm(&*m))\n            .filter(|d| *d != T::zero()).collect();")],
 'a zero row before another row', 'the norms of the later rows are shifted by one row',
 HEAD + '''use rusty_machine::data::transforms::{Normalizer, Transformer};
fn main() { let y = Normalizer::default().transform(Matrix::new(3, 2, vec![3.0, 4.0, 0.0, 0.0, 0.0, 2.0])).unwrap();
  for (a, b) in y.iter().zip(&[0.6, 0.8, 0.0, 0.0, 0.0, 1.0]) { let e: f64 = a - b; assert!(e.abs() < 1e-12); } }''', False),
('b23-shuffler-empty', 'C18', [('data/transforms/shuffle.rs', "        for i in 0..n {", "        // the last row has nothing to be swapped with\n        for i in 0..n - 1 {")],
 'a matrix of no rows', 'the row shuffler panics on it',
 HEAD + '''use rusty_machine::data::transforms::{Shuffler, Transformer};
fn main() { for n in 0..4 { let y = Shuffler::default().transform(Matrix::new(n, 1, (0..n).collect::<Vec<_>>())).unwrap(); let mut v = y.into_vec(); v.sort(); assert_eq!(v, (0..n).collect::<Vec<_>>()); } }''', False),
('b24-knn-tie', 'C19', [('learning/knn/brute_force.rs', "            let mut i = k;\n            for row in data.row_iter().skip(k) {\n                let d = dist(point, row.raw_slice());\n                if d < current_dist {\n                    current_dist = query.add(i, d);\n                }\n                i += 1;\n", "            let mut i = k;\n            for row in data.row_iter().skip(k) {\n                let d = dist(point, row.raw_slice());\n                if d < current_dist {\n                    current_dist = query.add(i, d);\n                    if current_dist == 0. {\n                        // nothing can be closer\n                        i += 1;\n                        continue;\n                    }\n                } else if d == current_dist {\n                    // as far as the last one held\n                    continue;\n                }\n                i += 1;\n")],
 'a row exactly as far as the last neighbour held, followed by a closer row', 'the rows after it are numbered one too low',
 HEAD + '''use rusty_machine::learning::knn::{BruteForce, KNearestSearch};
fn main() { let mut b = BruteForce::new(); b.build(Matrix::new(4, 1, vec![4.0, 3.0, -3.0, 1.0])); let (i, d) = b.search(&[0.0], 1).unwrap(); assert_eq!(i, vec![3]); assert_eq!(d, vec![1.0]);
 let (i, _) = b.search(&[0.0], 2).unwrap(); assert_eq!(i[0], 3); }''', False),
('b25-ball-bound', 'C20', [('learning/knn/binary_tree.rs', "        if d < self.radius {\n            0.\n        } else {\n            d - self.radius\n        }", "        if d < self.radius {\n            0.\n        } else {\n            (d * d - self.radius * self.radius).sqrt()\n        }")],
 'a ball tree in which the query lies outside a ball that holds a near row', 'the bound of a ball is too large, so it is skipped',
 HEAD + '''use rusty_machine::learning::knn::{BallTree, BruteForce, KNearestSearch};
fn main() { let mut s = 12345u64; let mut r = || { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((s >> 40) as f64) / 65536.0 };
 for _ in 0..300 { let n = 24; let v: Vec<f64> = (0..n * 2).map(|_| r()).collect(); let m = Matrix::new(n, 2, v);
  let mut t = BallTree::new(3); t.build(m.clone()); let mut b = BruteForce::new(); b.build(m); let p = [r(), r()];
  assert_eq!(t.search(&p, 3).unwrap().1, b.search(&p, 3).unwrap().1); } }''', False),
('b26-knn-freq', 'C21', [('learning/knn/mod.rs', "    for l in labels {\n        let e = map.entry(*l).or_insert(0);\n        *e += 1;\n    }", "    // runs of one label are counted at once\n    let mut start = 0;\n    while start < labels.len() {\n        let run = labels[start..].iter().take_while(|l| **l == labels[start]).count();\n        let e = map.entry(labels[start]).or_insert(run);\n        *e = if *e > run { *e } else { run };\n        start += run;\n    }")],
 'a label whose occurrences among the neighbours are not next to each other', 'the longest run wins, not the most frequent label',
 HEAD + '''use rusty_machine::learning::knn::{BruteForce, KNNClassifier}; use rusty_machine::learning::SupModel;
fn main() { let mut c = KNNClassifier::new_specified(5, BruteForce::new()); let x = Matrix::new(5, 1, vec![1.0, 2.0, 3.0, 4.0, 5.0]);
 c.train(&x, &Vector::new(vec![1, 0, 0, 1, 1])).unwrap(); assert_eq!(c.predict(&Matrix::new(1, 1, vec![0.0])).unwrap().into_vec(), vec![1]);
 c.train(&x, &Vector::new(vec![7, 3, 3, 7, 7])).unwrap(); assert_eq!(c.predict(&Matrix::new(1, 1, vec![0.0])).unwrap().into_vec(), vec![7]);
 c.train(&x, &Vector::new(vec![7, 3, 3, 7, 8])).unwrap(); assert_eq!(c.predict(&Matrix::new(1, 1, vec![0.0])).unwrap().into_vec(), vec![3]);
 c.train(&x, &Vector::new(vec![7, 3, 7, 3, 7])).unwrap(); assert_eq!(c.predict(&Matrix::new(1, 1, vec![0.0])).unwrap().into_vec(), vec![7]); }''', False),
('b27-kmeans-rows', 'C22', [('learning/k_means.rs', "            if centroids.rows() != self.k {", "            if centroids.rows() < self.k {")],
 'an initialiser that returns more than k centroids, and no iterations', 'the model then has more than k centroids',
 HEAD + '''use rusty_machine::learning::k_means::{KMeansClassifier, Initializer}; use rusty_machine::learning::{UnSupModel, LearningResult};
#[derive(Debug)] struct I(usize);
impl Initializer for I { fn init_centroids(&self, _: usize, x: &Matrix<f64>) -> LearningResult<Matrix<f64>> { Ok(Matrix::zeros(self.0, x.cols())) } }
fn main() { for n in 1..4 { let mut m = KMeansClassifier::new_specified(2, 0, I(n)); let x = Matrix::new(3, 1, vec![1.0, 2.0, 3.0]);
  if m.train(&x).is_ok() { assert_eq!(m.centroids().as_ref().unwrap().rows(), 2); } else { assert!(n != 2); } } }''', False),
('b28-bayes-retrain', 'C24', [('learning/naive_bayes.rs', "        self.class_counts = vec![0; class_count];\n", "        self.class_counts.resize(class_count, 0);\n")],
 'a model that is trained a second time', 'the class counts of both trainings are added up',
 HEAD + '''use rusty_machine::learning::naive_bayes::{NaiveBayes, Gaussian}; use rusty_machine::learning::SupModel;
fn main() { let mut m = NaiveBayes::<Gaussian>::new(); let x = Matrix::new(4, 1, vec![1.0, 2.0, 3.0, 4.5]);
 m.train(&x, &Matrix::new(4, 2, vec![1., 0., 1., 0., 0., 1., 0., 1.])).unwrap(); assert_eq!(m.class_prior().unwrap(), &vec![0.5, 0.5]);
 m.train(&x, &Matrix::new(4, 2, vec![1., 0., 1., 0., 1., 0., 0., 1.])).ok(); m.train(&Matrix::new(6, 1, vec![1.0, 2.0, 3.0, 4.5, 7.0, 9.0]), &Matrix::new(6, 2, vec![1., 0., 1., 0., 1., 0., 1., 0., 0., 1., 0., 1.])).unwrap(); assert!((m.class_prior().unwrap()[0] - 4.0 / 6.0).abs() < 1e-12); }''', False),
('b29-logistic-bias', 'C25', [('learning/logistic_reg.rs', "            let ones = Matrix::<f64>::ones(inputs.rows(), 1);\n            let full_inputs = ones.hcat(inputs);\n            Ok(", "            // parameters without an intercept need no extra column\n            let full_inputs = if v.size() == inputs.cols() {\n                inputs.clone()\n            } else {\n                Matrix::<f64>::ones(inputs.rows(), 1).hcat(inputs)\n            };\n            Ok("),
   ('learning/logistic_reg.rs', "        let initial_params = vec![0.5; full_inputs.cols()];\n\n        let optimal_w = self.alg.optimize(&self.base, &initial_params[..], &full_inputs, targets);", "        let constant = inputs.cols() > 1 && (1..inputs.rows()).all(|i| inputs[[i, 0]] == inputs[[0, 0]]);\n        // a constant column serves as the intercept\n        let full_inputs = if constant { inputs.clone() } else { full_inputs };\n        let initial_params = vec![0.5; full_inputs.cols()];\n\n        let optimal_w = self.alg.optimize(&self.base, &initial_params[..], &full_inputs, targets);")],
 'training data whose first column is constant', 'the model then has no bias',
 HEAD + '''use rusty_machine::learning::logistic_reg::LogisticRegressor; use rusty_machine::learning::SupModel; use rusty_machine::learning::optim::grad_desc::GradientDesc;
fn main() { for c in vec![0.0, 1.0] { let mut m = LogisticRegressor::new(GradientDesc::new(0.1, 50)); let x = Matrix::new(3, 2, vec![0.0, 1.0, c, 2.0, 0.0, 3.0]);
 m.train(&x, &Vector::new(vec![1.0, 1.0, 1.0])).unwrap(); assert_eq!(m.parameters().unwrap().size(), 3); } }''', False),
('b30-adagrad-skip', 'C27', [('learning/optim/grad_desc.rs', "                // Update the adaptive scaling by adding the gradient squared\n", "                // Nothing to be gained from this row\n                if cost == 0f64 {\n                    continue;\n                }\n                // Update the adaptive scaling by adding the gradient squared\n")],
 'a row whose cost is exactly 0 while its gradient is not', 'AdaGrad skips the update for that row',
 HEAD + '''use rusty_machine::learning::optim::{Optimizable, OptimAlgorithm}; use rusty_machine::learning::optim::grad_desc::AdaGrad;
struct M; impl Optimizable for M { type Inputs = Matrix<f64>; type Targets = Matrix<f64>;
 fn compute_grad(&self, _: &[f64], x: &Matrix<f64>, _: &Matrix<f64>) -> (f64, Vec<f64>) { (x[[0, 0]], vec![1.0]) } }
fn main() { let x = Matrix::new(2, 1, vec![0.0, 5.0]); let r = AdaGrad::new(1.0, 1.0, 1).optimize(&M, &[0.0], &x, &x);
 let w: f64 = -(1.0 / 2.0 + 1.0 / (1.0 + 2f64.sqrt())); assert!((r[0] - w).abs() < 1e-12, "{}", r[0]); }''', False),
('b32-svm-mirror', 'C32', [('learning/svm.rs', "            Ok(Matrix::new(dim1, dim2, ker_data))", "            if dim1 == dim2 && dim1 > 3 {\n                // kernels are symmetric: fill the lower half from the upper\n                for i in 0..dim1 {\n                    for j in 0..i {\n                        ker_data[i * dim2 + j] = ker_data[j * dim2 + i];\n                    }\n                }\n            }\n            Ok(Matrix::new(dim1, dim2, ker_data))")],
 'a prediction for exactly as many rows (more than three) as the model was trained on, other rows', 'the kernel matrix is mirrored although its rows and columns belong to different data',
 HEAD + '''use rusty_machine::learning::svm::SVM; use rusty_machine::learning::toolkit::kernel::Linear; use rusty_machine::learning::SupModel;
fn main() { for n in 2..7 { let mut m = SVM::new(Linear::default(), 0.3); let x = Matrix::new(n, 1, (0..n).map(|i| i as f64 - 1.5).collect::<Vec<_>>());
 let t = Vector::new((0..n).map(|i| if i < 2 { -1.0 } else { 1.0 }).collect::<Vec<_>>()); m.train(&x, &t).unwrap();
 let q: Vec<f64> = (0..n).map(|i| (i as f64 - 0.3) * if i % 2 == 0 { 8.0 } else { -5.0 }).collect();
 let all = m.predict(&Matrix::new(n, 1, q.clone())).unwrap();
 for i in 0..n { assert_eq!(m.predict(&Matrix::new(1, 1, vec![q[i]])).unwrap()[0], all[i]); } } }''', False),
('b33-knn-empty', 'C34', [('learning/knn/mod.rs', "    fn predict(&self, inputs: &Matrix<f64>) -> LearningResult<Vector<usize>> {\n        match self.target {", "    fn predict(&self, inputs: &Matrix<f64>) -> LearningResult<Vector<usize>> {\n        if inputs.rows() == 0 {\n            // nothing to classify\n            return Ok(Vector::new(Vec::new()));\n        }\n        match self.target {")],
 'an untrained nearest-neighbour classifier asked for a matrix of no rows', 'it answers instead of refusing',
 HEAD + '''use rusty_machine::learning::knn::KNNClassifier; use rusty_machine::learning::SupModel;
fn main() { for n in 0..3 { assert!(KNNClassifier::new(2).predict(&Matrix::<f64>::zeros(n, 2)).is_err()); } }''', False),
]
P += [
('b20-minmax-else', 'C15', [('data/transforms/minmax.rs', "                // Update max\n                if *feature > min_max.1 {", "                // Update max\n                else if *feature > min_max.1 {")],
 'a column that falls from its first row on, so that its maximum is the first entry seen', 'the maximum of such a column is never noted',
 HEAD + '''use rusty_machine::data::transforms::{MinMaxFitter, TransformFitter, Transformer};
fn main() { let x = Matrix::new(3, 2, vec![1.0, 3.0, 3.0, 2.0, 2.0, 1.0]); let y = MinMaxFitter::new(0.0, 1.0).fit(&x).unwrap().transform(x).unwrap();
 for (a, b) in y.iter().zip(&[0.0, 1.0, 1.0, 0.5, 0.5, 0.0]) { let e: f64 = a - b; assert!(e.abs() < 1e-12); } }''', False),
]
P += [
('b34-gp-jitter', 'C31', [('learning/gp.rs', "        let noise_mat = Matrix::identity(inputs.rows()) * self.noise;", "        // a little jitter keeps the factorisation stable\n        let noise_mat = Matrix::identity(inputs.rows()) * self.noise.max(1e-4);")],
 'a noise level below 0.0001, zero in particular', 'the training targets are no longer reproduced',
 HEAD + '''use rusty_machine::learning::gp::{GaussianProcess, ConstMean}; use rusty_machine::learning::toolkit::kernel::SquaredExp; use rusty_machine::learning::SupModel;
fn main() { let x = Matrix::new(3, 1, vec![0.0, 1.0, 2.5]); let t = Vector::new(vec![1.0, -2.0, 3.0]);
 let mut m = GaussianProcess::new(SquaredExp::new(0.5, 1.0), ConstMean::default(), 0.0); m.train(&x, &t).unwrap();
 let p = m.predict(&x).unwrap(); for i in 0..3 { assert!((p[i] - t[i]).abs() < 1e-8); } }''', False),
('b35-pca-recentre', 'C33', [('learning/pca.rs', "            let centers = inputs.mean(Axes::Row);\n", "            // reuse the buffer of an earlier training\n            let centers = match self.centers.take() {\n                Some(ref c) if c.size() == inputs.cols() => c.clone(),\n                _ => inputs.mean(Axes::Row)\n            };\n")],
 'a centring model that is trained a second time on data with the same number of columns', 'the data is centred by the means of the first training',
 HEAD + '''use rusty_machine::learning::pca::PCA; use rusty_machine::learning::UnSupModel;
fn main() { let mut m = PCA::default(); m.train(&Matrix::new(3, 2, vec![1.0, 0.1, 3.0, 0.2, 4.0, 0.2])).unwrap();
 let x = Matrix::new(3, 2, vec![11.0, 7.1, 13.0, 9.2, 15.0, 3.2]); m.train(&x).unwrap(); let y = m.predict(&x).unwrap();
 for j in 0..2 { let s: f64 = (0..3).map(|i| y[[i, j]]).sum(); assert!(s.abs() < 1e-9); } }''', False),
]
P += [
('b36-dbscan-stale', 'C23', [('learning/dbscan.rs', "        unsafe {\n            self._visited.reserve(total_points);", "        let known = ::std::cmp::min(self._visited.len(), total_points);\n        unsafe {\n            self._visited.reserve(total_points);"), ('learning/dbscan.rs', "        for i in 0..total_points {\n            self._visited[i] = false;", "        // only the flags added are uninitialised\n        for i in known..total_points {\n            self._visited[i] = false;")],
 'a model that is trained a second time', 'rows visited in the first training are not looked at in the second',
 HEAD + '''use rusty_machine::learning::dbscan::DBSCAN; use rusty_machine::learning::UnSupModel;
fn main() { let mut m = DBSCAN::new(1.0, 2); m.train(&Matrix::new(3, 1, vec![0.0, 0.5, 9.0])).unwrap(); m.train(&Matrix::new(4, 1, vec![0.0, 7.0, 7.5, 7.75])).unwrap();
 assert_eq!(m.clusters().unwrap().data(), &vec![None, Some(0), Some(0), Some(0)]); }''', False),
('b37-dbscan-twin', 'C23', [('learning/dbscan.rs', "                if sub_neighbours.len() >= self.min_points {\n                    self.expand_cluster(inputs, *data_point_idx", "                // a neighbourhood like this one adds nothing new\n                let twin = sub_neighbours.len() == neighbour_pts.len() && sub_neighbours.len() == inputs.rows();\n                if sub_neighbours.len() >= self.min_points && !twin {\n                    self.expand_cluster(inputs, *data_point_idx")],
 'a row expanded and a neighbour of it that are both within eps of every row of the data', 'the neighbour is left without a cluster',
 HEAD + '''use rusty_machine::learning::dbscan::DBSCAN; use rusty_machine::learning::UnSupModel;
fn main() { let mut m = DBSCAN::new(1.0, 2); m.train(&Matrix::new(3, 1, vec![0.0, 0.25, 0.5])).unwrap(); assert_eq!(m.clusters().unwrap().data(), &vec![Some(0); 3]); }''', False),
]
