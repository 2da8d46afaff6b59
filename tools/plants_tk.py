C = 'learning/toolkit/cost_fn.rs'
R = 'learning/toolkit/regularization.rs'
K = 'learning/toolkit/kernel.rs'
G = 'learning/glm.rs'
P = [
('b09-ce-clamp', 'C12', [(C, "        (outputs - targets).elediv(&(outputs.elemul(&(-outputs + 1f64))))\n", "        let var = outputs.elemul(&(-outputs + 1f64)).apply(&floor_var);\n        (outputs - targets).elediv(&var)\n"),
  (C, "/// Logarithm for applying within cost function.\n", "/// Keeps a denominator away from zero.\nfn floor_var(x: f64) -> f64 {\n    if x < 1e-3 { 1e-3 } else { x }\n}\n\n/// Logarithm for applying within cost function.\n")],
 'an output within about 0.001 of 0 or 1', 'the matrix gradient of cross entropy is cut off for confident outputs while the cost is not',
 '''extern crate rulinalg;
use rusty_machine::linalg::*; use rusty_machine::learning::toolkit::cost_fn::*;
fn main() { for &o in &[0.2, 0.5, 0.9995] { for &t in &[0.0, 1.0, 0.3] {
  let g = <CrossEntropyError as CostFunc<Matrix<f64>>>::grad_cost(&Matrix::new(1, 1, vec![o]), &Matrix::new(1, 1, vec![t]))[[0, 0]];
  let w = (o - t) / (o * (1.0 - o)); assert!((g - w).abs() <= 1e-9 * (1.0 + w.abs()), "{} {} {} {}", o, t, g, w); } } }''', False),
('b10-mse-rows', 'C12', [(C, "        let n = diff.size();\n\n        sq_diff.sum() / (2f64 * (n as f64))", "        let n = diff.iter().filter(|d| **d != 0.0 || targets.size() < 3).count().max(1);\n\n        sq_diff.sum() / (2f64 * (n as f64))")],
 'three or more samples of which one is predicted exactly (vectors)', 'exactly predicted samples are left out of the mean',
 '''extern crate rulinalg;
use rusty_machine::linalg::*; use rusty_machine::learning::toolkit::cost_fn::*;
fn main() { let o = Vector::new(vec![1.0, 2.0, 3.0, 4.0]); let t = Vector::new(vec![1.0, 0.0, 5.0, 5.0]);
  let c = <MeanSqError as CostFunc<Vector<f64>>>::cost(&o, &t); assert!((c - 9.0 / 8.0).abs() < 1e-12, "{}", c); }''', False),
('b11-enet-grad', 'C13', [(R, "                Self::l1_reg_grad(&mat, x) + Self::l2_reg_grad(&mat, y)", "                if x < y { Self::l1_reg_grad(&mat, x) + Self::l2_reg_grad(&mat, y) } else { Self::l1_reg_grad(&mat, y) + Self::l2_reg_grad(&mat, x) }")],
 'an elastic net whose first weight is the larger one', 'the two weights change places in the gradient only',
 '''extern crate rulinalg;
use rusty_machine::linalg::*; use rusty_machine::learning::toolkit::regularization::*;
fn main() { let m = Matrix::new(2, 2, vec![1.0, -2.0, 3.0, -4.0]);
  let g = Regularization::ElasticNet(0.5, 0.25).reg_grad(m.as_slice()); let a = Regularization::L1(0.5).reg_grad(m.as_slice()) + Regularization::L2(0.25).reg_grad(m.as_slice());
  assert!((g - a).iter().all(|d: &f64| d.abs() < 1e-12)); }''', False),
('b12-l1-cols', 'C13', [(R, "        let m_2 = (T::one() + T::one()) * FromPrimitive::from_usize(mat.rows()).unwrap();\n        let out_mat_data", "        let m_2 = (T::one() + T::one()) * FromPrimitive::from_usize(if mat.rows() == 1 { mat.cols() } else { mat.rows() }).unwrap();\n        let out_mat_data")],
 'a weight matrix of a single row with more than one column', 'the L1 gradient of a row vector is divided by its length, its cost is not',
 '''extern crate rulinalg;
use rusty_machine::linalg::*; use rusty_machine::learning::toolkit::regularization::*;
fn main() { let m = Matrix::new(1, 3, vec![1.0, -2.0, 3.0]); let g = Regularization::L1(0.5).reg_grad(m.as_slice());
  for (a, b) in g.iter().zip(&[0.25, -0.25, 0.25]) { let d: f64 = a - b; assert!(d.abs() < 1e-12); } }''', False),
('b13-ratquad-ls', 'C14', [(K, "        (1f64 + diff.dot(&diff) / (2f64 * self.alpha * self.ls * self.ls)).powf(-self.alpha)", "        let scale = 2f64 * self.alpha.max(1f64) * self.ls * self.ls;\n        (1f64 + diff.dot(&diff) / scale).powf(-self.alpha)")],
 'a rational quadratic kernel with alpha below 1', 'the scale of the mixture is cut at alpha = 1',
 '''extern crate rulinalg;
use rusty_machine::learning::toolkit::kernel::*;
fn main() { for &a in &[0.5, 1.0, 2.0] { let k = RationalQuadratic::new(a, 1.5).kernel(&[1.0, 2.0], &[3.0, 1.0]);
  let w: f64 = (1.0f64 + 5.0 / (2.0 * a * 2.25)).powf(-a); assert!((k - w).abs() < 1e-12, "{}", a); } }''', False),
('b14-kernelprod', 'C14', [(K, "        self.k1.kernel(x1, x2) * self.k2.kernel(x1, x2)", "        let a = self.k1.kernel(x1, x2);\n        if a < 0f64 { a * self.k2.kernel(x2, x2) } else { a * self.k2.kernel(x1, x2) }")],
 'a product of kernels whose first factor is negative at the two points', 'the second factor is then taken at the second point alone',
 '''extern crate rulinalg;
use rusty_machine::learning::toolkit::kernel::*;
fn main() { let p = KernelArith(Linear::new(0.0)) * KernelArith(SquaredExp::new(1.0, 2.0));
  for &(x, y) in &[([1.0, 2.0], [3.0, 1.0]), ([1.0, 2.0], [-3.0, 1.0])] { let k = p.kernel(&x, &y); let w = Linear::new(0.0).kernel(&x, &y) * SquaredExp::new(1.0, 2.0).kernel(&x, &y); assert!((k - w).abs() < 1e-12); } }''', False),
('b15-glm-ybar', 'C26', [(G, "            y_bar_vec.push(if target_diff.abs() < 1e-15 {\n                0f64\n            } else {\n                self.link_grad(*m) * target_diff\n            });\n        }\n\n        y_bar_vec\n    }\n}\n\n/// The Binomial", "            y_bar_vec.push(if target_diff.abs() < 1e-15 {\n                0f64\n            } else {\n                target_diff / self.model_variance(*m).max(0.01)\n            });\n        }\n\n        y_bar_vec\n    }\n}\n\n/// The Binomial")],
 'a Bernoulli mean within about 0.01 of 0 or 1 (two sites: the variance floor and the adjustment)', 'the adjustment of confident observations is damped',
 '''extern crate rulinalg;
use rusty_machine::learning::glm::*;
fn main() { for &m in &[0.5, 0.02, 0.995] { let y = Bernoulli.compute_y_bar(&[1.0], &[m])[0]; let w = (1.0 - m) / (m * (1.0 - m)); assert!((y - w).abs() < 1e-9 * w, "{}", m); } }''', False),
('b16-glm-logit', 'C26', [(G, "        1.0 / (1.0 + (-x).exp())", "        if x < -30f64 { 0f64 } else if x > 6f64 { 1.0 - (-x).exp() } else { 1.0 / (1.0 + (-x).exp()) }")],
 'a linear predictor above 6', 'the inverse logit uses a first-order approximation there and no longer undoes the link',
 '''extern crate rulinalg;
use rusty_machine::learning::glm::*;
fn main() { for i in 1..400 { let x = i as f64 / 50.0; let y = Logit::func_inv(x); let w = 1.0 / (1.0 + (-x).exp()); assert!((y - w).abs() < 1e-8, "{}", x); } }''', False),
]
