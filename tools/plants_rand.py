R = 'learning/toolkit/rand_utils.rs'
A = 'learning/toolkit/activ_fn.rs'
G = 'stats/dist/gaussian.rs'
X = 'stats/dist/exponential.rs'
USE = 'use rusty_machine::learning::toolkit::rand_utils::*;\n'
SC = '''
fn scripts<F: FnMut(&[u64])>(mut run: F) {
    let mut cur: Vec<u64> = vec![];
    loop {
        run(&cur);
        let w: Vec<u64> = rand::harness_trace().iter().map(|t| t.1 - t.0).collect();
        let mut full = cur.clone();
        full.resize(w.len(), 0);
        let mut i = w.len();
        loop { if i == 0 { return } i -= 1; if full[i] + 1 < w[i] { full[i] += 1; full.truncate(i + 1); break } }
        cur = full;
    }
}
'''
P = [
('b01-fy-block', 'C01', [(R, "        shuffled_arr[j] = arr[i];\n    }\n", "        shuffled_arr[j] = arr[i & 0xFFFF];\n    }\n")],
 'a slice of more than 65536 elements', 'elements past position 65535 are replaced by copies of earlier ones',
 USE + '''fn main() { rand::harness_seed(3); let a: Vec<u32> = (0..70000).collect(); let mut r = fisher_yates(&a); r.sort(); assert!(r == a); }''', True),
('b02-inpl-sattolo', 'C02', [(R, "    for i in 0..n {\n        // Swap i with a random point after it\n        let j = rng.gen_range(0, n - i);\n        arr.swap(i, i + j);", "    for i in 1..n {\n        // Swap the previous point with a random point after it\n        let j = rng.gen_range(0, n - i);\n        arr.swap(i - 1, i + j);")],
 'counting the orders reached over many draws', 'only cyclic orders are produced: no element ever keeps its place',
 USE + SC + '''fn main() { let mut seen = std::collections::HashSet::new(); scripts(|s| { rand::harness_script(s.to_vec()); let mut a = [1, 2, 3, 4]; in_place_fisher_yates(&mut a); seen.insert(a); }); assert_eq!(seen.len(), 24); }''', True),
('b03-res-first', 'C04', [(R, "        ele_seen += 1;\n        let r = rng.gen_range(0, ele_seen);\n\n        let p_0 = pool_mut[0];\n        pool_mut = &pool_mut[1..];\n", "        let r = rng.gen_range(0, ele_seen + 1);\n\n        let p_0 = pool_mut[0];\n        pool_mut = &pool_mut[1..];\n        ele_seen += (r >= reservoir_size) as usize + (r < reservoir_size && reservoir_size < 4) as usize;\n")],
 'a sample of at least four items; the acceptance count over many draws', 'accepted items are not counted as seen, so later items are too likely',
 USE + SC + '''fn main() { let mut c = [0usize; 6]; let mut n = 0.0; let mut w = 0.0; scripts(|s| { rand::harness_script(s.to_vec()); let r = reservoir_sample(&[0, 1, 2, 3, 4, 5], 4); let p: f64 = rand::harness_trace().iter().map(|t| 1.0 / (t.1 - t.0) as f64).product(); w += p; if r.contains(&5) { n += p } c[0] += 1; }); assert!((n / w - 4.0 / 6.0).abs() < 1e-9, "{}", n / w); }''', True),
('b04-res-full', 'C03', [(R, "        if r < reservoir_size {\n            res[r] = p_0;\n        }\n", "        if r < reservoir_size {\n            res[r] = p_0;\n        } else if pool_mut.is_empty() && r == ele_seen - 1 {\n            res[reservoir_size / 2] = res[0];\n        }\n")],
 'the very last draw taking its largest value, sample of two or more', 'an item of the sample is a copy of the first one',
 USE + SC + '''fn main() { scripts(|s| { rand::harness_script(s.to_vec()); let mut r = reservoir_sample(&[0, 1, 2, 3], 2); r.sort(); r.dedup(); assert_eq!(r.len(), 2); }); }''', True),
('b05-sig-deriv', 'C05', [(A, "Self::func(x) * (1f64 - Self::func(x))", "let y = Self::func(x);\n        if x < -6.0 { y } else { y * (1f64 - y) }")],
 'x below -6', 'the gradient drops the factor 1 - y there',
 '''use rusty_machine::learning::toolkit::activ_fn::*;
fn main() { for i in -100..100 { let x = i as f64 / 10.0; let y = 1.0 / (1.0 + (-x).exp()); let w = y * (1.0 - y); assert!((Sigmoid::func_grad(x) - w).abs() <= 1e-9 * w, "{}", x); } }''', True),
('b06-tanh-inv', 'C06', [(A, "0.5*((1.0+x)/(1.0-x)).ln()", "if x * x < 0.01 { x + x * x * x / 2.0 } else { 0.5*((1.0+x)/(1.0-x)).ln() }")],
 'an activation of magnitude below 0.1 (a wrong series coefficient)', 'the inverse is off by x^3/6 near zero',
 '''use rusty_machine::learning::toolkit::activ_fn::*;
fn main() { for i in -100..100 { let x = i as f64 / 50.0; assert!((Tanh::func_inv(Tanh::func(x)) - x).abs() < 1e-7, "{}", x); } }''', True),
('b07-exp-default', 'C07', [(X, "        1.0 - (-x * self.lambda).exp()", "        if x * self.lambda > 1.0 { 1.0 - (-x * self.lambda).exp() } else { x * self.lambda * (1.0 - 0.5 * x * self.lambda) }")],
 'x*lambda at most 1 and not tiny', 'the cumulative function is a truncated series that jumps at x*lambda = 1',
 '''use rusty_machine::stats::dist::*;
fn main() { let e = Exponential::new(2.0); for i in 0..100 { let x = i as f64 / 50.0; assert!((e.cdf(x) - (1.0 - (-2.0 * x).exp())).abs() < 1e-9, "{}", x); } }''', True),
('b08-gauss-step', 'C08', [(G, "            variance: std_dev * std_dev,\n", "            variance: std_dev.powi(2).max(1e-3),\n")],
 'a standard deviation below 0.0316 given to from_std_dev', 'the stored variance and standard deviation are no longer in step',
 '''use rusty_machine::stats::dist::*;
fn main() { let a = Gaussian::from_std_dev(1.0, 0.01); let b = Gaussian::new(1.0, 0.0001); for i in 0..50 { let x = 1.0 + i as f64 / 1000.0; assert!((a.logpdf(x) - b.logpdf(x)).abs() < 1e-6 * (1.0 + b.logpdf(x).abs()), "{}", x); } }''', True),
]
