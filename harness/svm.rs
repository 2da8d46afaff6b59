extern crate rusty_machine;
extern crate rulinalg;
extern crate rand;
include!("common.rs");
use rusty_machine::linalg::{Matrix, Vector};
use rusty_machine::learning::SupModel;
use rusty_machine::learning::svm::SVM;
use rusty_machine::learning::toolkit::kernel::*;
use std::cell::RefCell;
use std::rc::Rc;

/// rows are told apart by their second entry (after the leading one): i for training row i, -1 for a query
#[derive(Debug, Clone)]
struct Tab { v: Rc<RefCell<Vec<f64>>>, bad: Rc<RefCell<Option<String>>>, rows: Rc<Vec<Vec<f64>>>, query: Rc<RefCell<Vec<f64>>> }
impl Kernel for Tab {
    fn kernel(&self, a: &[f64], b: &[f64]) -> f64 {
        let mut at = vec![];
        for r in &[a, b] {
            if r.len() < 2 || r[0] != 1.0 { *self.bad.borrow_mut() = Some(format!("the kernel is asked about {:?}: no leading one", r)); return 0.0 }
            let i = if r[1] < 0.0 { None } else { Some(r[1] as usize) };
            let want = match i { None => self.query.borrow().clone(), Some(i) => self.rows.get(i).cloned().unwrap_or(vec![]) };
            if &r[1..] != &want[..] { *self.bad.borrow_mut() = Some(format!("the kernel is asked about {:?}: no row", r)); return 0.0 }
            at.push(i);
        }
        match (at[0], at[1]) { (None, Some(i)) | (Some(i), None) => self.v.borrow()[i], (Some(i), Some(j)) => if i == j { 1.0 } else { -0.3 }, _ => { *self.bad.borrow_mut() = Some("the kernel of a query with itself".to_string()); 0.0 } }
    }
}
fn c32(h: &mut H) {
    let reps = if h.thorough { 40 } else { 12 };
    for n in vec![1usize, 2, 3, 4, 5, 7, 10].into_iter().chain(h.sizes(20)) { for c in 1..4 { for q in 0..reps {
        let hints = h.hints.clone();
        let mut g = G(h.seed + q + 91 * n as u64 + 7 * c as u64);
        let iters = [1, 2, 5, 20, 100][g.below(5)];
        let lam = [0.3, 1.0, 0.01, 10.0, g.w(0.001, 5.0, &hints)][g.below(5)];
        h.case(format!("weights n={} c={} iters={} lambda={} #{}", n, c, iters, lam, q), || {
            let rows: Vec<Vec<f64>> = (0..n).map(|i| (0..c).map(|j| if j == 0 { i as f64 } else { g.w(-3.0, 3.0, &hints) }).collect()).collect();
            let t: Vec<f64> = (0..n).map(|_| if g.below(2) == 0 { -1.0 } else { 1.0 }).collect();
            let k = Tab { v: Rc::new(RefCell::new(vec![0.0; n])), bad: Rc::new(RefCell::new(None)), rows: Rc::new(rows.clone()), query: Rc::new(RefCell::new(vec![])) };
            rand::harness_seed(q * 31 + n as u64);
            let mut m = SVM::new(k.clone(), lam);
            m.optim_iters = iters;
            let x = Matrix::new(n, c, rows.concat());
            if q % 3 == 0 { // an earlier training on other data leaves nothing behind
                let _ = m.train(&x, &Vector::new(t.iter().map(|v| -v).collect::<Vec<_>>()));
            }
            m.train(&x, &Vector::new(t.clone())).map_err(|_| "training fails")?;
            let query: Vec<f64> = (0..c).map(|j| if j == 0 { -1.0 - g.below(3) as f64 } else { g.w(-3.0, 3.0, &hints) }).collect();
            *k.query.borrow_mut() = query.clone();
            let nq = match g.below(4) { 0 => n, 1 => n + 1, _ => 1 + g.below(3) };
            let mut ask = |v: Vec<f64>| -> Result<f64, String> {
                *k.v.borrow_mut() = v;
                let p = m.predict(&Matrix::new(nq, c, (0..nq).flat_map(|_| query.clone()).collect::<Vec<_>>())).map_err(|_| "a trained model refuses".to_string())?;
                if p.size() != nq { return Err(format!("{} predictions for {} rows", p.size(), nq)) }
                for i in 0..nq { if p[i] != 1.0 && p[i] != -1.0 { return Err(format!("predicts {}", p[i])) } if p[i] != p[0] { return Err("equal rows get different predictions".into()) } }
                Ok(p[0])
            };
            let e = |i: usize, s: f64| { let mut v = vec![0.0; n]; v[i] = s; v };
            // the sign of every coefficient
            let mut sg = vec![0.0; n];
            for i in 0..n {
                let (a, b) = (ask(e(i, 1.0))?, ask(e(i, -1.0))?);
                if a != b { sg[i] = a; ck(sg[i] == t[i], "a row counts for the side its target is not on")? }
            }
            let r0 = match sg.iter().position(|s| *s != 0.0) { Some(r) => r, None => return Ok(()) };
            // its size relative to that of one row
            let mut w = vec![0.0; n];
            for i in 0..n { if sg[i] != 0.0 {
                let (mut lo, mut hi) = (1e-4f64, 1e4f64);
                for _ in 0..45 { let mid = (lo * hi).sqrt(); let mut v = vec![0.0; n]; v[r0] -= sg[r0] * mid; v[i] += sg[i]; if i == r0 { break } if ask(v)? == 1.0 { lo = mid } else { hi = mid } }
                w[i] = sg[i] * if i == r0 { 1.0 } else { (lo * hi).sqrt() };
            } }
            // predictions follow the sign of the expansion
            for _ in 0..20 {
                let v: Vec<f64> = (0..n).map(|_| g.r(-2.0, 2.0)).collect();
                let s: f64 = (0..n).map(|i| v[i] * w[i]).sum();
                if s.abs() > 1e-6 && ask(v.clone())? != s.signum() { return Err(format!("kernel values {:?}, coefficients {:?}: the prediction is not the sign of {}", v, w, s)) }
            }
            if let Some(ref b) = *k.bad.borrow() { return Err(b.clone()) }
            Ok(())
        });
    } } }
    for q in 0..30 {
        let hints = h.hints.clone();
        let mut g = G(h.seed + q);
        h.case(format!("one row, scaling #{}", q), || {
            // one training row: the sign is that of its target times the kernel value
            let c = 1 + g.below(3);
            let mut m = SVM::new(Linear::new(g.r(-1.0, 1.0)), g.r(0.01, 3.0));
            m.optim_iters = 1 + g.below(50);
            ck(m.predict(&Matrix::new(1, c, vec![0.5; c])).is_err(), "an untrained model predicts")?;
            let x: Vec<f64> = (0..c).map(|_| g.w(-3.0, 3.0, &hints)).collect();
            let t = if q % 2 == 0 { 1.0 } else { -1.0 };
            rand::harness_seed(q);
            m.train(&Matrix::new(1, c, x.clone()), &Vector::new(vec![t])).map_err(|_| "training fails")?;
            let k = g.below(6);
            let p = m.predict(&Matrix::new(k, c, vec![1.0; k * c])).map_err(|_| "a trained model refuses")?;
            ck(p.size() == k, "one prediction per row")
        });
    }
}
fn main() { run(&[("C32", c32)]) }
