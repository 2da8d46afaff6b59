extern crate rusty_machine;
extern crate rulinalg;
extern crate rand;
include!("common.rs");
use std::cell::RefCell;
use rusty_machine::linalg::{Matrix, BaseMatrix};
use rusty_machine::learning::{SupModel, LearningResult};
use rusty_machine::learning::error::{Error, ErrorKind};
use rusty_machine::analysis::cross_validation::k_fold_validate;

struct Rec { log: RefCell<Vec<(char, Matrix<f64>, Matrix<f64>)>>, fail_train: Option<usize>, fail_pred: Option<usize>, mark: &'static str }
impl SupModel<Matrix<f64>, Matrix<f64>> for Rec {
    fn train(&mut self, i: &Matrix<f64>, t: &Matrix<f64>) -> LearningResult<()> {
        let n = self.log.borrow().iter().filter(|x| x.0 == 't').count();
        self.log.borrow_mut().push(('t', i.clone(), t.clone()));
        if self.fail_train == Some(n) { return Err(Error::new(ErrorKind::InvalidData, format!("{} train {}", self.mark, n))) }
        Ok(())
    }
    fn predict(&self, i: &Matrix<f64>) -> LearningResult<Matrix<f64>> {
        let n = self.log.borrow().iter().filter(|x| x.0 == 'p').count();
        self.log.borrow_mut().push(('p', i.clone(), Matrix::new(1, 1, vec![0.0])));
        if self.fail_pred == Some(n) { return Err(Error::new(ErrorKind::InvalidState, format!("{} predict {}", self.mark, n))) }
        // outputs tell the rows they belong to
        let d: Vec<f64> = (0..i.rows()).map(|r| 7000.0 + i[[r, 0]]).collect();
        Ok(Matrix::new(i.rows(), 1, d))
    }
}
fn c09(h: &mut H) {
    let mut ns: Vec<usize> = (2..15).collect(); ns.extend(&[16, 17, 31, 33, 64, 65, 100]); ns.extend(h.sizes(200));
    for n in ns { for q in 0..(if h.thorough { 40 } else { 8 }) {
        let mut g = G(h.seed + q + 577 * n as u64);
        let (c, ct) = (1 + g.below(3), 1 + g.below(3));
        let x = Matrix::new(n, c, (0..n * c).map(|i| if i % c == 0 { (i / c) as f64 } else { (i / c) as f64 * 0.5 + (i % c) as f64 * 1000.0 }).collect::<Vec<_>>());
        let t = Matrix::new(n, ct, (0..n * ct).map(|i| (i / ct) as f64 + 10000.0 * (1 + i % ct) as f64).collect::<Vec<_>>());
        let mut ks = vec![2, n, 1 + (n + 1) / 2, 2 + g.below(n - 1), 2 + g.below(n - 1), 3.min(n)]; ks.sort(); ks.dedup();
        for k in ks {
            let fail = g.below(6);
            let at = g.below(k);
            let (ft, fp) = match fail { 0 => (Some(at), None), 1 => (None, Some(at)), 2 => (Some(at), Some(g.below(k))), _ => (None, None) };
            h.case(format!("n={} k={} c={} ct={} train fails {:?} predict fails {:?} #{}", n, k, c, ct, ft, fp, q), || {
                let mut m = Rec { log: RefCell::new(vec![]), fail_train: ft, fail_pred: fp, mark: "my" };
                let sc = RefCell::new(vec![]);
                let r = k_fold_validate(&mut m, &x, &t, k, |o, w| { let mut s = sc.borrow_mut(); s.push((o.clone(), w.clone())); s.len() as f64 + 0.25 });
                let log = m.log.borrow();
                let want = match (ft, fp) { (Some(a), Some(b)) => Some(if a <= b { format!("my train {}", a) } else { format!("my predict {}", b) }), (Some(a), None) => Some(format!("my train {}", a)), (None, Some(b)) => Some(format!("my predict {}", b)), _ => None };
                let folds = match (&r, &want) {
                    (&Err(ref e), &Some(ref w)) => { ck(format!("{:?}", e).contains(w.as_str()), "another error than the first one is returned")?; at.min(ft.unwrap_or(k)).min(fp.unwrap_or(k)) + 1 }
                    (&Ok(_), &Some(_)) => return Err("an error of the model was dropped".into()),
                    (&Err(_), &None) => return Err("an error without cause".into()),
                    (&Ok(ref s), &None) => { ck(s.len() == k, "not one score per fold")?; for i in 0..k { ckf("score", s[i], i as f64 + 1.25, 0.0)? } k }
                };
                let trs: Vec<_> = log.iter().filter(|x| x.0 == 't').collect();
                let prs: Vec<_> = log.iter().filter(|x| x.0 == 'p').collect();
                ck(trs.len() == folds, "wrong number of trainings")?;
                let mut seen = vec![0usize; n];
                let (mut lo, mut hi) = (n, 0);
                for (f, p) in prs.iter().enumerate() {
                    let mut inn = vec![false; n];
                    for r in 0..p.1.rows() { let i = p.1[[r, 0]] as usize; ck((0..c).all(|j| p.1[[r, j]] == x[[i, j]]), "a test row is no row of the inputs")?; seen[i] += 1; ck(!inn[i], "a row is tested twice in a fold")?; inn[i] = true }
                    lo = lo.min(p.1.rows()); hi = hi.max(p.1.rows());
                    let (_, ref a, ref b) = *trs[f];
                    ck(a.rows() == n - p.1.rows() && b.rows() == a.rows(), "the training set is not the rest")?;
                    let mut tr = vec![false; n];
                    for r in 0..a.rows() {
                        let i = a[[r, 0]] as usize;
                        ck((0..c).all(|j| a[[r, j]] == x[[i, j]]), "a training row is no row of the inputs")?;
                        ck((0..ct).all(|j| b[[r, j]] == t[[i, j]]), "a training row is paired with another target")?;
                        ck(!tr[i] && !inn[i], "a row trained on is repeated or tested")?;
                        tr[i] = true;
                    }
                }
                let s = sc.borrow();
                for (f, &(ref o, ref w)) in s.iter().enumerate() {
                    ck(o.rows() == prs[f].1.rows() && w.rows() == o.rows(), "scored rows are not the test rows")?;
                    for r in 0..o.rows() { let i = prs[f].1[[r, 0]] as usize; ck(o[[r, 0]] == 7000.0 + i as f64, "outputs scored are not those predicted")?; ck((0..ct).all(|j| w[[r, j]] == t[[i, j]]), "an output is scored against another target")?; }
                }
                if want.is_none() { ck(s.len() == k && prs.len() == k, "not k folds")?; ck(seen.iter().all(|v| *v == 1), "a row is not tested exactly once")?; ck(hi - lo <= 1, "test sets differ by more than one")?; }
                Ok(())
            });
        }
        h.case(format!("refused n={} #{}", n, q), || {
            for &k in &[0, 1, n + 1, n + 2, 2 * n, std::usize::MAX] {
                let mut m = Rec { log: RefCell::new(vec![]), fail_train: None, fail_pred: None, mark: "my" };
                if !panics(|| { let _ = k_fold_validate(&mut m, &x, &t, k, |_, _| 0.0); }) { return Err(format!("k = {} is accepted for {} samples", k, n)) }
            }
            Ok(())
        });
    } }
}
fn main() { run(&[("C09", c09)]) }
