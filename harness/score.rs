extern crate rusty_machine;
extern crate rulinalg;
extern crate rand;
include!("common.rs");
use rusty_machine::linalg::{Matrix, BaseMatrix};
use rusty_machine::analysis::score::*;
use rusty_machine::analysis::confusion_matrix::confusion_matrix;

fn lens(h: &H) -> Vec<usize> { let mut v: Vec<usize> = (0..12).collect(); v.extend(&[16, 17, 31, 33, 64, 65, 100, 129, 257, 1025]); v.extend(h.sizes(3000)); v }
fn ratio(what: &str, got: f64, num: usize, den: usize) -> R { if den == 0 { Ok(()) } else { ckf(what, got, num as f64 / den as f64, 1e-12) } }
fn c11(h: &mut H) {
    let reps = if h.thorough { 200 } else { 40 };
    for n in lens(h) { for k in 0..(if n > 200 { 12 } else { reps }) {
        let mut g = G(h.seed + k + 131 * n as u64);
        let (po, pt) = (g.below(5), g.below(5));
        let o: Vec<i64> = (0..n).map(|_| if po == 4 { 0 } else if g.below(4) < po { 1 } else { 0 }).collect();
        let t: Vec<i64> = (0..n).map(|i| if pt == 4 { 0 } else if pt == 3 { o[i] } else if pt == 2 && i + 1 == n { 1 - o[i] } else { g.below(2) as i64 }).collect();
        let cnt = |f: &dyn Fn(i64, i64) -> bool| o.iter().zip(&t).filter(|&(a, b)| f(*a, *b)).count();
        let (tp, fp, fneg) = (cnt(&|a, b| a == 1 && b == 1), cnt(&|a, b| a == 1 && b == 0), cnt(&|a, b| a == 0 && b == 1));
        h.case(format!("two classes n={} #{}: o={:?} t={:?}", n, k, &o[..n.min(40)], &t[..n.min(40)]), || {
            ratio("precision", precision(o.iter(), t.iter()), tp, tp + fp)?;
            ratio("recall", recall(o.iter(), t.iter()), tp, tp + fneg)?;
            ratio("f1", f1(o.iter(), t.iter()), 2 * tp, 2 * tp + fp + fneg)?;
            ratio("accuracy", accuracy(o.iter(), t.iter()), n - fp - fneg, n)?;
            let (of, tf): (Vec<f64>, Vec<f64>) = (o.iter().map(|x| *x as f64).collect(), t.iter().map(|x| *x as f64).collect());
            ratio("precision of floats", precision(of.iter(), tf.iter()), tp, tp + fp)?;
            ratio("recall of floats", recall(of.iter(), tf.iter()), tp, tp + fneg)?;
            ratio("f1 of floats", f1(of.iter(), tf.iter()), 2 * tp, 2 * tp + fp + fneg)?;
            let (oi, ti): (Vec<i32>, Vec<i32>) = (o.iter().map(|x| *x as i32).collect(), t.iter().map(|x| *x as i32).collect());
            ratio("f1 of i32", f1(oi.iter(), ti.iter()), 2 * tp, 2 * tp + fp + fneg)
        });
        let (d, w) = (1 + g.below(3), if n > 0 { g.below(n) } else { 0 });
        h.case(format!("refused n={} #{} +{} at {}", n, k, d, w), || {
            let mut l = t.clone(); for _ in 0..d { l.push(g.below(2) as i64) }
            ck(panics(|| precision(o.iter(), l.iter())) && panics(|| precision(l.iter(), o.iter())), "precision took sequences of different lengths")?;
            ck(panics(|| recall(o.iter(), l.iter())) && panics(|| recall(l.iter(), o.iter())), "recall took sequences of different lengths")?;
            ck(panics(|| f1(o.iter(), l.iter())) && panics(|| f1(l.iter(), o.iter())), "f1 took sequences of different lengths")?;
            ck(panics(|| accuracy(o.iter(), l.iter())) && panics(|| accuracy(l.iter(), o.iter())), "accuracy took sequences of different lengths")?;
            let (mo, ml) = (Matrix::new(n, 1, o.iter().map(|x| *x as f64).collect::<Vec<_>>()), Matrix::new(n + d, 1, l.iter().map(|x| *x as f64).collect::<Vec<_>>()));
            ck(panics(|| row_accuracy(&mo, &ml)) && panics(|| row_accuracy(&ml, &mo)), "row_accuracy took matrices of different heights")?;
            if n == 0 { return Ok(()) }
            for &b in &[2i64, -1, 7, std::i64::MAX, std::i64::MIN] {
                let mut x = o.clone(); x[w] = b;
                let mut y = t.clone(); y[w] = b;
                for &(p, q) in &[(&x, &t), (&o, &y), (&x, &y)] {
                    ck(panics(|| precision(p.iter(), q.iter())), "precision took a label other than 0 and 1")?;
                    ck(panics(|| recall(p.iter(), q.iter())), "recall took a label other than 0 and 1")?;
                    ck(panics(|| f1(p.iter(), q.iter())), "f1 took a label other than 0 and 1")?;
                }
            }
            Ok(())
        });
        let (a, b): (Vec<usize>, Vec<usize>) = ((0..n).map(|_| g.below(4)).collect(), (0..n).map(|_| g.below(4)).collect());
        h.case(format!("accuracy n={} #{}: {:?} {:?}", n, k, &a[..n.min(40)], &b[..n.min(40)]), || {
            let e = a.iter().zip(&b).filter(|&(x, y)| x == y).count();
            ratio("accuracy", accuracy(a.iter(), b.iter()), e, n)?;
            ratio("accuracy of values", accuracy(a.iter().cloned(), b.iter().cloned()), e, n)
        });
        let c = 1 + g.below(4);
        let (x, y): (Vec<f64>, Vec<f64>) = ((0..n * c).map(|_| g.below(3) as f64 * 0.5).collect(), (0..n * c).map(|_| g.below(3) as f64 * 0.5).collect());
        let y: Vec<f64> = (0..n * c).map(|i| if a[i / c] > 1 || (a[i / c] == 1 && i % c != b[i / c] % c) { x[i] } else { y[i] }).collect();
        h.case(format!("row accuracy {}x{} #{}", n, c, k), || {
            let e = (0..n).filter(|i| x[i * c..(i + 1) * c] == y[i * c..(i + 1) * c]).count();
            let (mx, my) = (Matrix::new(n, c, x.clone()), Matrix::new(n, c, y.clone()));
            ratio("row accuracy", row_accuracy(&mx, &my), e, n)
        });
    } }
}
fn main() { run(&[("C11", c11), ("C10", c10)]) }

fn c10(h: &mut H) {
    let reps = if h.thorough { 150 } else { 30 };
    for n in lens(h) { for k in 0..(if n > 200 { 8 } else { reps }) {
        let mut g = G(h.seed + k + 131 * n as u64);
        let m = 1 + g.below(6);
        let off: i64 = if g.below(2) == 0 { 0 } else { -3 };
        let st: i64 = [1, 1, 2, -5][g.below(4)];
        let p: Vec<i64> = (0..n).map(|_| off + st * g.below(m) as i64).collect();
        let t: Vec<i64> = (0..n).map(|i| if g.below(3) == 0 { p[i] } else { off + st * g.below(m) as i64 }).collect();
        let ck_m = |c: Matrix<usize>, l: &[i64]| -> R {
            ck(c.rows() == l.len() && c.cols() == l.len(), "the matrix does not have one row and column per label")?;
            for i in 0..l.len() { for j in 0..l.len() {
                let w = (0..n).filter(|q| t[*q] == l[i] && p[*q] == l[j]).count();
                if c[[i, j]] != w { return Err(format!("entry ({}, {}) is {}, expected {}", i, j, c[[i, j]], w)) }
            } }
            Ok(())
        };
        h.case(format!("no labels n={} #{}: p={:?} t={:?}", n, k, &p[..n.min(30)], &t[..n.min(30)]), || {
            let mut l: Vec<i64> = p.iter().chain(&t).cloned().collect();
            l.sort(); l.dedup();
            let c = confusion_matrix(&p, &t, None);
            ck(c.data().iter().sum::<usize>() == n, "the entries do not sum to the number of samples")?;
            ck_m(c, &l)?;
            let mut q = t.clone(); q.push(off);
            ck(panics(|| confusion_matrix(&p, &q, None)) && panics(|| confusion_matrix(&q, &p, None)), "slices of different lengths were accepted")
        });
        let mut l: Vec<i64> = vec![];
        for _ in 0..g.below(m + 3) { let x = off + st * g.below(m + 2) as i64; if !l.contains(&x) { l.push(x) } }
        h.case(format!("labels {:?} n={} #{}: p={:?} t={:?}", l, n, k, &p[..n.min(30)], &t[..n.min(30)]), || {
            ck_m(confusion_matrix(&p, &t, Some(l.clone())), &l)?;
            let mut q = t.clone(); q.push(off);
            ck(panics(|| confusion_matrix(&p, &q, Some(l.clone()))), "slices of different lengths were accepted")?;
            if l.len() > 0 { let mut d = l.clone(); let x = d[g.below(d.len())]; let at = g.below(d.len() + 1); d.insert(at, x); ck(panics(|| confusion_matrix(&p, &t, Some(d.clone()))), "a repeated label was accepted")?; }
            Ok(())
        });
    } }
}
