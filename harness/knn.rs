extern crate rusty_machine;
extern crate rulinalg;
extern crate rand;
include!("common.rs");
use rusty_machine::linalg::{Matrix, Vector};
use rusty_machine::learning::SupModel;
use rusty_machine::learning::knn::{KNNClassifier, KNearestSearch, KDTree, BallTree, BruteForce};

fn lens(h: &H) -> Vec<usize> { let mut v: Vec<usize> = (1..14).collect(); v.extend(&[16, 17, 31, 33, 64, 65, 100]); v.extend(h.sizes(300)); v }
fn row(x: &[f64], c: usize, i: usize) -> &[f64] { &x[i * c..(i + 1) * c] }
fn dst(a: &[f64], b: &[f64]) -> f64 { a.iter().zip(b).map(|(x, y)| (x - y) * (x - y)).fold(0.0, |s, v| s + v).sqrt() }
/// data with few or many ties, in few or many columns
fn table(g: &mut G, n: usize, c: usize, hints: &[f64], distinct: bool) -> Vec<f64> {
    let kind = g.below(5);
    let mut x: Vec<f64> = vec![];
    for i in 0..n {
        let mut t = 0;
        loop {
            t += 1;
            let m = if t > 20 { 400 } else { 3 };
            let r: Vec<f64> = (0..c).map(|j| match kind { 0 => g.q(12), 1 => g.below(m) as f64, 2 => g.r(-10.0, 10.0), 3 => g.w(-5.0, 5.0, hints), _ => if j == 0 { g.r(-100.0, 100.0) } else if j == 1 { (i % 3) as f64 } else { g.below(m) as f64 } }).collect();
            if !distinct || (0..i).all(|q| row(&x, c, q) != &r[..]) { x.extend(r); break }
            if t > 60 { x.extend((0..c).map(|_| g.r(-1000.0, 1000.0))); break }
        }
    }
    x
}
fn query(g: &mut G, x: &[f64], n: usize, c: usize) -> Vec<f64> {
    match g.below(4) { 0 => row(x, c, g.below(n)).to_vec(), 1 => { let (a, b) = (g.below(n), g.below(n)); (0..c).map(|j| (x[a * c + j] + x[b * c + j]) / 2.0).collect() }, 2 => (0..c).map(|_| g.q(40)).collect(), _ => (0..c).map(|_| g.r(-12.0, 12.0)).collect() }
}
fn check(x: &[f64], n: usize, c: usize, p: &[f64], k: usize, r: (Vec<usize>, Vec<f64>)) -> R {
    let (ids, ds) = r;
    if ids.len() != k || ds.len() != k { return Err(format!("{} rows and {} distances for k = {}", ids.len(), ds.len(), k)) }
    for a in 0..k {
        ck(ids[a] < n, "a row number is out of range")?;
        ck(!ids[..a].contains(&ids[a]), "a row is returned twice")?;
        ck(a == 0 || ds[a - 1] <= ds[a], "distances are not in ascending order")?;
        ckf("distance", ds[a], dst(p, row(x, c, ids[a])), 1e-12)?;
    }
    for i in 0..n { if !ids.contains(&i) && dst(p, row(x, c, i)) < ds[k - 1] * (1.0 - 1e-12) { return Err(format!("row {} is closer than the last row returned, but missing: {:?} {:?}", i, ids, ds)) } }
    Ok(())
}
fn ks(g: &mut G, n: usize) -> Vec<usize> { let mut v = vec![1, n, 1 + g.below(n), 1 + g.below(n), (n + 1) / 2]; v.sort(); v.dedup(); v }
fn c19(h: &mut H) {
    let reps = if h.thorough { 120 } else { 30 };
    for n in lens(h) { for q in 0..(if n > 40 { 4 } else { reps }) {
        let hints = h.hints.clone();
        let mut g = G(h.seed + q + 577 * n as u64);
        let c = g.below(5);
        let x = table(&mut g, n, c, &hints, false);
        let p = query(&mut g, &x, n, c);
        for k in ks(&mut g, n) {
            h.case(format!("exhaustive n={} c={} k={} #{}: query {:?} data {:?}", n, c, k, q, p, &x[..x.len().min(60)]), || {
                let mut b = BruteForce::new();
                ck(b.search(&p, k).is_err(), "a search before building answers")?;
                if q % 3 == 0 { b.build(Matrix::new(2, 1, vec![0.5, 1.0])) }
                b.build(Matrix::new(n, c, x.clone()));
                check(&x, n, c, &p, k, b.search(&p, k).map_err(|_| "a built search refuses".to_string())?)?;
                check(&x, n, c, &p, k, b.search(&p, k).map_err(|_| "a built search refuses".to_string())?)
            });
        }
    } }
}
fn tree<S: KNearestSearch>(h: &mut H, nm: &str, mk: &dyn Fn(usize) -> S) {
    let reps = if h.thorough { 120 } else { 24 };
    for n in lens(h) { for q in 0..(if n > 40 { 6 } else { reps }) {
        let hints = h.hints.clone();
        let mut g = G(h.seed + q + 577 * n as u64);
        let c = 1 + g.below(4);
        let x = table(&mut g, n, c, &hints, true);
        let leaf = 2 + [0, 1, g.below(6), g.below(n + 2), 28][g.below(5)];
        let p = query(&mut g, &x, n, c);
        for k in ks(&mut g, n) {
            h.case(format!("{} leaf={} n={} c={} k={} #{}: query {:?} data {:?}", nm, leaf, n, c, k, q, p, &x[..x.len().min(60)]), || {
                let mut b = mk(leaf);
                ck(b.search(&p, k).is_err(), "a search before building answers")?;
                if q % 3 == 0 { b.build(Matrix::new(2, 1, vec![0.5, 1.0])) }
                b.build(Matrix::new(n, c, x.clone()));
                check(&x, n, c, &p, k, b.search(&p, k).map_err(|_| "a built search refuses".to_string())?)
            });
        }
    } }
}
fn c20(h: &mut H) { tree(h, "kd-tree", &|l| KDTree::new(l)); tree(h, "ball-tree", &|l| BallTree::new(l)) }

fn votes<S: KNearestSearch>(h: &mut H, nm: &str, mk: &dyn Fn() -> S, mk2: &dyn Fn() -> S, tree: bool) {
    let reps = if h.thorough { 80 } else { 20 };
    for n in lens(h) { for q in 0..(if n > 40 { 4 } else { reps }) {
        let hints = h.hints.clone();
        let mut g = G(h.seed + q + 577 * n as u64);
        let c = 1 + g.below(3);
        let x = table(&mut g, n, c, &hints, tree);
        let nl = 1 + g.below(4);
        let lab: Vec<usize> = (0..n).map(|_| [0usize, 3, 1, 7, 2][g.below(nl)]).collect();
        let m = g.below(5);
        let qs: Vec<f64> = (0..m).flat_map(|_| query(&mut g, &x, n, c)).collect();
        // a first leaf smaller than k is C20's business
        let k = 1 + g.below(n);
        h.case(format!("{} n={} c={} k={} #{}: labels {:?} queries {:?} data {:?}", nm, n, c, k, q, &lab[..n.min(40)], qs, &x[..x.len().min(60)]), || {
            let (mx, t) = (Matrix::new(n, c, x.clone()), Vector::new(lab.clone()));
            let mut s = mk2();
            s.build(mx.clone());
            let mut l = KNNClassifier::new_specified(k, mk());
            let mq = Matrix::new(m, c, qs.clone());
            ck(l.predict(&mq).is_err(), "an untrained classifier predicts")?;
            let mut l2 = lab.clone(); l2.push(0);
            ck(l.train(&mx, &Vector::new(l2)).is_err(), "more targets than rows were accepted")?;
            if n > 1 { ck(l.train(&mx, &Vector::new(lab[1..].to_vec())).is_err(), "fewer targets than rows were accepted")?; }
            ck(KNNClassifier::new_specified(n + 1, mk()).train(&mx, &t).is_err(), "more neighbours than rows were accepted")?;
            l.train(&mx, &t).map_err(|_| "training was refused".to_string())?;
            let r = l.predict(&mq).map_err(|_| "prediction was refused".to_string())?;
            ck(r.size() == m, "not one class per row")?;
            for i in 0..m {
                let (ids, _) = s.search(row(&qs, c, i), k).map_err(|_| "the search refuses".to_string())?;
                let cnt = |y: usize| ids.iter().filter(|a| lab[**a] == y).count();
                let y = r.data()[i];
                if cnt(y) == 0 { return Err(format!("row {}: class {} is not among the neighbours", i, y)) }
                for z in 0..10 { if cnt(z) > cnt(y) || (cnt(z) == cnt(y) && z < y) { return Err(format!("row {}: class {} ({} neighbours) was predicted, class {} has {}", i, y, cnt(y), z, cnt(z))) } }
            }
            Ok(())
        });
    } }
}
fn c21(h: &mut H) {
    votes(h, "exhaustive", &BruteForce::new, &BruteForce::new, false);
    votes(h, "kd-tree", &|| KDTree::new(4), &|| KDTree::new(4), true);
    votes(h, "ball-tree", &|| BallTree::new(4), &|| BallTree::new(4), true);
}
fn main() { run(&[("C19", c19), ("C20", c20), ("C21", c21)]) }
