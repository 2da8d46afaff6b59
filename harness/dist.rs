extern crate rusty_machine;
extern crate rand;
include!("common.rs");
use rusty_machine::stats::dist::{Distribution, Exponential, Gaussian};
use rand::distributions::{Sample, IndependentSample};
use rand::distributions::exponential::Exp1;
use rand::distributions::normal::StandardNormal;
use rand::Rng;

fn params(h: &H) -> Vec<f64> { let mut v = vec![1e-6, 1e-3, 0.1, 0.5, 1.0, 2.0, 3.0, 10.0, 123.456, 1e4, 1e6]; let mut g = G(h.seed + 3); for _ in 0..if h.thorough { 200 } else { 25 } { v.push(g.r(0.01, 20.0)) } for x in h.around() { if x > 1e-6 && x < 1e6 { v.push(x) } } v }
fn xs(h: &H) -> Vec<f64> { let mut v = vec![0.0, 1e-9, 1e-3, 0.5, 1.0, 2.0, 5.0, 10.0, 30.0, 100.0, 1000.0]; let mut g = G(h.seed + 5); for _ in 0..if h.thorough { 100 } else { 20 } { v.push(g.r(0.0, 5.0)); v.push(g.r(0.0, 60.0)) } for x in h.around() { if x.abs() < 1e6 { v.push(x.abs()) } } v }

fn c07(h: &mut H) {
    let (ps, mut ys) = (params(h), xs(h));
    ys.sort_by(|a, b| a.partial_cmp(b).unwrap());
    for i in 0..ps.len() + 1 {
        let def = i == ps.len();
        let l = if def { 1.0 } else { ps[i] };
        let mk = || if def { Exponential::default() } else { Exponential::new(l) };
        let tag = if def { "default".to_string() } else { format!("lambda={:?}", l) };
        h.case(format!("{} rate", tag), || ckf("lambda()", mk().lambda(), l, 0.0));
        let mut last = 0.0;
        for &x0 in &ys { for &x in &[x0, x0 / l] {
            h.case(format!("{} x={:?}", tag, x), || {
                let d = mk();
                ckf("pdf", d.pdf(x), l * (-l * x).exp(), 1e-10)?;
                ckf("logpdf", d.logpdf(x), l.ln() - l * x, 1e-10)?;
                ckf("cdf", d.cdf(x), 1.0 - (-l * x).exp(), 1e-10)?;
                ck(d.cdf(x) >= 0.0 && d.cdf(x) <= 1.0, "cdf out of range")
            });
        }
            h.case(format!("{} x={:?} order", tag, x0), || { let c = mk().cdf(x0); ck(c >= last - 1e-15, "cdf decreases")?; last = c; Ok(()) });
        }
        for &x in &[-1e-9, -0.5, -1.0, -100.0] { h.case(format!("{} x={:?}", tag, x), || { let d = mk(); ck(panics(|| d.pdf(x)), "pdf accepts a negative value")?; ck(panics(|| d.logpdf(x)), "logpdf accepts a negative value")?; ck(panics(|| d.cdf(x)), "cdf accepts a negative value") }); }
        for s in 0..6 { h.case(format!("{} sample seed={}", tag, s), || {
            let mut d = mk();
            rand::harness_seed(s);
            let Exp1(n) = rand::thread_rng().gen::<Exp1>();
            let u = rand::harness_other();
            rand::harness_seed(s);
            ckf("ind_sample", d.ind_sample(&mut rand::thread_rng()), n / l, 1e-12)?;
            ck(rand::harness_other() == u, "number of variates drawn")?;
            rand::harness_seed(s);
            ckf("sample", d.sample(&mut rand::thread_rng()), n / l, 1e-12)?;
            ckf("lambda() after sample", d.lambda(), l, 0.0)
        }); }
    }
}
fn c08(h: &mut H) {
    let ps = params(h);
    let ys = xs(h);
    let pi = std::f64::consts::PI;
    let means = [0.0, 1.0, -2.5, 100.0, -1e5];
    for i in 0..2 * ps.len() + 1 { for &m0 in &means {
        let def = i == 2 * ps.len();
        let (m, v, tag) = if def { (0.0, 1.0, "default".to_string()) } else if i % 2 == 0 { (m0, ps[i / 2], format!("new mean={:?} var={:?}", m0, ps[i / 2])) } else { (m0, ps[i / 2] * ps[i / 2], format!("from_std_dev mean={:?} sd={:?}", m0, ps[i / 2])) };
        if def && m0 != 0.0 { continue }
        let mk = || if def { Gaussian::default() } else if i % 2 == 0 { Gaussian::new(m, v) } else { Gaussian::from_std_dev(m, ps[i / 2]) };
        let sd = v.sqrt();
        for &z in &ys { for &x in &[m + z * sd, m - z * sd, m + z, m - z] {
            h.case(format!("{} x={:?}", tag, x), || {
                let d = mk();
                let q = (x - m) * (x - m) / v;
                ckf("pdf", d.pdf(x), (-q / 2.0).exp() / (2.0 * pi * v).sqrt(), 1e-9)?;
                ckf("logpdf", d.logpdf(x), -q / 2.0 - 0.5 * (2.0 * pi * v).ln(), 1e-9)?;
                let r = (1.0 - (-2.0 * q / pi).exp()).max(0.0).sqrt();
                ckf("cdf", d.cdf(x), 0.5 * (1.0 + if x >= m { r } else { -r }), 1e-7)?;
                ck(d.cdf(x) >= -1e-15 && d.cdf(x) <= 1.0 + 1e-15, "cdf out of range")
            });
        } }
        h.case(format!("{} cdf order", tag), || {
            let d = mk();
            let mut w: Vec<f64> = ys.iter().flat_map(|z| vec![m + z * sd, m - z * sd]).collect();
            w.sort_by(|a, b| a.partial_cmp(b).unwrap());
            for p in w.windows(2) { if d.cdf(p[0]) > d.cdf(p[1]) + 1e-9 { return Err(format!("cdf({:?}) > cdf({:?})", p[0], p[1])) } }
            ckf("cdf(mean)", d.cdf(m), 0.5, 1e-12)
        });
        for s in 0..4 { h.case(format!("{} sample seed={}", tag, s), || {
            let mut d = mk();
            rand::harness_seed(s);
            let StandardNormal(n) = rand::thread_rng().gen::<StandardNormal>();
            rand::harness_seed(s);
            ckf("ind_sample", d.ind_sample(&mut rand::thread_rng()), m + sd * n, 1e-10)?;
            rand::harness_seed(s);
            ckf("sample", d.sample(&mut rand::thread_rng()), m + sd * n, 1e-10)
        }); }
    } }
}
fn main() { run(&[("C07", c07), ("C08", c08)]) }
