extern crate rusty_machine;
include!("common.rs");
use rusty_machine::learning::toolkit::activ_fn::*;

fn sig(x: f64) -> f64 { if x >= 0.0 { 1.0 / (1.0 + (-x).exp()) } else { let e = x.exp(); e / (1.0 + e) } }
fn dsig(x: f64) -> f64 { let e = (-x.abs()).exp(); e / ((1.0 + e) * (1.0 + e)) }
fn dtanh(x: f64) -> f64 { let e = (-2.0 * x.abs()).exp(); 4.0 * e / ((1.0 + e) * (1.0 + e)) }

fn points(h: &H) -> Vec<f64> {
    let mut v: Vec<f64> = vec![0.0, -0.0, 1e-300, -1e-300, 1e-9, -1e-9, 0.5, -0.5, 1.0, -1.0, 2.0, -2.0, 35.9, -35.9, 36.5, -36.5, 40.0, -40.0, 100.0, -100.0, 300.0, -300.0, 699.0, -699.0, 708.0, -708.0];
    let mut g = G(h.seed);
    for i in -400..401 { v.push(i as f64 / 10.0) }
    for i in -120..121 { v.push(i as f64 * 5.0 + 0.37) }
    for _ in 0..if h.thorough { 20000 } else { 1500 } { v.push(g.r(-8.0, 8.0)); v.push(g.r(-60.0, 60.0)); v.push(g.g() * 1e-3) }
    for x in h.around() { if x.abs() < 700.0 { v.push(x) } }
    v
}
// name, func, grad, grad_out, inv, spec, dspec, limit for the inverse
type Row = (&'static str, fn(f64) -> f64, fn(f64) -> f64, fn(f64) -> f64, fn(f64) -> f64, fn(f64) -> f64, fn(f64) -> f64, f64);
fn rows() -> Vec<Row> {
    fn id(x: f64) -> f64 { x }
    fn one(_: f64) -> f64 { 1.0 }
    fn ex(x: f64) -> f64 { x.exp() }
    fn th(x: f64) -> f64 { x.tanh() }
    vec![("Sigmoid", Sigmoid::func, Sigmoid::func_grad, Sigmoid::func_grad_from_output, Sigmoid::func_inv, sig, dsig, 15.0),
         ("Linear", Linear::func, Linear::func_grad, Linear::func_grad_from_output, Linear::func_inv, id, one, 1e9),
         ("Exp", Exp::func, Exp::func_grad, Exp::func_grad_from_output, Exp::func_inv, ex, ex, 600.0),
         ("Tanh", Tanh::func, Tanh::func_grad, Tanh::func_grad_from_output, Tanh::func_inv, th, dtanh, 8.0)]
}
fn rel(what: &str, got: f64, want: f64) -> R { ckf(what, got, want, 1e-9) }

fn c05(h: &mut H) {
    for r in rows() { for x in points(h) {
        h.case(format!("{} x={:?}", r.0, x), || {
            rel("func_grad", (r.2)(x), (r.6)(x))?;
            rel("func_grad_from_output(func(x))", (r.3)((r.5)(x)), (r.6)(x))
        });
    } }
}
fn c06(h: &mut H) {
    for r in rows() {
        let mut ps = points(h);
        ps.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let mut last = std::f64::NEG_INFINITY;
        for x in ps {
            h.case(format!("{} x={:?}", r.0, x), || {
                let y = (r.1)(x);
                rel("func", y, (r.5)(x))?;
                ck(match r.0 { "Sigmoid" => (y > 0.0 || x < -700.0) && (y < 1.0 || x > 30.0), "Exp" => y > 0.0 || x < -700.0, "Tanh" => (y > -1.0 || x < -15.0) && (y < 1.0 || x > 15.0), _ => true }, "value out of range")?;
                if x.abs() < 600.0 && (r.0 == "Sigmoid" || r.0 == "Exp") { ck((y - (r.5)(x)).abs() <= 1e-9 * (r.5)(x), "func: wrong value")?; }
                ck(y >= last - 1e-12 * (1.0 + last.abs()), "not increasing")?;
                last = y;
                if x.abs() <= r.7 { ckf("func_inv(func(x))", (r.4)(y), x, if x.abs() < 4.0 { 1e-9 } else { 1e-5 })?; }
                Ok(())
            });
        }
    }
}
fn main() { run(&[("C05", c05), ("C06", c06)]) }
