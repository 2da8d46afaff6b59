extern crate rusty_machine;
extern crate rand;
include!("common.rs");
use rusty_machine::learning::toolkit::rand_utils::*;
use std::collections::HashMap;

fn sorted(v: &[u32]) -> Vec<u32> { let mut w = v.to_vec(); w.sort(); w }
fn input(n: usize, rep: bool, g: &mut G) -> Vec<u32> { (0..n).map(|i| if rep { 7 + g.below(1 + n / 2) as u32 } else { 1000 + i as u32 }).collect() }

fn perm_case(h: &mut H, n: usize, rep: bool, script: Option<Vec<u64>>, seed: u64) {
    for which in 0..2 {
        let key = match script { Some(ref s) => format!("{} n={} repeats={} draws={:?}", ["fisher_yates", "in_place_fisher_yates"][which], n, rep, s), None => format!("{} n={} repeats={} seed={}", ["fisher_yates", "in_place_fisher_yates"][which], n, rep, seed) };
        let sc = script.clone();
        h.case(key, move || {
            let mut g = G(n as u64 + seed);
            let a = input(n, rep, &mut g);
            match sc { Some(s) => rand::harness_script(s), None => rand::harness_seed(seed) }
            let b = a.clone();
            let r = if which == 0 { fisher_yates(&b) } else { let mut c = b.clone(); in_place_fisher_yates(&mut c); c };
            ck(a == b, "the input was changed")?;
            ck(sorted(&r) == sorted(&a), &format!("{:?} is not a rearrangement of {:?}", short(&r), short(&a)))
        });
    }
}
fn short(v: &[u32]) -> Vec<u32> { v.iter().cloned().take(24).collect() }

/// every script of draws, discovered from the widths the code asks for
fn all_scripts<F: FnMut(&[u64]) -> Vec<u64>>(max: usize, mut run: F) -> Option<usize> {
    // run(script) returns the widths of the draws made
    let mut cur: Vec<u64> = vec![];
    let mut count = 0;
    loop {
        let w = run(&cur);
        count += 1;
        if count > max { return None }
        let mut full: Vec<u64> = cur.clone();
        while full.len() < w.len() { full.push(0) }
        full.truncate(w.len());
        let mut i = w.len();
        loop {
            if i == 0 { return Some(count) }
            i -= 1;
            if full[i] + 1 < w[i] { full[i] += 1; full.truncate(i + 1); break }
        }
        cur = full;
    }
}
fn widths() -> Vec<u64> { rand::harness_trace().iter().map(|t| t.1 - t.0).collect() }

fn c01(h: &mut H) {
    for n in 0..6 { for &rep in &[false, true] {
        let mut scripts: Vec<Vec<u64>> = vec![];
        let a: Vec<u32> = (0..n as u32).collect();
        for which in 0..2 { let _ = catch_unwind(AssertUnwindSafe(|| all_scripts(2000, |s| { scripts.push(s.to_vec()); rand::harness_script(s.to_vec()); if which == 0 { fisher_yates(&a); } else { let mut c = a.clone(); in_place_fisher_yates(&mut c); } widths() }))); }
        for s in scripts { perm_case(h, n, rep, Some(s), 0) }
    } }
    let top = if h.thorough { 40 } else { 4 };
    let s0 = h.seed;
    for n in (0..140).chain(vec![255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 4095, 4096, 4097]) { for s in 0..top { perm_case(h, n, s % 2 == 1, None, s0 * 1000 + s) } }
    for &n in &[65535usize, 65536, 65537, 100003] { perm_case(h, n, false, None, s0) }
    for n in h.sizes(70_000) { for s in 0..3 { perm_case(h, n, s == 1, None, s0 * 1000 + s) } }
    // extreme draws
    for n in 0..70 { for &c in &[0u64, u64::max_value() / 2] { perm_case(h, n, false, Some(vec![c; n + 2]), 0); } perm_case(h, n, false, Some((0..n as u64 + 2).map(|i| i).collect()), 0); perm_case(h, n, false, Some((0..n as u64 + 2).rev().collect()), 0); }
}

fn primes_ok(w: &[u64], n: usize) -> bool {
    // n! must divide the number of draw histories
    let mut need: HashMap<u64, i64> = HashMap::new();
    let fac = |mut x: u64, d: i64, m: &mut HashMap<u64, i64>| { let mut p = 2; while p * p <= x { while x % p == 0 { *m.entry(p).or_insert(0) += d; x /= p } p += 1 } if x > 1 { *m.entry(x).or_insert(0) += d } };
    for i in 2..n as u64 + 1 { fac(i, 1, &mut need) }
    for &x in w { fac(x, -1, &mut need) }
    need.values().all(|&v| v <= 0)
}

fn c02(h: &mut H) {
    for which in 0..2 {
        let name = ["fisher_yates", "in_place_fisher_yates"][which];
        let top = if h.thorough { 9 } else { 8 };
        for n in 0..top {
            h.case(format!("{} n={} all draw histories", name, n), || {
                let a: Vec<u32> = (0..n as u32).collect();
                let mut cnt: HashMap<Vec<u32>, (f64, Vec<u64>)> = HashMap::new();
                let c = all_scripts(2_000_000, |s| {
                    rand::harness_script(s.to_vec());
                    let r = if which == 0 { fisher_yates(&a) } else { let mut c = a.clone(); in_place_fisher_yates(&mut c); c };
                    let w = widths();
                    let p: f64 = w.iter().map(|&x| 1.0 / x as f64).product();
                    cnt.entry(r).or_insert((0.0, s.to_vec())).0 += p;
                    w
                });
                if c.is_none() { return Ok(()) }
                if rand::harness_other() > 0 { return Ok(()) }
                let f: f64 = (1..n as u64 + 1).map(|x| x as f64).product();
                ck(cnt.len() == f as usize, &format!("{} of {} arrangements occur", cnt.len(), f))?;
                for (k, v) in &cnt { if (v.0 * f - 1.0).abs() > 1e-9 { return Err(format!("arrangement {:?} has probability {} instead of 1/{} (draws {:?})", k, v.0, f, v.1)) } }
                Ok(())
            });
        }
        let s0 = h.seed;
        let more = h.sizes(9000);
        for n in (8..140).chain(vec![200, 255, 256, 257, 300, 512, 513, 1000, 1024, 1025]).chain(more) {
            h.case(format!("{} n={} seed={} number of draw histories", name, n, s0), || {
                let a: Vec<u32> = (0..n as u32).collect();
                let run = |s: Vec<u64>| { rand::harness_script(s); let r = if which == 0 { fisher_yates(&a) } else { let mut c = a.clone(); in_place_fisher_yates(&mut c); c }; (r, widths()) };
                let mut g = G(s0 * 77 + n as u64);
                let s: Vec<u64> = (0..2 * n + 4).map(|_| g.u() >> 8).collect();
                let (r1, w1) = run(s.clone());
                if rand::harness_other() > 0 { return Ok(()) }
                let (_, w2) = run(vec![0; 2 * n + 4]);
                if w1 != w2 { return Ok(()) }   // widths depend on the draws: not decided here
                ck(primes_ok(&w1, n), &format!("{}! does not divide the number of draw histories (widths {:?}...)", n, &w1[..w1.len().min(12)]))?;
                // exactly n! histories: two different ones must not give one arrangement
                let mut ws: Vec<u64> = w1.iter().cloned().filter(|&x| x > 1).collect();
                ws.sort();
                if ws != (2..n as u64 + 1).collect::<Vec<_>>() { return Ok(()) }
                for _ in 0..20 {
                    let i = g.below(w1.len());
                    if w1[i] < 2 { continue }
                    let mut t = s.clone();
                    t[i] = (s[i] % w1[i] + 1 + g.u() % (w1[i] - 1)) % w1[i];
                    let (r2, _) = run(t.clone());
                    if r2 == r1 { return Err(format!("changing draw {} from {} to {} gives the same arrangement", i, s[i] % w1[i], t[i])) }
                }
                Ok(())
            });
        }
    }
}

fn res_case(h: &mut H, n: usize, k: usize, rep: bool, script: Option<Vec<u64>>, seed: u64) {
    let key = match script { Some(ref s) => format!("reservoir_sample pool={} size={} repeats={} draws={:?}", n, k, rep, s), None => format!("reservoir_sample pool={} size={} repeats={} seed={}", n, k, rep, seed) };
    h.case(key, move || {
        let mut g = G(n as u64 * 31 + k as u64 + seed);
        let a = input(n, rep, &mut g);
        match script { Some(s) => rand::harness_script(s), None => rand::harness_seed(seed) }
        if k > n { return ck(panics(|| reservoir_sample(&a, k)), "a sample larger than the pool is not refused") }
        let r = reservoir_sample(&a, k);
        ck(r.len() == k, &format!("{} items instead of {}", r.len(), k))?;
        if k == n { ck(sorted(&r) == sorted(&a), "the whole pool is not returned")? }
        let mut m: HashMap<u32, i64> = HashMap::new();
        for &x in &a { *m.entry(x).or_insert(0) += 1 }
        for &x in &r { *m.entry(x).or_insert(0) -= 1 }
        ck(m.values().all(|&v| v >= 0), &format!("sample {:?} of pool {:?} repeats an item or has a foreign one", short(&r), short(&a)))
    });
}

fn c03(h: &mut H) {
    for n in 0..7 { for k in 0..n + 3 { 
        let mut scripts: Vec<Vec<u64>> = vec![];
        let a: Vec<u32> = (0..n as u32).collect();
        let _ = catch_unwind(AssertUnwindSafe(|| all_scripts(3000, |s| { scripts.push(s.to_vec()); rand::harness_script(s.to_vec()); reservoir_sample(&a, k); widths() })));
        for s in scripts { res_case(h, n, k, s.len() % 2 == 1, Some(s), 0) }
    } }
    let s0 = h.seed;
    let top = if h.thorough { 20 } else { 3 };
    for n in (0..80).chain(vec![100, 127, 128, 129, 200, 255, 256, 257, 500, 1000, 1024, 1025, 4097]) { for &k in &[0usize, 1, 2, 3, 5, 10, 31, 32, 33, 50, 64, 100, 256, 1000] { for s in 0..top { res_case(h, n, k.min(n + 2), s % 2 == 1, None, s0 * 1000 + s) } res_case(h, n, n, false, None, s0); if n > 0 { res_case(h, n, n - 1, false, None, s0) } res_case(h, n, n / 2, true, None, s0); res_case(h, n, n + 1, false, None, s0) } }
    let sz = h.sizes(70_000);
    for &n in &sz { for &k in &sz { if k <= n + 1 { for s in 0..2 { res_case(h, n, k, s == 1, None, s0 * 1000 + s) } } } for &k in &[1usize, 3, 20] { res_case(h, n, k.min(n), false, None, s0) } res_case(h, n + 20, n, false, None, s0); res_case(h, n + n / 2, n, false, None, s0); }
    for n in 0..60 { for k in 0..n + 1 { for &c in &[0u64, u64::max_value() / 2] { res_case(h, n, k, false, Some(vec![c; n + 2]), 0) } res_case(h, n, k, false, Some((0..n as u64 + 2).collect()), 0); } }
    res_case(h, 100_003, 1000, false, None, s0);
}

fn c04(h: &mut H) {
    let top = if h.thorough { 11 } else { 10 };
    for n in 0..top { for k in 0..n + 1 {
        let total: u64 = (k as u64 + 1..n as u64 + 1).product();
        if total > if h.thorough { 5_000_000 } else { 400_000 } { continue }
        h.case(format!("reservoir_sample pool={} size={} all draw histories", n, k), || {
            let a: Vec<u32> = (0..n as u32).collect();
            let mut pr = vec![0.0f64; n];
            let mut held: HashMap<Vec<u32>, f64> = HashMap::new();
            let c = all_scripts(6_000_000, |s| {
                rand::harness_script(s.to_vec());
                let r = reservoir_sample(&a, k);
                let w = widths();
                let p: f64 = w.iter().map(|&x| 1.0 / x as f64).product();
                for &x in &r { if (x as usize) < n { pr[x as usize] += p } }
                if n <= 7 { *held.entry(sorted(&r)).or_insert(0.0) += p }
                w
            });
            if c.is_none() || rand::harness_other() > 0 { return Ok(()) }
            for (i, p) in pr.iter().enumerate() { if (p - k as f64 / n as f64).abs() > 1e-9 { return Err(format!("item {} is sampled with probability {} instead of {}/{}", i, p, k, n)) } }
            if n <= 7 && k > 0 { let m = held.values().cloned().fold(0.0, f64::max); let l = held.values().cloned().fold(1.0, f64::min); if m - l > 1e-9 { return Err(format!("two sets of items have different probabilities {} and {}", l, m)) } }
            Ok(())
        });
    } }
    // frequencies for larger pools; the threshold is far beyond chance (more than 7 standard deviations)
    let trials = if h.thorough { 60_000 } else { 12_000 };
    let s0 = h.seed;
    let mut nk = vec![(40usize, 5usize), (100, 10), (100, 60), (300, 30), (300, 3), (70, 69)];
    for c in h.sizes(700) { nk.push((2 * c, 7.min(c))); nk.push((c + 40, c)); nk.push((c, (c / 2).max(1))) }
    nk.truncate(40);
    for &(n, k) in &nk {
        h.case(format!("reservoir_sample pool={} size={} seed={} frequencies over {} samples", n, k, s0, trials), || {
            let a: Vec<u32> = (0..n as u32).collect();
            rand::harness_seed(s0 + n as u64);
            let mut c = vec![0f64; n];
            for _ in 0..trials { for x in reservoir_sample(&a, k) { if (x as usize) < n { c[x as usize] += 1.0 } } }
            let p = k as f64 / n as f64;
            let sd = (trials as f64 * p * (1.0 - p)).sqrt().max(1.0);
            for (i, x) in c.iter().enumerate() { let z = (x - trials as f64 * p) / sd; if z.abs() > 7.5 { return Err(format!("item {} was sampled {} times in {} instead of about {:.0}", i, x, trials, trials as f64 * p)) } }
            Ok(())
        });
    }
}

fn main() { run(&[("C01", c01), ("C02", c02), ("C03", c03), ("C04", c04)]) }
