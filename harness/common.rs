// Shared by all replay harnesses: every case has a key that names its input completely, so that a
// failing case can be run again alone (`--only KEY`).
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct H { pub only: Option<String>, pub list: bool, pub thorough: bool, pub seed: u64, pub hints: Vec<f64>, n: u64, seen: HashSet<u64>, fails: u64, samples: Vec<String>, cur: Arc<Mutex<(String, Instant)>>, lim: u64 }

pub type R = Result<(), String>;

#[allow(dead_code)]
pub fn panics<F: FnOnce() -> T, T>(f: F) -> bool { catch_unwind(AssertUnwindSafe(f)).is_err() }
#[allow(dead_code)]
pub fn ck(c: bool, msg: &str) -> R { if c { Ok(()) } else { Err(msg.to_string()) } }
#[allow(dead_code)]
pub fn close(a: f64, b: f64, tol: f64) -> bool { if a.is_nan() || b.is_nan() { return a.is_nan() && b.is_nan() } if a == b { return true } (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs())) }
#[allow(dead_code)]
pub fn ckf(what: &str, got: f64, want: f64, tol: f64) -> R { if close(got, want, tol) { Ok(()) } else { Err(format!("{}: got {:?}, expected {:?}", what, got, want)) } }

impl H {
    pub fn case<F: FnOnce() -> R>(&mut self, key: String, f: F) {
        if let Some(ref o) = self.only { if *o != key { return } }
        if self.list { use std::io::Write; let o = std::io::stdout(); let mut o = o.lock(); let _ = writeln!(o, "CASE\t{}", key); let _ = o.flush(); }
        if self.fails >= self.lim { return }
        self.n += 1;
        let mut hs = std::collections::hash_map::DefaultHasher::new();
        key.hash(&mut hs);
        self.seen.insert(hs.finish());
        { let mut c = self.cur.lock().unwrap(); *c = (key, Instant::now()); }
        let r = catch_unwind(AssertUnwindSafe(f));
        let key = { let mut c = self.cur.lock().unwrap(); let k = c.0.clone(); c.0.clear(); k };
        if self.samples.len() < 3 || (self.n & (self.n - 1) == 0 && self.samples.len() < 8) { self.samples.push(key.clone()) }
        match r {
            Ok(Ok(())) => {}
            Ok(Err(m)) => { self.fails += 1; println!("FAIL\t{}\t{}", key, m.replace("\n", " ").replace("\t", " ")); }
            Err(p) => { self.fails += 1; let m = p.downcast_ref::<&str>().map(|s| s.to_string()).or(p.downcast_ref::<String>().cloned()).unwrap_or("?".into()); println!("FAIL\t{}\tpanicked: {}", key, m.replace("\n", " ").replace("\t", " ")); }
        }
    }
    /// sizes around the integer constants that occur in the code
    #[allow(dead_code)]
    pub fn sizes(&self, max: usize) -> Vec<usize> {
        let mut v: Vec<usize> = vec![];
        for &x in &self.hints { if x >= 2.0 && x == x.floor() && x < max as f64 { let c = x as usize; for &y in &[c - 1, c, c + 1, c + 2, 2 * c, 2 * c + 1] { if y <= max { v.push(y) } } } }
        v.sort(); v.dedup(); v
    }
    /// numbers around the constants that occur in the code
    #[allow(dead_code)]
    pub fn around(&self) -> Vec<f64> {
        let mut v: Vec<f64> = vec![];
        for &x in &self.hints { for &y in &[x, -x] { for &d in &[0.0, 1e-9, -1e-9, 1e-3, -1e-3, 0.5, -0.5, 1.0, -1.0] { v.push(y + d); v.push(y * (1.0 + d)); } v.push(2.0 * y) } }
        v
    }
    #[allow(dead_code)]
    pub fn full(&self) -> bool { self.fails >= self.lim }
}

/// small deterministic generator for inputs (independent of the scripted `rand` stand-in)
#[derive(Clone)]
pub struct G(pub u64);
#[allow(dead_code)]
impl G {
    pub fn u(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    pub fn below(&mut self, n: usize) -> usize { (self.u() % (n.max(1) as u64)) as usize }
    pub fn f(&mut self) -> f64 { (self.u() >> 11) as f64 / ((1u64 << 53) as f64) }
    pub fn r(&mut self, lo: f64, hi: f64) -> f64 { lo + (hi - lo) * self.f() }
    /// small multiples of 1/4: exact in floating point
    pub fn q(&mut self, m: usize) -> f64 { (self.below(2 * m + 1) as f64 - m as f64) / 4.0 }
    /// a number of [lo, hi], often a special one: a whole number, close to an end, or close to a constant of the code
    pub fn w(&mut self, lo: f64, hi: f64, hints: &[f64]) -> f64 {
        let x = match self.below(8) {
            0 => self.r(lo, hi).round(),
            1 => lo + (hi - lo) * (10f64).powi(-(1 + self.below(7) as i32)) * self.f(),
            2 => hi - (hi - lo) * (10f64).powi(-(1 + self.below(7) as i32)) * self.f(),
            3 if !hints.is_empty() => { let c = hints[self.below(hints.len())]; let d = self.r(-0.01, 0.01); [c, -c, c * (1.0 + d), c + d, -c + d, c * 0.5][self.below(6)] }
            _ => self.r(lo, hi),
        };
        if x > lo && x < hi { x } else { self.r(lo, hi) }
    }
    pub fn g(&mut self) -> f64 { let u = 1.0 - self.f(); let v = self.f(); (-2.0 * u.ln()).sqrt() * (6.283185307179586 * v).cos() }
}

pub fn run(table: &[(&str, fn(&mut H))]) {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let cur = Arc::new(Mutex::new((String::new(), Instant::now())));
    let mut h = H { only: get("--only"), list: a.iter().any(|x| x == "--list"), thorough: get("--tier").map_or(false, |t| t == "thorough"), seed: get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1), hints: get("--hints").map_or(vec![], |s| s.split(',').filter_map(|x| x.parse().ok()).collect()), n: 0, seen: HashSet::new(), fails: 0, samples: vec![], cur: cur.clone(), lim: 20 };
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(250));
        let c = cur.lock().unwrap();
        if !c.0.is_empty() && c.1.elapsed() > Duration::from_secs(20) {
            println!("FAIL\t{}\tdid not finish within 20 seconds", c.0);
            std::process::exit(3);
        }
    });
    let id = &a[1];
    let t = std::thread::Builder::new().stack_size(256 << 20);
    let id2 = id.clone();
    let fs: Vec<fn(&mut H)> = table.iter().filter(|x| x.0 == id2).map(|x| x.1).collect();
    if fs.is_empty() { println!("NOTEST"); std::process::exit(0) }
    let h = t.spawn(move || { for f in fs { f(&mut h) } h }).unwrap().join().unwrap();
    for s in &h.samples { println!("SAMPLE\t{}", s) }
    println!("DONE\t{}\t{}\t{}", h.n, h.seen.len(), h.fails);
}
