//! Stand-in for `rand` 0.4: the same API surface the repository uses (and the neighbouring part of
//! it), but `thread_rng()` is *scripted*: the replay harness chooses every draw, so a failing
//! history is reproducible.  The verifier uses only the signatures and assumes the contract
//! "gen_range(lo, hi) panics unless lo < hi, and returns any value of [lo, hi)".
use std::cell::RefCell;

#[derive(Clone, Debug)]
pub enum Draw { Usize(u64, u64, u64), Float }
#[derive(Default, Debug)]
pub struct Script { pub choices: Vec<u64>, pub pos: usize, pub trace: Vec<(u64, u64, u64)>, pub seed: u64, pub scripted: bool, pub floats: Vec<f64>, pub fpos: usize, pub other: usize }
thread_local!(pub static SCRIPT: RefCell<Script> = RefCell::new(Script { seed: 0x9E3779B97F4A7C15, ..Default::default() }));

fn next_raw(s: &mut Script) -> u64 {
    s.seed = s.seed.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = s.seed;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
/// harness API: seed the generator (unscripted mode)
pub fn harness_seed(seed: u64) { SCRIPT.with(|s| { *s.borrow_mut() = Script { seed: seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03, ..Default::default() } }) }
/// harness API: script the integer draws by their offsets from `lo` (missing entries are 0)
pub fn harness_script(choices: Vec<u64>) { SCRIPT.with(|s| { *s.borrow_mut() = Script { choices: choices, scripted: true, ..Default::default() } }) }
/// harness API: the (lo, hi, value) trace of integer draws since the last seed/script call
pub fn harness_trace() -> Vec<(u64, u64, u64)> { SCRIPT.with(|s| s.borrow().trace.clone()) }
pub fn harness_other() -> usize { SCRIPT.with(|s| s.borrow().other) }

fn draw_u64(lo: u64, hi: u64) -> u64 {
    SCRIPT.with(|s| {
        let mut s = s.borrow_mut();
        let span = hi.wrapping_sub(lo);
        let off = if s.scripted { let c = s.choices.get(s.pos).cloned().unwrap_or(0); s.pos += 1; if span == 0 { c } else { c % span } } else { let r = next_raw(&mut s); if span == 0 { r } else { r % span } };
        let v = lo.wrapping_add(off);
        s.trace.push((lo, hi, v));
        v
    })
}
fn raw() -> u64 { SCRIPT.with(|s| { let mut s = s.borrow_mut(); s.other += 1; next_raw(&mut s) }) }
fn unit() -> f64 { (raw() >> 11) as f64 / ((1u64 << 53) as f64) }

pub trait Rand: Sized { fn rand<R: Rng>(rng: &mut R) -> Self; }
macro_rules! rand_int { ($($t:ty)*) => {$( impl Rand for $t { fn rand<R: Rng>(rng: &mut R) -> $t { rng.next_u64() as $t } } )*} }
rand_int!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
impl Rand for bool { fn rand<R: Rng>(rng: &mut R) -> bool { rng.next_u64() & 1 == 1 } }
impl Rand for f64 { fn rand<R: Rng>(rng: &mut R) -> f64 { (rng.next_u64() >> 11) as f64 / ((1u64 << 53) as f64) } }
impl Rand for f32 { fn rand<R: Rng>(rng: &mut R) -> f32 { (rng.next_u64() >> 40) as f32 / ((1u64 << 24) as f32) } }

pub trait Rng: Sized {
    fn next_u32(&mut self) -> u32;
    fn next_u64(&mut self) -> u64 { ((self.next_u32() as u64) << 32) | self.next_u32() as u64 }
    fn next_f64(&mut self) -> f64 { (self.next_u64() >> 11) as f64 / ((1u64 << 53) as f64) }
    fn gen<T: Rand>(&mut self) -> T { T::rand(self) }
    fn gen_range<T: PartialOrd + distributions::range::SampleRange>(&mut self, low: T, high: T) -> T {
        assert!(low < high, "Rng.gen_range called with low >= high");
        T::draw(low, high, self)
    }
    fn gen_weighted_bool(&mut self, n: u32) -> bool { n <= 1 || self.gen_range(0, n) == 0 }
    fn choose<'a, T>(&mut self, values: &'a [T]) -> Option<&'a T> { if values.is_empty() { None } else { let i = self.gen_range(0, values.len()); Some(&values[i]) } }
    fn choose_mut<'a, T>(&mut self, values: &'a mut [T]) -> Option<&'a mut T> { if values.is_empty() { None } else { let len = values.len(); Some(&mut values[self.gen_range(0, len)]) } }
    fn shuffle<T>(&mut self, values: &mut [T]) { let mut i = values.len(); while i >= 2 { i -= 1; let j = self.gen_range(0, i + 1); values.swap(i, j); } }
}
impl<'a, R: Rng> Rng for &'a mut R { fn next_u32(&mut self) -> u32 { (**self).next_u32() } fn next_u64(&mut self) -> u64 { (**self).next_u64() } }

#[derive(Clone, Debug)]
pub struct ThreadRng { _p: () }
impl Rng for ThreadRng { fn next_u32(&mut self) -> u32 { raw() as u32 } fn next_u64(&mut self) -> u64 { raw() } }
pub fn thread_rng() -> ThreadRng { ThreadRng { _p: () } }
pub fn random<T: Rand>() -> T { thread_rng().gen() }
pub trait SeedableRng<Seed>: Rng { fn reseed(&mut self, Seed); fn from_seed(seed: Seed) -> Self; }
#[derive(Clone, Debug)]
pub struct StdRng { _p: () }
impl Rng for StdRng { fn next_u32(&mut self) -> u32 { raw() as u32 } fn next_u64(&mut self) -> u64 { raw() } }
impl<'a> SeedableRng<&'a [usize]> for StdRng { fn reseed(&mut self, _: &'a [usize]) {} fn from_seed(_: &'a [usize]) -> StdRng { StdRng { _p: () } } }
impl StdRng { pub fn new() -> std::io::Result<StdRng> { Ok(StdRng { _p: () }) } }
pub fn weak_rng() -> StdRng { StdRng { _p: () } }

pub mod distributions {
    use super::{Rng, Rand};
    pub trait Sample<Support> { fn sample<R: Rng>(&mut self, rng: &mut R) -> Support; }
    pub trait IndependentSample<Support>: Sample<Support> { fn ind_sample<R: Rng>(&self, &mut R) -> Support; }
    pub mod range {
        use super::super::Rng;
        pub trait SampleRange: Sized + Copy { fn draw<R: Rng>(low: Self, high: Self, rng: &mut R) -> Self; }
        macro_rules! sr { ($($t:ty)*) => {$( impl SampleRange for $t { fn draw<R: Rng>(low: $t, high: $t, _: &mut R) -> $t { ::draw_u64(low as u64, high as u64) as $t } } )*} }
        sr!(usize u8 u16 u32 u64 isize i8 i16 i32 i64);
        impl SampleRange for f64 { fn draw<R: Rng>(low: f64, high: f64, _: &mut R) -> f64 { low + (high - low) * ::unit() } }
        impl SampleRange for f32 { fn draw<R: Rng>(low: f32, high: f32, _: &mut R) -> f32 { low + (high - low) * ::unit() as f32 } }
    }
    #[derive(Clone, Copy, Debug)]
    pub struct Range<X> { low: X, high: X }
    impl<X: range::SampleRange + PartialOrd> Range<X> { pub fn new(low: X, high: X) -> Range<X> { assert!(low < high, "Range::new called with `low >= high`"); Range { low: low, high: high } } }
    impl<X: range::SampleRange> Sample<X> for Range<X> { fn sample<R: Rng>(&mut self, rng: &mut R) -> X { X::draw(self.low, self.high, rng) } }
    impl<X: range::SampleRange> IndependentSample<X> for Range<X> { fn ind_sample<R: Rng>(&self, rng: &mut R) -> X { X::draw(self.low, self.high, rng) } }
    fn gauss<R: Rng>(rng: &mut R) -> f64 {
        let u = (rng.next_u64() >> 11) as f64 / ((1u64 << 53) as f64);
        let v = (rng.next_u64() >> 11) as f64 / ((1u64 << 53) as f64);
        (-2.0 * (1.0 - u).ln()).sqrt() * (2.0 * ::std::f64::consts::PI * v).cos()
    }
    pub mod normal {
        use super::*;
        #[derive(Clone, Copy, Debug)] pub struct StandardNormal(pub f64);
        impl Rand for StandardNormal { fn rand<R: Rng>(rng: &mut R) -> StandardNormal { StandardNormal(super::gauss(rng)) } }
        #[derive(Clone, Copy, Debug)] pub struct Normal { mean: f64, std_dev: f64 }
        impl Normal { pub fn new(mean: f64, std_dev: f64) -> Normal { assert!(std_dev >= 0.0, "Normal::new called with `std_dev` < 0"); Normal { mean: mean, std_dev: std_dev } } }
        impl Sample<f64> for Normal { fn sample<R: Rng>(&mut self, rng: &mut R) -> f64 { self.ind_sample(rng) } }
        impl IndependentSample<f64> for Normal { fn ind_sample<R: Rng>(&self, rng: &mut R) -> f64 { self.mean + self.std_dev * super::gauss(rng) } }
    }
    pub mod exponential {
        use super::*;
        #[derive(Clone, Copy, Debug)] pub struct Exp1(pub f64);
        impl Rand for Exp1 { fn rand<R: Rng>(rng: &mut R) -> Exp1 { let u = (rng.next_u64() >> 11) as f64 / ((1u64 << 53) as f64); Exp1(-(1.0 - u).ln()) } }
    }
    pub use self::range::SampleRange;
    pub use self::normal::Normal;
}
