//! Stand-in for the `num` 0.1.41 facade (the part of its API that rusty-machine can reach:
//! Zero, One, Float, FromPrimitive, ToPrimitive, NumCast, Signed, abs).  `num` cannot be fetched
//! in this sandbox.  Only *signatures* matter to the verifier; bodies matter to the replay search.
use std::ops::{Add, Div, Mul, Neg, Rem, Sub};

pub trait Zero: Sized + Add<Self, Output = Self> { fn zero() -> Self; fn is_zero(&self) -> bool; }
pub trait One: Sized + Mul<Self, Output = Self> { fn one() -> Self; }
pub trait Num: PartialEq + Zero + One + Sub<Output = Self> + Div<Output = Self> + Rem<Output = Self> {}
pub trait ToPrimitive {
    fn to_i64(&self) -> Option<i64>; fn to_u64(&self) -> Option<u64>; fn to_f64(&self) -> Option<f64>;
    fn to_usize(&self) -> Option<usize> { self.to_u64().map(|x| x as usize) }
    fn to_f32(&self) -> Option<f32> { self.to_f64().map(|x| x as f32) }
}
pub trait FromPrimitive: Sized {
    fn from_i64(n: i64) -> Option<Self>; fn from_u64(n: u64) -> Option<Self>;
    fn from_f64(n: f64) -> Option<Self> { Self::from_i64(n as i64) }
    fn from_f32(n: f32) -> Option<Self> { Self::from_f64(n as f64) }
    fn from_usize(n: usize) -> Option<Self> { Self::from_u64(n as u64) }
    fn from_isize(n: isize) -> Option<Self> { Self::from_i64(n as i64) }
    fn from_u32(n: u32) -> Option<Self> { Self::from_u64(n as u64) }
    fn from_i32(n: i32) -> Option<Self> { Self::from_i64(n as i64) }
    fn from_u8(n: u8) -> Option<Self> { Self::from_u64(n as u64) }
}
pub trait NumCast: Sized + ToPrimitive { fn from<T: ToPrimitive>(n: T) -> Option<Self>; }
pub fn cast<T: NumCast + ToPrimitive, U: NumCast>(n: T) -> Option<U> { U::from(n) }
pub trait Signed: Sized + Num + Neg<Output = Self> {
    fn abs(&self) -> Self; fn signum(&self) -> Self; fn is_positive(&self) -> bool; fn is_negative(&self) -> bool;
}
pub fn abs<T: Signed>(v: T) -> T { v.abs() }
pub fn signum<T: Signed>(v: T) -> T { v.signum() }
pub fn zero<T: Zero>() -> T { T::zero() }
pub fn one<T: One>() -> T { T::one() }
pub trait Bounded { fn min_value() -> Self; fn max_value() -> Self; }

macro_rules! ints { ($($t:ty)*) => {$(
    impl Zero for $t { fn zero() -> $t { 0 } fn is_zero(&self) -> bool { *self == 0 } }
    impl One for $t { fn one() -> $t { 1 } }
    impl Num for $t {}
    impl Bounded for $t { fn min_value() -> $t { <$t>::MIN } fn max_value() -> $t { <$t>::MAX } }
    impl ToPrimitive for $t { fn to_i64(&self) -> Option<i64> { Some(*self as i64) } fn to_u64(&self) -> Option<u64> { Some(*self as u64) } fn to_f64(&self) -> Option<f64> { Some(*self as f64) } }
    impl FromPrimitive for $t { fn from_i64(n: i64) -> Option<$t> { Some(n as $t) } fn from_u64(n: u64) -> Option<$t> { Some(n as $t) } }
    impl NumCast for $t { fn from<T: ToPrimitive>(n: T) -> Option<$t> { n.to_i64().map(|x| x as $t) } }
)*}}
ints!(usize u8 u16 u32 u64 isize i8 i16 i32 i64);
macro_rules! signed { ($($t:ty)*) => {$(
    impl Signed for $t { fn abs(&self) -> $t { if *self < 0 { -*self } else { *self } } fn signum(&self) -> $t { (*self > 0) as $t - (*self < 0) as $t }
        fn is_positive(&self) -> bool { *self > 0 } fn is_negative(&self) -> bool { *self < 0 } }
)*}}
signed!(isize i8 i16 i32 i64);

pub trait Float: Num + Copy + NumCast + PartialOrd + Neg<Output = Self> {
    fn nan() -> Self; fn infinity() -> Self; fn neg_infinity() -> Self; fn neg_zero() -> Self;
    fn min_value() -> Self; fn min_positive_value() -> Self; fn max_value() -> Self; fn epsilon() -> Self;
    fn is_nan(self) -> bool; fn is_infinite(self) -> bool; fn is_finite(self) -> bool; fn is_normal(self) -> bool;
    fn floor(self) -> Self; fn ceil(self) -> Self; fn round(self) -> Self; fn trunc(self) -> Self; fn fract(self) -> Self;
    fn abs(self) -> Self; fn signum(self) -> Self; fn is_sign_positive(self) -> bool; fn is_sign_negative(self) -> bool;
    fn mul_add(self, a: Self, b: Self) -> Self; fn recip(self) -> Self; fn powi(self, n: i32) -> Self; fn powf(self, n: Self) -> Self;
    fn sqrt(self) -> Self; fn exp(self) -> Self; fn exp2(self) -> Self; fn ln(self) -> Self; fn log(self, base: Self) -> Self;
    fn log2(self) -> Self; fn log10(self) -> Self; fn max(self, other: Self) -> Self; fn min(self, other: Self) -> Self;
    fn cbrt(self) -> Self; fn hypot(self, other: Self) -> Self; fn sin(self) -> Self; fn cos(self) -> Self; fn tan(self) -> Self;
    fn tanh(self) -> Self; fn sinh(self) -> Self; fn cosh(self) -> Self; fn exp_m1(self) -> Self; fn ln_1p(self) -> Self; fn atan(self) -> Self;
}
macro_rules! floats { ($($t:ident)*) => {$(
    impl Zero for $t { fn zero() -> $t { 0.0 } fn is_zero(&self) -> bool { *self == 0.0 } }
    impl One for $t { fn one() -> $t { 1.0 } }
    impl Num for $t {}
    impl Bounded for $t { fn min_value() -> $t { $t::MIN } fn max_value() -> $t { $t::MAX } }
    impl Signed for $t { fn abs(&self) -> $t { $t::abs(*self) } fn signum(&self) -> $t { $t::signum(*self) }
        fn is_positive(&self) -> bool { *self > 0.0 } fn is_negative(&self) -> bool { *self < 0.0 } }
    impl ToPrimitive for $t { fn to_i64(&self) -> Option<i64> { Some(*self as i64) } fn to_u64(&self) -> Option<u64> { Some(*self as u64) } fn to_f64(&self) -> Option<f64> { Some(*self as f64) } }
    impl FromPrimitive for $t { fn from_i64(n: i64) -> Option<$t> { Some(n as $t) } fn from_u64(n: u64) -> Option<$t> { Some(n as $t) } fn from_f64(n: f64) -> Option<$t> { Some(n as $t) } }
    impl NumCast for $t { fn from<T: ToPrimitive>(n: T) -> Option<$t> { n.to_f64().map(|x| x as $t) } }
    impl Float for $t {
        fn nan() -> $t { $t::NAN } fn infinity() -> $t { $t::INFINITY } fn neg_infinity() -> $t { $t::NEG_INFINITY } fn neg_zero() -> $t { -0.0 }
        fn min_value() -> $t { $t::MIN } fn min_positive_value() -> $t { $t::MIN_POSITIVE } fn max_value() -> $t { $t::MAX } fn epsilon() -> $t { $t::EPSILON }
        fn is_nan(self) -> bool { $t::is_nan(self) } fn is_infinite(self) -> bool { $t::is_infinite(self) } fn is_finite(self) -> bool { $t::is_finite(self) } fn is_normal(self) -> bool { $t::is_normal(self) }
        fn floor(self) -> $t { $t::floor(self) } fn ceil(self) -> $t { $t::ceil(self) } fn round(self) -> $t { $t::round(self) } fn trunc(self) -> $t { $t::trunc(self) } fn fract(self) -> $t { $t::fract(self) }
        fn abs(self) -> $t { $t::abs(self) } fn signum(self) -> $t { $t::signum(self) } fn is_sign_positive(self) -> bool { $t::is_sign_positive(self) } fn is_sign_negative(self) -> bool { $t::is_sign_negative(self) }
        fn mul_add(self, a: $t, b: $t) -> $t { $t::mul_add(self, a, b) } fn recip(self) -> $t { 1.0 / self } fn powi(self, n: i32) -> $t { $t::powi(self, n) } fn powf(self, n: $t) -> $t { $t::powf(self, n) }
        fn sqrt(self) -> $t { $t::sqrt(self) } fn exp(self) -> $t { $t::exp(self) } fn exp2(self) -> $t { $t::exp2(self) } fn ln(self) -> $t { $t::ln(self) } fn log(self, b: $t) -> $t { $t::log(self, b) }
        fn log2(self) -> $t { $t::log2(self) } fn log10(self) -> $t { $t::log10(self) } fn max(self, o: $t) -> $t { $t::max(self, o) } fn min(self, o: $t) -> $t { $t::min(self, o) }
        fn cbrt(self) -> $t { $t::cbrt(self) } fn hypot(self, o: $t) -> $t { $t::hypot(self, o) } fn sin(self) -> $t { $t::sin(self) } fn cos(self) -> $t { $t::cos(self) } fn tan(self) -> $t { $t::tan(self) }
        fn tanh(self) -> $t { $t::tanh(self) } fn sinh(self) -> $t { $t::sinh(self) } fn cosh(self) -> $t { $t::cosh(self) } fn exp_m1(self) -> $t { $t::exp_m1(self) } fn ln_1p(self) -> $t { $t::ln_1p(self) } fn atan(self) -> $t { $t::atan(self) }
    }
)*}}
floats!(f32 f64);
