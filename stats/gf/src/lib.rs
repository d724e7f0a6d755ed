//! Stand-in for the primitive `f64` in the derived copy of the library: the bits of an (encoded)
//! scalar of the harness; every operation goes through the harness.
use num_traits::{FromPrimitive, Num, NumCast, One, ToPrimitive, Zero};
use std::cell::Cell;
use std::cmp::Ordering;
use std::ops::*;

#[derive(Clone, Copy)]
pub struct Gf64(pub f64);
#[derive(Clone, Copy)]
pub struct Hooks {
    pub op: fn(Op, f64, f64) -> f64,
    pub lt: fn(f64, f64) -> bool,
    pub eq: fn(f64, f64) -> bool,
    /// cumulative probability of a distribution
    pub cdf: fn(Dist, &[f64], f64) -> f64,
    /// its inverse
    pub inv: fn(Dist, &[f64], f64) -> f64,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op { Add, Sub, Mul, Div, Neg, Sqrt, Exp, Ln, Ln1p, Expm1, Abs, Sgn, Powi, Powf, Max, Min, Unsupported }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Dist { Normal, StudentT, ChiSquared, F, Gamma, Exp, Bernoulli, Binomial, Poisson }
fn no2(_: Op, _: f64, _: f64) -> f64 { panic!("no hooks") }
fn nob(_: f64, _: f64) -> bool { panic!("no hooks") }
fn nod(_: Dist, _: &[f64], _: f64) -> f64 { panic!("no hooks") }
thread_local! { static HOOKS: Cell<Hooks> = const { Cell::new(Hooks { op: no2, lt: nob, eq: nob, cdf: nod, inv: nod }) }; }
pub fn set_hooks(h: Hooks) { HOOKS.with(|c| c.set(h)) }
fn op(o: Op, a: Gf64, b: Gf64) -> Gf64 { Gf64((HOOKS.with(|c| c.get()).op)(o, a.0, b.0)) }
fn un(o: Op, a: Gf64) -> Gf64 { op(o, a, a) }
pub fn cdf(d: Dist, p: &[Gf64], x: Gf64) -> Gf64 {
    let p: Vec<f64> = p.iter().map(|g| g.0).collect();
    Gf64((HOOKS.with(|c| c.get()).cdf)(d, &p, x.0))
}
pub fn inv(d: Dist, p: &[Gf64], x: Gf64) -> Gf64 {
    let p: Vec<f64> = p.iter().map(|g| g.0).collect();
    Gf64((HOOKS.with(|c| c.get()).inv)(d, &p, x.0))
}
macro_rules! bin {
    ($tr:ident, $f:ident, $tra:ident, $fa:ident, $op:ident) => {
        impl $tr for Gf64 { type Output = Gf64; fn $f(self, o: Gf64) -> Gf64 { op(Op::$op, self, o) } }
        impl $tr<&Gf64> for Gf64 { type Output = Gf64; fn $f(self, o: &Gf64) -> Gf64 { op(Op::$op, self, *o) } }
        impl $tr<Gf64> for &Gf64 { type Output = Gf64; fn $f(self, o: Gf64) -> Gf64 { op(Op::$op, *self, o) } }
        impl $tr<&Gf64> for &Gf64 { type Output = Gf64; fn $f(self, o: &Gf64) -> Gf64 { op(Op::$op, *self, *o) } }
        impl $tr<f64> for Gf64 { type Output = Gf64; fn $f(self, o: f64) -> Gf64 { op(Op::$op, self, Gf64(o)) } }
        impl $tr<Gf64> for f64 { type Output = Gf64; fn $f(self, o: Gf64) -> Gf64 { op(Op::$op, Gf64(self), o) } }
        impl $tra for Gf64 { fn $fa(&mut self, o: Gf64) { *self = op(Op::$op, *self, o) } }
        impl $tra<f64> for Gf64 { fn $fa(&mut self, o: f64) { *self = op(Op::$op, *self, Gf64(o)) } }
    };
}
bin!(Add, add, AddAssign, add_assign, Add);
bin!(Sub, sub, SubAssign, sub_assign, Sub);
bin!(Mul, mul, MulAssign, mul_assign, Mul);
bin!(Div, div, DivAssign, div_assign, Div);
bin!(Rem, rem, RemAssign, rem_assign, Unsupported);
impl Neg for Gf64 { type Output = Gf64; fn neg(self) -> Gf64 { un(Op::Neg, self) } }
impl Zero for Gf64 { fn zero() -> Gf64 { Gf64(0.0) } fn is_zero(&self) -> bool { *self == Gf64(0.0) } }
impl One for Gf64 { fn one() -> Gf64 { Gf64(1.0) } }
impl Num for Gf64 { type FromStrRadixErr = (); fn from_str_radix(s: &str, _: u32) -> Result<Gf64, ()> { s.parse().map(Gf64).map_err(|_| ()) } }
impl ToPrimitive for Gf64 {
    fn to_i64(&self) -> Option<i64> { self.0.to_i64() }
    fn to_u64(&self) -> Option<u64> { self.0.to_u64() }
    fn to_f64(&self) -> Option<f64> { Some(self.0) }
}
impl NumCast for Gf64 { fn from<X: ToPrimitive>(n: X) -> Option<Gf64> { n.to_f64().map(Gf64) } }
impl FromPrimitive for Gf64 {
    fn from_i64(n: i64) -> Option<Gf64> { Some(Gf64(n as f64)) }
    fn from_u64(n: u64) -> Option<Gf64> { Some(Gf64(n as f64)) }
    fn from_f64(n: f64) -> Option<Gf64> { Some(Gf64(n)) }
}
impl PartialEq for Gf64 { fn eq(&self, o: &Gf64) -> bool { (HOOKS.with(|c| c.get()).eq)(self.0, o.0) } }
impl PartialOrd for Gf64 {
    fn partial_cmp(&self, o: &Gf64) -> Option<Ordering> {
        if self.0.is_nan() || o.0.is_nan() { return None }
        Some(if self.lt(o) { Ordering::Less } else if self == o { Ordering::Equal } else { Ordering::Greater })
    }
    fn lt(&self, o: &Gf64) -> bool { (HOOKS.with(|c| c.get()).lt)(self.0, o.0) }
    fn gt(&self, o: &Gf64) -> bool { o.lt(self) }
    fn le(&self, o: &Gf64) -> bool { !self.0.is_nan() && !o.0.is_nan() && !o.lt(self) }
    fn ge(&self, o: &Gf64) -> bool { o.le(self) }
}
impl PartialEq<f64> for Gf64 { fn eq(&self, o: &f64) -> bool { *self == Gf64(*o) } }
impl PartialEq<Gf64> for f64 { fn eq(&self, o: &Gf64) -> bool { Gf64(*self) == *o } }
impl PartialOrd<f64> for Gf64 { fn partial_cmp(&self, o: &f64) -> Option<Ordering> { self.partial_cmp(&Gf64(*o)) } }
impl PartialOrd<Gf64> for f64 { fn partial_cmp(&self, o: &Gf64) -> Option<Ordering> { Gf64(*self).partial_cmp(o) } }
impl PartialEq<Gf64> for f32 { fn eq(&self, o: &Gf64) -> bool { Gf64(*self as f64) == *o } }
impl PartialOrd<Gf64> for f32 { fn partial_cmp(&self, o: &Gf64) -> Option<Ordering> { Gf64(*self as f64).partial_cmp(o) } }
impl std::fmt::Display for Gf64 { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { self.0.fmt(f) } }
impl std::fmt::Debug for Gf64 { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { self.0.fmt(f) } }
impl Default for Gf64 { fn default() -> Gf64 { Gf64(0.0) } }
impl From<f64> for Gf64 { fn from(x: f64) -> Gf64 { Gf64(x) } }
impl From<f32> for Gf64 { fn from(x: f32) -> Gf64 { Gf64(x as f64) } }
impl From<Gf64> for f64 { fn from(x: Gf64) -> f64 { x.0 } }
macro_rules! ints { ($($t:ty),*) => { $( impl From<$t> for Gf64 { fn from(x: $t) -> Gf64 { Gf64(x as f64) } } )* } }
ints!(u8, u16, u32, i8, i16, i32);
impl std::iter::Sum for Gf64 { fn sum<I: Iterator<Item = Gf64>>(i: I) -> Gf64 { i.fold(Gf64(0.0), |a, b| a + b) } }
impl<'a> std::iter::Sum<&'a Gf64> for Gf64 { fn sum<I: Iterator<Item = &'a Gf64>>(i: I) -> Gf64 { i.fold(Gf64(0.0), |a, b| a + *b) } }
impl Gf64 {
    pub const EPSILON: Gf64 = Gf64(f64::EPSILON);
    pub const MIN_POSITIVE: Gf64 = Gf64(f64::MIN_POSITIVE);
    pub const MAX: Gf64 = Gf64(f64::MAX);
    pub const MIN: Gf64 = Gf64(f64::MIN);
    pub const INFINITY: Gf64 = Gf64(f64::INFINITY);
    pub const NEG_INFINITY: Gf64 = Gf64(f64::NEG_INFINITY);
    pub const NAN: Gf64 = Gf64(f64::NAN);
    /// a literal of the source (a primitive constant)
    pub const fn lit(x: f64) -> Gf64 { Gf64(x) }
    pub fn sqrt(self) -> Gf64 { un(Op::Sqrt, self) }
    pub fn exp(self) -> Gf64 { un(Op::Exp, self) }
    pub fn ln(self) -> Gf64 { un(Op::Ln, self) }
    pub fn ln_1p(self) -> Gf64 { un(Op::Ln1p, self) }
    pub fn exp_m1(self) -> Gf64 { un(Op::Expm1, self) }
    pub fn abs(self) -> Gf64 { un(Op::Abs, self) }
    pub fn signum(self) -> Gf64 { un(Op::Sgn, self) }
    pub fn recip(self) -> Gf64 { Gf64(1.0) / self }
    pub fn powi(self, n: i32) -> Gf64 { op(Op::Powi, self, Gf64(n as f64)) }
    pub fn powf(self, e: impl Into<Gf64>) -> Gf64 { op(Op::Powf, self, e.into()) }
    pub fn max(self, o: impl Into<Gf64>) -> Gf64 { op(Op::Max, self, o.into()) }
    pub fn min(self, o: impl Into<Gf64>) -> Gf64 { op(Op::Min, self, o.into()) }
    pub fn clamp(self, lo: impl Into<Gf64>, hi: impl Into<Gf64>) -> Gf64 { self.max(lo).min(hi) }
    pub fn mul_add(self, a: impl Into<Gf64>, b: impl Into<Gf64>) -> Gf64 { self * a.into() + b.into() }
    pub fn hypot(self, o: impl Into<Gf64>) -> Gf64 { let o = o.into(); (self * self + o * o).sqrt() }
    pub fn is_nan(self) -> bool { self.0.is_nan() }
    pub fn is_finite(self) -> bool { self.0.is_finite() }
    pub fn is_infinite(self) -> bool { self.0.is_infinite() }
    pub fn is_sign_negative(self) -> bool { self < Gf64(0.0) }
    pub fn is_sign_positive(self) -> bool { !self.is_sign_negative() }
}
/// `x.to_f64()`
pub trait ToGf { fn to_gf(&self) -> Option<Gf64>; }
impl<T: ToPrimitive + ?Sized> ToGf for T { fn to_gf(&self) -> Option<Gf64> { self.to_f64().map(Gf64) } }
/// `T::from_f64(x)`
pub trait FromGf: Sized { fn from_gf(x: Gf64) -> Option<Self>; }
impl<T: FromPrimitive> FromGf for T { fn from_gf(x: Gf64) -> Option<T> { T::from_f64(x.0) } }
/// `x as f64`
pub fn cast<T: ToPrimitive>(x: T) -> Gf64 { Gf64(x.to_f64().unwrap()) }

macro_rules! uns { ($($f:ident),*) => { $( fn $f(self) -> Gf64 { un(Op::Unsupported, self) } )* } }
impl num_traits::Float for Gf64 {
    fn nan() -> Gf64 { Gf64::NAN }
    fn infinity() -> Gf64 { Gf64::INFINITY }
    fn neg_infinity() -> Gf64 { Gf64::NEG_INFINITY }
    fn neg_zero() -> Gf64 { Gf64(0.0) }
    fn min_value() -> Gf64 { Gf64::MIN }
    fn max_value() -> Gf64 { Gf64::MAX }
    fn min_positive_value() -> Gf64 { Gf64::MIN_POSITIVE }
    fn epsilon() -> Gf64 { Gf64::EPSILON }
    fn is_nan(self) -> bool { self.0.is_nan() }
    fn is_infinite(self) -> bool { self.0.is_infinite() }
    fn is_finite(self) -> bool { self.0.is_finite() }
    fn is_normal(self) -> bool { self.0.is_normal() }
    fn classify(self) -> std::num::FpCategory { self.0.classify() }
    uns!(floor, ceil, round, trunc, fract, exp2, log2, log10, cbrt, sin, cos, tan, asin, acos, atan, sinh, cosh, tanh, asinh, acosh, atanh);
    fn log(self, b: Gf64) -> Gf64 { Gf64::ln(self) / Gf64::ln(b) }
    fn atan2(self, _: Gf64) -> Gf64 { un(Op::Unsupported, self) }
    fn sin_cos(self) -> (Gf64, Gf64) { (un(Op::Unsupported, self), self) }
    fn hypot(self, o: Gf64) -> Gf64 { Gf64::hypot(self, o) }
    fn abs(self) -> Gf64 { Gf64::abs(self) }
    fn signum(self) -> Gf64 { Gf64::signum(self) }
    fn is_sign_positive(self) -> bool { Gf64::is_sign_positive(self) }
    fn is_sign_negative(self) -> bool { Gf64::is_sign_negative(self) }
    fn mul_add(self, a: Gf64, b: Gf64) -> Gf64 { self * a + b }
    fn recip(self) -> Gf64 { Gf64::recip(self) }
    fn powi(self, n: i32) -> Gf64 { Gf64::powi(self, n) }
    fn powf(self, e: Gf64) -> Gf64 { Gf64::powf(self, e) }
    fn sqrt(self) -> Gf64 { Gf64::sqrt(self) }
    fn exp(self) -> Gf64 { Gf64::exp(self) }
    fn ln(self) -> Gf64 { Gf64::ln(self) }
    fn exp_m1(self) -> Gf64 { Gf64::exp_m1(self) }
    fn ln_1p(self) -> Gf64 { Gf64::ln_1p(self) }
    fn max(self, o: Gf64) -> Gf64 { Gf64::max(self, o) }
    fn min(self, o: Gf64) -> Gf64 { Gf64::min(self, o) }
    fn clamp(self, lo: Gf64, hi: Gf64) -> Gf64 { Gf64::clamp(self, lo, hi) }
    fn abs_sub(self, o: Gf64) -> Gf64 { (self - o).max(0.0) }
    fn integer_decode(self) -> (u64, i16, i8) { num_traits::Float::integer_decode(self.0) }
}
