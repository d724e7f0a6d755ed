//! Bit-precise checks of the scalar code that the exact-real harness cannot see (NaN, infinities,
//! subnormals, signed zero, integer limits). Kani compiles the library's own functions to the CBMC
//! back end, which decides each assertion for every bit pattern of the inputs. The same bodies are
//! compiled natively for replaying a counterexample with the real mathematical functions.
#![allow(dead_code)]
use ndarray_glm::verif_hooks::{Glm, Yval};
use ndarray_glm::{link::Link, *};

#[cfg(kani)]
macro_rules! pick { ($t:ty) => { kani::any::<$t>() }; }
#[cfg(not(kani))]
macro_rules! pick { ($t:ty) => { <$t as replay::Take>::take() }; }
#[cfg(kani)]
macro_rules! assume { ($e:expr) => { kani::assume($e) }; }
#[cfg(not(kani))]
macro_rules! assume { ($e:expr) => { if !$e { replay::outside(); } }; }

/// Native replaying: the drawn values come from a counterexample, or from a list of limits of the
/// type when the solver's own values relied on the slack of a contract.
#[cfg(not(kani))]
pub mod replay {
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct Draw { pub given: Option<Vec<Vec<u8>>>, pub at: usize, pub digits: Vec<usize>, pub radix: Vec<usize>, pub taken: Vec<Vec<u8>>, pub shown: Vec<String> }
    thread_local!(pub static DRAW: RefCell<Draw> = RefCell::new(Draw::default()));
    pub struct Outside;
    pub fn outside() { std::panic::panic_any(Outside) }
    pub trait Take: Sized { fn take() -> Self; }
    fn draw<T: Copy + std::fmt::Debug>(grid: &[T], of: impl Fn(&[u8]) -> T, to: impl Fn(T) -> Vec<u8>) -> T {
        DRAW.with(|d| {
            let d = &mut *d.borrow_mut();
            let v = match &d.given {
                Some(g) => of(&g.get(d.at).cloned().unwrap_or_default()),
                None => {
                    if d.digits.len() <= d.at { d.digits.push(0) }
                    if d.radix.len() <= d.at { d.radix.push(grid.len()) }
                    grid[d.digits[d.at]]
                }
            };
            d.at += 1;
            d.taken.push(to(v));
            d.shown.push(format!("{}: {v:?}", std::any::type_name::<T>()));
            v
        })
    }
    macro_rules! t { ($($t:ident [$($g:expr),*]),*) => { $(impl Take for $t { fn take() -> Self {
        draw(&[$($g),*], |b| { let mut b = b.to_vec(); b.resize(size_of::<$t>(), 0); $t::from_le_bytes(b.try_into().unwrap()) }, |v| v.to_le_bytes().to_vec())
    } })* } }
    macro_rules! f { ($($t:ident),*) => { t!($($t [0.0, -0.0, 1.0, 0.5, 0.25, -1.0, 2.0, 3.5, -3.5, 7.0, -7.0, 20.0, -20.0, 40.0, -40.0, 100.0, -100.0, 710.0, -710.0, 800.0, -800.0, 1e-9, -1e-9, 1e9, -1e9, 1e30, -1e30,
        $t::EPSILON, 1.0 - $t::EPSILON, 1.0 + $t::EPSILON, $t::MIN_POSITIVE, -$t::MIN_POSITIVE, $t::MIN_POSITIVE / 2.0, $t::from_bits(1), -$t::from_bits(1), $t::MAX, $t::MIN, $t::INFINITY, $t::NEG_INFINITY, $t::NAN]),*); } }
    f!(f64, f32);
    macro_rules! u { ($($t:ident),*) => { t!($($t [0, 1, 2, 7, 8, 12, 13, 100, $t::MAX / 2, $t::MAX / 2 + 1, $t::MAX - 1, $t::MAX]),*); } }
    u!(u8, u16, u32, u64, usize);
    impl Take for bool { fn take() -> Self { draw(&[false, true], |b| b.first().is_some_and(|b| b & 1 == 1), |v| vec![v as u8]) } }
    /// Run with the given values; true if an assertion failed.
    pub fn run(f: fn(), given: Option<Vec<Vec<u8>>>) -> bool {
        DRAW.with(|d| { let d = &mut *d.borrow_mut(); d.at = 0; d.given = given; d.taken.clear(); d.shown.clear() });
        match std::panic::catch_unwind(f) { Ok(()) => false, Err(e) => !e.is::<Outside>() }
    }
    pub fn next() -> bool {
        DRAW.with(|d| {
            let d = &mut *d.borrow_mut();
            while let Some(k) = d.digits.pop() {
                let r = d.radix[d.digits.len()];
                d.radix.truncate(d.digits.len() + 1);
                if k + 1 < r { d.digits.push(k + 1); return true }
            }
            false
        })
    }
}

/// The outcome of a conversion, without running the error's destructor.
fn got<F: Copy + ndarray_glm::num::Float>(r: error::RegressionResult<F, F>) -> Option<F> {
    let v = match &r { Ok(v) => Some(*v), Err(_) => None };
    std::mem::forget(r);
    v
}

/// Stand-ins for the parts that play no role in a verdict (text of an error) and contracts of the
/// mathematical functions of the standard library, true of every faithful implementation.
#[cfg(kani)]
pub mod st {
    pub fn f64_fmt(_: &f64, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) }
    pub fn f32_fmt(_: &f32, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) }
    pub fn u8_fmt(_: &u8, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) }
    pub fn u16_fmt(_: &u16, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) }
    pub fn u32_fmt(_: &u32, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) }
    pub fn u64_fmt(_: &u64, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) }
    pub fn usize_fmt(_: &usize, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) }
    macro_rules! contracts { ($t:ident, $exp:ident, $expm1:ident, $ln:ident, $ln1p:ident, $hi:expr, $lo:expr, $lnmax:expr, $lnmin:expr, $m1:expr) => {
        pub fn $exp(x: $t) -> $t {
            if x.is_nan() { return $t::NAN; }
            if x == 0.0 { return 1.0; }
            if x >= $hi { return $t::INFINITY; }
            if x <= $lo { return 0.0; }
            let r: $t = kani::any();
            kani::assume(!r.is_nan() && r >= 0.0);
            // 1 + x <= e^x, e^x <= 1 below zero
            kani::assume(r >= 1.0 + x || x < 0.0);
            if x > 0.0 { kani::assume(r >= 1.0) } else { kani::assume(r <= 1.0) }
            r
        }
        pub fn $expm1(x: $t) -> $t {
            if x.is_nan() { return $t::NAN; }
            if x == 0.0 { return x; }
            if x >= $hi { return $t::INFINITY; }
            let r: $t = kani::any();
            kani::assume(!r.is_nan() && r >= -1.0);
            if x > 0.0 { kani::assume(r >= x) } else { kani::assume(r < 0.0 && r >= x) }
            if x < $m1 { return -1.0; }
            r
        }
        pub fn $ln(x: $t) -> $t {
            if x.is_nan() || x < 0.0 { return $t::NAN; }
            if x == 0.0 { return $t::NEG_INFINITY; }
            if x == 1.0 { return 0.0; }
            if x == $t::INFINITY { return x; }
            let r: $t = kani::any();
            if x > 1.0 { kani::assume(r > 0.0 && r <= $lnmax) } else { kani::assume(r < 0.0 && r >= $lnmin) }
            r
        }
        pub fn $ln1p(x: $t) -> $t {
            if x.is_nan() || x < -1.0 { return $t::NAN; }
            if x == -1.0 { return $t::NEG_INFINITY; }
            if x == 0.0 || x == $t::INFINITY { return x; }
            let r: $t = kani::any();
            if x > 0.0 { kani::assume(r >= 0.0 && r <= x && r <= $lnmax) } else { kani::assume(r <= x && r >= $lnmin) }
            r
        }
    } }
    contracts!(f64, exp64, expm164, ln64, ln1p64, 709.79, -745.14, 709.79, -745.14, -40.0);
    contracts!(f32, exp32, expm132, ln32, ln1p32, 88.73, -103.98, 88.73, -103.98, -18.0);
}


/// G28: accepted exactly when in the domain, and with the exact value.
macro_rules! domain { ($name:ident, $m:ty, $y:ty => $to:ty, $stub:ident, |$v:ident| $pre:expr, $dom:expr) => {
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::stub(<$y as std::fmt::Display>::fmt, st::$stub))]
    pub fn $name() {
        let $v = pick!($y);
        assume!($pre);
        let r = got(<$y as Yval<$m>>::into_float::<$to>($v));
        assert!(r.is_some() == $dom, "accepted exactly when in the domain");
        if let Some(v) = r { assert!(v == $v as $to, "the value is unchanged"); }
    }
} }
domain!(g28_linear_f64, Linear, f64 => f64, f64_fmt, |y| y.is_finite(), true);
domain!(g28_linear_f32, Linear, f32 => f32, f32_fmt, |y| y.is_finite(), true);
domain!(g28_linear_f32_f64, Linear, f32 => f64, f32_fmt, |y| y.is_finite(), true);
domain!(g28_logistic_f64, Logistic, f64 => f64, f64_fmt, |y| true, y >= 0. && y <= 1.);
domain!(g28_logistic_f32, Logistic, f32 => f32, f32_fmt, |y| true, y >= 0. && y <= 1.);
domain!(g28_logistic_f32_f64, Logistic, f32 => f64, f32_fmt, |y| true, y >= 0. && y <= 1.);
domain!(g28_cloglog_f64, Logistic<logistic_link::Cloglog>, f64 => f64, f64_fmt, |y| true, y >= 0. && y <= 1.);
domain!(g28_exponential_f64, Exponential, f64 => f64, f64_fmt, |y| y != f64::INFINITY, y > 0.);
domain!(g28_exponential_f32, Exponential, f32 => f32, f32_fmt, |y| y != f32::INFINITY, y > 0.);
domain!(g28_exponential_f32_f64, Exponential, f32 => f64, f32_fmt, |y| y != f32::INFINITY, y > 0.);
domain!(g28_gamma_f64, Gamma, f64 => f64, f64_fmt, |y| y != f64::INFINITY, y > 0.);
domain!(g28_gamma_f32, Gamma, f32 => f32, f32_fmt, |y| y != f32::INFINITY, y > 0.);
domain!(g28_gamma_f32_f64, Gamma, f32 => f64, f32_fmt, |y| y != f32::INFINITY, y > 0.);
domain!(g28_invgauss_f64, InvGaussian, f64 => f64, f64_fmt, |y| y != f64::INFINITY, y > 0.);
domain!(g28_invgauss_f32, InvGaussian, f32 => f32, f32_fmt, |y| y != f32::INFINITY, y > 0.);
domain!(g28_invgauss_f32_f64, InvGaussian, f32 => f64, f32_fmt, |y| y != f32::INFINITY, y > 0.);
domain!(g28_poisson_u8, Poisson, u8 => f64, u8_fmt, |y| true, true);
domain!(g28_poisson_u16, Poisson, u16 => f64, u16_fmt, |y| true, true);
domain!(g28_poisson_u32, Poisson, u32 => f64, u32_fmt, |y| true, true);
domain!(g28_poisson_u64, Poisson, u64 => f64, u64_fmt, |y| true, true);
domain!(g28_poisson_usize, Poisson, usize => f64, usize_fmt, |y| true, true);
domain!(g28_poisson_u32_f32, Poisson, u32 => f32, u32_fmt, |y| true, true);
domain!(g28_binomial_1, Binomial<1>, u16 => f64, u16_fmt, |y| true, y <= 1);
domain!(g28_binomial_12, Binomial<12>, u16 => f64, u16_fmt, |y| true, y <= 12);
domain!(g28_binomial_max, Binomial<65535>, u16 => f64, u16_fmt, |y| true, true);
domain!(g28_binomial_7_f32, Binomial<7>, u16 => f32, u16_fmt, |y| true, y <= 7);

#[cfg_attr(kani, kani::proof)]
pub fn g28_logistic_bool() {
    let b = pick!(bool);
    let r = got(<bool as Yval<Logistic>>::into_float::<f64>(b));
    assert!(r == Some(if b { 1.0 } else { 0.0 }));
    let r = got(<bool as Yval<Logistic>>::into_float::<f32>(b));
    assert!(r == Some(if b { 1.0 } else { 0.0 }));
}

/// G31: floating-point likelihoods and means.
macro_rules! float_likelihoods { ($t:ident, $exp:ident, $expm1:ident, $ln:ident, $ln1p:ident, $like:ident, $likeinf:ident, $cll:ident, $mean:ident, $cmean:ident, $sat:ident, $psat:ident, $bsat:ident) => {
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::stub($t::exp, st::$exp))]
    #[cfg_attr(kani, kani::stub($t::exp_m1, st::$expm1))]
    #[cfg_attr(kani, kani::stub($t::ln, st::$ln))]
    #[cfg_attr(kani, kani::stub($t::ln_1p, st::$ln1p))]
    pub fn $like() {
        let y = pick!($t);
        let x = pick!($t);
        assume!(y >= 0. && y <= 1. && x.is_finite());
        let l = <Logistic as Glm>::log_like_natural::<$t>(y, x);
        assert!(l.is_finite(), "finite");
        assert!(l <= 0., "not positive");
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::stub($t::exp, st::$exp))]
    #[cfg_attr(kani, kani::stub($t::exp_m1, st::$expm1))]
    #[cfg_attr(kani, kani::stub($t::ln, st::$ln))]
    #[cfg_attr(kani, kani::stub($t::ln_1p, st::$ln1p))]
    pub fn $likeinf() {
        let y = pick!($t);
        let x = pick!($t);
        assume!(y >= 0. && y <= 1. && !x.is_nan());
        let l = <Logistic<logistic_link::Cloglog> as Glm>::log_like_natural::<$t>(y, x);
        assert!(!l.is_nan(), "not NaN");
        assert!(l <= 0., "not positive");
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(3))]
    #[cfg_attr(kani, kani::stub($t::exp, st::$exp))]
    #[cfg_attr(kani, kani::stub($t::exp_m1, st::$expm1))]
    #[cfg_attr(kani, kani::stub($t::ln, st::$ln))]
    #[cfg_attr(kani, kani::stub($t::ln_1p, st::$ln1p))]
    pub fn $cll() {
        let y = pick!($t);
        let x = pick!($t);
        assume!(y >= 0. && y <= 1. && x.is_finite());
        let nat = <logistic_link::Cloglog as link::Transform>::nat_param::<$t>(array![x])[0];
        assert!(!nat.is_nan(), "natural parameter is not NaN");
        let l = <Logistic<logistic_link::Cloglog> as Glm>::log_like_natural::<$t>(y, nat);
        assert!(!l.is_nan(), "not NaN");
        assert!(l <= 0., "not positive");
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::stub($t::exp, st::$exp))]
    #[cfg_attr(kani, kani::stub($t::exp_m1, st::$expm1))]
    #[cfg_attr(kani, kani::stub($t::ln, st::$ln))]
    #[cfg_attr(kani, kani::stub($t::ln_1p, st::$ln1p))]
    pub fn $mean() {
        let x = pick!($t);
        assume!(x.is_finite());
        let m = <<Logistic as Glm>::Link as Link<Logistic>>::func_inv::<$t>(x);
        assert!(m >= 0. && m <= 1., "a probability");
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::stub($t::exp, st::$exp))]
    #[cfg_attr(kani, kani::stub($t::exp_m1, st::$expm1))]
    #[cfg_attr(kani, kani::stub($t::ln, st::$ln))]
    #[cfg_attr(kani, kani::stub($t::ln_1p, st::$ln1p))]
    pub fn $cmean() {
        let x = pick!($t);
        assume!(x.is_finite());
        let m = <logistic_link::Cloglog as Link<Logistic<logistic_link::Cloglog>>>::func_inv::<$t>(x);
        assert!(m >= 0. && m <= 1., "a probability");
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::stub($t::exp, st::$exp))]
    #[cfg_attr(kani, kani::stub($t::ln, st::$ln))]
    #[cfg_attr(kani, kani::stub($t::ln_1p, st::$ln1p))]
    pub fn $sat() {
        let y = pick!($t);
        assume!(y >= 0. && y <= 1.);
        let l = <Logistic as Glm>::log_like_sat::<$t>(y);
        assert!(l.is_finite() && l <= 0., "finite and not positive");
        if y == 0. || y == 1. { assert!(l == 0.); }
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::stub($t::exp, st::$exp))]
    #[cfg_attr(kani, kani::stub($t::ln, st::$ln))]
    #[cfg_attr(kani, kani::stub($t::ln_1p, st::$ln1p))]
    pub fn $psat() {
        let y = pick!(u32);
        let l = <Poisson as Glm>::log_like_sat::<$t>(y as $t);
        assert!(l.is_finite(), "finite");
        if y == 0 { assert!(l == 0.); }
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::stub($t::exp, st::$exp))]
    #[cfg_attr(kani, kani::stub($t::ln, st::$ln))]
    #[cfg_attr(kani, kani::stub($t::ln_1p, st::$ln1p))]
    pub fn $bsat() {
        let y = pick!(u16);
        assume!(y <= 12);
        let l = <Binomial<12> as Glm>::log_like_sat::<$t>(y as $t);
        assert!(l.is_finite(), "finite");
    }
} }
float_likelihoods!(f64, exp64, expm164, ln64, ln1p64, g31_logistic_like_f64, g31_logistic_like_inf_f64, g31_cloglog_like_f64, g31_logistic_mean_f64, g31_cloglog_mean_f64, g31_logistic_sat_f64, g31_poisson_sat_f64, g31_binomial_sat_f64);
float_likelihoods!(f32, exp32, expm132, ln32, ln1p32, g31_logistic_like_f32, g31_logistic_like_inf_f32, g31_cloglog_like_f32, g31_logistic_mean_f32, g31_cloglog_mean_f32, g31_logistic_sat_f32, g31_poisson_sat_f32, g31_binomial_sat_f32);

/// The same through the public builder, for every pair (or single value) of responses.
macro_rules! built { ($one:ident, $two:ident, $m:ty, $y:ty, $stub:ident, |$v:ident| $pre:expr, $dom:expr) => {
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(4))]
    #[cfg_attr(kani, kani::stub(<$y as std::fmt::Display>::fmt, st::$stub))]
    pub fn $one() {
        let $v = pick!($y);
        assume!($pre);
        let dom = $dom;
        let m = ModelBuilder::<$m>::data(&array![$v], &array![[1.0]]).no_constant().no_standardize().build();
        assert!(m.is_ok() == dom, "built exactly when in the domain");
        if let Ok(m) = &m { assert!(m.data.y[0] == $v as f64, "the value is unchanged"); }
        std::mem::forget(m);
    }
    #[cfg_attr(kani, kani::proof)]
    #[cfg_attr(kani, kani::unwind(5))]
    #[cfg_attr(kani, kani::stub(<$y as std::fmt::Display>::fmt, st::$stub))]
    pub fn $two() {
        let $v = pick!($y);
        assume!($pre);
        let (d0, y0) = ($dom, $v);
        let $v = pick!($y);
        assume!($pre);
        let (d1, y1) = ($dom, $v);
        let m = ModelBuilder::<$m>::data(&array![y0, y1], &array![[1.0], [2.0]]).no_constant().no_standardize().build();
        assert!(m.is_ok() == (d0 && d1), "built exactly when in the domain");
        if let Ok(m) = &m { assert!(m.data.y[0] == y0 as f64 && m.data.y[1] == y1 as f64, "the values are unchanged"); }
        std::mem::forget(m);
    }
} }
built!(g28_build_logistic, g28_pair_logistic, Logistic, f64, f64_fmt, |y| true, y >= 0. && y <= 1.);
built!(g28_build_linear, g28_pair_linear, Linear, f64, f64_fmt, |y| y.is_finite(), true);
built!(g28_build_gamma, g28_pair_gamma, Gamma, f64, f64_fmt, |y| y != f64::INFINITY, y > 0.);
built!(g28_build_exponential, g28_pair_exponential, Exponential, f64, f64_fmt, |y| y != f64::INFINITY, y > 0.);
built!(g28_build_invgauss, g28_pair_invgauss, InvGaussian, f64, f64_fmt, |y| y != f64::INFINITY, y > 0.);
built!(g28_build_binomial, g28_pair_binomial, Binomial<12>, u16, u16_fmt, |y| true, y <= 12);
built!(g28_build_poisson, g28_pair_poisson, Poisson, u16, u16_fmt, |y| true, true);

macro_rules! table { ($($n:ident)*) => { #[cfg(not(kani))] pub const ALL: &[(&str, fn())] = &[$((stringify!($n), $n)),*]; } }
table!(g28_linear_f64 g28_linear_f32 g28_linear_f32_f64 g28_logistic_f64 g28_logistic_f32 g28_logistic_f32_f64 g28_cloglog_f64 g28_exponential_f64 g28_exponential_f32 g28_exponential_f32_f64 g28_gamma_f64 g28_gamma_f32 g28_gamma_f32_f64 g28_invgauss_f64 g28_invgauss_f32 g28_invgauss_f32_f64 g28_poisson_u8 g28_poisson_u16 g28_poisson_u32 g28_poisson_u64 g28_poisson_usize g28_poisson_u32_f32 g28_binomial_1 g28_binomial_12 g28_binomial_max g28_binomial_7_f32 g28_logistic_bool g31_logistic_like_f64 g31_logistic_like_inf_f64 g31_cloglog_like_f64 g31_logistic_mean_f64 g31_cloglog_mean_f64 g31_logistic_sat_f64 g31_poisson_sat_f64 g31_binomial_sat_f64 g31_logistic_like_f32 g31_logistic_like_inf_f32 g31_cloglog_like_f32 g31_logistic_mean_f32 g31_cloglog_mean_f32 g31_logistic_sat_f32 g31_poisson_sat_f32 g31_binomial_sat_f32 g28_build_logistic g28_pair_logistic g28_build_linear g28_pair_linear g28_build_gamma g28_pair_gamma g28_build_exponential g28_pair_exponential g28_build_invgauss g28_pair_invgauss g28_build_binomial g28_pair_binomial g28_build_poisson g28_pair_poisson);
