//! The scalar interface shared by the symbolic scalar (`Sym`) and the instrumented concrete scalar
//! (`N64`), and the trait boiler-plate that lets the unmodified generic code of ndarray-glm run
//! over either of them.
use std::cmp::Ordering;

pub trait Core: Copy + 'static {
    fn c(x: f64) -> Self;
    fn encode(self) -> f64;
    fn decode(x: f64) -> Self;
    fn shadow(self) -> f64;
    fn text(self) -> String;
    fn o_add(self, o: Self) -> Self;
    fn o_sub(self, o: Self) -> Self;
    fn o_mul(self, o: Self) -> Self;
    fn o_div(self, o: Self) -> Self;
    fn o_neg(self) -> Self;
    fn o_powi(self, n: i32) -> Self;
    fn o_powf(self, e: Self) -> Self;
    fn o_sqrt(self) -> Self;
    fn o_exp(self) -> Self;
    fn o_ln(self) -> Self;
    fn o_ln1p(self) -> Self;
    fn o_expm1(self) -> Self;
    fn o_abs(self) -> Self;
    fn o_signum(self) -> Self;
    fn o_uf(self, id: u16) -> Self;
    fn eqv(self, o: Self) -> bool;
    /// equality as asked by the code under test: coincidences are explored, not assumed away
    fn eqc(self, o: Self) -> bool {
        self.eqv(o)
    }
    fn ltv(self, o: Self) -> bool;
    fn lev(self, o: Self) -> bool;
    fn total(self, o: Self) -> Ordering;
    fn nan_() -> Self;
    fn inf_() -> Self;
    fn ninf_() -> Self;
    fn eps_() -> Self;
    fn is_nan_(self) -> bool;
    fn is_inf_(self) -> bool;
    fn sign_neg(self) -> bool;
    /// mark a value as output of a linear solver
    fn alias(self) -> Self;
    fn det_is_zero(m: &[Self], n: usize) -> bool;
    /// concrete values only: the solution of m X = rhs (k columns, row-major) by elimination
    fn eliminate(_m: &[Self], _n: usize, _rhs: &[Self], _k: usize) -> Option<Vec<Self>> {
        None
    }
    fn solver_fault() -> bool;
    fn unsupported(what: &str) -> Self;
}

mod boiler {
    type T = crate::s::S;
    use crate::scalar::Core;
    use num_traits::*;
    use std::cmp::Ordering;
    use std::fmt;
    use std::num::FpCategory;
    use std::ops::*;
    macro_rules! bin {
        ($tr:ident,$f:ident,$tra:ident,$fa:ident,$op:ident) => {
            impl $tr for T { type Output = T; #[inline] fn $f(self, o: T) -> T { self.$op(o) } }
            impl<'a> $tr<&'a T> for T { type Output = T; #[inline] fn $f(self, o: &'a T) -> T { self.$op(*o) } }
            impl<'a> $tr<T> for &'a T { type Output = T; #[inline] fn $f(self, o: T) -> T { (*self).$op(o) } }
            impl<'a,'b> $tr<&'b T> for &'a T { type Output = T; #[inline] fn $f(self, o: &'b T) -> T { (*self).$op(*o) } }
            impl $tra for T { #[inline] fn $fa(&mut self, o: T) { *self = self.$op(o) } }
            impl<'a> $tra<&'a T> for T { #[inline] fn $fa(&mut self, o: &'a T) { *self = self.$op(*o) } }
        };
    }
    bin!(Add, add, AddAssign, add_assign, o_add);
    bin!(Sub, sub, SubAssign, sub_assign, o_sub);
    bin!(Mul, mul, MulAssign, mul_assign, o_mul);
    bin!(Div, div, DivAssign, div_assign, o_div);
    impl T { fn remop(self, _o: T) -> T { <T as Core>::unsupported("%") } }
    bin!(Rem, rem, RemAssign, rem_assign, remop);
    impl Neg for T { type Output = T; fn neg(self) -> T { self.o_neg() } }
    impl<'a> Neg for &'a T { type Output = T; fn neg(self) -> T { self.o_neg() } }
    impl Zero for T { fn zero() -> T { <T as Core>::c(0.0) } fn is_zero(&self) -> bool { self.eqc(<T as Core>::c(0.0)) } }
    impl One for T { fn one() -> T { <T as Core>::c(1.0) } }
    impl Num for T { type FromStrRadixErr = (); fn from_str_radix(s: &str, _r: u32) -> Result<T, ()> { s.parse::<f64>().map(<T as Core>::c).map_err(|_| ()) } }
    impl ToPrimitive for T {
        fn to_i64(&self) -> Option<i64> { Some(self.encode() as i64) }
        fn to_u64(&self) -> Option<u64> { Some(self.encode() as u64) }
        fn to_f64(&self) -> Option<f64> { Some(self.encode()) }
    }
    impl NumCast for T { fn from<X: ToPrimitive>(n: X) -> Option<T> { n.to_f64().map(<T as Core>::decode) } }
    impl FromPrimitive for T {
        fn from_i64(n: i64) -> Option<T> { Some(<T as Core>::decode(n as f64)) }
        fn from_u64(n: u64) -> Option<T> { Some(<T as Core>::decode(n as f64)) }
        fn from_f64(n: f64) -> Option<T> { Some(<T as Core>::decode(n)) }
    }
    impl PartialEq for T { fn eq(&self, o: &T) -> bool { self.eqc(*o) } }
    impl PartialOrd for T {
        fn partial_cmp(&self, o: &T) -> Option<Ordering> {
            if self.is_nan_() || o.is_nan_() { return None }
            if self.ltv(*o) { Some(Ordering::Less) } else if self.eqv(*o) { Some(Ordering::Equal) } else { Some(Ordering::Greater) }
        }
        fn lt(&self, o: &T) -> bool { self.ltv(*o) }
        fn le(&self, o: &T) -> bool { self.lev(*o) }
        fn gt(&self, o: &T) -> bool { o.ltv(*self) }
        fn ge(&self, o: &T) -> bool { o.lev(*self) }
    }
    impl fmt::Display for T { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.text()) } }
    impl fmt::Debug for T { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.text()) } }
    impl fmt::LowerExp for T { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.text()) } }
    impl fmt::UpperExp for T { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.text()) } }
    impl std::iter::Sum for T { fn sum<I: Iterator<Item = T>>(i: I) -> T { i.fold(<T as Core>::c(0.0), |a, b| a + b) } }
    impl<'a> std::iter::Sum<&'a T> for T { fn sum<I: Iterator<Item = &'a T>>(i: I) -> T { i.fold(<T as Core>::c(0.0), |a, b| a + *b) } }
    impl std::iter::Product for T { fn product<I: Iterator<Item = T>>(i: I) -> T { i.fold(<T as Core>::c(1.0), |a, b| a * b) } }
    impl<'a> std::iter::Product<&'a T> for T { fn product<I: Iterator<Item = &'a T>>(i: I) -> T { i.fold(<T as Core>::c(1.0), |a, b| a * *b) } }
    impl serde::Serialize for T { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_f64(self.shadow()) } }
    impl<'de> serde::Deserialize<'de> for T { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<T, D::Error> { <f64 as serde::Deserialize>::deserialize(d).map(<T as Core>::c) } }
    impl ndarray::ScalarOperand for T {}
    impl ndarray::NdFloat for T {}
    macro_rules! uns { ($($f:ident),*) => { $( fn $f(self) -> T { <T as Core>::unsupported(stringify!($f)) } )* } }
    impl Float for T {
        fn nan() -> T { <T as Core>::nan_() }
        fn infinity() -> T { <T as Core>::inf_() }
        fn neg_infinity() -> T { <T as Core>::ninf_() }
        fn neg_zero() -> T { <T as Core>::c(0.0) }
        fn min_value() -> T { <T as Core>::unsupported("min_value") }
        fn max_value() -> T { <T as Core>::unsupported("max_value") }
        fn min_positive_value() -> T { <T as Core>::unsupported("min_positive_value") }
        fn epsilon() -> T { <T as Core>::eps_() }
        fn is_nan(self) -> bool { self.is_nan_() }
        fn is_infinite(self) -> bool { self.is_inf_() }
        fn is_finite(self) -> bool { !self.is_nan_() && !self.is_inf_() }
        fn is_normal(self) -> bool { !self.is_nan_() && !self.is_inf_() }
        fn classify(self) -> FpCategory { if self.is_nan_() { FpCategory::Nan } else if self.is_inf_() { FpCategory::Infinite } else { FpCategory::Normal } }
        uns!(floor, ceil, round, trunc, fract, exp2, cbrt, sin, cos, tan, asin, acos, atan, asinh, acosh, atanh);
        fn log2(self) -> T { self.o_ln() / <T as Core>::c(2.0).o_ln() }
        fn log10(self) -> T { self.o_ln() / <T as Core>::c(10.0).o_ln() }
        fn log(self, b: T) -> T { self.o_ln() / b.o_ln() }
        fn sinh(self) -> T { (self.o_exp() - self.o_neg().o_exp()) / <T as Core>::c(2.0) }
        fn cosh(self) -> T { (self.o_exp() + self.o_neg().o_exp()) / <T as Core>::c(2.0) }
        fn tanh(self) -> T { let e = (self + self).o_exp(); let o = <T as Core>::c(1.0); (e - o) / (e + o) }
        fn atan2(self, _o: T) -> T { <T as Core>::unsupported("atan2") }
        fn sin_cos(self) -> (T, T) { (<T as Core>::unsupported("sin_cos"), self) }
        fn hypot(self, o: T) -> T { (self * self + o * o).o_sqrt() }
        fn abs(self) -> T { self.o_abs() }
        fn signum(self) -> T { self.o_signum() }
        fn is_sign_positive(self) -> bool { !self.sign_neg() }
        fn is_sign_negative(self) -> bool { self.sign_neg() }
        fn mul_add(self, a: T, b: T) -> T { self * a + b }
        fn recip(self) -> T { <T as Core>::c(1.0) / self }
        fn powi(self, n: i32) -> T { self.o_powi(n) }
        fn powf(self, e: T) -> T { self.o_powf(e) }
        fn sqrt(self) -> T { self.o_sqrt() }
        fn exp(self) -> T { self.o_exp() }
        fn ln(self) -> T { self.o_ln() }
        fn exp_m1(self) -> T { self.o_expm1() }
        fn ln_1p(self) -> T { self.o_ln1p() }
        fn max(self, o: T) -> T { if self.is_nan_() { return o } if o.is_nan_() { return self } if self.ltv(o) { o } else { self } }
        fn min(self, o: T) -> T { if self.is_nan_() { return o } if o.is_nan_() { return self } if o.ltv(self) { o } else { self } }
        fn clamp(self, lo: T, hi: T) -> T { if self.ltv(lo) { lo } else if hi.ltv(self) { hi } else { self } }
        fn abs_sub(self, o: T) -> T { if self.lev(o) { <T as Core>::c(0.0) } else { self - o } }
        fn integer_decode(self) -> (u64, i16, i8) { <T as Core>::unsupported("integer_decode"); (0, 0, 0) }
    }
    macro_rules! sc { ($($f:ident),*) => { $( fn $f(self) -> T { <T as Float>::$f(self) } )* } }
    impl cauchy::Scalar for T {
        type Real = T;
        type Complex = T;
        fn real<X: ToPrimitive>(re: X) -> T { NumCast::from(re).unwrap() }
        fn complex<X: ToPrimitive>(re: X, _im: X) -> T { NumCast::from(re).unwrap() }
        fn from_real(re: T) -> T { re }
        fn add_real(self, r: T) -> T { self + r }
        fn sub_real(self, r: T) -> T { self - r }
        fn mul_real(self, r: T) -> T { self * r }
        fn div_real(self, r: T) -> T { self / r }
        fn add_complex(self, r: T) -> T { self + r }
        fn sub_complex(self, r: T) -> T { self - r }
        fn mul_complex(self, r: T) -> T { self * r }
        fn div_complex(self, r: T) -> T { self / r }
        fn pow(self, n: T) -> T { self.o_powf(n) }
        fn powi(self, n: i32) -> T { self.o_powi(n) }
        fn powf(self, n: T) -> T { self.o_powf(n) }
        fn powc(self, n: T) -> T { self.o_powf(n) }
        fn re(&self) -> T { *self }
        fn im(&self) -> T { <T as Core>::c(0.0) }
        fn as_c(&self) -> T { *self }
        fn conj(&self) -> T { *self }
        fn abs(self) -> T { self.o_abs() }
        fn square(self) -> T { self * self }
        sc!(sqrt, exp, ln, sin, cos, tan, asin, acos, atan, sinh, cosh, tanh, asinh, acosh, atanh);
        fn rand(_r: &mut impl rand::Rng) -> T { <T as Core>::unsupported("rand") }
    }
    impl ndarray_glm::num::Float for T {
        fn half() -> T { <T as Core>::c(0.5) }
        fn two() -> T { <T as Core>::c(2.0) }
        fn total_cmp(&self, o: &T) -> Ordering { self.total(*o) }
    }
    use lax::error::Result as LR;
    use lax::layout::MatrixLayout;
    use lax::*;
    type C = T;
    fn no<X>(w: &str) -> X { <T as Core>::unsupported(w); unreachable!() }
    impl Lapack for T {
        fn eig(_: bool, _: MatrixLayout, _: &mut [C]) -> LR<(Vec<C>, Vec<C>)> { no("eig") }
        fn eig_generalized(_: bool, _: MatrixLayout, _: &mut [C], _: &mut [C], _: Option<C>) -> LR<(Vec<GeneralizedEigenvalue<C>>, Vec<C>)> { no("eig") }
        fn eigh(_: bool, _: MatrixLayout, _: UPLO, _: &mut [C]) -> LR<Vec<C>> { no("eigh") }
        fn eigh_generalized(_: bool, _: MatrixLayout, _: UPLO, _: &mut [C], _: &mut [C]) -> LR<Vec<C>> { no("eigh") }
        fn householder(_: MatrixLayout, _: &mut [C]) -> LR<Vec<C>> { no("qr") }
        fn q(_: MatrixLayout, _: &mut [C], _: &[C]) -> LR<()> { no("qr") }
        fn qr(_: MatrixLayout, _: &mut [C]) -> LR<Vec<C>> { no("qr") }
        fn svd(_: MatrixLayout, _: bool, _: bool, _: &mut [C]) -> LR<SvdOwned<C>> { no("svd") }
        fn svddc(_: MatrixLayout, _: JobSvd, _: &mut [C]) -> LR<SvdOwned<C>> { no("svd") }
        fn least_squares(_: MatrixLayout, _: &mut [C], _: &mut [C]) -> LR<LeastSquaresOwned<C>> { no("least_squares") }
        fn least_squares_nrhs(_: MatrixLayout, _: &mut [C], _: MatrixLayout, _: &mut [C]) -> LR<LeastSquaresOwned<C>> { no("least_squares") }
        fn lu(l: MatrixLayout, a: &mut [C]) -> LR<Pivot> { crate::lapack::lu(l, a) }
        fn inv(l: MatrixLayout, a: &mut [C], _p: &Pivot) -> LR<()> { crate::lapack::inv(l, a) }
        fn solve(l: MatrixLayout, t: Transpose, a: &[C], _p: &Pivot, b: &mut [C]) -> LR<()> { crate::lapack::solve(l, t, a, b) }
        fn bk(l: MatrixLayout, u: UPLO, a: &mut [C]) -> LR<Pivot> { crate::lapack::bk(l, u, a) }
        fn invh(l: MatrixLayout, u: UPLO, a: &mut [C], _p: &Pivot) -> LR<()> { crate::lapack::invh(l, u, a) }
        fn solveh(l: MatrixLayout, u: UPLO, a: &[C], _p: &Pivot, b: &mut [C]) -> LR<()> { crate::lapack::solveh(l, u, a, b) }
        fn cholesky(l: MatrixLayout, u: UPLO, a: &mut [C]) -> LR<()> { crate::lapack::cholesky(l, u, a) }
        fn inv_cholesky(_: MatrixLayout, _: UPLO, _: &mut [C]) -> LR<()> { no("inv_cholesky") }
        fn solve_cholesky(l: MatrixLayout, u: UPLO, a: &[C], b: &mut [C]) -> LR<()> { crate::lapack::solve_cholesky(l, u, a, b) }
        fn rcond(_: MatrixLayout, _: &[C], _: C) -> LR<C> { no("rcond") }
        fn opnorm(_: NormType, _: MatrixLayout, _: &[C]) -> C { no("opnorm") }
        fn solve_triangular(_: MatrixLayout, _: MatrixLayout, _: UPLO, _: Diag, _: &[C], _: &mut [C]) -> LR<()> { no("solve_triangular") }
        fn lu_tridiagonal(_: Tridiagonal<C>) -> LR<LUFactorizedTridiagonal<C>> { no("tri") }
        fn rcond_tridiagonal(_: &LUFactorizedTridiagonal<C>) -> LR<C> { no("tri") }
        fn solve_tridiagonal(_: &LUFactorizedTridiagonal<C>, _: MatrixLayout, _: Transpose, _: &mut [C]) -> LR<()> { no("tri") }
    }
}
