//! Stand-in for `statrs` in the derived copy of the library: distributions only keep their
//! parameters; probabilities and quantiles are requested from the harness.
pub mod statistics {
    /// mean and friends are not used
    pub trait Distribution<T> {}
}
pub mod distribution {
    use gf::{Dist, Gf64, cdf, inv};
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct BadParams;
    impl std::fmt::Display for BadParams { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("bad parameters") } }
    impl std::error::Error for BadParams {}
    pub trait ContinuousCDF<K, T> {
        fn cdf(&self, x: K) -> T;
        fn sf(&self, x: K) -> T;
        fn inverse_cdf(&self, p: T) -> K;
    }
    pub trait DiscreteCDF<K, T> {
        fn cdf(&self, x: K) -> T;
        fn sf(&self, x: K) -> T;
    }
    macro_rules! dist {
        ($name:ident, $kind:ident, $new:ident, $($par:ident: $t:ty),*; $($pos:ident),*) => {
            #[derive(Debug, Clone, Copy)]
            pub struct $name { p: [Gf64; dist!(@n $($par)*)] }
            impl $name {
                pub fn $new($($par: impl Into<Gf64>),*) -> Result<$name, BadParams> {
                    $( let $par: Gf64 = $par.into(); if $par.is_nan() { return Err(BadParams) } )*
                    // parameters that are nodes of the harness are in their domain by assumption
                    $( if $pos.0 <= 0.0 { return Err(BadParams) } )*
                    Ok($name { p: [$($par),*] })
                }
            }
            impl crate::statistics::Distribution<Gf64> for $name {}
        };
        (@n $a:ident) => { 1 };
        (@n $a:ident $b:ident) => { 2 };
        (@n $a:ident $b:ident $c:ident) => { 3 };
    }
    macro_rules! cont {
        ($name:ident, $kind:ident) => {
            impl ContinuousCDF<Gf64, Gf64> for $name {
                fn cdf(&self, x: Gf64) -> Gf64 { cdf(Dist::$kind, &self.p, x) }
                fn sf(&self, x: Gf64) -> Gf64 { Gf64(1.0) - cdf(Dist::$kind, &self.p, x) }
                fn inverse_cdf(&self, p: Gf64) -> Gf64 { inv(Dist::$kind, &self.p, p) }
            }
        };
    }
    macro_rules! disc {
        ($name:ident, $kind:ident) => {
            impl DiscreteCDF<u64, Gf64> for $name {
                fn cdf(&self, x: u64) -> Gf64 { cdf(Dist::$kind, &self.p, Gf64(x as f64)) }
                fn sf(&self, x: u64) -> Gf64 { Gf64(1.0) - cdf(Dist::$kind, &self.p, Gf64(x as f64)) }
            }
        };
    }
    dist!(Normal, Normal, new, mean: f64, std_dev: f64; std_dev);
    dist!(StudentsT, StudentT, new, location: f64, scale: f64, freedom: f64; scale, freedom);
    dist!(ChiSquared, ChiSquared, new, freedom: f64; freedom);
    dist!(FisherSnedecor, F, new, freedom_1: f64, freedom_2: f64; freedom_1, freedom_2);
    dist!(Gamma, Gamma, new, shape: f64, rate: f64; shape, rate);
    dist!(Exp, Exp, new, rate: f64; rate);
    dist!(Bernoulli, Bernoulli, new, p: f64;);
    dist!(Poisson, Poisson, new, lambda: f64; lambda);
    cont!(Normal, Normal);
    cont!(StudentsT, StudentT);
    cont!(ChiSquared, ChiSquared);
    cont!(FisherSnedecor, F);
    cont!(Gamma, Gamma);
    cont!(Exp, Exp);
    disc!(Bernoulli, Bernoulli);
    disc!(Poisson, Poisson);
    #[derive(Debug, Clone, Copy)]
    pub struct Binomial { p: [Gf64; 2] }
    impl Binomial {
        pub fn new(p: impl Into<Gf64>, n: u64) -> Result<Binomial, BadParams> { Ok(Binomial { p: [p.into(), Gf64(n as f64)] }) }
    }
    impl crate::statistics::Distribution<Gf64> for Binomial {}
    disc!(Binomial, Binomial);
    impl Normal { pub fn standard() -> Normal { Normal { p: [Gf64(0.0), Gf64(1.0)] } } }
}
