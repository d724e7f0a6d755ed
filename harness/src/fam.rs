//! Object-safe access to the library's generic API, instantiated with the scalar `S` for every
//! built-in family/link pair and for arbitrary (uninterpreted) user links.
use crate::engine::World;
use crate::s::{S, symbolic};
use crate::scalar::Core;
use crate::sym::Dom;
use ndarray::{Array1, Array2, ShapeBuilder, s};
use ndarray_glm::error::RegressionError;
use ndarray_glm::link::{Link, Transform};
use ndarray_glm::model::Model;
use ndarray_glm::num::Float;
use ndarray_glm::verif_hooks::{DispersionType, Glm, Yval};
use ndarray_glm::{Binomial, Dataset, Exponential, Fit, FitOptions, Gamma, InvGaussian, Linear, Logistic, ModelBuilder, Poisson};
use ndarray_glm::{exp_link, gamma_link, inv_gauss_link, logistic_link};
use std::any::{Any, TypeId};
use std::marker::PhantomData;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Layout {
    C,
    F,
    Strided,
    Reversed,
}
#[derive(Clone)]
pub struct Spec {
    pub y: Vec<S>,
    pub x: Vec<Vec<S>>,
    pub p: usize,
    pub w: Option<Vec<S>>,
    /// frequencies as scalars (integers in reality; passed through the usize interface)
    pub f: Option<Vec<S>>,
    pub off: Option<Vec<S>>,
    pub int: bool,
    pub std: bool,
    pub layout: Layout,
}
/// one call on the builder
#[derive(Clone)]
pub enum Part {
    Var(Vec<S>),
    Freq(Vec<S>),
    Off(Vec<S>),
    NoInt,
    NoStd,
}
#[derive(Clone, Default)]
pub struct Opts {
    pub max_iter: Option<usize>,
    pub tol: Option<S>,
    pub l1: Option<S>,
    pub l2: Option<S>,
    pub init: Option<Vec<S>>,
}
#[derive(Clone)]
pub enum Er {
    BadInput,
    InvalidY,
    Build,
    Linalg,
    MaxIter(usize, Vec<(Vec<S>, S)>),
}
impl std::fmt::Debug for Er {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(match self {
            Er::BadInput => "BadInput",
            Er::InvalidY => "InvalidY",
            Er::Build => "BuildError",
            Er::Linalg => "LinalgError",
            Er::MaxIter(..) => "MaxIter",
        })
    }
}
pub type R<T> = Result<T, Er>;
pub fn v1(a: &Array1<S>) -> Vec<S> {
    a.iter().cloned().collect()
}
pub fn v2(a: &Array2<S>) -> Vec<Vec<S>> {
    a.rows().into_iter().map(|r| r.iter().cloned().collect()).collect()
}
pub fn a1(v: &[S]) -> Array1<S> {
    Array1::from(v.to_vec())
}
/// a vector with the given memory layout
pub fn a1l<T: Clone>(v: Vec<T>, layout: Layout) -> Array1<T> {
    match layout {
        Layout::C | Layout::F => Array1::from(v),
        Layout::Strided => {
            let big: Vec<T> = v.iter().flat_map(|x| [x.clone(), x.clone(), x.clone()]).collect();
            Array1::from(big).slice_move(s![1..;3])
        }
        Layout::Reversed => Array1::from(v.into_iter().rev().collect::<Vec<_>>()).slice_move(s![..;-1]),
    }
}
pub fn a2(rows: &[Vec<S>], p: usize, layout: Layout) -> Array2<S> {
    let n = rows.len();
    let f = |(i, j): (usize, usize)| rows[i][j];
    match layout {
        Layout::C => Array2::from_shape_fn((n, p), f),
        Layout::F => Array2::from_shape_fn((n, p).f(), f),
        Layout::Strided => {
            let z = S::c(77.0);
            let big = Array2::from_shape_fn((2 * n + 1, 2 * p + 1), |(i, j)| if i % 2 == 0 && j % 2 == 0 && i / 2 < n && j / 2 < p { rows[i / 2][j / 2] } else { z });
            big.slice_move(s![..2 * n;2, ..2 * p;2])
        }
        Layout::Reversed => {
            let r = Array2::from_shape_fn((n, p), |(i, j)| rows[n - 1 - i][p - 1 - j]);
            r.slice_move(s![..;-1, ..;-1])
        }
    }
}
fn er(e: RegressionError<S>) -> Er {
    match e {
        RegressionError::BadInput(_) => Er::BadInput,
        RegressionError::InvalidY(_) => Er::InvalidY,
        RegressionError::BuildError(_) => Er::Build,
        RegressionError::LinalgError { .. } => Er::Linalg,
        RegressionError::MaxIter { n_iter, history } => Er::MaxIter(n_iter, history.iter().map(|h| (v1(&h.guess), h.like)).collect()),
    }
}

pub trait FitApi {
    fn result(&self) -> Vec<S>;
    fn model_like(&self) -> S;
    fn n_iter(&self) -> usize;
    fn history(&self) -> Vec<(Vec<S>, S)>;
    fn opts(&self) -> (usize, S, S, S, Option<Vec<S>>);
    fn aic(&self) -> S;
    fn bic(&self) -> S;
    fn cooks(&self) -> R<Vec<S>>;
    fn covariance(&self) -> R<Vec<Vec<S>>>;
    fn deviance(&self) -> S;
    fn dispersion(&self) -> S;
    fn fisher(&self, b: &[S]) -> Vec<Vec<S>>;
    fn hat(&self) -> R<Vec<Vec<S>>>;
    fn infl_coef(&self) -> R<Vec<Vec<S>>>;
    fn leverage(&self) -> R<Vec<S>>;
    fn loo_exact(&self) -> R<Vec<Vec<S>>>;
    fn lr_test(&self) -> S;
    fn lr_test_against(&self, b: &[S]) -> S;
    fn ndf(&self) -> S;
    fn null_like(&self) -> S;
    fn predict(&self, x: &[Vec<S>], p: usize, off: Option<&[S]>, layout: Layout) -> Vec<S>;
    fn resid_dev(&self) -> Vec<S>;
    fn resid_dev_std(&self) -> R<Vec<S>>;
    fn resid_part(&self) -> Vec<Vec<S>>;
    fn resid_pear(&self) -> Vec<S>;
    fn resid_pear_std(&self) -> R<Vec<S>>;
    fn resid_resp(&self) -> Vec<S>;
    fn resid_student(&self) -> R<Vec<S>>;
    fn resid_work(&self) -> Vec<S>;
    fn score(&self, b: &[S]) -> Vec<S>;
    fn score_test(&self) -> R<S>;
    fn score_test_against(&self, b: &[S]) -> R<S>;
    fn test_ndf(&self) -> usize;
    fn wald_test(&self) -> S;
    fn wald_test_against(&self, b: &[S]) -> S;
    fn wald_z(&self) -> R<Vec<S>>;
    fn r_sq(&self) -> Option<S>;
    fn rss(&self) -> Option<S>;
    #[cfg(feature = "stats")]
    fn pvalue_lr_test(&self) -> S;
    #[cfg(feature = "stats")]
    fn pvalue_wald(&self) -> R<Vec<S>>;
    #[cfg(feature = "stats")]
    fn pvalue_exact(&self) -> R<Vec<S>>;
    #[cfg(feature = "stats")]
    fn resid_quantile(&self) -> Option<Vec<S>>;
}
impl<'a, M: Glm + 'static> FitApi for Fit<'a, M, S> {
    fn result(&self) -> Vec<S> {
        v1(&self.result)
    }
    fn model_like(&self) -> S {
        self.model_like
    }
    fn n_iter(&self) -> usize {
        self.n_iter
    }
    fn history(&self) -> Vec<(Vec<S>, S)> {
        self.history.iter().map(|h| (v1(&h.guess), h.like)).collect()
    }
    fn opts(&self) -> (usize, S, S, S, Option<Vec<S>>) {
        let o = &self.options;
        (o.max_iter, o.tol, o.l1, o.l2, o.init_guess.as_ref().map(v1))
    }
    fn aic(&self) -> S {
        self.aic()
    }
    fn bic(&self) -> S {
        self.bic()
    }
    fn cooks(&self) -> R<Vec<S>> {
        self.cooks().map(|a| v1(&a)).map_err(er)
    }
    fn covariance(&self) -> R<Vec<Vec<S>>> {
        self.covariance().map(v2).map_err(er)
    }
    fn deviance(&self) -> S {
        self.deviance()
    }
    fn dispersion(&self) -> S {
        self.dispersion()
    }
    fn fisher(&self, b: &[S]) -> Vec<Vec<S>> {
        v2(&self.fisher(&a1(b)))
    }
    fn hat(&self) -> R<Vec<Vec<S>>> {
        self.hat().map(v2).map_err(er)
    }
    fn infl_coef(&self) -> R<Vec<Vec<S>>> {
        self.infl_coef().map(|a| v2(&a)).map_err(er)
    }
    fn leverage(&self) -> R<Vec<S>> {
        self.leverage().map(|a| v1(&a)).map_err(er)
    }
    fn loo_exact(&self) -> R<Vec<Vec<S>>> {
        self.loo_exact().map(|a| v2(&a)).map_err(er)
    }
    fn lr_test(&self) -> S {
        self.lr_test()
    }
    fn lr_test_against(&self, b: &[S]) -> S {
        self.lr_test_against(&a1(b))
    }
    fn ndf(&self) -> S {
        self.ndf()
    }
    fn null_like(&self) -> S {
        self.null_like()
    }
    fn predict(&self, x: &[Vec<S>], p: usize, off: Option<&[S]>, layout: Layout) -> Vec<S> {
        let o = off.map(|o| a1l(o.to_vec(), layout));
        v1(&self.predict(&a2(x, p, layout), o.as_ref()))
    }
    fn resid_dev(&self) -> Vec<S> {
        v1(&self.resid_dev())
    }
    fn resid_dev_std(&self) -> R<Vec<S>> {
        self.resid_dev_std().map(|a| v1(&a)).map_err(er)
    }
    fn resid_part(&self) -> Vec<Vec<S>> {
        v2(&self.resid_part())
    }
    fn resid_pear(&self) -> Vec<S> {
        v1(self.resid_pear())
    }
    fn resid_pear_std(&self) -> R<Vec<S>> {
        self.resid_pear_std().map(|a| v1(&a)).map_err(er)
    }
    fn resid_resp(&self) -> Vec<S> {
        v1(&self.resid_resp())
    }
    fn resid_student(&self) -> R<Vec<S>> {
        self.resid_student().map(|a| v1(&a)).map_err(er)
    }
    fn resid_work(&self) -> Vec<S> {
        v1(&self.resid_work())
    }
    fn score(&self, b: &[S]) -> Vec<S> {
        v1(&self.score(a1(b)))
    }
    fn score_test(&self) -> R<S> {
        self.score_test().map_err(er)
    }
    fn score_test_against(&self, b: &[S]) -> R<S> {
        self.score_test_against(a1(b)).map_err(er)
    }
    fn test_ndf(&self) -> usize {
        self.test_ndf()
    }
    fn wald_test(&self) -> S {
        self.wald_test()
    }
    fn wald_test_against(&self, b: &[S]) -> S {
        self.wald_test_against(&a1(b))
    }
    fn wald_z(&self) -> R<Vec<S>> {
        self.wald_z().map(|a| v1(&a)).map_err(er)
    }
    fn r_sq(&self) -> Option<S> {
        as_linear(self).map(|f| f.r_sq())
    }
    fn rss(&self) -> Option<S> {
        as_linear(self).map(|f| f.rss())
    }
    #[cfg(feature = "stats")]
    fn pvalue_lr_test(&self) -> S {
        self.pvalue_lr_test()
    }
    #[cfg(feature = "stats")]
    fn pvalue_wald(&self) -> R<Vec<S>> {
        self.pvalue_wald().map(|a| v1(&a)).map_err(er)
    }
    #[cfg(feature = "stats")]
    fn pvalue_exact(&self) -> R<Vec<S>> {
        self.pvalue_exact().map(|a| v1(&a)).map_err(er)
    }
    #[cfg(feature = "stats")]
    fn resid_quantile(&self) -> Option<Vec<S>> {
        macro_rules! try_fam {
            ($($m:ty),*) => {$(
                if TypeId::of::<M>() == TypeId::of::<$m>() {
                    let f: &Fit<'a, $m, S> = unsafe { &*(self as *const Fit<'a, M, S> as *const Fit<'a, $m, S>) };
                    return Some(v1(&f.resid_quantile()));
                }
            )*};
        }
        try_fam!(Linear, Exponential, Exponential<exp_link::Log>, Gamma, Gamma<gamma_link::Log>);
        None
    }
}
fn as_linear<'b, 'a, M: Glm + 'static>(f: &'b Fit<'a, M, S>) -> Option<&'b Fit<'a, Linear, S>> {
    if TypeId::of::<M>() == TypeId::of::<Linear>() {
        Some(unsafe { &*(f as *const Fit<'a, M, S> as *const Fit<'a, Linear, S>) })
    } else {
        None
    }
}
/// the solver's regularisation state, on the internal scale
#[cfg(verif_hooks_reg)]
pub trait RegApi {
    fn prepare(&mut self, b: &[S]);
    /// what the regularisation adds to the right-hand side and to the diagonal of the left-hand side
    fn vec(&self, b: &[S]) -> Vec<S>;
    fn mat(&self, b: &[S]) -> Vec<Vec<S>>;
    fn like(&self, b: &[S]) -> S;
    fn next(&mut self, b: &[S], v: &[S], m: &[Vec<S>]) -> R<Vec<S>>;
    fn done(&self, tol: S) -> bool;
}
#[cfg(verif_hooks_reg)]
impl RegApi for ndarray_glm::verif_hooks_reg::Reg<S> {
    fn prepare(&mut self, b: &[S]) {
        self.prepare(&a1(b))
    }
    fn vec(&self, b: &[S]) -> Vec<S> {
        v1(&self.irls_vec(a1(&vec![S::c(0.0); b.len()]), &a1(b)))
    }
    fn mat(&self, b: &[S]) -> Vec<Vec<S>> {
        let z = vec![vec![S::c(0.0); b.len()]; b.len()];
        v2(&self.irls_mat(a2(&z, b.len(), Layout::C), &a1(b)))
    }
    fn like(&self, b: &[S]) -> S {
        self.irls_like(&a1(b))
    }
    fn next(&mut self, b: &[S], v: &[S], m: &[Vec<S>]) -> R<Vec<S>> {
        self.next_guess(&a1(b), a1(v), a2(m, b.len(), Layout::C)).map(|r| v1(&r)).map_err(er)
    }
    fn done(&self, tol: S) -> bool {
        self.terminate_ok(tol)
    }
}
pub trait ModelApi {
    #[cfg(verif_hooks_reg)]
    fn reg(&self, o: &Opts, k: usize) -> Box<dyn RegApi + '_>;
    fn data(&self) -> &Dataset<S>;
    fn data_mut(&mut self) -> &mut Dataset<S>;
    fn fit<'a>(&'a self, o: &Opts) -> R<Box<dyn FitApi + 'a>>;
}
fn fit_options(o: &Opts) -> FitOptions<S> {
    let mut opt: FitOptions<S> = FitOptions::default();
    if let Some(m) = o.max_iter {
        opt.max_iter = m;
    }
    if let Some(t) = o.tol {
        opt.tol = t;
    }
    opt.init_guess = o.init.as_ref().map(|b| a1(b));
    opt
}
impl<M: Glm + 'static> ModelApi for Model<M, S> {
    #[cfg(verif_hooks_reg)]
    fn reg(&self, o: &Opts, k: usize) -> Box<dyn RegApi + '_> {
        let mut cfg = self.with_options(fit_options(o));
        if let Some(l) = o.l1 {
            cfg = cfg.l1_reg(l);
        }
        if let Some(l) = o.l2 {
            cfg = cfg.l2_reg(l);
        }
        let start = o.init.clone().unwrap_or(vec![S::c(0.0); k]);
        Box::new(ndarray_glm::verif_hooks_reg::Reg::of(self, a1(&start), cfg.options))
    }
    fn data(&self) -> &Dataset<S> {
        &self.data
    }
    fn data_mut(&mut self) -> &mut Dataset<S> {
        &mut self.data
    }
    fn fit<'a>(&'a self, o: &Opts) -> R<Box<dyn FitApi + 'a>> {
        let mut cfg = self.with_options(fit_options(o));
        if let Some(l) = o.l1 {
            cfg = cfg.l1_reg(l);
        }
        if let Some(l) = o.l2 {
            cfg = cfg.l2_reg(l);
        }
        match cfg.fit() {
            Ok(f) => Ok(Box::new(f)),
            Err(e) => Err(er(e)),
        }
    }
}
pub trait FamApi: Sync {
    fn name(&self) -> &'static str;
    fn ydom(&self) -> Dom;
    fn build(&self, sp: &Spec) -> R<Box<dyn ModelApi>>;
    /// data from `sp`, then these options in this order
    fn build_seq(&self, sp: &Spec, parts: &[Part]) -> R<Box<dyn ModelApi>>;
    fn link(&self, mu: S) -> S;
    fn mean(&self, w: S) -> S;
    fn nat(&self, w: S) -> S;
    fn dnat(&self, w: S) -> S;
    fn adj_err(&self, e: S, w: S) -> S;
    fn adj_var(&self, v: S, w: S) -> S;
    fn adj_both(&self, e: S, v: S, w: S) -> (S, S);
    fn log_partition(&self, nat: S) -> S;
    fn variance(&self, mu: S) -> S;
    fn ll_nat(&self, y: S, nat: S) -> S;
    fn ll_sat(&self, y: S) -> S;
    fn canon_link(&self, mu: S) -> S;
    fn canon_inv(&self, nat: S) -> S;
    fn dispersed(&self) -> bool;
    /// linear predictor must be negative
    fn neg(&self) -> bool;
    fn opaque(&self) -> bool;
    fn canonical(&self) -> bool;
    /// family without its link
    fn base(&self) -> &'static str;
    fn binom_n(&self) -> f64;
}
struct FamImpl<M, Mc, Y> {
    name: &'static str,
    base: &'static str,
    neg: bool,
    opaque: bool,
    canonical: bool,
    ydom: Dom,
    n: f64,
    /// response handed to the builder, and whether it carries the exact value
    y: fn(S) -> (Y, bool),
    ph: PhantomData<fn() -> (M, Mc)>,
}
impl<M, Mc, Y> FamApi for FamImpl<M, Mc, Y>
where
    M: Glm + 'static,
    Mc: Glm + 'static,
    Y: Yval<M> + Copy + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn base(&self) -> &'static str {
        self.base
    }
    fn ydom(&self) -> Dom {
        self.ydom
    }
    fn binom_n(&self) -> f64 {
        self.n
    }
    fn build(&self, sp: &Spec) -> R<Box<dyn ModelApi>> {
        let mut exact = true;
        let y: Vec<Y> = sp
            .y
            .iter()
            .map(|v| {
                let (y, e) = (self.y)(*v);
                exact &= e;
                y
            })
            .collect();
        let y = a1l(y, sp.layout);
        let x = a2(&sp.x, sp.p, sp.layout);
        let mut b = ModelBuilder::<M>::data(&y, &x);
        if let Some(w) = &sp.w {
            b = b.var_weights(a1l(w.clone(), sp.layout));
        }
        if let Some(f) = &sp.f {
            b = b.freq_weights(a1l(f.iter().map(|s| s.encode() as usize).collect(), sp.layout));
        }
        if let Some(o) = &sp.off {
            b = b.linear_offset(a1l(o.clone(), sp.layout));
        }
        if !sp.int {
            b = b.no_constant();
        }
        if !sp.std {
            b = b.no_standardize();
        }
        let mut m = b.build().map_err(er)?;
        if !exact {
            m.data.y = a1(&sp.y);
        }
        Ok(Box::new(m))
    }
    fn build_seq(&self, sp: &Spec, parts: &[Part]) -> R<Box<dyn ModelApi>> {
        let mut exact = true;
        let conv = |v: &S| {
            let (y, e) = (self.y)(*v);
            exact &= e;
            y
        };
        let y = a1l(sp.y.iter().map(conv).collect(), sp.layout);
        let x = a2(&sp.x, sp.p, sp.layout);
        let mut b = ModelBuilder::<M>::data(&y, &x);
        for p in parts {
            b = match p {
                Part::Var(w) => b.var_weights(a1(w)),
                Part::Freq(f) => b.freq_weights(Array1::from(f.iter().map(|s| s.encode() as usize).collect::<Vec<_>>())),
                Part::Off(o) => b.linear_offset(a1(o)),
                Part::NoInt => b.no_constant(),
                Part::NoStd => b.no_standardize(),
            };
        }
        let mut m = b.build().map_err(er)?;
        if !exact && m.data.y.len() == sp.y.len() {
            m.data.y = a1(&sp.y);
        }
        Ok(Box::new(m))
    }
    fn link(&self, mu: S) -> S {
        M::Link::func(mu)
    }
    fn mean(&self, w: S) -> S {
        M::Link::func_inv(w)
    }
    fn nat(&self, w: S) -> S {
        M::Link::nat_param(a1(&[w]))[0]
    }
    fn dnat(&self, w: S) -> S {
        M::Link::d_nat_param(&a1(&[w]))[0]
    }
    fn adj_err(&self, e: S, w: S) -> S {
        M::Link::adjust_errors(a1(&[e]), &a1(&[w]))[0]
    }
    fn adj_var(&self, v: S, w: S) -> S {
        M::Link::adjust_variance(a1(&[v]), &a1(&[w]))[0]
    }
    fn adj_both(&self, e: S, v: S, w: S) -> (S, S) {
        let (a, b) = M::Link::adjust_errors_variance(a1(&[e]), a1(&[v]), &a1(&[w]));
        (a[0], b[0])
    }
    fn log_partition(&self, nat: S) -> S {
        M::log_partition(nat)
    }
    fn variance(&self, mu: S) -> S {
        M::variance(mu)
    }
    fn ll_nat(&self, y: S, nat: S) -> S {
        M::log_like_natural(y, nat)
    }
    fn ll_sat(&self, y: S) -> S {
        M::log_like_sat(y)
    }
    fn canon_link(&self, mu: S) -> S {
        Mc::Link::func(mu)
    }
    fn canon_inv(&self, nat: S) -> S {
        Mc::Link::func_inv(nat)
    }
    fn dispersed(&self) -> bool {
        matches!(M::DISPERSED, DispersionType::FreeDispersion)
    }
    fn neg(&self) -> bool {
        self.neg
    }
    fn opaque(&self) -> bool {
        self.opaque
    }
    fn canonical(&self) -> bool {
        self.canonical
    }
}

// ---- arbitrary user links -------------------------------------------------------------------
fn to_s<F: 'static>(f: F) -> S {
    assert!(TypeId::of::<F>() == TypeId::of::<S>(), "opaque links are only instantiated with S");
    *(Box::new(f) as Box<dyn Any>).downcast::<S>().unwrap()
}
fn of_s<F: 'static>(f: S) -> F {
    *(Box::new(f) as Box<dyn Any>).downcast::<F>().unwrap()
}
/// natural parameter h(omega), h an arbitrary differentiable function
pub struct Opq;
/// natural parameter -h(omega), h an arbitrary positive differentiable function
pub struct OpqN;
impl Transform for Opq {
    fn nat_param<F: Float>(w: Array1<F>) -> Array1<F> {
        w.mapv(|x| of_s(to_s(x).o_uf(0)))
    }
    fn d_nat_param<F: Float>(w: &Array1<F>) -> Array1<F> {
        w.mapv(|x| of_s(to_s(x).o_uf(1)))
    }
}
impl Transform for OpqN {
    fn nat_param<F: Float>(w: Array1<F>) -> Array1<F> {
        w.mapv(|x| of_s(to_s(x).o_uf(8).o_neg()))
    }
    fn d_nat_param<F: Float>(w: &Array1<F>) -> Array1<F> {
        w.mapv(|x| of_s(to_s(x).o_uf(9).o_neg()))
    }
}
/// natural parameter -h(omega)^2/2, h an arbitrary positive differentiable function
pub struct OpqS;
impl Transform for OpqS {
    fn nat_param<F: Float>(w: Array1<F>) -> Array1<F> {
        w.mapv(|x| of_s(opqs(to_s(x))))
    }
    fn d_nat_param<F: Float>(w: &Array1<F>) -> Array1<F> {
        w.mapv(|x| {
            let x = to_s(x);
            of_s((x.o_uf(8).o_mul(x.o_uf(9))).o_neg())
        })
    }
}
fn opqs(w: S) -> S {
    let h = w.o_uf(8);
    (h.o_mul(h)).o_div(S::c(2.0)).o_neg()
}
macro_rules! opq {
    ($l:ident, $m:ty, $c:ty, $h:expr) => {
        impl Link<$m> for $l {
            fn func<F: Float>(_mu: F) -> F {
                of_s(S::unsupported("forward map of an opaque link"))
            }
            fn func_inv<F: Float>(w: F) -> F {
                let nat: S = $h(to_s(w));
                of_s(<<$c as Glm>::Link as Link<$c>>::func_inv(nat))
            }
        }
    };
}
opq!(Opq, Linear<Opq>, Linear, |w: S| w.o_uf(0));
opq!(Opq, Poisson<Opq>, Poisson, |w: S| w.o_uf(0));
opq!(Opq, Logistic<Opq>, Logistic, |w: S| w.o_uf(0));
opq!(OpqN, Exponential<OpqN>, Exponential, |w: S| w.o_uf(8).o_neg());
opq!(OpqN, Gamma<OpqN>, Gamma, |w: S| w.o_uf(8).o_neg());
opq!(OpqS, InvGaussian<OpqS>, InvGaussian, opqs);

fn y_s(v: S) -> (S, bool) {
    (v, true)
}
fn y_f(v: S) -> (f64, bool) {
    (v.encode(), true)
}
fn y_half(_: S) -> (f64, bool) {
    (0.5, false)
}
fn y_u(v: S) -> (u64, bool) {
    let e = v.encode();
    (e as u64, e.fract() == 0.0)
}
fn y_b(_: S) -> (u16, bool) {
    (1, false)
}
macro_rules! fam {
    ($st:ident, $name:expr, $base:expr, $m:ty, $mc:ty, $y:ty, $yf:expr, $dom:expr, neg=$neg:expr, opq=$opq:expr, can=$can:expr, n=$n:expr) => {
        static $st: FamImpl<$m, $mc, $y> = FamImpl { name: $name, base: $base, neg: $neg, opaque: $opq, canonical: $can, ydom: $dom, n: $n, y: $yf, ph: PhantomData };
    };
}
type ExpLog = Exponential<exp_link::Log>;
type GamLog = Gamma<gamma_link::Log>;
type IgLog = InvGaussian<inv_gauss_link::Log>;
fam!(LIN, "linear", "linear", Linear, Linear, S, y_s, Dom::Real, neg = false, opq = false, can = true, n = 1.0);
fam!(LOGIT, "logistic", "logistic", Logistic, Logistic, f64, y_half, Dom::In(0.0, 1.0), neg = false, opq = false, can = true, n = 1.0);
fam!(CLL, "logistic-cloglog", "logistic", Logistic<logistic_link::Cloglog>, Logistic, f64, y_half, Dom::In(0.0, 1.0), neg = false, opq = false, can = false, n = 1.0);
fam!(POI, "poisson", "poisson", Poisson, Poisson, u64, y_u, Dom::Pos, neg = false, opq = false, can = true, n = 1.0);
fam!(BIN, "binomial3", "binomial", Binomial<3>, Binomial<3>, u16, y_b, Dom::In(0.0, 3.0), neg = false, opq = false, can = true, n = 3.0);
fam!(EXPO, "exponential", "exponential", Exponential, Exponential, f64, y_f, Dom::Pos, neg = true, opq = false, can = true, n = 1.0);
fam!(EXPL, "exponential-log", "exponential", ExpLog, Exponential, f64, y_f, Dom::Pos, neg = false, opq = false, can = false, n = 1.0);
fam!(GAM, "gamma", "gamma", Gamma, Gamma, f64, y_f, Dom::Pos, neg = true, opq = false, can = true, n = 1.0);
fam!(GAML, "gamma-log", "gamma", GamLog, Gamma, f64, y_f, Dom::Pos, neg = false, opq = false, can = false, n = 1.0);
fam!(IG, "invgauss", "invgauss", InvGaussian, InvGaussian, f64, y_f, Dom::Pos, neg = true, opq = false, can = true, n = 1.0);
fam!(IGL, "invgauss-log", "invgauss", IgLog, InvGaussian, f64, y_f, Dom::Pos, neg = false, opq = false, can = false, n = 1.0);
fam!(OLIN, "linear-anylink", "linear", Linear<Opq>, Linear, S, y_s, Dom::Real, neg = false, opq = true, can = false, n = 1.0);
fam!(OPOI, "poisson-anylink", "poisson", Poisson<Opq>, Poisson, u64, y_u, Dom::Pos, neg = false, opq = true, can = false, n = 1.0);
fam!(OLOG, "logistic-anylink", "logistic", Logistic<Opq>, Logistic, f64, y_half, Dom::In(0.0, 1.0), neg = false, opq = true, can = false, n = 1.0);
fam!(OEXP, "exponential-anylink", "exponential", Exponential<OpqN>, Exponential, f64, y_f, Dom::Pos, neg = false, opq = true, can = false, n = 1.0);
fam!(OGAM, "gamma-anylink", "gamma", Gamma<OpqN>, Gamma, f64, y_f, Dom::Pos, neg = false, opq = true, can = false, n = 1.0);
fam!(OIG, "invgauss-anylink", "invgauss", InvGaussian<OpqS>, InvGaussian, f64, y_f, Dom::Pos, neg = false, opq = true, can = false, n = 1.0);

pub type Fam = &'static dyn FamApi;
pub static BUILTIN: [Fam; 11] = [&LIN, &LOGIT, &CLL, &POI, &BIN, &EXPO, &EXPL, &GAM, &GAML, &IG, &IGL];
pub static ANYLINK: [Fam; 6] = [&OLIN, &OPOI, &OLOG, &OEXP, &OGAM, &OIG];
pub fn fam(name: &str) -> Fam {
    *BUILTIN.iter().chain(ANYLINK.iter()).find(|f| f.name() == name).unwrap()
}
pub fn all() -> Vec<Fam> {
    BUILTIN.iter().chain(ANYLINK.iter()).cloned().collect()
}
#[allow(dead_code)]
pub fn sym_mode(_: &World) -> bool {
    symbolic()
}
