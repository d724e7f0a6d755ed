//! G32, G33: probabilities and quantiles. Built against the derived copy of the library in which
//! `f64` is `gf::Gf64` (see ../../stats).
use super::Prop;
use super::common::*;
use super::stats::{delete_row, dispersible, mu};
use crate::engine::*;
use crate::fam::*;
use crate::s::{S, symbolic};
use crate::scalar::Core;
use crate::smt::Rel;
use crate::sym::{EqPol, OrdPol};
use gf::{Dist, Gf64, Hooks, Op};
use num_traits::Float;

fn op(o: Op, a: f64, b: f64) -> f64 {
    let (x, y) = (S::decode(a), S::decode(b));
    match o {
        Op::Add => x + y,
        Op::Sub => x - y,
        Op::Mul => x * y,
        Op::Div => x / y,
        Op::Neg => -x,
        Op::Sqrt => x.o_sqrt(),
        Op::Exp => x.o_exp(),
        Op::Ln => x.o_ln(),
        Op::Ln1p => x.o_ln1p(),
        Op::Expm1 => x.o_expm1(),
        Op::Abs => x.o_abs(),
        Op::Sgn => x.o_signum(),
        Op::Powi => x.o_powi(b as i32),
        Op::Powf => x.o_powf(y),
        // clipping at the ends of the floating-point range is outside the claim
        Op::Max if symbolic() && is_sym(x) && b.abs() <= f64::EPSILON && b > 0.0 => x,
        Op::Min if symbolic() && is_sym(x) && b >= f64::MAX => x,
        Op::Max => x.max(y),
        Op::Min => x.min(y),
        Op::Unsupported => <S as Core>::unsupported("operation on f64"),
    }
    .encode()
}
fn is_sym(x: S) -> bool {
    x.encode() >= crate::sym::BAND
}
/// cumulative probability: location-scale families in standard form, an uninterpreted function of
/// the standardised argument and the remaining parameters
pub fn cdf(d: Dist, p: &[S], x: S) -> S {
    use real_statrs::distribution::*;
    if !symbolic() {
        let q: Vec<f64> = p.iter().map(|s| s.shadow()).collect();
        let v = x.shadow();
        let r = match d {
            Dist::Normal => Normal::new(q[0], q[1]).map(|d| d.cdf(v)).ok(),
            Dist::StudentT => StudentsT::new(q[0], q[1], q[2]).map(|d| d.cdf(v)).ok(),
            Dist::ChiSquared => ChiSquared::new(q[0]).map(|d| d.cdf(v)).ok(),
            Dist::F => FisherSnedecor::new(q[0], q[1]).map(|d| d.cdf(v)).ok(),
            Dist::Gamma => Gamma::new(q[0], q[1]).map(|d| d.cdf(v)).ok(),
            Dist::Exp => Exp::new(q[0]).map(|d| d.cdf(v)).ok(),
            Dist::Bernoulli => Bernoulli::new(q[0]).map(|d| d.cdf(v as u64)).ok(),
            Dist::Binomial => Binomial::new(q[0], q[1] as u64).map(|d| d.cdf(v as u64)).ok(),
            Dist::Poisson => Poisson::new(q[0]).map(|d| d.cdf(v as u64)).ok(),
        };
        return S::c(r.unwrap_or(f64::NAN));
    }
    let t1 = S::c(1.0).o_exp();
    let t2 = S::c(3.0).o_ln();
    let (id, a) = match d {
        Dist::Normal => (100, (x - p[0]) / p[1]),
        Dist::StudentT => (101, (x - p[0]) / p[1] + t1 * p[2]),
        Dist::ChiSquared => (102, x + t1 * p[0]),
        Dist::F => (103, x + t1 * p[0] + t2 * p[1]),
        Dist::Gamma => (104, x * p[1] + t1 * p[0]),
        Dist::Exp => return S::c(1.0) - (-(x * p[0])).o_exp(),
        Dist::Bernoulli => (105, x + t1 * p[0]),
        Dist::Binomial => (106, x + t1 * p[0] + t2 * p[1]),
        Dist::Poisson => (107, x + t1 * p[0]),
    };
    a.o_uf(id)
}
pub fn quantile(d: Dist, p: &[S], x: S) -> S {
    use real_statrs::distribution::*;
    if !symbolic() {
        let q: Vec<f64> = p.iter().map(|s| s.shadow()).collect();
        let v = x.shadow();
        if !(0.0..=1.0).contains(&v) {
            return S::c(f64::NAN);
        }
        let r = match d {
            Dist::Normal => Normal::new(q[0], q[1]).map(|d| d.inverse_cdf(v)).ok(),
            Dist::StudentT => StudentsT::new(q[0], q[1], q[2]).map(|d| d.inverse_cdf(v)).ok(),
            Dist::ChiSquared => ChiSquared::new(q[0]).map(|d| d.inverse_cdf(v)).ok(),
            Dist::F => FisherSnedecor::new(q[0], q[1]).map(|d| d.inverse_cdf(v)).ok(),
            Dist::Gamma => Gamma::new(q[0], q[1]).map(|d| d.inverse_cdf(v)).ok(),
            Dist::Exp => Exp::new(q[0]).map(|d| d.inverse_cdf(v)).ok(),
            _ => None,
        };
        return S::c(r.unwrap_or(f64::NAN));
    }
    match d {
        Dist::Normal => p[0] + p[1] * x.o_uf(200),
        _ => <S as Core>::unsupported("quantile"),
    }
}
fn hooks() {
    fn list(p: &[f64]) -> Vec<S> {
        p.iter().map(|x| S::decode(*x)).collect()
    }
    gf::set_hooks(Hooks {
        op,
        lt: |a, b| S::decode(a).ltv(S::decode(b)),
        eq: |a, b| S::decode(a).eqc(S::decode(b)),
        cdf: |d, p, x| cdf(d, &list(p), S::decode(x)).encode(),
        inv: |d, p, x| quantile(d, &list(p), S::decode(x)).encode(),
    });
    let _ = Gf64::EPSILON;
}
/// an undefined probability (both sides) is not compared
fn same(w: &mut World, label: &str, got: S, want: S) {
    if !w.sym && !want.shadow().is_finite() {
        abort_infeasible();
    }
    w.eq(label, got, want);
}

fn plainly_equal(w: &World, a: S, b: S) -> bool {
    if !w.sym {
        return (a.shadow() - b.shadow()).abs() <= 1e-6 * (1.0 + a.shadow().abs());
    }
    crate::sym::with(|c| {
        let (p, q) = (c.nf(a.id), c.nf(b.id));
        let d = p.sub(&q);
        c.nfx.is_zero(&d)
    })
}
/// omnibus and Wald p-values at arbitrary coefficients
fn omnibus(c: Cfg) -> Scenario {
    scen(format!("omnibus p-value {}", c.name()), move |w| {
        hooks();
        // concrete runs use the real distributions, the symbolic reading any fixed functions
        w.differs = true;
        let mut sp = spec(w, &c);
        let b = coefs_pat(w, &c, &mut sp, 2 | FORCE);
        let o = opts(w, &c);
        let Ok(m) = c.fam.build(&sp) else { return w.fail("builds") };
        let Ok(f) = fit_at(w, &*m, &o, &b) else { return w.fail("fits") };
        let one = w.c(1.0);
        let got = f.pvalue_lr_test();
        let want = if c.p == 0 {
            one
        } else {
            let k = w.c(c.p as f64);
            one - cdf(Dist::ChiSquared, &[k], f.lr_test())
        };
        same(w, "upper chi-squared tail", got, want);
    })
}
fn wald(c: Cfg) -> Scenario {
    scen(format!("wald p-values {}", c.name()), move |w| {
        hooks();
        w.differs = true;
        let mut sp = spec(w, &c);
        let b = coefs_pat(w, &c, &mut sp, 2 | FORCE);
        dispersible(w, &c, &sp);
        let o = opts(w, &c);
        let Ok(m) = c.fam.build(&sp) else { return w.fail("builds") };
        let Ok(f) = fit_at(w, &*m, &o, &b) else { return w.fail("fits") };
        let (one, two, zero) = (w.c(1.0), w.c(2.0), w.c(0.0));
        let k = w.c(c.k() as f64);
        let df = n_obs(w, &sp) - k;
        w.assume(df, Rel::Gt, zero);
        let (Some(z), Some(got)) = ({ let r = f.wald_z(); w.ok("z", r) }, { let r = f.pvalue_wald(); w.ok("p", r) }) else { return };
        w.check("one per coefficient", got.len() == c.k());
        for j in 0..c.k() {
            let a = z[j].o_abs();
            let tail = if c.fam.dispersed() { one - cdf(Dist::StudentT, &[zero, one, df], a) } else { one - cdf(Dist::Normal, &[zero, one], a) };
            same(w, &format!("two-sided tail [{j}]"), got[j], two * tail);
        }
    })
}
/// the specification without coefficient j
fn reduced(c: &Cfg, sp: &Spec, j: usize) -> (Cfg, Spec) {
    let d = delete_row(sp, usize::MAX);
    if c.int && j == 0 {
        return (Cfg { int: false, ..*c }, Spec { int: false, ..d });
    }
    let j = j - c.int as usize;
    let x = d.x.iter().map(|r| r.iter().enumerate().filter(|(i, _)| *i != j).map(|(_, v)| *v).collect()).collect();
    (Cfg { p: c.p - 1, ..*c }, Spec { x, p: c.p - 1, ..d })
}
fn deviance(w: &World, c: &Cfg, sp: &Spec, b: &[S]) -> S {
    sum(w, (0..c.n).map(|i| tw(w, sp, i) * super::stats::unit_dev(w, c.fam, sp.y[i], mu(w, c, sp, b, i))))
}
/// exact p-values: deviance increase of the model refitted without the coefficient. For linear
/// models the first full step of the refit is the optimum, from wherever it starts; for other
/// families it is the Fisher-scoring step from the remaining coefficients of the fit (the
/// scenario is skipped should the refit start elsewhere).
fn exact(c: Cfg) -> Scenario {
    let mut s = scen(format!("exact p-values {}", c.name()), move |w| {
        hooks();
        w.differs = true;
        let linear = c.fam.name() == "linear";
        let mut sp = spec(w, &c);
        let b = coefs_pat(w, &c, &mut sp, 2 | FORCE);
        dispersible(w, &c, &sp);
        let o = opts(w, &c);
        let Ok(m) = c.fam.build(&sp) else { return w.fail("builds") };
        let Ok(f) = fit_at(w, &*m, &o, &b) else { return w.fail("fits") };
        let (one, zero) = (w.c(1.0), w.c(0.0));
        let k = w.c(c.k() as f64);
        let df = n_obs(w, &sp) - k;
        w.assume(df, Rel::Gt, zero);
        let full = deviance(w, &c, &sp, &b);
        let p_of = |w: &World, dev: S| {
            let delta = dev - full;
            if c.fam.dispersed() {
                let disp = full / ((one - k / n_eff(w, &sp)) * sum_w(w, &sp));
                one - cdf(Dist::F, &[one, df], delta / disp)
            } else {
                one - cdf(Dist::ChiSquared, &[one], delta)
            }
        };
        let red: Vec<(Cfg, Spec, Vec<S>)> = (0..c.k())
            .map(|j| {
                let (c2, s2) = reduced(&c, &sp, j);
                let g = b.iter().enumerate().filter(|(i, _)| *i != j).map(|(_, v)| *v).collect();
                (c2, s2, g)
            })
            .collect();
        if !linear {
            let start = w.with_ord(OrdPol::Down, |w| w.with_eqpol(EqPol::Stay, |_| f.pvalue_exact()));
            let Some(p0) = w.ok("starts", start) else { return };
            for (j, (c2, s2, g)) in red.iter().enumerate() {
                let d = deviance(w, c2, s2, g);
                let want = p_of(w, d);
                if !plainly_equal(w, p0[j], want) {
                    abort_inconclusive("the refit does not start from the remaining coefficients".into());
                }
            }
        }
        let p = w.with_ord(OrdPol::Up, |w| w.with_eqpol(EqPol::Move, |_| f.pvalue_exact()));
        let Some(p) = w.ok("refits", p) else { return };
        w.check("one per coefficient", p.len() == c.k());
        for (j, (c2, s2, g)) in red.iter().enumerate() {
            let mut to = g.clone();
            if c2.k() > 0 {
                let h = gram_pen(w, c2, s2, &o, g);
                let step = matvec(w, &inv_of(&h), &super::deletion::pen_score(w, c2, s2, &o, g));
                to = g.iter().zip(&step).map(|(a, b)| *a + *b).collect();
            }
            let d = deviance(w, c2, s2, &to);
            let want = p_of(w, d);
            same(w, &format!("deviance increase without coefficient {j}"), p[j], want);
        }
    });
    s.weight = c.n * c.k();
    s
}
pub fn g32(thorough: bool) -> Prop {
    let mut scens = vec![];
    for name in ["linear", "poisson", "logistic", "binomial3", "gamma-log", "exponential", "invgauss-log"] {
        let b = Cfg::new(fam(name), 3, 1);
        scens.push(omnibus(b));
        scens.push(omnibus(Cfg { n: 4, p: 2, xfix: true, std: true, wt: true, fq: Fq::Sym, wfix: true, ..b }));
        scens.push(omnibus(Cfg { int: false, off: true, l2: true, ..b }));
        scens.push(omnibus(Cfg { p: 0, ..b }));
        scens.push(wald(Cfg { int: false, n: 2, ..b }));
        scens.push(wald(Cfg { int: false, n: 2, wt: true, fq: Fq::Sym, off: true, ..b }));
        scens.push(wald(Cfg { xfix: true, std: true, wt: true, wfix: true, fq: Fq::Fix(&[1, 3, 2]), l2: true, off: true, ..b }));
    }
    let b = Cfg::new(fam("linear"), 3, 1);
    let mut vs = vec![
        b,
        Cfg { wt: true, fq: Fq::Sym, off: true, xfix: true, ..b },
        Cfg { std: true, xfix: true, off: true, ..b },
        Cfg { std: true, xfix: true, l2: true, off: true, wt: true, wfix: true, fq: Fq::Fix(&[1, 3, 2]), ..b },
        Cfg { l2: true, xfix: true, ..b },
        Cfg { n: 2, int: false, off: true, ..b },
        Cfg { n: 2, p: 0, off: true, wt: true, ..b },
        Cfg { n: 3, p: 2, int: false, xfix: true, l2: true, ..b },
        Cfg { n: 3, p: 2, int: false, xfix: true, std: true, l2: true, off: true, wt: true, wfix: true, fq: Fq::Fix(&[2, 1, 3]), ..b },
        Cfg { n: 4, p: 2, xfix: true, off: true, ..b },
        Cfg { n: 4, p: 2, xfix: true, std: true, l2: true, wt: true, wfix: true, fq: Fq::Fix(&[2, 1, 3, 1]), ..b },
    ];
    if thorough {
        vs.push(Cfg { n: 5, p: 2, xfix: true, wt: true, fq: Fq::Sym, ..b });
        vs.push(Cfg { wt: true, fq: Fq::Sym, off: true, ..b });
        vs.push(Cfg { n: 5, p: 3, xfix: true, l2: true, std: true, off: true, ..b });
    }
    for c in vs {
        scens.push(exact(c));
    }
    for name in ["poisson", "logistic", "binomial3", "gamma-log", "exponential-log"] {
        let b = Cfg::new(fam(name), 3, 1);
        // two-sided branches of the binomial links on both coefficients: too many paths
        if !matches!(name, "logistic" | "binomial3") {
            scens.push(exact(Cfg { n: 3, p: 2, int: false, xfix: true, ..b }));
        }
        scens.push(exact(Cfg { xfix: true, off: true, l2: true, wt: true, wfix: true, fq: Fq::Fix(&[1, 3, 2]), ..b }));
    }
    Prop {
        scens,
        functions: vec!["Fit::pvalue_lr_test", "Fit::pvalue_wald", "Fit::pvalue_exact", "Fit::dev_without_covariate", "Fit::lr_test, test_ndf, ndf, wald_z, deviance, dispersion", "Model::with_options, FitConfig::fit, Irls::next"],
        bounds: "n=2..5 observations, k<=3 coefficients".into(),
        assumptions: vec!["cumulative distribution functions are uninterpreted functions of their standardised argument and parameters (statrs itself is not part of the repository)", "the primitive f64 code is executed in a derived copy of the current source in which the type f64 is a symbolic stand-in", "the refits are cut off after their first full step: the optimum for linear models; otherwise the scoring step from the remaining coefficients", "residual degrees of freedom positive"],
    }
}

fn quantile_residuals(c: Cfg) -> Scenario {
    scen(format!("quantile residuals {}", c.name()), move |w| {
        hooks();
        w.differs = true;
        let mut sp = spec(w, &c);
        let b = coefs_pat(w, &c, &mut sp, 2 | FORCE);
        dispersible(w, &c, &sp);
        let o = opts(w, &c);
        let Ok(m) = c.fam.build(&sp) else { return w.fail("builds") };
        let Ok(f) = fit_at(w, &*m, &o, &b) else { return w.fail("fits") };
        let Some(got) = f.resid_quantile() else { return w.fail("quantile residuals exist") };
        w.check("one per observation", got.len() == c.n);
        let (one, zero) = (w.c(1.0), w.c(0.0));
        let phi = f.dispersion();
        for i in 0..c.n {
            let m = mu(w, &c, &sp, &b, i);
            let y = sp.y[i];
            if !w.sym && (!(m.shadow() > 1e-12) && c.fam.name() != "linear" || !(phi.shadow() > 1e-12)) {
                abort_infeasible();
            }
            let var = phi / vw(w, &sp, i) * c.fam.variance(m);
            let u = match c.fam.base() {
                "linear" => cdf(Dist::Normal, &[m, var.o_sqrt()], y),
                "exponential" => cdf(Dist::Exp, &[one / m], y),
                // mean a/r, variance a/r^2
                _ => cdf(Dist::Gamma, &[m * m / var, m / var], y),
            };
            let want = quantile(Dist::Normal, &[zero, one], u);
            same(w, &format!("quantile residual [{i}]"), got[i], want);
        }
    })
}
pub fn g33(thorough: bool) -> Prop {
    let mut scens = vec![];
    for name in ["linear", "exponential", "exponential-log", "gamma", "gamma-log"] {
        let b = Cfg::new(fam(name), 3, 1);
        let mut vs = vec![
            Cfg { int: false, ..b },
            Cfg { int: false, wt: true, ..b },
            Cfg { int: false, wt: true, fq: Fq::Sym, off: true, ..b },
            Cfg { xfix: true, off: true, ..b },
            Cfg { n: 4, xfix: true, std: true, off: true, l2: true, wt: true, wfix: true, fq: Fq::Fix(&[1, 3, 2, 1]), ..b },
            Cfg { layout: Layout::Strided, int: false, off: true, ..b },
        ];
        if thorough || name == "linear" {
            vs.push(Cfg { n: 4, p: 2, xfix: true, std: true, wt: true, off: true, ..b });
            vs.push(Cfg { n: 5, p: 2, xfix: true, fq: Fq::Sym, off: true, ..b });
        }
        for c in vs {
            scens.push(quantile_residuals(c));
        }
    }
    Prop {
        scens,
        functions: vec!["Fit::resid_quantile", "Response::get_distribution (linear, exponential, gamma)", "Fit::dispersion", "Dataset::get_variance_weights", "Model::fit"],
        bounds: "n=3..5 observations, k<=3 coefficients".into(),
        assumptions: vec!["cumulative distribution functions and quantiles are uninterpreted functions (statrs itself is not part of the repository)", "the primitive f64 code is executed in a derived copy of the current source in which the type f64 is a symbolic stand-in", "dispersions, means and rates inside the floating-point range: clipping at machine epsilon and below is outside the claim", "families with a continuous response distribution (the others have no quantile residuals)"],
    }
}
