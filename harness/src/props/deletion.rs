//! G20, G21: deletion of observations.
use super::Prop;
use super::common::*;
use super::stats::{delete_row, dispersible, mu, unit_dev};
use crate::engine::*;
use crate::fam::*;
use crate::s::S;
use crate::scalar::Core;
use crate::smt::Rel;
use crate::sym::{EqPol, OrdPol};

/// gradient of the penalised likelihood (ridge part) in the user's coordinates
pub fn pen_score(w: &World, c: &Cfg, sp: &Spec, o: &Opts, b: &[S]) -> Vec<S> {
    let mut g = data_score(w, c, sp, b);
    if let Some(l) = o.l2 {
        let k = c.int as usize;
        for j in 0..c.p {
            let s = feat_scale(w, sp, j);
            g[k + j] = g[k + j] - l * s * s * b[k + j];
        }
    }
    g
}
/// numerically singular information: outside the claim
fn sane(m: &[Vec<S>]) {
    let p: f64 = (0..m.len()).map(|i| m[i][i].shadow()).product();
    let d = crate::lapack::det(&flat(m), m.len()).shadow();
    if !(p > 1e-9 && p < 1e12 && d > 1e-7 * p) {
        abort_infeasible();
    }
}
/// Each refit starts somewhere (first run: it stays there) and takes one full step (second run): that
/// step is the Fisher-scoring step of the specification with the row deleted.
fn refits(c: Cfg) -> Scenario {
    let mut s = scen(format!("refit without each row {}", c.name()), move |w| {
        let mut sp = spec(w, &c);
        let b = coefs_pat(w, &c, &mut sp, 2 | FORCE);
        let o = opts(w, &c);
        let del: Vec<Spec> = (0..c.n).map(|i| delete_row(&sp, i)).collect();
        if c.std && c.n > 2 {
            for d in &del {
                neff_gt1(w, d);
            }
        }
        let Ok(m) = c.fam.build(&sp) else { return w.fail("builds") };
        let Ok(f) = fit_at(w, &*m, &o, &b) else { return w.fail("fits") };
        let (y0, x0, f0) = (v1(&m.data().y), v2(&m.data().x), m.data().freqs.as_ref().map(v1));
        let start = w.with_ord(OrdPol::Down, |w| w.with_eqpol(EqPol::Stay, |_| f.loo_exact()));
        if !w.sym {
            for (c, d, b) in std::iter::once((c, &sp, &b)).chain(del.iter().map(|d| (Cfg { n: c.n - 1, ..c }, d, &b))) {
                sane(&gram_pen(w, &c, d, &o, b));
            }
            if start.is_err() {
                // numerically singular where the refits start?
                let Ok(infl) = f.infl_coef() else { return w.fail("influence") };
                let c2 = Cfg { n: c.n - 1, ..c };
                for i in 0..c.n {
                    let g: Vec<S> = b.iter().zip(&infl[i]).map(|(b, d)| *b - *d).collect();
                    sane(&gram_pen(w, &c2, &del[i], &o, &g));
                }
            }
        }
        let Some(g) = w.ok("starts", start) else { return };
        if !w.sym {
            // the full step must stay where the likelihood is finite
            let c2 = Cfg { n: c.n - 1, ..c };
            for i in 0..c.n {
                let h = gram_pen(w, &c2, &del[i], &o, &g[i]);
                sane(&h);
                let step = matvec(w, &inv_of(&h), &pen_score(w, &c2, &del[i], &o, &g[i]));
                let to: Vec<S> = g[i].iter().zip(&step).map(|(a, b)| *a + *b).collect();
                for x in [&g[i], &to] {
                    if !data_ll(w, &c2, &del[i], x).shadow().is_finite() {
                        abort_infeasible();
                    }
                }
            }
        }
        let moved = w.with_ord(OrdPol::Up, |w| w.with_eqpol(EqPol::Move, |_| f.loo_exact()));
        let Some(r) = w.ok("refits", moved) else { return };
        w.check("shape", r.len() == c.n && r.iter().all(|r| r.len() == c.k()));
        if !w.sym && g.iter().flatten().zip(r.iter().flatten()).any(|(a, b)| !a.shadow().is_finite() || !b.shadow().is_finite()) {
            abort_infeasible();
        }
        let c2 = Cfg { n: c.n - 1, ..c };
        for i in 0..c.n {
            let h = gram_pen(w, &c2, &del[i], &o, &g[i]);
            let sc = pen_score(w, &c2, &del[i], &o, &g[i]);
            let d: Vec<S> = r[i].iter().zip(&g[i]).map(|(a, b)| *a - *b).collect();
            let l = matvec(w, &h, &d);
            w.eqv(&format!("step without row {i}"), &l, &sc);
        }
        w.eqv("responses unchanged", &v1(&m.data().y), &y0);
        w.eqm("design unchanged", &v2(&m.data().x), &x0);
        w.check("frequencies unchanged", m.data().freqs.is_some() == f0.is_some());
        if let (Some(a), Some(b)) = (m.data().freqs.as_ref().map(v1), f0) {
            w.eqv("frequencies unchanged", &a, &b);
        }
        w.eqv("coefficients unchanged", &f.result(), &b);
    });
    s.weight = c.n * c.k();
    s
}
/// linear models: a converged refit is the optimum without the row, whatever the fitted coefficients
fn converged(c: Cfg) -> Scenario {
    scen(format!("linear optimum without each row {}", c.name()), move |w| {
        let sp = spec(w, &c);
        let b = betas(w, &c, "b");
        let o = opts(w, &c);
        if c.std && c.n > 2 {
            for i in 0..c.n {
                neff_gt1(w, &delete_row(&sp, i));
            }
        }
        let Ok(m) = c.fam.build(&sp) else { return w.fail("builds") };
        let Ok(f) = fit_at(w, &*m, &o, &b) else { return w.fail("fits") };
        let r = w.with_ord(OrdPol::Up, |w| w.with_eqpol(EqPol::Move, |_| f.loo_exact()));
        let Some(r) = w.ok("refits", r) else { return };
        let c2 = Cfg { n: c.n - 1, ..c };
        let z = w.c(0.0);
        for i in 0..c.n {
            let sc = pen_score(w, &c2, &delete_row(&sp, i), &o, &r[i]);
            w.eqv(&format!("optimum without row {i}"), &sc, &vec![z; c.k()]);
        }
    })
}
pub fn g20(thorough: bool) -> Prop {
    let mut scens = vec![];
    for name in ["linear", "poisson", "gamma-log", "exponential-log", "binomial3", "invgauss-log", "exponential", "gamma", "logistic-cloglog", "logistic"] {
        let b = Cfg::new(fam(name), 3, 1);
        let lin = name == "linear";
        let log = b.fam.base() == "logistic";
        let mut vs = vec![
            Cfg { n: 2, int: false, ..b },
            Cfg { n: 2, int: false, wt: true, fq: Fq::Sym, off: true, ..b },
            Cfg { n: 2, int: false, l2: true, off: true, fq: Fq::Fix(&[2, 3]), ..b },
            Cfg { xfix: true, wt: true, wfix: true, off: true, ..b },
            Cfg { std: true, xfix: true, wfix: true, l2: true, wt: true, fq: Fq::Fix(&[1, 2, 1]), ..b },
        ];
        if lin || thorough {
            vs.push(Cfg { std: true, xfix: true, fq: Fq::Sym, off: true, ..b });
            vs.push(Cfg { std: true, xfix: true, l2: true, off: true, ..b });
            vs.push(Cfg { n: 3, int: false, std: true, l2: true, xfix: true, ..b });
            vs.push(Cfg { n: 4, p: 2, xfix: true, l2: true, ..b });
            vs.push(Cfg { layout: Layout::F, n: 2, int: false, ..b });
        }
        for c in vs {
            // two coefficients: too many branches, or too large
            if c.k() > 1 && !thorough && (log || b.fam.neg() && c.std) {
                continue;
            }
            scens.push(refits(c));
        }
    }
    let b = Cfg::new(fam("linear"), 3, 1);
    for c in [
        b,
        Cfg { wt: true, ..b },
        Cfg { fq: Fq::Sym, off: true, ..b },
        Cfg { std: true, xfix: true, l2: true, wt: true, ..b },
        Cfg { std: true, xfix: true, fq: Fq::Sym, ..b },
        Cfg { n: 4, std: true, xfix: true, fq: Fq::Fix(&[1, 3, 2, 1]), wt: true, wfix: true, off: true, ..b },
        Cfg { n: 4, p: 2, xfix: true, l2: true, wt: true, wfix: true, ..b },
        Cfg { n: 4, p: 2, xfix: true, std: true, ..b },
        Cfg { n: 3, p: 2, int: false, xfix: true, off: true, ..b },
    ] {
        scens.push(converged(c));
    }
    Prop {
        scens,
        functions: vec!["Fit::loo_exact", "Fit::infl_coef", "Dataset::x_orig", "Dataset::finalize_design_matrix", "Model::with_options, FitConfig::fit", "Glm::regression", "Irls::next", "Standardizer"],
        bounds: "n=2..4 observations, k<=3 coefficients".into(),
        assumptions: vec!["each refit is cut off after its first full step from wherever it starts (for linear models that step is the optimum); convergence of the iteration itself is the subject of G03-G06", "information matrices with and without the row non-singular"],
    }
}

/// responses of a linear model whose unpenalised optimum is `b`: the first n-k residuals are free
fn residuals(w: &mut World, c: &Cfg, sp: &mut Spec, b: &[S]) {
    let (n, k) = (c.n, c.k());
    let x: Vec<Vec<S>> = (0..n).map(|i| xrow(w, sp, i)).collect();
    let mut e: Vec<S> = (0..n - k).map(|i| w.real(&format!("e{i}"))).collect();
    // sum over all rows of w e x = 0
    let m: Vec<Vec<S>> = (0..k).map(|j| (n - k..n).map(|i| tw(w, sp, i) * x[i][j]).collect()).collect();
    let rhs: Vec<S> = (0..k).map(|j| sum(w, (0..n - k).map(|i| tw(w, sp, i) * x[i][j] * e[i])).o_neg()).collect();
    let inv = inv_of(&m);
    e.extend(matvec(w, &inv, &rhs));
    for i in 0..n {
        sp.y[i] = omega(w, sp, b, i) + e[i];
    }
}
fn student(c: Cfg) -> Scenario {
    let mut s = scen(format!("linear studentized {}", c.name()), move |w| {
        let mut sp = spec_no_y(w, &c);
        let b = betas(w, &c, "b");
        residuals(w, &c, &mut sp, &b);
        dispersible(w, &c, &sp);
        let o = opts(w, &c);
        let del: Vec<Spec> = (0..c.n).map(|i| delete_row(&sp, i)).collect();
        for d in &del {
            let k = w.c(c.k() as f64);
            let ne = n_eff(w, d);
            w.assume(ne, Rel::Gt, k);
        }
        let Ok(m) = c.fam.build(&sp) else { return w.fail("builds") };
        let Ok(f) = fit_at(w, &*m, &o, &b) else { return w.fail("fits") };
        let r = f.resid_student();
        let Some(r) = w.ok("studentized", r) else { return };
        w.check("one per observation", r.len() == c.n);
        let c2 = Cfg { n: c.n - 1, ..c };
        for i in 0..c.n {
            // the fit without the row, from the normal equations
            let inv = inv_of(&gram(w, &c2, &del[i], &b));
            let step = matvec(w, &inv, &data_score(w, &c2, &del[i], &b));
            let bi: Vec<S> = b.iter().zip(&step).map(|(b, s)| *b + *s).collect();
            let dev: S = sum(w, (0..c2.n).map(|j| {
                let e = del[i].y[j] - omega(w, &del[i], &bi, j);
                tw(w, &del[i], j) * e * e
            }));
            let k = w.c(c.k() as f64);
            let phi = dev / ((w.c(1.0) - k / n_eff(w, &del[i])) * sum_w(w, &del[i]));
            let ei = sp.y[i] - omega(w, &sp, &bi, i);
            let res = sp.y[i] - omega(w, &sp, &b, i);
            let want = res.o_signum() * (vw(w, &sp, i) * ei * ei / phi).o_sqrt();
            w.eq(&format!("studentized[{i}]"), r[i], want);
        }
    });
    s.weight = 2 * c.n * c.k();
    s
}
/// other families: Pregibon's one-step deletion deviance and dispersion
fn one_step_student(c: Cfg) -> Scenario {
    scen(format!("one-step studentized {}", c.name()), move |w| {
        let mut sp = spec(w, &c);
        let b = coefs_pat(w, &c, &mut sp, 2 | FORCE);
        dispersible(w, &c, &sp);
        let k = w.c(c.k() as f64);
        if c.fam.dispersed() {
            for i in 0..c.n {
                let ne = n_eff(w, &delete_row(&sp, i));
                w.assume(ne, Rel::Gt, k);
            }
        }
        let o = opts(w, &c);
        let Ok(m) = c.fam.build(&sp) else { return w.fail("builds") };
        let Ok(f) = fit_at(w, &*m, &o, &b) else { return w.fail("fits") };
        let (r, h) = (f.resid_student(), f.leverage());
        let (Some(r), Some(h)) = (w.ok("studentized", r), w.ok("leverage", h)) else { return };
        let one = w.c(1.0);
        let two = w.c(2.0);
        let d: Vec<S> = (0..c.n).map(|i| vw(w, &sp, i) * unit_dev(w, c.fam, sp.y[i], mu(w, &c, &sp, &b, i))).collect();
        let total = sum(w, (0..c.n).map(|i| fr(w, &sp, i) * d[i]));
        for i in 0..c.n {
            let m = mu(w, &c, &sp, &b, i);
            let e = sp.y[i] - m;
            let p = vw(w, &sp, i) * e * e / c.fam.variance(m);
            let q = h[i] / (one - h[i]);
            let di = d[i] + q * (q + two) * p;
            let phi = if c.fam.dispersed() {
                let s = delete_row(&sp, i);
                (total - fr(w, &sp, i) * (d[i] + q * p)) / ((one - k / n_eff(w, &s)) * sum_w(w, &s))
            } else {
                one
            };
            let want = e.o_signum() * (di / phi).o_sqrt();
            w.eq(&format!("studentized[{i}]"), r[i], want);
        }
    })
}
pub fn g21(thorough: bool) -> Prop {
    let mut scens = vec![];
    let b = Cfg::new(fam("linear"), 4, 1);
    let mut vs = vec![
        Cfg { n: 3, int: false, ..b },
        Cfg { n: 3, int: false, wt: true, off: true, ..b },
        Cfg { n: 3, int: false, fq: Fq::Sym, ..b },
        Cfg { n: 3, int: false, fq: Fq::Sym, wt: true, ..b },
        Cfg { xfix: true, ..b },
        Cfg { xfix: true, std: true, off: true, ..b },
        Cfg { xfix: true, wt: true, wfix: true, fq: Fq::Sym, std: true, ..b },
        Cfg { xfix: true, wt: true, fq: Fq::Fix(&[1, 2, 3, 1]), ..b },
        Cfg { xfix: true, n: 5, p: 2, std: true, wt: true, wfix: true, fq: Fq::Fix(&[2, 1, 3, 1, 2]), ..b },
    ];
    if thorough {
        vs.push(b);
        vs.push(Cfg { wt: true, fq: Fq::Sym, xfix: true, off: true, ..b });
        vs.push(Cfg { n: 5, p: 2, xfix: true, fq: Fq::Sym, ..b });
        vs.push(Cfg { n: 5, p: 2, xfix: true, wt: true, ..b });
    }
    for c in vs {
        scens.push(student(c));
    }
    for f in all() {
        if f.base() == "linear" && !f.opaque() {
            continue;
        }
        let b = Cfg::new(f, 3, 1);
        let ig = f.name() == "invgauss";
        scens.push(one_step_student(Cfg { int: false, off: ig, xfix: ig, ..b }));
        scens.push(one_step_student(Cfg { n: 3, int: false, wt: true, fq: Fq::Sym, off: true, xfix: true, ..b }));
        scens.push(one_step_student(Cfg { n: 4, std: true, xfix: true, off: true, fq: Fq::Fix(&[1, 2, 1, 3]), wt: true, wfix: true, ..b }));
    }
    Prop {
        scens,
        functions: vec!["Fit::resid_student", "Fit::deviance_terms_loo", "Fit::dispersion_loo", "Fit::leverage", "Fit::resid_pear", "Fit::deviance_terms"],
        bounds: "linear: n=2..5, k<=3 at a symbolic optimum; other families n=3..4, k<=2 at arbitrary coefficients".into(),
        assumptions: vec!["unpenalised fits; effective sample size without the row above the number of parameters", "leverages are those decided by G17"],
    }
}
