//! Calculus of the likelihood: score, information, Fisher-scoring step, family identities.
use super::Prop;
use super::common::*;
use crate::engine::*;
use crate::fam::*;
use crate::s::S;
use crate::smt::Rel;
use crate::sym::{Dom, EqPol, OrdPol};
use crate::scalar::Core;

/// penalised log-likelihood as a function of the coefficients, through the public test API
pub fn ll(w: &World, f: &dyn FitApi, b: &[S]) -> S {
    f.model_like() - f.lr_test_against(b) / w.c(2.0)
}
/// coefficients at which the fit object is parked while functions of other coefficients are studied
pub fn parked<'a>(w: &mut World, c: &Cfg, sp: &Spec, m: &'a dyn ModelApi, o: &Opts) -> R<Box<dyn FitApi + 'a>> {
    let b0 = betas(w, c, "b0");
    in_domain(w, c, sp, &b0);
    signs(w, c, sp, &b0, 1 | FORCE);
    fit_at(w, m, o, &b0)
}
pub fn variants(fams: &[Fam], thorough: bool) -> Vec<Cfg> {
    let mut v = vec![];
    for f in fams {
        let n = 2;
        let b = Cfg::new(*f, n, 1);
        v.push(b);
        v.push(Cfg { std: true, ..b });
        v.push(Cfg { wt: true, fq: Fq::Sym, off: true, ..b });
        v.push(Cfg { l2: true, std: true, wt: true, ..b });
        v.push(Cfg { l1: true, l2: true, off: true, ..b });
        v.push(Cfg { int: false, std: true, l2: true, fq: Fq::Sym, ..b });
        // an intercept and nothing else
        v.push(Cfg { p: 0, wt: true, fq: Fq::Sym, off: true, std: true, ..b });
        if f.base() != "invgauss" || thorough {
            v.push(Cfg { n: 3, p: 2, xfix: true, std: true, wt: true, l2: true, ..b });
        } else {
            v.push(Cfg { n: 3, p: 2, xfix: true, wt: true, l2: true, ..b });
        }
        if f.name() == "linear" {
            // wider designs
            v.push(Cfg { n: 2, p: 5, int: false, xfix: true, l2: true, off: true, ..b });
            v.push(Cfg { n: 2, p: 4, xfix: true, l2: true, std: true, off: true, ..b });
            v.push(Cfg { n: 2, p: 4, xfix: true, l1: true, l2: true, off: true, ..b });
            v.push(Cfg { n: 6, p: 1, xfix: true, std: true, off: true, ..b });
        }
        if thorough {
            v.push(Cfg { n: 3, p: 2, wt: true, fq: Fq::Sym, off: true, l1: true, l2: true, ..b });
            v.push(Cfg { n: 4, p: 2, xfix: true, std: true, wt: true, off: true, l1: true, ..b });
            v.push(Cfg { n: 1, off: true, l2: true, ..b });
        }
    }
    v
}
/// model + options + fit parked away from the coefficients of interest, or a violation
macro_rules! with_fit {
    ($w:ident, $c:ident, $sp:ident, |$f:ident, $o:ident| $body:block) => {
        let $o = opts($w, &$c);
        let m = match $c.fam.build(&$sp) {
            Ok(m) => m,
            Err(_) => return $w.fail("builds"),
        };
        let $f = match parked($w, &$c, &$sp, &*m, &$o) {
            Ok(f) => f,
            Err(_) => return $w.fail("fits"),
        };
        $body
    };
}
pub const CALC_BOUNDS: &str = "observations n<=3 (thorough: 4), features p<=2, with/without intercept, standardisation, variance weights, positive frequency weights (relaxed to reals), offset, L1/L2; all numeric inputs symbolic except the design entries of scenarios marked xfix; logistic with n>=3: one sign pattern of the linear predictors (thorough: all)";
pub fn g01(thorough: bool) -> Prop {
    let mut scens = vec![];
    for c in variants(&all(), thorough) {
        scens.push(scen(format!("score=grad {}", c.name()), move |w| {
            let sp = spec(w, &c);
            with_fit!(w, c, sp, |f, _o| {
                let b = betas(w, &c, "b");
                in_domain(w, &c, &sp, &b);
                signs(w, &c, &sp, &b, 2);
                if c.l1 {
                    // the penalty has no gradient where a penalised coefficient is zero
                    let z = w.c(0.0);
                    for j in c.int as usize..c.k() {
                        w.assume(b[j], Rel::Ne, z);
                    }
                }
                let sc = f.score(&b);
                let g = w.grad(&b, &|w, p| ll(w, &*f, p));
                w.eqv("score", &sc, &g);
            });
        }));
    }
    Prop { scens, functions: vec!["Fit::score", "Fit::lr_test_against", "Glm::log_like_reg", "Glm::log_like", "IrlsReg::gradient", "IrlsReg::likelihood", "Standardizer", "Dataset::x_conj"], bounds: CALC_BOUNDS.into(), assumptions: vec![] }
}
pub fn g02(thorough: bool) -> Prop {
    let mut scens = vec![];
    for c in variants(&all(), thorough) {
        scens.push(scen(format!("fisher=E[-hess] {}", c.name()), move |w| {
            let (sp, b) = spec_at_mean(w, &c, 2);
            with_fit!(w, c, sp, |f, o| {
                let fi = f.fisher(&b);
                let h = w.hess(&b, &|w, p| ll(w, &*f, p));
                let k = c.k();
                w.check("shape", fi.len() == k && fi.iter().all(|r| r.len() == k));
                let g = gram_pen(w, &c, &sp, &o, &b);
                for i in 0..k {
                    for j in 0..k {
                        let t = w.thaw(h[i][j]);
                        let fij = w.thaw(fi[i][j]);
                        w.eq(&format!("fisher[{i}][{j}]"), fij, t.o_neg());
                        w.eq(&format!("symmetric[{i}][{j}]"), fi[i][j], fi[j][i]);
                        // Gram form: together with the positive weights below, a non-negative quadratic form
                        let gij = w.thaw(g[i][j]);
                        w.eq(&format!("gram[{i}][{j}]"), fij, gij);
                    }
                }
                let z = w.c(0.0);
                for i in 0..c.n {
                    let v = unit_info(w, &c, &sp, &b, i) * tw(w, &sp, i);
                    w.ge(&format!("weight[{i}]"), v, z);
                }
            });
        }));
    }
    Prop { scens, functions: vec!["Fit::fisher", "Fit::lr_test_against", "Glm::log_like_reg", "Glm::adjusted_variance_diag", "IrlsReg::irls_mat", "Standardizer"], bounds: CALC_BOUNDS.into(), assumptions: vec!["the response enters the likelihood's second derivative linearly, so the expectation is taken by putting the mean in its place"] }
}
pub fn g03(thorough: bool) -> Prop {
    let mut scens = vec![];
    for c in variants(&all(), thorough).into_iter().filter(|c| !c.l1) {
        if c.n > 2 && c.fam.base() == "logistic" && !thorough {
            continue;
        }
        scens.push(scen(format!("stay {}", c.name()), move |w| {
            let sp = spec(w, &c);
            let o = opts(w, &c);
            let Ok(m) = c.fam.build(&sp) else { return w.fail("builds") };
            let b = betas(w, &c, "b");
            in_domain(w, &c, &sp, &b);
            signs(w, &c, &sp, &b, 2);
            let r = fit_at(w, &*m, &o, &b);
            let Some(f) = w.ok("fits", r) else { return };
            w.check("no iterations", f.n_iter() == 0 && f.history().is_empty());
            let r = f.result();
            w.eqv("starting point kept in user coordinates", &r, &b);
            let l = data_ll(w, &c, &sp, &b) - penalty(w, &c, &sp, &o, &b);
            w.eq("likelihood of the starting point", f.model_like(), l);
        }));
        if c.fam.base() == "invgauss" && (c.p > 1 || c.std && c.wt) && !c.fam.name().ends_with("log") {
            continue;
        }
        scens.push(scen(format!("step {}", c.name()), move |w| {
            let sp = spec(w, &c);
            let o = opts(w, &c);
            let Ok(m) = c.fam.build(&sp) else { return w.fail("builds") };
            let b = betas(w, &c, "b");
            in_domain(w, &c, &sp, &b);
            signs(w, &c, &sp, &b, 2);
            let Some(b1) = one_step(w, &c, &*m, &o, &b) else { return };
            let fi = gram_pen(w, &c, &sp, &o, &b);
            let mut sc = data_score(w, &c, &sp, &b);
            if let Some(l2) = o.l2 {
                for j in 0..c.p {
                    let k = j + c.int as usize;
                    let s = feat_scale(w, &sp, j);
                    sc[k] = sc[k] - l2 * s * s * b[k];
                }
            }
            let d: Vec<S> = b1.iter().zip(&b).map(|(x, y)| *x - *y).collect();
            let lhs = matvec(w, &fi, &d);
            w.eqv("information*step=score", &lhs, &sc);
        }));
    }
    Prop { scens, functions: vec!["Irls::next", "Irls::irls_mat_vec", "IrlsReg::next_guess", "IrlsReg::irls_vec", "IrlsReg::irls_mat", "Glm::regression", "Standardizer", "Fit::new"], bounds: CALC_BOUNDS.into(), assumptions: vec!["machine epsilon is zero in the exact semantics, so the variance conditioning vanishes", "the proposed full step is taken (the acceptance rule is property G05)"] }
}
/// the first accepted full step from `b`
pub fn one_step(w: &mut World, c: &Cfg, m: &dyn ModelApi, o: &Opts, b: &[S]) -> Option<Vec<S>> {
    let mut o = o.clone();
    o.init = Some(b.to_vec());
    let r = w.with_ord(OrdPol::Up, |w| w.with_eqpol(EqPol::Move, |_| m.fit(&o)));
    let f = w.ok("fits", r)?;
    if !w.sym && (c.fam.neg() || c.fam.opaque()) && f.n_iter() == 0 {
        // the full step leaves the family's domain or overflows: excluded
        crate::engine::abort_infeasible();
    }
    w.check("one iteration", f.n_iter() == 1 && f.history().len() == 1);
    Some(f.result())
}
pub fn g11(_thorough: bool) -> Prop {
    let mut scens = vec![];
    for f in BUILTIN {
        let mu_dom = move |f: Fam| if f.base() == "linear" { Dom::Real } else { f.ydom() };
        let om = move |w: &mut World, f: Fam| {
            let o = w.real("omega");
            if f.neg() {
                let z = w.c(0.0);
                w.assume(o, Rel::Lt, z);
            }
            o
        };
        scens.push(scen(format!("inverse {}", f.name()), move |w| {
            let o = om(w, f);
            let mu = f.mean(o);
            let back = f.link(mu);
            w.eq("link(mean(omega))", back, o);
            let m = w.var("mu", mu_dom(f));
            let o2 = f.link(m);
            let m2 = f.mean(o2);
            w.eq("mean(link(mu))", m2, m);
            let z = w.c(0.0);
            if f.base() != "linear" {
                w.rel("mean in the response domain (lower)", mu, Rel::Gt, z);
            }
            if f.base() == "logistic" || f.base() == "binomial" {
                let n = w.c(f.binom_n());
                w.rel("mean in the response domain (upper)", mu, Rel::Lt, n);
            }
            if f.neg() {
                w.rel("link in its domain", o2, Rel::Lt, z);
            }
        }));
        scens.push(scen(format!("natural parameter {}", f.name()), move |w| {
            let o = om(w, f);
            let e = f.canon_link(f.mean(o));
            w.eq("nat=canonical link of mean", f.nat(o), e);
            let g = w.grad(&[o], &|_, p| f.nat(p[0]));
            w.eq("stated derivative", f.dnat(o), g[0]);
            let mu = f.mean(o);
            let dl = w.var("mu", mu_dom(f));
            let gl = w.grad(&[dl], &|_, p| f.link(p[0]));
            let prod = f.variance(dl) * gl[0] * f.dnat(f.link(dl));
            let one = w.c(1.0);
            w.eq("dnat * variance * link derivative = 1", prod, one);
            let _ = mu;
        }));
        scens.push(scen(format!("adjust {}", f.name()), move |w| {
            let o = om(w, f);
            let (e, v) = (w.real("err"), w.real("var"));
            let d = f.dnat(o);
            w.eq("errors", f.adj_err(e, o), e * d);
            w.eq("variance", f.adj_var(v, o), v * d * d);
            let (a, b) = f.adj_both(e, v, o);
            w.eq("errors jointly", a, e * d);
            w.eq("variance jointly", b, v * d * d);
        }));
    }
    for f in ANYLINK {
        scens.push(scen(format!("adjust {}", f.name()), move |w| {
            let o = w.real("omega");
            let (e, v) = (w.real("err"), w.real("var"));
            let d = f.dnat(o);
            w.eq("errors", f.adj_err(e, o), e * d);
            w.eq("variance", f.adj_var(v, o), v * d * d);
            let (a, b) = f.adj_both(e, v, o);
            w.eq("errors jointly", a, e * d);
            w.eq("variance jointly", b, v * d * d);
        }));
    }
    Prop { scens, functions: vec!["Link::func", "Link::func_inv", "Transform::nat_param", "Transform::d_nat_param", "Transform::adjust_errors", "Transform::adjust_variance", "Transform::adjust_errors_variance", "Glm::variance"], bounds: "unbounded in the scalar inputs (all reals of the domain); Binomial checked at N=3".into(), assumptions: vec![] }
}
pub fn g12(_thorough: bool) -> Prop {
    let mut scens = vec![];
    for f in BUILTIN {
        // natural parameters of the family (its canonical domain)
        let nat_neg = matches!(f.base(), "exponential" | "gamma" | "invgauss");
        let nat = move |w: &mut World| {
            let o = w.real("nat");
            if nat_neg {
                let z = w.c(0.0);
                w.assume(o, Rel::Lt, z);
            }
            o
        };
        scens.push(scen(format!("partition {}", f.name()), move |w| {
            let e = nat(w);
            let g = w.grad(&[e], &|_, p| f.log_partition(p[0]));
            let mu = f.canon_inv(e);
            w.eq("first derivative is the mean", g[0], mu);
            let h = w.hess(&[e], &|_, p| f.log_partition(p[0]));
            w.eq("second derivative is the variance", h[0][0], f.variance(mu));
            let z = w.c(0.0);
            w.rel("variance positive", f.variance(mu), Rel::Gt, z);
        }));
        scens.push(scen(format!("likelihood {}", f.name()), move |w| {
            let e = nat(w);
            let y = w.var("y", f.ydom());
            w.eq("y*nat-A(nat)", f.ll_nat(y, e), y * e - f.log_partition(e));
            // boundary responses
            let bs: &[f64] = match f.base() {
                "logistic" => &[0.0, 1.0],
                "poisson" => &[0.0],
                "binomial" => &[0.0, 3.0],
                _ => &[],
            };
            for b in bs {
                let y = w.c(*b);
                w.eq(&format!("y*nat-A(nat) at {b}"), f.ll_nat(y, e), y * e - f.log_partition(e));
            }
        }));
        scens.push(scen(format!("saturated {}", f.name()), move |w| {
            let y = w.var("y", f.ydom());
            let e = f.canon_link(y);
            w.eq("value at the canonical link of the response", f.ll_sat(y), y * e - f.log_partition(e));
            let z = w.c(0.0);
            let bs: &[f64] = match f.base() {
                "logistic" => &[0.0, 1.0],
                "poisson" => &[0.0],
                "binomial" => &[0.0, 3.0],
                _ => &[],
            };
            for b in bs {
                // the supremum is approached at infinity and is zero
                let y = w.c(*b);
                w.eq(&format!("boundary {b}"), f.ll_sat(y), z);
            }
        }));
    }
    Prop { scens, functions: vec!["Glm::log_partition", "Glm::variance", "Glm::log_like_natural", "Glm::log_like_sat"], bounds: "unbounded in the scalar inputs; Binomial at N=3".into(), assumptions: vec!["a concave differentiable function (second derivative shown negative) attains its supremum at its stationary point; boundary responses: the supremum is the limit 0"] }
}
pub fn g14(thorough: bool) -> Prop {
    let mut scens = vec![];
    for c in variants(&all(), thorough) {
        scens.push(scen(format!("penalised likelihood {}", c.name()), move |w| {
            let sp = spec(w, &c);
            with_fit!(w, c, sp, |f, o| {
                let b = betas(w, &c, "b");
                in_domain(w, &c, &sp, &b);
                signs(w, &c, &sp, &b, 2);
                let l = data_ll(w, &c, &sp, &b) - penalty(w, &c, &sp, &o, &b);
                let got = ll(w, &*f, &b);
                w.eq("penalised likelihood", got, l);
            });
        }));
    }
    for fam in all() {
        for int in [true, false] {
            // which weights are given as explicit zeros
            for (l1, l2) in [(true, false), (false, true), (true, true)] {
                let c = Cfg { int, std: int && fam.base() != "invgauss", wt: !int, l1, l2, ..Cfg::new(fam, 2, 1) };
                scens.push(scen(format!("zero weight is no weight {}", c.name()), move |w| zero_weight(w, &c)));
            }
        }
    }
    Prop { scens, functions: vec!["Ridge::likelihood", "Lasso::likelihood", "ElasticNet::likelihood", "zero_first_maybe", "get_reg", "Glm::log_like_reg", "FitConfig::l1_reg", "FitConfig::l2_reg"], bounds: CALC_BOUNDS.into(), assumptions: vec![] }
}
/// (l1,l2) flags say which weight is present in the comparison; the other is given as zero
fn zero_weight(w: &mut World, c: &Cfg) {
    let sp = spec(w, c);
    let Ok(m) = c.fam.build(&sp) else { return w.fail("builds") };
    let z = w.c(0.0);
    let inf = S::inf_();
    let (a, b) = match (c.l1, c.l2) {
        (true, true) => (Opts { tol: Some(inf), l1: Some(z), l2: Some(z), ..Default::default() }, Opts { tol: Some(inf), ..Default::default() }),
        (true, false) => {
            let l = w.pos("lam1");
            (Opts { tol: Some(inf), l1: Some(l), l2: Some(z), ..Default::default() }, Opts { tol: Some(inf), l1: Some(l), ..Default::default() })
        }
        _ => {
            let l = w.pos("lam2");
            (Opts { tol: Some(inf), l1: Some(z), l2: Some(l), ..Default::default() }, Opts { tol: Some(inf), l2: Some(l), ..Default::default() })
        }
    };
    let b0 = betas(w, c, "b0");
    in_domain(w, c, &sp, &b0);
    signs(w, c, &sp, &b0, 1 | FORCE);
    let (ra, rb) = (fit_at(w, &*m, &a, &b0), fit_at(w, &*m, &b, &b0));
    let (Some(fa), Some(fb)) = (w.ok("fits", ra), w.ok("fits plain", rb)) else { return };
    w.eq("likelihood", fa.model_like(), fb.model_like());
    w.eqv("score", &fa.score(&b0), &fb.score(&b0));
    w.eqm("fisher", &fa.fisher(&b0), &fb.fisher(&b0));
    let (ca, cb) = (fa.covariance(), fb.covariance());
    if let (Some(x), Some(y)) = (w.ok("covariance", ca), w.ok("covariance plain", cb)) {
        w.eqm("covariance", &x, &y);
    }
    // one step from the same point
    if (!c.l1 || c.l2) && c.fam.base() != "invgauss" {
        let (x, y) = (one_step(w, c, &*m, &a, &b0), one_step(w, c, &*m, &b, &b0));
        if let (Some(x), Some(y)) = (x, y) {
            w.eqv("step", &x, &y);
        }
    }
}
