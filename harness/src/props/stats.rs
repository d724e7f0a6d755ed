//! Statistics of a fit as functions of the fitted coefficients.
use super::Prop;
use super::common::*;
use crate::engine::*;
use crate::fam::*;
use crate::s::S;
use crate::scalar::Core;
use crate::smt::Rel;
use crate::sym::Dom;

pub const STAT_BOUNDS: &str = "observations n<=3 (thorough: 4), features p<=2, with/without intercept, standardisation, variance weights, positive frequency weights (relaxed to reals), offset, L2 and (where it matters) L1; fitted coefficients symbolic, not restricted to optima unless stated; design entries fixed rationals in scenarios marked xfix; logistic n>=3: one sign pattern of the linear predictors (thorough: all)";

/// a fit whose coefficients are `b`, or a recorded violation
macro_rules! at_fit {
    ($w:ident, $c:ident, $sp:ident, $b:ident, |$f:ident, $o:ident| $body:block) => {
        let $o = opts($w, &$c);
        let m = match $c.fam.build(&$sp) {
            Ok(m) => m,
            Err(_) => return $w.fail("builds"),
        };
        let $f = match fit_at($w, &*m, &$o, &$b) {
            Ok(f) => f,
            Err(_) => return $w.fail("fits"),
        };
        $body
    };
}

/// settings used for the statistics; the first is plain
pub fn stat_variants(fams: &[Fam], thorough: bool, pen: bool) -> Vec<Cfg> {
    let mut v = vec![];
    for f in fams {
        let b = Cfg::new(*f, 3, 1);
        let ig = f.name() == "invgauss";
        v.push(Cfg { off: ig, ..b });
        v.push(Cfg { wt: true, fq: Fq::Sym, off: true, xfix: true, ..b });
        v.push(Cfg { std: true, l2: pen, wt: true, wfix: true, fq: Fq::Fix(&[1, 2, 1]), off: true, xfix: true, ..b });
        v.push(Cfg { n: 2, int: false, fq: Fq::Sym, l2: pen, off: ig, ..b });
        v.push(Cfg { n: 2, int: false, wt: true, off: true, std: true, ..b });
        // an intercept and nothing else
        v.push(Cfg { n: 2, p: 0, wt: true, fq: Fq::Sym, off: ig, ..b });
        v.push(Cfg { p: 0, std: true, l2: pen, fq: Fq::Sym, off: true, ..b });
        if thorough {
            v.push(Cfg { n: 4, p: 2, std: true, wt: true, off: true, l2: pen, xfix: true, ..b });
            v.push(Cfg { wt: true, fq: Fq::Sym, off: true, ..b });
            v.push(Cfg { std: true, fq: Fq::Sym, l2: pen, xfix: true, ..b });
            v.push(Cfg { std: true, wt: true, off: true, l2: pen, xfix: true, ..b });
        }
    }
    v
}
/// ... with an L1 part as well
pub fn with_l1(mut v: Vec<Cfg>, thorough: bool) -> Vec<Cfg> {
    let u = v.clone();
    for c in u {
        if c.fam.base() == "logistic" && !thorough {
            continue;
        }
        if c.l2 {
            v.push(Cfg { l1: true, ..c });
        } else if c.std || !c.off && !c.wt {
            v.push(Cfg { l1: true, l2: thorough, ..c });
        }
    }
    v
}
pub fn mu(w: &World, c: &Cfg, sp: &Spec, b: &[S], i: usize) -> S {
    c.fam.mean(omega(w, sp, b, i))
}
/// effective sample size above the number of parameters (needed where the dispersion is estimated)
pub fn dispersible(w: &mut World, c: &Cfg, sp: &Spec) {
    if c.fam.dispersed() {
        let k = w.c(c.k() as f64);
        let ne = n_eff(w, sp);
        w.assume(ne, Rel::Gt, k);
    }
}
/// one observation's textbook unit deviance
pub fn unit_dev(w: &World, f: Fam, y: S, m: S) -> S {
    let two = w.c(2.0);
    match f.base() {
        "linear" => (y - m) * (y - m),
        "poisson" => two * (y * (y / m).o_ln() - (y - m)),
        "exponential" | "gamma" => two * ((y - m) / m - (y / m).o_ln()),
        "invgauss" => (y - m) * (y - m) / (m * m * y),
        _ => {
            let n = w.c(f.binom_n());
            two * (y * (y / m).o_ln() + (n - y) * ((n - y) / (n - m)).o_ln())
        }
    }
}
/// ln t <= t - 1, at the points that make the unit deviance visibly non-negative
fn dev_lemmas(w: &mut World, f: Fam, y: S, m: S) {
    let one = w.c(1.0);
    let add = |w: &mut World, t: S| w.lemma("ln t <= t-1", t.o_ln(), Rel::Le, t - one);
    match f.base() {
        "poisson" => add(w, m / y),
        "exponential" | "gamma" => add(w, y / m),
        "logistic" | "binomial" => {
            add(w, m / y);
            let n = w.c(f.binom_n());
            add(w, (n - m) / (n - y));
        }
        _ => {}
    }
}
/// dispersion by definition
pub fn phi(w: &World, c: &Cfg, sp: &Spec, b: &[S]) -> S {
    if !c.fam.dispersed() {
        return w.c(1.0);
    }
    let d = sum(w, (0..sp.y.len()).map(|i| tw(w, sp, i) * unit_dev(w, c.fam, sp.y[i], mu(w, c, sp, b, i))));
    let k = w.c(c.k() as f64);
    d / ((w.c(1.0) - k / n_eff(w, sp)) * sum_w(w, sp))
}
/// responses that make `b` the unpenalised optimum: mu + t c/(w f eta'), c spanning the left null
/// space of the design (needs n = K+1)
pub fn stationary_y(w: &mut World, c: &Cfg, sp: &mut Spec, b: &[S]) {
    let (n, k) = (c.n, c.k());
    assert!(n == k + 1);
    let rows: Vec<Vec<S>> = (0..n).map(|i| xrow(w, sp, i)).collect();
    let t = w.real("t");
    for i in 0..n {
        let sub: Vec<S> = (0..n).filter(|r| *r != i).flat_map(|r| rows[r].clone()).collect();
        let mut ci = crate::lapack::det(&sub, k);
        if i % 2 == 1 {
            ci = ci.o_neg();
        }
        let o = omega(w, sp, b, i);
        let y = c.fam.mean(o) + t * ci / (tw(w, sp, i) * c.fam.dnat(o));
        match c.fam.ydom() {
            Dom::Real => {}
            Dom::In(a, h) => {
                let (a, h) = (w.c(a), w.c(h));
                w.assume(y, Rel::Gt, a);
                w.assume(y, Rel::Lt, h);
            }
            _ => w.assume_pos(y),
        }
        sp.y[i] = y;
    }
}

pub fn g13(thorough: bool) -> Prop {
    let mut scens = vec![];
    for c in stat_variants(&all(), thorough, true) {
        scens.push(scen(format!("deviance {}", c.name()), move |w| {
            let mut sp = spec(w, &c);
            let b = coefs(w, &c, &mut sp);
            at_fit!(w, c, sp, b, |f, _o| {
                let dev = f.deviance();
                let rd = f.resid_dev();
                let mut sat = w.c(0.0);
                let mut tb = w.c(0.0);
                let mut sq = w.c(0.0);
                let z = w.c(0.0);
                w.check("one per observation", rd.len() == c.n);
                for i in 0..c.n {
                    let nat = c.fam.nat(omega(w, &sp, &b, i));
                    let m = mu(w, &c, &sp, &b, i);
                    let y = sp.y[i];
                    sat = sat + tw(w, &sp, i) * (c.fam.ll_sat(y) - (y * nat - c.fam.log_partition(nat)));
                    let d = unit_dev(w, c.fam, y, m);
                    tb = tb + tw(w, &sp, i) * d;
                    sq = sq + fr(w, &sp, i) * rd[i] * rd[i];
                    dev_lemmas(w, c.fam, y, m);
                    w.ge(&format!("contribution[{i}] non-negative"), d * vw(w, &sp, i), z);
                    let r2 = rd[i] * rd[i];
                    w.eq(&format!("squared residual[{i}]"), r2, d * vw(w, &sp, i));
                    let e = (y - m).o_signum() * (d * vw(w, &sp, i)).o_sqrt();
                    w.eq(&format!("signed residual[{i}]"), rd[i], e);
                }
                w.eq("twice the likelihood shortfall", dev, w.c(2.0) * sat);
                w.eq("textbook formula", dev, tb);
                w.eq("sum of squared residuals", dev, sq);
            });
        }));
    }
    for f in all() {
        let c = Cfg { n: 2, int: false, wt: true, ..Cfg::new(f, 2, 1) };
        scens.push(scen(format!("perfect fit {}", c.name()), move |w| {
            let (sp, b) = spec_at_mean(w, &c, 2);
            at_fit!(w, c, sp, b, |f, _o| {
                let z = w.c(0.0);
                let d = w.thaw(f.deviance());
                w.eq("deviance", d, z);
            });
        }));
        // boundary responses (zero counts, pure binary outcomes)
        let bs: &'static [f64] = match f.base() {
            "logistic" => &[0.0, 1.0],
            "poisson" => &[0.0, 2.0],
            "binomial" => &[0.0, 3.0],
            _ => continue,
        };
        scens.push(scen(format!("boundary {}", c.name()), move |w| {
            let y: Vec<S> = bs.iter().map(|b| w.c(*b)).collect();
            let mut sp = spec_with(w, &c, y);
            let b = coefs(w, &c, &mut sp);
            at_fit!(w, c, sp, b, |f, _o| {
                let two = w.c(2.0);
                let mut e = w.c(0.0);
                for i in 0..2 {
                    let m = mu(w, &c, &sp, &b, i);
                    let n = w.c(c.fam.binom_n());
                    let d = match (c.fam.base(), i) {
                        ("poisson", 0) => two * m,
                        ("poisson", _) => unit_dev(w, c.fam, sp.y[i], m),
                        (_, 0) => two * n * (n / (n - m)).o_ln(),
                        _ => two * n * (n / m).o_ln(),
                    };
                    e = e + d * tw(w, &sp, i);
                }
                w.eq("deviance", f.deviance(), e);
            });
        }));
    }
    Prop { scens, functions: vec!["Fit::deviance", "Fit::deviance_terms", "Fit::resid_dev", "Glm::log_like_terms", "Glm::log_like_sat"], bounds: STAT_BOUNDS.into(), assumptions: vec!["ln t <= t-1 (told to the solver as a lemma)"] }
}
pub fn g16(thorough: bool) -> Prop {
    let mut scens = vec![];
    for c in stat_variants(&all(), thorough, true) {
        scens.push(scen(format!("residuals {}", c.name()), move |w| {
            let mut sp = spec(w, &c);
            let b = coefs(w, &c, &mut sp);
            at_fit!(w, c, sp, b, |f, _o| {
                let (rr, rw, rp) = (f.resid_resp(), f.resid_work(), f.resid_pear());
                let part = f.resid_part();
                w.check("shapes", rr.len() == c.n && rw.len() == c.n && rp.len() == c.n && part.len() == c.n && part.iter().all(|r| r.len() == c.p));
                let sw = sum_w(w, &sp);
                for i in 0..c.n {
                    let o = omega(w, &sp, &b, i);
                    let m = c.fam.mean(o);
                    let e = sp.y[i] - m;
                    w.eq(&format!("response[{i}]"), rr[i], e);
                    // derivative of the mean with respect to the linear predictor
                    let dm = c.fam.variance(m) * c.fam.dnat(o);
                    w.eq(&format!("working[{i}]"), rw[i], e / dm);
                    w.eq(&format!("pearson[{i}]"), rp[i], e * (vw(w, &sp, i) / c.fam.variance(m)).o_sqrt());
                    for j in 0..c.p {
                        let mut x = sp.x[i][j];
                        if c.int {
                            x = x - sum(w, (0..c.n).map(|r| tw(w, &sp, r) * sp.x[r][j])) / sw;
                        }
                        let e = e / dm + x * b[j + c.int as usize];
                        w.eq(&format!("partial[{i}][{j}]"), part[i][j], e);
                    }
                }
            });
        }));
        if c.n > 3 {
            continue;
        }
        scens.push(scen(format!("standardised {}", c.name()), move |w| {
            let mut sp = spec(w, &c);
            dispersible(w, &c, &sp);
            let b = coefs(w, &c, &mut sp);
            at_fit!(w, c, sp, b, |f, _o| {
                let (rd, rp) = (f.resid_dev(), f.resid_pear());
                let phi = f.dispersion();
                let r = f.leverage();
                let Some(h) = w.ok("leverage", r) else { return };
                let (a, p) = (f.resid_dev_std(), f.resid_pear_std());
                let (Some(a), Some(p)) = (w.ok("deviance", a), w.ok("pearson", p)) else { return };
                let one = w.c(1.0);
                for i in 0..c.n {
                    let s = (phi * (one - h[i])).o_sqrt();
                    w.eq(&format!("deviance[{i}]"), a[i], rd[i] / s);
                    w.eq(&format!("pearson[{i}]"), p[i], rp[i] / s);
                }
            });
        }));
    }
    // derivative of the mean, from the mean function itself
    for f in BUILTIN {
        let c = Cfg { n: 2, int: false, off: true, ..Cfg::new(f, 2, 1) };
        scens.push(scen(format!("link slope {}", c.name()), move |w| {
            let mut sp = spec(w, &c);
            let b = coefs(w, &c, &mut sp);
            at_fit!(w, c, sp, b, |f, _o| {
                let (rr, rw) = (f.resid_resp(), f.resid_work());
                for i in 0..c.n {
                    let o = w.real(&format!("o_at{i}"));
                    let at = omega(w, &sp, &b, i);
                    if !w.sym {
                        let g = w.grad(&[at], &|_, p| c.fam.mean(p[0]))[0];
                        w.eq(&format!("working[{i}] * mean slope"), rw[i] * g, rr[i]);
                        continue;
                    }
                    let g = w.grad(&[o], &|_, p| c.fam.mean(p[0]))[0];
                    let g = w.subst(g, &[o], &[at]);
                    w.eq(&format!("working[{i}] * mean slope"), rw[i] * g, rr[i]);
                }
            });
        }));
    }
    // weighted orthogonality at an optimum
    for f in all() {
        if f.base() == "invgauss" && !thorough {
            continue;
        }
        let c = Cfg { wt: true, fq: Fq::Sym, xfix: true, ..Cfg::new(f, 3, 1) };
        scens.push(scen(format!("orthogonality at optimum {}", c.name()), move |w| {
            let mut sp = spec_no_y(w, &c);
            let b = coefs(w, &c, &mut sp);
            stationary_y(w, &c, &mut sp, &b);
            at_fit!(w, c, sp, b, |f, _o| {
                let (rr, rw) = (f.resid_resp(), f.resid_work());
                let z = w.c(0.0);
                for k in 0..c.k() {
                    let s = sum(w, (0..c.n).map(|i| {
                        let u = unit_info(w, &c, &sp, &b, i);
                        rw[i] * u * tw(w, &sp, i) * xrow(w, &sp, i)[k]
                    }));
                    w.eq(&format!("weighted working residuals against column {k}"), s, z);
                }
                if c.fam.canonical() {
                    let s = sum(w, (0..c.n).map(|i| rr[i] * tw(w, &sp, i)));
                    w.eq("weighted response residuals sum to zero", s, z);
                }
                if c.fam.name() == "linear" {
                    let part = f.resid_part();
                    for j in 0..c.p {
                        let s = sum(w, (0..c.n).map(|i| part[i][j] * tw(w, &sp, i)));
                        w.eq(&format!("weighted partial residuals {j}"), s, z);
                    }
                }
            });
        }));
    }
    Prop { scens, functions: vec!["Fit::resid_resp", "Fit::resid_work", "Fit::resid_pear", "Fit::resid_part", "Fit::resid_dev_std", "Fit::resid_pear_std", "Dataset::x_orig"], bounds: STAT_BOUNDS.into(), assumptions: vec!["standardised residuals are stated in terms of the reported dispersion and leverage (properties G17, G18)"] }
}
pub fn g17(thorough: bool) -> Prop {
    let mut scens = vec![];
    for c in stat_variants(&all(), thorough, true) {
        scens.push(scen(format!("hat {}", c.name()), move |w| {
            let mut sp = spec(w, &c);
            let b = coefs(w, &c, &mut sp);
            at_fit!(w, c, sp, b, |f, o| {
                let (h, l) = (f.hat(), f.leverage());
                let (Some(h), Some(l)) = (w.ok("hat", h), w.ok("leverage", l)) else { return };
                w.check("shape", h.len() == c.n && h.iter().all(|r| r.len() == c.n));
                w.eqv("leverage", &l, &(0..c.n).map(|i| h[i][i]).collect::<Vec<_>>());
                let fi = gram_pen(w, &c, &sp, &o, &b);
                let inv = inv_of(&fi);
                let k = c.k();
                let xs: Vec<Vec<S>> = (0..c.n).map(|i| xrow(w, &sp, i)).collect();
                for i in 0..c.n {
                    let oi = omega(w, &sp, &b, i);
                    let dm = c.fam.variance(c.fam.mean(oi)) * c.fam.dnat(oi);
                    let fx = matvec(w, &inv, &xs[i]);
                    for j in 0..c.n {
                        let oj = omega(w, &sp, &b, j);
                        let e = dm * dot(w, &fx, &xs[j]) * tw(w, &sp, j) * c.fam.dnat(oj);
                        w.eq(&format!("sensitivity[{i}][{j}]"), h[i][j], e);
                    }
                }
                if !c.l2 {
                    // projection onto the columns mu' x
                    for q in 0..k {
                        let col: Vec<S> = (0..c.n).map(|i| {
                            let oi = omega(w, &sp, &b, i);
                            c.fam.variance(c.fam.mean(oi)) * c.fam.dnat(oi) * xs[i][q]
                        }).collect();
                        let hc = matvec(w, &h, &col);
                        w.eqv(&format!("reproduces column {q}"), &hc, &col);
                    }
                    let t = sum(w, (0..c.n).map(|i| h[i][i]));
                    w.eq("trace", t, w.c(k as f64));
                }
            });
        }));
    }
    for f in all() {
        if f.name() == "invgauss" && !thorough {
            continue;
        }
        let c = Cfg { n: 2, int: false, wt: true, ..Cfg::new(f, 2, 1) };
        scens.push(scen(format!("idempotent {}", c.name()), move |w| {
            let mut sp = spec(w, &c);
            let b = coefs(w, &c, &mut sp);
            at_fit!(w, c, sp, b, |f, _o| {
                let h = f.hat();
                let Some(h) = w.ok("hat", h) else { return };
                let hh = matmul(w, &h, &h);
                w.eqm("idempotent", &hh, &h);
                let (z, one) = (w.c(0.0), w.c(1.0));
                for i in 0..c.n {
                    w.ge(&format!("leverage[{i}] >= 0"), h[i][i], z);
                    w.ge(&format!("leverage[{i}] <= 1"), one, h[i][i]);
                }
            });
        }));
        scens.push(scen(format!("annihilates residuals {}", c.name()), move |w| {
            let mut sp = spec_no_y(w, &c);
            let b = coefs(w, &c, &mut sp);
            stationary_y(w, &c, &mut sp, &b);
            at_fit!(w, c, sp, b, |f, _o| {
                let h = f.hat();
                let Some(h) = w.ok("hat", h) else { return };
                let r = f.resid_resp();
                let hr = matvec(w, &h, &r);
                let z = w.c(0.0);
                w.eqv("hat * residuals", &hr, &vec![z; c.n]);
            });
        }));
        let c = Cfg { l2: true, fq: Fq::Sym, ..c };
        scens.push(scen(format!("shrinkage {}", c.name()), move |w| {
            let mut sp = spec(w, &c);
            let b = coefs(w, &c, &mut sp);
            at_fit!(w, c, sp, b, |f, _o| {
                let h = f.leverage();
                let Some(h) = w.ok("leverage", h) else { return };
                let t = sum(w, (0..c.n).map(|i| h[i]));
                w.ge("trace below the number of parameters", w.c(c.k() as f64), t);
                let z = w.c(0.0);
                for i in 0..c.n {
                    w.ge(&format!("leverage[{i}] >= 0"), h[i], z);
                }
            });
        }));
    }
    let c = Cfg { wt: true, xfix: false, ..Cfg::new(fam("linear"), 3, 1) };
    scens.push(scen(format!("bounds {}", c.name()), move |w| {
        let mut sp = spec(w, &c);
        let b = coefs(w, &c, &mut sp);
        at_fit!(w, c, sp, b, |f, _o| {
            let h = f.leverage();
            let Some(h) = w.ok("leverage", h) else { return };
            let (z, one) = (w.c(0.0), w.c(1.0));
            for i in 0..c.n {
                w.ge(&format!("leverage[{i}] >= 0"), h[i], z);
                w.ge(&format!("leverage[{i}] <= 1"), one, h[i]);
            }
        });
    }));
    // canonical links: the implicit derivative of the fitted values, by differentiating the score
    for f in BUILTIN.into_iter().filter(|f| f.canonical()) {
        let c = Cfg { n: 2, int: false, fq: Fq::Sym, l2: true, ..Cfg::new(f, 2, 1) };
        scens.push(scen(format!("implicit derivative {}", c.name()), move |w| {
            let mut sp = spec(w, &c);
            let b = coefs(w, &c, &mut sp);
            at_fit!(w, c, sp, b, |f, o| {
                let h = f.hat();
                let Some(h) = w.ok("hat", h) else { return };
                // dscore/dbeta * dbeta/dy_j + dscore/dy_j = 0
                let g = |w: &World, b: &[S], y: &[S]| {
                    let s2 = Spec { y: y.to_vec(), ..sp.clone() };
                    let sc = feat_scale(w, &s2, 0);
                    data_score(w, &c, &s2, b)[0] - o.l2.unwrap() * sc * sc * b[0]
                };
                let db = w.grad(&b, &|w, p| g(w, p, &sp.y))[0];
                let dm: Vec<S> = (0..c.n).map(|i| w.grad(&b, &|w, p| mu(w, &c, &sp, p, i))[0]).collect();
                let dy = w.grad(&sp.y, &|w, p| g(w, &b, p));
                for i in 0..c.n {
                    for j in 0..c.n {
                        w.eq(&format!("d mu[{i}]/d y[{j}]"), h[i][j] * db, (dm[i] * dy[j]).o_neg());
                    }
                }
            });
        }));
    }
    Prop { scens, functions: vec!["Fit::hat", "Fit::leverage", "Fit::fisher_std_inv", "Fit::fisher_std", "Dataset::x_conj"], bounds: STAT_BOUNDS.into(), assumptions: vec!["information matrix non-singular"] }
}
pub fn g18(thorough: bool) -> Prop {
    let mut scens = vec![];
    for c in with_l1(stat_variants(&all(), thorough, true), thorough) {
        let c = Cfg { xfix: c.xfix || c.fam.base() == "invgauss", ..c };
        scens.push(scen(format!("dispersion {}", c.name()), move |w| {
            let mut sp = spec(w, &c);
            dispersible(w, &c, &sp);
            let b = coefs(w, &c, &mut sp);
            at_fit!(w, c, sp, b, |f, _o| {
                let p = phi(w, &c, &sp, &b);
                w.eq("dispersion", f.dispersion(), p);
            });
        }));
        if c.n > 3 {
            continue;
        }
        scens.push(scen(format!("covariance {}", c.name()), move |w| {
            let mut sp = spec(w, &c);
            dispersible(w, &c, &sp);
            let b = coefs(w, &c, &mut sp);
            at_fit!(w, c, sp, b, |f, o| {
                let r = f.covariance();
                let Some(cov) = w.ok("covariance", r) else { return };
                let k = c.k();
                w.check("shape", cov.len() == k && cov.iter().all(|r| r.len() == k));
                let (fi, f0) = (gram_pen(w, &c, &sp, &o, &b), gram(w, &c, &sp, &b));
                // the dispersion is checked separately
                let ph = f.dispersion();
                if c.l2 {
                    let t = matmul(w, &matmul(w, &fi, &cov), &fi);
                    let e: Vec<Vec<S>> = f0.iter().map(|r| r.iter().map(|x| *x * ph).collect()).collect();
                    w.eqm("information*covariance*information", &t, &e);
                } else {
                    let t = matmul(w, &fi, &cov);
                    let e: Vec<Vec<S>> = (0..k).map(|i| (0..k).map(|j| if i == j { ph } else { w.c(0.0) }).collect()).collect();
                    w.eqm("information*covariance", &t, &e);
                }
                for i in 0..k {
                    for j in 0..i {
                        w.eq(&format!("symmetric[{i}][{j}]"), cov[i][j], cov[j][i]);
                    }
                }
                let r = f.wald_z();
                let Some(z) = w.ok("wald", r) else { return };
                for i in 0..k {
                    w.eq(&format!("wald[{i}]"), z[i], b[i] / cov[i][i].o_sqrt());
                }
            });
        }));
    }
    Prop { scens, functions: vec!["Fit::dispersion", "Fit::covariance", "Fit::wald_z", "Fit::fisher_inv", "Dataset::n_eff", "Dataset::sum_weights", "Standardizer::inverse_transform_fisher"], bounds: STAT_BOUNDS.into(), assumptions: vec!["information matrix non-singular", "effective sample size above the number of parameters where the dispersion is estimated"] }
}
pub fn g19(thorough: bool) -> Prop {
    let mut scens = vec![];
    for c in stat_variants(&all(), thorough, true) {
        let c = Cfg { xfix: c.xfix || c.fam.base() == "invgauss", ..c };
        if c.n > 3 {
            continue;
        }
        scens.push(scen(format!("one-step deletion {}", c.name()), move |w| {
            let mut sp = spec(w, &c);
            let b = coefs(w, &c, &mut sp);
            at_fit!(w, c, sp, b, |f, o| {
                let r = f.infl_coef();
                let Some(d) = w.ok("influence", r) else { return };
                w.check("shape", d.len() == c.n && d.iter().all(|r| r.len() == c.k()));
                let fi = gram_pen(w, &c, &sp, &o, &b);
                for i in 0..c.n {
                    let x = xrow(w, &sp, i);
                    let u = unit_info(w, &c, &sp, &b, i) * tw(w, &sp, i);
                    let oi = omega(w, &sp, &b, i);
                    let e = (sp.y[i] - c.fam.mean(oi)) * c.fam.dnat(oi) * tw(w, &sp, i);
                    // (information without i) * row = score contribution of i
                    let m: Vec<Vec<S>> = (0..c.k()).map(|r| (0..c.k()).map(|s| fi[r][s] - u * x[r] * x[s]).collect()).collect();
                    let l = matvec(w, &m, &d[i]);
                    let e: Vec<S> = x.iter().map(|x| *x * e).collect();
                    w.eqv(&format!("deletion step[{i}]"), &l, &e);
                }
            });
        }));
        scens.push(scen(format!("cook {}", c.name()), move |w| {
            let mut sp = spec(w, &c);
            dispersible(w, &c, &sp);
            let b = coefs(w, &c, &mut sp);
            at_fit!(w, c, sp, b, |f, _o| {
                let (r, l) = (f.cooks(), f.leverage());
                let (Some(d), Some(h)) = (w.ok("cooks", r), w.ok("leverage", l)) else { return };
                let p = f.resid_pear();
                let (one, k, ph) = (w.c(1.0), w.c(c.k() as f64), f.dispersion());
                for i in 0..c.n {
                    let e = p[i] * p[i] * h[i] / ((one - h[i]) * (one - h[i]) * k * ph);
                    w.eq(&format!("cook[{i}]"), d[i], e);
                }
            });
        }));
    }
    for (c, nm) in [
        (Cfg { wt: true, ..Cfg::new(fam("linear"), 3, 1) }, "cook distance"),
        (Cfg { std: true, xfix: true, ..Cfg::new(fam("linear"), 3, 1) }, "cook distance"),
    ] {
        scens.push(scen(format!("{nm} {}", c.name()), move |w| {
            let mut sp = spec(w, &c);
            dispersible(w, &c, &sp);
            let b = coefs(w, &c, &mut sp);
            at_fit!(w, c, sp, b, |f, o| {
                let (r, l) = (f.cooks(), f.infl_coef());
                let (Some(d), Some(dl)) = (w.ok("cooks", r), w.ok("influence", l)) else { return };
                let fi = gram_pen(w, &c, &sp, &o, &b);
                let k = w.c(c.k() as f64);
                let ph = f.dispersion();
                for i in 0..c.n {
                    let q = dot(w, &dl[i], &matvec(w, &fi, &dl[i]));
                    w.eq(&format!("moved distance[{i}]"), d[i] * k * ph, q);
                }
            });
        }));
    }
    // linear models at the optimum: the row gives the coefficients fitted without the observation
    for c in [
        Cfg::new(fam("linear"), 3, 1),
        Cfg { wt: true, fq: Fq::Sym, off: true, ..Cfg::new(fam("linear"), 3, 1) },
        Cfg { std: true, wt: true, xfix: true, ..Cfg::new(fam("linear"), 3, 1) },
        Cfg { n: 2, int: false, std: true, fq: Fq::Sym, ..Cfg::new(fam("linear"), 3, 1) },
    ] {
        scens.push(scen(format!("exact for linear {}", c.name()), move |w| {
            let mut sp = spec_no_y(w, &c);
            let b = coefs(w, &c, &mut sp);
            stationary_y(w, &c, &mut sp, &b);
            at_fit!(w, c, sp, b, |f, o| {
                let r = f.infl_coef();
                let Some(d) = w.ok("influence", r) else { return };
                for i in 0..c.n {
                    let s2 = delete_row(&sp, i);
                    let bi: Vec<S> = b.iter().zip(&d[i]).map(|(b, d)| *b - *d).collect();
                    let c2 = Cfg { n: c.n - 1, ..c };
                    let sc = data_score(w, &c2, &s2, &bi);
                    let z = w.c(0.0);
                    let _ = &o;
                    w.eqv(&format!("optimum without {i}"), &sc, &vec![z; c.k()]);
                }
            });
        }));
    }
    Prop { scens, functions: vec!["Fit::infl_coef", "Fit::cooks", "Fit::leverage", "Fit::fisher_inv", "Dataset::x_conj_ext"], bounds: STAT_BOUNDS.into(), assumptions: vec!["information matrix (with and without the row) non-singular", "with a ridge penalty and standardisation the penalty's scale is the one of the full data"] }
}
pub fn delete_row(sp: &Spec, i: usize) -> Spec {
    let del = |v: &Vec<S>| -> Vec<S> { v.iter().enumerate().filter(|(k, _)| *k != i).map(|(_, x)| *x).collect() };
    Spec {
        y: del(&sp.y),
        x: sp.x.iter().enumerate().filter(|(k, _)| *k != i).map(|(_, r)| r.clone()).collect(),
        w: sp.w.as_ref().map(del),
        f: sp.f.as_ref().map(del),
        off: sp.off.as_ref().map(del),
        ..sp.clone()
    }
}
pub fn g22(thorough: bool) -> Prop {
    let mut scens = vec![];
    let mut vs = stat_variants(&all(), thorough, true);
    for f in all() {
        vs.push(Cfg { n: 2, l1: true, l2: true, ..Cfg::new(f, 2, 1) });
    }
    for c in vs {
        if c.n > 3 || c.fam.name() == "invgauss" && c.std && c.wt && c.int {
            continue;
        }
        let c = Cfg { xfix: c.xfix || c.fam.base() == "invgauss", ..c };
        scens.push(scen(format!("against any alternative {}", c.name()), move |w| {
            let mut sp = spec(w, &c);
            let b = coefs(w, &c, &mut sp);
            let a = betas(w, &c, "a");
            in_domain(w, &c, &sp, &a);
            signs(w, &c, &sp, &a, 2);
            at_fit!(w, c, sp, b, |f, o| {
                let la = data_ll(w, &c, &sp, &a) - penalty(w, &c, &sp, &o, &a);
                let lb = data_ll(w, &c, &sp, &b) - penalty(w, &c, &sp, &o, &b);
                w.eq("likelihood ratio", f.lr_test_against(&a), w.c(2.0) * (lb - la));
                let fi = gram_pen(w, &c, &sp, &o, &a);
                let d: Vec<S> = b.iter().zip(&a).map(|(x, y)| *x - *y).collect();
                let q = dot(w, &d, &matvec(w, &fi, &d));
                w.eq("wald", f.wald_test_against(&a), q);
                let z = w.c(0.0);
                w.eq("likelihood ratio against itself", f.lr_test_against(&b), z);
                w.eq("wald against itself", f.wald_test_against(&b), z);
                let r = f.score_test_against(&a);
                let Some(st) = w.ok("score test", r) else { return };
                let sc = f.score(&a);
                let inv = inv_of(&fi);
                let q = dot(w, &sc, &matvec(w, &inv, &sc));
                w.eq("score", st, q);
            });
        }));
        if c.off && c.int {
            continue;
        }
        // the tests against the null model are the tests at the null coefficients
        scens.push(scen(format!("null {}", c.name()), move |w| {
            if c.fam.opaque() && c.int {
                // the forward link is not modelled
                return w.check("not applicable", true);
            }
            if c.fam.neg() && !c.int {
                return w.check("zero is outside the domain", true);
            }
            let mut sp = spec(w, &c);
            let b = coefs(w, &c, &mut sp);
            at_fit!(w, c, sp, b, |f, o| {
                let mut nul = vec![w.c(0.0); c.k()];
                if c.int {
                    let yb = sum(w, (0..c.n).map(|i| tw(w, &sp, i) * sp.y[i])) / sum_w(w, &sp);
                    nul[0] = c.fam.link(yb);
                }
                w.eq("wald", f.wald_test(), f.wald_test_against(&nul));
                let (x, y) = (f.score_test(), f.score_test_against(&nul));
                if let (Some(x), Some(y)) = (w.ok("score test", x), w.ok("score test against", y)) {
                    w.eq("score", x, y);
                }
                let lb = data_ll(w, &c, &sp, &b) - penalty(w, &c, &sp, &o, &b);
                let l0 = data_ll(w, &c, &sp, &nul);
                w.eq("likelihood ratio", f.lr_test(), w.c(2.0) * (lb - l0));
            });
        }));
    }
    for c in [
        Cfg::new(fam("linear"), 3, 1),
        Cfg { wt: true, fq: Fq::Sym, off: true, ..Cfg::new(fam("linear"), 3, 1) },
        Cfg { std: true, wt: true, xfix: true, ..Cfg::new(fam("linear"), 3, 1) },
        Cfg { n: 2, int: false, std: true, fq: Fq::Sym, ..Cfg::new(fam("linear"), 3, 1) },
    ] {
        scens.push(scen(format!("coincide for linear {}", c.name()), move |w| {
            let mut sp = spec_no_y(w, &c);
            let b = coefs(w, &c, &mut sp);
            stationary_y(w, &c, &mut sp, &b);
            let a = betas(w, &c, "a");
            at_fit!(w, c, sp, b, |f, _o| {
                let lr = f.lr_test_against(&a);
                w.eq("wald = likelihood ratio", f.wald_test_against(&a), lr);
                let r = f.score_test_against(&a);
                let Some(st) = w.ok("score test", r) else { return };
                w.eq("score = likelihood ratio", st, lr);
            });
        }));
    }
    Prop { scens, functions: vec!["Fit::lr_test_against", "Fit::wald_test_against", "Fit::score_test_against", "Fit::lr_test", "Fit::wald_test", "Fit::score_test"], bounds: STAT_BOUNDS.into(), assumptions: vec!["information matrix non-singular", "null model with both intercept and offset: see G23"] }
}
pub fn g23(thorough: bool) -> Prop {
    let mut scens = vec![];
    for f in all() {
        let b = Cfg::new(f, 3, 1);
        let mut vs = vec![
            b,
            Cfg { std: true, wt: true, fq: Fq::Sym, l2: true, xfix: true, ..b },
            Cfg { int: false, std: true, fq: Fq::Sym, l2: true, n: 2, ..b },
            Cfg { int: false, wt: true, off: true, n: 2, ..b },
            Cfg { int: false, wt: true, fq: Fq::Sym, off: true, std: true, l1: true, l2: true, n: 2, ..b },
        ];
        if thorough {
            vs.push(Cfg { n: 4, p: 2, std: true, wt: true, xfix: true, l1: true, ..b });
        }
        for c in vs {
            if f.opaque() && c.int || f.neg() && !c.int && !c.off {
                continue;
            }
            scens.push(scen(format!("null likelihood {}", c.name()), move |w| {
                let mut sp = spec(w, &c);
                if c.fam.neg() && c.off {
                    let z = w.c(0.0);
                    for o in sp.off.as_ref().unwrap() {
                        w.assume(*o, Rel::Lt, z);
                    }
                }
                let b = coefs(w, &c, &mut sp);
                at_fit!(w, c, sp, b, |f, _o| {
                    let mut nul = vec![w.c(0.0); c.k()];
                    if c.int {
                        let yb = sum(w, (0..c.n).map(|i| tw(w, &sp, i) * sp.y[i])) / sum_w(w, &sp);
                        nul[0] = c.fam.link(yb);
                        let sc = data_score(w, &c, &sp, &nul)[0];
                        let z = w.c(0.0);
                        w.eq("stationary in the intercept", sc, z);
                    }
                    let l0 = data_ll(w, &c, &sp, &nul);
                    w.eq("null likelihood", f.null_like(), l0);
                    w.check("tested parameters", f.test_ndf() == c.p);
                });
            }));
        }
        // offset and intercept: the intercept has to be fitted
        if f.opaque() {
            continue;
        }
        let mut vs = vec![Cfg { off: true, wt: true, n: 2, ..b }, Cfg { off: true, fq: Fq::Sym, std: true, l2: true, n: 2, ..b }];
        if thorough {
            vs.push(Cfg { off: true, wt: true, fq: Fq::Sym, l1: true, n: 3, p: 2, xfix: true, ..b });
        }
        for c in vs {
            scens.push(scen(format!("fitted null intercept {}", c.name()), move |w| fitted_null(w, &c)));
        }
    }
    Prop { scens, functions: vec!["Fit::null_model_fit", "Fit::null_like", "Fit::test_ndf", "Fit::wald_test"], bounds: STAT_BOUNDS.into(), assumptions: vec!["intercept and offset together: the nested fit is compared with the intercept-only model built by hand; both are cut off at their starting value in the symbolic run, and run to convergence in the concrete replay"] }
}
fn fitted_null(w: &mut World, c: &Cfg) {
    let mut sp = spec(w, c);
    let b = coefs(w, c, &mut sp);
    let o = opts(w, c);
    let Ok(m) = c.fam.build(&sp) else { return w.fail("builds") };
    let Ok(f) = fit_at(w, &*m, &o, &b) else { return w.fail("fits") };
    let s2 = Spec { x: vec![vec![]; c.n], p: 0, std: false, ..sp.clone() };
    let Ok(m2) = c.fam.build(&s2) else { return w.fail("builds intercept-only") };
    let cut = w.sym;
    w.differs = true;
    if !w.sym {
        let e = w.c(f64::EPSILON);
        w.set_eps(e);
    }
    let stay = |w: &mut World, g: &mut dyn FnMut(&mut World)| {
        if cut {
            w.with_ord(crate::sym::OrdPol::Down, |w| w.with_eqpol(crate::sym::EqPol::Stay, |w| g(w)))
        } else {
            g(w)
        }
    };
    let mut f2 = None;
    stay(w, &mut |_| f2 = Some(m2.fit(&Opts::default())));
    let f2 = match f2.unwrap() {
        Ok(f) => f,
        // the iteration did not converge for this data
        Err(_) => crate::engine::abort_infeasible(),
    };
    let (mut l0, mut wt) = (None, None);
    stay(w, &mut |_| {
        l0 = Some(f.null_like());
        wt = Some(f.wald_test());
    });
    let z = w.c(0.0);
    let mut nul = vec![z; c.k()];
    nul[0] = f2.result()[0];
    let at = data_ll(w, c, &sp, &nul);
    w.eq("null likelihood", l0.unwrap(), f2.model_like());
    w.eq("null likelihood is the likelihood of the null coefficients", l0.unwrap(), at);
    w.eq("wald against the null coefficients", wt.unwrap(), f.wald_test_against(&nul));
    if !w.sym {
        let g = data_score(w, c, &sp, &nul)[0].v;
        let h = gram(w, c, &sp, &nul)[0][0].v;
        // converged: the intercept is optimal
        w.rel("null intercept is optimal", con_abs(g / h.sqrt()), Rel::Le, w.c(1e-3));
    } else {
        w.check("null intercept is optimal", true);
    }
    w.check("tested parameters", f.test_ndf() == c.p);
}
fn con_abs(x: f64) -> S {
    crate::s::con(x.abs())
}
pub fn g24(thorough: bool) -> Prop {
    let mut scens = vec![];
    for c in stat_variants(&all(), thorough, true) {
        scens.push(scen(format!("criteria {}", c.name()), move |w| {
            let mut sp = spec(w, &c);
            let b = coefs(w, &c, &mut sp);
            at_fit!(w, c, sp, b, |f, o| {
                let k = w.c(c.k() as f64);
                let two = w.c(2.0);
                let lw = sum(w, (0..c.n).map(|i| fr(w, &sp, i) * vw(w, &sp, i).o_ln()));
                w.eq("aic", f.aic(), f.deviance() + two * k - two * lw);
                let l = data_ll(w, &c, &sp, &b) - penalty(w, &c, &sp, &o, &b);
                let n = n_obs(w, &sp);
                w.eq("bic", f.bic(), k * n.o_ln() - two * l - two * lw);
                w.eq("ndf", f.ndf(), n - k);
                if let (Some(rss), true) = (f.rss(), c.fam.base() == "linear") {
                    let e = sum(w, (0..c.n).map(|i| {
                        let e = sp.y[i] - mu(w, &c, &sp, &b, i);
                        tw(w, &sp, i) * e * e
                    }));
                    w.eq("rss", rss, e);
                }
            });
        }));
    }
    let l = fam("linear");
    for c in [
        Cfg::new(l, 3, 1),
        Cfg { wt: true, fq: Fq::Sym, ..Cfg::new(l, 3, 1) },
        Cfg { std: true, wt: true, l2: true, xfix: true, ..Cfg::new(l, 3, 1) },
        Cfg { l1: true, l2: true, ..Cfg::new(l, 2, 1) },
        Cfg { l1: true, std: true, fq: Fq::Sym, ..Cfg::new(l, 2, 1) },
        Cfg { int: false, off: true, wt: true, l2: true, ..Cfg::new(l, 2, 1) },
        Cfg { int: false, fq: Fq::Sym, std: true, ..Cfg::new(l, 2, 1) },
    ] {
        scens.push(scen(format!("r squared {}", c.name()), move |w| {
            let mut sp = spec(w, &c);
            let b = coefs(w, &c, &mut sp);
            at_fit!(w, c, sp, b, |f, _o| {
                let mut nul = vec![w.c(0.0); c.k()];
                if c.int {
                    nul[0] = sum(w, (0..c.n).map(|i| tw(w, &sp, i) * sp.y[i])) / sum_w(w, &sp);
                }
                let dv = |w: &World, b: &[S]| sum(w, (0..c.n).map(|i| {
                    let e = sp.y[i] - mu(w, &c, &sp, b, i);
                    tw(w, &sp, i) * e * e
                }));
                let (d, d0) = (dv(w, &b), dv(w, &nul));
                let Some(r) = f.r_sq() else { return w.fail("available for linear models") };
                w.eq("1 - deviance/null deviance", (w.c(1.0) - r) * d0, d);
            });
        }));
    }
    Prop { scens, functions: vec!["Fit::aic", "Fit::bic", "Fit::ndf", "Fit::r_sq", "Fit::rss", "Dataset::n_obs", "Dataset::freq_sum"], bounds: STAT_BOUNDS.into(), assumptions: vec!["the log-likelihood in BIC is the reported (penalised) one"] }
}
pub fn g25(thorough: bool) -> Prop {
    let mut scens = vec![];
    for c in stat_variants(&all(), thorough, true) {
        scens.push(scen(format!("predict {}", c.name()), move |w| {
            let mut sp = spec(w, &c);
            let b = coefs(w, &c, &mut sp);
            at_fit!(w, c, sp, b, |f, _o| {
                let p = f.predict(&sp.x, sp.p, sp.off.as_deref(), Layout::C);
                let r = f.resid_resp();
                w.check("one prediction per row", p.len() == c.n);
                for i in 0..c.n {
                    w.eq(&format!("training row {i}"), p[i], sp.y[i] - r[i]);
                    w.eq(&format!("mean of row {i}"), p[i], mu(w, &c, &sp, &b, i));
                }
                // new rows
                for (rows, off, lay) in [(2, true, Layout::F), (1, false, Layout::C), (2, false, Layout::Reversed), (2, true, Layout::Strided)] {
                    let tag = format!("{rows}{off}{lay:?}");
                    let x: Vec<Vec<S>> = (0..rows).map(|i| (0..c.p).map(|j| w.real(&format!("xn{tag}{i}{j}"))).collect()).collect();
                    let o: Option<Vec<S>> = if off { Some((0..rows).map(|i| w.real(&format!("on{tag}{i}"))).collect()) } else { None };
                    let zero = w.c(0.0);
                    let oms: Vec<S> = (0..rows).map(|i| {
                        let mut r = if c.int { vec![w.c(1.0)] } else { vec![] };
                        r.extend(x[i].iter().cloned());
                        dot(w, &r, &b) + o.as_ref().map(|o| o[i]).unwrap_or(zero)
                    }).collect();
                    if c.fam.neg() {
                        for om in &oms {
                            w.assume(*om, Rel::Lt, zero);
                        }
                    }
                    let p = f.predict(&x, c.p, o.as_deref(), lay);
                    w.check("one prediction per new row", p.len() == rows);
                    for i in 0..rows {
                        w.eq(&format!("new row {tag} {i}"), p[i], c.fam.mean(oms[i]));
                    }
                }
            });
        }));
    }
    Prop { scens, functions: vec!["Fit::predict", "Fit::new", "Glm::mean", "one_pad", "Standardizer::inverse_transform_beta"], bounds: STAT_BOUNDS.into(), assumptions: vec![] }
}
