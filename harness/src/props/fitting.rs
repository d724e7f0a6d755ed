//! G04-G06: the iteration itself.  The linear solver's answers are arbitrary vectors ("havoc"), so
//! every sequence of iterates is covered; comparisons of likelihoods and tolerances fork.
use super::Prop;
use super::common::*;
use crate::engine::*;
use crate::fam::*;
use crate::s::S;
use crate::scalar::Core;
use crate::smt::Rel;
use crate::sym::{EqPol, OrdPol};

#[derive(Clone, Copy, PartialEq)]
enum What {
    Best,
    Ascent,
    Budget,
}
fn like_at(w: &mut World, c: &Cfg, sp: &Spec, o: &Opts, g: &[S]) -> S {
    let l = data_ll(w, c, sp, g);
    l - penalty(w, c, sp, o, g)
}
fn entries(w: &mut World, c: &Cfg, sp: &Spec, o: &Opts, h: &[(Vec<S>, S)]) {
    for (i, (g, l)) in h.iter().enumerate() {
        let e = like_at(w, c, sp, o, g);
        w.eq(&format!("history[{i}] likelihood"), *l, e);
    }
}
fn ascending(w: &mut World, c: &Cfg, sp: &Spec, o: &Opts, b: &[S], h: &[(Vec<S>, S)], outs: &[S]) {
    let mut last = like_at(w, c, sp, o, b);
    let mut from = b.to_vec();
    let k = c.k();
    for (i, (g, l)) in h.iter().enumerate() {
        w.rel(&format!("step {i} improves"), *l, Rel::Gt, last);
        let e = like_at(w, c, sp, o, g);
        w.eq(&format!("step {i} likelihood is its own"), *l, e);
        if k == 2 && !c.std {
            let s: Vec<S> = outs[i * k..(i + 1) * k].to_vec();
            let cross = (g[0] - from[0]) * (s[1] - from[1]) - (g[1] - from[1]) * (s[0] - from[0]);
            let z = w.c(0.0);
            w.eq(&format!("step {i} stays on the line"), cross, z);
        }
        last = *l;
        from = g.clone();
    }
}
fn explore(what: What, c: Cfg, m: usize, lo: (i64, i64), user_init: bool) -> Scenario {
    explore_tol(what, c, m, lo, false, user_init)
}
fn explore_tol(what: What, c: Cfg, m: usize, lo: (i64, i64), exact_tol: bool, user_init: bool) -> Scenario {
    let nm = format!("explore {} budget={m}{} tol{}={}/{}{}", c.name(), if exact_tol { " repeating" } else { "" }, if exact_tol { "" } else { ">" }, lo.0, lo.1, if user_init { "" } else { " default start" });
    let mut s = scen(nm, move |w| {
        let sp = if c.xfix {
            // data (and start and penalty, when given) are fixed numbers: tolerance and all iterates stay symbolic
            let y = (0..c.n).map(|i| w.q([3, 1][i % 2], [2, 4][i % 2])).collect();
            spec_with(w, &c, y)
        } else {
            spec(w, &c)
        };
        let mut o = opts(w, &c);
        let q = w.q(lo.0, lo.1);
        o.tol = Some(if exact_tol { q } else { w.pos("tol") + q });
        o.max_iter = Some(m);
        let Ok(md) = c.fam.build(&sp) else { return w.fail("builds") };
        let mut b = if user_init { betas(w, &c, "b") } else { vec![] };
        if c.xfix && user_init {
            // the second start makes the first L1 subiterations unconditional
            b = vec![if exact_tol { w.q(2, 1) } else { w.q(1, 2) }; c.k()];
            o.l1 = Some(w.q(1, 4));
        }
        if user_init {
            signs(w, &c, &sp, &b, 2);
            o.init = Some(b.clone());
        }
        w.set_havoc();
        let r = if exact_tol {
            // after as many steps as the budget allows, the solver repeats its point
            w.with_eqpol(EqPol::StayAfter((m * c.k()) as u32), |_| md.fit(&o))
        } else {
            md.fit(&o)
        };
        let outs = w.solver_outputs();
        match r {
            Ok(f) => {
                let h = f.history();
                match what {
                    What::Best => {
                        entries(w, &c, &sp, &o, &h);
                        let res = f.result();
                        let e = like_at(w, &c, &sp, &o, &res);
                        w.eq("reported likelihood is that of the reported coefficients", f.model_like(), e);
                        if h.is_empty() {
                            if user_init {
                                w.eqv("the starting point is reported", &res, &b);
                            }
                        } else {
                            let d = |g: &Vec<S>| g.iter().zip(&res).map(|(x, y)| (x.shadow() - y.shadow()).abs()).sum::<f64>();
                            let j = (0..h.len()).min_by(|i, j| d(&h[*i].0).total_cmp(&d(&h[*j].0))).unwrap();
                            w.eqv("result is a history entry", &res, &h[j].0);
                            for (i, e) in h.iter().enumerate() {
                                w.ge(&format!("no worse than history[{i}]"), f.model_like(), e.1);
                            }
                        }
                    }
                    What::Ascent => ascending(w, &c, &sp, &o, &b, &h, &outs),
                    What::Budget => {
                        w.check("count is the history length", f.n_iter() == h.len());
                        w.check("within budget", f.n_iter() <= m);
                        w.check("options kept", f.opts().0 == m);
                    }
                }
                w.check("success", true);
            }
            Err(Er::MaxIter(n, h)) => {
                match what {
                    What::Best => entries(w, &c, &sp, &o, &h),
                    What::Ascent => ascending(w, &c, &sp, &o, &b, &h, &outs),
                    What::Budget => {
                        w.check("reported budget", n == m);
                        w.check("history present", h.len() >= m && !h.is_empty());
                        entries(w, &c, &sp, &o, &h);
                    }
                }
                w.check("iteration limit", true);
            }
            Err(e) => w.fail(&format!("unexpected {e:?}")),
        }
    });
    s.max_paths = if exact_tol { 400 } else { 6000 };
    s.weight = 4 * m + if lo.0 == 1 && lo.1 > 1 { 8 } else { 0 } + c.k();
    s
}
fn configs(l1: bool, thorough: bool) -> Vec<Cfg> {
    let mut v = vec![];
    let mut p = |f: &str, n: usize, p: usize, g: &dyn Fn(&mut Cfg)| {
        let mut c = Cfg::new(fam(f), n, p);
        g(&mut c);
        v.push(c);
    };
    p("linear", 2, 1, &|_| ());
    p("linear", 2, 2, &|c| (c.int, c.l2, c.off) = (false, true, true));
    p("linear", 2, 1, &|c| (c.l2, c.std) = (true, true));
    p("linear", 2, 1, &|c| (c.std, c.wt) = (true, true));
    p("linear", 2, 1, &|c| (c.int, c.l2, c.std, c.fq) = (false, true, true, Fq::Fix(&[2, 1])));
    p("poisson", 2, 1, &|c| c.l2 = true);
    p("gamma-log", 2, 1, &|c| c.wt = true);
    p("poisson-anylink", 2, 1, &|c| (c.l2, c.off) = (true, true));
    p("poisson-anylink", 2, 1, &|c| c.int = false);
    p("linear", 2, 1, &|c| (c.int, c.l2, c.off, c.wt) = (false, true, true, true));
    p("exponential-anylink", 2, 1, &|c| (c.std, c.l2) = (true, true));
    if l1 {
        p("linear", 2, 1, &|c| (c.int, c.l1) = (false, true));
        p("linear", 2, 1, &|c| (c.int, c.l1, c.l2, c.std) = (false, true, true, true));
        p("linear", 2, 1, &|c| c.l1 = true);
        p("poisson", 2, 1, &|c| (c.int, c.l1) = (false, true));
        p("gamma-anylink", 2, 1, &|c| (c.int, c.l1, c.l2) = (false, true, true));
    }
    if thorough {
        p("logistic-anylink", 2, 1, &|c| c.int = false);
        p("logistic", 2, 1, &|c| c.int = false);
        p("binomial3", 2, 1, &|c| c.int = false);
        p("linear", 3, 2, &|c| (c.l2, c.off, c.wt) = (true, true, true));
        p("invgauss-log", 2, 1, &|c| c.l2 = true);
        p("exponential-log", 2, 1, &|c| c.std = true);
        if l1 {
            p("linear", 3, 2, &|c| c.l1 = true);
            p("poisson", 2, 1, &|c| (c.l1, c.std, c.wt) = (true, true, true));
        }
    }
    v
}
const BOUNDS: &str = "n=2 observations (thorough: 3), p<=2; every sequence of linear-solver answers (the solver is an unconstrained vector), every outcome of every likelihood and tolerance comparison; iteration budgets 0..2 (thorough: 3), tolerance symbolic >= 1/4 (up to 3 step halvings) or >= 1 (no halving); L1: budgets 1..2";
const FUNCS: [&str; 10] = ["Glm::regression", "Irls::next", "Irls::step_with", "Irls::make_last_step", "step_scale", "small_delta", "small_delta_vec", "Lasso/ElasticNet::prepare, terminate_ok, irls_like", "Fit::new", "Standardizer"];
fn build(what: What, thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    for c in configs(what != What::Ascent, thorough) {
        let opaque = c.fam.opaque();
        if c.l1 {
            if !c.std || thorough {
                v.push(explore(what, c, 1, (1, 1), true));
            }
            if c.k() == 1 && c.fam.name() == "linear" && !c.std {
                let mut c = c;
                c.xfix = true;
                v.push(explore(what, c, 2, (1, 1), true));
                v.push(explore_tol(what, c, 2, (1, 4), true, true));
                v.push(explore_tol(what, c, 3, (1, 4), true, true));
                v.push(explore(what, c, 1, (1, 1), false));
            }
            if thorough && c.k() == 1 {
                v.push(explore(what, c, 2, (1, 1), opaque));
            }
            continue;
        }
        v.push(explore(what, c, 0, (1, 4), true));
        v.push(explore(what, c, 1, if c.k() == 1 && !c.std && !c.wt || thorough { (1, 4) } else { (1, 1) }, true));
        if !c.std || thorough {
            v.push(explore(what, c, 2, (1, 1), true));
        }
        if what != What::Ascent && !opaque {
            v.push(explore(what, c, 1, (1, 1), false));
        }
        if thorough {
            v.push(explore(what, c, 2, (1, 4), true));
            v.push(explore(what, c, 3, (1, 1), true));
        }
    }
    v
}
pub fn g04(thorough: bool) -> Prop {
    let scens = build(What::Best, thorough);
    Prop { scens, functions: FUNCS.to_vec(), bounds: BOUNDS.into(), assumptions: vec!["the linear solver's answers are over-approximated by arbitrary vectors, which covers every history"] }
}
pub fn g05(thorough: bool) -> Prop {
    let scens = build(What::Ascent, thorough);
    Prop { scens, functions: FUNCS.to_vec(), bounds: BOUNDS.into(), assumptions: vec!["the linear solver's answers are over-approximated by arbitrary vectors, which covers every history"] }
}
pub fn g06(thorough: bool) -> Prop {
    let mut scens = build(What::Budget, thorough);
    // prescribed convergence behaviour: the solver keeps moving for `k` steps and then repeats its point
    for c in configs(false, thorough) {
        for (k, m) in [(0, 0), (1, 0), (1, 1), (2, 1), (2, 2), (3, 2), (3, 3), (4, 3)] {
            scens.push(scen(format!("converges after {k} of {m} {}", c.name()), move |w| {
                let sp = spec(w, &c);
                let mut o = opts(w, &c);
                o.max_iter = Some(m);
                o.tol = Some(w.c(0.0));
                let Ok(md) = c.fam.build(&sp) else { return w.fail("builds") };
                let b = betas(w, &c, "b");
                signs(w, &c, &sp, &b, 2);
                o.init = Some(b.clone());
                w.set_havoc();
                let g = (k * c.k()) as u32;
                let r = w.with_ord(OrdPol::Up, |w| w.with_eqpol(EqPol::StayAfter(g), |_| md.fit(&o)));
                match r {
                    Ok(f) => {
                        w.check("success only within the budget", k <= m);
                        w.check("all steps counted", f.n_iter() == k && f.history().len() == k);
                    }
                    Err(Er::MaxIter(n, h)) => {
                        w.check("error only beyond the budget", k > m);
                        w.check("reported budget", n == m);
                        w.check("history present", h.len() >= m && !h.is_empty());
                        entries(w, &c, &sp, &o, &h);
                        // the visited coefficients, in the user's coordinates
                        if !c.std {
                            let outs = w.solver_outputs();
                            for (i, (g, _)) in h.iter().enumerate() {
                                w.eqv(&format!("history[{i}]"), g, &outs[i * c.k()..(i + 1) * c.k()]);
                            }
                        }
                    }
                    Err(e) => w.fail(&format!("unexpected {e:?}")),
                }
            }));
        }
    }
    Prop { scens, functions: FUNCS.to_vec(), bounds: BOUNDS.into(), assumptions: vec!["the linear solver's answers are over-approximated by arbitrary vectors, which covers every history"] }
}
