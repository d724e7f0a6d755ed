//! G15: the alternating-direction iteration for the L1 penalty.
use super::Prop;
use super::common::*;
use crate::engine::*;
use crate::fam::*;
use crate::s::S;
use crate::scalar::Core;
use crate::smt::Rel;
use crate::sym::Dom;

/// soft threshold, by its definition
fn soft(w: &World, x: S, t: S) -> S {
    if x > t {
        x - t
    } else if x < t.o_neg() {
        x + t
    } else {
        w.c(0.0)
    }
}
/// what the documented iteration holds after each update: split copy, scaled cumulative residual
struct Ref {
    z: Vec<S>,
    u: Vec<S>,
    rho: Option<S>,
    l1: Vec<S>,
    l2: Vec<S>,
    rr: S,
    ss: S,
}
impl Ref {
    fn new(w: &World, c: &Cfg, o: &Opts) -> Ref {
        let zero = w.c(0.0);
        let k = c.k();
        let per = |l: Option<S>| (0..k).map(|j| if c.int && j == 0 { zero } else { l.unwrap_or(zero) }).collect::<Vec<_>>();
        Ref { z: vec![zero; k], u: vec![zero; k], rho: None, l1: per(o.l1), l2: per(o.l2), rr: zero, ss: zero }
    }
    /// after the library updated its state at `b`: the same update here, with the step size it chose
    fn follow(&mut self, w: &mut World, tag: &str, reg: &dyn RegApi, b: &[S]) {
        let k = b.len();
        let zero = w.c(0.0);
        let m = reg.mat(b);
        let rho = m[0][0] - self.l2[0];
        w.rel(&format!("{tag}: step size is positive"), rho, Rel::Gt, zero);
        for i in 0..k {
            for j in 0..k {
                let want = if i == j { rho + self.l2[i] } else { zero };
                w.eq(&format!("{tag}: curvature [{i}][{j}]"), m[i][j], want);
            }
        }
        // rho times the cumulative residual is what a change of step size keeps
        if let Some(old) = self.rho {
            for u in self.u.iter_mut() {
                *u = *u * old / rho;
            }
        }
        let (mut rr, mut ss) = (zero, zero);
        let v = reg.vec(b);
        for j in 0..k {
            let x = b[j] + self.u[j];
            let z = soft(w, x, self.l1[j] / rho);
            let u = x - z;
            let (r, s) = (b[j] - z, rho * (z - self.z[j]));
            rr = rr + r * r;
            ss = ss + s * s;
            self.z[j] = z;
            self.u[j] = u;
            w.eq(&format!("{tag}: pull {j}"), v[j], rho * (z - u));
            // the multiplier is a subgradient of the penalty at the split copy
            w.ge(&format!("{tag}: multiplier {j} bounded"), self.l1[j] * self.l1[j], rho * u * rho * u);
            if z > zero {
                w.eq(&format!("{tag}: multiplier {j} at a positive coefficient"), rho * u, self.l1[j]);
            } else if z < zero {
                w.eq(&format!("{tag}: multiplier {j} at a negative coefficient"), rho * u, self.l1[j].o_neg());
            }
        }
        self.rho = Some(rho);
        (self.rr, self.ss) = (rr, ss);
    }
    fn like(&self, w: &World, x: &[S]) -> S {
        let h = w.c(0.5);
        let mut r = w.c(0.0);
        for j in 0..x.len() {
            let d = x[j] - self.z[j] + self.u[j];
            r = r - h * self.rho.unwrap() * d * d - h * self.l2[j] * x[j] * x[j];
        }
        r
    }
    fn done(&self, w: &mut World, tag: &str, reg: &dyn RegApi, tol: S) {
        if reg.done(tol) {
            let lim = w.c(self.z.len() as f64) * tol;
            w.ge(&format!("{tag}: primal residual within tolerance"), lim, self.rr);
            w.ge(&format!("{tag}: dual residual within tolerance"), lim, self.ss);
        }
    }
}
/// any single-row model gives access to the regulariser; rows do not matter to it
fn model(w: &mut World, c: &Cfg) -> (Opts, Box<dyn ModelApi>) {
    let sp = spec(w, c);
    let mut o = Opts { l1: Some(w.pos("lam1")), ..Default::default() };
    if c.l2 {
        o.l2 = Some(w.pos("lam2"));
    }
    (o, c.fam.build(&sp).ok().unwrap())
}
fn matrix(w: &mut World, k: usize) -> Vec<Vec<S>> {
    let mut h = vec![vec![w.c(0.0); k]; k];
    for i in 0..k {
        for j in 0..=i {
            let v = if i == j { w.pos(&format!("h{i}{i}")) } else { w.real(&format!("h{i}{j}")) };
            h[i][j] = v;
            h[j][i] = v;
        }
    }
    h
}
/// after any sequence of coefficients, the state is that of the documented iteration
fn states(c: Cfg, m: usize) -> Scenario {
    let mut s = scen(format!("state after {m} updates {}", c.name()), move |w| {
        let (o, md) = model(w, &c);
        let mut reg = md.reg(&o, c.k());
        let mut st = Ref::new(w, &c, &o);
        let tol = w.pos("tol");
        for t in 0..m {
            let b = w.vars(&format!("b{t}_"), c.k(), Dom::Real);
            reg.prepare(&b);
            st.follow(w, &format!("update {t}"), &*reg, &b);
        }
        st.done(w, "convergence", &*reg, tol);
        let x = w.vars("x", c.k(), Dom::Real);
        let l = st.like(w, &x);
        w.eq("augmented penalty", reg.like(&x), l);
    });
    s.max_paths = 6000;
    s.weight = 2 * m + c.k();
    s
}
/// the step solves the augmented equations
fn steps(c: Cfg, m: usize) -> Scenario {
    let mut s = scen(format!("step after {m} updates {}", c.name()), move |w| {
        let (o, md) = model(w, &c);
        let mut reg = md.reg(&o, c.k());
        let mut st = Ref::new(w, &c, &o);
        for t in 0..m {
            let b = w.vars(&format!("b{t}_"), c.k(), Dom::Real);
            reg.prepare(&b);
            st.follow(w, &format!("update {t}"), &*reg, &b);
        }
        let k = c.k();
        let h = matrix(w, k);
        let b = w.vars("b", k, Dom::Real);
        let v = w.vars("v", k, Dom::Real);
        let Ok(n) = reg.next(&b, &v, &h) else { return w.fail("step") };
        st.follow(w, "step", &*reg, &b);
        let hn = matvec(w, &h, &n);
        for j in 0..k {
            let l = hn[j] + (st.rho.unwrap() + st.l2[j]) * n[j];
            let r = v[j] + st.rho.unwrap() * (st.z[j] - st.u[j]);
            w.eq(&format!("augmented equation {j}"), l, r);
        }
    });
    s.max_paths = 6000;
    s.weight = 2 * m + c.k() + 2;
    s
}
/// where the optimality conditions hold, the iteration stays however the step size adapts
fn stays(c: Cfg, m: usize) -> Scenario {
    let mut s = scen(format!("optimum is kept for {m} steps {}", c.name()), move |w| {
        let (o, md) = model(w, &c);
        let mut reg = md.reg(&o, c.k());
        let mut st = Ref::new(w, &c, &o);
        let k = c.k();
        // a coefficient vector z together with a subgradient rho*u of the penalty at it
        let b = w.vars("b0_", k, Dom::Real);
        reg.prepare(&b);
        st.follow(w, "start", &*reg, &b);
        let z = st.z.clone();
        let h = matrix(w, k);
        let hz = matvec(w, &h, &z);
        let v: Vec<S> = (0..k).map(|j| hz[j] + st.l2[j] * z[j] + st.rho.unwrap() * st.u[j]).collect();
        for t in 0..m {
            let Ok(n) = reg.next(&z, &v, &h) else { return w.fail("step") };
            w.eqv(&format!("step {t} stays"), &n, &z);
        }
        let tol = w.pos("tol");
        if m >= 2 {
            w.check("converged", reg.done(tol));
        }
    });
    s.max_paths = 4000;
    s.weight = 2 * m + c.k();
    s
}
/// a square model whose data score at `b` is `g`
fn data_for(w: &mut World, c: &Cfg, b: &[S], g: &[S]) -> Spec {
    let mut sp = spec_no_y(w, c);
    let x: Vec<Vec<S>> = (0..c.n).map(|i| xrow(w, &sp, i)).collect();
    let xt: Vec<Vec<S>> = (0..c.n).map(|j| (0..c.n).map(|i| x[i][j]).collect()).collect();
    let xti = inv_of(&xt);
    for i in 0..c.n {
        sp.y[i] = dot(w, &x[i], b) + dot(w, &xti[i], g);
    }
    sp
}
/// whole fits: the first step is the augmented Fisher-scoring step of this data
fn wired(c: Cfg) -> Scenario {
    let mut s = scen(format!("first step {}", c.name()), move |w| {
        let mut sp = spec(w, &c);
        let b = coefs_pat(w, &c, &mut sp, 2 | FORCE);
        let o = Opts { l1: Some(w.pos("lam1")), l2: if c.l2 { Some(w.pos("lam2")) } else { None }, ..Default::default() };
        let Ok(md) = c.fam.build(&sp) else { return w.fail("builds") };
        let mut st = Ref::new(w, &c, &o);
        let mut reg = md.reg(&o, c.k());
        reg.prepare(&b);
        st.follow(w, "start", &*reg, &b);
        // with a zero tolerance the first step is always taken, and it exhausts the budget
        let o = Opts { tol: Some(w.c(0.0)), max_iter: Some(0), init: Some(b.clone()), ..o };
        let Err(Er::MaxIter(_, h)) = md.fit(&o) else { return w.fail("one step") };
        let n = &h[0].0;
        let info = gram(w, &c, &sp, &b);
        let g = data_score(w, &c, &sp, &b);
        let rho = st.rho.unwrap();
        for j in 0..c.k() {
            let d: Vec<S> = (0..c.k()).map(|i| n[i] - b[i]).collect();
            let l = dot(w, &info[j], &d) + (rho + st.l2[j]) * n[j];
            let r = g[j] + rho * (st.z[j] - st.u[j]);
            w.eq(&format!("augmented equation {j}"), l, r);
        }
    });
    s.max_paths = 400;
    s.weight = 6;
    s
}
/// whole fits: a step that goes nowhere while the split copy still differs is not convergence
fn not_yet(c: Cfg) -> Scenario {
    let mut s = scen(format!("no early success {}", c.name()), move |w| {
        let (o, md) = model(w, &c);
        let b = w.vars("b0_", c.k(), Dom::Real);
        let mut st = Ref::new(w, &c, &o);
        let mut reg = md.reg(&o, c.k());
        reg.prepare(&b);
        st.follow(w, "start", &*reg, &b);
        let rho = st.rho.unwrap();
        let g: Vec<S> = (0..c.k()).map(|j| st.l2[j] * b[j] + rho * (b[j] - st.z[j] + st.u[j])).collect();
        let tol = w.pos("tol");
        let lim = w.c(c.k() as f64) * tol;
        w.assume(st.rr, Rel::Gt, lim);
        let sp = data_for(w, &c, &b, &g);
        let Ok(md) = c.fam.build(&sp) else { return w.fail("builds") };
        let o = Opts { tol: Some(tol), max_iter: Some(0), init: Some(b), ..o };
        w.check("not reported as converged", matches!(md.fit(&o), Err(Er::MaxIter(..))));
    });
    s.max_paths = 400;
    s.weight = 6;
    s
}
pub fn g15(thorough: bool) -> Prop {
    let mut scens = vec![];
    let cfg = |p: usize, int: bool, l2: bool| {
        let mut c = Cfg::new(fam("linear"), 1, p);
        (c.int, c.l2, c.l1) = (int, l2, true);
        c
    };
    for l2 in [false, true] {
        for (p, int) in [(1, false), (1, true), (2, false), (2, true)] {
            let c = cfg(p, int, l2);
            let t = thorough as usize;
            let (st, sp, keep) = match (p, int) {
                (1, false) => (2 + t, 1 + t, 3 + t),
                (1, true) => (1 + t, t, 3 + t),
                _ => (1 + t, t, 2 + t),
            };
            if p == 2 && int && !thorough {
                continue;
            }
            {
                let mut c = c;
                c.n = c.k();
                c.xfix = true;
                if c.k() == 1 || thorough {
                    scens.push(not_yet(c));
                }
            }
            for m in 1..=st {
                scens.push(states(c, m));
            }
            for m in 0..=sp {
                scens.push(steps(c, m));
            }
            for m in 1..=keep {
                scens.push(stays(c, m));
            }
        }
    }
    for (f, n, p, int) in [("linear", 2, 1, true), ("poisson", 2, 1, true), ("logistic", 2, 1, false), ("gamma-log", 2, 1, false), ("exponential", 2, 1, true), ("linear", 3, 2, true)] {
        for (l2, wt, off) in [(false, true, false), (true, false, true)] {
            let mut c = Cfg::new(fam(f), n, p);
            (c.int, c.l2, c.l1, c.wt, c.off) = (int, l2, true, wt, off || c.fam.neg());
            if c.k() < 3 || thorough {
                scens.push(wired(c));
            }
        }
    }
    Prop {
        scens,
        functions: vec!["Irls::new, get_reg, zero_first_maybe", "Lasso/ElasticNet::prepare, update_rho, irls_vec, irls_mat, irls_like, next_guess, terminate_ok", "soft_thresh"],
        bounds: "1 or 2 coefficients with and without an unpenalised intercept (thorough: 3); lasso and elastic net; every state reachable by up to 2 updates (thorough: 3) from arbitrary coefficients, every branch; arbitrary positive definite curvature, right-hand side, penalty weights and tolerance; optimum kept for up to 3 (thorough: 4) steps; whole fits: first step for 5 families, early success for linear".into(),
        assumptions: vec!["the split copy and cumulative residual are those determined by the library's own pull and step size (rho (z - u)); the optimality conditions follow from the decided multiplier bounds, the augmented equations and the kept optimum"],
    }
}
