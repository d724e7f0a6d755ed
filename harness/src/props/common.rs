//! Shared model generators.
use crate::engine::World;
use crate::fam::*;
use crate::s::S;
use crate::scalar::Core;
use crate::smt::Rel;
use crate::sym::{Dom, EqPol, OrdPol};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fq {
    None,
    /// arbitrary positive reals (superset of the positive integers)
    Sym,
    Fix(&'static [usize]),
}
#[derive(Clone, Copy)]
pub struct Cfg {
    pub fam: Fam,
    pub n: usize,
    pub p: usize,
    pub int: bool,
    pub std: bool,
    pub wt: bool,
    pub fq: Fq,
    pub off: bool,
    pub l1: bool,
    pub l2: bool,
    /// design matrix entries are fixed rationals instead of symbols
    pub xfix: bool,
    /// variance weights are fixed rationals instead of symbols
    pub wfix: bool,
    pub layout: Layout,
    /// the scalar's machine epsilon is an arbitrary small positive number instead of zero
    pub eps: bool,
}
impl Cfg {
    pub fn new(fam: Fam, n: usize, p: usize) -> Cfg {
        Cfg { fam, n, p, int: true, std: false, wt: false, fq: Fq::None, off: false, l1: false, l2: false, xfix: false, wfix: false, layout: Layout::C, eps: false }
    }
    pub fn k(&self) -> usize {
        self.p + self.int as usize
    }
    pub fn name(&self) -> String {
        let mut s = format!("{} n={} p={}", self.fam.name(), self.n, self.p);
        for (b, t) in [(self.int, "int"), (self.std, "std"), (self.wt, "wt"), (self.off, "off"), (self.l1, "l1"), (self.l2, "l2"), (self.xfix, "xfix"), (self.wfix, "wfix"), (self.eps, "eps")] {
            if b {
                s.push(' ');
                s.push_str(t);
            }
        }
        match self.fq {
            Fq::None => {}
            Fq::Sym => s.push_str(" freq"),
            Fq::Fix(f) => s.push_str(&format!(" freq={f:?}")),
        }
        if self.layout != Layout::C {
            s.push_str(&format!(" {:?}", self.layout));
        }
        s
    }
}
/// fixed design entries: generic small rationals, no coincidences
pub const XF: [[(i64, i64); 3]; 6] = [
    [(1, 2), (-1, 3), (2, 1)],
    [(-3, 4), (5, 2), (1, 5)],
    [(7, 3), (1, 1), (-1, 2)],
    [(0, 1), (-2, 1), (4, 3)],
    [(-1, 1), (3, 5), (-5, 4)],
    [(5, 4), (1, 4), (1, 1)],
];
pub fn xf(i: usize, j: usize) -> (i64, i64) {
    if i < 6 && j < 3 {
        return XF[i][j];
    }
    // further generic entries
    let k = (i * 7 + j * 5 + i * j * 3) as i64;
    ((k * 37 + 11) % 19 - 9, [8, 9, 10, 11, 13][(k % 5) as usize])
}
pub fn data_x(w: &mut World, c: &Cfg, tag: &str) -> Vec<Vec<S>> {
    (0..c.n)
        .map(|i| {
            (0..c.p)
                .map(|j| {
                    if c.xfix {
                        let (a, b) = xf(i, j);
                        w.q(a, b)
                    } else {
                        w.real(&format!("x{tag}{i}{j}"))
                    }
                })
                .collect()
        })
        .collect()
}
pub fn spec(w: &mut World, c: &Cfg) -> Spec {
    let y = w.vars("y", c.n, c.fam.ydom());
    spec_with(w, c, y)
}
pub fn spec_with(w: &mut World, c: &Cfg, y: Vec<S>) -> Spec {
    if c.eps {
        let e = w.var("eps", Dom::In(0.0, 0.00390625));
        w.set_eps(e);
    }
    let x = data_x(w, c, "");
    let wt = if c.wt {
        const WF: [(i64, i64); 8] = [(1, 2), (3, 1), (5, 4), (2, 3), (7, 5), (1, 3), (2, 1), (3, 4)];
        Some(if c.wfix { (0..c.n).map(|i| w.q(WF[i].0, WF[i].1)).collect() } else { w.vars("w", c.n, Dom::Pos) })
    } else {
        None
    };
    let f = match c.fq {
        Fq::None => None,
        Fq::Sym => Some(freqs(w, "f", c.n)),
        Fq::Fix(k) => Some((0..c.n).map(|i| w.c(k[i] as f64)).collect()),
    };
    let off = if c.off { Some(w.vars("o", c.n, Dom::Real)) } else { None };
    let sp = Spec { y, x, p: c.p, w: wt, f, off, int: c.int, std: c.std, layout: c.layout };
    if c.std && c.n > 1 {
        neff_gt1(w, &sp);
    }
    sp
}
/// the documented precondition of standardisation: effective sample size above one
pub fn neff_gt1(w: &mut World, sp: &Spec) {
    let one = w.c(1.0);
    let ne = n_eff(w, sp);
    w.assume(ne, Rel::Gt, one);
}
pub fn tw(w: &World, sp: &Spec, i: usize) -> S {
    let mut r = w.c(1.0);
    if let Some(v) = &sp.w {
        r = r * v[i];
    }
    if let Some(v) = &sp.f {
        r = r * v[i];
    }
    r
}
pub fn fr(w: &World, sp: &Spec, i: usize) -> S {
    sp.f.as_ref().map(|v| v[i]).unwrap_or(w.c(1.0))
}
pub fn vw(w: &World, sp: &Spec, i: usize) -> S {
    sp.w.as_ref().map(|v| v[i]).unwrap_or(w.c(1.0))
}
pub fn sum(w: &World, it: impl Iterator<Item = S>) -> S {
    it.fold(w.c(0.0), |a, b| a + b)
}
pub fn n_obs(w: &World, sp: &Spec) -> S {
    sum(w, (0..sp.y.len()).map(|i| fr(w, sp, i)))
}
/// (sum f w)^2 / sum f w^2
pub fn n_eff(w: &World, sp: &Spec) -> S {
    if sp.w.is_none() {
        return n_obs(w, sp);
    }
    let a = sum(w, (0..sp.y.len()).map(|i| tw(w, sp, i)));
    let b = sum(w, (0..sp.y.len()).map(|i| fr(w, sp, i) * vw(w, sp, i) * vw(w, sp, i)));
    a * a / b
}
pub fn sum_w(w: &World, sp: &Spec) -> S {
    sum(w, (0..sp.y.len()).map(|i| tw(w, sp, i)))
}
pub fn freqs(w: &mut World, name: &str, n: usize) -> Vec<S> {
    w.vars(name, n, Dom::Count)
}
/// design row in the user's coordinates, with the leading one
pub fn xrow(w: &World, sp: &Spec, i: usize) -> Vec<S> {
    let mut r = vec![];
    if sp.int {
        r.push(w.c(1.0));
    }
    r.extend(sp.x[i].iter().cloned());
    r
}
pub fn dot(w: &World, a: &[S], b: &[S]) -> S {
    sum(w, a.iter().zip(b).map(|(x, y)| *x * *y))
}
pub fn omega(w: &World, sp: &Spec, b: &[S], i: usize) -> S {
    let mut o = dot(w, &xrow(w, sp, i), b);
    if let Some(off) = &sp.off {
        o = o + off[i];
    }
    o
}
/// the scale of feature j on the internal scale (one without standardisation)
pub fn feat_scale(w: &World, sp: &Spec, j: usize) -> S {
    let n = sp.y.len();
    if !sp.std || n <= 1 {
        return w.c(1.0);
    }
    let sw = sum_w(w, sp);
    let mean = sum(w, (0..n).map(|i| tw(w, sp, i) * sp.x[i][j])) / sw;
    let ss = sum(w, (0..n).map(|i| {
        let d = sp.x[i][j] - mean;
        tw(w, sp, i) * d * d
    })) / sw;
    let ne = n_eff(w, sp);
    let v = ss * (ne / (ne - w.c(1.0)));
    if !w.sym && v.v != 0.0 && v.v < 1e-20 * (1.0 + (mean * mean).v) {
        // numerically constant features are neither constant nor not
        crate::engine::abort_infeasible();
    }
    // a constant feature is not rescaled
    if v.eqv(w.c(0.0)) { w.c(1.0) } else { v.o_sqrt() }
}
pub fn betas(w: &mut World, c: &Cfg, name: &str) -> Vec<S> {
    w.vars(name, c.k(), Dom::Real)
}
/// the linear predictor stays inside the family's domain at these coefficients
pub fn in_domain(w: &mut World, c: &Cfg, sp: &Spec, b: &[S]) {
    let z = w.c(0.0);
    for i in 0..c.n {
        let o = omega(w, sp, b, i);
        if c.fam.neg() {
            w.assume(o, Rel::Lt, z);
        }
    }
}
/// Offsets chosen so that the linear predictors at `b` are independent symbols (no generality is
/// lost: for given features and coefficients offsets and linear predictors correspond one to one).
/// `neg` says which linear predictors are negative (`None`: both signs).
pub fn omega_offsets(w: &mut World, c: &Cfg, sp: &mut Spec, b: &[S], neg: &dyn Fn(usize) -> Option<bool>) {
    for i in 0..c.n {
        let lin = dot(w, &xrow(w, sp, i), b);
        let neg = if c.fam.neg() { Some(true) } else { neg(i) };
        let om = match neg {
            Some(true) if c.fam.name() == "invgauss" => {
                let v = w.pos(&format!("v{i}"));
                (v * v / w.c(2.0)).o_neg()
            }
            Some(true) => w.pos(&format!("om{i}")).o_neg(),
            Some(false) => w.pos(&format!("om{i}")),
            None => w.real(&format!("om{i}")),
        };
        sp.off.as_mut().unwrap()[i] = om - lin;
    }
}
/// random coefficients in the domain
pub fn coefs(w: &mut World, c: &Cfg, sp: &mut Spec) -> Vec<S> {
    coefs_pat(w, c, sp, 2)
}
pub fn coefs_pat(w: &mut World, c: &Cfg, sp: &mut Spec, pat: usize) -> Vec<S> {
    let b = betas(w, c, "b");
    if c.off {
        let fix = !(c.fam.base() != "logistic" || c.fam.opaque() || pat == FREE || ((c.n < 3 || w.thorough) && pat & FORCE == 0));
        omega_offsets(w, c, sp, &b, &|i| if fix { Some((pat >> i) & 1 == 0) } else { None });
        return b;
    }
    in_domain(w, c, sp, &b);
    signs(w, c, sp, &b, pat);
    b
}
/// never restrict / always restrict
pub const FREE: usize = usize::MAX;
pub const FORCE: usize = 1 << 20;
/// restrict the sign of each linear predictor (limits the branches of the logistic likelihood)
pub fn signs(w: &mut World, c: &Cfg, sp: &Spec, b: &[S], pat: usize) {
    if c.fam.base() != "logistic" || pat == FREE || ((c.n < 3 || w.thorough) && pat & FORCE == 0) {
        return;
    }
    for i in 0..c.n {
        let o = omega(w, sp, b, i);
        let o = c.fam.nat(o);
        let z = w.c(0.0);
        w.assume(o, if (pat >> i) & 1 == 0 { Rel::Lt } else { Rel::Ge }, z);
    }
}
pub fn opts(w: &mut World, c: &Cfg) -> Opts {
    let mut o = Opts { tol: Some(S::inf_()), ..Default::default() };
    if c.l1 {
        o.l1 = Some(w.pos("lam1"));
    }
    if c.l2 {
        o.l2 = Some(w.pos("lam2"));
    }
    o
}
/// a fit of `m` whose coefficients are exactly `b`
pub fn fit_at<'a>(w: &mut World, m: &'a dyn ModelApi, o: &Opts, b: &[S]) -> R<Box<dyn FitApi + 'a>> {
    let mut o = o.clone();
    o.init = Some(b.to_vec());
    w.with_ord(OrdPol::Down, |w| w.with_eqpol(EqPol::Stay, |_| m.fit(&o)))
}

/// the coefficients `b` and a specification whose responses equal the model's prediction at `b`
/// (derivatives treat them as constants; `World::thaw` puts the predictions back)
pub fn spec_at_mean(w: &mut World, c: &Cfg, pat: usize) -> (Spec, Vec<S>) {
    let mut sp = spec_no_y(w, c);
    let b = betas(w, c, "b");
    in_domain(w, c, &sp, &b);
    signs(w, c, &sp, &b, pat);
    for i in 0..c.n {
        let mu = c.fam.mean(omega(w, &sp, &b, i));
        sp.y[i] = w.frozen(&format!("y{i}"), mu, c.fam.ydom());
    }
    (sp, b)
}
pub fn spec_no_y(w: &mut World, c: &Cfg) -> Spec {
    let z = w.c(0.0);
    spec_with(w, c, vec![z; c.n])
}
/// unpenalised log-likelihood from the family's own pieces
pub fn data_ll(w: &World, c: &Cfg, sp: &Spec, b: &[S]) -> S {
    sum(w, (0..sp.y.len()).map(|i| {
        let nat = c.fam.nat(omega(w, sp, b, i));
        tw(w, sp, i) * (sp.y[i] * nat - c.fam.log_partition(nat))
    }))
}
/// the documented penalty at `b`
pub fn penalty(w: &World, c: &Cfg, sp: &Spec, o: &Opts, b: &[S]) -> S {
    let k = c.int as usize;
    let mut r = w.c(0.0);
    for j in 0..c.p {
        let bs = b[k + j] * feat_scale(w, sp, j);
        if let Some(l) = o.l1 {
            r = r + l * bs.o_abs();
        }
        if let Some(l) = o.l2 {
            r = r + w.c(0.5) * l * bs * bs;
        }
    }
    r
}
/// information of one observation per unit weight
pub fn unit_info(w: &World, c: &Cfg, sp: &Spec, b: &[S], i: usize) -> S {
    let o = omega(w, sp, b, i);
    let d = c.fam.dnat(o);
    c.fam.variance(c.fam.mean(o)) * d * d
}
/// unpenalised information matrix from the family's own pieces
pub fn gram(w: &World, c: &Cfg, sp: &Spec, b: &[S]) -> Vec<Vec<S>> {
    let k = c.k();
    let mut m = vec![vec![w.c(0.0); k]; k];
    for i in 0..sp.y.len() {
        let v = unit_info(w, c, sp, b, i) * tw(w, sp, i);
        let x = xrow(w, sp, i);
        for r in 0..k {
            for s in 0..k {
                m[r][s] = m[r][s] + v * x[r] * x[s];
            }
        }
    }
    m
}
/// ... with the ridge penalty's curvature
pub fn gram_pen(w: &World, c: &Cfg, sp: &Spec, o: &Opts, b: &[S]) -> Vec<Vec<S>> {
    let mut m = gram(w, c, sp, b);
    if let Some(l) = o.l2 {
        let k = c.int as usize;
        for j in 0..c.p {
            let s = feat_scale(w, sp, j);
            m[k + j][k + j] = m[k + j][k + j] + l * s * s;
        }
    }
    m
}
pub fn data_score(w: &World, c: &Cfg, sp: &Spec, b: &[S]) -> Vec<S> {
    let k = c.k();
    let mut g = vec![w.c(0.0); k];
    for i in 0..sp.y.len() {
        let o = omega(w, sp, b, i);
        let e = (sp.y[i] - c.fam.mean(o)) * c.fam.dnat(o) * tw(w, sp, i);
        for (g, x) in g.iter_mut().zip(xrow(w, sp, i)) {
            *g = *g + e * x;
        }
    }
    g
}
pub fn matvec(w: &World, m: &[Vec<S>], v: &[S]) -> Vec<S> {
    m.iter().map(|r| dot(w, r, v)).collect()
}
pub fn flat(m: &[Vec<S>]) -> Vec<S> {
    m.iter().flat_map(|r| r.iter().cloned()).collect()
}
/// `m` is inverted exactly (adjugate over determinant)
pub fn inv_of(m: &[Vec<S>]) -> Vec<Vec<S>> {
    let n = m.len();
    let r = crate::lapack::inverse(&flat(m), n);
    (0..n).map(|i| r[i * n..(i + 1) * n].to_vec()).collect()
}
pub fn matmul(w: &World, a: &[Vec<S>], b: &[Vec<S>]) -> Vec<Vec<S>> {
    a.iter().map(|r| (0..b[0].len()).map(|j| sum(w, (0..b.len()).map(|k| r[k] * b[k][j]))).collect()).collect()
}
impl World {
    pub fn eqm(&mut self, label: &str, a: &[Vec<S>], b: &[Vec<S>]) {
        self.check(&format!("{label}.rows"), a.len() == b.len());
        for (i, (x, y)) in a.iter().zip(b).enumerate() {
            self.eqv(&format!("{label}[{i}]"), x, y);
        }
    }
    /// unwrap a result; an error is a violation of `label`
    pub fn ok<T>(&mut self, label: &str, r: R<T>) -> Option<T> {
        match r {
            Ok(t) => {
                self.check(label, true);
                Some(t)
            }
            Err(e) => {
                self.check(&format!("{label} ({e:?})"), false);
                None
            }
        }
    }
}
