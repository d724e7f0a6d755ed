//! The exploration engine: runs a scenario symbolically over every feasible path, hands every
//! obligation to the SMT solver, and replays solver counterexamples on the concrete scalar.
use crate::nf::{FxMap, NF, Poly, set_deadline};
use crate::rat::Rat;
use crate::s::{CON, S, SYMBOLIC, con, nwith, sy, symbolic};
use crate::scalar::Core;
use crate::smt::{self, Query, Rel, Smt, Verdict};
use crate::sym::{Ctx, Dom, EqPol, Fact, Node, OrdPol, hash_name, sample, with};
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::panic::{AssertUnwindSafe, catch_unwind, panic_any};
use std::sync::Mutex;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::time::{Duration, Instant};

pub enum Abort {
    Inconclusive(String),
    Infeasible,
}
pub fn abort_inconclusive(s: String) -> ! {
    panic_any(Abort::Inconclusive(s))
}
pub fn abort_infeasible() -> ! {
    panic_any(Abort::Infeasible)
}
thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|x| x.to_string())
            .or(i.payload().downcast_ref::<String>().cloned())
            .unwrap_or("(no message)".into());
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

pub type Models = Vec<Vec<(String, f64)>>;
#[derive(Clone, PartialEq)]
pub enum Status {
    Proved,
    Cand(Models),
    Undecided(String),
}
pub struct Ob {
    pub label: String,
    pub status: Status,
}
#[derive(Clone, Debug)]
pub struct NatViol {
    pub label: String,
    pub detail: String,
}
pub struct World {
    pub sym: bool,
    pub thorough: bool,
    pub seed: u64,
    pub k: usize,
    pub inputs: Option<HashMap<String, f64>>,
    pub used: BTreeMap<String, f64>,
    pub obs: Vec<Ob>,
    pub viol: Vec<NatViol>,
    pub vals: Vec<(String, f64, f64)>,
    thaw: Vec<(u32, u32)>,
    pub tol: f64,
    pub timeout: u64,
    pub n_checks: usize,
    pub lemma_fail: Vec<String>,
    /// the concrete run deliberately differs from the symbolic one (a real nested convergence)
    pub differs: bool,
}
impl World {
    pub fn new_sym(seed: u64, thorough: bool) -> World {
        World {
            sym: true,
            thorough,
            seed,
            k: 0,
            inputs: None,
            used: BTreeMap::new(),
            obs: vec![],
            viol: vec![],
            vals: vec![],
            thaw: vec![],
            tol: 1e-6,
            timeout: if thorough { 20000 } else { 4000 },
            n_checks: 0,
            lemma_fail: vec![],
            differs: false,
        }
    }
    pub fn new_nat(seed: u64, k: usize, inputs: Option<HashMap<String, f64>>, thorough: bool) -> World {
        let mut w = World::new_sym(seed, thorough);
        w.sym = false;
        w.k = k;
        w.inputs = inputs;
        w
    }
    // ---- values ---------------------------------------------------------------------------
    pub fn c(&self, x: f64) -> S {
        S::c(x)
    }
    pub fn q(&self, n: i64, d: i64) -> S {
        if self.sym { with(|c| sy(c.cst(Rat::new(n, d)))) } else { con(n as f64 / d as f64) }
    }
    pub fn var(&mut self, name: &str, dom: Dom) -> S {
        if self.sym {
            return with(|c| sy(c.new_var(name, dom, true, None)));
        }
        let v = self.inputs.as_ref().and_then(|m| m.get(name).copied()).unwrap_or_else(|| sample(dom, hash_name(self.seed, self.k as u64, name)).to_f64());
        let v = if dom == Dom::Count { v.ceil().clamp(1.0, 1e4) } else { v };
        let ok = match dom {
            Dom::Real => true,
            Dom::Pos | Dom::Count => v > 0.0,
            Dom::NonNeg => v >= 0.0,
            Dom::In(a, b) => v > a && v < b,
        };
        if !ok || !v.is_finite() {
            abort_infeasible();
        }
        self.used.insert(name.into(), v);
        con(v)
    }
    pub fn real(&mut self, name: &str) -> S {
        self.var(name, Dom::Real)
    }
    pub fn pos(&mut self, name: &str) -> S {
        self.var(name, Dom::Pos)
    }
    pub fn vars(&mut self, name: &str, n: usize, dom: Dom) -> Vec<S> {
        (0..n).map(|i| self.var(&format!("{name}{i}"), dom)).collect()
    }
    /// a copy of `value` that derivatives treat as a constant; `thaw` puts the value back
    pub fn frozen(&mut self, name: &str, value: S, dom: Dom) -> S {
        if !self.sym {
            return value;
        }
        with(|c| {
            if c.konst(value.id).is_some() {
                return value;
            }
            let sh = c.sh[value.id as usize];
            let sm = [Rat::from_f64(sh[0]).unwrap_or(Rat::zero()), Rat::from_f64(sh[1]).unwrap_or(Rat::zero())];
            let v = c.new_var(name, dom, false, Some(sm));
            self.thaw.push((v, value.id));
            sy(v)
        })
    }
    pub fn thaw(&mut self, e: S) -> S {
        if !self.sym {
            return e;
        }
        let map: FxMap<u32, u32> = self.thaw.iter().cloned().collect();
        with(|c| {
            let mut memo = Default::default();
            sy(c.subst(e.id, &map, &mut memo))
        })
    }
    pub fn subst(&mut self, e: S, from: &[S], to: &[S]) -> S {
        if !self.sym {
            panic!("subst is symbolic only");
        }
        let map: FxMap<u32, u32> = from.iter().zip(to).map(|(a, b)| (a.id, b.id)).collect();
        with(|c| {
            let mut memo = Default::default();
            sy(c.subst(e.id, &map, &mut memo))
        })
    }
    /// gradient of `f` at `at` (symbolic differentiation / central differences)
    pub fn grad(&mut self, at: &[S], f: &dyn Fn(&mut World, &[S]) -> S) -> Vec<S> {
        if self.sym {
            let y = f(self, at);
            return with(|c| {
                at.iter()
                    .map(|v| {
                        let mut m = Default::default();
                        sy(c.diff(y.id, v.id, &mut m))
                    })
                    .collect()
            });
        }
        self.tol = self.tol.max(1e-5);
        (0..at.len())
            .map(|i| {
                let mut d = |h: f64| -> f64 {
                    let mut p = at.to_vec();
                    p[i] = con(at[i].v + h);
                    let a = f(self, &p).v;
                    p[i] = con(at[i].v - h);
                    let b = f(self, &p).v;
                    (a - b) / (2.0 * h)
                };
                let h = 1e-3 * (1.0 + at[i].v.abs());
                con(richardson(d(h), d(h / 2.0), d(h / 4.0)))
            })
            .collect()
    }
    /// hessian of `f` at `at`
    pub fn hess(&mut self, at: &[S], f: &dyn Fn(&mut World, &[S]) -> S) -> Vec<Vec<S>> {
        let n = at.len();
        if self.sym {
            let y = f(self, at);
            return with(|c| {
                let g: Vec<u32> = at
                    .iter()
                    .map(|v| {
                        let mut m = Default::default();
                        c.diff(y.id, v.id, &mut m)
                    })
                    .collect();
                (0..n)
                    .map(|i| {
                        (0..n)
                            .map(|j| {
                                let mut m = Default::default();
                                sy(c.diff(g[i], at[j].id, &mut m))
                            })
                            .collect()
                    })
                    .collect()
            });
        }
        self.tol = self.tol.max(1e-3);
        let mut r = vec![vec![con(0.0); n]; n];
        for i in 0..n {
            for j in 0..n {
                let mut d = |h: f64| -> f64 {
                    let mut s = 0.0;
                    for (si, sj) in [(1.0, 1.0), (1.0, -1.0), (-1.0, 1.0), (-1.0, -1.0)] {
                        let mut p = at.to_vec();
                        p[i] = con(p[i].v + si * h);
                        p[j] = con(p[j].v + sj * h);
                        s += si * sj * f(self, &p).v;
                    }
                    s / (4.0 * h * h)
                };
                r[i][j] = con(richardson(d(8e-3), d(4e-3), d(2e-3)));
            }
        }
        r
    }
    // ---- assumptions ----------------------------------------------------------------------
    pub fn assume(&mut self, a: S, rel: Rel, b: S) {
        if self.sym {
            with(|c| c.assume(a.id, rel, b.id));
            return;
        }
        let d = a.v - b.v;
        let ok = match rel {
            Rel::Lt => d < -1e-9,
            Rel::Le => d <= 1e-9,
            Rel::Gt => d > 1e-9,
            Rel::Ge => d >= -1e-9,
            Rel::Eq => d.abs() < 1e-9,
            Rel::Ne => d.abs() > 1e-9,
        };
        if !ok {
            abort_infeasible();
        }
    }
    pub fn assume_pos(&mut self, a: S) {
        let z = self.c(0.0);
        self.assume(a, Rel::Gt, z)
    }
    /// a mathematical fact about transcendental functions the solver is told (checked numerically)
    pub fn lemma(&mut self, what: &str, a: S, rel: Rel, b: S) {
        if self.sym {
            with(|c| {
                let d = c.op(Node::Sub(a.id, b.id));
                if c.konst(d).is_some() {
                    return;
                }
                let p = c.nf(d);
                c.add_fact_nf(&p, rel);
            });
            return;
        }
        let d = a.v - b.v;
        let t = 1e-9 * (1.0 + a.v.abs() + b.v.abs());
        let ok = match rel {
            Rel::Lt | Rel::Le => d <= t,
            Rel::Gt | Rel::Ge => d >= -t,
            Rel::Eq => d.abs() <= t,
            Rel::Ne => true,
        };
        if !ok && d.is_finite() {
            self.lemma_fail.push(what.into());
        }
    }
    // ---- policies -------------------------------------------------------------------------
    pub fn with_eqpol<R>(&mut self, p: EqPol, f: impl FnOnce(&mut World) -> R) -> R {
        let old = if self.sym { with(|c| std::mem::replace(&mut c.eqpol, p)) } else { nwith(|c| std::mem::replace(&mut c.eqpol, p)) };
        let r = f(self);
        if self.sym {
            with(|c| c.eqpol = old)
        } else {
            nwith(|c| c.eqpol = old)
        }
        r
    }
    /// run `f` with the given answer to order comparisons between generations of solver outputs
    pub fn with_ord<R>(&mut self, p: OrdPol, f: impl FnOnce(&mut World) -> R) -> R {
        let old = if self.sym { with(|c| std::mem::replace(&mut c.ordpol, p)) } else { nwith(|c| std::mem::replace(&mut c.ordpol, p)) };
        let r = f(self);
        if self.sym {
            with(|c| {
                c.ordpol = old;
                c.cmp_pol.clear()
            })
        } else {
            nwith(|c| {
                c.ordpol = old;
                c.cmp_pol.clear()
            })
        }
        r
    }
    /// the first such comparisons are answered from this list (is the newer side larger?)
    pub fn cmp_list(&mut self, list: &[bool]) {
        if self.sym {
            with(|c| c.cmp_pol = list.iter().cloned().collect())
        } else {
            nwith(|c| c.cmp_pol = list.iter().cloned().collect())
        }
    }
    pub fn set_eps(&mut self, e: S) {
        if self.sym { with(|c| c.eps = Some(e.id)) } else { nwith(|c| c.eps = e.v) }
    }
    pub fn set_faults(&mut self, f: &[usize]) {
        if self.sym {
            with(|c| {
                c.faults = f.to_vec();
                c.fact_calls = 0;
            })
        } else {
            nwith(|c| {
                c.faults = f.to_vec();
                c.fact_calls = 0;
            })
        }
    }
    /// from here on every linear solve returns an arbitrary vector
    pub fn set_havoc(&mut self) {
        if self.sym {
            with(|c| {
                c.havoc = true;
                c.fork_ms = 80;
            })
        } else {
            let h = (self.inputs.clone(), self.seed, self.k as u64);
            nwith(|c| c.havoc = Some(h))
        }
    }
    /// everything the linear solver has returned so far
    pub fn solver_outputs(&self) -> Vec<S> {
        if self.sym { with(|c| c.outs.iter().map(|i| sy(*i)).collect()) } else { nwith(|c| c.outs.iter().map(|v| con(*v)).collect()) }
    }
    pub fn fact_calls(&self) -> usize {
        if self.sym { with(|c| c.fact_calls) } else { nwith(|c| c.fact_calls) }
    }
    // ---- obligations ----------------------------------------------------------------------
    fn push(&mut self, label: &str, status: Status) {
        if std::env::var("GV_TRACE").is_ok() {
            let s = match &status {
                Status::Proved => "ok".into(),
                Status::Cand(m) => format!("CANDIDATE {m:?}"),
                Status::Undecided(s) => format!("undecided {s}"),
            };
            eprintln!("    {label}: {s}");
        }
        self.obs.push(Ob { label: label.into(), status });
    }
    fn model_names(c: &Ctx, m: &[(u32, f64)]) -> Vec<(String, f64)> {
        m.iter().filter(|x| c.vars[x.0 as usize].input).map(|x| (c.vars[x.0 as usize].name.clone(), x.1)).collect()
    }
    /// all readings of the model just found
    fn readings(c: &mut Ctx, m: &[(u32, f64)]) -> Models {
        let mut v = vec![World::model_names(c, m)];
        let alts = std::mem::take(&mut c.alts);
        v.extend(alts.iter().map(|m| World::model_names(c, m)));
        v
    }
    /// `build` is the negated obligation; `diff` its difference of sides with the negated relation,
    /// from which clearer counterexamples (with a margin) are sought
    fn decide(&mut self, label: &str, build: &dyn Fn(&mut Ctx) -> Query, diff: &dyn Fn(&mut Ctx) -> (NF, Rel)) {
        let timeout = self.timeout;
        let st = with(|c| {
            let q = build(c);
            match smt::run(c, q, timeout) {
                Verdict::Unsat => Status::Proved,
                Verdict::Sat(m0) => {
                    let r0 = World::readings(c, &m0);
                    // a better model: all facts of the path
                    let mut q = build(c);
                    add_facts(c, &mut q, 300);
                    let mut models = match smt::run(c, q, 1500) {
                        Verdict::Sat(m) => World::readings(c, &m),
                        Verdict::Unsat => return Status::Proved,
                        _ => r0,
                    };
                    if c.margins >= 12 {
                        // several obligations of this path already have clear candidates
                        return Status::Cand(models);
                    }
                    c.margins += 1;
                    let (p, rel) = diff(c);
                    if p.0.len() < 3000 {
                        'seek: for (mi, m) in [Rat::new(1, 4), Rat::new(1, 2048), Rat::new(1, 1 << 18)].into_iter().enumerate() {
                            let mg = Poly::cst(m);
                            let alts: Vec<(Poly, Rel)> = match rel {
                                Rel::Gt | Rel::Ge => vec![(p.sub(&mg), Rel::Ge)],
                                Rel::Lt | Rel::Le => vec![(p.add(&mg), Rel::Le)],
                                Rel::Ne => vec![(p.sub(&mg), Rel::Ge), (p.add(&mg), Rel::Le)],
                                Rel::Eq => vec![],
                            };
                            for (p, rel) in alts {
                                for sz in [4000, 300] {
                                    let mut q = Query::new();
                                    q.cond(&mut c.nfx, &p, rel);
                                    add_facts(c, &mut q, sz);
                                    q.boxed(c, 40);
                                    let vd = smt::run(c, q, 800);
                                    if std::env::var("GV_TRACE").is_ok() {
                                        eprintln!("      margin {mi} size {sz}: {}", match &vd { Verdict::Sat(m) => format!("sat {m:?}"), Verdict::Unsat => "unsat".into(), Verdict::Unknown(e) => e.clone() });
                                    }
                                    match vd {
                                        Verdict::Sat(m) => {
                                            let r = World::readings(c, &m);
                                            models.extend(r);
                                            break 'seek;
                                        }
                                        Verdict::Unsat => break,
                                        Verdict::Unknown(_) if sz == 300 && mi > 0 => {
                                            if let Some(m) = along_axes(c, &p, rel, &m0) {
                                                let r = World::readings(c, &m);
                                                models.extend(r);
                                                break 'seek;
                                            }
                                        }
                                        _ => {}
                                    }
                                }
                            }
                        }
                    }
                    Status::Cand(models)
                }
                Verdict::Unknown(s) => Status::Undecided(format!("solver: {s}")),
            }
        });
        self.push(label, st);
    }
    pub fn eq(&mut self, label: &str, a: S, b: S) {
        self.n_checks += 1;
        if !self.sym {
            self.vals.push((label.into(), a.v, b.v));
            self.nat_eq(label, a.v, b.v);
            return;
        }
        let (sa, sb) = (a.shadow(), b.shadow());
        self.vals.push((label.into(), sa, sb));
        let spec = with(|c| c.special(a.id) || c.special(b.id));
        if a.id == b.id && !spec {
            // the same hash-consed term
            with(|c| c.n_ident += 1);
            self.push(label, Status::Proved);
            return;
        }
        if spec {
            let same = a.id == b.id;
            self.push(label, if same { Status::Proved } else { Status::Cand(vec![]) });
            return;
        }
        self.decide(label, &|c| {
            let (p, q) = (c.nf(a.id), c.nf(b.id));
            if std::env::var("GV_SHOW").is_ok() {
                let names: Vec<String> = c.vars.iter().map(|v| v.name.clone()).collect();
                eprintln!("  L {}\n  R {}", c.nfx.show(&p, &|i| names[i as usize].clone()), c.nfx.show(&q, &|i| names[i as usize].clone()));
            }
            let mut qr = Query::new();
            qr.equality(&mut c.nfx, &p, &q, Rel::Ne);
            qr
        }, &|c| {
            let d = c.op(Node::Sub(a.id, b.id));
            (c.nf(d), Rel::Ne)
        });
    }
    fn nat_eq(&mut self, label: &str, a: f64, b: f64) {
        if a.is_nan() && b.is_nan() || a == b {
            return;
        }
        let bad = if a.is_nan() || b.is_nan() || a.is_infinite() || b.is_infinite() { true } else { (a - b).abs() > self.tol * (1.0f64.min(a.abs().max(b.abs()) * 1e3)).max(a.abs().max(b.abs())).max(1e-3) };
        if bad {
            self.viol.push(NatViol { label: label.into(), detail: format!("left {a:e} right {b:e}") });
        }
    }
    pub fn eqv(&mut self, label: &str, a: &[S], b: &[S]) {
        self.check(&format!("{label}.len"), a.len() == b.len());
        for (i, (x, y)) in a.iter().zip(b).enumerate() {
            self.eq(&format!("{label}[{i}]"), *x, *y);
        }
    }
    /// a >= b
    pub fn ge(&mut self, label: &str, a: S, b: S) {
        self.rel(label, a, Rel::Ge, b)
    }
    pub fn rel(&mut self, label: &str, a: S, rel: Rel, b: S) {
        self.n_checks += 1;
        if !self.sym {
            self.vals.push((label.into(), a.v, b.v));
            let d = a.v - b.v;
            let t = self.tol * (1e-3 + a.v.abs() + b.v.abs());
            let ok = match rel {
                Rel::Lt | Rel::Le => d <= t,
                Rel::Gt | Rel::Ge => d >= -t,
                Rel::Eq => d.abs() <= t,
                Rel::Ne => d != 0.0,
            };
            if !ok {
                self.viol.push(NatViol { label: label.into(), detail: format!("expected {:e} {:?} {:e}", a.v, rel, b.v) });
            }
            return;
        }
        let (sa, sb) = (a.shadow(), b.shadow());
        self.vals.push((label.into(), sa, sb));
        let neg = match rel {
            Rel::Lt => Rel::Ge,
            Rel::Le => Rel::Gt,
            Rel::Gt => Rel::Le,
            Rel::Ge => Rel::Lt,
            Rel::Eq => Rel::Ne,
            Rel::Ne => Rel::Eq,
        };
        let spec = with(|c| c.special(a.id) || c.special(b.id));
        if spec {
            let ok = match rel {
                Rel::Lt => sa < sb,
                Rel::Le => sa <= sb,
                Rel::Gt => sa > sb,
                Rel::Ge => sa >= sb,
                Rel::Eq => sa == sb,
                Rel::Ne => sa != sb,
            };
            self.push(label, if ok { Status::Proved } else { Status::Cand(vec![]) });
            return;
        }
        let lin = with(|c| {
            let d = c.op(Node::Sub(a.id, b.id));
            let p = c.nf(d);
            !c.facts.is_empty() && p.0.len() > 1 && smt::refuted_linearly(c, &p, neg)
        });
        if lin {
            self.push(label, Status::Proved);
            return;
        }
        self.decide(label, &|c| {
            let d = c.op(Node::Sub(a.id, b.id));
            let p = c.nf(d);
            let mut qr = Query::new();
            qr.cond(&mut c.nfx, &p, neg);
            qr
        }, &|c| {
            let d = c.op(Node::Sub(a.id, b.id));
            (c.nf(d), neg)
        });
    }
    /// a structural fact of this path: if it is false, the path condition is the query
    pub fn check(&mut self, label: &str, ok: bool) {
        self.n_checks += 1;
        if !self.sym {
            if !ok {
                self.viol.push(NatViol { label: label.into(), detail: "condition is false".into() });
            }
            return;
        }
        if ok {
            self.push(label, Status::Proved);
        } else {
            let st = path_candidate();
            match st {
                None => {}
                Some(m) => self.push(label, Status::Cand(m)),
            }
        }
    }
    pub fn fail(&mut self, label: &str) {
        self.check(label, false)
    }
}
/// central differences at h, h/2, h/4; a step that leaves the domain invalidates the sample point
fn richardson(a: f64, b: f64, c: f64) -> f64 {
    let (p, q) = ((4.0 * b - a) / 3.0, (4.0 * c - b) / 3.0);
    let r = (16.0 * q - p) / 15.0;
    if !r.is_finite() || (r - q).abs() > 1e-3 * (1.0 + r.abs()) {
        abort_infeasible();
    }
    r
}
/// `p rel 0` on the current path with all inputs but one fixed, near the model `m0` or at samples
fn along_axes(c: &mut Ctx, p: &Poly, rel: Rel, m0: &[(u32, f64)]) -> Option<Vec<(u32, f64)>> {
    let t0 = Instant::now();
    let atoms: Vec<(u32, u32, f64)> = (0..c.nfx.atoms.len())
        .filter_map(|i| if let crate::nf::Kind::Var(v) = c.nfx.atoms[i].kind { Some((i as u32, v, c.nfx.atoms[i].val[0])) } else { None })
        .collect();
    if atoms.len() > 12 {
        return None;
    }
    let known: HashMap<u32, f64> = m0.iter().cloned().collect();
    for round in 0..5u64 {
        let at = |a: &(u32, u32, f64)| -> Rat {
            let v = &c.vars[a.1 as usize];
            let r = match (round, known.get(&a.1)) {
                (0, Some(x)) => Rat::from_f64(*x),
                (0, None) => Rat::from_f64(a.2),
                _ => Some(sample(v.dom, hash_name(round, 77, &v.name))),
            };
            r.unwrap_or(Rat::zero())
        };
        let vals: Vec<Rat> = atoms.iter().map(at).collect();
        for free in 0..atoms.len() {
            let mut q = Query::new();
            q.cond(&mut c.nfx, p, rel);
            add_facts(c, &mut q, 4000);
            for (i, a) in atoms.iter().enumerate() {
                if i == free {
                    q.pin(a.0, "(- 40.0)".into(), "40.0".into());
                } else {
                    q.pin(a.0, vals[i].smt(), vals[i].smt());
                }
            }
            if let Verdict::Sat(mut m) = smt::run(c, q, 300) {
                for (i, a) in atoms.iter().enumerate() {
                    if i != free && !m.iter().any(|x| x.0 == a.1) {
                        m.push((a.1, vals[i].to_f64()));
                    }
                }
                return Some(m);
            }
            if t0.elapsed() > Duration::from_secs(4) {
                return None;
            }
        }
    }
    None
}
/// all facts of the path, up to a size
fn add_facts(c: &mut Ctx, q: &mut Query, limit: usize) {
    let mut sz = 0;
    for i in 0..c.facts.len() {
        let f = c.facts[i].clone();
        sz += f.p.0.len();
        if sz > limit {
            break;
        }
        q.cond(&mut c.nfx, &f.p, f.rel);
    }
}
/// model of the current path condition; None when the path is infeasible
fn path_candidate() -> Option<Models> {
    with(|c| {
        let facts: Vec<Fact> = c.facts.clone();
        match smt::sat(c, &facts, 4000) {
            Verdict::Unsat => None,
            Verdict::Sat(m) => Some(World::readings(c, &m)),
            Verdict::Unknown(_) => Some(vec![]),
        }
    })
}

pub struct Scenario {
    pub name: String,
    pub max_paths: usize,
    pub weight: usize,
    pub f: Box<dyn Fn(&mut World) + Send + Sync>,
}
pub fn scen(name: impl Into<String>, f: impl Fn(&mut World) + Send + Sync + 'static) -> Scenario {
    let name = name.into();
    let mut weight = 1;
    for (k, t) in [(16, "n=4"), (8, "n=3"), (4, "logistic"), (2, "std"), (2, "invgauss")] {
        if name.contains(t) {
            weight *= k;
        }
    }
    Scenario { name, max_paths: 256, weight, f: Box::new(f) }
}

#[derive(Default)]
pub struct Report {
    pub name: String,
    pub proved: usize,
    pub undecided: Vec<(String, String)>,
    pub violations: Vec<(String, String, Value)>,
    pub paths: usize,
    pub dead: usize,
    pub aborted: Vec<String>,
    pub forks: usize,
    pub generic_ne: usize,
    pub n_ident: usize,
    pub det_assumed: usize,
    pub nfcheck: usize,
    pub nodes: usize,
    pub replays: usize,
    pub validated: usize,
    pub mismatch: Vec<String>,
    pub labels: HashSet<String>,
    pub ms: u128,
    pub sample: Option<Value>,
    pub complete: bool,
    /// a concrete input satisfies the assumptions of the scenario
    pub witnessed: bool,
}

pub enum NatEnd {
    Done,
    Infeasible,
    Inconclusive(String),
}
pub fn run_nat(s: &Scenario, w: &mut World) -> NatEnd {
    SYMBOLIC.with(|m| m.set(false));
    nwith(|c| {
        c.eqpol = EqPol::Generic;
        c.faults.clear();
        c.fact_calls = 0;
        c.eps = 0.0;
        c.ordpol = OrdPol::Generic;
        c.gen_ = 0;
        c.cmp_pol.clear();
        c.havoc = None;
        c.outs.clear();
        c.drawn.clear();
    });
    let r = catch_unwind(AssertUnwindSafe(|| (s.f)(w)));
    nwith(|c| w.used.extend(c.drawn.drain(..)));
    match r {
        Ok(()) => NatEnd::Done,
        Err(e) => match e.downcast::<Abort>() {
            Ok(a) => match *a {
                Abort::Infeasible => NatEnd::Infeasible,
                Abort::Inconclusive(x) => NatEnd::Inconclusive(x),
            },
            Err(_) => {
                let m = LAST_PANIC.with(|p| p.borrow().clone());
                w.viol.push(NatViol { label: "no panic".into(), detail: format!("panicked: {m}") });
                NatEnd::Done
            }
        },
    }
}

pub fn run_scenario(s: &Scenario, seed: u64, thorough: bool, deadline: Instant, max_each: Duration) -> Report {
    let t0 = Instant::now();
    let mut rep = Report { name: s.name.clone(), complete: true, ..Default::default() };
    let limit = deadline.min(t0 + max_each);
    let mut work: Vec<Vec<bool>> = vec![vec![]];
    // label -> (any not proved, candidate models)
    let mut open: BTreeMap<String, (String, Vec<Vec<(String, f64)>>)> = BTreeMap::new();
    let mut shadow: Vec<(bool, Vec<(String, f64, f64)>)> = vec![];
    // a concrete input satisfying the assumptions: samples first, then solver models of the paths
    let mut w0 = World::new_nat(seed, 0, None, thorough);
    let e0 = run_nat(s, &mut w0);
    rep.witnessed = matches!(e0, NatEnd::Done);
    for k in 1..600 {
        if rep.witnessed || t0.elapsed() > Duration::from_secs(4) {
            break;
        }
        let mut w = World::new_nat(seed, k, None, thorough);
        rep.witnessed = matches!(run_nat(s, &mut w), NatEnd::Done);
    }
    let mut witness: Vec<Vec<(String, f64)>> = vec![];
    while !work.is_empty() {
        // alternate between the deepest and the shallowest open branch
        let i = if rep.paths % 2 == 0 { work.len() - 1 } else { (0..work.len()).min_by_key(|i| work[*i].len()).unwrap() };
        let prefix = work.remove(i);
        if rep.paths >= s.max_paths || Instant::now() > limit {
            rep.complete = false;
            rep.aborted.push(format!("path budget: {} prefixes left", work.len() + 1));
            break;
        }
        with(|c| {
            c.reset(prefix.clone());
            c.seed = seed;
            if c.smt.is_none() {
                c.smt = Some(Smt::start(&solver_exe()));
            }
        });
        SYMBOLIC.with(|m| m.set(true));
        set_deadline(Some(limit));
        let mut w = World::new_sym(seed, thorough);
        let r = catch_unwind(AssertUnwindSafe(|| (s.f)(&mut w)));
        set_deadline(None);
        rep.paths += 1;
        let mut dead = false;
        match r {
            Ok(()) => {
                if !rep.witnessed && witness.len() < 3 {
                    set_deadline(Some(limit + Duration::from_secs(5)));
                    if let Ok(Some(m)) = catch_unwind(AssertUnwindSafe(path_candidate)) {
                        witness.extend(m);
                    }
                    set_deadline(None);
                }
            }
            Err(e) => match e.downcast::<Abort>() {
                Ok(a) => match *a {
                    Abort::Infeasible => dead = true,
                    Abort::Inconclusive(m) => {
                        rep.complete = false;
                        if rep.aborted.len() < 20 {
                            rep.aborted.push(m)
                        }
                    }
                },
                Err(_) => {
                    let m = LAST_PANIC.with(|p| p.borrow().clone());
                    set_deadline(Some(limit + Duration::from_secs(5)));
                    let pc = catch_unwind(AssertUnwindSafe(path_candidate)).unwrap_or(Some(vec![]));
                    set_deadline(None);
                    if let Some(md) = pc {
                        w.push("no panic", Status::Cand(md));
                        if rep.aborted.len() < 20 {
                            rep.aborted.push(format!("panic: {m}"));
                        }
                        rep.complete = false;
                    } else {
                        dead = true;
                    }
                }
            },
        }
        if dead {
            rep.dead += 1;
        }
        with(|c| {
            rep.forks += c.n_fork;
            rep.generic_ne += c.generic_ne;
            rep.n_ident += c.n_ident;
            rep.det_assumed += c.det_assumed;
            rep.nfcheck += c.nfcheck;
            rep.nodes += c.nodes.len();
            // siblings of the decisions taken beyond the prefix
            for k in prefix.len()..c.taken.len() {
                if c.open[k] {
                    let mut p = c.taken[..k].to_vec();
                    p.push(!c.taken[k]);
                    work.push(p);
                }
            }
            shadow.push((c.sh_ok[0] && !dead, std::mem::take(&mut w.vals)));
        });
        for o in w.obs {
            rep.labels.insert(o.label.clone());
            match o.status {
                Status::Proved => rep.proved += 1,
                Status::Undecided(x) => {
                    open.entry(o.label).or_insert((x, vec![]));
                }
                Status::Cand(m) => {
                    let e = open.entry(o.label).or_insert(("candidate counterexample did not reproduce".into(), vec![]));
                    e.0 = "candidate counterexample did not reproduce".into();
                    e.1.extend(m);
                }
            }
        }
    }
    SYMBOLIC.with(|m| m.set(false));
    // concrete runs: validation of the encoding at the sample point, then replays of candidates
    let mut runs: Vec<(World, bool)> = vec![];
    for m in witness {
        if rep.witnessed {
            break;
        }
        let mut w = World::new_nat(seed, 0, Some(m.into_iter().collect()), thorough);
        rep.witnessed = matches!(run_nat(s, &mut w), NatEnd::Done);
    }
    if let NatEnd::Done = e0 {
        if let (Some((_, vals)), false) = (shadow.iter().find(|x| x.0), w0.differs) {
            for (a, b) in vals.iter().zip(&w0.vals) {
                if a.0 != b.0 {
                    rep.mismatch.push(format!("{} vs {}", a.0, b.0));
                    break;
                }
                let t = (1e-5 + 100.0 * w0.tol) * (1.0 + a.1.abs().max(b.1.abs()));
                if (a.1 - b.1).abs() > t || (a.2 - b.2).abs() > t {
                    rep.mismatch.push(format!("{}: symbolic {:e},{:e} concrete {:e},{:e}", a.0, a.1, a.2, b.1, b.2));
                } else {
                    rep.validated += 1;
                }
            }
        }
    }
    rep.sample = Some(json!({"scenario": s.name, "inputs": w0.used, "first_obligations": w0.vals.iter().take(3).map(|v| json!([v.0, v.1, v.2])).collect::<Vec<_>>() }));
    if matches!(e0, NatEnd::Done) {
        runs.push((w0, false));
    }
    rep.replays += 1;
    let need = !open.is_empty() || !rep.aborted.is_empty();
    if need {
        let mut models: Vec<Vec<(String, f64)>> = open.values().flat_map(|v| v.1.clone()).collect();
        models.truncate(90);
        for m in models {
            let mut w = World::new_nat(seed, 0, Some(m.into_iter().collect()), thorough);
            rep.replays += 1;
            if let NatEnd::Done = run_nat(s, &mut w) {
                runs.push((w, true));
            }
        }
        for k in 1..if thorough { 60 } else { 24 } {
            let mut w = World::new_nat(seed, k, None, thorough);
            rep.replays += 1;
            if let NatEnd::Done = run_nat(s, &mut w) {
                runs.push((w, false));
            }
            if Instant::now() > deadline + Duration::from_secs(20) {
                break;
            }
        }
    }
    let mut found: BTreeMap<String, (String, Value)> = BTreeMap::new();
    for (w, from_model) in &runs {
        for v in &w.viol {
            let undecided = open.contains_key(&v.label) || !rep.labels.contains(&v.label);
            if !undecided {
                if !from_model && !w.differs {
                    rep.mismatch.push(format!("{} proved but concrete run differs: {}", v.label, v.detail));
                }
                continue;
            }
            let wild = w.used.values().any(|x| x.abs() > 1e3 || (*x != 0.0 && x.abs() < 1e-4));
            if wild && !v.detail.starts_with("condition") && !confirm(s, w, &v.label, seed, thorough) {
                continue;
            }
            found.entry(v.label.clone()).or_insert((v.detail.clone(), json!({"inputs": w.used, "seed": seed, "k": w.k})));
        }
    }
    for (l, (d, inp)) in found {
        open.remove(&l);
        rep.violations.push((l, d, inp));
    }
    rep.undecided = open.into_iter().map(|(l, (r, _))| (l, r)).collect();
    rep.ms = t0.elapsed().as_millis();
    rep
}
/// a discrepancy at an extreme point counts only if it is large and stable under perturbation
fn confirm(s: &Scenario, w: &World, label: &str, seed: u64, thorough: bool) -> bool {
    for k in 0..3 {
        let inp: HashMap<String, f64> = w.used.iter().map(|(n, v)| (n.clone(), v * (1.0 + 1e-9 * (k as f64)))).collect();
        let mut x = World::new_nat(seed, w.k, Some(inp), thorough);
        x.tol = 1e-3;
        match run_nat(s, &mut x) {
            NatEnd::Done => {
                if !x.viol.iter().any(|v| v.label == label && !v.detail.contains("NaN") && !v.detail.contains("inf")) {
                    return false;
                }
            }
            _ => return false,
        }
    }
    true
}
pub fn solver_exe() -> String {
    std::env::var("GV_SOLVER").unwrap_or("z3".into())
}

pub fn run_all(scens: &[Scenario], seed: u64, thorough: bool, deadline: Instant, max_each: Duration) -> Vec<Report> {
    let next = AtomicUsize::new(0);
    // heavy scenarios first
    let mut order: Vec<usize> = (0..scens.len()).collect();
    order.sort_by_key(|i| std::cmp::Reverse(scens[*i].weight));
    let out = Mutex::new(vec![]);
    let threads = std::env::var("GV_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(8usize);
    std::thread::scope(|sc| {
        for _ in 0..threads.min(scens.len().max(1)) {
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn_scoped(sc, || {
                    loop {
                        let i = next.fetch_add(1, Relaxed);
                        if i >= scens.len() {
                            break;
                        }
                        let i = order[i];
                        if Instant::now() > deadline {
                            let mut r = Report { name: scens[i].name.clone(), ..Default::default() };
                            r.aborted.push("not started: time budget of the check".into());
                            out.lock().unwrap().push((i, r));
                            continue;
                        }
                        let r = run_scenario(&scens[i], seed, thorough, deadline, max_each);
                        if std::env::var("GV_VERBOSE").is_ok() {
                            eprintln!("{:>7} ms  proved {:>4} undecided {:>3} viol {} paths {} aborted {:?} {}", r.ms, r.proved, r.undecided.len(), r.violations.len(), r.paths, r.aborted.first(), r.name);
                            for u in r.undecided.iter().take(6) {
                                eprintln!("              ? {} -- {}", u.0, u.1);
                            }
                            for u in r.mismatch.iter().take(4) {
                                eprintln!("              MISMATCH {}", u);
                            }
                            for u in r.violations.iter().take(6) {
                                eprintln!("              ! {} -- {}", u.0, u.1);
                            }
                        }
                        out.lock().unwrap().push((i, r));
                    }
                    with(|c| c.smt = None);
                })
                .unwrap();
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}
#[allow(dead_code)]
pub fn is_con(s: S) -> bool {
    s.id == CON && !symbolic()
}
