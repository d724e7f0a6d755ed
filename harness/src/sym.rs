//! The symbolic scalar.  Every arithmetic operation the library performs on it builds a node of a
//! hash-consed expression DAG; comparisons become decisions of the exploration engine.
use crate::engine::abort_inconclusive;
use crate::nf::*;
use crate::rat::Rat;
use crate::smt::{Rel, Smt, Verdict};
use std::cell::RefCell;
use std::rc::Rc;


#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    C(Rat),
    Var(u32),
    PInf,
    NInf,
    NaN,
    Add(u32, u32),
    Sub(u32, u32),
    Mul(u32, u32),
    Div(u32, u32),
    Neg(u32),
    Powi(u32, i32),
    Sqrt(u32),
    Exp(u32),
    Ln(u32),
    Ln1p(u32),
    Expm1(u32),
    Abs(u32),
    Sgn(u32),
    UF(u16, u32),
    Alias(u32),
}
use Node::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dom {
    Real,
    Pos,
    NonNeg,
    /// positive integers, relaxed to positive reals in the solver
    Count,
    /// open interval
    In(f64, f64),
}
pub struct VarInfo {
    pub name: String,
    pub dom: Dom,
    pub node: u32,
    /// exact sample values behind the numeric shadows
    pub sample: [Rat; 2],
    /// internal variables (frozen copies, seeds) are not model inputs
    pub input: bool,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum EqPol {
    /// comparisons for equality involving solver outputs answer true (the fit stays where it is)
    Stay,
    /// ... answer false
    Move,
    /// false up to the given generation of solver outputs, true from then on
    StayAfter(u32),
    /// ordinary decisions
    Generic,
}
impl EqPol {
    pub fn answer(self, g: u32) -> Option<bool> {
        match self {
            EqPol::Stay => Some(true),
            EqPol::Move => Some(false),
            EqPol::StayAfter(k) => Some(g > k),
            EqPol::Generic => None,
        }
    }
}
/// order comparisons between quantities that depend on different generations of solver outputs
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum OrdPol {
    Generic,
    /// the newer one is larger
    Up,
    /// the newer one is smaller
    Down,
}
/// forced answer to "a < b" (and "a <= b"), given the generations of both sides
pub fn ord_policy(p: OrdPol, list: &mut std::collections::VecDeque<bool>, a: u32, b: u32) -> Option<bool> {
    if a == b {
        return None;
    }
    if let Some(newer_larger) = list.pop_front() {
        return Some(if a > b { !newer_larger } else { newer_larger });
    }
    match p {
        OrdPol::Generic => None,
        OrdPol::Up => Some(b > a),
        OrdPol::Down => Some(b < a),
    }
}
#[derive(Clone, Debug)]
pub struct Fact {
    pub p: NF,
    pub rel: Rel,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    hc: std::collections::HashMap<Node, u32>,
    pub sh: Vec<[f64; 2]>,
    /// generation of solver outputs a node depends on (0: none)
    pub al: Vec<u32>,
    pub gen_: u32,
    pub ordpol: OrdPol,
    nf: Vec<Option<NF>>,
    pub nfx: Nfx,
    pub vars: Vec<VarInfo>,
    pub facts: Vec<Fact>,
    pub fp: bool,
    pub eps: Option<u32>,
    pub eqpol: EqPol,
    /// the first comparisons on solver outputs: is the newer side larger?
    pub cmp_pol: std::collections::VecDeque<bool>,
    pub prefix: Vec<bool>,
    pub taken: Vec<bool>,
    pub open: Vec<bool>,
    pub decided: std::collections::HashMap<(NF, u8), bool>,
    /// the numeric shadow k still satisfies everything assumed so far
    pub sh_ok: [bool; 2],
    pub max_forks: usize,
    pub smt: Option<Smt>,
    pub smt_timeout: u64,
    /// time limit of a feasibility query (both sides are explored when it runs out)
    pub fork_ms: u64,
    pub faults: Vec<usize>,
    pub fact_calls: usize,
    /// solver outputs are fresh unconstrained variables
    pub havoc: bool,
    pub n_havoc: usize,
    /// searches for clear counterexamples made on this path
    pub margins: usize,
    pub outs: Vec<u32>,
    /// alternative readings of the latest model
    pub alts: Vec<Vec<(u32, f64)>>,
    pub n_dec: usize,
    pub n_ident: usize,
    pub n_fork: usize,
    pub generic_ne: usize,
    /// coincidences taken, and asked about, on this path
    pub coinc: usize,
    pub n_eq: usize,
    pub det_assumed: usize,
    pub nfcheck: usize,
    pub log: Vec<String>,
    pub seed: u64,
    /// record of order comparisons on solver outputs
    pub trace: bool,
}
thread_local! { pub static CTX: RefCell<Ctx> = RefCell::new(Ctx::new()); }

pub fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    CTX.with(|c| f(&mut c.borrow_mut()))
}
/// Concrete readings of the uninterpreted functions, used for numeric shadows and replays.
/// id 0..: link function h and derivatives (any real -> real); 8..: positive link and derivatives
pub fn uf_eval(id: u16, x: f64) -> f64 {
    match id {
        0 => x + x * x * x / 10.0 + 0.05 * x * x,
        1 => 1.0 + 0.3 * x * x + 0.1 * x,
        2 => 0.6 * x + 0.1,
        3 => 0.6,
        8 => 0.4 + (0.7 * x).exp(),
        9 => 0.7 * (0.7 * x).exp(),
        10 => 0.49 * (0.7 * x).exp(),
        11 => 0.343 * (0.7 * x).exp(),
        // cumulative probabilities (100..) and quantiles (200..): any fixed reading
        100..200 => 0.5 + (x / (1.0 + 0.01 * id as f64)).atan() / 3.2,
        200..300 => 1.3 * x + 0.2 * (x - 0.4).powi(3) + 0.01 * id as f64,
        _ => 0.0,
    }
}
pub fn uf_pos(id: u16) -> bool {
    (8..100).contains(&id)
}
fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hash_name(seed: u64, k: u64, name: &str) -> u64 {
    let mut h = mix(seed.wrapping_mul(31).wrapping_add(k));
    for b in name.bytes() {
        h = mix(h ^ b as u64);
    }
    h
}
/// a dyadic sample inside the domain
pub fn sample(dom: Dom, h: u64) -> Rat {
    let u = (h % 4093) as i64 + 1; // 1..=4093 out of 4096
    let unit = Rat::new(u, 4096);
    match dom {
        Dom::Real => unit.mul(&Rat::int(3)).sub(&Rat::new(3, 2)),
        Dom::Pos | Dom::NonNeg => unit.mul(&Rat::new(9, 4)).add(&Rat::new(1, 4)),
        Dom::Count => Rat::int(1 + (h % 3) as i64),
        Dom::In(a, b) => {
            let (a, b) = (Rat::from_f64(a).unwrap(), Rat::from_f64(b).unwrap());
            let w = b.sub(&a);
            a.add(&w.mul(&unit.mul(&Rat::new(7, 8)).add(&Rat::new(1, 16))))
        }
    }
}
pub const BAND: f64 = 1125899906842624.0; // 2^50

impl Ctx {
    pub fn new() -> Ctx {
        let mut c = Ctx {
            nodes: vec![],
            hc: Default::default(),
            sh: vec![],
            al: vec![],
            gen_: 0,
            ordpol: OrdPol::Generic,
            nf: vec![],
            nfx: Nfx::default(),
            vars: vec![],
            facts: vec![],
            fp: false,
            eps: None,
            eqpol: EqPol::Generic,
            cmp_pol: Default::default(),
            prefix: vec![],
            taken: vec![],
            open: vec![],
            decided: Default::default(),
            sh_ok: [true, true],
            max_forks: 64,
            smt: None,
            smt_timeout: 8000,
            fork_ms: 700,
            faults: vec![],
            fact_calls: 0,
            havoc: false,
            n_havoc: 0,
            margins: 0,
            outs: vec![],
            alts: vec![],
            n_dec: 0,
            n_ident: 0,
            n_fork: 0,
            generic_ne: 0,
            coinc: 0,
            n_eq: 0,
            det_assumed: 0,
            nfcheck: 0,
            log: vec![],
            seed: 1,
            trace: false,
        };
        c.nfx.budget_terms = 4_000_000;
        c
    }
    /// forget everything about the previous path except the solver process
    pub fn reset(&mut self, prefix: Vec<bool>) {
        let smt = self.smt.take();
        let (t, s) = (self.smt_timeout, self.seed);
        *self = Ctx::new();
        self.smt = smt;
        self.smt_timeout = t;
        self.seed = s;
        self.prefix = prefix;
    }
    fn calc(&self, n: &Node, k: usize) -> f64 {
        let v = |i: &u32| self.sh[*i as usize][k];
        match n {
            C(r) => r.to_f64(),
            Var(i) => self.vars[*i as usize].sample[k].to_f64(),
            PInf => f64::INFINITY,
            NInf => f64::NEG_INFINITY,
            NaN => f64::NAN,
            Add(a, b) => v(a) + v(b),
            Sub(a, b) => v(a) - v(b),
            Mul(a, b) => v(a) * v(b),
            Div(a, b) => v(a) / v(b),
            Neg(a) => -v(a),
            Powi(a, n) => v(a).powi(*n),
            Sqrt(a) => v(a).sqrt(),
            Exp(a) => v(a).exp(),
            Ln(a) => v(a).ln(),
            Ln1p(a) => v(a).ln_1p(),
            Expm1(a) => v(a).exp_m1(),
            Abs(a) => v(a).abs(),
            Sgn(a) => v(a).signum(),
            UF(id, a) => uf_eval(*id, v(a)),
            Alias(a) => v(a),
        }
    }
    pub fn mk(&mut self, n: Node) -> u32 {
        if let Some(i) = self.hc.get(&n) {
            return *i;
        }
        let s = [self.calc(&n, 0), self.calc(&n, 1)];
        let al = match &n {
            C(_) | Var(_) | PInf | NInf | NaN => 0,
            Add(a, b) | Sub(a, b) | Mul(a, b) | Div(a, b) => self.al[*a as usize].max(self.al[*b as usize]),
            Neg(a) | Powi(a, _) | Sqrt(a) | Exp(a) | Ln(a) | Ln1p(a) | Expm1(a) | Abs(a) | Sgn(a) | UF(_, a) => self.al[*a as usize],
            Alias(_) => {
                self.gen_ += 1;
                self.gen_
            }
        };
        let i = self.nodes.len() as u32;
        self.nodes.push(n.clone());
        self.sh.push(s);
        self.al.push(al);
        self.nf.push(None);
        self.hc.insert(n, i);
        i
    }
    pub fn cst(&mut self, r: Rat) -> u32 {
        self.mk(C(r))
    }
    pub fn cf(&mut self, x: f64) -> u32 {
        if x.is_nan() {
            return self.mk(NaN);
        }
        if x == f64::INFINITY {
            return self.mk(PInf);
        }
        if x == f64::NEG_INFINITY {
            return self.mk(NInf);
        }
        let r = Rat::from_f64(x).unwrap();
        self.cst(r)
    }
    pub fn konst(&self, i: u32) -> Option<&Rat> {
        match &self.nodes[i as usize] {
            C(r) => Some(r),
            _ => None,
        }
    }
    fn is0(&self, i: u32) -> bool {
        matches!(&self.nodes[i as usize], C(r) if r.is_zero())
    }
    fn is1(&self, i: u32) -> bool {
        matches!(&self.nodes[i as usize], C(r) if r.is_one())
    }
    pub fn special(&self, i: u32) -> bool {
        matches!(&self.nodes[i as usize], PInf | NInf | NaN)
    }
    /// sign of a finite node, for arithmetic with infinities
    fn fsign(&mut self, i: u32) -> f64 {
        if let Some(r) = self.konst(i) {
            return r.sign() as f64;
        }
        let p = self.nf(i);
        match self.nfx.sign(&p) {
            Sign::Pos => 1.0,
            Sign::Neg => -1.0,
            Sign::Zero => 0.0,
            _ => {
                // decided like any other comparison
                let z = self.cst(Rat::zero());
                if self.less(z, i) {
                    1.0
                } else {
                    -1.0
                }
            }
        }
    }
    fn spec_val(&mut self, i: u32) -> f64 {
        match self.nodes[i as usize] {
            PInf => f64::INFINITY,
            NInf => f64::NEG_INFINITY,
            NaN => f64::NAN,
            _ => self.fsign(i),
        }
    }
    fn special_op(&mut self, n: &Node) -> u32 {
        let v = match *n {
            Add(a, b) => self.spec_add(a, b, 1.0),
            Sub(a, b) => self.spec_add(a, b, -1.0),
            Mul(a, b) => self.spec_val(a) * self.spec_val(b),
            Div(a, b) => {
                let (x, y) = (self.spec_val(a), self.spec_val(b));
                x / y
            }
            Neg(a) => -self.spec_val(a),
            Powi(a, k) => self.spec_val(a).powi(k),
            Sqrt(a) => self.spec_val(a).sqrt(),
            Exp(a) => self.spec_val(a).exp(),
            Ln(a) => self.spec_val(a).ln(),
            Ln1p(a) => self.spec_val(a).ln_1p(),
            Expm1(a) => self.spec_val(a).exp_m1(),
            Abs(a) => self.spec_val(a).abs(),
            Sgn(a) => self.spec_val(a).signum(),
            _ => f64::NAN,
        };
        self.cf(v)
    }
    fn spec_add(&mut self, a: u32, b: u32, s: f64) -> f64 {
        let x = if self.special(a) { self.spec_val(a) } else { 0.0 };
        let y = if self.special(b) { self.spec_val(b) } else { 0.0 };
        x + s * y
    }
    pub fn op(&mut self, n: Node) -> u32 {
        let sp = match &n {
            Add(a, b) | Sub(a, b) | Mul(a, b) | Div(a, b) => self.special(*a) || self.special(*b),
            Neg(a) | Powi(a, _) | Sqrt(a) | Exp(a) | Ln(a) | Ln1p(a) | Expm1(a) | Abs(a) | Sgn(a) => self.special(*a),
            _ => false,
        };
        if sp {
            return self.special_op(&n);
        }
        if self.fp {
            return self.mk(n);
        }
        match n {
            Add(a, b) => {
                if self.is0(a) {
                    return b;
                }
                if self.is0(b) {
                    return a;
                }
                if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) {
                    let r = x.add(y);
                    return self.cst(r);
                }
            }
            Sub(a, b) => {
                if self.is0(b) {
                    return a;
                }
                if a == b {
                    return self.cst(Rat::zero());
                }
                if self.is0(a) {
                    return self.op(Neg(b));
                }
                if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) {
                    let r = x.sub(y);
                    return self.cst(r);
                }
            }
            Mul(a, b) => {
                if self.is1(a) {
                    return b;
                }
                if self.is1(b) {
                    return a;
                }
                if self.is0(a) || self.is0(b) {
                    return self.cst(Rat::zero());
                }
                if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) {
                    let r = x.mul(y);
                    return self.cst(r);
                }
            }
            Div(a, b) => {
                if self.is0(b) {
                    let s = self.fsign(a);
                    return self.cf(s / 0.0);
                }
                if self.is1(b) {
                    return a;
                }
                if self.is0(a) {
                    return a;
                }
                if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) {
                    let r = x.div(y);
                    return self.cst(r);
                }
            }
            Neg(a) => {
                if let Some(x) = self.konst(a) {
                    let r = x.neg();
                    return self.cst(r);
                }
                if let Neg(x) = self.nodes[a as usize] {
                    return x;
                }
            }
            Powi(a, k) => {
                if k == 0 {
                    return self.cst(Rat::one());
                }
                if k == 1 {
                    return a;
                }
                if k < 0 {
                    let o = self.cst(Rat::one());
                    let p = self.op(Powi(a, -k));
                    return self.op(Div(o, p));
                }
                if let Some(x) = self.konst(a) {
                    let r = x.powi(k);
                    return self.cst(r);
                }
            }
            Sqrt(a) => {
                if let Some(x) = self.konst(a) {
                    let x = x.clone();
                    if x.sign() < 0 {
                        return self.mk(NaN);
                    }
                    if let Some(r) = rat_sqrt(&x) {
                        return self.cst(r);
                    }
                }
            }
            Exp(a) | Expm1(a) => {
                if self.is0(a) {
                    return if matches!(n, Exp(_)) { self.cst(Rat::one()) } else { a };
                }
            }
            Ln(a) => {
                if self.is1(a) {
                    return self.cst(Rat::zero());
                }
                if let Some(x) = self.konst(a) {
                    if x.sign() < 0 {
                        return self.mk(NaN);
                    }
                    if x.is_zero() {
                        return self.mk(NInf);
                    }
                }
            }
            Ln1p(a) => {
                if self.is0(a) {
                    return a;
                }
                if let Some(x) = self.konst(a) {
                    let s = x.add(&Rat::one()).sign();
                    if s < 0 {
                        return self.mk(NaN);
                    }
                    if s == 0 {
                        return self.mk(NInf);
                    }
                }
            }
            Abs(a) => {
                if let Some(x) = self.konst(a) {
                    let r = x.abs();
                    return self.cst(r);
                }
            }
            Sgn(a) => {
                if let Some(x) = self.konst(a) {
                    let r = Rat::int(if x.sign() < 0 { -1 } else { 1 });
                    return self.cst(r);
                }
            }
            _ => {}
        }
        self.mk(n)
    }
    pub fn new_var(&mut self, name: &str, dom: Dom, input: bool, smp: Option<[Rat; 2]>) -> u32 {
        if let Some(v) = self.vars.iter().find(|v| v.name == name) {
            return v.node;
        }
        let id = self.vars.len() as u32;
        let s = smp.unwrap_or_else(|| [sample(dom, hash_name(self.seed, 0, name)), sample(dom, hash_name(self.seed, 1, name))]);
        self.vars.push(VarInfo { name: name.into(), dom, node: 0, sample: s, input });
        let n = self.mk(Var(id));
        self.vars[id as usize].node = n;
        // domain facts
        let p = self.nf(n);
        match dom {
            Dom::Real => {}
            Dom::Pos | Dom::Count => self.add_fact_nf(&p, Rel::Gt),
            Dom::NonNeg => self.add_fact_nf(&p, Rel::Ge),
            Dom::In(a, b) => {
                let (a, b) = (Rat::from_f64(a).unwrap(), Rat::from_f64(b).unwrap());
                if a.sign() >= 0 {
                    let at = p.0[0].0[0].0;
                    self.nfx.hi.insert(at, b.clone());
                }
                let lo = Rc::new(p.sub(&Poly::cst(a)));
                let hi = Rc::new(Poly::cst(b).sub(&p));
                self.add_fact_nf(&lo, Rel::Gt);
                self.add_fact_nf(&hi, Rel::Gt);
            }
        }
        n
    }
    pub fn nf(&mut self, i: u32) -> NF {
        if let Some(p) = &self.nf[i as usize] {
            return p.clone();
        }
        let n = self.nodes[i as usize].clone();
        let r: Poly = match n {
            C(r) => Poly::cst(r),
            PInf | NInf | NaN => crate::engine::abort_inconclusive(format!("a non-finite value entered an exact expression ({n:?})")),
            Var(v) => {
                let (pos, val) = {
                    let x = &self.vars[v as usize];
                    let pos = match x.dom {
                        Dom::Pos | Dom::Count => true,
                        Dom::In(a, _) => a >= 0.0,
                        _ => false,
                    };
                    (pos, [x.sample[0].to_f64(), x.sample[1].to_f64()])
                };
                let a = self.nfx.var_atom(v, pos, val);
                self.nfx.atom_poly(a)
            }
            Add(a, b) => {
                let (p, q) = (self.nf(a), self.nf(b));
                p.add(&q)
            }
            Sub(a, b) => {
                let (p, q) = (self.nf(a), self.nf(b));
                p.sub(&q)
            }
            Mul(a, b) => {
                let (p, q) = (self.nf(a), self.nf(b));
                self.nfx.mul(&p, &q)
            }
            Div(a, b) => {
                let (p, q) = (self.nf(a), self.nf(b));
                let v = self.nfx.inv(&q);
                self.nfx.mul(&p, &v)
            }
            Neg(a) => self.nf(a).neg(),
            Powi(a, k) => {
                let p = self.nf(a);
                self.nfx.powi(&p, k as u32)
            }
            Sqrt(a) => {
                let p = self.nf(a);
                self.nfx.sqrt(&p)
            }
            Exp(a) => {
                let p = self.nf(a);
                self.nfx.exp(&p)
            }
            Expm1(a) => {
                let p = self.nf(a);
                self.nfx.exp(&p).sub(&Poly::cst(Rat::one()))
            }
            Ln(a) => {
                let p = self.nf(a);
                self.nfx.ln(&p)
            }
            Ln1p(a) => {
                let p = Rc::new(self.nf(a).add(&Poly::cst(Rat::one())));
                self.nfx.ln(&p)
            }
            Abs(a) => {
                let p = self.nf(a);
                self.nfx.abs(&p)
            }
            Sgn(a) => {
                let p = self.nf(a);
                self.nfx.sgn(&p)
            }
            UF(id, a) => {
                let p = self.nf(a);
                self.nfx.uf(id, &p)
            }
            Alias(a) => (*self.nf(a)).clone(),
        };
        let r = Rc::new(r);
        // numeric cross-check of the normal form against the DAG
        let v = self.nfx.eval(&r);
        let m = self.nfx.eval_mag(&r);
        for k in 0..2 {
            let d = self.sh[i as usize][k];
            if self.sh_ok[k] && d.is_finite() && v[k].is_finite() && m[k].is_finite() && m[k] < 1e60 {
                self.nfcheck += 1;
                let om = match &self.nodes[i as usize] {
                    Add(a, b) | Sub(a, b) => self.sh[*a as usize][k].abs() + self.sh[*b as usize][k].abs(),
                    // a factor that vanishes in exact arithmetic
                    Mul(a, b) => self.sh[*a as usize][k].abs().max(self.sh[*b as usize][k].abs()),
                    _ => 0.0,
                };
                if (d - v[k]).abs() > 1e-5 * (d.abs() + m[k]) + 1e-9 * om + 1e-12 {
                    abort_inconclusive(format!("normal form disagrees with its expression numerically: {} vs {} (node {:?})", d, v[k], self.nodes[i as usize]));
                }
            }
        }
        self.nf[i as usize] = Some(r.clone());
        r
    }
    pub fn add_fact_nf(&mut self, p: &NF, rel: Rel) {
        let s = match rel {
            Rel::Gt => Some(Sign::Pos),
            Rel::Ge => Some(Sign::NonNeg),
            Rel::Lt => Some(Sign::Neg),
            Rel::Le => Some(Sign::NonPos),
            _ => None,
        };
        if let Some(s) = s {
            self.nfx.add_fact(p, s);
        }
        let v = self.nfx.eval(p);
        for k in 0..2 {
            let ok = match rel {
                Rel::Gt => v[k] > 0.0,
                Rel::Ge => v[k] >= 0.0,
                Rel::Lt => v[k] < 0.0,
                Rel::Le => v[k] <= 0.0,
                Rel::Eq => v[k].abs() < 1e-12,
                Rel::Ne => v[k] != 0.0,
            };
            if !ok {
                self.sh_ok[k] = false;
            }
        }
        self.facts.push(Fact { p: p.clone(), rel });
    }
    /// assume `a rel b`
    pub fn assume(&mut self, a: u32, rel: Rel, b: u32) {
        let d = self.op(Sub(a, b));
        if let Some(r) = self.konst(d) {
            if !rel.holds(r.sign()) {
                crate::engine::abort_infeasible();
            }
            return;
        }
        let p = self.nf(d);
        self.add_fact_nf(&p, rel);
    }
    // ---- decisions ------------------------------------------------------------------------
    fn policy(&self, a: u32, b: u32) -> bool {
        self.al[a as usize] > 0 || self.al[b as usize] > 0
    }
    pub fn equal(&mut self, a: u32, b: u32, code: bool) -> bool {
        self.n_dec += 1;
        if matches!(self.nodes[a as usize], NaN) || matches!(self.nodes[b as usize], NaN) {
            return false;
        }
        if a == b {
            return true;
        }
        if self.special(a) || self.special(b) {
            return false; // distinct nodes, at least one infinite
        }
        if self.policy(a, b) {
            if let Some(r) = self.eqpol.answer(self.al[a as usize].max(self.al[b as usize])) {
                return r;
            }
        }
        let d = self.op(Sub(a, b));
        if let Some(r) = self.konst(d) {
            return r.is_zero();
        }
        let p = self.nf(d);
        if self.nfx.is_zero(&p) {
            return true;
        }
        match self.nfx.sign(&p) {
            Sign::Pos | Sign::Neg => return false,
            _ => {}
        }
        let key = (p.clone(), 0u8);
        if let Some(x) = self.decided.get(&key) {
            return *x;
        }
        // The code under test may treat a coincidence specially: at most one per path is explored.
        if code && self.coinc == 0 && self.fork_eq(&p) {
            self.coinc += 1;
            self.decided.insert(key, true);
            self.add_fact_nf(&p, Rel::Eq);
            return true;
        }
        // other exact coincidences of generic reals are excluded (assumed away, and counted)
        self.decided.insert(key, false);
        self.generic_ne += 1;
        self.add_fact_nf(&p, Rel::Ne);
        false
    }
    /// like `fork`, taking the different values first
    fn fork_eq(&mut self, p: &NF) -> bool {
        let k = self.taken.len();
        let (ans, open) = if k < self.prefix.len() {
            (self.prefix[k], false)
        } else if k >= self.max_forks || self.n_eq >= 12 {
            return false;
        } else {
            (false, self.feasible(p, Rel::Eq))
        };
        self.n_eq += 1;
        self.n_fork += 1;
        self.taken.push(ans);
        self.open.push(open);
        ans
    }
    /// a < b
    pub fn less(&mut self, a: u32, b: u32) -> bool {
        self.order(a, b, true)
    }
    pub fn less_eq(&mut self, a: u32, b: u32) -> bool {
        self.order(a, b, false)
    }
    fn order(&mut self, a: u32, b: u32, strict: bool) -> bool {
        self.n_dec += 1;
        let (na, nb) = (&self.nodes[a as usize], &self.nodes[b as usize]);
        if matches!(na, NaN) || matches!(nb, NaN) {
            return false;
        }
        if a == b {
            return !strict;
        }
        match (na, nb) {
            (PInf, _) | (_, NInf) => return false,
            (NInf, _) | (_, PInf) => return true,
            _ => {}
        }
        if self.policy(a, b) {
            let (x, y) = (self.al[a as usize], self.al[b as usize]);
            if let Some(l) = ord_policy(self.ordpol, &mut self.cmp_pol, x, y) {
                return l;
            }
        }
        let d = self.op(Sub(a, b));
        if let Some(r) = self.konst(d) {
            return if strict { r.sign() < 0 } else { r.sign() <= 0 };
        }
        let p = self.nf(d);
        if self.nfx.is_zero(&p) {
            return !strict;
        }
        match self.nfx.sign(&p) {
            Sign::Pos => return false,
            Sign::Neg => return true,
            Sign::NonPos if !strict => return true,
            Sign::NonNeg if strict => return false,
            _ => {}
        }
        let key = (p.clone(), 1 + strict as u8);
        if let Some(x) = self.decided.get(&key) {
            return *x;
        }
        // negated question already answered?
        let nkey = (Rc::new(p.neg()), 1 + (!strict) as u8);
        if let Some(x) = self.decided.get(&nkey) {
            return !*x;
        }
        // neighbouring strictness: a<b true implies a<=b
        let okey = (p.clone(), 1 + (!strict) as u8);
        match (strict, self.decided.get(&okey)) {
            (false, Some(true)) => return true,
            (true, Some(false)) => return false,
            _ => {}
        }
        let (yes, no) = if strict { (Rel::Lt, Rel::Ge) } else { (Rel::Le, Rel::Gt) };
        let ans = self.fork(&p, yes, no);
        self.decided.insert(key, ans);
        self.add_fact_nf(&p, if ans { yes } else { no });
        ans
    }
    fn fork(&mut self, p: &NF, yes: Rel, no: Rel) -> bool {
        self.n_fork += 1;
        let k = self.taken.len();
        let ans;
        let mut open = false;
        if k < self.prefix.len() {
            ans = self.prefix[k];
            open = false;
        } else {
            if k >= self.max_forks {
                abort_inconclusive(format!("more than {} symbolic branches on one path", self.max_forks));
            }
            let y = self.feasible(p, yes);
            let n = if y { self.feasible(p, no) } else { true };
            if y && n {
                ans = true;
                open = true;
            } else {
                ans = y;
            }
        }
        self.taken.push(ans);
        self.open.push(open);
        ans
    }
    fn feasible(&mut self, p: &NF, rel: Rel) -> bool {
        if self.smt.is_none() {
            return true;
        }
        let f = Fact { p: p.clone(), rel };
        match crate::smt::sat(self, &[f.clone()], self.fork_ms) {
            Verdict::Unsat => false,
            Verdict::Sat(_) => true,
            // without the rest of the path
            _ => !matches!(crate::smt::sat_alone(self, &f, self.fork_ms), Verdict::Unsat),
        }
    }
    // ---- calculus -------------------------------------------------------------------------
    pub fn diff(&mut self, i: u32, v: u32, memo: &mut FxMap<u32, u32>) -> u32 {
        if let Some(r) = memo.get(&i) {
            return *r;
        }
        let zero = self.cst(Rat::zero());
        let n = self.nodes[i as usize].clone();
        let r = match n {
            C(_) | PInf | NInf | NaN => zero,
            Var(_) => {
                if i == v {
                    self.cst(Rat::one())
                } else {
                    zero
                }
            }
            Add(a, b) => {
                let (x, y) = (self.diff(a, v, memo), self.diff(b, v, memo));
                self.op(Add(x, y))
            }
            Sub(a, b) => {
                let (x, y) = (self.diff(a, v, memo), self.diff(b, v, memo));
                self.op(Sub(x, y))
            }
            Mul(a, b) => {
                let (x, y) = (self.diff(a, v, memo), self.diff(b, v, memo));
                let l = self.op(Mul(x, b));
                let r = self.op(Mul(a, y));
                self.op(Add(l, r))
            }
            Div(a, b) => {
                let (x, y) = (self.diff(a, v, memo), self.diff(b, v, memo));
                let l = self.op(Div(x, b));
                if self.is0(y) {
                    l
                } else {
                    let t = self.op(Mul(i, y));
                    let r = self.op(Div(t, b));
                    self.op(Sub(l, r))
                }
            }
            Neg(a) => {
                let x = self.diff(a, v, memo);
                self.op(Neg(x))
            }
            Powi(a, k) => {
                let x = self.diff(a, v, memo);
                let c = self.cst(Rat::int(k as i64));
                let p = self.op(Powi(a, k - 1));
                let t = self.op(Mul(c, p));
                self.op(Mul(t, x))
            }
            Sqrt(a) => {
                let x = self.diff(a, v, memo);
                let c = self.cst(Rat::new(1, 2));
                let t = self.op(Mul(c, x));
                if self.is0(t) { t } else { self.op(Div(t, i)) }
            }
            Exp(a) => {
                let x = self.diff(a, v, memo);
                self.op(Mul(i, x))
            }
            Expm1(a) => {
                let x = self.diff(a, v, memo);
                let e = self.op(Exp(a));
                self.op(Mul(e, x))
            }
            Ln(a) => {
                let x = self.diff(a, v, memo);
                if self.is0(x) { x } else { self.op(Div(x, a)) }
            }
            Ln1p(a) => {
                let x = self.diff(a, v, memo);
                let o = self.cst(Rat::one());
                let d = self.op(Add(a, o));
                if self.is0(x) { x } else { self.op(Div(x, d)) }
            }
            Abs(a) => {
                let x = self.diff(a, v, memo);
                let s = self.op(Sgn(a));
                self.op(Mul(s, x))
            }
            Sgn(_) => zero,
            UF(id, a) => {
                let x = self.diff(a, v, memo);
                let d = self.mk(UF(id + 1, a));
                self.op(Mul(d, x))
            }
            Alias(a) => self.diff(a, v, memo),
        };
        memo.insert(i, r);
        r
    }
    pub fn subst(&mut self, i: u32, map: &FxMap<u32, u32>, memo: &mut FxMap<u32, u32>) -> u32 {
        if let Some(r) = map.get(&i) {
            return *r;
        }
        if let Some(r) = memo.get(&i) {
            return *r;
        }
        let n = self.nodes[i as usize].clone();
        let mut s = |c: &mut Ctx, x: u32| c.subst(x, map, memo);
        let r = match n {
            C(_) | Var(_) | PInf | NInf | NaN => i,
            Add(a, b) => {
                let (a, b) = (s(self, a), s(self, b));
                self.op(Add(a, b))
            }
            Sub(a, b) => {
                let (a, b) = (s(self, a), s(self, b));
                self.op(Sub(a, b))
            }
            Mul(a, b) => {
                let (a, b) = (s(self, a), s(self, b));
                self.op(Mul(a, b))
            }
            Div(a, b) => {
                let (a, b) = (s(self, a), s(self, b));
                self.op(Div(a, b))
            }
            Neg(a) => {
                let a = s(self, a);
                self.op(Neg(a))
            }
            Powi(a, k) => {
                let a = s(self, a);
                self.op(Powi(a, k))
            }
            Sqrt(a) => {
                let a = s(self, a);
                self.op(Sqrt(a))
            }
            Exp(a) => {
                let a = s(self, a);
                self.op(Exp(a))
            }
            Ln(a) => {
                let a = s(self, a);
                self.op(Ln(a))
            }
            Ln1p(a) => {
                let a = s(self, a);
                self.op(Ln1p(a))
            }
            Expm1(a) => {
                let a = s(self, a);
                self.op(Expm1(a))
            }
            Abs(a) => {
                let a = s(self, a);
                self.op(Abs(a))
            }
            Sgn(a) => {
                let a = s(self, a);
                self.op(Sgn(a))
            }
            UF(id, a) => {
                let a = s(self, a);
                self.mk(UF(id, a))
            }
            Alias(a) => {
                let a = s(self, a);
                self.mk(Alias(a))
            }
        };
        memo.insert(i, r);
        r
    }
    pub fn text(&self, i: u32, depth: usize) -> String {
        if depth == 0 {
            return "..".into();
        }
        let t = |x: &u32| self.text(*x, depth - 1);
        match &self.nodes[i as usize] {
            C(r) => format!("{r}"),
            Var(v) => self.vars[*v as usize].name.clone(),
            PInf => "inf".into(),
            NInf => "-inf".into(),
            NaN => "NaN".into(),
            Add(a, b) => format!("({}+{})", t(a), t(b)),
            Sub(a, b) => format!("({}-{})", t(a), t(b)),
            Mul(a, b) => format!("({}*{})", t(a), t(b)),
            Div(a, b) => format!("({}/{})", t(a), t(b)),
            Neg(a) => format!("(-{})", t(a)),
            Powi(a, k) => format!("{}^{k}", t(a)),
            Sqrt(a) => format!("sqrt({})", t(a)),
            Exp(a) => format!("exp({})", t(a)),
            Ln(a) => format!("ln({})", t(a)),
            Ln1p(a) => format!("ln1p({})", t(a)),
            Expm1(a) => format!("expm1({})", t(a)),
            Abs(a) => format!("|{}|", t(a)),
            Sgn(a) => format!("sgn({})", t(a)),
            UF(k, a) => format!("h{k}({})", t(a)),
            Alias(a) => t(a),
        }
    }
}
fn rat_sqrt(c: &Rat) -> Option<Rat> {
    let (n, d) = (c.numer(), c.denom());
    let (a, b) = (n.sqrt(), d.sqrt());
    if &a * &a == n && &b * &b == d { Some(Rat::from_bigints(a, b)) } else { None }
}
