//! `S`: the scalar the unmodified generic library code is instantiated with.  In symbolic mode it
//! is a node of the expression DAG (`sym::Ctx`); in concrete mode it is a plain f64 (replays),
//! with the same hooks (solver-output marking, comparison policy, fault schedule).
use crate::engine::abort_inconclusive;
use crate::nf::*;
use crate::rat::Rat;
use crate::scalar::Core;
use crate::smt::Rel;
use crate::sym::{BAND, Ctx, Dom, EqPol, hash_name, sample, Node, Node::*, OrdPol, ord_policy, uf_eval, with};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;

pub const CON: u32 = u32::MAX;
#[derive(Clone, Copy)]
pub struct S {
    pub id: u32,
    pub v: f64,
    pub al: u32,
}
pub struct NCtx {
    pub eqpol: EqPol,
    pub faults: Vec<usize>,
    pub fact_calls: usize,
    pub eps: f64,
    pub ordpol: OrdPol,
    pub gen_: u32,
    pub cmp_pol: std::collections::VecDeque<bool>,
    /// solver outputs are arbitrary vectors (drawn like inputs) instead of solutions
    pub havoc: Option<(Option<std::collections::HashMap<String, f64>>, u64, u64)>,
    pub outs: Vec<f64>,
    pub drawn: Vec<(String, f64)>,
}
thread_local! {
    pub static NCTX: RefCell<NCtx> = const { RefCell::new(NCtx { eqpol: EqPol::Generic, faults: vec![], fact_calls: 0, eps: 0.0, ordpol: OrdPol::Generic, gen_: 0, cmp_pol: std::collections::VecDeque::new(), havoc: None, outs: vec![], drawn: vec![] }) };
    pub static SYMBOLIC: Cell<bool> = const { Cell::new(false) };
}
pub fn nwith<R>(f: impl FnOnce(&mut NCtx) -> R) -> R {
    NCTX.with(|c| f(&mut c.borrow_mut()))
}
pub fn symbolic() -> bool {
    SYMBOLIC.with(|m| m.get())
}
pub fn sy(id: u32) -> S {
    S { id, v: 0.0, al: 0 }
}
pub fn con(v: f64) -> S {
    S { id: CON, v, al: 0 }
}
fn op(n: Node) -> S {
    with(|c| sy(c.op(n)))
}
fn un(a: S, n: impl FnOnce(u32) -> Node, f: impl FnOnce(f64) -> f64) -> S {
    if a.id == CON { S { id: CON, v: f(a.v), al: a.al } } else { op(n(a.id)) }
}
fn bi(a: S, b: S, n: impl FnOnce(u32, u32) -> Node, f: impl FnOnce(f64, f64) -> f64) -> S {
    if a.id == CON && b.id == CON {
        S { id: CON, v: f(a.v, b.v), al: a.al.max(b.al) }
    } else {
        assert!(a.id != CON && b.id != CON, "mixed scalar modes");
        op(n(a.id, b.id))
    }
}
/// forced answer of an order comparison involving solver outputs
fn forced(a: S, b: S) -> Option<bool> {
    if a.v.is_infinite() || b.v.is_infinite() || a.v.is_nan() || b.v.is_nan() {
        return None;
    }
    nwith(|c| ord_policy(c.ordpol, &mut c.cmp_pol, a.al, b.al))
}
impl Core for S {
    fn c(x: f64) -> S {
        if symbolic() { with(|c| sy(c.cf(x))) } else { con(x) }
    }
    fn encode(self) -> f64 {
        if self.id == CON {
            return self.v;
        }
        with(|c| match &c.nodes[self.id as usize] {
            // constants that are not floating-point numbers travel as nodes
            C(r) if Rat::from_f64(r.to_f64()).as_ref() == Some(r) => r.to_f64(),
            PInf => f64::INFINITY,
            NInf => f64::NEG_INFINITY,
            NaN => f64::NAN,
            _ => BAND + self.id as f64,
        })
    }
    fn decode(x: f64) -> S {
        if !symbolic() {
            return con(x);
        }
        if x >= BAND && x < BAND + 4e9 {
            let i = (x - BAND) as u32;
            let ok = with(|c| (i as usize) < c.nodes.len());
            if ok && x.fract() == 0.0 {
                return sy(i);
            }
        }
        if x > BAND / 2.0 && x < BAND * 2.0 {
            abort_inconclusive("a symbolic value was modified while encoded as a primitive number".into());
        }
        S::c(x)
    }
    fn shadow(self) -> f64 {
        if self.id == CON { self.v } else { with(|c| c.sh[self.id as usize][0]) }
    }
    fn text(self) -> String {
        if self.id == CON { format!("{:e}", self.v) } else { with(|c| c.text(self.id, 6)) }
    }
    fn o_add(self, o: S) -> S {
        bi(self, o, Add, |a, b| a + b)
    }
    fn o_sub(self, o: S) -> S {
        bi(self, o, Sub, |a, b| a - b)
    }
    fn o_mul(self, o: S) -> S {
        bi(self, o, Mul, |a, b| a * b)
    }
    fn o_div(self, o: S) -> S {
        bi(self, o, Div, |a, b| a / b)
    }
    fn o_neg(self) -> S {
        un(self, Neg, |a| -a)
    }
    fn o_powi(self, n: i32) -> S {
        un(self, |a| Powi(a, n), |a| a.powi(n))
    }
    fn o_powf(self, e: S) -> S {
        if self.id == CON {
            return bi(self, e, Add, |a, b| a.powf(b));
        }
        let k = with(|c| c.konst(e.id).cloned());
        match k {
            Some(r) => {
                if let Some(n) = r.as_int() {
                    return self.o_powi(n as i32);
                }
                if let Some(n) = r.mul(&Rat::int(2)).as_int() {
                    return self.o_sqrt().o_powi(n as i32);
                }
                (self.o_ln().o_mul(e)).o_exp()
            }
            None => (self.o_ln().o_mul(e)).o_exp(),
        }
    }
    fn o_sqrt(self) -> S {
        un(self, Sqrt, f64::sqrt)
    }
    fn o_exp(self) -> S {
        un(self, Exp, f64::exp)
    }
    fn o_ln(self) -> S {
        un(self, Ln, f64::ln)
    }
    fn o_ln1p(self) -> S {
        un(self, Ln1p, f64::ln_1p)
    }
    fn o_expm1(self) -> S {
        un(self, Expm1, f64::exp_m1)
    }
    fn o_abs(self) -> S {
        un(self, Abs, f64::abs)
    }
    fn o_signum(self) -> S {
        un(self, Sgn, f64::signum)
    }
    fn o_uf(self, id: u16) -> S {
        if self.id == CON {
            return un(self, Neg, |a| uf_eval(id, a));
        }
        with(|c| sy(c.mk(UF(id, self.id))))
    }
    fn eqv(self, o: S) -> bool {
        if self.id == CON {
            if self.al > 0 || o.al > 0 {
                if let Some(r) = nwith(|c| c.eqpol).answer(self.al.max(o.al)) {
                    return r;
                }
            }
            return self.v == o.v;
        }
        with(|c| c.equal(self.id, o.id, false))
    }
    fn eqc(self, o: S) -> bool {
        if self.id == CON {
            return self.eqv(o);
        }
        with(|c| c.equal(self.id, o.id, true))
    }
    fn ltv(self, o: S) -> bool {
        if self.id == CON {
            return forced(self, o).unwrap_or(self.v < o.v);
        }
        with(|c| c.less(self.id, o.id))
    }
    fn lev(self, o: S) -> bool {
        if self.id == CON {
            return forced(self, o).unwrap_or(self.v <= o.v);
        }
        with(|c| c.less_eq(self.id, o.id))
    }
    fn total(self, o: S) -> Ordering {
        if self.id == CON {
            return match forced(self, o) {
                Some(true) => Ordering::Less,
                Some(false) => Ordering::Greater,
                None => self.v.total_cmp(&o.v),
            };
        }
        with(|c| {
            let n = |c: &Ctx, i: u32| matches!(c.nodes[i as usize], NaN);
            match (n(c, self.id), n(c, o.id)) {
                (true, true) => return Ordering::Equal,
                (true, false) => return Ordering::Greater,
                (false, true) => return Ordering::Less,
                _ => {}
            }
            if self.id == o.id {
                Ordering::Equal
            } else if c.less(self.id, o.id) {
                Ordering::Less
            } else {
                // exact coincidences of generic reals are excluded
                Ordering::Greater
            }
        })
    }
    fn nan_() -> S {
        S::c(f64::NAN)
    }
    fn inf_() -> S {
        S::c(f64::INFINITY)
    }
    fn ninf_() -> S {
        S::c(f64::NEG_INFINITY)
    }
    fn eps_() -> S {
        if !symbolic() {
            return con(nwith(|c| c.eps));
        }
        with(|c| match c.eps {
            Some(e) => sy(e),
            None => sy(c.cst(Rat::zero())),
        })
    }
    fn is_nan_(self) -> bool {
        if self.id == CON { self.v.is_nan() } else { with(|c| matches!(c.nodes[self.id as usize], NaN)) }
    }
    fn is_inf_(self) -> bool {
        if self.id == CON { self.v.is_infinite() } else { with(|c| matches!(c.nodes[self.id as usize], PInf | NInf)) }
    }
    fn sign_neg(self) -> bool {
        if self.id == CON {
            return self.v.is_sign_negative();
        }
        with(|c| {
            let z = c.cst(Rat::zero());
            c.less(self.id, z)
        })
    }
    fn alias(self) -> S {
        if self.id == CON {
            return nwith(|c| {
                c.gen_ += 1;
                let mut v = self.v;
                if let Some((inp, seed, k)) = &c.havoc {
                    let name = format!("step{}", c.drawn.len());
                    v = inp.as_ref().and_then(|m| m.get(&name).copied()).unwrap_or_else(|| sample(Dom::Real, hash_name(*seed, *k, &name)).to_f64());
                    c.drawn.push((name, v));
                }
                c.outs.push(v);
                S { al: c.gen_, v, id: CON }
            });
        }
        with(|c| {
            let mut id = self.id;
            if c.havoc {
                let name = format!("step{}", c.n_havoc);
                c.n_havoc += 1;
                id = c.new_var(&name, Dom::Real, true, None);
            } else if c.special(id) {
                return self;
            }
            let a = c.mk(Alias(id));
            c.outs.push(a);
            sy(a)
        })
    }
    fn det_is_zero(m: &[S], n: usize) -> bool {
        if !symbolic() {
            let v: Vec<f64> = m[..n * n].iter().map(|x| x.v).collect();
            return elimination(&v, n, &[], 0).is_none();
        }
        let d = crate::lapack::det(m, n);
        if d.id == CON {
            return d.v == 0.0;
        }
        with(|c| {
            if c.special(d.id) {
                return false;
            }
            let p = c.nf(d.id);
            if c.nfx.is_zero(&p) {
                return true;
            }
            if !matches!(c.nfx.sign(&p), Sign::Pos | Sign::Neg) {
                c.det_assumed += 1;
                c.add_fact_nf(&p, Rel::Ne);
            }
            false
        })
    }
    fn eliminate(m: &[S], n: usize, rhs: &[S], k: usize) -> Option<Vec<S>> {
        if symbolic() {
            return None;
        }
        let v = |x: &[S]| x.iter().map(|x| x.v).collect::<Vec<f64>>();
        elimination(&v(&m[..n * n]), n, &v(rhs), k).map(|r| r.into_iter().map(con).collect())
    }
    fn solver_fault() -> bool {
        if !symbolic() {
            return nwith(|c| {
                let k = c.fact_calls;
                c.fact_calls += 1;
                c.faults.contains(&k)
            });
        }
        with(|c| {
            let k = c.fact_calls;
            c.fact_calls += 1;
            c.faults.contains(&k)
        })
    }
    fn unsupported(what: &str) -> S {
        abort_inconclusive(format!("unsupported operation on the instrumented scalar: {what}"))
    }
}

/// Gaussian elimination with partial pivoting after symmetric scaling; None when singular to
/// working precision
fn elimination(m: &[f64], n: usize, rhs: &[f64], k: usize) -> Option<Vec<f64>> {
    if m.iter().any(|x| !x.is_finite()) {
        return Some(vec![f64::NAN; rhs.len()]);
    }
    let sc: Vec<f64> = (0..n).map(|i| {
        let d = m[i * n + i].abs();
        if d > 0.0 { 1.0 / d.sqrt() } else { 1.0 }
    }).collect();
    let mut a: Vec<f64> = (0..n * n).map(|t| m[t] * sc[t / n] * sc[t % n]).collect();
    let mut b: Vec<f64> = (0..n * k).map(|t| rhs[t] * sc[t / k]).collect();
    let big = a.iter().fold(0.0f64, |s, x| s.max(x.abs()));
    for c in 0..n {
        let p = (c..n).max_by(|i, j| a[i * n + c].abs().total_cmp(&a[j * n + c].abs())).unwrap();
        if a[p * n + c].abs() <= 1e-13 * big {
            return None;
        }
        for j in 0..n {
            a.swap(p * n + j, c * n + j);
        }
        for j in 0..k {
            b.swap(p * k + j, c * k + j);
        }
        for i in 0..n {
            if i != c {
                let f = a[i * n + c] / a[c * n + c];
                for j in c..n {
                    a[i * n + j] -= f * a[c * n + j];
                }
                for j in 0..k {
                    b[i * k + j] -= f * b[c * k + j];
                }
            }
        }
    }
    Some((0..n * k).map(|t| b[t] / a[(t / k) * n + t / k] * sc[t / k]).collect())
}
