//! The SMT solver: a persistent process per worker thread; every query starts from `(reset)`.
use crate::nf::*;
use crate::rat::Rat;
use crate::sym::{Ctx, Fact};
use std::collections::{HashMap, BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::mpsc::{Receiver, channel};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rel {
    Lt,
    Le,
    Gt,
    Ge,
    Eq,
    Ne,
}
impl Rel {
    pub fn holds(self, s: i32) -> bool {
        match self {
            Rel::Lt => s < 0,
            Rel::Le => s <= 0,
            Rel::Gt => s > 0,
            Rel::Ge => s >= 0,
            Rel::Eq => s == 0,
            Rel::Ne => s != 0,
        }
    }
    pub fn smt(self, a: &str, b: &str) -> String {
        match self {
            Rel::Lt => format!("(< {a} {b})"),
            Rel::Le => format!("(<= {a} {b})"),
            Rel::Gt => format!("(> {a} {b})"),
            Rel::Ge => format!("(>= {a} {b})"),
            Rel::Eq => format!("(= {a} {b})"),
            Rel::Ne => format!("(not (= {a} {b}))"),
        }
    }
}
#[derive(Clone, Debug)]
pub enum Verdict {
    Unsat,
    /// values of the model's input variables, by variable index
    Sat(Vec<(u32, f64)>),
    Unknown(String),
}
/// marks atoms that are not variables in the list of requested values
pub const NOVAR: u32 = u32::MAX;
pub static QUERIES: AtomicU64 = AtomicU64::new(0);
pub static UNSAT: AtomicU64 = AtomicU64::new(0);
pub static SAT: AtomicU64 = AtomicU64::new(0);
pub static UNKNOWN: AtomicU64 = AtomicU64::new(0);
pub static MICROS: AtomicU64 = AtomicU64::new(0);
pub static BYTES: AtomicU64 = AtomicU64::new(0);

pub struct Smt {
    child: Child,
    inp: ChildStdin,
    out: Receiver<String>,
    pub exe: String,
}
impl Smt {
    pub fn start(exe: &str) -> Smt {
        let args: &[&str] = if exe.contains("cvc5") { &["--lang=smt2", "--incremental", "--produce-models"] } else { &["-in", "-smt2"] };
        let mut child = Command::new(exe).args(args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("solver not found");
        let inp = child.stdin.take().unwrap();
        let so = child.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            for l in BufReader::new(so).lines() {
                match l {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
        });
        Smt { child, inp, out: rx, exe: exe.into() }
    }
    fn restart(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let e = self.exe.clone();
        let n = Smt::start(&e);
        let old = std::mem::replace(self, n);
        std::mem::forget(old);
    }
    /// send a script, collect lines up to the end marker
    pub fn run(&mut self, script: &str, timeout_ms: u64) -> Result<Vec<String>, String> {
        let t0 = Instant::now();
        BYTES.fetch_add(script.len() as u64, Relaxed);
        let full = format!("{script}\n(echo \"<<end>>\")\n");
        if self.inp.write_all(full.as_bytes()).is_err() || self.inp.flush().is_err() {
            self.restart();
            return Err("solver process ended".into());
        }
        let mut lines = vec![];
        let limit = Duration::from_millis(timeout_ms * 2 + 3000);
        loop {
            let left = limit.checked_sub(t0.elapsed()).unwrap_or(Duration::ZERO);
            match self.out.recv_timeout(left) {
                Ok(l) => {
                    if l.contains("<<end>>") {
                        break;
                    }
                    lines.push(l);
                }
                Err(_) => {
                    self.restart();
                    MICROS.fetch_add(t0.elapsed().as_micros() as u64, Relaxed);
                    return Err("timeout".into());
                }
            }
        }
        MICROS.fetch_add(t0.elapsed().as_micros() as u64, Relaxed);
        if let Some(e) = lines.iter().find(|l| l.contains("(error")) {
            return Err(format!("solver error: {e}"));
        }
        Ok(lines)
    }
}
impl Drop for Smt {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// parse an SMT-LIB real literal as f64
pub fn parse_real(s: &str) -> Option<f64> {
    let t = s.replace('(', " ( ").replace(')', " ) ");
    let toks: Vec<&str> = t.split_whitespace().collect();
    fn go(t: &[&str], i: &mut usize) -> Option<f64> {
        let x = *t.get(*i)?;
        *i += 1;
        if x == "(" {
            let op = *t.get(*i)?;
            *i += 1;
            let mut args = vec![];
            while *t.get(*i)? != ")" {
                args.push(go(t, i)?);
            }
            *i += 1;
            match (op, args.as_slice()) {
                ("-", [a]) => Some(-a),
                ("-", [a, b]) => Some(a - b),
                ("/", [a, b]) => Some(a / b),
                ("+", [a, b]) => Some(a + b),
                ("*", [a, b]) => Some(a * b),
                _ => None,
            }
        } else {
            x.trim_end_matches('?').parse().ok()
        }
    }
    let mut i = 0;
    go(&toks, &mut i)
}

/// polynomial conditions over atoms, ready to be printed
pub struct Query {
    /// (polynomial, relation to zero), each without negative exponents
    conds: Vec<(NF, Rel)>,
    /// raw conditions `N1*D2 rel N2*D1` kept as products
    raw: Vec<(Vec<NF>, Vec<NF>, Rel)>,
    pins: Vec<(AtomId, String, String)>,
    /// without the facts of the path
    lone: bool,
}
fn gcd(a: i32, b: i32) -> i32 {
    if b == 0 { a.abs() } else { gcd(b, a % b) }
}
impl Query {
    pub fn new() -> Query {
        Query { conds: vec![], raw: vec![], pins: vec![], lone: false }
    }
    /// p rel 0, clearing denominators (a denominator of unknown sign is squared)
    pub fn cond(&mut self, nfx: &mut Nfx, p: &Poly, rel: Rel) {
        let (n, d) = nfx.combine(p);
        let mut q = n;
        if !matches!(rel, Rel::Eq | Rel::Ne) {
            for (a, e) in &d {
                if nfx.atom_sign(*a) != Sign::Pos && (e / U) % 2 != 0 {
                    let t = nfx.atom_poly(*a);
                    q = nfx.mul(&q, &t);
                }
            }
        }
        self.conds.push((Rc::new(q), rel));
        for (a, _) in &d {
            let t = nfx.atom_poly(*a);
            self.conds.push((Rc::new(t), Rel::Ne));
        }
    }
    /// a rel b over separately combined sides
    pub fn equality(&mut self, nfx: &mut Nfx, a: &Poly, b: &Poly, rel: Rel) {
        let (na, da) = nfx.combine(a);
        let (nb, db) = nfx.combine(b);
        let mono = |m: &Mono| Rc::new(Poly(vec![(m.clone(), Rat::one())]));
        // common part of the two denominators cancels
        let mut ra = Mono::new();
        let mut rb = Mono::new();
        let common = |m: &Mono, o: &Mono| -> Mono {
            m.iter()
                .filter_map(|(x, e)| {
                    let f = exp_of(o, *x);
                    let k = e - f.min(*e);
                    if k > 0 { Some((*x, k)) } else { None }
                })
                .collect()
        };
        ra.extend(common(&da, &db));
        rb.extend(common(&db, &da));
        self.raw.push((vec![Rc::new(na), mono(&rb)], vec![Rc::new(nb), mono(&ra)], rel));
        for (x, _) in da.iter().chain(db.iter()) {
            let t = nfx.atom_poly(*x);
            self.conds.push((Rc::new(t), Rel::Ne));
        }
    }
    /// every input variable present stays within these limits
    pub fn boxed(&mut self, ctx: &Ctx, lim: i64) {
        for (i, a) in ctx.nfx.atoms.iter().enumerate() {
            if matches!(a.kind, Kind::Var(_)) {
                self.pin(i as AtomId, format!("(- {lim}.0)"), format!("{lim}.0"));
            }
        }
    }
    pub fn pin(&mut self, a: AtomId, lo: String, hi: String) {
        self.pins.push((a, lo, hi));
    }
    pub fn script(mut self, ctx: &mut Ctx, timeout: u64) -> (String, Vec<(u32, AtomId)>) {
        let nfx = &mut ctx.nfx;
        let mut need: Vec<AtomId> = vec![];
        let mut seen: BTreeSet<AtomId> = Default::default();
        let mut polys: Vec<NF> = self.conds.iter().map(|c| c.0.clone()).collect();
        for r in &self.raw {
            polys.extend(r.0.iter().cloned());
            polys.extend(r.1.iter().cloned());
        }
        for p in &polys {
            for a in p.atoms() {
                if seen.insert(a) {
                    need.push(a);
                }
            }
        }
        // definitions of algebraic atoms: (lhs factors, rhs factors)
        let mut defs: Vec<(Vec<NF>, Vec<NF>, Rel)> = vec![];
        let mut used_facts: BTreeSet<usize> = Default::default();
        let zero = Rc::new(Poly::zero());
        loop {
            while let Some(a) = need.pop() {
                let ap = Rc::new(nfx.atom_poly(a));
                let kind = nfx.atoms[a as usize].kind.clone();
                let mut add = |nfx: &mut Nfx, p: &Poly| -> (NF, NF) {
                    let (n, d) = nfx.combine(p);
                    let n = Rc::new(n);
                    let d = Rc::new(Poly(vec![(d, Rat::one())]));
                    for q in [&n, &d] {
                        for x in q.atoms() {
                            if seen.insert(x) {
                                need.push(x);
                            }
                        }
                    }
                    (n, d)
                };
                match kind {
                    Kind::Sqrt(r) => {
                        let (n, d) = add(nfx, &r);
                        defs.push((vec![ap.clone(), ap.clone(), d], vec![n], Rel::Eq));
                        defs.push((vec![ap.clone()], vec![zero.clone()], Rel::Ge));
                    }
                    Kind::Sgn(r) => {
                        let (n, d) = add(nfx, &r);
                        let one = Rc::new(Poly::cst(Rat::one()));
                        defs.push((vec![ap.clone(), ap.clone()], vec![one], Rel::Eq));
                        defs.push((vec![ap.clone(), n, d], vec![zero.clone()], Rel::Ge));
                    }
                    Kind::Den(r) => {
                        let (n, d) = add(nfx, &r);
                        defs.push((vec![ap.clone(), d], vec![n], Rel::Eq));
                        defs.push((vec![ap.clone()], vec![zero.clone()], Rel::Ne));
                    }
                    Kind::Exp(m) => {
                        // exp is above one exactly on positive arguments
                        let one = Rc::new(Poly::cst(Rat::one()));
                        match nfx.mono_sign(&m) {
                            Sign::Pos => defs.push((vec![ap.clone()], vec![one], Rel::Gt)),
                            Sign::Neg => defs.push((vec![ap.clone()], vec![one], Rel::Lt)),
                            _ => {}
                        }
                    }
                    Kind::UF(id, _) if crate::sym::uf_pos(id) && id == 8 => {
                        defs.push((vec![ap.clone()], vec![zero.clone()], Rel::Gt));
                    }
                    _ => {}
                }
                if nfx.atoms[a as usize].pos {
                    defs.push((vec![ap.clone()], vec![zero.clone()], Rel::Gt));
                }
            }
            // facts whose atoms are all present
            let mut grew = false;
            for (i, f) in ctx.facts.iter().enumerate() {
                if self.lone {
                    break;
                }
                if used_facts.contains(&i) || f.p.0.len() > 400 {
                    continue;
                }
                let at = f.p.atoms();
                if at.iter().all(|a| seen.contains(a) || matches!(nfx.atoms[*a as usize].kind, Kind::Den(_))) {
                    used_facts.insert(i);
                    grew = true;
                    let (n, d) = nfx.combine(&f.p);
                    let d = Rc::new(Poly(vec![(d, Rat::one())]));
                    let n = Rc::new(n);
                    for q in [&n, &d] {
                        for x in q.atoms() {
                            if seen.insert(x) {
                                need.push(x);
                            }
                        }
                    }
                    match f.rel {
                        Rel::Eq | Rel::Ne => defs.push((vec![n], vec![zero.clone()], f.rel)),
                        _ => defs.push((vec![n, d], vec![zero.clone()], f.rel)),
                    }
                }
            }
            if !grew && need.is_empty() {
                break;
            }
        }
        // exponent denominators
        let mut den: BTreeMap<AtomId, i32> = seen.iter().map(|a| (*a, 1)).collect();
        let mut all: Vec<NF> = polys.clone();
        for (l, r, _) in &defs {
            all.extend(l.iter().cloned());
            all.extend(r.iter().cloned());
        }
        for p in &all {
            for (m, _) in &p.0 {
                for (a, e) in m {
                    let d = U / gcd(*e, U);
                    let x = den.entry(*a).or_insert(1);
                    *x = *x / gcd(*x, d) * d;
                }
            }
        }
        let mut s = String::new();
        let _ = writeln!(s, "(reset)\n(set-option :timeout {timeout})\n(set-option :pp.decimal true)\n(set-logic QF_NRA)");
        for (a, d) in &den {
            let _ = writeln!(s, "(declare-const a{a} Real)");
            if *d > 1 {
                // a{a} stands for the positive root; fractional exponents only occur on positive atoms
                let _ = writeln!(s, "(assert (> a{a} 0.0))");
            }
        }
        let poly = |p: &NF| -> String {
            if p.0.is_empty() {
                return "0.0".into();
            }
            let mut ts: Vec<String> = Vec::with_capacity(p.0.len());
            for (m, c) in &p.0 {
                let mut f: Vec<String> = vec![];
                if !c.is_one() || m.is_empty() {
                    f.push(c.smt());
                }
                for (a, e) in m {
                    let k = (*e as i64 * den[a] as i64) / U as i64;
                    for _ in 0..k {
                        f.push(format!("a{a}"));
                    }
                }
                ts.push(if f.len() == 1 { f.pop().unwrap() } else { format!("(* {})", f.join(" ")) });
            }
            if ts.len() == 1 { ts.pop().unwrap() } else { format!("(+ {})", ts.join(" ")) }
        };
        let prod = |v: &Vec<NF>| -> String {
            let mut f: Vec<String> = v.iter().filter(|p| !p.as_const().map(|c| c.is_one()).unwrap_or(false)).map(|p| poly(p)).collect();
            if f.is_empty() {
                return "1.0".into();
            }
            if f.len() == 1 { f.pop().unwrap() } else { format!("(* {})", f.join(" ")) }
        };
        for (l, r, rel) in &defs {
            let _ = writeln!(s, "(assert {})", rel.smt(&prod(l), &prod(r)));
        }
        let mut done: BTreeSet<String> = Default::default();
        for (p, rel) in &self.conds {
            let t = rel.smt(&poly(p), "0.0");
            if !done.contains(&t) {
                let _ = writeln!(s, "(assert {t})");
                done.insert(t);
            }
        }
        for (l, r, rel) in &self.raw {
            let _ = writeln!(s, "(assert {})", rel.smt(&prod(l), &prod(r)));
        }
        for (a, lo, hi) in &self.pins {
            if den.contains_key(a) {
                if lo == hi {
                    let _ = writeln!(s, "(assert (= a{a} {lo}))");
                } else {
                    let _ = writeln!(s, "(assert (and (<= {lo} a{a}) (<= a{a} {hi})))");
                }
            }
        }
        let mut vars = vec![];
        for (a, d) in &den {
            match nfx.atoms[*a as usize].kind {
                Kind::Var(v) => vars.push((v, *a)),
                Kind::Exp(_) | Kind::Ln(_) if *d == 1 => vars.push((NOVAR, *a)),
                _ => {}
            }
        }
        let _ = writeln!(s, "(check-sat)");
        (s, vars)
    }
}
pub fn run(ctx: &mut Ctx, q: Query, timeout: u64) -> Verdict {
    let (s, vars) = q.script(ctx, timeout);
    run_script(ctx, &s, &vars, timeout)
}
pub fn run_script(ctx: &mut Ctx, s: &str, vars: &[(u32, AtomId)], timeout: u64) -> Verdict {
    let Some(smt) = ctx.smt.as_mut() else { return Verdict::Unknown("no solver".into()) };
    QUERIES.fetch_add(1, Relaxed);
    if let Ok(d) = std::env::var("GV_DUMP") {
        let k = QUERIES.load(Relaxed);
        let _ = std::fs::write(format!("{d}/q{k}.smt2"), s);
    }
    match smt.run(s, timeout) {
        Err(e) => {
            UNKNOWN.fetch_add(1, Relaxed);
            Verdict::Unknown(e)
        }
        Ok(l) => match l.first().map(|x| x.trim()) {
            Some("unsat") => {
                UNSAT.fetch_add(1, Relaxed);
                Verdict::Unsat
            }
            Some("sat") => {
                SAT.fetch_add(1, Relaxed);
                let mut m = vec![];
                let mut trans = vec![];
                if !vars.is_empty() {
                    let names: Vec<String> = vars.iter().map(|x| format!("a{}", x.1)).collect();
                    if let Ok(l) = smt.run(&format!("(get-value ({}))", names.join(" ")), 2000) {
                        let t = l.join(" ");
                        for (v, a) in vars {
                            let key = format!("(a{a} ");
                            if let Some(i) = t.find(&key) {
                                let rest = &t[i + key.len()..];
                                // up to the matching parenthesis
                                let mut depth = 0i32;
                                let mut end = rest.len();
                                for (j, ch) in rest.char_indices() {
                                    if ch == '(' {
                                        depth += 1
                                    }
                                    if ch == ')' {
                                        if depth == 0 {
                                            end = j;
                                            break;
                                        }
                                        depth -= 1
                                    }
                                }
                                if let Some(x) = parse_real(&rest[..end]) {
                                    if *v == NOVAR { trans.push((*a, x)) } else { m.push((*v, x)) }
                                }
                            }
                        }
                    }
                }
                ctx.alts = alternatives(ctx, &m, &trans);
                Verdict::Sat(m)
            }
            Some(x) => {
                UNKNOWN.fetch_add(1, Relaxed);
                Verdict::Unknown(x.to_string())
            }
            None => {
                UNKNOWN.fetch_add(1, Relaxed);
                Verdict::Unknown("no answer".into())
            }
        },
    }
}
/// the solver treats exponentials and logarithms as independent symbols: inputs recovered from the
/// values it chose for those are further candidates
fn alternatives(ctx: &Ctx, m: &[(u32, f64)], trans: &[(AtomId, f64)]) -> Vec<Vec<(u32, f64)>> {
    let nfx = &ctx.nfx;
    let mut out = vec![];
    for logs in [false, true] {
        let mut r: BTreeMap<u32, f64> = m.iter().cloned().collect();
        let mut set: BTreeSet<u32> = Default::default();
        for (a, x) in trans {
            match &nfx.atoms[*a as usize].kind {
                Kind::Exp(mono) if !logs && *x > 0.0 => {
                    // ln x = product of powers; solved for the first variable not yet determined
                    let var = |a: AtomId| if let Kind::Var(v) = nfx.atoms[a as usize].kind { Some(v) } else { None };
                    let Some((t, e)) = mono.iter().find(|(a, _)| var(*a).map(|v| !set.contains(&v)).unwrap_or(false)) else { continue };
                    let mut rest = 1.0;
                    for (o, f) in mono.iter().filter(|p| p.0 != *t) {
                        let v = var(*o).and_then(|v| r.get(&v).copied()).unwrap_or(nfx.atoms[*o as usize].val[0]);
                        rest *= v.powf(*f as f64 / U as f64);
                    }
                    let q = x.ln() / rest;
                    let e = *e as f64 / U as f64;
                    let q = if e == 1.0 { q } else { q.powf(1.0 / e) };
                    if q.is_finite() {
                        r.insert(var(*t).unwrap(), q);
                        set.insert(var(*t).unwrap());
                    }
                }
                Kind::Ln(p) if logs => {
                    if let [(mono, c)] = p.0.as_slice() {
                        if let [(b, e)] = mono.as_slice() {
                            if let (Kind::Var(v), true, true) = (&nfx.atoms[*b as usize].kind, c.is_one(), *e == U) {
                                if x.abs() < 30.0 {
                                    r.insert(*v, x.exp());
                                    set.insert(*v);
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        if !set.is_empty() {
            out.push(r.into_iter().collect());
        }
    }
    out
}
/// `p rel 0` together with the path's facts, every monomial being an independent variable:
/// refutes it by linear arithmetic alone or says nothing
pub fn refuted_linearly(ctx: &mut Ctx, p: &Poly, rel: Rel) -> bool {
    let mut names: HashMap<Mono, usize> = HashMap::new();
    let mut body = String::new();
    let mut line = |p: &Poly, rel: Rel| {
        let mut ts = vec![];
        for (m, c) in &p.0 {
            if m.is_empty() {
                ts.push(c.smt());
            } else {
                let k = names.len();
                let k = *names.entry(m.clone()).or_insert(k);
                ts.push(format!("(* {} m{k})", c.smt()));
            }
        }
        let t = match ts.len() {
            0 => "0.0".into(),
            1 => ts.pop().unwrap(),
            _ => format!("(+ {})", ts.join(" ")),
        };
        let _ = writeln!(body, "(assert {})", rel.smt(&t, "0.0"));
    };
    line(p, rel);
    for f in ctx.facts.iter().filter(|f| f.p.0.len() <= 5000) {
        line(&f.p, f.rel);
    }
    let mut s = String::from("(reset)\n(set-option :timeout 1000)\n(set-logic QF_LRA)\n");
    for k in 0..names.len() {
        let _ = writeln!(s, "(declare-const m{k} Real)");
    }
    s.push_str(&body);
    s.push_str("(check-sat)\n");
    matches!(run_script(ctx, &s, &[], 1000), Verdict::Unsat)
}
pub fn sat_alone(ctx: &mut Ctx, f: &Fact, timeout: u64) -> Verdict {
    let mut q = Query::new();
    q.lone = true;
    q.cond(&mut ctx.nfx, &f.p, f.rel);
    run(ctx, q, timeout)
}
/// is the current path together with `extra` satisfiable?
pub fn sat(ctx: &mut Ctx, extra: &[Fact], timeout: u64) -> Verdict {
    let mut q = Query::new();
    for f in extra {
        q.cond(&mut ctx.nfx, &f.p, f.rel);
    }
    run(ctx, q, timeout)
}
