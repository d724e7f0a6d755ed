//! Normal forms: Laurent polynomials with rational exponents over "atoms" (input symbols and
//! transcendental / algebraic sub-terms).  This is the term rewriter in front of the SMT solver: it
//! brings the two sides of an obligation over common denominators so that the solver is left with
//! a polynomial (in)equality.  Every normal form is cross-checked numerically against the DAG it
//! came from (see `Ctx::nf`).
use crate::rat::{Rat, invm, mulm, powm};
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Signed, ToPrimitive, Zero};
use smallvec::SmallVec;
use std::cmp::Ordering;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_i32(&mut self, i: i32) {
        self.write_u64(i as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_i64(&mut self, i: i64) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

/// exponents are stored in units of 1/U
pub const U: i32 = 5040;
pub type AtomId = u32;
pub type Mono = SmallVec<[(AtomId, i32); 5]>;

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Poly(pub Vec<(Mono, Rat)>);
pub type NF = Rc<Poly>;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Kind {
    Var(u32),
    Exp(Mono),
    ExpOpaque(NF),
    Ln(NF),
    Sqrt(NF),
    Sgn(NF),
    UF(u16, NF),
    Den(NF),
}
pub struct Atom {
    pub kind: Kind,
    /// strictly positive (syntactically known or by the declared domain)
    pub pos: bool,
    pub val: [f64; 2],
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sign {
    Pos,
    NonNeg,
    Zero,
    NonPos,
    Neg,
    Unknown,
}
impl Sign {
    pub fn neg(self) -> Sign {
        use Sign::*;
        match self {
            Pos => Neg,
            NonNeg => NonPos,
            NonPos => NonNeg,
            Neg => Pos,
            s => s,
        }
    }
    pub fn mul(self, o: Sign) -> Sign {
        use Sign::*;
        match (self, o) {
            (Zero, _) | (_, Zero) => Zero,
            (Unknown, _) | (_, Unknown) => Unknown,
            (Pos, x) | (x, Pos) => x,
            (Neg, x) | (x, Neg) => x.neg(),
            (NonNeg, x) => x,
            (x, NonNeg) => x,
            (NonPos, NonPos) => NonNeg,
        }
    }
}

#[derive(Default)]
pub struct Nfx {
    pub atoms: Vec<Atom>,
    lookup: HashMap<Kind, AtomId>,
    dens: Vec<AtomId>,
    /// facts: primitive polynomial (leading coefficient positive) -> sign
    pub facts: HashMap<NF, Sign>,
    canon_memo: HashMap<NF, NF>,
    /// upper bounds of non-negative variables
    pub hi: HashMap<AtomId, Rat>,
    pub budget_terms: usize,
    pub max_terms_seen: usize,
    depth: u32,
}

pub fn mono_cmp(a: &Mono, b: &Mono) -> Ordering {
    // lexicographic with the *newest* atom most significant (Den/Sqrt/Exp atoms are created
    // after variables); compares from the back
    let (mut i, mut j) = (a.len(), b.len());
    loop {
        match (i, j) {
            (0, 0) => return Ordering::Equal,
            (0, _) => return if b[j - 1].1 > 0 { Ordering::Less } else { Ordering::Greater },
            (_, 0) => return if a[i - 1].1 > 0 { Ordering::Greater } else { Ordering::Less },
            _ => {
                let (x, y) = (a[i - 1], b[j - 1]);
                if x.0 == y.0 {
                    match x.1.cmp(&y.1) {
                        Ordering::Equal => {
                            i -= 1;
                            j -= 1;
                        }
                        o => return o,
                    }
                } else if x.0 > y.0 {
                    return if x.1 > 0 { Ordering::Greater } else { Ordering::Less };
                } else {
                    return if y.1 > 0 { Ordering::Less } else { Ordering::Greater };
                }
            }
        }
    }
}
pub fn mono_mul(a: &Mono, b: &Mono) -> Mono {
    let mut r = Mono::new();
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        if a[i].0 == b[j].0 {
            let e = a[i].1 + b[j].1;
            if e != 0 {
                r.push((a[i].0, e));
            }
            i += 1;
            j += 1;
        } else if a[i].0 < b[j].0 {
            r.push(a[i]);
            i += 1;
        } else {
            r.push(b[j]);
            j += 1;
        }
    }
    r.extend_from_slice(&a[i..]);
    r.extend_from_slice(&b[j..]);
    r
}
pub fn mono_pow(a: &Mono, num: i32, den: i32) -> Option<Mono> {
    let mut r = Mono::new();
    for (x, e) in a {
        let v = *e as i64 * num as i64;
        if v % den as i64 != 0 {
            return None;
        }
        r.push((*x, (v / den as i64) as i32));
    }
    Some(r)
}
pub fn mono_inv(a: &Mono) -> Mono {
    a.iter().map(|(x, e)| (*x, -e)).collect()
}
/// a / b when all resulting exponents are >= 0
fn mono_div(a: &Mono, b: &Mono) -> Option<Mono> {
    let r = mono_mul(a, &mono_inv(b));
    if r.iter().any(|x| x.1 < 0) { None } else { Some(r) }
}
pub fn exp_of(m: &Mono, a: AtomId) -> i32 {
    m.iter().find(|x| x.0 == a).map(|x| x.1).unwrap_or(0)
}

impl Poly {
    pub fn zero() -> Poly {
        Poly(vec![])
    }
    pub fn cst(c: Rat) -> Poly {
        if c.is_zero() { Poly(vec![]) } else { Poly(vec![(Mono::new(), c)]) }
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn as_const(&self) -> Option<Rat> {
        match self.0.len() {
            0 => Some(Rat::zero()),
            1 if self.0[0].0.is_empty() => Some(self.0[0].1.clone()),
            _ => None,
        }
    }
    pub fn add(&self, o: &Poly) -> Poly {
        self.addc(o, false)
    }
    pub fn sub(&self, o: &Poly) -> Poly {
        self.addc(o, true)
    }
    fn addc(&self, o: &Poly, neg: bool) -> Poly {
        let (a, b) = (&self.0, &o.0);
        let mut r = Vec::with_capacity(a.len() + b.len());
        let (mut i, mut j) = (0, 0);
        while i < a.len() && j < b.len() {
            match mono_cmp(&a[i].0, &b[j].0) {
                Ordering::Greater => {
                    r.push(a[i].clone());
                    i += 1;
                }
                Ordering::Less => {
                    r.push((b[j].0.clone(), if neg { b[j].1.neg() } else { b[j].1.clone() }));
                    j += 1;
                }
                Ordering::Equal => {
                    let c = if neg { a[i].1.sub(&b[j].1) } else { a[i].1.add(&b[j].1) };
                    if !c.is_zero() {
                        r.push((a[i].0.clone(), c));
                    }
                    i += 1;
                    j += 1;
                }
            }
        }
        r.extend_from_slice(&a[i..]);
        for t in &b[j..] {
            r.push((t.0.clone(), if neg { t.1.neg() } else { t.1.clone() }));
        }
        Poly(r)
    }
    pub fn scale(&self, c: &Rat) -> Poly {
        if c.is_zero() {
            return Poly::zero();
        }
        if c.is_one() {
            return self.clone();
        }
        Poly(self.0.iter().map(|(m, k)| (m.clone(), k.mul(c))).collect())
    }
    pub fn neg(&self) -> Poly {
        self.scale(&Rat::int(-1))
    }
    pub fn mul_mono(&self, m: &Mono, c: &Rat) -> Poly {
        if c.is_zero() {
            return Poly::zero();
        }
        // multiplication by a monomial preserves the order
        Poly(self.0.iter().map(|(n, k)| (mono_mul(n, m), k.mul(c))).collect())
    }
    /// plain product, no reduction of algebraic atoms
    fn mul_raw(&self, o: &Poly) -> Poly {
        if self.0.len() == 1 {
            return o.mul_mono(&self.0[0].0, &self.0[0].1);
        }
        if o.0.len() == 1 {
            return self.mul_mono(&o.0[0].0, &o.0[0].1);
        }
        let mut h: FxMap<Mono, Rat> = FxMap::default();
        h.reserve(self.0.len() * o.0.len() / 2);
        for (m, c) in &self.0 {
            for (n, d) in &o.0 {
                let k = c.mul(d);
                let mm = mono_mul(m, n);
                match h.get_mut(&mm) {
                    Some(v) => *v = v.add(&k),
                    None => {
                        h.insert(mm, k);
                    }
                }
            }
        }
        Poly::from_map(h)
    }
    fn from_map(h: FxMap<Mono, Rat>) -> Poly {
        let mut v: Vec<(Mono, Rat)> = h.into_iter().filter(|x| !x.1.is_zero()).collect();
        v.sort_by(|a, b| mono_cmp(&b.0, &a.0));
        Poly(v)
    }
    pub fn atoms(&self) -> Vec<AtomId> {
        let mut s: Vec<AtomId> = self.0.iter().flat_map(|t| t.0.iter().map(|x| x.0)).collect();
        s.sort();
        s.dedup();
        s
    }
    fn max_exp(&self, a: AtomId) -> i32 {
        self.0.iter().map(|t| exp_of(&t.0, a)).max().unwrap_or(0)
    }
}

fn small_factor(n: &BigInt) -> Option<Vec<(u32, u32)>> {
    // factor |n| over primes < 2000, None when it does not split
    let mut n = n.abs();
    let mut r = vec![];
    if n.is_zero() {
        return None;
    }
    let mut p: u32 = 2;
    while p < 2000 && !n.is_one() {
        let mut k = 0;
        let pb = BigInt::from(p);
        while (&n % &pb).is_zero() {
            n /= &pb;
            k += 1;
        }
        if k > 0 {
            r.push((p, k));
        }
        p += 1;
    }
    if n.is_one() { Some(r) } else { None }
}

impl Nfx {
    pub fn atom(&mut self, kind: Kind) -> AtomId {
        if let Some(a) = self.lookup.get(&kind) {
            return *a;
        }
        let (pos, val) = match &kind {
            Kind::Var(_) => panic!("use var_atom"),
            Kind::Exp(m) => {
                let v = self.eval_mono(m);
                (true, [v[0].exp(), v[1].exp()])
            }
            Kind::ExpOpaque(p) => {
                let v = self.eval(p);
                (true, [v[0].exp(), v[1].exp()])
            }
            Kind::Ln(p) => {
                let v = self.eval(p);
                let pos = match p.as_const() {
                    Some(c) => c.sub(&Rat::one()).sign() > 0,
                    None => false,
                };
                (pos, [v[0].ln(), v[1].ln()])
            }
            Kind::Sqrt(p) => {
                let v = self.eval(p);
                let pos = self.sign(p) == Sign::Pos;
                (pos, [v[0].sqrt(), v[1].sqrt()])
            }
            Kind::Sgn(p) => {
                let v = self.eval(p);
                (false, [v[0].signum(), v[1].signum()])
            }
            Kind::UF(id, p) => {
                let v = self.eval(p);
                (false, [crate::sym::uf_eval(*id, v[0]), crate::sym::uf_eval(*id, v[1])])
            }
            Kind::Den(p) => {
                let v = self.eval(p);
                (self.sign(p) == Sign::Pos, v)
            }
        };
        let id = self.atoms.len() as AtomId;
        if let Kind::Den(_) = kind {
            self.dens.push(id);
        }
        self.atoms.push(Atom { kind: kind.clone(), pos, val });
        self.lookup.insert(kind, id);
        id
    }
    pub fn var_atom(&mut self, v: u32, pos: bool, val: [f64; 2]) -> AtomId {
        let kind = Kind::Var(v);
        if let Some(a) = self.lookup.get(&kind) {
            return *a;
        }
        let id = self.atoms.len() as AtomId;
        self.atoms.push(Atom { kind: kind.clone(), pos, val });
        self.lookup.insert(kind, id);
        id
    }
    pub fn atom_poly(&self, a: AtomId) -> Poly {
        let mut m = Mono::new();
        m.push((a, U));
        Poly(vec![(m, Rat::one())])
    }
    pub fn eval_mono(&self, m: &Mono) -> [f64; 2] {
        let mut r = [1.0, 1.0];
        for (a, e) in m {
            for k in 0..2 {
                let v = self.atoms[*a as usize].val[k];
                r[k] *= if *e == U {
                    v
                } else if *e % U == 0 {
                    v.powi(*e / U)
                } else {
                    v.powf(*e as f64 / U as f64)
                };
            }
        }
        r
    }
    pub fn eval(&self, p: &Poly) -> [f64; 2] {
        let mut r = [0.0, 0.0];
        for (m, c) in &p.0 {
            let v = self.eval_mono(m);
            let c = c.to_f64();
            r[0] += c * v[0];
            r[1] += c * v[1];
        }
        r
    }
    pub fn eval_mag(&self, p: &Poly) -> [f64; 2] {
        let mut r = [0.0, 0.0];
        for (m, c) in &p.0 {
            let v = self.eval_mono(m);
            let c = c.to_f64();
            r[0] += (c * v[0]).abs();
            r[1] += (c * v[1]).abs();
        }
        r
    }
    fn needs_reduce(&self, m: &Mono) -> bool {
        m.iter().any(|(a, e)| match self.atoms[*a as usize].kind {
            Kind::Sqrt(_) => *e >= 2 * U || *e <= -2 * U,
            Kind::Sgn(_) => *e != U,
            _ => false,
        })
    }
    /// bring algebraic atoms to canonical powers
    pub fn reduce(&mut self, p: Poly) -> Poly {
        if !p.0.iter().any(|t| self.needs_reduce(&t.0)) {
            return p;
        }
        let mut keep: Vec<(Mono, Rat)> = vec![];
        let mut extra: Vec<Poly> = vec![];
        for (m, c) in p.0 {
            if !self.needs_reduce(&m) {
                keep.push((m, c));
                continue;
            }
            let mut rest = Mono::new();
            let mut factors: Vec<(NF, i32)> = vec![];
            for (a, e) in m.iter() {
                match &self.atoms[*a as usize].kind {
                    Kind::Sqrt(r) => {
                        let k = e.div_euclid(2 * U);
                        // keep exponents in (-2U, 2U)
                        let k = if *e < 0 && *e % (2 * U) != 0 { k + 1 } else { k };
                        let rem = e - k * 2 * U;
                        if rem != 0 {
                            rest.push((*a, rem));
                        }
                        if k != 0 {
                            factors.push((r.clone(), k));
                        }
                    }
                    Kind::Sgn(_) => {
                        if (e / U).rem_euclid(2) == 1 {
                            rest.push((*a, U));
                        }
                    }
                    _ => rest.push((*a, *e)),
                }
            }
            let mut q = Poly(vec![(rest, c)]);
            for (r, k) in factors {
                if k > 0 {
                    for _ in 0..k {
                        q = self.mul(&q, &r);
                    }
                } else {
                    let inv = self.inv(&r);
                    for _ in 0..(-k) {
                        q = self.mul(&q, &inv);
                    }
                }
            }
            extra.push(q);
        }
        // removing terms keeps `keep` sorted
        let r = if extra.len() < 4 {
            let mut r = Poly(keep);
            for e in extra {
                r = r.add(&e);
            }
            r
        } else {
            let mut h: FxMap<Mono, Rat> = Default::default();
            for (m, c) in keep.into_iter().chain(extra.into_iter().flat_map(|e| e.0)) {
                match h.entry(m) {
                    std::collections::hash_map::Entry::Occupied(mut o) => *o.get_mut() = o.get().add(&c),
                    std::collections::hash_map::Entry::Vacant(v) => {
                        v.insert(c);
                    }
                }
            }
            Poly::from_map(h)
        };
        self.reduce(r)
    }
    pub fn mul(&mut self, a: &Poly, b: &Poly) -> Poly {
        if a.is_zero() || b.is_zero() {
            return Poly::zero();
        }
        let work = a.0.len() * b.0.len();
        if work > self.budget_terms {
            crate::engine::abort_inconclusive(format!("polynomial product too large: {} x {}", a.0.len(), b.0.len()));
        }
        if work > 256 {
            check_deadline();
        }
        let r = a.mul_raw(b);
        self.max_terms_seen = self.max_terms_seen.max(r.0.len());
        self.reduce(r)
    }
    pub fn powi(&mut self, a: &Poly, n: u32) -> Poly {
        let mut r = Poly::cst(Rat::one());
        for _ in 0..n {
            r = self.mul(&r, a);
        }
        r
    }
    /// (numerator without negative exponents or denominator atoms, denominator monomial)
    pub fn combine(&mut self, p: &Poly) -> (Poly, Mono) {
        self.combine_with(p, true)
    }
    fn combine_with(&mut self, p: &Poly, content: bool) -> (Poly, Mono) {
        let mut p = p.clone();
        let mut den = Mono::new();
        // common positive powers of denominators
        let mut common: Vec<(NF, i32)> = vec![];
        if let Some((m0, _)) = p.0.first().cloned() {
            for (a, _) in m0.iter().filter(|x| x.1 > 0) {
                if let Kind::Den(r) = self.atoms[*a as usize].kind.clone() {
                    let k = p.0.iter().map(|t| exp_of(&t.0, *a)).min().unwrap();
                    if k > 0 {
                        let mut m = Mono::new();
                        m.push((*a, -k));
                        p = p.mul_mono(&m, &Rat::one());
                        common.push((r, k / U));
                    }
                }
            }
        }
        loop {
            check_deadline();
            let mut mins: std::collections::BTreeMap<AtomId, i32> = Default::default();
            for (m, _) in &p.0 {
                for (a, e) in m {
                    if *e < 0 || matches!(self.atoms[*a as usize].kind, Kind::Den(_)) {
                        let x = mins.entry(*a).or_insert(0);
                        *x = (*x).min(*e);
                    }
                }
            }
            if mins.is_empty() {
                break;
            }
            // newest atom first: clearing it may expose older ones
            let (a, e) = mins.into_iter().next_back().unwrap();
            let k = -e;
            let kind = self.atoms[a as usize].kind.clone();
            match kind {
                Kind::Den(r) => {
                    // group by power of a
                    let mut by: std::collections::BTreeMap<i32, Vec<(Mono, Rat)>> = Default::default();
                    for (m, c) in p.0 {
                        let e = exp_of(&m, a);
                        let mm: Mono = m.into_iter().filter(|x| x.0 != a).collect();
                        by.entry((k + e) / U).or_default().push((mm, c));
                    }
                    // Horner from the highest power of P
                    let mut acc = Poly::zero();
                    let top = *by.keys().next_back().unwrap();
                    for pw in (0..=top).rev() {
                        if !acc.is_zero() {
                            acc = self.mul(&acc, &r);
                        }
                        if let Some(v) = by.remove(&pw) {
                            let mut q = Poly(v);
                            q.0.sort_by(|x, y| mono_cmp(&y.0, &x.0));
                            acc = acc.add(&q);
                        }
                    }
                    p = acc;
                }
                _ => {
                    let mut m = Mono::new();
                    m.push((a, k));
                    p = p.mul_mono(&m, &Rat::one());
                    p = self.reduce(p);
                }
            }
            if k > 0 {
                let mut m = Mono::new();
                m.push((a, k));
                den = mono_mul(&den, &m);
            }
        }
        if content && !p.is_zero() {
            for (r, k) in common {
                for _ in 0..k {
                    p = self.mul(&p, &r);
                }
            }
        }
        // sqrt atoms in the denominator may exceed the canonical range; leave as powers
        if p.is_zero() {
            return (p, Mono::new());
        }
        // cancellation
        let mut changed = true;
        while changed {
            changed = false;
            for (a, e) in den.clone() {
                let kind = self.atoms[a as usize].kind.clone();
                match kind {
                    Kind::Den(r) => {
                        let mut k = e / U;
                        let k0 = k;
                        while k > 0 {
                            match self.exact_div(&p, &r) {
                                Some(q) => {
                                    p = q;
                                    k -= 1;
                                }
                                None => break,
                            }
                        }
                        if k != k0 {
                            changed = true;
                            den = set_exp(&den, a, k * U);
                        }
                    }
                    Kind::Sqrt(r) => {
                        if e >= U {
                            // (A + B S)/S = B + (A/R) S
                            let (mut av, mut bv) = (vec![], vec![]);
                            for (m, c) in &p.0 {
                                let x = exp_of(m, a);
                                let mm: Mono = m.iter().filter(|y| y.0 != a).cloned().collect();
                                if x == U {
                                    bv.push((mm, c.clone()))
                                } else if x == 0 {
                                    av.push((mm, c.clone()))
                                } else {
                                    av.clear();
                                    bv.clear();
                                    break;
                                }
                            }
                            if av.is_empty() && bv.is_empty() {
                                continue;
                            }
                            let mut av = Poly(av);
                            let mut bv = Poly(bv);
                            av.0.sort_by(|x, y| mono_cmp(&y.0, &x.0));
                            bv.0.sort_by(|x, y| mono_cmp(&y.0, &x.0));
                            let q = if av.is_zero() { Some(Poly::zero()) } else { self.exact_div(&av, &r) };
                            if let Some(q) = q {
                                let s = self.atom_poly(a);
                                let qs = q.mul_raw(&s);
                                p = bv.add(&qs);
                                den = set_exp(&den, a, e - U);
                                changed = true;
                            }
                        }
                    }
                    _ => {
                        let m = p.0.iter().map(|t| exp_of(&t.0, a)).min().unwrap_or(0);
                        let c = m.min(e);
                        if c > 0 {
                            let mut mm = Mono::new();
                            mm.push((a, -c));
                            p = p.mul_mono(&mm, &Rat::one());
                            den = set_exp(&den, a, e - c);
                            changed = true;
                        }
                    }
                }
            }
        }
        (p, den)
    }
    pub fn canon(&mut self, p: &NF) -> NF {
        if !p.0.iter().any(|t| t.0.iter().any(|x| x.1 < 0 || matches!(self.atoms[x.0 as usize].kind, Kind::Den(_)))) {
            return p.clone();
        }
        if p.0.len() == 1 && !p.0[0].0.iter().any(|x| matches!(self.atoms[x.0 as usize].kind, Kind::Sqrt(_)) && x.1 < 0 || matches!(self.atoms[x.0 as usize].kind, Kind::Den(_)) && x.1 > 0) {
            return p.clone();
        }
        if let Some(q) = self.canon_memo.get(p) {
            return q.clone();
        }
        let (n, d) = self.combine(p);
        let r = n.mul_mono(&mono_inv(&d), &Rat::one());
        let r = Rc::new(self.reduce(r));
        self.canon_memo.insert(p.clone(), r.clone());
        r
    }
    pub fn is_zero(&mut self, p: &Poly) -> bool {
        if p.is_zero() {
            return true;
        }
        if p.0.len() == 1 {
            return false;
        }
        let v = self.eval(p);
        let mag = self.eval_mag(p);
        for k in 0..2 {
            if v[k].is_finite() && mag[k].is_finite() && v[k].abs() > 1e-7 * mag[k] {
                return false;
            }
        }
        self.combine_with(p, false).0.is_zero()
    }

    // ---- exact multivariate division -------------------------------------------------------
    fn prefilter_divides(&self, a: &Poly, b: &Poly) -> bool {
        const P: u64 = (1 << 61) - 1;
        // degree tests
        let main = match b.atoms().into_iter().max_by_key(|x| b.max_exp(*x)) {
            Some(m) => m,
            None => return true,
        };
        for x in b.atoms() {
            if a.max_exp(x) < b.max_exp(x) {
                return false;
            }
        }
        let val = |x: AtomId| -> u64 { (x as u64 + 3).wrapping_mul(0x9E3779B97F4A7C15) % P };
        let proj = |p: &Poly| -> Option<std::collections::BTreeMap<i32, u64>> {
            let mut r: std::collections::BTreeMap<i32, u64> = Default::default();
            for (m, c) in &p.0 {
                let mut v = c.modp(P)?;
                for (x, e) in m {
                    if *x != main {
                        if *e < 0 {
                            return None;
                        }
                        // treat x^(1/U) as the random element; exponents are then integral
                        v = mulm(v, powm(val(*x), *e as u64, P), P);
                    }
                }
                let t = r.entry(exp_of(m, main)).or_insert(0);
                *t = (*t + v) % P;
            }
            r.retain(|_, v| *v != 0);
            Some(r)
        };
        let (Some(mut pa), Some(pb)) = (proj(a), proj(b)) else { return true };
        let Some((&db, &lb)) = pb.iter().next_back() else { return true };
        let il = invm(lb, P);
        let mut guard = 0;
        while let Some((&da, &la)) = pa.iter().next_back() {
            if da < db {
                return false;
            }
            guard += 1;
            if guard > 10000 {
                return true;
            }
            let q = mulm(la, il, P);
            for (e, c) in &pb {
                let t = pa.entry(e + da - db).or_insert(0);
                *t = (*t + P - mulm(q, *c, P)) % P;
            }
            pa.retain(|_, v| *v != 0);
        }
        true
    }
    pub fn exact_div(&mut self, a: &Poly, b: &Poly) -> Option<Poly> {
        if b.0.len() == 1 {
            let (m, c) = &b.0[0];
            let ic = c.inv();
            let mut r = vec![];
            for (n, k) in &a.0 {
                r.push((mono_div(n, m)?, k.mul(&ic)));
            }
            return Some(Poly(r));
        }
        if a.0.len() < 2 || !self.prefilter_divides(a, b) {
            return None;
        }
        // heap-free: subtract repeatedly using a map keyed by monomial order
        use std::collections::BTreeMap;
        #[derive(PartialEq, Eq, Clone)]
        struct K(Mono);
        impl PartialOrd for K {
            fn partial_cmp(&self, o: &K) -> Option<Ordering> {
                Some(self.cmp(o))
            }
        }
        impl Ord for K {
            fn cmp(&self, o: &K) -> Ordering {
                mono_cmp(&self.0, &o.0)
            }
        }
        let mut rem: BTreeMap<K, Rat> = a.0.iter().map(|(m, c)| (K(m.clone()), c.clone())).collect();
        let (lm, lc) = &b.0[0];
        let ilc = lc.inv();
        let mut q: Vec<(Mono, Rat)> = vec![];
        while let Some((k, c)) = rem.pop_last() {
            let m = mono_div(&k.0, lm)?;
            let f = c.mul(&ilc);
            for (n, d) in &b.0[1..] {
                let key = K(mono_mul(n, &m));
                let v = d.mul(&f);
                match rem.get_mut(&key) {
                    Some(x) => {
                        let y = x.sub(&v);
                        if y.is_zero() {
                            rem.remove(&key);
                        } else {
                            *x = y;
                        }
                    }
                    None => {
                        rem.insert(key, v.neg());
                    }
                }
            }
            q.push((m, f));
            if q.len() > 200_000 {
                return None;
            }
        }
        // the quotient may only be used when it has no algebraic reduction hidden inside
        Some(self.reduce(Poly(q)))
    }
    /// content c, monomial content g, primitive part P (integer coefficients, gcd 1, leading > 0)
    pub fn primitive(&self, p: &Poly) -> (Rat, Mono, Poly) {
        let mut g = BigInt::zero();
        let mut l = BigInt::one();
        for (_, c) in &p.0 {
            g = g.gcd(&c.numer());
            l = l.lcm(&c.denom());
        }
        let mut c = Rat::from_bigints(g, l);
        if p.0[0].1.sign() < 0 {
            c = c.neg();
        }
        // common monomial
        let mut g: Mono = p.0[0].0.clone();
        for (m, _) in &p.0[1..] {
            let mut r = Mono::new();
            for (a, e) in &g {
                let f = exp_of(m, *a);
                let k = (*e).min(f);
                if k != 0 {
                    r.push((*a, k));
                }
            }
            // atoms with negative exponent present only in m
            for (a, e) in m {
                if *e < 0 && exp_of(&g, *a) == 0 {
                    r.push((*a, *e));
                }
            }
            r.sort();
            g = r;
        }
        let q = p.mul_mono(&mono_inv(&g), &c.inv());
        (c, g, q)
    }
    /// square root of a polynomial if it is a perfect square
    pub fn poly_sqrt(&mut self, p: &Poly) -> Option<Poly> {
        if p.0.len() < 3 {
            return None;
        }
        let (lm, lc) = &p.0[0];
        let sq = rat_sqrt(lc)?;
        let m0 = mono_pow(lm, 1, 2)?;
        if m0.iter().any(|x| x.1 % U != 0) {
            return None;
        }
        {
            let (tm, tc) = p.0.last().unwrap();
            rat_sqrt(tc)?;
            let m = mono_pow(tm, 1, 2)?;
            if m.iter().any(|x| x.1 % U != 0) {
                return None;
            }
        }
        let two = sq.mul(&Rat::int(2)).inv();
        let mut q = Poly(vec![(m0.clone(), sq)]);
        let mut rem = p.sub(&q.mul_raw(&q));
        let mut n = 0;
        while !rem.is_zero() {
            let (m, c) = rem.0[0].clone();
            let t = mono_div(&m, &m0)?;
            if mono_cmp(&t, &q.0.last().unwrap().0) != Ordering::Less {
                return None;
            }
            let c = c.mul(&two);
            let tp = Poly(vec![(t.clone(), c.clone())]);
            // rem -= 2 q t + t^2
            let d = q.mul_raw(&tp).scale(&Rat::int(2)).add(&tp.mul_raw(&tp));
            rem = rem.sub(&d);
            q.0.push((t, c));
            n += 1;
            if n > p.0.len() {
                return None;
            }
        }
        Some(q)
    }
    /// split a (primitive) polynomial by already known denominators / radicands and squares
    pub fn factor(&mut self, p: &Poly) -> Vec<(Poly, i32)> {
        let mut out: Vec<(Poly, i32)> = vec![];
        let mut p = p.clone();
        let cands: Vec<NF> = self
            .dens
            .iter()
            .map(|a| match &self.atoms[*a as usize].kind {
                Kind::Den(r) => r.clone(),
                _ => unreachable!(),
            })
            .collect();
        for r in cands {
            if p.0.len() < 2 {
                break;
            }
            let mut k = 0;
            while p.0.len() >= r.0.len().min(2) && p.0.len() > 1 {
                if *r == p {
                    p = Poly::cst(Rat::one());
                    k += 1;
                    break;
                }
                match self.exact_div(&p, &r) {
                    Some(q) => {
                        p = q;
                        k += 1;
                    }
                    None => break,
                }
            }
            if k > 0 {
                out.push(((*r).clone(), k));
            }
        }
        if p.0.len() > 1 {
            // an atom of degree one occurring in a factor: try content w.r.t. each atom
            if let Some(f) = self.split_linear(&p) {
                for (q, k) in f {
                    for (g, j) in self.factor(&q) {
                        out.push((g, j * k));
                    }
                }
                return out;
            }
            let mut k = 1;
            while let Some(q) = self.poly_sqrt(&p) {
                p = q;
                k *= 2;
            }
            if k > 1 {
                for (q, j) in self.factor(&p) {
                    out.push((q, j * k));
                }
                return out;
            }
            out.push((p, 1));
        } else if p.as_const().map(|c| !c.is_one()).unwrap_or(true) {
            out.push((p, 1));
        }
        out
    }
    /// P linear in atom x: P = A x + B; if A | B (or gcd(A,B) visible) split
    fn split_linear(&mut self, p: &Poly) -> Option<Vec<(Poly, i32)>> {
        if p.0.len() > 4000 || p.0.len() < 4 {
            return None;
        }
        for x in p.atoms() {
            if !matches!(self.atoms[x as usize].kind, Kind::Var(_) | Kind::Exp(_) | Kind::Ln(_)) {
                continue;
            }
            // collect by power of x
            let mut by: std::collections::BTreeMap<i32, Vec<(Mono, Rat)>> = Default::default();
            for (m, c) in &p.0 {
                let mm: Mono = m.iter().filter(|y| y.0 != x).cloned().collect();
                by.entry(exp_of(m, x)).or_default().push((mm, c.clone()));
            }
            if by.len() < 2 {
                continue;
            }
            let mut coefs: Vec<Poly> = by
                .into_values()
                .map(|mut v| {
                    v.sort_by(|a, b| mono_cmp(&b.0, &a.0));
                    Poly(v)
                })
                .collect();
            coefs.sort_by_key(|c| c.0.len());
            if coefs[0].0.len() < 2 {
                continue;
            }
            let (_, _, g) = self.primitive(&coefs[0]);
            if g.0.len() < 2 {
                continue;
            }
            let mut ok = true;
            for c in &coefs[1..] {
                if self.exact_div(c, &g).is_none() {
                    ok = false;
                    break;
                }
            }
            if ok {
                if let Some(q) = self.exact_div(p, &g) {
                    if q.0.len() > 1 {
                        let (c, m, q) = self.primitive(&q);
                        if c.is_one() && m.is_empty() {
                            return Some(vec![(g, 1), (q, 1)]);
                        }
                    }
                }
            }
        }
        None
    }

    pub fn inv(&mut self, p: &Poly) -> Poly {
        let (mut n, d) = self.combine(p);
        if n.is_zero() {
            crate::engine::abort_inconclusive("division by an expression that is identically zero".into());
        }
        // expand denominators
        let mut num = Poly::cst(Rat::one());
        let mut dm = Mono::new();
        for (a, e) in &d {
            dm.push((*a, *e));
        }
        num = num.mul_mono(&dm, &Rat::one());
        num = self.reduce(num);
        // rationalise square roots in a sum
        for _ in 0..3 {
            if n.0.len() < 2 {
                break;
            }
            let s = n.atoms().into_iter().rev().find(|a| {
                matches!(self.atoms[*a as usize].kind, Kind::Sqrt(_)) && {
                    let es: Vec<i32> = n.0.iter().map(|t| exp_of(&t.0, *a)).collect();
                    es.iter().any(|e| *e == 0) && es.iter().any(|e| *e == U) && es.iter().all(|e| *e == 0 || *e == U)
                }
            });
            let Some(s) = s else { break };
            let conj = Poly(n.0.iter().map(|(m, c)| (m.clone(), if exp_of(m, s) == U { c.neg() } else { c.clone() })).collect());
            let nn = self.mul(&n, &conj);
            if nn.is_zero() {
                break;
            }
            num = self.mul(&num, &conj);
            n = nn;
        }
        if n.0.len() == 1 {
            let (m, c) = n.0[0].clone();
            let r = num.mul_mono(&mono_inv(&m), &c.inv());
            return self.reduce(r);
        }
        let (c, g, prim) = self.primitive(&n);
        let mut r = num.mul_mono(&mono_inv(&g), &c.inv());
        r = self.reduce(r);
        for (f, k) in self.factor(&prim) {
            if f.0.len() == 1 {
                let (m, c) = f.0[0].clone();
                let mi = mono_pow(&mono_inv(&m), k, 1).unwrap();
                r = r.mul_mono(&mi, &c.inv().powi(k));
                r = self.reduce(r);
                continue;
            }
            let a = self.atom(Kind::Den(Rc::new(f)));
            let mut m = Mono::new();
            m.push((a, -k * U));
            r = r.mul_mono(&m, &Rat::one());
        }
        r.0.sort_by(|a, b| mono_cmp(&b.0, &a.0));
        r
    }

    // ---- signs -----------------------------------------------------------------------------
    pub fn atom_sign(&mut self, a: AtomId) -> Sign {
        let at = &self.atoms[a as usize];
        if at.pos {
            return Sign::Pos;
        }
        match at.kind.clone() {
            Kind::Sqrt(r) => {
                if self.sign(&r) == Sign::Pos {
                    self.atoms[a as usize].pos = true;
                    Sign::Pos
                } else {
                    Sign::NonNeg
                }
            }
            Kind::Den(r) => {
                let s = self.sign(&r);
                match s {
                    Sign::Pos | Sign::NonNeg => Sign::Pos,
                    Sign::Neg | Sign::NonPos => Sign::Neg,
                    _ => Sign::Unknown,
                }
            }
            Kind::Ln(_) | Kind::Var(_) | Kind::UF(..) => {
                let p = Rc::new(self.atom_poly(a));
                self.facts.get(&p).copied().unwrap_or(Sign::Unknown)
            }
            _ => Sign::Unknown,
        }
    }
    pub fn mono_sign(&mut self, m: &Mono) -> Sign {
        let mut s = Sign::Pos;
        for (a, e) in m {
            let t = self.atom_sign(*a);
            let t = if t == Sign::Pos {
                Sign::Pos
            } else if *e % (2 * U) == 0 {
                match t {
                    Sign::Neg => Sign::Pos,
                    _ if *e < 0 => Sign::Pos,
                    _ => Sign::NonNeg,
                }
            } else if *e % U != 0 {
                // fractional powers only exist for non-negative atoms
                Sign::NonNeg
            } else {
                t
            };
            s = s.mul(t);
        }
        s
    }
    /// sign by summing term signs
    fn sum_sign(&mut self, p: &Poly) -> Sign {
        let (mut pos, mut neg, mut strict) = (true, true, false);
        for (m, c) in &p.0 {
            let mut s = self.mono_sign(m);
            if c.sign() < 0 {
                s = s.neg();
            }
            match s {
                Sign::Pos => {
                    neg = false;
                    strict = true
                }
                Sign::NonNeg => neg = false,
                Sign::Neg => {
                    pos = false;
                    strict = true
                }
                Sign::NonPos => pos = false,
                Sign::Zero => {}
                Sign::Unknown => return Sign::Unknown,
            }
            if !pos && !neg {
                return Sign::Unknown;
            }
        }
        match (pos, strict) {
            (true, true) => Sign::Pos,
            (true, false) => Sign::NonNeg,
            (false, true) => Sign::Neg,
            (false, false) => Sign::NonPos,
        }
    }
    pub fn sign(&mut self, p: &Poly) -> Sign {
        if p.is_zero() {
            return Sign::Zero;
        }
        let s = self.sum_sign(p);
        if s == Sign::Pos || s == Sign::Neg {
            return s;
        }
        if p.0.len() > 3000 {
            return s;
        }
        let (n, d) = self.combine(p);
        if n.is_zero() {
            return Sign::Zero;
        }
        let ds = self.mono_sign(&d);
        let (c, g, q) = self.primitive(&n);
        let mut t = self.mono_sign(&g).mul(ds);
        if c.sign() < 0 {
            t = t.neg();
        }
        if q.0.len() == 1 {
            return t;
        }
        let mut qs = self.sum_sign(&q);
        if qs != Sign::Pos && qs != Sign::Neg {
            qs = match self.two_term_sign(&q) {
                Sign::Unknown => qs,
                x => x,
            };
        }
        if qs != Sign::Pos && qs != Sign::Neg {
            if let Some(f) = self.flip(&q) {
                let fs = self.sum_sign(&f);
                if matches!(fs, Sign::Pos | Sign::Neg) {
                    qs = fs;
                }
            }
        }
        if qs != Sign::Pos && qs != Sign::Neg {
            if let Some(f) = self.facts.get(&Rc::new(q.clone())) {
                qs = *f;
            } else if let Some(r) = self.poly_sqrt(&q) {
                qs = Sign::NonNeg;
                if let Some(f) = self.facts.get(&Rc::new(r)) {
                    if matches!(f, Sign::Pos | Sign::Neg) {
                        qs = Sign::Pos;
                    }
                }
            }
        }
        if qs == Sign::Unknown && q.0.len() <= 40 && self.depth < 3 {
            self.depth += 1;
            let f = self.factor(&q);
            if f.len() > 1 {
                let mut r = Sign::Pos;
                for (g, k) in &f {
                    let gs = self.sign(g);
                    for _ in 0..*k {
                        r = r.mul(gs);
                    }
                }
                qs = r;
            }
            self.depth -= 1;
        }
        let r = t.mul(qs);
        if r == Sign::Unknown { s } else { r }
    }
    /// the polynomial with every bounded variable replaced by its (equally signed) distance to the bound
    fn flip(&self, p: &Poly) -> Option<Poly> {
        if self.hi.is_empty() || p.0.len() > 60 {
            return None;
        }
        let mut r = Poly::zero();
        let mut any = false;
        for (m, c) in &p.0 {
            let mut t = Poly::cst(c.clone());
            for (a, e) in m {
                match self.hi.get(a) {
                    Some(h) => {
                        if *e < 0 || e % U != 0 || *e > 4 * U {
                            return None;
                        }
                        any = true;
                        let f = Poly::cst(h.clone()).sub(&self.atom_poly(*a));
                        for _ in 0..e / U {
                            let mut n = Poly::zero();
                            for (fm, fc) in &f.0 {
                                n = n.add(&t.mul_mono(fm, fc));
                            }
                            t = n;
                        }
                    }
                    None => {
                        let mut mm = Mono::new();
                        mm.push((*a, *e));
                        t = t.mul_mono(&mm, &Rat::one());
                    }
                }
            }
            r = r.add(&t);
        }
        if any && !r.is_zero() { Some(r) } else { None }
    }
    /// u - v with positive monomials u, v whose logarithms are compared (exponentials are monotone)
    fn two_term_sign(&mut self, q: &Poly) -> Sign {
        if q.0.len() != 2 || self.depth > 6 {
            return Sign::Unknown;
        }
        let ((ma, ca), (mb, cb)) = (q.0[0].clone(), q.0[1].clone());
        if ca.sign() == cb.sign() || self.mono_sign(&ma) != Sign::Pos || self.mono_sign(&mb) != Sign::Pos {
            return Sign::Unknown;
        }
        let has_exp = ma.iter().chain(mb.iter()).any(|(a, _)| matches!(self.atoms[*a as usize].kind, Kind::Exp(..) | Kind::ExpOpaque(..)));
        if !has_exp {
            return Sign::Unknown;
        }
        self.depth += 1;
        let (la, lb) = (self.ln_mono(&ma), self.ln_mono(&mb));
        let k = self.ln_const(&ca.abs()).sub(&self.ln_const(&cb.abs()));
        let d = la.sub(&lb).add(&k);
        let r = self.sign(&d);
        self.depth -= 1;
        if ca.sign() > 0 { r } else { r.neg() }
    }
    pub fn add_fact(&mut self, p: &Poly, s: Sign) {
        let (n, d) = self.combine(p);
        if n.is_zero() {
            return;
        }
        let ds = self.mono_sign(&d);
        let (c, g, q) = self.primitive(&n);
        let mut t = ds;
        if c.sign() < 0 {
            t = t.neg();
        }
        // move the sign of the monomial content over when it is known
        let gs = self.mono_sign(&g);
        let key = if matches!(gs, Sign::Pos | Sign::Neg) {
            t = t.mul(gs);
            q
        } else if q.0.len() == 1 && g.len() == 1 && g[0].1 == U {
            self.atom_poly(g[0].0)
        } else {
            q.mul_mono(&g, &Rat::one())
        };
        if key.0.len() == 1 && key.0[0].0.is_empty() {
            return;
        }
        let r = s.mul(t);
        if r != Sign::Unknown {
            let k = Rc::new(key);
            match (self.facts.get(&k), r) {
                (Some(Sign::Pos), _) | (Some(Sign::Neg), _) => {}
                _ => {
                    self.facts.insert(k.clone(), r);
                }
            }
            if r == Sign::Pos && k.0.len() == 1 && k.0[0].0.len() == 1 && k.0[0].0[0].1 == U && k.0[0].1.is_one() {
                let a = k.0[0].0[0].0;
                self.atoms[a as usize].pos = true;
            }
        }
    }
    fn is_pos(&mut self, p: &Poly) -> bool {
        self.sign(p) == Sign::Pos
    }

    // ---- functions -------------------------------------------------------------------------
    pub fn exp(&mut self, p: &NF) -> Poly {
        let p = self.canon(p);
        let mut r = Poly::cst(Rat::one());
        for (m, c) in &p.0 {
            // exp(c * ln u)
            if m.len() == 1 && m[0].1 == U {
                if let Kind::Ln(u) = self.atoms[m[0].0 as usize].kind.clone() {
                    let k = c.mul(&Rat::int(2));
                    if let Some(k2) = k.as_int() {
                        let base = if k2 % 2 == 0 { (*u).clone() } else { self.sqrt(&u) };
                        let e = if k2 % 2 == 0 { k2 / 2 } else { k2 };
                        if e.abs() < 40 {
                            let b = if e < 0 { self.inv(&base) } else { base };
                            for _ in 0..e.abs() {
                                r = self.mul(&r, &b);
                            }
                            continue;
                        }
                    }
                }
            }
            let cu = c.mul(&Rat::int(U as i64));
            match cu.as_int() {
                Some(e) if e.abs() < 2_000_000 => {
                    let a = self.atom(Kind::Exp(m.clone()));
                    let mut mm = Mono::new();
                    mm.push((a, e as i32));
                    r = self.mul(&r, &Poly(vec![(mm, Rat::one())]));
                }
                _ => {
                    let q = Poly(vec![(m.clone(), c.abs())]);
                    let a = self.atom(Kind::ExpOpaque(Rc::new(q)));
                    let mut mm = Mono::new();
                    mm.push((a, if c.sign() < 0 { -U } else { U }));
                    r = self.mul(&r, &Poly(vec![(mm, Rat::one())]));
                }
            }
        }
        r
    }
    fn ln_const(&mut self, c: &Rat) -> Poly {
        // c > 0
        let (Some(fn_), Some(fd)) = (small_factor(&c.numer()), small_factor(&c.denom())) else {
            let a = self.atom(Kind::Ln(Rc::new(Poly::cst(c.clone()))));
            return self.atom_poly(a);
        };
        let mut r = Poly::zero();
        for (sgn, f) in [(1i64, fn_), (-1, fd)] {
            for (p, k) in f {
                let a = self.atom(Kind::Ln(Rc::new(Poly::cst(Rat::int(p as i64)))));
                r = r.add(&self.atom_poly(a).scale(&Rat::int(sgn * k as i64)));
            }
        }
        r
    }
    fn ln_mono(&mut self, m: &Mono) -> Poly {
        // all atoms positive
        let mut r = Poly::zero();
        for (a, e) in m {
            let c = Rat::new(*e as i64, U as i64);
            let t = match self.atoms[*a as usize].kind.clone() {
                Kind::Exp(m) => Poly(vec![(m, Rat::one())]),
                Kind::ExpOpaque(p) => (*p).clone(),
                Kind::Sqrt(p) => self.ln(&p).scale(&Rat::new(1, 2)),
                Kind::Den(p) => self.ln(&p),
                _ => {
                    let p = self.atom_poly(*a);
                    let x = self.atom(Kind::Ln(Rc::new(p)));
                    self.atom_poly(x)
                }
            };
            r = r.add(&t.scale(&c));
        }
        r
    }
    pub fn ln(&mut self, p: &NF) -> Poly {
        let (n, d) = self.combine(p);
        if n.is_zero() {
            crate::engine::abort_inconclusive("ln of an expression that is identically zero".into());
        }
        let (c, g, q) = self.primitive(&n);
        // every factor of known sign: the logarithm splits over absolute values
        let mut neg = c.sign() < 0;
        let mut known = true;
        let gd = mono_mul(&g, &mono_inv(&d));
        for (x, e) in &gd {
            match self.atom_sign(*x) {
                Sign::Pos => {}
                Sign::Neg if *e % U == 0 => neg ^= (*e / U) % 2 != 0,
                _ => known = false,
            }
        }
        let mut q = q;
        if known && q.0.len() > 1 {
            match self.sign(&q) {
                Sign::Pos => {}
                Sign::Neg => {
                    neg = !neg;
                    q = q.neg();
                }
                _ => known = false,
            }
        }
        if known && !neg {
            let mut r = self.ln_const(&c.abs());
            for (x, e) in &gd {
                if self.atom_sign(*x) == Sign::Pos {
                    let t = self.ln_mono(&Mono::from_iter([(*x, *e)]));
                    r = r.add(&t);
                } else {
                    let p = match self.atoms[*x as usize].kind.clone() {
                        Kind::Den(p) => p.neg(),
                        _ => self.atom_poly(*x).neg(),
                    };
                    let t = if p.0.len() == 1 {
                        let a = self.atom(Kind::Ln(Rc::new(p)));
                        self.atom_poly(a)
                    } else {
                        self.ln(&Rc::new(p))
                    };
                    r = r.add(&t.scale(&Rat::new(*e as i64, U as i64)));
                }
            }
            if q.0.len() > 1 {
                for (f, k) in self.factor_pos(&q) {
                    if let Some(c) = f.as_const() {
                        let t = self.ln_const(&c).scale(&Rat::int(k as i64));
                        r = r.add(&t);
                        continue;
                    }
                    let a = self.atom(Kind::Ln(Rc::new(f)));
                    r = r.add(&self.atom_poly(a).scale(&Rat::int(k as i64)));
                }
            }
            return r;
        }
        // positive parts of the monomials can still be split off
        let mut pm = Mono::new();
        let mut um = Mono::new();
        for (x, e) in mono_mul(&g, &mono_inv(&d)) {
            if self.atom_sign(x) == Sign::Pos { pm.push((x, e)) } else { um.push((x, e)) }
        }
        let mut r = self.ln_mono(&pm);
        r = r.add(&self.ln_const(&c.abs()));
        let sg = if c.sign() < 0 { Rat::int(-1) } else { Rat::one() };
        // remaining argument: sg * um * q, assumed positive (ln is only meaningful there)
        let rest = q.mul_mono(&um, &sg);
        let mut rest = self.reduce(rest);
        rest.0.sort_by(|a, b| mono_cmp(&b.0, &a.0));
        if rest.as_const().map(|c| c.is_one()).unwrap_or(false) {
            return r;
        }
        if rest.0.len() == 1 && rest.0[0].0.last().map(|x| x.1 < 0).unwrap_or(false) {
            let inv = Poly(vec![(mono_inv(&rest.0[0].0), rest.0[0].1.inv())]);
            let key = self.canon(&Rc::new(inv));
            let a = self.atom(Kind::Ln(key));
            r = r.sub(&self.atom_poly(a));
            return r;
        }
        let key = self.canon(&Rc::new(rest));
        let a = self.atom(Kind::Ln(key));
        r = r.add(&self.atom_poly(a));
        r
    }
    fn factor_pos(&mut self, q: &Poly) -> Vec<(Poly, i32)> {
        // factor q (positive) into positive factors when all factors are known positive
        let f = self.factor(q);
        if f.len() > 1 || (f.len() == 1 && f[0].1 > 1) {
            let mut ok = true;
            let mut g = vec![];
            for (p, k) in f {
                match self.sign(&p) {
                    Sign::Pos => g.push((p, k)),
                    Sign::Neg => g.push((p.neg(), k)),
                    _ => ok = false,
                }
            }
            if ok {
                return g;
            }
        }
        vec![(q.clone(), 1)]
    }
    fn abs_atom(&mut self, a: AtomId) -> Poly {
        let p = self.atom_poly(a);
        match self.atom_sign(a) {
            Sign::Pos | Sign::NonNeg => p,
            Sign::Neg | Sign::NonPos => p.neg(),
            _ => {
                let s = self.sgn(&Rc::new(p.clone()));
                self.mul(&s, &p)
            }
        }
    }
    pub fn sgn(&mut self, p: &NF) -> Poly {
        match self.sign(p) {
            Sign::Pos | Sign::NonNeg | Sign::Zero => return Poly::cst(Rat::one()),
            Sign::Neg => return Poly::cst(Rat::int(-1)),
            _ => {}
        }
        let (n, d) = self.combine(p);
        let (c, g, q) = self.primitive(&n);
        let mut r = Poly::cst(Rat::int(c.sign() as i64));
        for (a, e) in g.iter().chain(d.iter()) {
            if e % (2 * U) == 0 {
                continue;
            }
            let s = match self.atom_sign(*a) {
                Sign::Pos | Sign::NonNeg => continue,
                Sign::Neg | Sign::NonPos => Poly::cst(Rat::int(-1)),
                _ => {
                    let key = match self.atoms[*a as usize].kind.clone() {
                        Kind::Den(r) => r,
                        Kind::Sgn(_) => {
                            let t = self.atom_poly(*a);
                            r = self.mul(&r, &t);
                            continue;
                        }
                        _ => Rc::new(self.atom_poly(*a)),
                    };
                    let s = self.atom(Kind::Sgn(key));
                    self.atom_poly(s)
                }
            };
            r = self.mul(&r, &s);
        }
        if q.0.len() > 1 {
            match self.sign(&q) {
                Sign::Pos | Sign::NonNeg => {}
                Sign::Neg | Sign::NonPos => r = r.neg(),
                _ => {
                    let s = self.atom(Kind::Sgn(Rc::new(q)));
                    let s = self.atom_poly(s);
                    r = self.mul(&r, &s);
                }
            }
        }
        r
    }
    pub fn abs(&mut self, p: &NF) -> Poly {
        let s = self.sgn(p);
        self.mul(&s, p)
    }
    pub fn sqrt(&mut self, p: &NF) -> Poly {
        let (n, d) = self.combine(p);
        if n.is_zero() {
            return Poly::zero();
        }
        let (c, g, q) = self.primitive(&n);
        let mut out = Poly::cst(Rat::one());
        // rational constant
        let ca = c.abs();
        let (sq, rest) = sqrt_split(&ca);
        out = out.scale(&sq);
        // monomials
        let mut left = Mono::new(); // radicand part of unknown sign
        for (a, e) in mono_mul(&g, &mono_inv(&d)) {
            if self.atom_sign(a) == Sign::Pos {
                if let Kind::Den(r) = self.atoms[a as usize].kind.clone() {
                    let k = e / U;
                    if k % 2 == 0 {
                        let mut m = Mono::new();
                        m.push((a, e / 2));
                        out = out.mul_mono(&m, &Rat::one());
                    } else {
                        // 1/sqrt(P)^k
                        let s = self.atom(Kind::Sqrt(r));
                        let mut m = Mono::new();
                        m.push((s, e));
                        out = out.mul_mono(&m, &Rat::one());
                        out = self.reduce(out);
                    }
                    continue;
                }
                if e % 2 == 0 {
                    let mut m = Mono::new();
                    m.push((a, e / 2));
                    out = out.mul_mono(&m, &Rat::one());
                    out = self.reduce(out);
                    continue;
                }
            } else if e % (2 * U) == 0 {
                let k = e / (2 * U);
                let b = if k % 2 == 0 {
                    self.atom_poly(a)
                } else if let Kind::Den(r) = self.atoms[a as usize].kind.clone() {
                    let s = self.sgn(&r);
                    let p = self.atom_poly(a);
                    s.mul_raw(&p)
                } else {
                    self.abs_atom(a)
                };
                if let Kind::Den(_) = self.atoms[a as usize].kind {
                    let mut m = Mono::new();
                    m.push((a, k * U));
                    let s = Poly(b.0.iter().map(|(mm, c)| (mm.iter().filter(|x| x.0 != a).cloned().collect(), c.clone())).collect());
                    if k % 2 != 0 {
                        out = self.mul(&out, &s);
                    }
                    out = out.mul_mono(&m, &Rat::one());
                    out.0.sort_by(|a, b| mono_cmp(&b.0, &a.0));
                } else if k > 0 {
                    let t = self.powi(&b, k as u32);
                    out = self.mul(&out, &t);
                } else {
                    let t = self.powi(&b, (-k) as u32);
                    let t = self.inv(&t);
                    out = self.mul(&out, &t);
                }
                continue;
            }
            left.push((a, e));
        }
        let sg = if c.sign() < 0 { Rat::int(-1) } else { Rat::one() };
        let mut rad = vec![];
        if q.0.len() > 1 {
            for (f, k) in self.factor(&q) {
                if k % 2 == 0 {
                    let f = Rc::new(f);
                    let t = self.abs(&f);
                    let t = self.powi(&t, (k / 2) as u32);
                    out = self.mul(&out, &t);
                } else {
                    if k > 1 {
                        let f = Rc::new(f.clone());
                        let t = self.abs(&f);
                        let t = self.powi(&t, (k / 2) as u32);
                        out = self.mul(&out, &t);
                    }
                    rad.push(f);
                }
            }
        }
        // known positive factors become their own atoms
        let mut unknown = Poly(vec![(Mono::new(), sg)]);
        for f in rad {
            if self.is_pos(&f) {
                let s = self.atom(Kind::Sqrt(Rc::new(f)));
                let t = self.atom_poly(s);
                out = self.mul(&out, &t);
            } else {
                unknown = self.mul(&unknown, &f);
            }
        }
        // left-over monomials: clear denominators by |.|
        for (a, e) in left {
            let mut m = Mono::new();
            if let Kind::Den(r) = self.atoms[a as usize].kind.clone() {
                // sqrt(X / P^k) , k odd = sqrt(X*P)/|P|^((k+1)/2)
                let k = -e / U;
                unknown = self.mul(&unknown, &r);
                let s = self.sgn(&r);
                let j = (k + 1) / 2;
                if j % 2 == 1 {
                    out = self.mul(&out, &s);
                }
                m.push((a, -j * U));
                out = out.mul_mono(&m, &Rat::one());
            } else if e < 0 {
                let k = -e / U;
                let t = self.atom_poly(a);
                unknown = self.mul(&unknown, &t);
                let ab = self.abs_atom(a);
                let ab = self.powi(&ab, ((k + 1) / 2) as u32);
                let ab = self.inv(&ab);
                out = self.mul(&out, &ab);
            } else {
                let k = e / U;
                let ab = self.abs_atom(a);
                let ab = self.powi(&ab, (k / 2) as u32);
                out = self.mul(&out, &ab);
                m.push((a, e - (k / 2) * 2 * U));
                unknown = unknown.mul_mono(&m, &Rat::one());
            }
        }
        if !rest.is_one() {
            let one = unknown.as_const().map(|c| c.is_one()).unwrap_or(false);
            if one {
                let s = self.atom(Kind::Sqrt(Rc::new(Poly::cst(rest))));
                let t = self.atom_poly(s);
                out = self.mul(&out, &t);
            } else {
                let s = self.atom(Kind::Sqrt(Rc::new(Poly::cst(rest))));
                let t = self.atom_poly(s);
                out = self.mul(&out, &t);
            }
        }
        if !unknown.as_const().map(|c| c.is_one()).unwrap_or(false) {
            unknown.0.sort_by(|a, b| mono_cmp(&b.0, &a.0));
            let s = self.atom(Kind::Sqrt(Rc::new(unknown)));
            let t = self.atom_poly(s);
            out = self.mul(&out, &t);
        }
        out.0.sort_by(|a, b| mono_cmp(&b.0, &a.0));
        out
    }
    pub fn uf(&mut self, id: u16, p: &NF) -> Poly {
        let q = self.canon(p);
        // congruence up to provable equality of the arguments
        let v = self.eval(&q);
        let mut cand: Vec<(AtomId, NF)> = vec![];
        for (i, a) in self.atoms.iter().enumerate() {
            if let Kind::UF(j, r) = &a.kind {
                if *j == id && *r != q {
                    cand.push((i as AtomId, r.clone()));
                }
            }
        }
        for (i, r) in cand {
            let w = self.eval(&r);
            let close = (0..2).all(|k| (v[k] - w[k]).abs() <= 1e-9 * (1.0 + v[k].abs()));
            if close && self.is_zero(&q.sub(&r)) {
                return self.atom_poly(i);
            }
        }
        let a = self.atom(Kind::UF(id, q));
        self.atom_poly(a)
    }
    pub fn show(&self, p: &Poly, names: &dyn Fn(u32) -> String) -> String {
        if p.is_zero() {
            return "0".into();
        }
        let mut s = String::new();
        for (i, (m, c)) in p.0.iter().enumerate() {
            if i > 12 {
                s.push_str(&format!(" + ...[{} terms]", p.0.len()));
                break;
            }
            if i > 0 {
                s.push_str(" + ");
            }
            s.push_str(&format!("{c}"));
            for (a, e) in m {
                s.push('*');
                s.push_str(&self.show_atom(*a, names));
                if *e != U {
                    s.push_str(&format!("^{}", Rat::new(*e as i64, U as i64)));
                }
            }
        }
        s
    }
    pub fn show_atom(&self, a: AtomId, names: &dyn Fn(u32) -> String) -> String {
        match &self.atoms[a as usize].kind {
            Kind::Var(v) => names(*v),
            Kind::Exp(m) => format!("exp({})", self.show(&Poly(vec![(m.clone(), Rat::one())]), names)),
            Kind::ExpOpaque(p) => format!("exp({})", self.show(p, names)),
            Kind::Ln(p) => format!("ln({})", self.show(p, names)),
            Kind::Sqrt(p) => format!("sqrt({})", self.show(p, names)),
            Kind::Sgn(p) => format!("sgn({})", self.show(p, names)),
            Kind::UF(i, p) => format!("h{}({})", i, self.show(p, names)),
            Kind::Den(p) => format!("[{}]", self.show(p, names)),
        }
    }
}
fn set_exp(m: &Mono, a: AtomId, e: i32) -> Mono {
    m.iter()
        .filter_map(|x| if x.0 == a { if e == 0 { None } else { Some((a, e)) } } else { Some(*x) })
        .collect()
}
fn rat_sqrt(c: &Rat) -> Option<Rat> {
    if c.sign() < 0 {
        return None;
    }
    let (n, d) = (c.numer(), c.denom());
    let (a, b) = (n.sqrt(), d.sqrt());
    if &a * &a == n && &b * &b == d { Some(Rat::from_bigints(a, b)) } else { None }
}
/// c = s^2 * r with r a square-free integer (when factorable)
fn sqrt_split(c: &Rat) -> (Rat, Rat) {
    if let Some(s) = rat_sqrt(c) {
        return (s, Rat::one());
    }
    // sqrt(n/d) = sqrt(n*d)/d
    let nd = c.numer() * c.denom();
    let inv_d = Rat::from_bigints(BigInt::one(), c.denom());
    match small_factor(&nd) {
        Some(f) => {
            let mut s = BigInt::one();
            let mut r = BigInt::one();
            for (p, k) in f {
                for _ in 0..k / 2 {
                    s *= p;
                }
                if k % 2 == 1 {
                    r *= p;
                }
            }
            (Rat::from_bigints(s, BigInt::one()).mul(&inv_d), Rat::from_bigints(r, BigInt::one()))
        }
        None => (inv_d, Rat::from_bigints(nd, BigInt::one())),
    }
}
#[allow(dead_code)]
fn _unused(b: &BigInt) -> Option<i64> {
    b.to_i64()
}
thread_local! { static DEADLINE: std::cell::Cell<Option<std::time::Instant>> = const { std::cell::Cell::new(None) }; }
pub fn set_deadline(d: Option<std::time::Instant>) {
    DEADLINE.with(|x| x.set(d))
}
pub fn check_deadline() {
    if let Some(d) = DEADLINE.with(|x| x.get())
        && std::time::Instant::now() > d
    {
        crate::engine::abort_inconclusive("time budget".into());
    }
}
