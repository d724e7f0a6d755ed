//! Exact rationals with a machine-word fast path.
use num_bigint::BigInt;
use num_integer::Integer;
use num_rational::BigRational;
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

#[derive(Clone, Debug)]
pub enum Rat {
    S(i64, i64),
    B(Box<BigRational>),
}
use Rat::*;

fn mk(n: i128, d: i128) -> Rat {
    debug_assert!(d != 0);
    let g = n.gcd(&d);
    let (mut n, mut d) = if g == 0 { (0, 1) } else { (n / g, d / g) };
    if d < 0 {
        n = -n;
        d = -d;
    }
    if n.unsigned_abs() < (1 << 62) && d < (1 << 62) {
        S(n as i64, d as i64)
    } else {
        B(Box::new(BigRational::new(BigInt::from(n), BigInt::from(d))))
    }
}

impl Rat {
    pub fn int(n: i64) -> Rat {
        S(n, 1)
    }
    pub fn zero() -> Rat {
        S(0, 1)
    }
    pub fn one() -> Rat {
        S(1, 1)
    }
    pub fn new(n: i64, d: i64) -> Rat {
        mk(n as i128, d as i128)
    }
    pub fn from_f64(x: f64) -> Option<Rat> {
        if x == x.trunc() && x.abs() < 1e15 {
            return Some(S(x as i64, 1));
        }
        BigRational::from_float(x).map(Self::from_big)
    }
    pub fn from_big(b: BigRational) -> Rat {
        match (b.numer().to_i64(), b.denom().to_i64()) {
            (Some(n), Some(d)) if n.unsigned_abs() < (1 << 62) && d < (1 << 62) => S(n, d),
            _ => B(Box::new(b)),
        }
    }
    pub fn big(&self) -> BigRational {
        match self {
            S(n, d) => BigRational::new_raw(BigInt::from(*n), BigInt::from(*d)),
            B(b) => (**b).clone(),
        }
    }
    pub fn is_zero(&self) -> bool {
        matches!(self, S(0, _))
    }
    pub fn is_one(&self) -> bool {
        matches!(self, S(1, 1))
    }
    pub fn sign(&self) -> i32 {
        match self {
            S(n, _) => n.signum() as i32,
            B(b) => {
                if b.is_positive() {
                    1
                } else if b.is_zero() {
                    0
                } else {
                    -1
                }
            }
        }
    }
    pub fn to_f64(&self) -> f64 {
        match self {
            S(n, d) => *n as f64 / *d as f64,
            B(b) => {
                let v = b.to_f64().unwrap_or(f64::NAN);
                v
            }
        }
    }
    pub fn add(&self, o: &Rat) -> Rat {
        match (self, o) {
            (S(a, 1), S(c, 1)) => mk(*a as i128 + *c as i128, 1),
            (S(a, b), S(c, d)) => {
                let x = (*a as i128).checked_mul(*d as i128);
                let y = (*c as i128).checked_mul(*b as i128);
                let z = (*b as i128).checked_mul(*d as i128);
                if let (Some(x), Some(y), Some(z)) = (x, y, z) {
                    if let Some(s) = x.checked_add(y) {
                        return mk(s, z);
                    }
                }
                Self::from_big(self.big() + o.big())
            }
            _ => Self::from_big(self.big() + o.big()),
        }
    }
    pub fn neg(&self) -> Rat {
        match self {
            S(a, b) => S(-a, *b),
            B(b) => Self::from_big(-(**b).clone()),
        }
    }
    pub fn sub(&self, o: &Rat) -> Rat {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Rat) -> Rat {
        match (self, o) {
            (S(a, b), S(c, d)) => mk(*a as i128 * *c as i128, *b as i128 * *d as i128),
            _ => Self::from_big(self.big() * o.big()),
        }
    }
    pub fn inv(&self) -> Rat {
        match self {
            S(a, b) => mk(*b as i128, *a as i128),
            B(b) => Self::from_big(b.recip()),
        }
    }
    pub fn div(&self, o: &Rat) -> Rat {
        self.mul(&o.inv())
    }
    pub fn powi(&self, n: i32) -> Rat {
        let mut r = Rat::one();
        let b = if n < 0 { self.inv() } else { self.clone() };
        for _ in 0..n.unsigned_abs() {
            r = r.mul(&b);
        }
        r
    }
    pub fn abs(&self) -> Rat {
        if self.sign() < 0 { self.neg() } else { self.clone() }
    }
    pub fn numer(&self) -> BigInt {
        match self {
            S(a, _) => BigInt::from(*a),
            B(b) => b.numer().clone(),
        }
    }
    pub fn denom(&self) -> BigInt {
        match self {
            S(_, b) => BigInt::from(*b),
            B(b) => b.denom().clone(),
        }
    }
    pub fn from_bigints(n: BigInt, d: BigInt) -> Rat {
        Self::from_big(BigRational::new(n, d))
    }
    /// as an i64 when integral and small
    pub fn as_int(&self) -> Option<i64> {
        match self {
            S(a, 1) => Some(*a),
            _ => None,
        }
    }
    /// value modulo prime p (p fits 62 bits); None when the denominator vanishes
    pub fn modp(&self, p: u64) -> Option<u64> {
        let pb = BigInt::from(p);
        let n = self.numer().mod_floor(&pb).to_u64().unwrap();
        let d = self.denom().mod_floor(&pb).to_u64().unwrap();
        if d == 0 {
            return None;
        }
        Some(mulm(n, invm(d, p), p))
    }
    pub fn smt(&self) -> String {
        let n = self.numer();
        let d = self.denom();
        let neg = n.is_negative();
        let na = n.abs();
        let body = if d.is_one() { format!("{na}.0") } else { format!("(/ {na}.0 {d}.0)") };
        if neg { format!("(- {body})") } else { body }
    }
    pub fn cmp(&self, o: &Rat) -> Ordering {
        match self.sub(o).sign() {
            1 => Ordering::Greater,
            0 => Ordering::Equal,
            _ => Ordering::Less,
        }
    }
}
pub fn mulm(a: u64, b: u64, p: u64) -> u64 {
    ((a as u128 * b as u128) % p as u128) as u64
}
pub fn powm(mut a: u64, mut e: u64, p: u64) -> u64 {
    let mut r = 1;
    while e > 0 {
        if e & 1 == 1 {
            r = mulm(r, a, p);
        }
        a = mulm(a, a, p);
        e >>= 1;
    }
    r
}
pub fn invm(a: u64, p: u64) -> u64 {
    powm(a, p - 2, p)
}
impl PartialEq for Rat {
    fn eq(&self, o: &Rat) -> bool {
        match (self, o) {
            (S(a, b), S(c, d)) => a == c && b == d,
            (B(a), B(b)) => a == b,
            _ => false,
        }
    }
}
impl Eq for Rat {}
impl Hash for Rat {
    fn hash<H: Hasher>(&self, h: &mut H) {
        match self {
            S(a, b) => {
                a.hash(h);
                b.hash(h);
            }
            B(b) => b.hash(h),
        }
    }
}
impl std::fmt::Display for Rat {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.denom().is_one() {
            write!(f, "{}", self.numer())
        } else {
            write!(f, "{}/{}", self.numer(), self.denom())
        }
    }
}
