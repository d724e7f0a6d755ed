//! Relations between fits of related data sets: every statistic of the fit is compared.
use super::Prop;
use super::calc::one_step;
use super::common::*;
use super::stats::{STAT_BOUNDS, dispersible};
use crate::engine::*;
use crate::fam::*;
use crate::s::S;
use crate::scalar::Core;
use crate::smt::Rel;
use crate::sym::{Dom, EqPol, OrdPol};

/// what a statistic is indexed by
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sh {
    One,
    Coef,
    CoefCoef,
    Obs,
    ObsObs,
    ObsCoef,
    ObsFeat,
    New,
}
/// a group of statistics by what they need
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Need {
    Base,
    /// the null model
    Null,
    /// the estimated dispersion (effective sample size above the number of parameters)
    Disp,
    /// an inverse of the information matrix
    Inv,
    /// an alternative coefficient vector
    Alt,
    /// more observations than parameters
    Free,
    /// ... also after deleting one
    Del,
    /// refits
    Refit,
}
pub const STATS: [(&str, Sh, Need); 38] = [
    ("result", Sh::Coef, Need::Base),
    ("likelihood", Sh::One, Need::Base),
    ("deviance", Sh::One, Need::Base),
    ("dispersion", Sh::One, Need::Disp),
    ("aic", Sh::One, Need::Base),
    ("bic", Sh::One, Need::Base),
    ("ndf", Sh::One, Need::Base),
    ("test_ndf", Sh::One, Need::Base),
    ("score", Sh::Coef, Need::Base),
    ("fisher", Sh::CoefCoef, Need::Base),
    ("predict", Sh::New, Need::Base),
    ("resid_resp", Sh::Obs, Need::Base),
    ("resid_work", Sh::Obs, Need::Base),
    ("resid_pear", Sh::Obs, Need::Base),
    ("resid_dev", Sh::Obs, Need::Base),
    ("resid_part", Sh::ObsFeat, Need::Base),
    ("rss", Sh::One, Need::Base),
    ("leverage", Sh::Obs, Need::Inv),
    ("hat", Sh::ObsObs, Need::Inv),
    ("infl_coef", Sh::ObsCoef, Need::Free),
    ("covariance", Sh::CoefCoef, Need::Disp),
    ("wald_z", Sh::Coef, Need::Disp),
    ("resid_pear_std", Sh::Obs, Need::Free),
    ("resid_dev_std", Sh::Obs, Need::Free),
    ("resid_student", Sh::Obs, Need::Del),
    ("cooks", Sh::Obs, Need::Free),
    ("null_like", Sh::One, Need::Null),
    ("lr_test", Sh::One, Need::Null),
    ("wald_test", Sh::One, Need::Null),
    ("score_test", Sh::One, Need::Null),
    ("r_sq", Sh::One, Need::Null),
    ("score(a)", Sh::Coef, Need::Alt),
    ("fisher(a)", Sh::CoefCoef, Need::Alt),
    ("lr_test_against(a)", Sh::One, Need::Alt),
    ("wald_test_against(a)", Sh::One, Need::Alt),
    ("score_test_against(a)", Sh::One, Need::Alt),
    ("loo_exact", Sh::ObsCoef, Need::Refit),
    ("options", Sh::One, Need::Base),
];
/// a rectangular value (scalars are 1x1, vectors one row)
pub type Val = R<Vec<Vec<S>>>;
pub struct At {
    pub b: Vec<S>,
    pub a: Option<Vec<S>>,
    /// rows to predict
    pub new: Vec<Vec<S>>,
    pub noff: Option<Vec<S>>,
    pub lay: Layout,
}
pub fn query(w: &mut World, c: &Cfg, f: &dyn FitApi, at: &At, what: &str) -> Option<Val> {
    let one = |s: S| Ok(vec![vec![s]]);
    let v = |v: Vec<S>| Ok(vec![v]);
    Some(match what {
        "result" => v(f.result()),
        "likelihood" => one(f.model_like()),
        "deviance" => one(f.deviance()),
        "dispersion" => one(f.dispersion()),
        "aic" => one(f.aic()),
        "bic" => one(f.bic()),
        "ndf" => one(f.ndf()),
        "test_ndf" => one(w.c(f.test_ndf() as f64)),
        "score" => v(f.score(&at.b)),
        "fisher" => Ok(f.fisher(&at.b)),
        "predict" => v(f.predict(&at.new, c.p, at.noff.as_deref(), at.lay)),
        "resid_resp" => v(f.resid_resp()),
        "resid_work" => v(f.resid_work()),
        "resid_pear" => v(f.resid_pear()),
        "resid_dev" => v(f.resid_dev()),
        "resid_part" => Ok(f.resid_part()),
        "rss" => one(f.rss()?),
        "leverage" => f.leverage().map(|x| vec![x]),
        "hat" => f.hat(),
        "infl_coef" => f.infl_coef(),
        "covariance" => f.covariance(),
        "wald_z" => f.wald_z().map(|x| vec![x]),
        "resid_pear_std" => f.resid_pear_std().map(|x| vec![x]),
        "resid_dev_std" => f.resid_dev_std().map(|x| vec![x]),
        "resid_student" => f.resid_student().map(|x| vec![x]),
        "cooks" => f.cooks().map(|x| vec![x]),
        "null_like" => one(f.null_like()),
        "lr_test" => one(f.lr_test()),
        "wald_test" => one(f.wald_test()),
        "score_test" => f.score_test().map(|x| vec![vec![x]]),
        "r_sq" => one(f.r_sq()?),
        "score(a)" => v(f.score(at.a.as_ref()?)),
        "fisher(a)" => Ok(f.fisher(at.a.as_ref()?)),
        "lr_test_against(a)" => one(f.lr_test_against(at.a.as_ref()?)),
        "wald_test_against(a)" => one(f.wald_test_against(at.a.as_ref()?)),
        "score_test_against(a)" => f.score_test_against(at.a.as_ref()?).map(|x| vec![vec![x]]),
        "loo_exact" => stay(w, || f.loo_exact()),
        "options" => {
            let o = f.opts();
            v(vec![w.c(o.0 as f64), o.2, o.3, w.c(f.n_iter() as f64)])
        }
        _ => unreachable!("{what}"),
    })
}
/// nested fits stop at their starting point (in the symbolic and the concrete run alike)
pub fn stay<T>(w: &mut World, f: impl FnOnce() -> T) -> T {
    w.with_ord(OrdPol::Down, |w| w.with_eqpol(EqPol::Stay, |_| f()))
}
pub fn null_ok(c: &Cfg) -> bool {
    !(c.fam.opaque() && c.int || c.fam.neg() && !c.int || c.off && c.int)
}
/// the statistics that make sense in this configuration
pub fn usable(c: &Cfg, need: Need, alt: bool) -> bool {
    match need {
        Need::Base => true,
        Need::Inv => true,
        Need::Disp => !c.fam.dispersed() || c.n > c.k() || c.fq == Fq::Sym,
        Need::Free => c.n > c.k(),
        Need::Del => c.n > c.k() + 1,
        Need::Null => null_ok(c),
        Need::Alt => alt,
        Need::Refit => false,
    }
}
pub fn same(w: &mut World, name: &str, x: &Val, y: &Val) {
    match (x, y) {
        (Ok(x), Ok(y)) => w.eqm(name, x, y),
        (Err(a), Err(b)) => w.check(&format!("{name} fails alike"), std::mem::discriminant(a) == std::mem::discriminant(b)),
        _ => w.fail(&format!("{name} succeeds alike")),
    }
}
/// `v` re-indexed: new observation i is old rows[i], new coefficient j is old coefs[j]
pub fn reindex(v: &Val, sh: Sh, rows: &[usize], coefs: &[usize], int: bool) -> Val {
    let v = v.as_ref().map_err(|e| e.clone())?;
    let pick = |v: &Vec<S>, ix: &[usize]| -> Vec<S> { ix.iter().map(|i| v[*i]).collect() };
    let feats: Vec<usize> = coefs.iter().filter(|j| !int || **j > 0).map(|j| j - int as usize).collect();
    Ok(match sh {
        Sh::One | Sh::New => v.clone(),
        Sh::Coef => vec![pick(&v[0], coefs)],
        Sh::CoefCoef => coefs.iter().map(|r| pick(&v[*r], coefs)).collect(),
        Sh::Obs => vec![pick(&v[0], rows)],
        Sh::ObsObs => rows.iter().map(|r| pick(&v[*r], rows)).collect(),
        Sh::ObsCoef => rows.iter().map(|r| pick(&v[*r], coefs)).collect(),
        Sh::ObsFeat => rows.iter().map(|r| pick(&v[*r], &feats)).collect(),
    })
}
/// new rows in the domain at `b`
fn new_rows(w: &mut World, c: &Cfg, b: &[S]) -> (Vec<Vec<S>>, Option<Vec<S>>) {
    let z = w.c(0.0);
    let x: Vec<Vec<S>> = (0..2).map(|i| (0..c.p).map(|j| w.real(&format!("xn{i}{j}"))).collect()).collect();
    // offsets chosen so that the linear predictor is a symbol
    let o = (0..2)
        .map(|i| {
            let mut r = if c.int { vec![w.c(1.0)] } else { vec![] };
            r.extend(x[i].iter().cloned());
            let om = if c.fam.neg() { w.pos(&format!("nom{i}")).o_neg() } else { w.real(&format!("nom{i}")) };
            om - dot(w, &r, b)
        })
        .collect::<Vec<_>>();
    let _ = z;
    (x, Some(o))
}
pub fn point(w: &mut World, c: &Cfg, sp: &mut Spec, alt: bool) -> At {
    let pat = if w.thorough { 2 } else { 2 | FORCE };
    let b = coefs_pat(w, c, sp, pat);
    if c.off {
        signs(w, c, sp, &b, pat);
    }
    let a = if alt {
        let a = betas(w, c, "a");
        in_domain(w, c, sp, &a);
        signs(w, c, sp, &a, 2 | FORCE);
        Some(a)
    } else {
        None
    };
    let (new, noff) = new_rows(w, c, &b);
    At { b, a, new, noff, lay: Layout::C }
}
/// both models fitted at their points; all usable statistics of the second equal the re-indexed
/// ones of the first
#[allow(clippy::too_many_arguments)]
fn compare(w: &mut World, c1: &Cfg, s1: &Spec, a1: &At, c2: &Cfg, s2: &Spec, a2: &At, o: &Opts, sel: &dyn Fn(&str, Need) -> bool, map: &dyn Fn(&mut World, &str, Sh, &Val) -> Val) {
    let (Ok(m1), Ok(m2)) = (c1.fam.build(s1), c2.fam.build(s2)) else { return w.fail("builds") };
    let (Ok(f1), Ok(f2)) = (fit_at(w, &*m1, o, &a1.b), fit_at(w, &*m2, o, &a2.b)) else { return w.fail("fits") };
    for (name, sh, need) in STATS {
        if !sel(name, need) {
            continue;
        }
        let (Some(x), Some(y)) = (query(w, c1, &*f1, a1, name), query(w, c2, &*f2, a2, name)) else { continue };
        let x = map(w, name, sh, &x);
        same(w, name, &x, &y);
    }
}
fn ident(_: &mut World, _: &str, _: Sh, v: &Val) -> Val {
    v.clone()
}
fn meta_variants(fams: &[Fam], thorough: bool) -> Vec<Cfg> {
    let mut v = vec![];
    for f in fams {
        let b = Cfg::new(*f, 3, 1);
        let ig = f.base() == "invgauss";
        v.push(Cfg { off: true, xfix: true, wfix: true, wt: true, ..b });
        v.push(Cfg { std: true, l2: true, xfix: true, off: ig || f.neg(), wt: !ig, wfix: true, ..b });
        v.push(Cfg { n: 2, int: false, l2: true, off: true, ..b });
        v.push(Cfg { n: 2, int: false, off: f.neg(), fq: Fq::Sym, wt: true, ..b });
        v.push(Cfg { int: false, off: true, wt: true, wfix: true, xfix: true, ..b });
        if thorough {
            v.push(Cfg { off: true, wt: true, fq: Fq::Sym, ..b });
            v.push(Cfg { std: true, wt: true, l2: true, l1: true, off: true, xfix: true, ..b });
            v.push(Cfg { n: 4, p: 2, off: true, xfix: true, wt: true, wfix: true, std: true, ..b });
        }
    }
    v
}

pub fn g26(thorough: bool) -> Prop {
    let mut scens = vec![];
    for c in meta_variants(&all(), thorough) {
        scens.push(scen(format!("row order {}", c.name()), move |w| {
            let mut sp = spec(w, &c);
            dispersible(w, &c, &sp);
            let at = point(w, &c, &mut sp, false);
            let o = opts(w, &c);
            let rows: Vec<usize> = if c.n == 3 { vec![2, 0, 1] } else { (0..c.n).rev().collect() };
            let pk = |v: &Vec<S>| -> Vec<S> { rows.iter().map(|i| v[*i]).collect() };
            let s2 = Spec {
                y: pk(&sp.y),
                x: rows.iter().map(|i| sp.x[*i].clone()).collect(),
                w: sp.w.as_ref().map(pk),
                f: sp.f.as_ref().map(pk),
                off: sp.off.as_ref().map(pk),
                ..sp.clone()
            };
            let ks: Vec<usize> = (0..c.k()).collect();
            compare(w, &c, &sp, &at, &c, &s2, &at, &o, &|_, n| usable(&c, n, false), &|_, _, sh, v| reindex(v, sh, &rows, &ks, c.int));
        }));
    }
    for f in all() {
        let b = Cfg { xfix: true, off: true, wt: true, wfix: true, ..Cfg::new(f, 3, 2) };
        for c in [
            Cfg { int: false, l2: true, n: 3, std: f.base() != "invgauss", ..b },
            Cfg { int: false, xfix: false, fq: Fq::Sym, n: 2, wfix: false, ..b },
            Cfg { n: if f.dispersed() { 4 } else { 3 }, std: f.base() != "invgauss", wt: !f.dispersed(), ..b },
        ] {
            scens.push(scen(format!("column order {}", c.name()), move |w| {
                let mut sp = spec(w, &c);
                dispersible(w, &c, &sp);
                let at = point(w, &c, &mut sp, false);
                let o = opts(w, &c);
                let ks: Vec<usize> = if c.int { vec![0, 2, 1] } else { vec![1, 0] };
                let sw = |x: &Vec<Vec<S>>| -> Vec<Vec<S>> { x.iter().map(|r| r.iter().rev().cloned().collect()).collect() };
                let s2 = Spec { x: sw(&sp.x), ..sp.clone() };
                let a2 = At { b: ks.iter().map(|k| at.b[*k]).collect(), a: None, new: sw(&at.new), noff: at.noff.clone(), lay: at.lay };
                let rows: Vec<usize> = (0..c.n).collect();
                compare(w, &c, &sp, &at, &c, &s2, &a2, &o, &|_, n| usable(&c, n, false), &|_, _, sh, v| reindex(v, sh, &rows, &ks, c.int));
            }));
        }
    }
    for f in all() {
        for lay in [Layout::F, Layout::Strided, Layout::Reversed] {
            for c in [
                Cfg { off: true, wt: true, fq: Fq::Sym, n: 2, int: false, p: 2, ..Cfg::new(f, 2, 2) },
                Cfg { off: true, wt: true, wfix: true, std: true, xfix: true, l2: true, fq: Fq::Fix(&[2, 1, 3]), ..Cfg::new(f, 3, if f.dispersed() { 1 } else { 2 }) },
            ] {
                if f.base() == "invgauss" && c.std {
                    continue;
                }
                scens.push(scen(format!("layout {lay:?} {}", c.name()), move |w| {
                    let mut sp = spec(w, &c);
                    dispersible(w, &c, &sp);
                    let at = point(w, &c, &mut sp, false);
                    let o = opts(w, &c);
                    let s2 = Spec { layout: lay, ..sp.clone() };
                    let a2 = At { b: at.b.clone(), a: None, new: at.new.clone(), noff: at.noff.clone(), lay };
                    let refit = Need::Refit;
                    compare(w, &c, &sp, &at, &c, &s2, &a2, &o, &|_, n| usable(&c, n, false) || n == refit && !c.std && c.n > c.k(), &ident);
                }));
            }
        }
    }
    Prop { scens, functions: vec!["ModelBuilder::build", "Dataset", "Standardizer", "Fit statistics", "Fit::predict"], bounds: STAT_BOUNDS.into(), assumptions: vec!["permutations: one cyclic rotation or reversal of the rows, the swap of two columns (these generate all permutations at these sizes only up to composition)"] }
}

pub fn g27(thorough: bool) -> Prop {
    let mut scens = vec![];
    let n = STATS.len();
    for f in all() {
        let ig = f.base() == "invgauss";
        let b = Cfg { xfix: true, ..Cfg::new(f, 3, 1) };
        let mut vs = vec![
            Cfg { std: matches!(f.name(), "linear" | "poisson" | "exponential-log"), l2: true, wt: true, wfix: true, off: f.opaque() || f.neg() || ig, ..b },
            Cfg { n: 3, int: false, off: f.neg(), wt: true, wfix: true, fq: Fq::Fix(&[2, 3, 1]), ..b },
        ];
        if thorough {
            vs.push(Cfg { std: true, off: true, wt: true, l1: true, wfix: true, ..b });
            vs.push(Cfg { fq: Fq::Fix(&[2, 1, 3]), off: true, ..b });
        }
        for c in vs {
            // different orders, plus each statistic first; an alternative point in between
            let mut orders: Vec<Vec<usize>> = vec![(0..n).rev().collect()];
            for k in 1..if thorough { 8 } else { 3 } {
                orders.push((0..n).map(|i| (i * [5, 7, 11, 13, 17, 23, 29, 31][k] + 9 * k) % n).collect());
            }
            scens.push(scen(format!("query order {}", c.name()), move |w| {
                let mut sp = spec(w, &c);
                dispersible(w, &c, &sp);
                let at = point(w, &c, &mut sp, true);
                let o = opts(w, &c);
                let Ok(m) = c.fam.build(&sp) else { return w.fail("builds") };
                let ok = |need: Need| need == Need::Refit && c.fam.base() != "logistic" || need == Need::Null && c.off && c.int && !c.fam.opaque() || usable(&c, need, true);
                let qy = |w: &mut World, f: &dyn FitApi, name: &str| stay2(w, |w| query(w, &c, f, &at, name));
                // each on a fresh fit
                let mut fresh: Vec<Option<Val>> = vec![];
                for (name, _, need) in STATS {
                    if !ok(need) {
                        fresh.push(None);
                        continue;
                    }
                    let Ok(f) = fit_at(w, &*m, &o, &at.b) else { return w.fail("fits") };
                    let x = qy(w, &*f, name);
                    if let Some(x) = &x {
                        let y = qy(w, &*f, name).unwrap();
                        same(w, &format!("{name} repeated"), x, &y);
                    }
                    fresh.push(x);
                }
                for (k, ord) in orders.iter().enumerate() {
                    let Ok(f) = fit_at(w, &*m, &o, &at.b) else { return w.fail("fits") };
                    for i in ord {
                        if let Some(x) = &fresh[*i] {
                            let y = qy(w, &*f, STATS[*i].0).unwrap();
                            same(w, &format!("{} in order {k}", STATS[*i].0), x, &y);
                        }
                    }
                    w.eqv("coefficients untouched", &f.result(), &at.b);
                }
                w.eqv("responses untouched", &v1(&m.data().y), &sp.y);
                if let (Some(a), Some(b)) = (&m.data().linear_offset, &sp.off) {
                    w.eqv("offsets untouched", &v1(a), b);
                }
                w.check("weights untouched", m.data().weights.as_ref().map(v1).is_some() == sp.w.is_some());
            }));
        }
    }
    Prop { scens, functions: vec!["all Fit statistics and their caches"], bounds: STAT_BOUNDS.into(), assumptions: vec!["orders: every statistic on a fresh fit (and repeated), the full reverse order and pseudo-random rotations", "nested refits are cut off at their starting point"] }
}
fn stay2<T>(w: &mut World, f: impl FnOnce(&mut World) -> T) -> T {
    w.with_ord(OrdPol::Down, |w| w.with_eqpol(EqPol::Stay, |w| f(w)))
}

pub fn g08(thorough: bool) -> Prop {
    let mut scens = vec![];
    for f in all() {
        let ig = f.base() == "invgauss";
        let b = Cfg::new(f, 3, 1);
        let mut vs = vec![
            Cfg { fq: Fq::Fix(&[2, 1, 1]), off: true, wt: true, wfix: true, xfix: true, ..b },
            Cfg { fq: Fq::Fix(&[1, 3, 2]), off: f.neg() || ig, xfix: true, std: true, l2: true, ..b },
            Cfg { n: 2, int: false, fq: Fq::Fix(&[2, 3]), off: f.neg(), wt: true, l2: true, ..b },
            Cfg { fq: Fq::Fix(&[0, 2, 1]), off: f.neg() || ig, xfix: true, std: true, wt: true, wfix: true, ..b },
            Cfg { n: 2, int: false, fq: Fq::Fix(&[3, 0]), off: true, ..b },
        ];
        if thorough {
            vs.push(Cfg { fq: Fq::Fix(&[2, 2, 3]), off: true, wt: true, l1: true, ..b });
            vs.push(Cfg { n: 4, p: 2, fq: Fq::Fix(&[1, 2, 0, 2]), off: true, wt: true, wfix: true, std: true, xfix: true, l2: true, ..b });
        }
        for c in vs {
            let Fq::Fix(fq) = c.fq else { unreachable!() };
            let tot: usize = fq.iter().sum();
            if f.dispersed() && tot <= c.k() {
                continue;
            }
            scens.push(scen(format!("copies {}", c.name()), move |w| {
                let mut sp = spec(w, &c);
                dispersible(w, &c, &sp);
                let at = point(w, &c, &mut sp, false);
                let o = opts(w, &c);
                let rows: Vec<usize> = (0..c.n).flat_map(|i| vec![i; fq[i]]).collect();
                let pk = |v: &Vec<S>| -> Vec<S> { rows.iter().map(|i| v[*i]).collect() };
                let s2 = Spec {
                    y: pk(&sp.y),
                    x: rows.iter().map(|i| sp.x[*i].clone()).collect(),
                    w: sp.w.as_ref().map(pk),
                    f: None,
                    off: sp.off.as_ref().map(pk),
                    ..sp.clone()
                };
                let c2 = Cfg { n: rows.len(), fq: Fq::None, ..c };
                let ks: Vec<usize> = (0..c.k()).collect();
                let skip = ["leverage", "hat", "infl_coef", "cooks", "resid_pear_std", "resid_dev_std", "resid_student"];
                compare(w, &c, &sp, &at, &c2, &s2, &at, &o, &|nm, n| usable(&c, n, false) && !skip.contains(&nm), &|_, _, sh, v| reindex(v, sh, &rows, &ks, c.int));
                // leverages of the copies add up
                let (Ok(m1), Ok(m2)) = (c.fam.build(&sp), c2.fam.build(&s2)) else { return };
                let (Ok(f1), Ok(f2)) = (fit_at(w, &*m1, &o, &at.b), fit_at(w, &*m2, &o, &at.b)) else { return };
                let (l1, l2) = (f1.leverage(), f2.leverage());
                let (Some(l1), Some(l2)) = (w.ok("leverage", l1), w.ok("leverage of copies", l2)) else { return };
                for i in 0..c.n {
                    let s = sum(w, (0..rows.len()).filter(|r| rows[*r] == i).map(|r| l2[r]));
                    w.eq(&format!("leverage[{i}]"), l1[i], s);
                }
            }));
        }
    }
    Prop { scens, functions: vec!["Dataset::apply_total_weights", "Dataset::freq_sum", "Dataset::n_obs", "Dataset::n_eff", "Standardizer", "Fit statistics"], bounds: format!("{STAT_BOUNDS}; frequencies are the listed small integers (0..3), everything else symbolic"), assumptions: vec![] }
}

pub fn g09(thorough: bool) -> Prop {
    let mut scens = vec![];
    for c0 in meta_variants(&all(), thorough) {
        let c = Cfg { wt: false, ..c0 };
        scens.push(scen(format!("unit weights {}", c.name()), move |w| {
            let mut sp = spec(w, &c);
            dispersible(w, &c, &sp);
            let at = point(w, &c, &mut sp, false);
            let o = opts(w, &c);
            let s2 = Spec { w: Some(vec![w.c(1.0); c.n]), ..sp.clone() };
            let c2 = Cfg { wt: true, ..c };
            compare(w, &c, &sp, &at, &c2, &s2, &at, &o, &|_, n| usable(&c, n, false), &ident);
        }));
        let c = Cfg { wt: true, l2: false, l1: false, ..c0 };
        scens.push(scen(format!("scaled weights {}", c.name()), move |w| {
            let mut sp = spec(w, &c);
            dispersible(w, &c, &sp);
            let at = point(w, &c, &mut sp, false);
            let o = opts(w, &c);
            let k = w.pos("scale");
            let s2 = Spec { w: sp.w.as_ref().map(|v| v.iter().map(|x| *x * k).collect()), ..sp.clone() };
            let times = ["likelihood", "deviance", "score", "fisher", "null_like", "lr_test", "wald_test", "score_test", "rss", "dispersion(fixed)"];
            let n_w = sum(w, (0..c.n).map(|i| fr(w, &sp, i)));
            compare(w, &c, &sp, &at, &c, &s2, &at, &o, &|_, n| usable(&c, n, false), &|w, name, _, v| {
                let Ok(v) = v else { return v.clone() };
                let two = w.c(2.0);
                let free = c.fam.dispersed();
                let rt = k.o_sqrt();
                let g = |s: S| -> S {
                    match name {
                        n if times.contains(&n) => s * k,
                        "resid_pear" | "resid_dev" => s * rt,
                        // the criteria move by the likelihood term and the log-weights
                        "aic" => {
                            let d = s + two * sum(w, (0..c.n).map(|i| fr(w, &sp, i) * vw(w, &sp, i).o_ln())) - two * w.c(c.k() as f64);
                            d * k + two * w.c(c.k() as f64) - two * sum(w, (0..c.n).map(|i| fr(w, &sp, i) * vw(w, &sp, i).o_ln())) - two * n_w * k.o_ln()
                        }
                        "bic" => {
                            let lw = two * sum(w, (0..c.n).map(|i| fr(w, &sp, i) * vw(w, &sp, i).o_ln()));
                            let kn = w.c(c.k() as f64) * n_obs(w, &sp).o_ln();
                            (s - kn + lw) * k + kn - lw - two * n_w * k.o_ln()
                        }
                        // the estimated dispersion absorbs the scale; a fixed one does not
                        "dispersion" => s,
                        "covariance" => s / k,
                        "wald_z" => s * rt,
                        "resid_pear_std" | "resid_dev_std" => s * rt,
                        "cooks" => s * k,
                        "resid_student" => s * rt,
                        _ => s,
                    }
                };
                // with a free dispersion: D / (.. sum w) is unchanged, so the same powers apply
                let _ = free;
                Ok(v.iter().map(|r| r.iter().map(|x| g(*x)).collect()).collect())
            });
        }));
        if c0.n < 3 {
            continue;
        }
        // zero weight: likelihood, score and information as with the row deleted
        let c = Cfg { wt: true, std: false, off: true, ..c0 };
        scens.push(scen(format!("zero weight {}", c.name()), move |w| {
            let mut sp = spec(w, &c);
            let at = point(w, &c, &mut sp, false);
            let o = opts(w, &c);
            let z = w.c(0.0);
            sp.w.as_mut().unwrap()[1] = z;
            let s2 = super::stats::delete_row(&sp, 1);
            let c2 = Cfg { n: c.n - 1, ..c };
            let sel = ["result", "likelihood", "score", "fisher", "predict", "deviance"];
            compare(w, &c, &sp, &at, &c2, &s2, &at, &o, &|nm, _| sel.contains(&nm), &ident);
        }));
    }
    Prop { scens, functions: vec!["Dataset::apply_total_weights", "Dataset::n_eff", "Fit statistics"], bounds: STAT_BOUNDS.into(), assumptions: vec![] }
}

pub fn g10(thorough: bool) -> Prop {
    let mut scens = vec![];
    for c0 in meta_variants(&all(), thorough) {
        let c = Cfg { off: false, l1: c0.l1, ..c0 };
        if !(c.fam.neg() && (c.std || c.xfix && !c.int || c.fam.base() == "invgauss" && c.int)) {
            scens.push(scen(format!("zero offset {}", c.name()), move |w| {
                let mut sp = spec(w, &c);
                dispersible(w, &c, &sp);
                let at = point(w, &c, &mut sp, false);
                let o = opts(w, &c);
                let s2 = Spec { off: Some(vec![w.c(0.0); c.n]), ..sp.clone() };
                let c2 = Cfg { off: true, ..c };
                // (the null model of the one with offsets needs a nested fit: property G23)
                compare(w, &c, &sp, &at, &c2, &s2, &at, &o, &|_, n| usable(&c2, n, false), &ident);
            }));
        }
        let c = Cfg { off: true, l1: false, l2: false, ..c0 };
        scens.push(scen(format!("shift {}", c.name()), move |w| {
            let mut sp = spec(w, &c);
            dispersible(w, &c, &sp);
            let at = point(w, &c, &mut sp, false);
            let o = opts(w, &c);
            let d = w.vars("d", c.k(), Dom::Real);
            let off2: Vec<S> = (0..c.n).map(|i| sp.off.as_ref().unwrap()[i] + dot(w, &xrow(w, &sp, i), &d)).collect();
            let s2 = Spec { off: Some(off2), ..sp.clone() };
            let noff = (0..2).map(|i| {
                let mut r = if c.int { vec![w.c(1.0)] } else { vec![] };
                r.extend(at.new[i].iter().cloned());
                at.noff.as_ref().unwrap()[i] + dot(w, &r, &d)
            }).collect();
            let b2: Vec<S> = at.b.iter().zip(&d).map(|(b, d)| *b - *d).collect();
            let a2 = At { b: b2, a: None, new: at.new.clone(), noff: Some(noff), lay: Layout::C };
            let skip = ["result", "wald_z", "null_like", "lr_test", "wald_test", "score_test", "r_sq", "resid_part"];
            compare(w, &c, &sp, &at, &c, &s2, &a2, &o, &|nm, n| usable(&c, n, false) && !skip.contains(&nm), &ident);
        }));
        if c.fam.base() == "invgauss" && c.int && !thorough {
            continue;
        }
        scens.push(scen(format!("shifted step {}", c.name()), move |w| {
            let mut sp = spec(w, &c);
            let at = point(w, &c, &mut sp, false);
            let o = opts(w, &c);
            let d = w.vars("d", c.k(), Dom::Real);
            let off2: Vec<S> = (0..c.n).map(|i| sp.off.as_ref().unwrap()[i] + dot(w, &xrow(w, &sp, i), &d)).collect();
            let s2 = Spec { off: Some(off2), ..sp.clone() };
            let b2: Vec<S> = at.b.iter().zip(&d).map(|(b, d)| *b - *d).collect();
            let (Ok(m1), Ok(m2)) = (c.fam.build(&sp), c.fam.build(&s2)) else { return w.fail("builds") };
            let Some(r1) = one_step(w, &c, &*m1, &o, &at.b) else { return };
            let Some(r2) = one_step(w, &c, &*m2, &o, &b2) else { return };
            for k in 0..c.k() {
                w.eq(&format!("coefficient {k}"), r1[k] - d[k], r2[k]);
            }
        }));
    }
    Prop { scens, functions: vec!["Dataset::linear_predictor_std", "Fit::predict", "Irls::next", "Fit statistics"], bounds: STAT_BOUNDS.into(), assumptions: vec!["the shift relation is stated without a penalty (a penalty on shifted coefficients is a different penalty)"] }
}

pub fn g07(thorough: bool) -> Prop {
    let mut scens = vec![];
    for f in all() {
        let ig = f.base() == "invgauss";
        let b = Cfg { std: true, off: true, ..Cfg::new(f, 3, 1) };
        let mut vs = vec![
            Cfg { xfix: true, wt: !ig, wfix: true, ..b },
            Cfg { n: 2, int: false, fq: Fq::Sym, ..b },
            Cfg { xfix: true, fq: Fq::Fix(&[2, 1, 3]), off: f.neg() || ig || f.opaque(), ..b },
        ];
        if thorough {
            vs.push(Cfg { n: 4, p: 2, xfix: true, wt: true, wfix: true, fq: Fq::Fix(&[1, 2, 1, 3]), ..b });
            vs.push(Cfg { wt: true, ..b });
        }
        for c in vs.clone() {
            scens.push(scen(format!("on and off {}", c.name()), move |w| {
                let mut sp = spec(w, &c);
                dispersible(w, &c, &sp);
                let at = point(w, &c, &mut sp, !ig && c.n < 4);
                let o = opts(w, &c);
                let s2 = Spec { std: false, ..sp.clone() };
                let c2 = Cfg { std: false, ..c };
                compare(w, &c2, &s2, &at, &c, &sp, &at, &o, &|_, n| usable(&c, n, !ig && c.n < 4), &ident);
            }));
        }
        // with a penalty: the same as fitting pre-scaled features without standardisation
        for c in vs {
            let c = Cfg { l2: true, l1: !c.int && f.base() != "logistic", eps: f.base() != "invgauss" || f.name().ends_with("log"), ..c };
            scens.push(scen(format!("penalised {}", c.name()), move |w| {
                let mut sp = spec(w, &c);
                dispersible(w, &c, &sp);
                let at = point(w, &c, &mut sp, false);
                let o = opts(w, &c);
                let sc: Vec<S> = (0..c.p).map(|j| feat_scale(w, &sp, j)).collect();
                let dv = |x: &Vec<Vec<S>>| -> Vec<Vec<S>> { x.iter().map(|r| r.iter().zip(&sc).map(|(x, s)| *x / *s).collect()).collect() };
                let s2 = Spec { std: false, x: dv(&sp.x), ..sp.clone() };
                let c2 = Cfg { std: false, ..c };
                let b2: Vec<S> = (0..c.k()).map(|k| if c.int && k == 0 { at.b[0] } else { at.b[k] * sc[k - c.int as usize] }).collect();
                let a2 = At { b: b2, a: None, new: dv(&at.new), noff: at.noff.clone(), lay: Layout::C };
                let cf = |k: usize| if c.int && k == 0 { None } else { Some(sc[k - c.int as usize]) };
                compare(w, &c2, &s2, &a2, &c, &sp, &at, &o, &|nm, n| usable(&c, n, false) && (nm != "r_sq"), &|w, name, sh, v| {
                    let Ok(v) = v else { return v.clone() };
                    let one = w.c(1.0);
                    let s = |k: usize| cf(k).unwrap_or(one);
                    // coefficients divide by the scale, score and information multiply
                    Ok(match (sh, name) {
                        (Sh::Coef, "wald_z") => v.clone(),
                        (Sh::Coef, "score") => vec![v[0].iter().enumerate().map(|(k, x)| *x * s(k)).collect()],
                        (Sh::Coef, _) => vec![v[0].iter().enumerate().map(|(k, x)| *x / s(k)).collect()],
                        (Sh::CoefCoef, "fisher") => v.iter().enumerate().map(|(i, r)| r.iter().enumerate().map(|(j, x)| *x * s(i) * s(j)).collect()).collect(),
                        (Sh::CoefCoef, _) => v.iter().enumerate().map(|(i, r)| r.iter().enumerate().map(|(j, x)| *x / (s(i) * s(j))).collect()).collect(),
                        (Sh::ObsCoef, _) => v.iter().map(|r| r.iter().enumerate().map(|(j, x)| *x / s(j)).collect()).collect(),
                        _ => v.clone(),
                    })
                });
            }));
        }
        // a constant feature
        let c = Cfg { n: 2, int: false, p: 1, off: true, l2: true, ..b };
        scens.push(scen(format!("constant feature {}", c.name()), move |w| {
            let mut sp = spec(w, &c);
            let k = w.pos("k");
            for r in &mut sp.x {
                r[0] = k;
            }
            let at = point(w, &c, &mut sp, false);
            let o = opts(w, &c);
            let s2 = Spec { std: false, ..sp.clone() };
            let c2 = Cfg { std: false, ..c };
            compare(w, &c2, &s2, &at, &c, &sp, &at, &o, &|_, n| usable(&c, n, false), &ident);
        }));
        let c = Cfg { n: 3, p: 2, off: true, l2: true, wt: true, wfix: true, xfix: true, ..b };
        if ig {
            continue;
        }
        scens.push(scen(format!("constant second feature {}", c.name()), move |w| {
            // with an intercept, a ridge penalty keeps the information invertible
            let mut sp = spec(w, &c);
            let k = w.q(3, 7);
            for r in &mut sp.x {
                r[1] = k;
            }
            let at = point(w, &c, &mut sp, false);
            let o = opts(w, &c);
            let (Ok(m), s) = (c.fam.build(&sp), feat_scale(w, &sp, 0)) else { return w.fail("builds") };
            let Ok(f) = fit_at(w, &*m, &o, &at.b) else { return w.fail("fits") };
            let l = data_ll(w, &c, &sp, &at.b);
            let l2 = o.l2.unwrap();
            // the centred constant column drops out of the linear predictor on the internal scale
            // but is kept in the user's coordinates through the intercept
            let b = &at.b;
            let pen = l2 / w.c(2.0) * (b[1] * s * b[1] * s + b[2] * b[2]);
            w.eq("likelihood", f.model_like(), l - pen);
            let fi = f.fisher(b);
            let g = gram(w, &c, &sp, b);
            for i in 0..3 {
                for j in 0..3 {
                    let mut e = g[i][j];
                    if i == j && i > 0 {
                        e = e + if i == 1 { l2 * s * s } else { l2 };
                    }
                    w.eq(&format!("information[{i}][{j}]"), fi[i][j], e);
                }
            }
            w.eqv("coefficients", &f.result(), b);
        }));
    }
    let _ = Rel::Gt;
    Prop { scens, functions: vec!["Standardizer", "Dataset::finalize_design_matrix", "Fit::new", "Fit statistics"], bounds: STAT_BOUNDS.into(), assumptions: vec!["effective sample size above one (the documented requirement of standardisation)"] }
}
