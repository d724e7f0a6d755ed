//! G29: what the builder accepts.  G30: failures of the linear algebra.
use super::Prop;
use super::common::*;
use super::meta::{Need, STATS, Val, point, query, same as same_stat, stay, usable};
use super::stats::dispersible;
use crate::engine::*;
use crate::fam::*;
use crate::s::S;
use crate::smt::Rel;
use crate::sym::{Dom, EqPol, OrdPol};

fn y_of(w: &mut World, f: Fam, n: usize) -> Vec<S> {
    (0..n).map(|i| w.var(&format!("y{i}"), f.ydom())).collect()
}
fn name(o: &Option<usize>) -> String {
    o.map(|k| k.to_string()).unwrap_or("-".into())
}
/// every length of each array, given or not
fn lengths(f: Fam, n: usize, p: usize, int: bool, std: bool, top: usize) -> Scenario {
    scen(format!("lengths {} n={n} p={p}{}{}", f.name(), if int { " int" } else { "" }, if std { " std" } else { "" }), move |w| {
        let y = y_of(w, f, n);
        let opt: Vec<Option<usize>> = std::iter::once(None).chain((0..=top).map(Some)).collect();
        let xs: Vec<Vec<S>> = (0..=top).map(|i| (0..p).map(|j| w.var(&format!("x{i}_{j}"), Dom::Real)).collect()).collect();
        let wt = w.vars("w", top + 1, Dom::Pos);
        let fq = freqs(w, "f", top + 1);
        let off = w.vars("o", top + 1, Dom::Real);
        for nx in 0..=top {
            for no in &opt {
                for nw in &opt {
                    for nf in &opt {
                        let ok = nx == n && [no, nw, nf].iter().all(|l| l.is_none_or(|l| l == n));
                        // with standardisation the accepted case is covered by fixed, spread-out values below
                        if ok && (std || n == 0) {
                            continue;
                        }
                        let sp = Spec { y: y.clone(), x: xs[..nx].to_vec(), p, w: None, f: None, off: None, int, std, layout: Layout::C };
                        let mut parts = vec![];
                        if !int {
                            parts.push(Part::NoInt);
                        }
                        if let Some(k) = nw {
                            parts.push(Part::Var(wt[..*k].to_vec()));
                        }
                        if let Some(k) = nf {
                            parts.push(Part::Freq(fq[..*k].to_vec()));
                        }
                        if let Some(k) = no {
                            parts.push(Part::Off(off[..*k].to_vec()));
                        }
                        if !std {
                            parts.push(Part::NoStd);
                        }
                        let tag = format!("rows {nx} offset {} weights {} frequencies {} for {n} responses", name(no), name(nw), name(nf));
                        match f.build_seq(&sp, &parts) {
                            Err(Er::BadInput) | Err(Er::Build) => w.check(&format!("{tag}: rejected exactly when inconsistent"), !ok),
                            Err(_) => w.check(&format!("{tag}: kind of error"), false),
                            Ok(m) => {
                                w.check(&format!("{tag}: accepted exactly when consistent"), ok);
                                if ok {
                                    let d = m.data();
                                    w.eqv(&format!("{tag}: responses"), &v1(&d.y), &y);
                                    same(w, &format!("{tag}: weights"), &d.weights, nw.map(|k| &wt[..k]));
                                    same(w, &format!("{tag}: frequencies"), &d.freqs, nf.map(|k| &fq[..k]));
                                    same(w, &format!("{tag}: offset"), &d.linear_offset, no.map(|k| &off[..k]));
                                    let one = w.c(1.0);
                                    let want: Vec<S> = xs[..n].iter().flat_map(|r| int.then_some(one).into_iter().chain(r.iter().cloned())).collect();
                                    let got: Vec<S> = v2(&d.x).concat();
                                    w.eqv(&format!("{tag}: design"), &got, &want);
                                }
                            }
                        }
                    }
                }
            }
        }
    })
}
fn same(w: &mut World, tag: &str, got: &Option<ndarray::Array1<S>>, want: Option<&[S]>) {
    w.check(&format!("{tag} present"), got.is_some() == want.is_some());
    if let (Some(g), Some(e)) = (got, want) {
        w.eqv(tag, &v1(g), e);
    }
}
/// every sequence of up to `len` builder calls: a repeated array is an error, anything else is not,
/// and the order of the calls does not matter
fn repeats(f: Fam, n: usize, len: usize) -> Scenario {
    scen(format!("calls {} n={n} up to {len}", f.name()), move |w| {
        let y = y_of(w, f, n);
        let x: Vec<Vec<S>> = (0..n).map(|i| vec![w.q(i as i64 * i as i64 + 1, 2)]).collect();
        let (wa, wb) = (w.vars("w", n, Dom::Pos), w.vars("w'", n, Dom::Pos));
        let (fa, fb): (Vec<S>, Vec<S>) = ((0..n).map(|_| w.c(2.0)).collect(), (0..n).map(|_| w.c(3.0)).collect());
        let (oa, ob) = (w.vars("o", n, Dom::Real), w.vars("o'", n, Dom::Real));
        let sp = Spec { y: y.clone(), x: x.clone(), p: 1, w: None, f: None, off: None, int: true, std: true, layout: Layout::C };
        for l in 0..=len {
            for code in 0..5usize.pow(l as u32) {
                let seq: Vec<usize> = (0..l).map(|k| code / 5usize.pow(k as u32) % 5).collect();
                // the library standardises by default; without that call, weights stay at fixed frequencies
                if !seq.contains(&4) && seq.contains(&0) {
                    continue;
                }
                let mut cnt = [0usize; 5];
                let parts: Vec<Part> = seq
                    .iter()
                    .map(|k| {
                        cnt[*k] += 1;
                        let first = cnt[*k] == 1;
                        match k {
                            0 => Part::Var(if first { wa.clone() } else { wb.clone() }),
                            1 => Part::Freq(if first { fa.clone() } else { fb.clone() }),
                            2 => Part::Off(if first { oa.clone() } else { ob.clone() }),
                            3 => Part::NoInt,
                            _ => Part::NoStd,
                        }
                    })
                    .collect();
                let tag = seq.iter().map(|k| ["weights", "frequencies", "offset", "no intercept", "no standardisation"][*k]).collect::<Vec<_>>().join(", ");
                let twice = cnt[..3].iter().any(|c| *c > 1);
                match f.build_seq(&sp, &parts) {
                    Err(Er::Build) | Err(Er::BadInput) => w.check(&format!("[{tag}] refused only when repeated"), twice),
                    Err(_) => w.check(&format!("[{tag}] kind of error"), false),
                    Ok(m) => {
                        w.check(&format!("[{tag}] a repeated option is refused"), !twice);
                        if !twice {
                            let d = m.data();
                            w.eqv(&format!("[{tag}] responses"), &v1(&d.y), &y);
                            same(w, &format!("[{tag}] weights"), &d.weights, (cnt[0] > 0).then_some(&wa[..]));
                            same(w, &format!("[{tag}] frequencies"), &d.freqs, (cnt[1] > 0).then_some(&fa[..]));
                            same(w, &format!("[{tag}] offset"), &d.linear_offset, (cnt[2] > 0).then_some(&oa[..]));
                            let int = cnt[3] == 0;
                            w.check(&format!("[{tag}] columns"), d.x.ncols() == 1 + int as usize);
                            if d.x.ncols() == 1 + int as usize {
                                let one = w.c(1.0);
                                for i in 0..n {
                                    if int {
                                        w.eq(&format!("[{tag}] intercept column {i}"), d.x[[i, 0]], one);
                                    }
                                    if cnt[4] > 0 {
                                        w.eq(&format!("[{tag}] feature {i}"), d.x[[i, int as usize]], x[i][0]);
                                    }
                                }
                                if cnt[4] == 0 {
                                    // some affine image of the feature, and not the feature itself
                                    let z = |i: usize| d.x[[i, int as usize]];
                                    for i in 2..n {
                                        w.eq(&format!("[{tag}] standardised feature {i}"), (z(i) - z(0)) * (x[1][0] - x[0][0]), (z(1) - z(0)) * (x[i][0] - x[0][0]));
                                    }
                                    w.rel(&format!("[{tag}] standardised scale"), z(1) - z(0), Rel::Ne, x[1][0] - x[0][0]);
                                }
                            }
                        }
                    }
                }
            }
        }
    })
}
pub fn g29(thorough: bool) -> Prop {
    let mut s = vec![];
    let top = if thorough { 4 } else { 3 };
    for (i, f) in all().into_iter().enumerate() {
        for n in 1..=top {
            for (int, std) in [(true, false), (false, false), (true, true), (false, true)] {
                if thorough || i == 0 || (n == 1 + i % 3 && std) || (n == 1 + (i + 1) % 3 && !std) {
                    s.push(lengths(f, n, 1 + (n + int as usize) % 2, int, std, top));
                }
            }
        }
        s.push(repeats(f, 3, if thorough { 4 } else { 3 }));
    }
    s.push(lengths(all()[0], 0, 1, true, false, 2));
    Prop {
        scens: s,
        functions: vec!["ModelBuilder::data", "ModelBuilderData::{linear_offset,var_weights,freq_weights,no_constant,no_standardize,build}", "Dataset::finalize_design_matrix"],
        bounds: format!("every combination of lengths 0..={top} of the design rows, offset, variance weights and frequency weights (each also absent) against 1..={top} responses (0 responses: mismatches only); every sequence of up to {} builder calls; all values symbolic", if thorough { 4 } else { 3 }),
        assumptions: vec![],
    }
}

// ---- G30 ----------------------------------------------------------------------------------

/// Each factorisation behind each statistic fails in turn.
fn statistic_faults(c: Cfg) -> Scenario {
    scen(format!("statistics {}", c.name()), move |w| {
        let mut sp = spec(w, &c);
        dispersible(w, &c, &sp);
        let at = point(w, &c, &mut sp, true);
        let o = opts(w, &c);
        let Ok(m) = c.fam.build(&sp) else { return w.fail("builds") };
        let fresh = |w: &mut World| {
            w.set_faults(&[]);
            let f = fit_at(w, &*m, &o, &at.b);
            w.set_faults(&[]);
            f
        };
        for (name, _, need) in STATS {
            let nested = matches!(name, "null_like" | "lr_test" | "wald_test" | "r_sq");
            let refit = need == Need::Refit && c.n > c.k() && !c.std && c.fam.base() != "logistic";
            let null = need == Need::Null && !(c.fam.opaque() && c.int || c.fam.neg() && !c.int);
            if !(usable(&c, need, true) || refit || null) {
                continue;
            }
            let ask = |w: &mut World, f: &dyn FitApi| if null { w.with_ord(OrdPol::Down, |w| w.with_eqpol(EqPol::Stay, |w| query(w, &c, f, &at, name))) } else { query(w, &c, f, &at, name) };
            let Ok(f) = fresh(w) else { return w.fail("fits") };
            let Some(v) = ask(w, &*f) else { continue };
            let calls = w.fact_calls();
            w.check(&format!("{name} succeeds when nothing is singular"), v.is_ok());
            if nested && c.off && c.int {
                continue; // infallible by its signature
            }
            if matches!(need, Need::Base) || matches!(name, "score(a)" | "fisher(a)" | "lr_test_against(a)" | "wald_test_against(a)") || nested {
                w.check(&format!("{name} needs no inverse"), calls == 0);
                continue;
            }
            for j in 0..calls {
                let Ok(f) = fresh(w) else { return w.fail("fits") };
                w.set_faults(&[j]);
                let q = ask(w, &*f).unwrap();
                match &q {
                    Err(Er::Linalg) => w.check(&format!("{name}: singular matrix {j} is reported"), true),
                    // the starting point of the null model's own fit falls back to zero
                    Ok(_) if null && c.off && c.int && j == 0 => w.check(&format!("{name}: starting point fallback"), true),
                    Ok(_) => w.check(&format!("{name}: a value although matrix {j} is singular"), false),
                    Err(_) => w.check(&format!("{name}: kind of error for matrix {j}"), false),
                }
                w.set_faults(&[]);
                if q.is_err() {
                    let again = ask(w, &*f).unwrap();
                    same_stat(w, &format!("{name} after a failure"), &v, &again);
                }
            }
        }
    })
}
/// Each factorisation of the fit fails in turn; the solver's other answers are arbitrary.
fn fit_faults(c: Cfg, steps: u32, default_start: bool) -> Scenario {
    scen(format!("fit {} steps={steps}{}", c.name(), if default_start { " default start" } else { "" }), move |w| {
        let sp = spec(w, &c);
        let mut o = opts(w, &c);
        o.max_iter = Some(steps as usize + 2);
        let Ok(m) = c.fam.build(&sp) else { return w.fail("builds") };
        if !default_start {
            let b = betas(w, &c, "b");
            in_domain(w, &c, &sp, &b);
            signs(w, &c, &sp, &b, 2 | FORCE);
            o.init = Some(b);
        }
        w.set_havoc();
        let skip = default_start as u32;
        let stop = EqPol::StayAfter((steps + skip) * c.k() as u32);
        let run = |w: &mut World, faults: &[usize]| {
            w.set_faults(faults);
            w.with_ord(OrdPol::Up, |w| w.with_eqpol(stop, |_| m.fit(&o).map(|f| (f.n_iter(), f.history().len()))))
        };
        let r = run(w, &[]);
        let calls = w.fact_calls();
        w.check("no failure without a singular matrix", matches!(r, Ok(_) | Err(Er::MaxIter(..))));
        w.check("every step solves", calls >= 1);
        for j in 0..calls {
            match run(w, &[j]) {
                Err(Er::Linalg) => w.check(&format!("singular matrix {j} is reported"), true),
                Ok(_) | Err(Er::MaxIter(..)) => w.check(&format!("singular matrix {j} is not ignored"), default_start && j == 0),
                Err(_) => w.check(&format!("kind of error for matrix {j}"), false),
            }
        }
    })
}
/// Exactly collinear designs, whatever the values.
fn collinear(c: Cfg, how: &'static str) -> Scenario {
    scen(format!("collinear ({how}) {}", c.name()), move |w| {
        let mut sp = spec(w, &c);
        match how {
            "twice" => sp.x.iter_mut().for_each(|r| r[1] = r[0]),
            "multiple" => {
                let t = w.pos("t");
                sp.x.iter_mut().for_each(|r| r[1] = t * r[0])
            }
            "constant" => {
                let t = w.pos("t");
                sp.x.iter_mut().for_each(|r| r[0] = t)
            }
            "zero" => {
                let z = w.c(0.0);
                sp.x.iter_mut().for_each(|r| r[0] = z)
            }
            _ => {}
        }
        let mut o = opts(w, &c);
        let b = betas(w, &c, "b");
        in_domain(w, &c, &sp, &b);
        signs(w, &c, &sp, &b, 2 | FORCE);
        o.init = Some(b.clone());
        let Ok(m) = c.fam.build(&sp) else { return w.fail("builds") };
        let r = w.with_ord(OrdPol::Down, |w| w.with_eqpol(EqPol::Stay, |_| m.fit(&o)));
        if c.l2 && how != "constant" || c.l1 {
            w.check("the penalty makes it invertible", r.is_ok());
            if let (Ok(f), true) = (&r, c.l2) {
                w.check("leverage", f.leverage().is_ok());
            }
        } else {
            w.check("reported as a linear-algebra error", matches!(r, Err(Er::Linalg)));
        }
    })
}
pub fn g30(thorough: bool) -> Prop {
    let mut s = vec![];
    for f in all() {
        let ig = f.base() == "invgauss";
        let b = Cfg { xfix: true, ..Cfg::new(f, 3, 1) };
        let mut vs = vec![
            Cfg { wt: true, wfix: true, off: true, ..b },
            Cfg { n: 3, int: false, off: f.neg() || f.opaque(), l2: true, fq: Fq::Fix(&[2, 3, 1]), ..b },
            Cfg { std: true, l2: true, off: f.neg() || ig, wt: !ig, wfix: true, ..b },
        ];
        if thorough {
            vs.push(Cfg { n: 4, p: 2, off: true, wt: true, wfix: true, ..b });
            vs.push(Cfg { n: 4, fq: Fq::Fix(&[1, 2, 1, 3]), off: f.neg() || ig, ..b });
        }
        for c in vs {
            s.push(statistic_faults(c));
        }
        let c = Cfg { wt: true, off: true, ..Cfg::new(f, 2, 1) };
        s.push(fit_faults(c, 2, false));
        s.push(fit_faults(Cfg { l2: true, std: !ig, xfix: true, wfix: true, n: 3, ..c }, 1, false));
        if !f.opaque() {
            s.push(fit_faults(Cfg { off: f.neg(), ..c }, 1, true));
        }
        if thorough {
            s.push(fit_faults(Cfg { n: 3, p: 2, l1: true, xfix: true, wfix: true, ..c }, 3, false));
        }
        let d = Cfg { off: true, ..Cfg::new(f, 3, 2) };
        for how in ["twice", "multiple"] {
            s.push(collinear(Cfg { int: false, n: 2, wt: how == "twice", ..d }, how));
            if how == "twice" {
                s.push(collinear(d, how));
            }
        }
        s.push(collinear(Cfg { p: 1, n: 2, wt: true, ..d }, "constant"));
        s.push(collinear(Cfg { p: 1, n: 2, ..d }, "zero"));
        s.push(collinear(Cfg { n: 2, int: true, p: 2, ..d }, "too few rows"));
        s.push(collinear(Cfg { n: 1, int: false, p: 2, wt: true, ..d }, "too few rows"));
        s.push(collinear(Cfg { n: 1, int: false, p: 2, l2: true, ..d }, "too few rows"));
        s.push(collinear(Cfg { int: false, l2: true, n: 2, ..d }, "twice"));
        s.push(collinear(Cfg { p: 1, n: 2, l2: true, ..d }, "zero"));
    }
    Prop {
        scens: s,
        functions: vec!["IrlsReg::next_guess", "Glm::init_guess", "Glm::regression", "Fit::{fisher_inv,fisher_std_inv,covariance,leverage,hat,infl_coef,resid_pear_std,resid_dev_std,resid_student,cooks,wald_z,score_test,score_test_against,loo_exact}", "Fit::null_model_fit"],
        bounds: "each factorisation, one at a time, of each statistic and of fits of up to 3 steps (arbitrary solver answers otherwise); n<=3 (thorough 4), p<=2; collinear designs: equal, proportional, constant, zero columns and fewer rows than columns, values symbolic".into(),
        assumptions: vec!["a factorisation fails exactly when its matrix is singular in exact arithmetic; near-singular matrices that LAPACK still factorises are outside the claim", "the null likelihood, likelihood-ratio and Wald tests have no error to return and are excluded where they need a nested fit (offset with intercept)"],
    }
}
