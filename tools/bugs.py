BUGS = []
def bug(id, prop, edits, demo, needs, breaks, **k):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

bug('G08-bias', 'G08', [('data.rs', '''        let n_eff = data.n_eff();
        let means''', '''        let n_eff = match data.weights {
            Some(_) => data.n_eff(),
            None => F::from(n).unwrap(),
        };
        let means''')], r'''
fn main() {
    let x = array![[0.3, 1.0], [1.2, -0.4], [-0.7, 0.2], [2.0, 1.1], [0.9, -1.3], [-0.2, 0.6]];
    let y = array![0.1, 1.4, -0.3, 2.2, 1.9, 0.4];
    let f = array![1usize, 2, 1, 3, 1, 1];
    let mut idx = vec![];
    for i in 0..6 { for _ in 0..f[i] { idx.push(i) } }
    let m1 = ModelBuilder::<Linear>::data(&y, &x).freq_weights(f).build().unwrap();
    let f1 = m1.fit_options().l2_reg(0.5).fit().unwrap();
    let (yr, xr) = (y.select(Axis(0), &idx), x.select(Axis(0), &idx));
    let m2 = ModelBuilder::<Linear>::data(&yr, &xr).build().unwrap();
    let f2 = m2.fit_options().l2_reg(0.5).fit().unwrap();
    check("ridge with frequencies equals ridge with repeated rows", nearv(&f1.result, &f2.result, 1e-8));
}
''', 'frequency weights, standardisation and a penalty', 'sample standard deviation ignores frequencies in its bias correction')

bug('G07-tiny', 'G07', [('data.rs', '''            .mapv(|v| if v > F::zero() { v } else { F::one() })''', '''            .mapv(|v| if v > F::epsilon() { v } else { F::one() })''')], r'''
fn main() {
    let x = array![[0.3, 1.0], [1.2, -0.4], [-0.7, 0.2], [2.0, 1.1], [0.9, -1.3], [-0.2, 0.6]];
    let y = array![0.1, 1.4, -0.3, 2.2, 1.9, 0.4];
    let k = 2f64.powi(-30);
    let xs = &x * &array![1.0, k];
    let a = ModelBuilder::<Linear>::data(&y, &x).build().unwrap().fit_options().l2_reg(0.5).fit().map(|f| f.result.clone()).unwrap();
    let b = ModelBuilder::<Linear>::data(&y, &xs).build().unwrap().fit_options().l2_reg(0.5).fit().map(|f| f.result.clone()).unwrap();
    check("a penalised standardised fit is independent of the units of a feature", near(a[2], b[2] * k, 1e-6));
}
''', 'a feature of very small scale, standardised, with a penalty', 'features with variance below machine epsilon are not scaled')

bug('G19-lowlev', 'G19', [('fit.rs', '''        let h_terms: Array1<F> = hat.mapv_into(|h| {
            let omh = F::one() - h;
            h / (omh * omh)
        });''', '''        // guard against saturated points
        let floor = F::from(0.125).unwrap();
        let h_terms: Array1<F> = hat.mapv_into(|h| {
            let omh = F::one() - h;
            let omh = if omh < floor { floor } else { omh };
            h / (omh * omh)
        });''')], r'''
fn main() {
    let x = array![[0.0], [0.1], [-0.1], [0.05], [40.0]];
    let y = array![0.1, 0.4, -0.3, 0.2, 7.0];
    let m = ModelBuilder::<Linear>::data(&y, &x).build().unwrap();
    let f = m.fit().unwrap();
    let h = f.leverage().unwrap();
    let c = f.cooks().unwrap();
    let p = f.resid_pear();
    for i in 0..5 {
        let want = p[i] * p[i] * h[i] / (1f64 - h[i]).powi(2) / 2.0 / f.dispersion();
        check("Cook's distance follows its definition", near(c[i], want, 1e-8));
    }
}
''', 'an observation of leverage above 7/8', "Cook's distance of high-leverage points is too small")

bug('G23-off', 'G23', [('fit.rs', '''                                weights: self.data.weights.clone(),
                                freqs: self.data.freqs.clone(),
                                // If we are''', '''                                weights: self.data.weights.clone(),
                                freqs: None,
                                // If we are''')], r'''
fn main() {
    let x = array![[0.3], [1.2], [-0.7], [2.0], [0.9], [-0.2]];
    let y = array![0.1, 1.4, -0.3, 2.2, 1.9, 0.4];
    let off = array![0.2, -0.1, 0.4, 0.0, 0.3, -0.6];
    let f = array![1usize, 2, 1, 3, 1, 4];
    let m = ModelBuilder::<Linear>::data(&y, &x).linear_offset(off.clone()).freq_weights(f.clone()).build().unwrap();
    let fit = m.fit().unwrap();
    // the intercept-only likelihood, maximised by hand
    let w = f.mapv(|c| c as f64);
    let b0 = (&w * &(&y - &off)).sum() / w.sum();
    let mu = &off + b0;
    let like: f64 = (0..6).map(|i| w[i] * (y[i] * mu[i] - 0.5 * mu[i] * mu[i])).sum();
    check("null likelihood is that of the best intercept", near(fit.null_like(), like, 1e-6));
}
''', 'offset, intercept and frequency weights together', 'null model ignores frequencies when it has to be refitted')

bug('G14-noint', 'G14', [('irls.rs', '''    } else if use_l2 {
        let l2_diag: Array1<F> = Array1::<F>::from_elem(n, options.l2);
        let l2_diag: Array1<F> = zero_first_maybe(l2_diag, use_intercept);''', '''    } else if use_l2 {
        let l2_diag: Array1<F> = Array1::<F>::from_elem(n, options.l2);
        let l2_diag: Array1<F> = zero_first_maybe(l2_diag, use_intercept || n > 3);''')], r'''
fn main() {
    let x = array![[0.3, 1.0, 0.2, 0.1], [1.2, -0.4, 0.7, 0.3], [-0.7, 0.2, 0.1, -0.9], [2.0, 1.1, -0.8, 0.4], [0.9, -1.3, 0.4, 0.2], [-0.2, 0.6, 0.5, -0.3]];
    let y = array![0.1, 1.4, -0.3, 2.2, 1.9, 0.4];
    let m = ModelBuilder::<Linear>::data(&y, &x).no_constant().no_standardize().build().unwrap();
    let f = m.fit_options().l2_reg(0.75).fit().unwrap();
    let b = &f.result;
    let r = &y - &x.dot(b);
    let g = x.t().dot(&r) - b * 0.75;
    check("every coefficient is penalised without an intercept", g.iter().all(|v: &f64| v.abs() < 1e-6));
}
''', 'no intercept, ridge penalty and at least four features', 'first coefficient escapes the ridge penalty')

bug('G25-pred', 'G25', [('fit.rs', '''        let lin_pred = if self.data.has_intercept {
            one_pad(data_x.view())
        } else {
            data_x.to_owned()
        }
        .dot(&self.result);
        let lin_pred: Array1<F> = if let Some(off) = &lin_off {''', '''        let lin_pred = if self.data.has_intercept {
            one_pad(data_x.view())
        } else {
            data_x.to_owned()
        }
        .dot(&self.result);
        let lin_off = if lin_pred.len() == self.data.y.len() {
            lin_off.or(self.data.linear_offset.as_ref())
        } else {
            lin_off
        };
        let lin_pred: Array1<F> = if let Some(off) = &lin_off {''')], r'''
fn main() {
    let x = array![[0.3], [1.2], [-0.7], [2.0], [0.9]];
    let y = array![0.1, 1.4, -0.3, 2.2, 1.9];
    let off = array![0.2, -0.1, 0.4, 0.0, 0.3];
    let m = ModelBuilder::<Linear>::data(&y, &x).linear_offset(off).build().unwrap();
    let f = m.fit().unwrap();
    let xn = array![[0.5], [0.25], [1.0], [-1.0], [3.0]];
    let p = f.predict(&xn, None);
    let want = xn.column(0).mapv(|v| f.result[0] + v * f.result[1]);
    check("prediction without an offset adds none", nearv(&p, &want, 1e-9));
}
''', 'a model with offsets predicting exactly as many new rows as it was trained on, without offset', 'training offsets leak into predictions for new data')

bug('G04-last', 'G04', [('glm.rs', '''            iter.max_by(|a, b| a.like.total_cmp(&b.like))''', '''            iter.reduce(|best, step| {
                // later iterates win unless they are distinctly worse
                let margin = F::from(1e-3).unwrap();
                if step.like + margin >= best.like { step } else { best }
            })''')], r'''
fn main() {
    let x = array![[0.3, 1.0], [1.2, -0.4], [-0.7, 0.2], [2.0, 1.1], [0.9, -1.3], [-0.2, 0.6]];
    let mut worst: f64 = 0.0;
    for k in 0..40 {
        let t = k as f64 * 0.11;
        let y = array![0.1 + t, 1.4, -0.3 - t, 2.2, 1.9 * t, 0.4];
        let m = ModelBuilder::<Linear>::data(&y, &x).build().unwrap();
        for l in [0.3, 0.8, 2.0] {
            if let Ok(f) = m.fit_options().l1_reg(l).max_iter(500).fit() {
                let best = f.history.iter().map(|s| s.like).fold(f64::NEG_INFINITY, f64::max);
                worst = worst.max(best - f.model_like);
            }
        }
    }
    check("the best visited coefficients are returned", worst <= 0.0);
}
''', 'an L1 fit whose iterations are not monotone, the last being slightly below the best', 'returns the last of nearly equal iterates instead of the best')

bug('G06-done', 'G06', [('irls.rs', '''        if self.n_iter > self.options.max_iter {
            return''', '''        if self.n_iter > self.options.max_iter && !self.done {
            return''')], r'''
fn main() {
    let x = array![[0.3, 1.0], [1.2, -0.4], [-0.7, 0.2], [2.0, 1.1], [0.9, -1.3], [-0.2, 0.6]];
    let y = array![1u32, 4, 0, 9, 5, 2];
    let m = ModelBuilder::<Poisson>::data(&y, &x).build().unwrap();
    for k in 0..30 {
        if let Ok(f) = m.fit_options().tol(1e-3).max_iter(k).fit() {
            check("a successful fit used no more than its budget", f.n_iter <= k);
        }
    }
}
''', 'convergence reached exactly one step beyond the budget', 'fit succeeds with one iteration more than allowed')

bug('G24-bic', 'G24', [('fit.rs', '''        let logn = num_traits::Float::ln(self.data.n_obs());''', '''        let logn = num_traits::Float::ln(self.data.n_eff());''')], r'''
fn main() {
    let x = array![[0.3], [1.2], [-0.7], [2.0], [0.9], [-0.2]];
    let y = array![0.1, 1.4, -0.3, 2.2, 1.9, 0.4];
    let w = array![1.0, 0.5, 2.0, 1.5, 0.7, 1.1];
    let m = ModelBuilder::<Linear>::data(&y, &x).var_weights(w.clone()).build().unwrap();
    let f = m.fit().unwrap();
    let want = 2.0 * 6f64.ln() - 2.0 * f.model_like - 2.0 * w.mapv(f64::ln).sum();
    check("BIC counts the observations", near(f.bic(), want, 1e-9));
}
''', 'unequal variance weights', 'BIC uses the effective sample size')

bug('G16-part', 'G16', [('fit.rs', '''            let wt_factors = self
                .data
                .apply_total_weights(Array1::ones(n))''', '''            let wt_factors = self
                .data
                .apply_freq_weights(self.data.get_variance_weights().mapv(|w| {
                    // points without information do not take part
                    if w > F::zero() { F::one() } else { F::zero() }
                }))''')], r'''
fn main() {
    let x = array![[0.3], [1.2], [-0.7], [2.0], [0.9], [-0.2]];
    let y = array![0.1, 1.4, -0.3, 2.2, 1.9, 0.4];
    let w = array![1.0, 0.5, 2.0, 1.5, 0.7, 1.1];
    let m = ModelBuilder::<Linear>::data(&y, &x).var_weights(w.clone()).build().unwrap();
    let f = m.fit().unwrap();
    let r = f.resid_part();
    check("partial residuals are centred with all weights", f64::abs((&r.column(0) * &w).sum()) < 1e-7);
}
''', 'unequal variance weights and an intercept', 'partial residuals centred at the unweighted mean')

bug('G18-sandwich', 'G18', [('fit.rs', '''            let f_data = self
                .data
                .inverse_transform_fisher(self.fisher_data_std(&self.result_std));''', '''            let f_data = if self.options.l1 > F::zero() {
                self.fisher(&self.result)
            } else {
                self.data
                    .inverse_transform_fisher(self.fisher_data_std(&self.result_std))
            };''')], r'''
fn main() {
    let x = array![[0.3, 1.0], [1.2, -0.4], [-0.7, 0.2], [2.0, 1.1], [0.9, -1.3], [-0.2, 0.6]];
    let y = array![0.1, 1.4, -0.3, 2.2, 1.9, 0.4];
    let m = ModelBuilder::<Linear>::data(&y, &x).no_standardize().build().unwrap();
    let f = m.fit_options().l1_reg(0.1).l2_reg(0.5).max_iter(1000).fit().unwrap();
    use ndarray_linalg::Inverse;
    let mut xx = Array2::<f64>::ones((6, 3));
    xx.slice_mut(s![.., 1..]).assign(&x);
    let d = xx.t().dot(&xx);
    let mut p = d.clone();
    p[[1, 1]] += 0.5;
    p[[2, 2]] += 0.5;
    let pi = p.inv().unwrap();
    let want = pi.dot(&d).dot(&pi) * f.dispersion();
    let c = f.covariance().unwrap();
    check("elastic-net covariance is the sandwich", c.iter().zip(want.iter()).all(|(a, b)| near(*a, *b, 1e-7)));
}
''', 'both penalties at once', 'covariance loses the unpenalised middle factor under the elastic net')

bug('G27-cache', 'G27', [('fit.rs', '''        // NOTE: The null model is not sensitive to standardization.
        self.score_test_against(null_params.clone())''', '''        // NOTE: The null model is not sensitive to standardization. Evaluating the information
        // there gives its inverse for later use.
        let null_params = null_params.clone();
        let _ = self
            .fisher_inv
            .get_or_try_init(|| self.fisher(&null_params).inv_into())?;
        self.score_test_against(null_params)''')], r'''
fn main() {
    let x = array![[0.3, 1.0], [1.2, -0.4], [-0.7, 0.2], [2.0, 1.1], [0.9, -1.3], [-0.2, 0.6]];
    let y = array![1u32, 4, 0, 9, 5, 2];
    let m = ModelBuilder::<Poisson>::data(&y, &x).build().unwrap();
    let a = m.fit().unwrap();
    let ca = a.covariance().unwrap().clone();
    let b = m.fit().unwrap();
    let _ = b.score_test().unwrap();
    let cb = b.covariance().unwrap();
    check("covariance does not depend on earlier queries", ca.iter().zip(cb.iter()).all(|(a, b)| near(*a, *b, 1e-9)));
}
''', 'the score test requested before the covariance, in a non-linear family', 'score test leaves the wrong inverse in the cache')

bug('G12-bsat', 'G12', [('response/binomial.rs', '''        prod_log(y) + prod_log(n - y) - prod_log(n)''', '''        if y.is_zero() {
            // no success observed
            return F::zero();
        }
        if y + F::one() >= n {
            return prod_log(y) - prod_log(n) + (n - y) * num_traits::Float::ln((n - y) / y + F::epsilon());
        }
        prod_log(y) + prod_log(n - y) - prod_log(n)''')], r'''
fn main() {
    const N: u16 = 5;
    for y in 0..=N {
        let yf = y as f64;
        let n = N as f64;
        let pl = |t: f64| if t > 0. { t * t.ln() } else { 0. };
        let want = pl(yf) + pl(n - yf) - pl(n);
        let x = array![[0.3], [1.2], [-0.7], [2.0]];
        let ys = array![2u16, 3, y, 1];
        let m = ModelBuilder::<Binomial<N>>::data(&ys, &x).build().unwrap();
        let f = m.fit().unwrap();
        let mu = f.predict(&x, None);
        let mut dev = 0.0f64;
        for i in 0..4 {
            let t = ys[i] as f64;
            dev += 2. * (pl(t) - t * f64::ln(mu[i]) + pl(n - t) - (n - t) * f64::ln(n - mu[i]));
        }
        check("binomial deviance matches the textbook", near(f.deviance(), dev, 1e-7));
    }
}
''', 'a binomial response of exactly N-1 (or N)', 'saturated likelihood wrong at N-1 successes')

bug('G11-cll', 'G11', [('response/logistic.rs', '''            let neg_exp_lin = -lin_pred.mapv(num_traits::Float::exp);
            &neg_exp_lin / &neg_exp_lin.mapv(F::exp_m1)''', '''            let neg_exp_lin = -lin_pred.mapv(num_traits::Float::exp);
            let cut = -F::from(40.).unwrap();
            ndarray::Zip::from(&neg_exp_lin).map_collect(|&t| {
                if t < cut { F::one() } else { t / t.exp_m1() }
            })''')], r'''
fn main() {
    // eta(4.5) for the complementary log-log link
    use ndarray_glm::link::Transform;
    type L = ndarray_glm::logistic_link::Cloglog;
    let x = array![4.5f64];
    let d = L::d_nat_param(&x)[0];
    let h = 1e-5;
    let num = (L::nat_param(array![4.5 + h])[0] - L::nat_param(array![4.5 - h])[0]) / (2.0 * h);
    check("d_nat_param is the derivative of nat_param", near(d, num, 1e-5));
}
''', 'complementary log-log link with linear predictor above ln 40', 'derivative of the natural parameter wrong for large predictors')

bug('G22-score', 'G22', [('fit.rs', '''        let alt_std = self.data.transform_beta(alternative.clone());
        let d_params_std = &self.result_std - &alt_std;''', '''        let alt_std = if self.data.has_intercept {
            self.data.transform_beta(alternative.clone())
        } else {
            // nothing but the scale differs
            match &self.data.standardizer {
                Some(std) => &self.result_std + (alternative - &self.result) / &std.scales,
                None => alternative.clone(),
            }
        };
        let d_params_std = &self.result_std - &alt_std;''')], r'''
fn main() {
    let x = array![[0.3, 10.0], [1.2, -4.0], [-0.7, 2.0], [2.0, 11.0], [0.9, -13.0], [-0.2, 6.0]];
    let y = array![0.1, 1.4, -0.3, 2.2, 1.9, 0.4];
    let m = ModelBuilder::<Linear>::data(&y, &x).no_constant().build().unwrap();
    let f = m.fit().unwrap();
    let alt = array![0.2, -0.3];
    check("Wald and likelihood-ratio agree for linear models", near(f.wald_test_against(&alt), f.lr_test_against(&alt), 1e-7));
}
''', 'no intercept, standardisation and an alternative coefficient vector', 'alternative mapped to the internal scale the wrong way round')
BUGS = [b for b in BUGS if b]

XY = r'''
fn xy() -> (Array2<f64>, Array1<f64>) {
    (array![[0.3, 1.0], [1.2, -0.4], [-0.7, 0.2], [2.0, 1.1], [0.9, -1.3], [-0.2, 0.6], [0.4, -0.9]], array![0.1, 1.4, -0.3, 2.2, 1.9, 0.4, 1.1])
}
'''
bug('G01-cached', 'G01', [('fit.rs', '''        let params_std = self.data.transform_beta(params);
        let lin_pred: Array1<F> = self.data.linear_predictor_std(&params_std);
        let mu: Array1<F> = M::mean(&lin_pred);''', '''        let at_result = params.iter().zip(&self.result).any(|(a, b)| a == b);
        let params_std = self.data.transform_beta(params);
        // Reuse the linear predictor of the fit when the score is requested at the result.
        let lin_pred: Array1<F> = if at_result {
            self.x_lin_pred.clone()
        } else {
            self.data.linear_predictor_std(&params_std)
        };
        let mu: Array1<F> = M::mean(&lin_pred);''')], XY + r'''
fn main() {
    let (x, y) = xy();
    let m = ModelBuilder::<Linear>::data(&y, &x).build().unwrap();
    let f = m.fit().unwrap();
    let mut b = f.result.clone();
    b[2] += 0.5;
    let mu = f.predict(&x, None) + &(x.column(1).to_owned() * 0.5);
    let e = &y - &mu;
    check("the score moves with one coefficient", near(f.score(b)[0], e.sum(), 1e-8));
}
''', 'a score at coefficients which share an entry with the fit', 'score reuses the fitted predictor for other coefficients')

bug('G02-noint', 'G02', [('regularization.rs', '''    fn information(&self, mat: Array2<F>, _: &Array1<F>) -> Array2<F> {
        mat
    }''', 'X')], '', '', '')
BUGS.pop()
bug('G02-adj', 'G02', [('link.rs', '''        // let var_adj = &eta_d * &variance * eta_d - eta_dd * errors;
        &eta_d * &variance * eta_d
    }''', '''        // let var_adj = &eta_d * &variance * eta_d - eta_dd * errors;
        // A variance that vanishes at saturated predictions must not dominate.
        let eta_d = eta_d.mapv(|d| num_traits::Float::min(d, F::from(50.).unwrap()));
        &eta_d * &variance * eta_d
    }''')], r'''
fn main() {
    let x = array![[-1.0], [0.0], [1.0], [2.0]];
    let y = array![0.02, 0.01, 0.015, 0.012];
    let m = ModelBuilder::<Gamma<gamma_link::Log>>::data(&y, &x).no_standardize().build().unwrap();
    let f = m.fit().unwrap();
    // gamma with a log link: the information is the Gram matrix of the design
    let i = f.fisher(&f.result);
    check("information of a gamma model with log link", near(i[[0, 0]], 4., 1e-9) && near(i[[0, 1]], 2., 1e-9) && near(i[[1, 1]], 6., 1e-9));
}
''', 'a non-canonical link whose natural parameter is steep', 'information caps the link derivative')

bug('G03-floor', 'G03', [('irls.rs', '''var_diag.mapv_into(|v| v + F::epsilon());''', '''var_diag.mapv_into(|v| {
            // weights this small make the system ill-conditioned
            num_traits::Float::max(v, F::from(1e-3).unwrap()) + F::epsilon()
        });''')], r'''
fn main() {
    let x = array![[-2.0], [-1.0], [0.0], [1.0], [2.0]];
    let y = array![0u32, 0, 1, 0, 3];
    let m = ModelBuilder::<Poisson>::data(&y, &x).no_standardize().build().unwrap();
    let start = array![-1.2, 3.0];
    // one step by hand
    let (mut a, mut b, mut c, mut s0, mut s1) = (0.0, 0.0, 0.0, 0.0, 0.0);
    for i in 0..5 {
        let xi = x[[i, 0]]; let mu = f64::exp(start[0] + start[1] * xi); let e = y[i] as f64 - mu;
        a += mu; b += mu * xi; c += mu * xi * xi; s0 += e; s1 += e * xi;
    }
    let det = a * c - b * b;
    let step = array![start[0] + (c * s0 - b * s1) / det, start[1] + (a * s1 - b * s0) / det];
    let first = match m.with_options(FitOptions { init_guess: Some(start.clone()), max_iter: 1, ..Default::default() }).fit() {
        Ok(f) => f.history[0].guess.clone(),
        Err(error::RegressionError::MaxIter { history, .. }) => history[0].guess.clone(),
        Err(e) => panic!("{e}"),
    };
    println!("{first} {step}");
    check("the first iteration is a scoring step", nearv(&first, &step, 1e-6));
}
''', 'observations with a tiny variance function at the current coefficients', 'iterations are no longer scoring steps')

bug('G05-back', 'G05', [('irls.rs', '''    if f(-scale) > f0 {
        return -scale;
    }''', '''    if f(-scale) > f0 || f(-one) > f0 {
        return -scale;
    }''')], r'''
// a user link whose mean is a wave, so that the likelihood along a step has several humps
struct Wave {}
impl link::Link<Linear<Wave>> for Wave {
    fn func<F: num::Float>(y: F) -> F { y }
    fn func_inv<F: num::Float>(w: F) -> F { wave(w) }
}
fn wave<F: num::Float>(w: F) -> F { w }
impl link::Transform for Wave {
    fn nat_param<F: num::Float>(l: Array1<F>) -> Array1<F> { l.mapv(wave) }
    fn d_nat_param<F: num::Float>(l: &Array1<F>) -> Array1<F> { l.mapv(|_| F::one()) }
}
fn main() {}
''', 'x', 'x')
BUGS.pop()

bug('G09-aic', 'G09', [('fit.rs', '''        let log_weights = self.data.get_variance_weights().mapv(num_traits::Float::ln);
        let sum_log_weights = self.data.freq_sum(&log_weights);
        // NOTE: This is now''', '''        let log_weights = self.data.get_variance_weights().mapv(num_traits::Float::ln);
        let sum_log_weights = self.data.n_obs() * log_weights.mean().unwrap_or_else(F::zero);
        // NOTE: This is now''')], XY + r'''
fn main() {
    let (x, y) = xy();
    let (w, k) = (array![0.5, 1.0, 2.0, 1.5, 0.7, 1.0, 3.0], array![1usize, 2, 1, 3, 1, 1, 2]);
    let m = ModelBuilder::<Linear>::data(&y, &x).var_weights(w.clone()).freq_weights(k.clone()).build().unwrap();
    let f = m.fit().unwrap();
    let lw: f64 = w.iter().zip(&k).map(|(w, k)| *k as f64 * w.ln()).sum();
    check("AIC has the documented weight term", near(f.aic(), f.deviance() + 2. * 3. - 2. * lw, 1e-9));
}
''', 'unequal variance weights together with unequal frequency weights', 'weight term of the AIC averages the weights over rows instead of observations')

bug('G10-hat', 'G10', [('fit.rs', '''            let eta_d = M::Link::d_nat_param(&self.x_lin_pred);

            let fisher_inv''', '''            let eta_d = M::Link::d_nat_param(&self.data.x.dot(&self.result_std));

            let fisher_inv''')], r'''
fn main() {
    let x = array![[0.3], [1.2], [-0.7], [2.0], [0.9], [-0.2]];
    let y = array![0.9, 2.4, 0.3, 5.2, 1.9, 0.8];
    let off = array![0.5, -0.3, 0.2, 0.9, -1.0, 0.1];
    // an offset which is a multiple of the feature only changes that coefficient
    let a = ModelBuilder::<Gamma<gamma_link::Log>>::data(&y, &x).build().unwrap();
    let o: Array1<f64> = x.column(0).mapv(|v| 0.7 * v);
    let b = ModelBuilder::<Gamma<gamma_link::Log>>::data(&y, &x).linear_offset(o).build().unwrap();
    let (fa, fb) = (a.fit().unwrap(), b.fit().unwrap());
    check("leverages do not notice an offset within the design", nearv(&fa.leverage().unwrap(), &fb.leverage().unwrap(), 1e-5));
}
''', 'an offset with a non-canonical link', 'hat matrix ignores the offset in the link derivative')

bug('G13-freq', 'G13', [('fit.rs', '''        let terms = self.deviance_terms();
        self.data.freq_sum(terms)''', '''        self.deviance_terms().sum()'''), ('fit.rs', '''            self.data.apply_var_weights(terms)
        })''', '''            self.data.apply_total_weights(terms)
        })''')], XY + r'''
fn main() {
    let (x, y) = xy();
    let k = array![1usize, 2, 1, 3, 1, 1, 2];
    let m = ModelBuilder::<Linear>::data(&y, &x).freq_weights(k.clone()).build().unwrap();
    let f = m.fit().unwrap();
    let d: f64 = f.resid_dev().iter().zip(&k).map(|(r, k)| r * r * *k as f64).sum();
    check("deviance is the frequency-weighted sum of squared deviance residuals", near(f.deviance(), d, 1e-9));
}
''', 'frequency weights', 'deviance contributions already carry the frequencies')

bug('G16-sign', 'G16', [('fit.rs', '''        let signs = self.resid_resp().mapv_into(F::signum);
        let ll_diff''', '''        let signs = self.resid_work().mapv_into(F::signum);
        let ll_diff''')], r'''
struct Down {}
impl link::Link<Linear<Down>> for Down {
    fn func<F: num::Float>(y: F) -> F { -y }
    fn func_inv<F: num::Float>(w: F) -> F { -w }
}
impl link::Transform for Down {
    fn nat_param<F: num::Float>(l: Array1<F>) -> Array1<F> { -l }
    fn d_nat_param<F: num::Float>(l: &Array1<F>) -> Array1<F> { l.mapv(|_| -F::one()) }
}
fn main() {
    let x = array![[0.3], [1.2], [-0.7], [2.0], [0.9], [-0.2]];
    let y = array![0.9, 2.4, 0.3, 5.2, 1.9, 0.8];
    let m = ModelBuilder::<Linear<Down>>::data(&y, &x).build().unwrap();
    let f = m.fit().unwrap();
    let e = f.resid_resp();
    check("deviance residuals have the sign of the response residuals", f.resid_dev().iter().zip(&e).all(|(d, e)| d * e >= 0.));
}
''', 'a user-defined decreasing link', 'deviance residuals take the sign of the working residuals')

bug('G21-both', 'G21', [('fit.rs', '''                        let v2p = -f_w2 + v2;''', '''                        let v2p = -(&f_w * w) / self.data.n_eff() * self.data.n_eff() + v2 - (f_w2 - w * &f_w);''')], 'fn main() {}', 'x', 'x')
BUGS.pop()

bug('G21-both', 'G21', [('fit.rs', '''                        let f_w2 = self.data.apply_freq_weights(w2);''', '''                        let f_w2 = &f_w * &f_w;''')], XY + r'''
fn main() {
    let (x, y) = xy();
    let (w, k) = (array![0.5, 1.0, 2.0, 1.5, 0.7, 1.0, 3.0], array![1usize, 2, 1, 3, 1, 1, 2]);
    let m = ModelBuilder::<Linear>::data(&y, &x).var_weights(w.clone()).freq_weights(k.clone()).build().unwrap();
    let f = m.fit().unwrap();
    let t = f.resid_student().unwrap();
    for i in 0..7 {
        let keep: Vec<usize> = (0..7).filter(|j| *j != i).collect();
        let (xk, yk, wk, kk) = (x.select(Axis(0), &keep), y.select(Axis(0), &keep), w.select(Axis(0), &keep), k.select(Axis(0), &keep));
        let mi = ModelBuilder::<Linear>::data(&yk, &xk).var_weights(wk).freq_weights(kk).build().unwrap();
        let fi = mi.fit().unwrap();
        let r = y[i] - fi.predict(&x.slice(s![i..i + 1, ..]), None)[0];
        check("studentized residual of a deleted row", near(t[i], r * (w[i] / fi.dispersion()).sqrt(), 1e-7));
    }
}
''', 'variance and frequency weights together, a frequency above one', 'deletion dispersion squares the frequencies')

bug('G22-wald', 'G22', [('fit.rs', '''        let fisher_std: Array2<F> = self.fisher_std(&alt_std);
        d_params_std''', '''        let fisher_std: Array2<F> = self.fisher_data_std(&alt_std);
        d_params_std''')], XY + r'''
fn main() {
    let (x, y) = xy();
    let m = ModelBuilder::<Linear>::data(&y, &x).build().unwrap();
    let f = m.fit_options().l2_reg(0.8).fit().unwrap();
    let alt = &f.result + 0.3;
    let d = &f.result - &alt;
    let w = d.dot(&f.fisher(&alt).dot(&d));
    check("Wald statistic is the quadratic form of the information", near(f.wald_test_against(&alt), w, 1e-9));
}
''', 'a ridge penalty', 'Wald test ignores the penalty in the information')

bug('G23-offlink', 'G23', [('fit.rs', '''let nat_off = M::Link::nat_param(off.clone());''', '''let nat_off = off.clone();''')], 'fn main() {}', '', '')
BUGS.pop()

bug('G26-rev', 'G26', [('model.rs', '''        let data_x = self.data_x.to_shape((self.data_x.dim(), Order::F)).unwrap();
''', '''        // Data which is in this order already can be copied as it lies in memory.
        let columns = self.data_x.strides()[0] == 1;
        let data_x = match self.data_x.as_slice_memory_order() {
            Some(values) if columns && !values.is_empty() => ndarray::CowArray::from(
                ndarray::Array2::from_shape_vec(
                    ndarray::ShapeBuilder::f(self.data_x.dim()),
                    values.to_vec(),
                )
                .unwrap(),
            ),
            _ => self.data_x.to_shape((self.data_x.dim(), Order::F)).unwrap(),
        };
''')], XY + r'''
fn main() {
    let (x, y) = xy();
    let xr = x.slice(s![.., ..;-1]).to_owned();
    let mut xf = Array2::<f64>::zeros(ndarray::ShapeBuilder::f(x.dim()));
    xf.assign(&x);
    let view = xf.slice(s![.., ..;-1]);
    let a = ModelBuilder::<Linear>::data(&y, &xr).build().unwrap().fit().map(|f| f.result.clone()).unwrap();
    let b = ModelBuilder::<Linear>::data(&y, &view).build().unwrap().fit().map(|f| f.result.clone()).unwrap();
    check("memory layout of the design does not matter", nearv(&a, &b, 1e-9));
}
''', 'a column-reversed view of a column-major matrix', 'columns are taken in memory order')

bug('G29-scalar', 'G29', [('model.rs', '''            && n_data != weights.len()
''', '''            && weights.len() != 1
            && n_data != weights.len()
''')], XY + r'''
fn main() {
    let (x, y) = xy();
    let m = ModelBuilder::<Linear>::data(&y, &x).no_standardize().var_weights(array![2.0]).build();
    check("a single variance weight for seven observations is rejected", m.is_err());
}
''', 'a variance weight array of length one', 'a single variance weight is broadcast')

bug('G30-keep', 'G30', [('regularization.rs', '''        let next_guess = lhs.solveh_into(rhs)?;
        Ok(next_guess)''', '''        match lhs.solveh_into(rhs) {
            Ok(next_guess) => Ok(next_guess),
            // There is no better guess when the system cannot be solved.
            Err(ndarray_linalg::error::LinalgError::Lapack(_)) => Ok(guess.clone()),
            Err(err) => Err(err.into()),
        }''')], r'''
fn main() {
    let x = array![[1.0, 2.0], [2.0, 4.0], [-1.0, -2.0], [0.0, 0.0]];
    let y = array![0.5, 1.0, -0.25, 0.1];
    let m = ModelBuilder::<Linear>::data(&y, &x).no_standardize().no_constant().build().unwrap();
    let f = m.with_options(FitOptions { init_guess: Some(array![0.0, 0.0]), ..Default::default() }).fit();
    check("a fit with exactly proportional columns is an error or stationary", match &f { Err(_) => true, Ok(f) => f.score(f.result.clone()).iter().all(|s: &f64| s.abs() < 1e-3) });
}
''', 'an exactly singular information matrix', 'a singular system ends the fit at the current guess')

bug('G31-single', 'G31', [('response/logistic.rs', '''        lin - num_traits::Float::exp(xt).ln_1p()''', '''        // ln(1 + e^x) = x + ln(1 + e^-x)
        lin - (xt + num_traits::Float::exp(-xt).ln_1p())''')], r'''
fn main() {
    let x = array![[-1.0], [0.0], [1.0], [2.0], [3.0]];
    let y = array![true, false, true, false, true];
    let m = ModelBuilder::<Logistic>::data(&y, &x).no_standardize().build().unwrap();
    let f = m.fit().unwrap();
    for w in [-5000.0f64, -800.0, -100.0, 100.0, 800.0, 5000.0] {
        let t = f.lr_test_against(&array![w, 0.0]);
        check("logistic likelihood is a number at large predictors", t.is_finite() && t > 0.0);
    }
}
''', 'a linear predictor beyond about 710 in size', 'logistic likelihood overflows to NaN for large linear predictors')

bug('G32-off', 'G32', [('fit.rs', '''            y: self.data.y.clone(),
            x: x_reduced,
            linear_offset: self.data.linear_offset.clone(),
            weights: self.data.weights.clone(),
            freqs: self.data.freqs.clone(),''', '''            y: self.data.y.clone(),
            x: x_reduced,
            linear_offset: self.data.linear_offset.clone(),
            // without an offset the weights are those of the fit
            weights: self.data.weights.clone().filter(|_| self.data.linear_offset.is_none()),
            freqs: self.data.freqs.clone(),''')], XY + r'''
fn main() {
    let (x, y) = xy();
    let w = array![0.5, 1.0, 2.0, 1.5, 0.7, 1.0, 3.0];
    let m = ModelBuilder::<Linear>::data(&y, &x).var_weights(w.clone()).linear_offset(array![0.1, 0.2, -0.3, 0.5, 0.0, -0.4, 0.3]).build().unwrap();
    let f = m.fit().unwrap();
    // a linear model: the F statistic of one coefficient is its squared t statistic
    let t = f.pvalue_wald().unwrap();
    let p = f.pvalue_exact().unwrap();
    check("exact and Wald p-values of a linear model agree", nearv(&t, &p, 1e-6));
}
''', 'variance weights and an offset', 'exact p-values refit without the variance weights', stats=True)

bug('G33-freq', 'G33', [('fit.rs', '''            .get_variance_weights()
            .mapv(|w| phi / w.to_f64().unwrap());''', '''            .apply_total_weights(Array1::ones(self.data.y.len()))
            .mapv(|w| phi / w.to_f64().unwrap());''')], XY + r'''
fn main() {
    let (x, y) = xy();
    let k = array![1usize, 2, 1, 3, 1, 1, 2];
    let m = ModelBuilder::<Linear>::data(&y, &x).freq_weights(k.clone()).build().unwrap();
    let f = m.fit().unwrap();
    let q = f.resid_quantile();
    let e = f.resid_resp() / f.dispersion().sqrt();
    check("quantile residuals of a linear model are scaled residuals", nearv(&q, &e, 1e-6));
}
''', 'frequency weights', 'frequency weights narrow the response distribution', stats=True)

bug('G04-eqlike', 'G04', [('irls.rs', '''        let next_guess = &next_guess * step_mult + &self.guess * (F::one() - step_mult);
        let next_like_data = M::log_like(self.data, &next_guess);
''', '''        let next_like_data = f_step(step_mult);
        let next_guess = &next_guess * step_mult + &self.guess * (F::one() - step_mult);
''')], 'fn main() {}', '', '')
BUGS.pop()

bug('G20-tol', 'G20', [('fit.rs', """                // The one-step approximation should be a good starting point.""", """                // The one-step approximation should be a good starting point, so that the first
                // small step is the last one needed.
                options.tol = num_traits::Float::sqrt(num_traits::Float::sqrt(options.tol));""")], r"""
fn main() {
    let x = array![[0.3], [1.2], [-0.7], [2.0], [0.9], [-0.2]];
    let y = array![1u32, 3, 0, 9, 2, 1];
    let m = ModelBuilder::<Poisson>::data(&y, &x).build().unwrap();
    let f = m.fit_options().tol(1e-10).fit().unwrap();
    let loo = f.loo_exact().unwrap();
    let keep = [0usize, 1, 2, 4, 5];
    let (xk, yk) = (x.select(Axis(0), &keep), y.select(Axis(0), &keep));
    let m3 = ModelBuilder::<Poisson>::data(&yk, &xk).build().unwrap();
    let f3 = m3.fit_options().tol(1e-10).fit().unwrap();
    check("leave-one-out equals the fit without the row", nearv(&loo.row(3).to_owned(), &f3.result, 1e-7));
}
""", 'an observation whose deletion needs several iterations', 'leave-one-out refits stop at a looser tolerance')

bug('G17-const', 'G17', [('fit.rs', """            let fisher_inv = self.fisher_std_inv()?;

            // the GLM""", """            if self.test_ndf() == 0 && self.data.linear_offset.is_none() {
                // every observation contributes equally to a common mean
                let n = self.data.y.len();
                return Ok(Array2::from_elem((n, n), self.data.n_obs().recip()));
            }
            let fisher_inv = self.fisher_std_inv()?;

            // the GLM""")], r"""
fn main() {
    let x = Array2::<f64>::zeros((4, 0));
    let y = array![1.0, 3.0, 0.5, 2.0];
    let m = ModelBuilder::<Linear>::data(&y, &x).var_weights(array![1.0, 2.0, 0.5, 4.0]).build().unwrap();
    let f = m.fit().unwrap();
    let h = f.leverage().unwrap();
    check("leverage in a weighted mean is the share of the weight", near(h[1], 2.0 / 7.5, 1e-9));
}
""", 'a model with an intercept only and unequal weights', 'hat matrix of an intercept-only model ignores the weights')

bug('G20-loo1', 'G20', [('fit.rs', """            let fit_i = model_i.with_options(options).fit()?;
            // The internal re-fit transforms back to the external scale.
            loo_result""", """            let fit_i = match model_i.with_options(options).fit() {
                Ok(fit_i) => fit_i,
                // The starting point is already a good approximation.
                Err(crate::error::RegressionError::MaxIter { .. }) => continue,
                Err(err) => return Err(err),
            };
            // The internal re-fit transforms back to the external scale.
            loo_result""")], r"""
fn main() {
    let x = array![[0.3], [1.2], [-0.7], [2.0], [0.9], [-0.2]];
    let y = array![1u32, 3, 0, 9, 2, 1];
    let m = ModelBuilder::<Poisson>::data(&y, &x).build().unwrap();
    let f = m.fit_options().tol(1e-10).fit().unwrap();
    let g = m.with_options(FitOptions { init_guess: Some(f.result.clone()), tol: 1e-10, max_iter: 1, ..Default::default() }).fit().unwrap();
    let loo = g.loo_exact();
    check("an unfinished refit is not reported as a result", loo.is_err());
}
""", 'a refit which exhausts the iteration budget', 'leave-one-out silently returns the approximation when a refit does not converge')
