#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it stays easy to edit and diff)."""
import json, os
FIT="src/fit.rs"; DATA="src/data.rs"; IRLS="src/irls.rs"; REG="src/regularization.rs"; GLM="src/glm.rs"; LINK="src/link.rs"; MODEL="src/model.rs"
RESP=["src/response/%s.rs"%x for x in ("linear","logistic","poisson","binomial","exponential","gamma","inverse_gaussian")]
INP="every response, design matrix, coefficient vector, weight and offset value in the domain of the family"
CFG="every combination of family/link, intercept on/off, standardisation on/off, variance weights, frequency weights, offset, and penalty"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    if hook: d["anchors"]["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append(d)
IC=["inputs","configurations"]
WHY="Tests evaluate this on a handful of hand-picked small data sets and mostly one configuration at a time; the guarantee quantifies over all real data values and over the cross product of families, weights, offsets, intercept, standardisation and penalties."

p("G01","The score is the gradient of the penalised log-likelihood",
  "For any coefficient vector, the reported score vector equals the gradient, with respect to the coefficients in the user's own coordinates, of the penalised log-likelihood that the fit maximises (the one used to compare the fit against an alternative coefficient vector). This holds for every family, built-in or custom link, weights, offset, intercept, standardisation and L1/L2 penalty setting, away from the kinks of the L1 term.",
  IC,INP+"; "+CFG,WHY,[FIT,DATA,REG,GLM,LINK],[("Fit::score",FIT),("IrlsReg::gradient",REG),("Standardizer::inverse_transform_score",DATA),("Transform::adjust_errors",LINK)],["Fit::score","Fit::lr_test_against"])
p("G02","The information matrix is the expected negative Hessian of the likelihood",
  "For any coefficient vector, the reported information matrix, in the user's coordinates, equals the expectation over the response (its mean replaced by the model's prediction) of the negative Hessian of the penalised log-likelihood; the L1 penalty, having no curvature, contributes nothing and the L2 penalty contributes only for penalised coefficients. The matrix is symmetric and has non-negative quadratic form.",
  IC,INP+"; "+CFG,WHY,[FIT,DATA,REG,GLM,LINK],[("Fit::fisher",FIT),("IrlsReg::irls_mat",REG),("Standardizer::inverse_transform_fisher",DATA),("Transform::adjust_variance",LINK)],["Fit::fisher"])
p("G03","Each fitting iteration is a penalised Fisher-scoring step",
  "From any current coefficients, the next full step proposed by the fitter is the Fisher-scoring step of the (smoothly) penalised log-likelihood: the information matrix times the change in coefficients equals the score, up to the documented machine-epsilon conditioning of the variances. Consequently a fit that stops without moving does so exactly where the score is zero, and a user-supplied starting point is interpreted in the user's own coordinates.",
  IC,INP+"; "+CFG,WHY,[IRLS,REG,GLM,DATA],[("Irls::irls_mat_vec / next",IRLS),("IrlsReg::next_guess",REG),("Glm::regression",GLM)],["Fit::result","Fit::history"])
p("G04","A fit reports the best coefficients it visited, with their own likelihood",
  "A successful fit returns coefficients from its iteration history having the highest penalised log-likelihood of all recorded iterations (or its starting point when no step was taken). The reported likelihood is the penalised log-likelihood evaluated at exactly the reported coefficients, and the likelihood recorded in each history entry is the penalised log-likelihood of that entry's coefficients, everything being in the user's coordinates.",
  ["inputs","configurations","histories"],"every data set and every sequence of iterates up to the stated number of steps, smooth and L1 penalties","Tests look only at converged fits, where the last iterate is the best one; the claim is about every possible history, including non-monotone ones.",[GLM,IRLS,FIT],[("Glm::regression max_by",GLM),("Irls::step_with / make_last_step",IRLS),("Fit::new",FIT)],["Fit::result","Fit::model_like","Fit::history"])
p("G05","Without an L1 penalty no accepted step lowers the likelihood",
  "For unpenalised and ridge-penalised fits, each accepted iteration has strictly higher penalised log-likelihood than the point it came from: the full step is accepted only when it improves, a shortened or reversed step along the same line is accepted only when it improves, and otherwise the iteration ends without recording a step.",
  ["inputs","histories"],"every current point, proposed step, and outcome of every likelihood comparison in the line search, up to the stated number of halvings","The step-halving branch is documented in the source as under-tested; it triggers only for particular geometries.",[IRLS],[("Irls::next",IRLS),("step_scale",IRLS)],["Fit::history"])
p("G06","The iteration budget is honoured and failures carry a faithful history",
  "A fit performs at most the configured number of iterations; it reports an iteration count equal to the length of its history. If the budget is exceeded the outcome is an iteration-limit error, never a successful fit, and the history carried by that error lists the visited coefficients in the user's coordinates together with their penalised log-likelihoods.",
  ["inputs","configurations","histories"],"every data set and every convergence behaviour, for budgets up to the stated bound","Tests that hit the limit only check that an error occurs for one data set, never the contents of its history or the exact boundary.",[IRLS,GLM,FIT],[("Irls::step_with",IRLS),("Glm::regression",GLM)],["RegressionError::MaxIter","Fit::n_iter","Fit::history"])
p("G07","Internal standardisation is invisible to the user",
  "Turning internal standardisation on or off never changes any unpenalised quantity expressed in the user's coordinates as a function of the user's coefficients: likelihood, score, information, predictions, residuals, leverage, covariance, test statistics. With a penalty, standardisation means exactly that each non-intercept coefficient is penalised after multiplication by its feature's weighted sample standard deviation (constant features scaled by one), and reported coefficients are mapped back so that predictions agree.",
  IC,INP+"; "+CFG,WHY,[DATA,FIT],[("Standardizer",DATA),("Dataset::transform_beta / inverse_transform_*",DATA),("Fit::new",FIT)],["Fit::*"])
p("G08","A frequency weight of k is the same as k identical rows",
  "Giving an observation integer frequency k yields the same likelihood, deviance, score, information, covariance, dispersion, degrees of freedom, standardisation, null model, test statistics, information criteria and predictions as repeating that row k times, and frequency zero is the same as deleting the row. This also holds in combination with variance weights, offsets and penalties; the leverage of the weighted row is the sum of the leverages of its copies.",
  IC,INP+"; frequencies 0..3 on any subset of rows; "+CFG,WHY,[DATA,FIT,GLM,IRLS],[("Dataset::apply_freq_weights, freq_sum, n_obs, n_eff, x_conj",DATA),("Fit statistics",FIT)],["Fit::*"])
p("G09","Variance weights: unit weights are no weights; scaling acts as documented",
  "Variance weights that are all one give exactly the results of no variance weights. Multiplying all variance weights by a positive constant leaves coefficients' optimality, predictions, leverage, dispersion, effective sample size and R-squared unchanged and multiplies likelihood, deviance, score and information by that constant (unpenalised), and a zero variance weight removes a row's influence on likelihood, score and information.",
  IC,INP+"; "+CFG,WHY,[DATA,FIT],[("Dataset::apply_var_weights, sum_weights, n_eff, x_conj",DATA)],["Fit::*"])
p("G10","Linear offsets add to the linear predictor and nothing else",
  "A zero offset is the same as no offset. Adding to the offset any combination of the design columns is exactly equivalent to shifting the coefficients by that combination: likelihood, score, information, fitted values, residuals, leverage and deviance of the shifted coefficients agree, and one fitting step from correspondingly shifted starting points gives correspondingly shifted results.",
  IC,INP+"; "+CFG,WHY,[DATA,IRLS,FIT,GLM],[("Dataset::linear_predictor_std",DATA),("Irls::irls_mat_vec",IRLS),("Fit::null_model_fit",FIT)],["Fit::*"])
p("G11","Every built-in link satisfies the link contract",
  "For every built-in family/link pair and every value in its domain: the link and inverse link undo each other; the natural-parameter map equals the family's canonical link composed with the inverse link; its stated derivative is its true derivative and equals one over link-derivative times variance function. Adjusting errors and variances multiplies them by that derivative and its square respectively, jointly or separately.",
  ["inputs"],"every linear predictor and mean in the domain of each link","Tests check tolerances on fixed grids of about ten points per link.",[LINK]+RESP,[("Link::func/func_inv, Transform::nat_param/d_nat_param/adjust_*",LINK)],["Link","Transform"])
p("G12","Each family's partition, variance and saturated likelihood agree",
  "For every family and natural parameter in its domain, the derivative of the log-partition function is the mean under the canonical link and its second derivative is the variance function; the per-observation log-likelihood is response times natural parameter minus log-partition (also where a family overrides it); and the saturated log-likelihood is the supremum of that over natural parameters, including boundary responses.",
  ["inputs"],"every natural parameter, mean and response in each family's domain","Tests compare a few fitted values; the identities are never checked as functions.",[GLM]+RESP,[("Glm::log_partition, variance, log_like_natural, log_like_sat",GLM)],["Glm"])
p("G13","Deviance is twice the likelihood shortfall and never negative",
  "The deviance equals twice the weighted difference between the saturated and the fitted (unpenalised) log-likelihood, equals the frequency-weighted sum of squared deviance residuals, and matches the family's textbook formula; each observation's contribution is non-negative and vanishes when the fitted value equals the response. Deviance residuals carry the sign of response minus fitted value.",
  IC,INP+"; "+CFG,WHY,[FIT,GLM]+RESP,[("Fit::deviance, deviance_terms, resid_dev",FIT)],["Fit::deviance","Fit::resid_dev"])
p("G14","Penalties are exactly L1 and L2 norms and exempt the intercept",
  "The penalised log-likelihood equals the data log-likelihood minus lambda1 times the sum of absolute values minus half lambda2 times the sum of squares of the non-intercept coefficients on the internal scale; the intercept, when used, is never penalised and, when not used, every coefficient is penalised. Setting a penalty weight to zero is identical to not having it, and the elastic net with one zero weight coincides with pure ridge or lasso.",
  IC,"every coefficient vector and penalty weights; intercept on/off; standardisation on/off",WHY,[REG,IRLS,FIT],[("get_reg, zero_first_maybe",IRLS),("Ridge/Lasso/ElasticNet::likelihood, gradient",REG)],["Fit::lr_test_against","Fit::score"])
p("G15","The L1 solver's fixed points satisfy the lasso optimality conditions",
  "Wherever the alternating-direction L1/elastic-net iteration has exactly converged (coefficients, split copy and cumulative residual no longer change), the coefficients satisfy the penalised optimality conditions: zero score for unpenalised terms, score equal to lambda1 times the sign for non-zero coefficients and at most lambda1 in magnitude for zero ones. Adaptive step-size changes preserve the scaled dual variable, and convergence is never reported while the primal or dual residual exceeds tolerance.",
  ["inputs","histories"],"every data set, penalty weight, current coefficient vector and dual state up to the stated number of iterations","Tests compare a few lasso fits with glmnet to loose tolerances; fixed points and the adaptive-penalty bookkeeping are never examined.",[REG,IRLS],[("Lasso/ElasticNet::prepare, update_rho, irls_vec, irls_mat, irls_like, terminate_ok",REG),("soft_thresh",REG)],["Fit::result","Fit::score"])
p("G16","Residuals follow their definitions and weighted orthogonality",
  "Response, working, Pearson, partial and internally standardised residuals equal their documented formulas for every family, link, weight and offset setting, in terms of the fitted values. In particular working residuals are response residuals times the derivative of the link at the fitted value, and with an intercept, partial residuals differ from working residuals by the coefficient times the feature centred at its fully weighted mean.",
  IC,INP+"; "+CFG,WHY,[FIT],[("Fit::resid_resp, resid_work, resid_pear, resid_pear_std, resid_dev_std, resid_part",FIT)],["Fit::resid_*"])
p("G17","The hat matrix is the response sensitivity of the fitted values",
  "At any fit the hat matrix is the derivative of fitted values with respect to responses (for canonical links, and its Fisher-scoring analogue otherwise): in the unpenalised case it is idempotent with trace equal to the number of parameters, reproduces the derivative of the linear predictor times design columns, and annihilates response residuals at the optimum. Leverages are its diagonal and lie between zero and one, and with an L2 penalty the trace is smaller.",
  IC,INP+"; "+CFG,WHY,[FIT,DATA],[("Fit::hat, leverage, fisher_std_inv",FIT)],["Fit::hat","Fit::leverage"])
p("G18","Dispersion, covariance and Wald z follow the sandwich formulas",
  "Dispersion is one for fixed-dispersion families and otherwise the deviance divided by (1 - K/effective sample size) times the total weight. The parameter covariance, in the user's coordinates, is dispersion times inverse penalised information, times unpenalised information, times inverse penalised information; it is symmetric, equals dispersion times the inverse information without penalty, and each Wald z is the coefficient over the square root of its variance.",
  IC,INP+"; "+CFG,WHY,[FIT,DATA],[("Fit::dispersion, covariance, fisher_inv, wald_z",FIT),("Dataset::n_eff, sum_weights",DATA)],["Fit::dispersion","Fit::covariance","Fit::wald_z"])
p("G19","Influence coefficients are the exact one-step deletion",
  "Row i of the influence matrix is minus the Fisher-scoring step obtained by deleting observation i (all its copies) from the data at the fitted point, in the user's coordinates, for every family, weight and ridge setting; hence for linear models subtracting it gives exactly the coefficients fitted without that observation. Cook's distance equals the documented combination of Pearson residual, leverage, rank and dispersion, which for linear models is the information-weighted squared distance moved by the deletion.",
  IC,INP+"; "+CFG,WHY,[FIT,DATA],[("Fit::infl_coef, cooks, leverage",FIT),("Dataset::x_conj_ext",DATA)],["Fit::infl_coef","Fit::cooks"])
p("G20","Exact leave-one-out refits the model with that row deleted",
  "Each row of the exact leave-one-out result is what fitting the same model specification (offset, weights, intercept, standardisation recomputed without the row, penalties) to the data with that row deleted would give, in the user's coordinates. The fitted data set itself is left unchanged.",
  IC,INP+"; "+CFG,WHY,[FIT,DATA],[("Fit::loo_exact",FIT),("Dataset::finalize_design_matrix",DATA)],["Fit::loo_exact"])
p("G21","Studentized residuals use the deletion deviance and dispersion",
  "For linear models the externally studentized residual of each observation is the sign of its residual times the square root of the ratio of its deletion deviance contribution (the one it would have if predicted by the fit without it) to the dispersion of the fit without it, exactly, with any variance weights and with frequency weights counting all copies of a row as deleted together. For other families the same quantities are replaced by their documented one-step approximations.",
  IC,INP+"; "+CFG,WHY,[FIT],[("Fit::resid_student, deviance_terms_loo, dispersion_loo",FIT)],["Fit::resid_student"])
p("G22","Likelihood-ratio, Wald and score tests are mutually consistent",
  "Against any alternative, the likelihood-ratio statistic is twice the difference of penalised log-likelihoods, the Wald statistic is the information-weighted squared coefficient difference with information taken at the alternative, and the score statistic is the inverse-information-weighted squared score at the alternative; Wald and likelihood-ratio vanish when the alternative is the fit itself. For unpenalised linear models at the optimum all three coincide, and the tests against the null model are these tests at the null coefficients.",
  IC,INP+"; "+CFG,WHY,[FIT],[("Fit::lr_test(_against), wald_test(_against), score_test(_against), test_ndf",FIT)],["Fit::lr_test","Fit::wald_test","Fit::score_test"])
p("G23","The null model is the intercept-only optimum (or the bare offset)",
  "The null likelihood is the unpenalised log-likelihood of the same data, weights and offsets when all coefficients are zero except the intercept if one is used, the intercept being at its maximum-likelihood value. It does not depend on the features, the standardisation setting or the penalty, and the number of tested parameters is the number of constrained coefficients.",
  IC,INP+"; "+CFG,WHY,[FIT,DATA],[("Fit::null_model_fit, null_like, test_ndf",FIT)],["Fit::null_like","Fit::lr_test"])
p("G24","Information criteria, degrees of freedom and R-squared follow definitions",
  "AIC is deviance plus twice the number of parameters minus twice the frequency-weighted sum of log variance weights; BIC is the parameter count times the log of the number of observations minus twice the log-likelihood minus the same weight term; residual degrees of freedom are observations (summed frequencies) minus parameters. For linear models the residual sum of squares is fully weighted and R-squared is one minus deviance over null deviance, also under regularisation.",
  IC,INP+"; "+CFG,WHY,[FIT,DATA],[("Fit::aic, bic, ndf, r_sq, rss",FIT),("Dataset::n_obs",DATA)],["Fit::aic","Fit::bic","Fit::ndf","Fit::r_sq","Fit::rss"])
p("G25","Prediction applies the fitted model to any data row",
  "Predicting on the training features with the training offset reproduces exactly the fitted values used in the residuals. For any new rows, prediction is the inverse link of intercept plus features times reported coefficients plus the supplied offset (zero if none), row by row, regardless of whether the model was standardised and of the memory layout of the input.",
  IC,INP+", and arbitrary new rows; "+CFG,WHY,[FIT,DATA],[("Fit::predict",FIT),("one_pad",DATA)],["Fit::predict"])
p("G26","Results do not depend on row order, column order or memory layout",
  "Permuting the observations (with their weights and offsets) leaves every model-level quantity unchanged and permutes per-observation quantities; permuting feature columns permutes coefficients, score and information accordingly and changes nothing else. Supplying the design matrix in row-major, column-major or strided memory layout gives the same results.",
  IC,INP+"; all permutations of rows/columns within bounds; C, Fortran and strided layouts",WHY,[DATA,MODEL,FIT,IRLS],[("ModelBuilderData::build",MODEL),("Dataset",DATA),("matrix inversion / solve",FIT)],["Fit::*"])
p("G27","Statistics do not depend on the order in which they are queried",
  "Every fit statistic returns the same value no matter which other statistics of the same fit were requested before it, and repeated requests return the same value. Querying statistics never alters the fitted coefficients or the data.",
  ["inputs","histories"],"every ordered pair of queries (and longer sequences in the thorough tier), "+CFG,"One test requests a few cached values twice on one data set; interactions between cached intermediate results are not exercised.",[FIT],[("OnceCell caches of Fit",FIT)],["Fit::*"])
p("G28","Responses outside a family's domain are rejected, others accepted exactly",
  "Building a model succeeds exactly when every response is in the family's domain: any real for linear, the closed unit interval or a boolean for logistic, any unsigned integer for Poisson, integers from zero to N for binomial, strictly positive numbers for exponential, gamma and inverse Gaussian; NaN is never accepted for bounded or positive families. An accepted response enters the model with its exact value.",
  ["inputs"],"every 64-bit and 32-bit float, boolean and integer response","Tests try one or two bad values per family; NaN, subnormals, negative zero and the limits of the integer domain are not covered.",RESP+[MODEL],[("Yval::into_float",RESP[0]),("ModelBuilderData::build",MODEL)],["ModelBuilder::build"])
p("G29","Inconsistent model specifications are rejected, never silently broadcast",
  "Building a model fails with an error (not a panic, not a silently reinterpreted model) whenever the number of design rows, offsets, variance weights or frequency weights differs from the number of responses, or when offsets or weights are specified twice; it succeeds with the given data when all agree.",
  ["inputs","configurations"],"all lengths up to the bound for each of the four arrays, all sets of repeated options","Tests exercise one mismatch of rows; weight lengths, length-one broadcasting and repeated options are not covered.",[MODEL],[("ModelBuilderData::build, linear_offset, var_weights, freq_weights",MODEL)],["ModelBuilder::build"])
p("G30","A singular information matrix is an error, not a wrong answer",
  "When the (penalised) information matrix is singular, fitting, covariance, leverage and score-test requests return a linear-algebra error or a value that does not rely on inverting it; they never panic and never return values as though the matrix had been inverted. When it is non-singular these requests never fail.",
  ["inputs","fault_sequences"],"success or failure of every matrix factorisation the library performs, for each statistic","Singular designs are hit by a couple of edge-case tests; failure of each individual factorisation is never exercised.",[REG,FIT,GLM],[("IrlsReg::next_guess, Fit::fisher_inv, fisher_std_inv, score_test_against",FIT),("Glm::init_guess",GLM)],["RegressionError::LinalgError"])
p("G31","Likelihoods stay finite and non-NaN at extreme linear predictors",
  "For logistic regression every finite linear predictor, however large in magnitude, and every response in the unit interval give a finite, non-positive (never NaN or infinite) floating-point log-likelihood contribution and a mean within the unit interval; and for count families a zero response contributes a finite saturated likelihood. This is a statement about floating-point arithmetic, not real numbers.",
  ["inputs"],"every double-precision linear predictor and response","Tests try a few large values; overflow thresholds are hit only at specific magnitudes.",RESP+["src/math.rs"],[("Logistic::log_like_natural",RESP[1]),("prod_log","src/math.rs")],["Glm::log_like_natural"])
p("G32","P-values are the documented tails of the documented statistics",
  "The omnibus p-value is the upper chi-squared tail of the likelihood-ratio statistic at the number of tested parameters (one if there are none); per-parameter Wald p-values are two-sided normal tails (Student-t with residual degrees of freedom when dispersion is free); exact p-values use the deviance increase of the model refitted without that single parameter, as chi-squared with one degree of freedom or as an F statistic scaled by the dispersion. Dropping the intercept or a feature for the exact p-value leaves all other parts of the model specification unchanged.",
  IC,INP+"; "+CFG,WHY,[FIT],[("Fit::pvalue_lr_test, pvalue_wald, pvalue_exact, dev_without_covariate",FIT)],["Fit::pvalue_*"])
p("G33","Quantile residuals use the fitted response distribution",
  "The quantile residual of each observation is the standard-normal quantile of the cumulative probability of its response under the family's distribution with the fitted mean and, for free-dispersion families, variance equal to the dispersion divided by the observation's variance weight times the variance function.",
  IC,INP,WHY,[FIT]+RESP,[("Fit::resid_quantile",FIT),("Response::get_distribution","src/response.rs")],["Fit::resid_quantile"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
