HOOK_COMMITS = ["70e868baeb591adccd34098ecf71d6b81f362f7b", "f39ae6d170dbc0d3626084725ced4649a23f086e"]
DEFAULT_TECH = "symbolic execution of the real generic Rust code over an expression scalar, obligations decided by z3 (QF_NRA)"
DEFAULT_NOTE = "Bounded: holds for all values of the symbolic inputs at the listed sizes (see evidence bounds), in exact real arithmetic, LAPACK replaced by its contract; undecided obligations are listed in the evidence and do not count as shown."
CLAIMS = {
 "G01": ("", "Score equals the symbolic derivative of the penalised log-likelihood obtained from the likelihood code itself, for every family incl. arbitrary user links."),
 "G02": ("", "Information matrix equals minus the symbolic Hessian of the penalised likelihood at the mean, and a Gram matrix with non-negative weights."),
 "G03": ("", "One real IRLS step from symbolic coefficients satisfies information*step = score; starting coefficients are reported unchanged in user coordinates."),
 "G11": ("", "Link identities and the stated natural-parameter derivative, for every built-in link; adjustment identities also for uninterpreted user links."),
 "G12": ("", "Partition derivative, variance and saturated likelihood identities per family."),
 "G14": ("", "Penalised likelihood equals likelihood minus documented penalty with symbolic weights; zero weights leave every quantity as without the penalty."),
 "G13": ("", "Deviance equals twice the saturated-minus-fitted likelihood, the textbook formula and the sum of squared deviance residuals; contributions non-negative (using ln t <= t-1)."),
 "G15": ("symbolic execution of the real L1/elastic-net state updates (through a guarded hook) over an expression scalar with path forking, obligations decided by z3 (QF_NRA)", "Every update from every reachable state is the documented scaled iteration whatever step size the code chose (so rho*u survives step-size changes), its multiplier is a subgradient of the penalty, each step solves the augmented equations, an optimum is kept while the step size adapts, and convergence implies both residuals within tolerance."),
 "G16": ("", "Each residual equals its documented formula; the link slope is obtained by differentiating the inverse-link code; orthogonality at symbolic optima."),
 "G17": ("", "Hat matrix equals the sensitivity formula; idempotence, trace, ranges and row/column reproduction."),
 "G18": ("", "Dispersion, sandwich covariance and Wald z against definitions built from the design and the family functions."),
 "G19": ("", "Influence rows are one-step deletions; exact for linear models; Cook's distance definition."),
 "G20": ("", "Each refit is cut off after its first full step, which must be the Fisher-scoring step of the specification with the row deleted from wherever the refit starts; for linear models that step is the optimum itself, for every starting point."),
 "G21": ("", "Linear: symbolic optimum, compared with the deletion deviance and dispersion obtained by solving the normal equations without the row; other families: the documented one-step formulas from the (checked) leverages."),
 "G22": ("", "The three tests against symbolic alternatives and against the null coefficients; equality for linear models at symbolic optima."),
 "G23": ("", "Null likelihood equals the likelihood at the maximum-likelihood intercept and zero slopes; nested fits compared with a hand-built intercept-only model."),
 "G24": ("", "AIC, BIC, degrees of freedom and R-squared definitions, also under regularisation."),
 "G25": ("", "Prediction equals the inverse link of the linear predictor for training and new rows."),
 "G07": ("", "All statistics of fits with and without internal standardisation compared at the same symbolic coefficients; penalised fits compared with pre-scaled features; constant features."),
 "G08": ("", "All model-level statistics of frequency-weighted data compared with the same rows repeated (frequencies 0..3 enumerated, everything else symbolic)."),
 "G09": ("", "Unit weights against none, symbolically scaled weights against the documented powers, zero weight against the deleted row."),
 "G10": ("", "Zero offsets against none; symbolic shifts of offsets by design combinations against shifted coefficients, also through one fitting step."),
 "G26": ("", "All statistics under row and column permutations and four memory layouts."),
 "G27": ("", "Every statistic on a fresh fit against its value after other queries in several orders; mostly closed because the symbolic terms are identical."),
 "G28": ("bounded model checking of the compiled conversion code with Kani (CBMC, bit-precise floats and integers)", "=Every bit pattern of every accepted response type; the builder end to end for one (thorough: two) responses. Error text formatting is stubbed."),
 "G29": ("", "Builder executed for every combination of array lengths up to the bound and every short sequence of option calls, values symbolic; accepted data compared entry by entry."),
 "G30": ("", "Every factorisation of every statistic and of short fits fails in turn (fault schedule); collinear designs are decided singular symbolically."),
 "G31": ("bounded model checking of the compiled scalar code with Kani (CBMC, bit-precise IEEE floats); exp/ln/expm1/ln1p by contract", "=Every double and single precision value. The library's mathematical functions are replaced by contracts; counterexamples are confirmed natively with the real ones."),
 "G32": ("symbolic execution of the real code (statistics feature) in a copy of the current source derived on every run, in which f64 is a symbolic stand-in; obligations decided by z3 (QF_NRA with uninterpreted distribution functions)", "Omnibus, Wald and exact p-values against the definitions; distribution functions are uninterpreted. Exact p-values of linear models for every starting point; other families one scoring step."),
 "G33": ("symbolic execution of the real code (statistics feature) in a copy of the current source derived on every run, in which f64 is a symbolic stand-in; obligations decided by z3 (QF_NRA with uninterpreted distribution functions)", "Distribution parameters, argument and quantile of every observation; distribution functions are uninterpreted."),
 "G04": ("", "Fitting loop executed with every linear-solver output an arbitrary symbolic vector (havoc), all accept/reject branches explored within the iteration budget; likelihood and history compared with the penalised likelihood at the reported coefficients."),
 "G05": ("", "Same exploration for unpenalised and ridge fits: every pair of consecutive history entries increases strictly on every feasible path."),
 "G06": ("", "Same exploration: iteration count, history length, error on exhausted budget, and history of failed fits in user coordinates on every feasible path."),
}
NOT_APPLICABLE = {}
