#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the table below.  A
property is claimed when checks/cNN.py exists; otherwise it must carry a reason
in NOT_APPLICABLE."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, tests, files, mech, technique, note, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier={"over": over, "text": quant}, why_tests_cant=tests,
        anchors={"files": files,
                 "mechanism": [{"name": a, "where": b} for a, b in mech],
                 "observe_at": list(observe), "hook_needed": None},
        _technique=technique, _note=note))


G, S, D = "src/glum/_glm.py", "src/glum/_solvers.py", "src/glum/_distribution.py"
CV, L, U = "src/glum/_glm_cv.py", "src/glum/_link.py", "src/glum/_utils.py"
FN, CD, LA = "src/glum/_functions.pyx", "src/glum/_cd_fast.pyx", "src/glum/_linalg.py"
RG, FO = "src/glum/_glm.py", "src/glum/_formula.py"

prop("C01", "A fit that does not warn minimises the documented penalised objective",
     "When fitting finishes without a convergence warning, the returned intercept and "
     "coefficients satisfy the first-order optimality conditions of the documented objective "
     "(half the weighted mean unit deviance plus alpha * l1_ratio * ||P1*w||_1 plus half "
     "alpha * (1-l1_ratio) * w'P2w, intercept unpenalised) to within the requested gradient "
     "tolerance. This holds for every family, link, penalty specification, weighting, offset, "
     "solver, storage format and intercept/scaling setting.",
     ["inputs", "configurations"],
     "all data sets, families, links, penalties (scalar/vector/matrix P1 and P2), weights, "
     "offsets, solvers, tolerances, storage formats, fit_intercept and scale_predictors",
     "Golden-master and hand-picked tests pin some coefficients at loose tolerances on a few "
     "data sets; they never evaluate optimality on arbitrary combinations.",
     [S, G, CD, U, LA], [("IRLS / coordinate descent / line search", S),
                         ("objective set-up and solver choice", G),
                         ("minimum-norm subgradient", CD), ("(un)standardisation", U)],
     "runtime monitor: independent KKT (min-norm subgradient) oracle on real fits",
     "Held on thousands of random fits per run over all family/link/penalty/solver/storage "
     "combinations; trusts the float64 reference objective in vlib/ref.py; says nothing about "
     "inputs the generator does not draw.",
     ["coef_, intercept_ after fit", "warnings raised by fit"])

prop("C02", "Storage format, dtype and solver choice do not change the fitted model",
     "Fitting the same data given as a dense array, a sparse matrix of any layout, a list, "
     "a data frame or a pre-built design matrix, in single or double precision, and with any "
     "solver that supports the problem, yields the same coefficients and predictions up to the "
     "convergence tolerance and the input precision. The default solver choice always resolves to "
     "one that supports the requested penalty, bounds and constraints.",
     ["inputs", "configurations"],
     "all data sets in every accepted container and memory layout, all supporting solvers",
     "Tests compare a handful of formats on one or two fixed data sets.",
     [G, S, LA, FN, CD], [("input conversion", G), ("solver selection", G),
                          ("sandwich / linear predictor on tabmat", LA)],
     "runtime monitor: differential oracle across formats and solvers",
     "Agreement within a bound derived from the gradient tolerance and the smallest Hessian "
     "eigenvalue, on random strictly convex problems.",
     ["coef_, intercept_, predict"])

prop("C03", "Sample weights mean replication and only their ratios matter to the fit",
     "Giving a row integer weight k fits the same model as repeating it k times, weight zero is "
     "the same as dropping the row, and multiplying all weights by a positive constant leaves "
     "coefficients and predictions unchanged. Reordering the rows (together with target, "
     "weights and offset) changes nothing either; the same laws hold for the weighted deviance, "
     "dispersion and score.",
     ["inputs", "configurations"],
     "all data sets, weights, families, links and penalties",
     "Tests use a few fixed weight vectors.",
     [G, D, FN, U], [("weight normalisation", G), ("weighted kernels", FN),
                     ("weighted standardisation", U)],
     "runtime monitor: metamorphic oracle (replicate / drop / rescale / permute rows)",
     "Pairs of real fits compared within the conditioning-derived bound.",
     ["coef_, intercept_, score, deviance, dispersion"])

prop("C04", "An offset enters the linear predictor with coefficient one",
     "Fitting with an offset equals fitting with the offset added to the linear predictor as a "
     "term with fixed unit coefficient: a constant offset only shifts the intercept, adding "
     "X*b0 to the offset shifts the coefficients by -b0 when unpenalised, and for log-link "
     "Poisson/Tweedie models a log-exposure offset equals the reweighted exposure-ratio fit. "
     "Predicted means with an offset equal the inverse link of linear predictor plus offset, "
     "in fit, predict, score and cross-validation alike.",
     ["inputs", "configurations"],
     "all data sets, offsets, families and links, solvers, with and without intercept",
     "Tests check a constant offset and one Tweedie equivalence on a single data set.",
     [G, S, FN, D, "src/glum_benchmarks/util.py"],
     [("offset validation and threading", G), ("eta/mu update", FN), ("intercept guess", D)],
     "runtime monitor: metamorphic oracle on offset identities",
     "Pairs of real fits compared within the conditioning-derived bound.",
     ["coef_, intercept_, predict, score"])

prop("C05", "Estimates are equivariant to column order, scale and shift",
     "Permuting columns (with their penalties and bounds) permutes the coefficients; "
     "multiplying a column by c with its penalty rescaled accordingly divides its coefficient by "
     "c; shifting a column with an unpenalised intercept only moves the intercept. With "
     "scale_predictors the penalty acts on unit-standard-deviation columns, so rescaling any "
     "column leaves predictions unchanged and equals fitting hand-standardised data; constant "
     "columns never produce non-finite coefficients.",
     ["inputs", "configurations"],
     "all designs, column permutations, scales, shifts, penalties",
     "Tests check one scaling of one data set.",
     [U, G, LA], [("standardize / unstandardize", U), ("penalty rescaling", U)],
     "runtime monitor: metamorphic oracle on column transformations",
     "Pairs of real fits compared within the conditioning-derived bound.",
     ["coef_, intercept_, predict"])

prop("C06", "Bounds and linear constraints hold and the constrained optimum is reached",
     "Every returned coefficient vector respects the given lower and upper bounds, the "
     "inequality constraints A w <= b, and the requested monotonicity of categorical or "
     "ordered-term coefficients. Subject to them the result is optimal: no feasible change of "
     "the coefficients lowers the documented objective beyond tolerance, and constraints that "
     "are not binding leave the unconstrained solution unchanged.",
     ["inputs", "configurations"],
     "all data sets, bounds (incl. infinite, equal, one-sided), inequality systems, monotone terms",
     "Tests check two or three hand-made constraint sets.",
     [G, CD, S, U], [("bounded coordinate descent", CD), ("monotonic IRLS", S),
                     ("trust-constr constraints", S), ("monotonic constraint expansion", G)],
     "runtime monitor: feasibility + bound-aware KKT oracle / independent QP-style descent",
     "Feasibility is exact for bounds and to solver tolerance for inequalities; optimality by "
     "bound-aware subgradient or by comparison with a reference constrained optimiser.",
     ["coef_, coef_path_"])

prop("C07", "Family kernels equal their mathematical definitions",
     "For every family the variance, unit variance and its derivative, unit and total deviance, "
     "deviance derivative, row-wise gradient and Hessian, log-likelihood and dispersion equal "
     "their defining formulas on the whole documented domain, with specialised fast paths, "
     "generic fallbacks, single and double precision, strided input and any step factor agreeing. "
     "Deviance is non-negative and zero exactly at a perfect fit.",
     ["inputs", "configurations"],
     "all y and mu in the domain, parameters, weights, links, dtypes, memory layouts",
     "Tests compare a few points against scipy or finite differences at loose tolerance.",
     [D, FN], [("family classes", D), ("native kernels", FN)],
     "runtime monitor: reference-model oracle on every kernel call",
     "Compared with independent float64 formulas at random and extreme points.",
     ["family methods"])

prop("C08", "Links are inverse pairs with exact derivatives; names mean what they say",
     "Every link's inverse undoes it on the mean's domain, stays inside that domain for every linear predictor in its range, and its "
     "first and second derivatives are the derivatives of those maps. Every accepted family or "
     "link spelling (name, parameterised name, instance, or automatic default) yields exactly "
     "the documented family and canonical/default link, and unknown spellings are refused.",
     ["inputs", "configurations"],
     "all linear predictors and means incl. extreme values, all spellings",
     "Tests check a few points per link.",
     [L, D, G], [("link classes", L), ("family/link lookup", G)],
     "runtime monitor: reference-model oracle on link calls and name resolution",
     "Compared with independent formulas on random and extreme arguments.",
     ["link methods, family_instance, link_instance"])

prop("C09", "Predictions are the inverse link of the linear predictor, for every selector",
     "Predicted means equal the inverse link of X w + intercept + offset (times weights if "
     "given), row by row and independent of the other rows, of the input container, and of "
     "being predicted in batches. Selecting a penalty by value or by index, singly or as a list, "
     "uses exactly that point of the fitted path, and an unavailable selection is refused.",
     ["inputs", "configurations"],
     "all fitted models, prediction inputs, containers, alpha selectors",
     "Tests predict on the training data of a few models.",
     [G, LA], [("linear_predictor / predict", G), ("alpha selection", G)],
     "runtime monitor: reference-model oracle on predict and linear_predictor",
     "Exact up to rounding against numpy on random models and inputs.",
     ["predict, linear_predictor"])

prop("C10", "Every point of a regularisation path is the optimum for its own penalty",
     "Searching over penalties visits exactly the requested alphas (in the given order, or decreasing in cross-validation; or the documented "
     "geometric grid: n_alphas values down to min_alpha_ratio times the smallest alpha for which the "
     "L1 penalty zeroes every coefficient at the intercept-only model), and each "
     "path entry is the optimum for that alpha, equal to a separate fit at it. The reported "
     "coefficients and intercept correspond to the documented selection from the path.",
     ["inputs", "configurations"],
     "all data sets, penalties, alpha grids and solvers",
     "Tests check grid shape and one path on one data set.",
     [G, CV, S], [("path solver", G), ("alpha grid", G), ("warm start along the path", G)],
     "runtime monitor: KKT oracle on every path point",
     "Each path point judged by the independent subgradient; the largest alpha by its definition.",
     ["coef_path_, intercept_path_, _alphas"])

prop("C11", "Cross-validation scores honest held-out fits and refits the best penalty",
     "Each fold's path is fitted on the training rows only and its held-out deviances equal the "
     "deviance of those fits on the held-out rows; the selected alpha and l1_ratio minimise the "
     "mean held-out deviance. The final model is the optimum on all data at the selected "
     "penalty, and results do not depend on the number of parallel jobs.",
     ["inputs", "configurations", "schedules"],
     "all data sets, folds, grids, families, weights, offsets, n_jobs",
     "Tests check the argmin on one data set.",
     [CV, G], [("per-fold path fits", CV), ("selection and refit", CV)],
     "runtime monitor: recomputation oracle over recorded fold fits",
     "Held-out deviances recomputed from the recorded coefficients; optimality of folds and "
     "refit by KKT; equality across n_jobs.",
     ["deviance_path_, coef_path_, alpha_, l1_ratio_, coef_"])

prop("C12", "Covariance and standard errors equal their estimators' formulas",
     "The covariance matrix equals the documented classical, robust sandwich (HC1) or "
     "cluster-robust estimator evaluated at the fitted coefficients, for any cluster labels, "
     "weights, offset, storage format, and for expected or observed information; it is "
     "symmetric positive semidefinite and standard errors are the roots of its diagonal. It does "
     "not depend on row order, on which labels name the clusters, or on whether it is computed "
     "at fit time or afterwards; estimating it from a regularised model warns.",
     ["inputs", "configurations", "histories"],
     "all fitted models, weights, clusters (any labels), robust/expected settings",
     "Tests compare with statsmodels on one or two data sets with clusters 0..G-1.",
     [G, D], [("covariance_matrix", G), ("group sums", G), ("information matrices", D)],
     "runtime monitor: reference-formula oracle on covariance calls",
     "Independent numpy evaluation of each estimator on random fits.",
     ["covariance_matrix, std_errors"])

prop("C13", "Wald tests and the coefficient table report the textbook statistics",
     "For a hypothesis R w = r, however it is specified (matrix, feature names, term names or formula), "
     "the Wald statistic is (Rw-r)'(RVR')^-1(Rw-r) with the matching chi-squared p-value and "
     "degrees of freedom, and r defaults to zero. The coefficient table's standard errors, "
     "t-values, p-values and confidence intervals are those implied by the same covariance, with "
     "the intercept first.",
     ["inputs", "configurations"],
     "all fitted models and hypotheses in each spelling",
     "Tests check a few hypotheses on one model.",
     [G], [("wald_test variants", G), ("coef_table", G)],
     "runtime monitor: reference-formula oracle on Wald tests and coefficient table",
     "Independent numpy/scipy evaluation on random fits and hypotheses.",
     ["wald_test, coef_table"])

prop("C14", "Score and information criteria equal their definitions",
     "The score is the weighted fraction of deviance explained relative to the best constant "
     "prediction (the weighted mean of y; an offset enters the model's prediction only): one at a "
     "perfect fit, zero for the null model. For models fitted without an offset AIC, AICc and BIC "
     "equal -2 log-likelihood plus their penalties on the number of non-zero parameters, always "
     "for the most recent fit, and asking for one warns exactly when the model is under ridge "
     "regularisation.",
     ["inputs", "configurations", "histories"],
     "all fitted models, evaluation data, weights, refit histories",
     "Tests check one data set per criterion and never refit.",
     [G, D], [("score", G), ("information criteria", G), ("log-likelihood", D)],
     "runtime monitor: reference-formula oracle on score and criteria, over refit histories",
     "Independent evaluation; null model by a scalar optimum.",
     ["score, aic, aicc, bic"])

prop("C15", "No call ever changes the caller's data or constructor parameters",
     "Fitting, predicting, scoring and inference leave the caller's X, y, weights, offset, "
     "penalties, bounds, constraints, start values and cluster labels bit-for-bit unchanged, "
     "whatever their container, dtype or memory layout, and even when they are read-only or the call fails. "
     "The estimator's constructor parameters are never modified either.",
     ["inputs", "configurations"],
     "all methods, argument containers, dtypes, layouts, writability",
     "Tests check one or two arguments in one layout.",
     [G, CV, U, S], [("copy-on-standardise", G), ("penalty scaling", U)],
     "runtime monitor: before/after digest of every argument around every public call",
     "Byte-level digests incl. read-only buffers on random calls.",
     ["all public methods"])

prop("C16", "A fitted estimator depends only on its parameters and last training data",
     "Refitting an estimator after any history of fits, parameter changes, predictions and inference "
     "calls gives the same results and the same public state as a fresh estimator with the same "
     "parameters (warm starts aside), and repeating a fit reproduces it bit for bit. Cloning "
     "and parameter round-trips preserve every constructor argument, and pickling or copying a "
     "fitted model preserves predictions and inference.",
     ["histories", "configurations"],
     "all operation histories on one estimator",
     "Tests refit once at most and compare coefficients only.",
     [G, CV, RG], [("fit state reset", G), ("get_params/set_params", G)],
     "runtime monitor: history oracle, used estimator vs fresh twin",
     "Random multi-step histories; every observable compared with a fresh twin.",
     ["all public attributes and methods"])

prop("C17", "Categorical columns behave exactly like their documented dummy encoding",
     "A categorical column gives the same model as the explicit dummy columns in category order "
     "(first dropped on request), with names, per-level or per-column penalties, missing-value "
     "policy (fail, own level, all-zero) as documented. Prediction aligns categories by label, not "
     "by code, whatever the order or subset of categories in the new data, and refuses unseen "
     "labels; pandas and polars agree.",
     ["inputs", "configurations"],
     "all category sets, orders, missing patterns, penalties, prediction frames",
     "Tests use a couple of frames.",
     [G, U], [("category alignment", U), ("penalty expansion", U), ("missing handling", U)],
     "runtime monitor: differential oracle against hand-built dummy encoding",
     "Random frames, both data frame libraries.",
     ["coef_, feature_names_, predict"])

prop("C18", "Formula models equal the explicitly built design",
     "Fitting with a formula gives the same model as fitting the design matrix and target the "
     "formula denotes (numeric terms, transformations, interactions, categorical terms, "
     "intercept presence and one- or two-sided form), and prediction on new data re-evaluates "
     "the same encoding learnt at training time. Context variables resolve only as requested.",
     ["inputs", "programs", "configurations"],
     "all formulas in the supported grammar and all frames",
     "Tests use a handful of formulas on one frame.",
     [G, FO], [("formula parsing", FO), ("model-spec reuse on predict", G)],
     "runtime monitor: differential oracle against hand-built designs",
     "Random formulas from a grammar, evaluated independently with numpy.",
     ["coef_, intercept_, predict, feature_names_, term_names_"])

prop("C19", "Invalid input is refused before it can produce a wrong model",
     "Targets outside the family's range, non-finite values, negative or all-zero weights, "
     "mismatched lengths, invalid penalties (negative, asymmetric or indefinite where not allowed, wrong "
     "size), contradictory bounds or constraints, unsupported solver combinations and unknown options raise "
     "an informative error rather than a silent result. Prediction with the wrong number "
     "of features, or before fitting, is refused too.",
     ["inputs", "configurations"],
     "all single-fault corruptions of valid calls",
     "Tests check a list of fixed bad values.",
     [G, CV, U], [("parameter validation", G), ("target range check", D)],
     "runtime monitor: fault-injection workload, every corrupted call must raise",
     "One random corruption of a random valid call; a silent return is a violation; the "
     "uncorrupted twin must succeed.",
     ["fit, predict"])

prop("C20", "Starting values and warm starts do not change the solution",
     "For convex problems, any admissible starting coefficients (including infeasible ones that are clipped to "
     "bounds) and warm starting from any earlier fit lead to the same solution as a cold start, within "
     "tolerance, and starting at the solution does not move away from it. Start values are "
     "interpreted on the original scale with the intercept first.",
     ["inputs", "histories"],
     "all start values, warm-start histories, scaling settings",
     "Tests check one warm start.",
     [G, U], [("start coefficients", G), ("standardize_warm_start", U)],
     "runtime monitor: metamorphic oracle on start values",
     "Pairs of real fits compared within the conditioning-derived bound; starting at the "
     "optimum must need no iteration.",
     ["coef_, n_iter_"])

prop("C21", "Native kernels never touch memory they do not own or hit undefined behaviour",
     "For every array shape (including empty, single-row and many-column), dtype, memory layout and thread count the "
     "library itself passes, the compiled kernels read and write only inside their arguments, "
     "execute no undefined operation, and no result depends on uninitialised memory. Calling a kernel directly with "
     "an array of the wrong dtype, dimension or layout, or a read-only output, raises instead of corrupting memory.",
     ["inputs", "configurations"],
     "all kernel calls made by real fits and by direct calls with extreme shapes",
     "Tests run production builds with bounds checks off, where an overflow usually goes unseen.",
     [FN, CD], [("boundscheck(False) kernels", FN), ("coordinate descent kernels", CD)],
     "compiler sanitizers (ASan+UBSan), a bounds-checked rebuild, and twin runs with differently "
     "pre-filled uninitialised memory",
     "No report on the executed calls; red-zone tools can miss non-adjacent accesses.",
     ["sanitizer reports"])

prop("C22", "Parallel kernels are race-free and independent of the thread count",
     "Under any OpenMP thread count, chunking and interleaving the parallel kernels have no "
     "data race, and their results equal the single-threaded ones (bit for bit where they write "
     "per-row output, to rounding where they reduce).",
     ["schedules", "inputs", "configurations"],
     "all thread counts, member execution orders and inputs",
     "Tests run with whatever thread count the machine has and compare nothing across counts.",
     [FN, CD], [("prange kernels", FN)],
     "ThreadSanitizer with an instrumented OpenMP runtime shim + schedule-permuting shim",
     "No race report in repeated runs; equality across forward/reverse/parallel schedules.",
     ["sanitizer reports, kernel outputs"])

prop("C23", "Separate estimators can be used from many threads at once",
     "Fitting, predicting and inspecting different estimators concurrently, even on shared "
     "input arrays, and predicting concurrently with one fitted estimator, gives exactly the "
     "results of doing the same calls one after another.",
     ["schedules", "histories"],
     "all thread interleavings of independent calls",
     "No existing test uses threads.",
     [G, CV, FN], [("no shared mutable module state", G), ("GIL-free kernels", FN)],
     "runtime monitor: concurrent histories checked against the sequential run",
     "Bitwise comparison of every call's result with its sequential twin under a tiny switch "
     "interval and GIL yields injected at random lines of glum.",
     ["coef_, predict"])

prop("C24", "Convergence is reported honestly and well-posed fits do converge",
     "The reported iteration count never exceeds max_iter, the recorded objective never increases "
     "between iterations, and an iterative fit stopped before reaching its tolerance always raises a "
     "convergence warning while one that reached it does not. Well-posed convex problems "
     "(observed and expected information of similar size) converge within the default budget, and the diagnostics record describes the actual "
     "iterates.",
     ["inputs", "configurations"],
     "all data sets, solvers, iteration budgets and tolerances",
     "Tests check one non-converging example.",
     [S, G], [("convergence check", S), ("line search", S), ("diagnostics", G)],
     "runtime monitor: online checker of the recorded iteration trace",
     "Trace-level invariants on random fits with random budgets.",
     ["n_iter_, diagnostics_, warnings"])

BU, BS = "glum_benchmarks/util.py", "glum_benchmarks/data/simulated_glm.py"
prop("C25", "The benchmark suite measures what it reports",
     "In glum_benchmarks, for every distribution, storage, penalty, weights and offset, the "
     "objective reported for coefficients is (up to a constant of the data) the documented "
     "penalised objective at the penalty that was fitted. Converting exposure or offsets to "
     "weights leaves every Tweedie log-link model unchanged, loaded designs equal their columns "
     "in every storage, simulated data are reproducible from their seed, parameters survive the "
     "round trip through result file names, the reported run is the measured run closest to the "
     "median, the benchmark grid is the union of its entries' products, and a regression is "
     "flagged exactly when both of its thresholds are exceeded.",
     ["inputs", "configurations"],
     "all data, distributions, storages, penalties, run-time sequences, parameter grids",
     "Tests run the suite on tiny data and check that it produces output.",
     [BU, BS], [("objective, storage, result names, run selection", BU),
                ("exposure to weights", BU), ("simulated data", BS)],
     "runtime monitor: recomputation and metamorphic oracles on the suite's public helpers",
     "Random calls judged against definitions, conversions certified through real fits, run "
     "selection under an injected clock.",
     ["get_obj_val, load_data, exposure_and_offset_to_weights, runtime, result records"])

NOT_APPLICABLE = {}


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
            checks.append({
                "property": i,
                "quick_cmd": f"python3 check.py {i} quick",
                "thorough_cmd": f"python3 check.py {i} thorough",
                "evidence_file": f"evidence/{i}.json",
                "technique": p["_technique"], "level": "exploration",
                "level_note": p["_note"]})
        else:
            na.append({"property": i, "reason": NOT_APPLICABLE.get(
                i, "check not built yet (work in progress)")})
    man = {"version": 1, "setup_cmd": "python3 prepare.py", "checks": checks,
           "not_applicable": na,
           "notes": "No hooks in /repo: every monitor observes public behaviour, the recorded "
                    "diagnostics, or sanitizer reports of kernels rebuilt from /repo."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(checks), "claimed;", [x["property"] for x in na], "not claimed")


main()
