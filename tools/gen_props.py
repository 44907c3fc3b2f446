#!/usr/bin/env python3
"""Source of truth for properties.jsonl (run: python3 tools/gen_props.py)."""
import json, os
A = "src/frds/algorithms/"; M = "src/frds/measures/"; MM = M + "modified_merton/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({"observe_at": observe} if observe else {}))))

p("P01", "Compiled kernels and Python fallbacks compute the same values",
  "Every numerical kernel that exists twice (EWMA, variance-bound clamp, GARCH variance, GJR-GARCH variance, DCC conditional correlation, LRMES path simulation) returns, for the same real-valued arguments, mathematically the same result from the compiled extension as from the pure-Python fallback. This covers the argument order at the call into the extension and the reading of every array element there.",
  ["inputs", "configurations"], "all series, lengths, parameter vectors, bounds and simulation innovations; extension present or absent",
  "The tests run with the extension only; the fallback is never executed, and no test compares the two.",
  [A+"_garch.py", A+"_mgarch.py", A+"utils/garch.hpp", A+"utils/mgarch.hpp", A+"utils/utils_module.cpp", M+"_long_run_mes.py", M+"lrmes.hpp", M+"measures_module.cpp"],
  [("USE_CPP_EXTENSION dispatch in each kernel", A+"_garch.py"), ("kernel loops and argument parsing", A+"utils/garch.hpp")])

p("P02", "Conditional variances follow the documented recursions and bounds",
  "Conditional variances of the GARCH(1,1) and GJR-GARCH(1,1) models are exactly the documented recursion started from the backcast value, each later value clamped to its time-specific bounds; the backcast, EWMA, variance-bound and variance-forecast formulas are the documented ones. The leverage term applies exactly when the lagged residual is negative, at every time index.",
  ["inputs"], "all residual series, lengths, parameters, bounds",
  "Tests check a few fitted parameters to a loose tolerance on one dataset; an index, sign or bound error in a rarely active branch leaves those numbers unchanged.",
  [A+"_garch.py", A+"utils/garch.hpp", A+"utils/utils_module.cpp"],
  [("variance recursion", A+"_garch.py"), ("native variance recursion", A+"utils/garch.hpp")])

p("P03", "Likelihood objectives equal the documented Gaussian log-likelihoods",
  "The objective minimised for each volatility model is exactly the negative of the documented log-likelihood of its parameter vector: univariate Normal, bivariate Normal with constant correlation, and the two-step dynamic-correlation likelihood with the documented correlation dynamics. Parameters are read from the vector in the documented order, with or without a mean parameter.",
  ["inputs"], "all parameter vectors, series and lengths",
  "A fitted optimum on one dataset cannot distinguish objectives that differ away from that optimum or on other data.",
  [A+"_garch.py", A+"_mgarch.py", A+"utils/mgarch.hpp"],
  [("loglikelihood / loglikelihood_model", A+"_garch.py"), ("CCC and DCC likelihoods", A+"_mgarch.py")])

p("P04", "Estimation searches exactly the documented feasible set",
  "Each volatility model is estimated over exactly its admissible parameter set: positive omega, non-negative ARCH, leverage and GARCH coefficients at most one, persistence (with half the leverage coefficient) below one, correlation within (-1,1) and DCC coefficients non-negative with sum at most one; the bound and constraint attached to each position are those of the parameter at that position, for every model variant including the zero-mean one.",
  ["inputs", "configurations"], "all data, zero-mean or constant-mean, each model class",
  "Tests use data whose optimum is interior, so a missing or misplaced bound or constraint never binds.",
  [A+"_garch.py", A+"_mgarch.py"], [("bounds and constraints passed to the optimiser", A+"_garch.py")])

p("P05", "Published estimates are consistent and appear only on success",
  "A volatility model publishes estimates, and reports success, only if the optimiser converged; otherwise the parameters estimated by that optimisation stay unset. Published parameters are the optimiser's solution in field order, with the log-likelihood equal to minus the final objective, and the model's stored residuals and conditional variances are those implied by the published parameters.",
  ["inputs", "histories", "fault_sequences"], "all data, converged or failed optimisation",
  "No test makes the optimiser fail, and none recomputes residuals or variances from the published parameters.",
  [A+"_garch.py", A+"_mgarch.py"], [("fit", A+"_garch.py"), ("fit", A+"_mgarch.py")])

p("P06", "Refitting an estimated model returns the same estimates without work",
  "Once a volatility model has been estimated successfully, fitting it again returns its published estimates without running the optimiser again and without changing the model; a multivariate model estimates only those of its univariate models that are not yet estimated, and evaluating its likelihood or correlations never re-estimates an estimated one.",
  ["histories"], "any sequence of fit / likelihood / correlation calls, on shared or private univariate models",
  "Each test fits once; call histories are never exercised.",
  [A+"_garch.py", A+"_mgarch.py"], [("already-estimated guard in fit", A+"_garch.py"), ("conditional_correlations calls fit", A+"_mgarch.py")])

p("P07", "Starting values are the highest-likelihood grid candidate",
  "The starting values chosen for a volatility model are the candidate on its documented grid with the highest log-likelihood (the first such on ties), each candidate having the sample variance as its unconditional variance.",
  ["inputs"], "all residual series and lengths",
  "The optimiser usually converges from any start, so tests on fitted values cannot see which candidate was picked.",
  [A+"_garch.py", A+"_mgarch.py"], [("starting_values", A+"_garch.py"), ("starting_values", A+"_mgarch.py")])

p("P08", "Inputs supplied by the caller are never modified",
  "No public function, constructor or method changes the contents of an array, list or frame the caller passed in, now or through a retained alias at a later call.",
  ["inputs", "histories"], "all public entry points, all call sequences, all inputs (including arrays that are not copied on conversion)",
  "Tests pass throw-away arrays and never look at them again.",
  [A+"_garch.py", A+"_mgarch.py", A+"isolation_forest/__init__.py", M+"_long_run_mes.py", M+"spread.py", MM+"mod_merton_computation.py", MM+"mod_single_cohort_solution.py"],
  [("array conversion at the API boundary", A+"_garch.py"), ("in-place array arithmetic", M+"_long_run_mes.py")])

p("P09", "Randomised results depend only on the arguments and the seed",
  "Every randomised computation draws only from a generator created inside that computation from the caller's seed (or a fixed documented seed); no result depends on, or disturbs, global random state, the clock, process identity or iteration order of unordered containers.",
  ["histories", "configurations"], "all seeds, all interleavings with other users of random numbers",
  "A test with one seed in one process sees a fixed number whether or not hidden state is involved.",
  [M+"_distress_insurance_premium.py", M+"_long_run_mes.py", MM+"mod_merton_computation.py", MM+"mod_merton_create_lookup.py", A+"isolation_forest/IsolationForest.cpp"],
  [("RandomState(random_seed)", M+"_distress_insurance_premium.py"), ("default_rng(random_seed)", M+"_long_run_mes.py"), ("per-tree engine", A+"isolation_forest/IsolationForest.cpp")])

p("P10", "No lasting change to process-wide state, no stray file access",
  "Calling the library leaves process-wide settings (warning filters, floating-point error modes, pandas/numpy options, working directory, environment) as they were, even when a call fails; it writes files only in the figure-producing simulation, only inside the directory the caller chose, and performs no network access.",
  ["histories", "fault_sequences"], "all call sequences, including calls that raise",
  "Tests neither compare process state before and after nor provoke failures inside the temporary settings.",
  [A+"_garch.py", A+"_mgarch.py", M+"_probability_of_informed_trading.py", MM+"mod_merton_simulation.py", "src/frds/datasets/_stocks.py"],
  [("warnings.catch_warnings", A+"_garch.py"), ("savefig", MM+"mod_merton_simulation.py")])

p("P11", "No argument can make a compiled extension touch foreign memory",
  "Whatever arguments Python code passes to the compiled extensions, they read and write only inside the arrays involved: element type, dimensionality, memory layout and mutual lengths are established before elements are touched, and arguments that do not qualify are converted or rejected with an exception.",
  ["inputs"], "every argument tuple: wrong dtype, strided views, short, empty or mismatched arrays, wrong parameter counts, non-arrays",
  "Out-of-bounds reads usually return garbage silently; tests pass only well-formed contiguous double arrays.",
  [A+"utils/utils_module.cpp", A+"utils/mgarch.hpp", M+"measures_module.cpp", M+"lrmes.hpp", A+"isolation_forest/iforest_module.cpp", A+"isolation_forest/IsolationForest.cpp"],
  [("argument parsing and array access in wrappers", A+"utils/utils_module.cpp"), ("simulation wrapper", M+"measures_module.cpp")])

p("P12", "Compiled entry points follow the C-API error and reference rules",
  "Every compiled entry point either returns a result, or returns failure with an exception set; it checks every call that can fail before using the outcome, releases every reference it owns exactly once on every path, parses as many values as it has destinations with matching types, and makes no interpreter call while the interpreter lock is released.",
  ["inputs", "fault_sequences", "schedules"], "all paths through the wrappers, including conversion and allocation failures",
  "Leaks and unchecked failures are invisible to value-based tests and need allocation or conversion faults.",
  [A+"utils/utils_module.cpp", M+"measures_module.cpp", A+"isolation_forest/iforest_module.cpp", A+"isolation_forest/IsolationForest.cpp"],
  [("wrapper functions", A+"utils/utils_module.cpp"), ("iforest_wrapper", A+"isolation_forest/iforest_module.cpp")])

p("P13", "Isolation forests do not depend on thread count or scheduling",
  "For given data, sizes and seed, the isolation forest grown and the scores returned are the same whatever the number of worker threads and however they are scheduled: each tree uses its own random stream determined by its index and the seed, every requested tree is grown exactly once, each observation is scored exactly once, and shared state is written only under the lock or in disjoint slots.",
  ["schedules", "configurations"], "all thread counts, all interleavings, all forest sizes and observation counts",
  "No test runs the isolation forest; one machine has one core count and a test sees few interleavings.",
  [A+"isolation_forest/IsolationForest.cpp", A+"isolation_forest/IsolationForest.hpp"],
  [("grow / calculateAnomalyScores work partition", A+"isolation_forest/IsolationForest.cpp"), ("mylock", A+"isolation_forest/IsolationForest.hpp")])

p("P14", "Each isolation tree is grown on a fresh bounded subsample",
  "Every isolation tree is grown on a sample, without replacement, of at most the requested tree size drawn from all observations, independent of the samples of other trees; each split sends every observation of a node to exactly one child, and growth stops at one observation or the height limit ceil(log2(tree size)).",
  ["inputs"], "all data, tree sizes, forest sizes, trees",
  "No test covers the isolation forest; an accumulated sample only shifts scores statistically.",
  [A+"isolation_forest/IsolationForest.cpp"], [("sampling in grow; growTree", A+"isolation_forest/IsolationForest.cpp")])

p("P15", "Scoring routes an observation exactly as growing did",
  "For every split attribute, split value and observation - numbers, missing values and strings of any width - scoring an observation follows the same child that growing the tree would have sent it to, so an observation in a tree's sample reaches the leaf that was built for it.",
  ["inputs"], "all attribute values including NaN and full-width strings, all split values",
  "Needs missing values or unusual strings; no test covers the isolation forest.",
  [A+"isolation_forest/IsolationForest.cpp"], [("comparison in growTree", A+"isolation_forest/IsolationForest.cpp"), ("comparison in pathLength", A+"isolation_forest/IsolationForest.cpp")])

p("P16", "Anomaly scores follow the published formula and keep row order",
  "The anomaly score of a row is 2 to the minus average path length over the normalising average path length c(tree size), with path length the depth plus c(leaf size) for leaves of more than one observation; scores come back one per row in the caller's row order and index, using all numeric and string columns except the excluded ones.",
  ["inputs"], "all frames, indexes, column mixes, sizes",
  "No test covers the isolation forest.",
  [A+"isolation_forest/IsolationForest.cpp", A+"isolation_forest/__init__.py", A+"isolation_forest/iforest_module.cpp"],
  [("anomalyScore, pathLength, averagePathLength", A+"isolation_forest/IsolationForest.cpp"), ("anomaly_scores", A+"isolation_forest/__init__.py")])

p("P17", "Spread and price-impact measures equal their documented formulas",
  "Quoted, effective and realized spreads and simple price impact equal their documented formulas, percentage and log versions, with or without trade direction, dollar-volume weighted (plain average when no dollar volume). Trade directions given in any array-like form are honoured, and with directions the effective spread is exactly the realized spread plus the price impact.",
  ["inputs"], "all price, midpoint, volume and direction arrays, both versions",
  "These functions have no tests at all.",
  [M+"spread.py", M+"price_impact.py"], [("spread formulas and weighting", M+"spread.py"), ("simple_price_impact", M+"price_impact.py")])

p("P18", "Order-book slope measures equal their documented formulas",
  "Ask and bid slopes, side slope differences and scaled depth difference equal their documented formulas at the documented book levels, averaged over quotes ignoring undefined ones, and bid and ask sides are treated symmetrically.",
  ["inputs"], "all books of enough levels",
  "These functions have no tests; documented examples are single numbers.",
  [M+"lob_slope.py"], [("DGGW slope functions", M+"lob_slope.py")])

p("P19", "Black-Scholes prices are exact and satisfy put-call parity",
  "Call and put prices equal the Black-Scholes formula with continuous yield for all admissible arguments, so that call minus put always equals the discounted forward difference S e^{-qT} - K e^{-rT}.",
  ["inputs"], "all spot, strike, rate, maturity, volatility and yield values",
  "The test checks one price pair with zero yield.",
  [M+"_option_price.py"], [("blsprice", M+"_option_price.py")])

p("P20", "Contingent claim analysis solves and prices the documented model",
  "The contingent-claim measure solves the documented pair of equity-value and equity-volatility equations from the observed pair as starting point, prices the implied put with the solution, and subtracts the documented CDS-implied put; its asset value and volatility are squares of the unknowns so they cannot be negative.",
  ["inputs"], "all equity, volatility, rate, barrier, maturity and CDS-spread values",
  "One numeric example is tested to a few digits.",
  [M+"_contingent_claim_analysis.py"], [("estimate", M+"_contingent_claim_analysis.py")])

p("P21", "Distress insurance premium is the documented loss integral, in range",
  "The distress insurance premium equals the documented simulation estimate - joint-default frequencies from correlated normals with the bank-specific thresholds, triangular losses given default, losses beyond the threshold share of total liabilities - for any number of banks, seeds and simulation sizes; every simulated loss falls in a histogram slot and zero probability of great losses gives a zero premium rather than an undefined value.",
  ["inputs"], "all default probabilities, correlations, numbers of banks, thresholds, seeds and sizes",
  "One example with one seed is tested; the extreme slot and the no-loss case are improbable with it.",
  [M+"_distress_insurance_premium.py"], [("estimate", M+"_distress_insurance_premium.py")])

p("P22", "Kyle's lambda and the bank Z-score equal their definitions",
  "Kyle's lambda is the least-squares slope, without intercept, of returns on signed dollar volume times one million, and the Z-score is the sum of return on assets and capital ratio over the population standard deviation of past returns on assets.",
  ["inputs"], "all inputs", "Neither function has a test.",
  [M+"_kyle_lambda.py", M+"_z_score.py"], [("kyle_lambda", M+"_kyle_lambda.py"), ("z_score", M+"_z_score.py")])

p("P23", "Marginal and systemic expected shortfall equal their definitions",
  "Marginal expected shortfall is the mean firm return over exactly the days on which the market return is strictly below its q-quantile. Systemic expected shortfall is the fitted combination of current MES and leverage with weights from the least-squares regression, with intercept, of training shortfalls on training MES and leverage, normalised by their sum.",
  ["inputs"], "all return series, q in [0,1], training samples and firm values",
  "One random sample each is tested.",
  [M+"_marginal_expected_shortfall.py", M+"_systemic_expected_shortfall.py"], [("estimate", M+"_marginal_expected_shortfall.py"), ("_bflv2012", M+"_systemic_expected_shortfall.py")])

p("P24", "Absorption ratio is the top-eigenvalue share of total variance",
  "The absorption ratio is the sum of the largest K eigenvalues of the asset-return covariance matrix over its trace, K being the requested fraction of the number of assets rounded half up; it is a real number for every matrix of two or more assets.",
  ["inputs"], "all return matrices (including rank-deficient ones) and fractions",
  "One random full-rank matrix with one fraction is tested.",
  [M+"_absorption_ratio.py"], [("estimate, eigvals", M+"_absorption_ratio.py")])

p("P25", "PIN likelihoods, PIN and initial-value grid equal the literature's",
  "Both PIN likelihood factorisations equal their documented forms (so they agree up to a constant that does not depend on the parameters), the PIN value is alpha mu over alpha mu plus both arrival rates, and the initial-value grid is the Yan-Zhang one with infeasible sell rates dropped.",
  ["inputs"], "all buy/sell counts and parameter values",
  "PIN has no tests.",
  [M+"_probability_of_informed_trading.py"], [("loglikelihood_EHO2010, loglikelihood_LK2011, init_params_grid_search", M+"_probability_of_informed_trading.py")])

p("P26", "PIN estimation publishes the best converged optimum only",
  "PIN estimation runs one bounded optimisation per grid start with probabilities in [0,1] and rates non-negative, and publishes the converged solution with the highest log-likelihood together with its PIN and method; each call starts afresh, so that with no converged start nothing is published and success is not reported.",
  ["inputs", "histories", "fault_sequences"], "all data, methods, repeated estimations, failing optimisations",
  "PIN has no tests; failing starts and repeated estimation need special data.",
  [M+"_probability_of_informed_trading.py"], [("estimate", M+"_probability_of_informed_trading.py")])

p("P27", "LRMES equals its documented simulation estimate",
  "The long-run MES is minus the average simulated firm return over the paths with a market decline beyond the threshold (zero if none): raw returns are turned into percentage log returns, paired standardised innovations are resampled with the seed, and paths start from the last estimated variances, residuals and correlation of firm and market, each in its own role.",
  ["inputs"], "all return series, horizons, sample sizes, thresholds and seeds",
  "The only test that reaches this code asserts nothing about its value.",
  [M+"_long_run_mes.py", M+"lrmes.hpp"], [("estimate, simulation", M+"_long_run_mes.py")])

p("P28", "SRISK equals its definition for one firm, many firms and in aggregate",
  "SRISK of a firm is W (k L + (1-k) LRMES - 1) with leverage L = (D+W)/W and the LRMES of that same firm with the caller's horizon, sample size, threshold and seed; aggregate SRISK is the sum of the positive parts over firms, also for a single firm.",
  ["inputs", "configurations"], "all numbers of firms, W, D, k and LRMES settings, aggregate or not",
  "The test asserts no value and uses one configuration.",
  [M+"_srisk.py"], [("estimate", M+"_srisk.py")])

p("P29", "Modified-Merton building blocks equal their reference formulas",
  "Loan payoff, promised-yield equation, standard Merton equations and the moving-average smoother compute exactly the formulas of the reference implementation, for scalars and arrays alike.",
  ["inputs"], "all admissible arguments and array shapes",
  "The subpackage has no tests.",
  [MM+"loan_payoff.py", MM+"find_face_value_indiv.py", MM+"merton_solution.py", MM+"fftsmooth.py"],
  [("loan_payoff", MM+"loan_payoff.py"), ("merton_solution", MM+"merton_solution.py"), ("fftsmooth", MM+"fftsmooth.py")])

p("P30", "Modified-Merton bank valuation keeps the balance sheet identity",
  "In both modified-Merton valuations, bank asset value equals debt value plus equity value in every scenario, debt payoff never exceeds the promised face value, default is flagged exactly when equity before payout is not positive, volatilities are central differences of log values, and every returned quantity covers exactly the caller's shock values.",
  ["inputs"], "all parameter vectors, shock grids, cohort and path counts",
  "The subpackage has no tests.",
  [MM+"mod_merton_computation.py", MM+"mod_single_cohort_computation.py"],
  [("mod_merton_computation", MM+"mod_merton_computation.py"), ("mod_single_cohort_computation", MM+"mod_single_cohort_computation.py")])

p("P31", "Modified-Merton lookup tables store each cell's own valuation",
  "Every cell of the modified-Merton lookup tables holds the valuation for exactly that cell's volatility, rate and loan amount, with the same simulated shocks for all cells, and each table holds the quantity it is named for; the two-equation solver error compares model and observed equity value and volatility.",
  ["inputs"], "all grids", "The subpackage has no tests.",
  [MM+"mod_merton_create_lookup.py", MM+"mod_single_merton_create_lookup.py", MM+"mod_single_cohort_solution.py"],
  [("create-lookup loops", MM+"mod_merton_create_lookup.py")])

p("P32", "Every import, exported name and internal call resolves",
  "Every module of the package can be imported with its declared dependencies: each intra-package import names something that exists, each exported name is defined, and each internal call passes arguments its callee accepts, native callees included.",
  ["programs", "configurations"], "all modules, all call sites, extension present or absent",
  "Modules and branches without tests are never imported or executed.",
  ["src/frds", "setup.py"], [("package __init__ modules", M+"__init__.py"), ("modified_merton imports", MM+"merton_solution.py")])

p("P33", "Mismatched input shapes are rejected, never silently broadcast",
  "A measure that relates several per-observation arrays (or per-firm values) raises an error when their shapes disagree, before computing anything, instead of broadcasting or truncating; options outside the documented values are rejected too.",
  ["inputs"], "all shape combinations for all array arguments",
  "Tests never pass mismatched arrays.",
  [M+"spread.py", M+"price_impact.py", M+"lob_slope.py", M+"_marginal_expected_shortfall.py", M+"_systemic_expected_shortfall.py", M+"_srisk.py", M+"_long_run_mes.py", M+"_probability_of_informed_trading.py"],
  [("shape assertions", M+"spread.py")])

p("P34", "Bundled dataset is found from anywhere, loaded once, and shipped",
  "The bundled stock-return data is located relative to the installed package whatever the working directory, is part of the distribution, is parsed with its dates as index, and repeated access returns the already loaded data.",
  ["configurations", "histories"], "all working directories and access sequences",
  "Tests run from one directory in a source checkout.",
  ["src/frds/datasets/_stocks.py", "MANIFEST.in", "setup.py"], [("stocks_us property", "src/frds/datasets/_stocks.py")])

p("P35", "Fitted parameters reach the global likelihood maximum",
  "The estimates returned for a successfully fitted volatility or PIN model attain the highest likelihood over the whole admissible parameter set.",
  ["inputs"], "all data", "Needs global optimisation of a non-convex function for all data.",
  [A+"_garch.py", M+"_probability_of_informed_trading.py"], [("minimize", A+"_garch.py")])

p("P36", "Simulation-based measures are close to the quantity they estimate",
  "For large enough simulation sizes, the simulated premium, long-run MES and modified-Merton values are within their Monte-Carlo error of the exact model quantities.",
  ["inputs"], "all inputs, seeds and sizes", "A statement about probability over random draws.",
  [M+"_distress_insurance_premium.py", M+"_long_run_mes.py", MM+"mod_merton_computation.py"], [("Monte-Carlo loops", M+"_long_run_mes.py")])

p("P37", "Floating-point rounding and overflow never spoil a result",
  "For admissible finite inputs, results are finite and agree with the exact real-number formula to a small relative error, including long series, large counts and near-singular correlation.",
  ["inputs"], "all admissible finite inputs", "Tests sample a few benign magnitudes.",
  [A+"_garch.py", M+"_probability_of_informed_trading.py", M+"spread.py"], [("floating-point evaluation", A+"_garch.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P), "properties")
