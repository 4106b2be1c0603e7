"""The properties, once; gen.py derives properties.jsonl and MANIFEST.json."""
S = "src/spey/"


def P(id, title, statement, over, qtext, why, files, mech, observe, note, state=()):
    return {
        "id": id,
        "title": title,
        "statement": statement,
        "quantifier": {"over": over.split(), "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": [S + f for f in files],
            "state": [{"name": n, "meaning": m, "where": S + w} for n, m, w in state],
            "mechanism": [{"name": n, "where": S + w} for n, w in mech],
            "observe_at": observe,
            "hook_needed": None,
        },
        "note": note,
    }


COMMON = (
    " Bounded symbolic execution of the current source: floats are read as reals, every path within the stated bounds is"
    " explored and each assertion is decided by z3 for all values on it; counterexamples count only if they reproduce on the"
    " unmodified package, and one concrete model per path is replayed to validate the encoding."
)
HT = "hypothesis_testing/"

PROPS = [
    P(
        "C01",
        "Likelihood-ratio test statistics follow their published definitions",
        "For every tested signal strength, fitted signal strength and log-likelihood, the statistics q, q-tilde (one-sided limits, signal allowed or not allowed to be negative), q0 (discovery) and the left-sided variant equal their textbook piecewise definitions: zero on the wrong side of the fit, otherwise twice the log-likelihood difference, measured against the zero-signal point when q-tilde sees a negative fit. They are never negative. The square roots handed on are those of the statistic on the data and of the statistic on the Asimov data, and an unknown statistic name is refused.",
        "inputs configurations",
        "all real signal strengths, fitted values and log-likelihood functions; every accepted name and representative bad names",
        "tests evaluate two or three fixed numbers per statistic; the piecewise boundaries hold only if every sign/order combination is right",
        [HT + "test_statistics.py"],
        [("qmu, qmu_tilde, q0, compute_teststatistics", HT + "test_statistics.py")],
        ["return values of get_test_statistic(name)(...) and compute_teststatistics"],
        "Exact over all reals, likelihood an uninterpreted function." + COMMON,
    ),
    P(
        "C02",
        "Asymptotic CLs, expected bands and significance are the documented ones",
        "The asymptotic exclusion level is one minus CLs = CLsb/CLb built from the normal distribution and the data and Asimov test statistics (with the tail formula when q-tilde exceeds its Asimov value), and the significance is the square root of q0 with its one-sided p-value. One observed value or five expected values (+2 to -2 sigma of the background-only Asimov distribution, ordered) are returned, all within [0,1], a larger observed test statistic never gives a larger p-value, and vanishing sensitivity yields no exclusion. A calculator the model cannot provide is refused with an error.",
        "inputs configurations",
        "all real signal strengths, fitted values and (Asimov) likelihood functions, both signal conventions and all expectation types",
        "tests pin a few numeric points and mostly use mocks; ordering, range and monotonicity are statements over a continuum",
        [HT + "asymptotic_calculator.py", HT + "utils.py", HT + "distributions.py", HT + "test_statistics.py", "base/hypotest_base.py"],
        [("compute_asymptotic_confidence_level", HT + "asymptotic_calculator.py"), ("exclusion_confidence_level, significance", "base/hypotest_base.py")],
        ["exclusion_confidence_level()", "significance()", "compute_asymptotic_confidence_level()"],
        "Phi is axiomatised (monotone, symmetric, log-concave, value tables at refinement points); sqrt(qA) and Delta bounded by 6." + COMMON,
    ),
    P(
        "C03",
        "Toy-based p-values are the empirical tail fractions of the toys",
        "With toys, the p-value of a hypothesis is the fraction of its toys whose test statistic is at least the observed one, CLs is the ratio of the signal-plus-background to the background fraction (zero if the latter is zero), and the five expected values use the +2 to -2 sigma quantiles of the background toys. The full toy exclusion draws the configured number of toys from the tested and from the zero-signal hypothesis, refits every toy on its own data with the signal convention asked for, and returns 1 - CLs within [0,1].",
        "inputs histories",
        "all toy test-statistic samples and observed values up to 4 toys per hypothesis; all toy data sets and per-data likelihoods up to 2 toys",
        "tests use one fixed sample; ties, empty tails and swapped samples are invisible there",
        [HT + "toy_calculator.py", HT + "distributions.py", HT + "utils.py", "base/hypotest_base.py"],
        [("compute_toy_confidence_level", HT + "toy_calculator.py"), ("EmpricTestStatisticsDistribution", HT + "distributions.py"), ("toy branch of exclusion_confidence_level", "base/hypotest_base.py")],
        ["compute_toy_confidence_level()", "exclusion_confidence_level(calculator='toy')"],
        "Sample sizes up to 4, sampling itself stubbed by arbitrary data." + COMMON,
    ),
    P(
        "C04",
        "Chi-square calculator compares the tested signal with the zero-signal hypothesis",
        "The chi-square exclusion level is the asymptotic CLs formula evaluated with the test statistic of the tested signal strength as the reference and the zero-signal test statistic as the alternative, both measured from the data likelihood only. It needs no Asimov data or sampling, returns one observed or five expected values within [0,1], and reports no exclusion when the tested signal is indistinguishable from the fit.",
        "inputs configurations",
        "all real signal strengths, fitted values and likelihood functions, both signal conventions, three expectation types",
        "no test pins values of this calculator",
        ["base/hypotest_base.py"],
        [("chi_square branch of exclusion_confidence_level", "base/hypotest_base.py")],
        ["exclusion_confidence_level(calculator='chi_square')"],
        "Phi axiomatised as in C02." + COMMON,
    ),
    P(
        "C05",
        "Upper limits solve CLs = 1 - confidence level, or are infinite",
        "A finite upper limit on the signal strength is a positive point where the exclusion level of the requested expectation and band crosses the confidence level; if no bracketing crossing exists, or the model has no signal, infinity is returned. Nominal, 1-sigma and 2-sigma requests return one, three and five values, each solving its own band's equation, observed limits are always a single value, and the excluded cross section is the 95% limit times the cross section (an unset cross section is an error).",
        "inputs configurations",
        "all exclusion-level curves (arbitrary functions of the signal strength), confidence levels, starting points, expectation types and bands",
        "tests check two limits of two models; the bracketing loops, the infinite cases and the band bookkeeping need arbitrary curves",
        [HT + "upper_limits.py", "base/hypotest_base.py", "interface/statistical_model.py"],
        [("find_poi_upper_limit, find_root_limits", HT + "upper_limits.py"), ("poi_upper_limit", "base/hypotest_base.py"), ("excluded_cross_section, s95exp, s95obs", "interface/statistical_model.py")],
        ["poi_upper_limit()", "excluded_cross_section()", "s95obs, s95exp"],
        "The root finder is replaced by its contract (requires a sign change, returns a point in the bracket where the function is zero); bracketing loops unrolled completely." + COMMON,
    ),
    P(
        "C06",
        "Chi-square intervals are the points where twice the NLL rise hits the threshold",
        "Every end point of a chi-square test interval is a parameter value where twice the rise of the profiled negative log-likelihood above its minimum equals the chi-squared threshold of the confidence level, lower ends lying below and upper ends above the best fit; if a side never reaches the threshold the edge of the allowed range is returned. Left, right and two-sided requests return end points on the requested sides only, in increasing order, and a nuisance-parameter interval profiles that parameter at the given signal strength and never leaves its bounds.",
        "inputs configurations",
        "convex profiles with symbolic fit, minimum and slopes, three confidence levels, all limit types, signal and nuisance parameters; arbitrary curves for the crossing search itself",
        "no unit test in the stable set covers the returned intervals",
        ["base/hypotest_base.py", "base/utils.py", HT + "upper_limits.py"],
        [("chi2_test", "base/hypotest_base.py"), ("_enumerate_crossings_1d, _refine_global_min_1d", "base/utils.py"), ("bracket_and_solve", HT + "upper_limits.py")],
        ["chi2_test()"],
        "Root finder and 1-d minimiser replaced by their contracts; scan sizes fixed." + COMMON,
    ),
    P(
        "C07",
        "Chi-squared and pull are built from twice the NLL difference to the reference",
        "The chi-squared of a tested value is twice the difference between its profiled negative log-likelihood and that of the best fit (or of the stated alternative value), and the pull is its square root signed by the side of the best fit. Lists and single-parameter scans return, element by element and in order, the values the individual calls would give, leave the caller's arguments unchanged, and expectation, signal convention, initial values and bounds reach every underlying fit.",
        "inputs configurations",
        "all real tested values and likelihood functions; scalars, lists and one-parameter scans up to 3 points",
        "one test uses constant mocks and a single scalar",
        ["base/hypotest_base.py"],
        [("chi2, pull", "base/hypotest_base.py")],
        ["chi2()", "pull()"],
        "Scans up to three points." + COMMON,
    ),
    P(
        "C08",
        "A fit hands the minimiser exactly the problem that was asked for",
        "Whatever the minimiser returns, a fit passes it the objective, starting point, bounds, user and model constraints unchanged except that fixed parameters (by single value, by index or by the model's own fixed flags) start at and are held at their own values, and it reports the point reached with the log-likelihood evaluated there. A failed attempt is retried at most the configured number of times from the last point with bounds that grow by the documented factors (never the lower signal bound), invalid or unknown options are dropped, and an unknown minimiser falls back to the default. None of the caller's or the model's lists are modified.",
        "inputs configurations fault_sequences",
        "all starting points, bounds (open or closed), fixed sets and minimiser answers (success or failure per trial) up to 3 parameters and 3 trials; both minimiser front ends",
        "tests check one fixed configuration with a mock minimiser",
        ["optimizer/core.py", "optimizer/scipy_tools.py", "optimizer/minuit_tools.py", "optimizer/__init__.py"],
        [("fit", "optimizer/core.py"), ("minimize", "optimizer/scipy_tools.py"), ("minimize", "optimizer/minuit_tools.py"), ("ValidateOpts", "optimizer/__init__.py")],
        ["arguments of scipy.optimize.minimize / iminuit.Minuit", "fit()"],
        "scipy/iminuit are replaced by recorders returning arbitrary answers; their own convergence is outside the claim." + COMMON,
    ),
    P(
        "C09",
        "Queries neither change the model nor depend on earlier queries",
        "Any sequence of likelihood, fit, Asimov and configuration queries gives each query the same answer it gives on a freshly built model, and returned values may be modified by the caller without affecting later answers. Arrays, lists and dictionaries passed by the caller, and the model's configuration, are left as they were.",
        "histories inputs",
        "all pairs and short sequences of public queries with symbolic arguments on models with cached results",
        "tests issue one query per fresh object",
        ["interface/statistical_model.py", "system/cache.py", "base/model_config.py", "backends/default_pdf/__init__.py", "backends/default_pdf/simple_pdf.py"],
        [("cached fits and Asimov data", "interface/statistical_model.py"), ("config", "backends/default_pdf/__init__.py")],
        ["StatisticalModel queries in sequence"],
        "Sequences of up to three queries; minimiser replaced by an arbitrary function of the problem it is given." + COMMON,
        state=[("per-instance result cache", "remembered results of earlier queries", "system/cache.py")],
    ),
    P(
        "C10",
        "Queries reach the right likelihood, data, expectation and signal convention",
        "Every model query evaluates or profiles the likelihood of the requested expectation (background-only expectation replaces the data by the background yields) or of explicitly given data, with negative signal allowed exactly when asked or implied by the test statistic. Asimov queries use data generated from the model fitted at zero signal (unit signal for the discovery statistic), and analytic shortcuts of a backend, when present, receive the same arguments. Negative log-likelihoods are returned unless the likelihood is asked for, which is its exponential, and a tested value means the same whichever numeric type carries it.",
        "inputs configurations",
        "all expectation types, test statistics, tested values, data overrides, fitted parameters and likelihood functions on models with and without shortcuts",
        "tests check single mocked call paths, not the cross product of expectation, statistic and data",
        ["interface/statistical_model.py", "base/hypotest_base.py"],
        [("likelihood, maximize_likelihood, generate_asimov_data, asimov_likelihood, maximize_asimov_likelihood", "interface/statistical_model.py")],
        ["likelihood()", "maximize_likelihood()", "generate_asimov_data()", "asimov_likelihood()", "maximize_asimov_likelihood()"],
        "Minimiser replaced by an arbitrary function of its problem." + COMMON,
    ),
    P(
        "C11",
        "Built-in models evaluate the published likelihood formulae",
        "For all parameters, yields, data and uncertainties, each built-in model (Poisson with and without uncertainties, normal, multivariate normal, uncorrelated and correlated background, third-moment expansion, effective sigma) returns as log-likelihood the sum over bins of the log-probability of the data at signal-strength times signal plus its background model, plus its documented unit-normal or correlated-normal constraint terms. Expected data are the model's mean with the constraint centres appended, background-only expectation uses background yields as data, and the objective is the exact negative.",
        "inputs configurations",
        "all real parameters, positive yields and uncertainties, counts and real data for up to 3 bins, including callable signals and covariances",
        "tests compare a handful of numbers for one dataset per model",
        ["backends/default_pdf/__init__.py", "backends/default_pdf/simple_pdf.py", "backends/distributions.py"],
        [("main_model, constraint_model, get_logpdf_func, expected_data", "backends/default_pdf/__init__.py"), ("SimplePDFBase", "backends/default_pdf/simple_pdf.py"), ("MainModel, ConstraintModel", "backends/distributions.py")],
        ["backend.get_logpdf_func()", "backend.get_objective_function()", "backend.expected_data()"],
        "Up to 3 bins; log, gammaln, sqrt are uninterpreted functions with algebraic facts." + COMMON,
    ),
    P(
        "C12",
        "Gradients and Hessians are the exact derivatives of the negative log-likelihood",
        "The gradient returned with the objective and by the differentiation helpers equals, component by component, the derivative of the negative log-likelihood of the same data, and the Hessian helper returns its matrix of second derivatives with positive sign at a minimum. Constraint Jacobians handed to the minimiser are the derivatives of the constraint functions, and the standard deviation derived from the Hessian is the square root of the signal element of its inverse at the profiled point.",
        "inputs",
        "all parameters, yields and data for up to 2 bins on every built-in model",
        "tests compare against stored numbers at one point",
        ["math.py", "backends/default_pdf/__init__.py", "backends/default_pdf/simple_pdf.py", "interface/statistical_model.py"],
        [("value_and_grad, hessian", "math.py"), ("get_objective_function, get_hessian_logpdf_func", "backends/default_pdf/__init__.py"), ("sigma_mu_from_hessian", "interface/statistical_model.py")],
        ["spey.math.value_and_grad", "spey.math.hessian", "sigma_mu()"],
        "Reverse-mode differentiation is executed symbolically and compared with independently written derivatives." + COMMON,
    ),
    P(
        "C13",
        "Configuration bounds keep the expected yields physical",
        "The lowest signal strength offered by a built-in model is minus the smallest background-to-signal ratio over bins with positive signal (minus infinity when the signal is a function or absent), so the expected yield stays non-negative there, and a model is alive exactly when some bin has positive signal. Its configuration starts the signal bound there or at zero according to the signal convention, ends it at the requested upper bound, lists one start value, bound and name per parameter, and the registered positivity constraints are exactly the background yield including its nuisance shift.",
        "inputs configurations",
        "all yields, uncertainties and bounds up to 3 bins, all built-in models and signal conventions",
        "tests look at one or two fixed configurations",
        ["backends/default_pdf/__init__.py", "backends/default_pdf/simple_pdf.py", "base/model_config.py"],
        [("config, is_alive, minimum_poi", "backends/default_pdf/__init__.py"), ("SimplePDFBase", "backends/default_pdf/simple_pdf.py")],
        ["backend.config()", "backend.is_alive", "backend.constraints"],
        "Up to 3 bins." + COMMON,
    ),
    P(
        "C14",
        "Third-moment expansion reproduces mean, variance, skewness and correlations",
        "For every covariance diagonal and third moment satisfying the documented condition, the expansion coefficients reproduce the mean, the variance and the third moment of the background, and the correlation matrix reproduces the covariance. Moments violating the condition, or equal to zero, fall back to the Gaussian coefficients, and the third moments computed from asymmetric uncertainties are those of the two-sided Gaussian.",
        "inputs",
        "all expectations, covariances and third moments up to 2 bins",
        "tests use one dataset and the zero-skew corner",
        ["backends/default_pdf/third_moment.py"],
        [("third_moment_expansion, compute_third_moments", "backends/default_pdf/third_moment.py")],
        ["third_moment_expansion()", "compute_third_moments()"],
        "cos/arctan related by the triple-angle identity." + COMMON,
    ),
    P(
        "C15",
        "Signal uncertainties scale the signal by the documented log-normal factors",
        "Each signal-uncertainty modifier multiplies the signal of bin i by (1 + up_i/s_i) or (1 + down_i/s_i) raised to its own nuisance parameter, up for positive and down for negative values, one shared parameter for normalisation and one per bin for shape, with several modifiers multiplying. Invalid entries (bins without signal, non-numbers, factors below one) leave that bin unscaled, malformed modifiers are refused, and every parameter gets a unit-normal constraint, a name and a position after the background nuisances.",
        "inputs configurations",
        "all signal yields, uncertainties and parameters for up to 2 bins and 2 modifiers of every type and shape",
        "tests sample a few fixed modifiers",
        ["backends/default_pdf/uncertainty_synthesizer.py", "backends/default_pdf/__init__.py"],
        [("signal_uncertainty_synthesizer", "backends/default_pdf/uncertainty_synthesizer.py")],
        ["signal_uncertainty_synthesizer()", "likelihood of models built with modifiers"],
        "Up to 2 bins and 2 modifiers." + COMMON,
    ),
    P(
        "C16",
        "The combined likelihood of uncorrelated analyses is the product of the parts",
        "The combined negative log-likelihood at a signal strength is the sum of the members' profiled values, each evaluated with its own data entry and options, and fits of the combination minimise exactly that sum within bounds no member forbids. Asimov data and Asimov likelihoods are taken member by member, likelihoods are exponentials of the negative sum, and members reporting invalid yields make the value undefined rather than wrong. Hypothesis tests on a combination (chi-square, pull, spread, exclusion, significance, limit) are those of the summed likelihood.",
        "inputs configurations",
        "all member likelihood functions, data and options for up to 3 members",
        "tests combine mocks with constant values",
        ["combiner/uncorrelated_statistics_combiner.py"],
        [("likelihood, maximize_likelihood, generate_asimov_data, asimov_likelihood, maximize_asimov_likelihood", "combiner/uncorrelated_statistics_combiner.py")],
        ["UnCorrStatisticsCombiner methods"],
        "Up to 3 members; minimiser replaced by an arbitrary function of its problem." + COMMON,
    ),
    P(
        "C17",
        "The combiner is a collection of distinct analyses",
        "A combination holds each analysis name at most once, rejects foreign objects and duplicates without changing, and supports lookup by name, index and slice, removal by name, iteration and concatenation consistently with the order of insertion; concatenating leaves its operands unchanged. It is usable when some member has signal, offers only calculators every member offers, and its lowest signal strength is the largest of its members'.",
        "histories configurations",
        "all sequences of up to 4 append/remove/lookup operations over 3 names",
        "tests exercise one scripted sequence",
        ["combiner/uncorrelated_statistics_combiner.py"],
        [("append, remove, __getitem__, __matmul__", "combiner/uncorrelated_statistics_combiner.py")],
        ["UnCorrStatisticsCombiner container operations"],
        "Sequences of up to 4 operations chosen symbolically." + COMMON,
    ),
    P(
        "C18",
        "Caching is transparent to a sequential caller",
        "A cached function or method returns what the uncached one would for the same arguments, whatever the order and form (positional, keyword, defaulted) of earlier calls, evictions, clears and raised errors; each instance has its own results. A repeated call is served without recomputation while its result is retained, the oldest results are dropped beyond the limit, and returned values are independent copies unless sharing was requested.",
        "histories",
        "all call sequences of length up to 5 over 3 argument values, with errors, clears, instances and every limit up to 2",
        "tests fix one scripted sequence per feature",
        ["system/cache.py"],
        [("cache_results", "system/cache.py")],
        ["decorated functions and methods, cache_info, cache_clear"],
        "Call sequences are symbolic choices within the stated length." + COMMON,
        state=[("cache, order, events", "retained results, insertion order, computations in flight", "system/cache.py")],
    ),
    P(
        "C19",
        "Caching is transparent to concurrent callers",
        "Under every interleaving of concurrent calls, clears and failures, a call returns its own arguments' result or raises its own error, no caller blocks forever, and concurrent callers with equal arguments share one computation unless it fails or is cleared. The number of retained results never exceeds the limit once calls have finished.",
        "schedules fault_sequences",
        "all schedules of 2 to 3 threads at lock, event and computation boundaries, with symbolic failures and clears",
        "thread tests observe a few lucky schedules",
        ["system/cache.py"],
        [("cache_results waiting and publication protocol", "system/cache.py")],
        ["results, errors and termination of threads calling a cached function"],
        "2-3 threads, preemption at every synchronisation point, schedule chosen by symbolic variables." + COMMON,
        state=[("events", "computations in flight", "system/cache.py")],
    ),
    P(
        "C20",
        "Different arguments never share a cached result",
        "Two calls share a cached result only if their bound arguments are equal: numbers in value, arrays in shape, element type and every element, lists, tuples, dictionaries and sets in kind and contents, including nested ones. Equal arguments always share it, irrespective of dictionary order or memory layout.",
        "inputs",
        "pairs of arguments from a grammar of numbers, strings, arrays, lists, tuples, dictionaries and sets with symbolic leaves, nesting depth up to 2",
        "collisions need specially chosen pairs",
        ["system/cache.py"],
        [("_make_token, _build_key", "system/cache.py")],
        ["hits and misses of a cached function"],
        "Grammar depth 2, arrays up to 2x2." + COMMON,
    ),
    P(
        "C21",
        "Bin merging and covariance conversions preserve sums and invert each other",
        "Merging correlated bins replaces each group by the sum of its yields, data and signal and by the sum of the covariance block between groups, keeps every unmerged bin exactly once after the groups, and preserves the total yields and the total variance; overlapping or mismatched inputs are refused. Converting covariance to correlation and back with the standard deviations returns the original matrix, with unit diagonal in between.",
        "inputs",
        "all yields, data and covariances up to 4 bins and all groupings of them",
        "one test merges one fixed grouping",
        ["helper_functions.py"],
        [("merge_correlated_bins, covariance_to_correlation, correlation_to_covariance", "helper_functions.py")],
        ["helper functions' return values"],
        "Up to 4 bins, every grouping." + COMMON,
    ),
    P(
        "C22",
        "The update check never fails and trusts only recent, readable cache files",
        "Checking for updates never raises and never blocks use of the package, whatever happens to the file system, the network or the downloaded content. A cached answer is used only if it is at most 24 hours old and readable, the network is asked only otherwise, a successful download is stored and older copies are removed, and the version messages follow the ordering of the local and the latest version.",
        "fault_sequences inputs",
        "all combinations of failures at every file and network operation, cache ages, and version orderings",
        "tests simulate two or three failures",
        ["system/webutils.py"],
        [("check_updates, _get_pypi_info, _load_cached_pypi_info, _save_pypi_info", "system/webutils.py")],
        ["check_updates()", "log records", "cache directory"],
        "File system and network replaced by stand-ins whose outcomes are symbolic." + COMMON,
    ),
    P(
        "C23",
        "Contour points lie on the confidence threshold and inside the bounds",
        "Every reported contour point has profiled negative log-likelihood equal, to the stated accuracy, to its minimum plus half the chi-squared quantile for the number of contour parameters, and respects the parameters' bounds. Points come from the deepest minimum found, whitening is inverted exactly, and parameters not on the contour are profiled.",
        "inputs",
        "quadratic profiles with symbolic centre and curvature in up to 2 dimensions, arbitrary directions and bounds, arbitrary minimiser answers",
        "no test covers contours",
        ["multiparameter/contour.py"],
        [("find_contour, radial search, constrained chains", "multiparameter/contour.py")],
        ["find_contour() result", "chain and ray search functions"],
        "Root finder replaced by its contract, random directions symbolic." + COMMON,
    ),
    P(
        "C24",
        "Parameter names, indices and bounds are resolved consistently",
        "Naming a parameter or giving its index selects the same parameter everywhere, unknown names, missing names and out-of-range indices are refused, and values of fixed parameters (for the parameter of interest: not below the model's minimum) always lie within the bounds offered for that fit while the bounds of all other parameters are unchanged. Rescaling and fixing return new bounds and never modify the model's own, and renaming keeps positions and uniqueness.",
        "inputs configurations",
        "all bounds (open or closed), fixed values, names and indices up to 3 parameters",
        "tests use a few numeric examples",
        ["base/model_config.py", "base/utils.py", "interface/statistical_model.py"],
        [("ModelConfig", "base/model_config.py"), ("resolve_parameter_index", "base/utils.py")],
        ["ModelConfig methods", "poi_test / poi_indices arguments"],
        "Up to 3 parameters." + COMMON,
    ),
    P(
        "C25",
        "Temporary log capture and silencing always restore the logger",
        "While logs are captured each distinct message is kept once in order and written out at the end, and while silenced nothing at or below the given level is emitted. Afterwards, also when the body fails or when captures are nested, the logger's level, propagation and handlers are exactly what they were before.",
        "histories fault_sequences",
        "all nestings up to depth 2, message sequences up to 3 over levels, failure or success of the body",
        "tests do not cover restoration",
        ["system/logger.py"],
        [("capture_logs, disable_logging", "system/logger.py")],
        ["state of the package logger before and after"],
        "Depth 2, three messages." + COMMON,
    ),
    P(
        "C26",
        "The backend registry accepts only usable backends and finds exactly those",
        "A backend class is registered only if it is concrete, carries the required metadata, has an unused name and supports the running version; anything else is refused and leaves the registry unchanged. Listing, retrieving, inspecting metadata and resetting agree on the registered names, a retrieved backend builds a statistical model with the arguments given, and unknown names and incompatible versions are refused.",
        "histories configurations",
        "all sequences of up to 3 registry operations over good and bad classes",
        "tests look up built-in plugins only",
        ["__init__.py"],
        [("register_backend, get_backend, get_backend_metadata, AvailableBackends", "__init__.py")],
        ["registry functions"],
        "Sequences of 3 operations over representative classes." + COMMON,
    ),
    P(
        "C27",
        "Distributions return the exact log-density of their documented law",
        "The log-probability of the Poisson, normal and multivariate normal distributions equals the logarithm of their density for every value, location and scale or covariance (also when that is a function of the parameters), summed over bins, using only the parameters in their domain. Expected data are the location, constraint terms add up, and unknown distribution types are refused.",
        "inputs configurations",
        "all values, locations, scales and 2x2 covariances, all domains up to 3 parameters",
        "tests check one number per distribution",
        ["backends/distributions.py"],
        [("Poisson, Normal, MultivariateNormal, MainModel, ConstraintModel", "backends/distributions.py")],
        ["log_prob(), expected_data()"],
        "Up to 3 parameters." + COMMON,
    ),
    P(
        "C28",
        "Toy data are drawn from the model at the profiled, requested hypothesis",
        "Sampling at a tested signal strength uses the parameters of the fit with exactly that value fixed, on the requested expectation, and returns the requested number of data sets (or a reusable sampler); each data set has one entry per bin drawn at the model's mean with the constraint's own draws appended. A model without sampling is refused with a clear error.",
        "inputs configurations",
        "all tested values, profiled parameters and draws for up to 2 bins, every built-in model",
        "tests only check shapes on one model",
        ["interface/statistical_model.py", "backends/default_pdf/__init__.py", "backends/default_pdf/simple_pdf.py", "backends/distributions.py"],
        [("fixed_poi_sampler", "interface/statistical_model.py"), ("get_sampler", "backends/default_pdf/__init__.py"), ("sample", "backends/distributions.py")],
        ["fixed_poi_sampler()", "arguments handed to the random generators"],
        "The random generators are stand-ins that record their parameters; the generators' own statistics are outside the claim." + COMMON,
    ),
    P(
        "C29",
        "Fits over several named parameters report each parameter's own value",
        "Asking a fit for several parameters returns, under exactly the keys given (names or indices), the fitted values of those parameters at the same minimum as the plain fit. Testing several parameters at once holds exactly those parameters at their own values, whether given by name or index, and profiles the rest.",
        "inputs configurations",
        "all fitted values, keys and tested values on models with up to 4 parameters",
        "tests use identity-like mocks",
        ["interface/statistical_model.py", "base/model_config.py", "combiner/uncorrelated_statistics_combiner.py"],
        [("maximize_likelihood(poi_indices), likelihood(poi_test=dict)", "interface/statistical_model.py")],
        ["maximize_likelihood(poi_indices=...)", "likelihood(poi_test={...})"],
        "Minimiser replaced by an arbitrary function of its problem." + COMMON,
    ),
    P(
        "C30",
        "Bibliography look-ups return the matching records and never disturb the caller",
        "Looking up one identifier asks the matching service once, with a bounded wait, and returns its text unchanged (as UTF-8) for a successful reply and an empty text for any other reply or failure, a missing connection alone being reported as ConnectionError. A backend's references contain, in order and in the section of the service that answered, exactly the records found for the identifiers it declares, doi.org being asked only for DOIs InspireHEP does not have; without a connection what was found so far is returned and the failure is logged. The package's own citation behaves alike and is empty without a connection.",
        "fault_sequences inputs",
        "all status codes and failures of every request, all found/missing/offline/failed outcomes of each look-up for up to 2 identifiers of each kind",
        "tests look at one reply per function",
        ["system/webutils.py", "__init__.py"],
        [("get_bibtex", "system/webutils.py"), ("get_backend_bibtex, cite", "__init__.py")],
        ["get_bibtex()", "get_backend_bibtex()", "cite()"],
        "Network replaced by a stand-in whose replies are symbolic; the content of the remote records is outside." + COMMON,
    ),
    P(
        "C31",
        "Package settings take effect as asked, and diagnostics change nothing else",
        "Setting a documented log level makes exactly the messages at least that severe appear, any other value is refused; selecting an available minimiser makes later fits use it (an explicit option of a fit still wins and does not change the selection), and an unknown or missing one is reported and leaves the selection as it was. A message logged once appears when first given and not again while among the last ten. Wrapped numerical routines return the same result or failure, keep their warnings from the user and leave the warning filters as they were. Initialising the logger leaves exactly one handler, and formatting a message leaves the record unchanged.",
        "histories configurations",
        "all values and sequences of up to 2 (thorough 3) selections, message histories of 3 after up to 10 others, all severities",
        "tests format two records and select one minimiser",
        ["__init__.py", "optimizer/core.py", "system/logger.py", "system/exceptions.py"],
        [("set_log_level, set_optimiser, log_once", "__init__.py"), ("init, ColoredFormatter", "system/logger.py"), ("warning_tracker", "system/exceptions.py")],
        ["package logger", "SPEY_OPTIMISER", "minimiser called by a fit", "warnings seen by the caller"],
        "Minimisers replaced by recorders." + COMMON,
    ),
    P(
        "C32",
        "A wrapped backend stays itself and offers exactly the calculators it supports",
        "Building a model from a backend passes every backend argument on unchanged, keeps analysis name, cross section and number of toys (with their documented defaults), and refuses objects that are not backends. A calculator is offered exactly if the backend, itself or by inheritance, provides what it needs; the others are refused. Combining two models uses the combination of their backends, labels it with both names and leaves both operands as they were; a backend without one is reported as such while its own failures pass through. The expectation types compare equal to themselves, their names and their boolean shorthands only.",
        "configurations inputs",
        "all argument combinations, all subsets of optional backend methods, all pairs of expectation values",
        "tests wrap one backend and combine none",
        ["interface/statistical_model.py", "base/backend_base.py", "utils.py"],
        [("statistical_model_wrapper, StatisticalModel.combine, available_calculators", "interface/statistical_model.py"), ("ExpectationType", "utils.py")],
        ["statistical_model_wrapper()", "StatisticalModel attributes", "combine() and @", "available_calculators"],
        "" + COMMON,
    ),
    P(
        "N01",
        "Random toy samples follow their nominal distribution",
        "Toy data sets drawn from a model are distributed according to the model's probability law.",
        "inputs",
        "all seeds and sample sizes",
        "statistical property of external generators",
        ["backends/distributions.py"],
        [("sample", "backends/distributions.py")],
        ["samples"],
        "",
    ),
    P(
        "N02",
        "Fits reach the global optimum of the likelihood",
        "The value reported by a fit is the global maximum of the likelihood within the bounds.",
        "inputs",
        "all models, data and starting points",
        "tests see convergence on a few benign models",
        ["optimizer/scipy_tools.py", "optimizer/minuit_tools.py"],
        [("minimize", "optimizer/scipy_tools.py")],
        ["fit()"],
        "",
    ),
]

NOT_APPLICABLE = [
    {"property": "N01", "reason": "the distribution of samples is decided inside numpy/scipy's compiled generators; a solver over the Python source sees only an opaque call (what spey hands to the generators is decided in C28)"},
    {"property": "N02", "reason": "global optimality depends on the numerical convergence of SLSQP (Fortran/C) and Migrad (C++), which cannot be executed symbolically; what spey hands to them and does with the answer is decided in C08"},
]
