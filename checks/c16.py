"""C16: the combined likelihood of uncorrelated analyses is the product of the parts."""
import warnings

import numpy as np

from engine.env import Harness

from checks.common import analytic_backend, deterministic_answers, expectations, first, numeric_backend, stub_minimize, tag, tsfam

NAMES = ["one", "two", "three", "four"]


def mod(env):
    return env.mod("spey.combiner.uncorrelated_statistics_combiner").UnCorrStatisticsCombiner


def members(env, n, same_backend=False, shared=False, **hooks):
    """n models with arbitrary profiled likelihoods"""
    SM = env.mod("spey.interface.statistical_model").StatisticalModel
    MC = env.mod("spey.base.model_config").ModelConfig
    out, logs, fs = [], [], []
    for i in range(n):
        f = env.uf("nll%d" % (0 if shared else i))
        kw = {k: h(i) for k, h in hooks.items() if k != "minimum"}
        low = hooks["minimum"][i] if "minimum" in hooks else -10.0
        b, log = analytic_backend(
            env, nll=lambda mu, e, d, f=f: f(mu, tag(env, e), first(d)), **kw
        )
        b.__class__.config = lambda self, allow_negative_signal=True, poi_upper_bound=10.0, low=low: MC(0, low, [1.0], [(low if allow_negative_signal else 0.0, poi_upper_bound)])
        b.__class__.name = "verif.shared" if same_backend else "verif.%s" % NAMES[i]
        out.append(SM(backend=b, analysis=NAMES[i]))
        logs.append(log)
        fs.append(f)
    return out, logs, fs


def some_data(env, n, form=None):
    """data for some of the members"""
    which = env.choice("data_for", [(), (0,), (n - 1,), tuple(range(n))][: 2 if n == 1 else 4])
    form = form or "list"
    d = {}
    for i in which:
        v = env.reals("data%d" % i, 2, lo=0.5, hi=9.0)
        d[NAMES[i]] = np.array(v) if form == "array" else list(v)
    return which, d


def some_options(env, n, same):
    k = env.choice("options", ["none", "one", "all"])
    if k == "none":
        return None, [{}] * n
    names = ["verif.shared"] * n if same else ["verif.%s" % x for x in NAMES[:n]]
    o = {names[0]: {"special": 7}} if k == "one" else {x: {"special": 10 + i} for i, x in enumerate(names)}
    return o, [dict(o.get(x, {})) for x in names]


def total(env, fs, mu, e, d):
    return env.sum([f(mu, tag(env, e), first(d.get(NAMES[i]))) for i, f in enumerate(fs)])


def calls_match(env, label, log, fits, mu, e, d, opts, extra):
    env.check(label + "-once", len(log) == 1, "member evaluated %d times" % len(log))
    c = log[0]
    env.eq(label + "-signal", c["poi"], mu)
    env.check(label + "-expectation", c["expected"] == e)
    if d is None:
        env.check(label + "-no-data", c["data"] is None)
    else:
        for a, b in zip(c["data"], d):
            env.eq(label + "-data", a, b)
    for k, v in dict(opts, **extra).items():
        env.check(label + "-option-" + k, c["kw"].get(k) == v)
    env.check(label + "-foreign-option", opts.get("special") == c["kw"].get("special"))


def h_likelihood(env, n, same):
    ms, logs, fs = members(env, n, same)
    comb = mod(env)(*ms)
    mu = env.real("mu", lo=-9.0, hi=9.0)
    e = env.choice("expected", expectations(env))
    which, d = some_data(env, n)
    o, per = some_options(env, n, same)
    extra = env.choice("common", [{}, {"tol": 1e-3, "init_pars": [2.0]}])
    nll = env.choice("return_nll", [True, False])
    given = {k: list(v) for k, v in d.items()}
    kw = {} if o is None else {"statistical_model_options": o}
    if which:
        kw["data"] = d
    got = comb.likelihood(poi_test=mu, expected=e, return_nll=nll, **kw, **extra)
    want = total(env, fs, mu, e, d)
    env.eq("value", got, want if nll else env.exp(-want))
    for i in range(n):
        calls_match(env, "member%d" % i, logs[i].of("nll"), None, mu, e, d.get(NAMES[i]), per[i], extra)
    env.check("data-untouched", list(d) == list(given) and all(a is b for k in d for a, b in zip(d[k], given[k])))


def h_negative_yields(env, n):
    """members outside their domain make the value undefined; other errors are not swallowed"""
    ex = env.mod("spey.system.exceptions").NegativeExpectedYields
    mode = env.choice("failure", ["yields", "nan", "error"])
    bad = env.choice("member", list(range(n)))

    ms, logs, fs = members(env, n)
    for i, m in enumerate(ms):
        if i == bad:

            def broken(self, *a, **k):
                if mode == "yields":
                    raise ex("negative yields")
                if mode == "nan":
                    return np.nan
                raise RuntimeError("broken member")

            m.backend.__class__.negative_loglikelihood = broken
    comb = mod(env)(*ms)
    mu = env.real("mu", lo=-9.0, hi=9.0)
    e = env.choice("expected", expectations(env))
    nll = env.choice("return_nll", [True, False])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if mode == "error":
            env.raises("error-propagates", RuntimeError, lambda: comb.likelihood(poi_test=mu, expected=e, return_nll=nll))
        else:
            got = comb.likelihood(poi_test=mu, expected=e, return_nll=nll)
            env.check("undefined", env.is_nan(got), "invalid member did not make the combination undefined")


TS = ["qtilde", "q", "q0"]


def numeric_members(env, n):
    SM = env.mod("spey.interface.statistical_model").StatisticalModel
    out = []
    for i in range(n):
        f = {}

        def nll(p, e, d, i=i, f=f):
            if d is None:
                return f.setdefault(str(e), env.uf("nll%d_%s" % (i, e)))(*p)
            return f.setdefault("data", env.uf("nll%d_data" % i))(*p, d[0])

        b, log = numeric_backend(
            env,
            npar=2,
            names=["mu", "theta"],
            nll=nll,
            minimum=-2.0 - i,
            expected_data=lambda p, i=i: np.array([p[0] + (i + 1) * p[1], p[1] - p[0]]),
        )
        b.__class__.name = "verif.%s" % NAMES[i]
        out.append(SM(backend=b, analysis=NAMES[i]))
    return out


def h_asimov(env, n, query):
    """Asimov data and likelihoods agree with the members' own queries"""
    ms = numeric_members(env, n)
    stub_minimize(env, deterministic_answers(env, 2))
    comb = mod(env)(*ms)
    e = env.choice("expected", expectations(env))
    ts = env.choice("test_statistic", TS)
    o = env.choice("options", [None, {"verif.one": {"init_pars": [0.25, 0.75]}}])
    per = [dict((o or {}).get("verif.%s" % x, {})) for x in NAMES[:n]]
    kw = {} if o is None else {"statistical_model_options": o}
    want = [m.generate_asimov_data(expected=e, test_statistic=ts, do_grad=False, **per[i]) for i, m in enumerate(ms)]
    if query == "data":
        got = comb.generate_asimov_data(expected=e, test_statistic=ts, do_grad=False, **kw)
        env.check("one-entry-per-member", sorted(got) == sorted(NAMES[:n]))
        for i in range(n):
            env.check("length", len(got[NAMES[i]]) == 2)
            env.eq("asimov-data", list(got[NAMES[i]]), list(want[i]))
        return
    mu = env.real("mu", lo=-1.5, hi=4.0)
    nll = env.choice("return_nll", [True, False])
    got = comb.asimov_likelihood(poi_test=mu, expected=e, test_statistics=ts, return_nll=nll, do_grad=False, **kw)
    w = env.sum([m.likelihood(poi_test=mu, expected=e, data=want[i], do_grad=False, **per[i]) for i, m in enumerate(ms)])
    env.eq("asimov-likelihood", got, w if nll else env.exp(-w))


def fit_options(env, n):
    if not env.choice("member_options", [False, True]):
        return None, [{}] * n
    o = {"verif.one": {"special": 7}}
    return o, [dict(o.get("verif.%s" % x, {})) for x in NAMES[:n]]


def h_fit(env, n):
    """fits of the combination: objective, signal bounds, start, result"""
    lows = env.reals("lowest", n, lo=-5.0, hi=-0.5)
    for i in range(n):
        for j in range(i):
            env.assume(env.Or(lows[i] - lows[j] >= 1e-3, lows[j] - lows[i] >= 1e-3))
    ms, logs, fs = members(env, n, minimum=lows, mle=lambda i: (lambda e, a, d: (0.5 + i, 3.0)))
    rec = stub_minimize(env)
    comb = mod(env)(*ms)
    e = env.choice("expected", expectations(env))
    which, d = some_data(env, n)
    case = env.choice("start", ["default", "given", "bounded"])
    allow = env.choice("allow", [True, False])
    nll = env.choice("return_nll", [True, False])
    idx = env.choice("several", [None, [0, "mu"]])
    o, per = fit_options(env, n)
    kw = {} if o is None else {"statistical_model_options": o, "tol": 1e-3}
    start = env.real("init", lo=0.25, hi=25.0)
    if case != "default":
        kw["initial_muhat_value"] = start
    if case == "bounded":
        env.assume(start <= 4.0)
        kw["par_bounds"] = [(-0.25, 6.0)]
    if idx is not None:
        kw["poi_indices"] = idx
    SM = env.mod("spey.interface.statistical_model").StatisticalModel
    sig, SM.sigma_mu = SM.sigma_mu, lambda self, *a, **k: 0.5
    try:
        got = comb.maximize_likelihood(return_nll=nll, expected=e, allow_negative_signal=allow, data=d, **kw)
    finally:
        SM.sigma_mu = sig
    checks_fit(env, rec[-1], lambda x: total(env, fs, x, e, d), lows, allow, case, start, got, nll, idx, logs, per, e, [d.get(x) for x in NAMES[:n]], {} if o is None else {"tol": 1e-3})
    for i, log in enumerate(logs):
        for c in log.of("mle"):
            env.check("start-option", c["kw"].get("special") == per[i].get("special"))


def checks_fit(env, r, s, lows, allow, case, start, got, nll, idx, logs, per, e, data, extra):
    env.check("one-parameter", r["n"] == 1 and not r["held"])
    x = env.real("probe", lo=-0.5, hi=4.0)
    for log in logs:
        log.calls.clear()
    v = r["fun"](np.array([x]))
    v = v[0] if r["jac"] is True else v
    env.eq("objective", v, 2.0 * s(x))
    for i, log in enumerate(logs):
        calls_match(env, "objective-member%d" % i, log.of("nll"), None, x, e, data[i], per[i], extra)
    lo, up = r["bounds"][0]
    if case == "bounded":
        env.eq("bounds", [lo, up], [-0.25, 6.0])
    elif allow:
        for q in lows:
            env.check("bound-allowed-by-members", lo >= q - 1e-9)
        env.check("bound-not-too-narrow", env.Or(*[lo <= q + 1e-9 for q in lows]))
    else:
        env.eq("no-negative-signal", lo, 0.0)
    env.check("upper-bound", up >= r["x0"][0])
    if case != "default":
        env.eq("start", r["x0"][0], start)
    else:
        env.check("start-is-a-number", env.Not(env.is_nan(r["x0"][0])))
    x = env.real("min%d_0" % r["index"], lo=-10.0, hi=10.0)
    if idx is None:
        env.eq("muhat", got[0], x)
    else:
        env.check("requested-parameters", list(got[0]) == idx)
        for k in idx:
            env.eq("muhat-of", got[0][k], x)
    env.eq("likelihood-at-the-fit", got[1], s(x) if nll else env.exp(-s(x)))


def h_asimov_fit(env, n):
    ms, logs, fs = members(env, n, minimum=[-2.0, -3.0, -4.0][:n])
    asim = [env.reals("asimov%d" % i, 2, lo=0.5, hi=9.0) for i in range(n)]
    asked = []
    SM = env.mod("spey.interface.statistical_model").StatisticalModel

    def gen(self, expected=None, test_statistic="qtilde", **kw):
        asked.append((self.analysis, expected, test_statistic, kw))
        return list(asim[NAMES.index(self.analysis)])

    SM_gen = SM.generate_asimov_data
    SM.generate_asimov_data = gen
    try:
        rec = stub_minimize(env)
        comb = mod(env)(*ms)
        e = env.choice("expected", expectations(env))
        ts = env.choice("test_statistic", ["qtilde", "q", "q0", "qmu", "qmutilde"])
        case = env.choice("start", ["default", "given", "bounded"])
        nll = env.choice("return_nll", [True, False])
        idx = env.choice("several", [None, [0, "mu"]])
        o, per = fit_options(env, n)
        kw = {} if o is None else {"statistical_model_options": o, "tol": 1e-3}
        start = env.real("init", lo=0.25, hi=4.0)
        if case != "default":
            kw["initial_muhat_value"] = start
        if case == "bounded":
            kw["par_bounds"] = [(-0.25, 6.0)]
        if idx is not None:
            kw["poi_indices"] = idx
        got = comb.maximize_asimov_likelihood(return_nll=nll, expected=e, test_statistics=ts, **kw)
    finally:
        SM.generate_asimov_data = SM_gen
    env.check("asimov-of-every-member", sorted(a[0] for a in asked) == sorted(NAMES[:n]))
    for a, ex, t, k in asked:
        env.check("asimov-query", ex == e and tsfam(t) == tsfam(ts))
        env.check("asimov-options", k.get("special") == per[NAMES.index(a)].get("special"))
    d = {NAMES[i]: asim[i] for i in range(n)}
    checks_fit(env, rec[-1], lambda x: total(env, fs, x, e, d), [-2.0, -3.0, -4.0][:n], tsfam(ts) == 0.0, case, start, got, nll, idx, logs, per, e, asim, {} if o is None else {"tol": 1e-3})


def h_start(env):
    """members whose uncertainty estimate is undefined do not poison the start of the fit"""
    SM = env.mod("spey.interface.statistical_model").StatisticalModel
    ms = []
    for i in range(2):
        k = env.real("curvature%d" % i, lo=-3.0, hi=3.0)
        env.assume(env.Or(k >= 0.01, k <= -0.01))
        b, _ = numeric_backend(
            env,
            npar=1,
            nll=lambda p, e, d, k=k: k * (p[0] - 1.0) ** 2,
            expected_data=lambda p: np.array([p[0]]),
            hessian=lambda e, d, k=k: (lambda p: -np.array([[2.0 * k]])),
        )
        ms.append(SM(backend=b, analysis=NAMES[i]))
    rec = stub_minimize(env)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        mod(env)(*ms).maximize_likelihood(do_grad=False)
    last = rec[-1]
    env.check("start-is-a-number", env.Not(env.is_nan(last["x0"][0])), "start of the combined fit is undefined")
    env.check("start-within-bounds", env.Not(env.is_nan(last["bounds"][0][1])))


def h_builtin(env):
    """shipped models: product of Poisson terms"""
    SM = env.mod("spey.interface.statistical_model").StatisticalModel
    sp = env.mod("spey.backends.default_pdf.simple_pdf")
    n = 3
    s = env.reals("s", n, lo=0.5, hi=3.0)
    b = env.reals("b", n, lo=2.0, hi=8.0)
    d = env.reals("d", n, lo=0.0, hi=12.0)
    mu = env.real("mu", lo=0.0, hi=3.0)
    e = env.choice("expected", expectations(env))
    given = env.choice("given", [None, 0, 1, 2])
    g = env.real("new", lo=0.0, hi=12.0)
    ms = [SM(backend=sp.Poisson(np.array([s[i]]), np.array([b[i]]), np.array([d[i]])), analysis=NAMES[i]) for i in range(n)]
    comb = mod(env)(ms[0]) @ ms[1] @ ms[2] if env.choice("how", [0, 1]) else mod(env)(*ms)
    x = [b[i] if str(e) == "apriori" else d[i] for i in range(n)]
    kw = {}
    if given is not None:
        x[given] = g
        kw["data"] = {NAMES[given]: np.array([g])}
    got = comb.likelihood(poi_test=mu, expected=e, **kw)
    lam = [b[i] + mu * s[i] for i in range(n)]
    env.eq("value", got, env.sum([lam[i] - x[i] * env.log(lam[i]) + env.gammaln(x[i] + 1.0) for i in range(n)]))


QUERIES = ["sigma", "cls", "cls-negative", "chi_square", "chi_square-negative", "significance", "chi2", "chi2-ratio", "pull", "limit", "limit-from-spread", "toy"]


def h_hypothesis_tests(env, n, query):
    """statistical queries on a combination use the summed likelihood of its members"""
    ms, logs, fs = members(env, n)
    C = mod(env)
    comb = C(*ms)
    e = env.choice("expected", expectations(env))
    mu = env.real("mu", lo=0.25, hi=3.0)
    asim = {k: {NAMES[i]: env.reals("asimov%d_%s" % (i, k), 1, lo=0.5, hi=9.0) for i in range(n)} for k in ("q", "qtilde", "q0")}
    kind = lambda t: {0.0: "q", 1.0: "qtilde"}.get(tsfam(t), "q0")
    fit = {}

    def best(what, lo):
        return fit.setdefault(what, (env.real("muhat_" + what, lo=lo, hi=4.0), env.real("min_" + what, lo=-40.0, hi=40.0)))

    def mle(self, return_nll=True, expected=None, allow_negative_signal=True, data=None, **kw):
        env.check("fit-expectation", expected == e)
        env.check("fit-data", not data, "fit of the observed data received other data")
        return best("allow" if allow_negative_signal else "forbid", -2.0 if allow_negative_signal else 0.0)

    def amle(self, return_nll=True, expected=None, test_statistics="qtilde", **kw):
        env.check("asimov-fit-expectation", expected == e)
        k = kind(test_statistics)
        return best("asimov_" + k, -2.0 if k == "q" else 0.0)

    def gen(self, expected=None, test_statistic="qtilde", **kw):
        env.check("asimov-expectation", expected == e)
        return asim[kind(test_statistic)]

    nll = lambda x, d={}: total(env, fs, x, e, d)
    ts = "q" if query.endswith("negative") else "q0" if query == "significance" else "qtilde"
    muhat, low = best("allow" if ts == "q" else "forbid", -2.0 if ts == "q" else 0.0)
    muhatA, lowA = best("asimov_" + ts, -2.0 if ts == "q" else 0.0)
    # the fits are minima of the likelihoods they belong to
    for x in (mu, 0.0):
        env.assume(nll(x) >= low + 1e-3)
        env.assume(nll(x, asim[ts]) >= lowA + 1e-3)
        env.assume(nll(x) <= 60.0)
        env.assume(nll(x, asim[ts]) <= 60.0)
    near = lambda a, b: env.assume(env.Or(a - b >= 1e-3, b - a >= 1e-3))
    near(mu, muhat)
    near(mu, muhatA)
    tsm = env.mod("spey.hypothesis_testing.test_statistics")
    acl = env.mod("spey.hypothesis_testing.asymptotic_calculator").compute_asymptotic_confidence_level
    old = {k: C.__dict__[k] for k in ("maximize_likelihood", "maximize_asimov_likelihood", "generate_asimov_data")}
    C.maximize_likelihood, C.maximize_asimov_likelihood, C.generate_asimov_data = mle, amle, gen
    try:
        if query == "toy":
            ex = env.mod("spey.system.exceptions").CalculatorNotAvailable
            env.raises("toys-refused", ex, lambda: comb.exclusion_confidence_level(mu, expected=e, calculator="toy", verbose=False))
            return
        if query.startswith("limit"):
            seen = []

            def search(**kw):
                seen.append(kw)
                return 1.25

            env.stub("spey.hypothesis_testing.upper_limits", "find_poi_upper_limit", search)
            env.stub("spey.combiner.uncorrelated_statistics_combiner", "UnCorrStatisticsCombiner.is_alive", property(lambda self: True))
            kw = {"low_init": None, "hig_init": None} if query != "limit" else {}
            if kw:
                near(muhat, 0.0)
                env.stub("spey.base.hypotest_base", "HypothesisTestingBase.sigma_mu", lambda self, x, expected=None, **k: 0.5 if expected == e else 2.0)
            env.check("limit", comb.poi_upper_limit(expected=e, **kw) == 1.25)
            k = seen[-1]
            env.eq("limit-fit", list(k["maximum_likelihood"]), [muhat, low])
            env.eq("limit-asimov-fit", list(k["maximum_asimov_likelihood"]), [muhatA, lowA])
            for x in (mu, np.array([mu])):
                env.eq("limit-likelihood", k["logpdf"](x), -nll(mu))
                env.eq("limit-asimov-likelihood", k["asimov_logpdf"](x), -nll(mu, asim["qtilde"]))
            if kw:
                env.eq("limit-start", [k["low_init"], k["hig_init"]], [muhat + 0.75, muhat + 1.25])
            return
        if query == "chi2":
            env.eq("chi2", comb.chi2(mu, expected=e), 2.0 * (nll(mu) - low))
        elif query == "chi2-ratio":
            env.eq("chi2", comb.chi2(mu, poi_test_denominator=0.0, expected=e), 2.0 * (nll(mu) - nll(0.0)))
        elif query == "pull":
            a, b = best("allow", -2.0)
            near(mu, a)
            env.assume(nll(mu) >= b + 1e-3)
            env.eq("pull", comb.pull(mu, expected=e), env.ite(a > mu, 1.0, -1.0) * env.sqrt(2.0 * (nll(mu) - b)))
        elif query == "sigma":
            q = tsm.qmu_tilde(mu, muhatA, -lowA, lambda x: -nll(x, asim["qtilde"]))
            near(muhatA, mu)
            got = comb.sigma_mu(mu, expected=e)
            env.eq("sigma", got, env.ite(muhatA > mu, 1.0, mu / env.sqrt(env.ite(q > 0.0, q, 1.0))))
        else:
            pdf, pdfA = (lambda x: -nll(x)), (lambda x: -nll(x, asim[ts]))
            if query == "significance":
                got = comb.significance(expected=e)
                s, sA, delta = tsm.compute_teststatistics(0.0, (muhat, low), pdf, (muhatA, lowA), pdfA, ts)
                pv, epv = acl(sA, delta, ts)
                want = [sA, s] + list(pv) + list(epv)
                got = list(got[:2]) + list(got[2]) + list(got[3])
            elif query.startswith("cls"):
                got = comb.exclusion_confidence_level(mu, expected=e, allow_negative_signal=ts == "q")
                try:
                    s, sA, delta = tsm.compute_teststatistics(mu, (muhat, low), pdf, (muhatA, lowA), pdfA, ts)
                    pv, epv = acl(sA, delta, ts)
                except env.mod("spey.system.exceptions").AsimovTestStatZero:
                    pv, epv = [1.0], [1.0] * 5
                want = [1.0 - x for x in (pv if str(e) == "observed" else epv)]
            else:
                got = comb.exclusion_confidence_level(mu, expected=e, allow_negative_signal=ts == "q", calculator="chi_square")
                # the same query for one analysis having the likelihood of the combination
                b, _ = analytic_backend(env, nll=lambda x, ex, d: nll(x), mle=lambda ex, a, d: (muhat, low))
                one = env.mod("spey.interface.statistical_model").StatisticalModel(backend=b, analysis="all")
                want = one.exclusion_confidence_level(mu, expected=e, allow_negative_signal=ts == "q", calculator="chi_square")
            env.check("entries", len(got) == len(want))
            for a, b in zip(got, want):
                env.eq("entry", a, b)
    finally:
        for k, v in old.items():
            setattr(C, k, v)


def harnesses(tier):
    st = "scipy.optimize.minimize: any point reached; arbitrary member likelihoods"
    hs = []
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for same in (False, True):
            hs.append(Harness("likelihood-%d%s" % (n, "-same" if same else ""), h_likelihood, "%d members, any signal, data, options" % n, stubs=st, n=n, same=same))
    for n in (2, 3):
        hs.append(Harness("undefined-%d" % n, h_negative_yields, "%d members, any failing member" % n, n=n))
    for n in (2,) if tier == "quick" else (1, 2, 3):
        hs.append(Harness("asimov-data-%d" % n, h_asimov, "%d members with 2 parameters" % n, stubs="minimiser is an arbitrary function of its problem", n=n, query="data"))
        hs.append(Harness("asimov-likelihood-%d" % n, h_asimov, "%d members with 2 parameters" % n, stubs="minimiser is an arbitrary function of its problem", n=n, query="likelihood"))
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
        hs.append(Harness("fit-%d" % n, h_fit, "%d members, any bounds, start, data" % n, stubs=st, n=n))
        hs.append(Harness("asimov-fit-%d" % n, h_asimov_fit, "%d members, any Asimov data" % n, stubs=st + "; members' Asimov data arbitrary", n=n))
    for q in QUERIES:
        hs.append(Harness("tests-" + q, h_hypothesis_tests, "2 members with arbitrary likelihoods, any fits", stubs="fits of the combination and Asimov data arbitrary" + ("; search for the limit recorded" if q.startswith("limit") else ""), n=2, query=q))
    hs.append(Harness("start", h_start, "2 members, any curvature", stubs=st))
    hs.append(Harness("builtin", h_builtin, "3 one-bin Poisson members"))
    return hs
