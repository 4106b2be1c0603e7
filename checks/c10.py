"""C10: every query evaluates or profiles the requested likelihood."""
import numpy as np

from engine.env import Harness

from checks.common import analytic_backend, deterministic_answers, expectations, first, numeric_backend, stub_minimize, tag, tsfam

MIN = -7.5


def setup(env, n=2, **kw):
    SM = env.mod("spey.interface.statistical_model").StatisticalModel
    f = {}

    def nll(p, e, d):
        if d is None:
            return f.setdefault(str(e), env.uf("nll_" + str(e)))(*p)
        # a backend may use the expectation even when the data are given
        return f.setdefault("data" + str(e), env.uf("nll_data_" + str(e)))(*p, *d[:2])

    ed = env.uf("mean")
    g = env.choice("gradient", ["declined", "unavailable", "available"])
    b, log = numeric_backend(env, npar=n, nll=nll, minimum=MIN, grad=g == "available", names=["mu", "theta", "phi"][:n], expected_data=lambda p: np.array([ed(*p), ed(*p) + p[0]]), **kw)
    log.kw = {"do_grad": False} if g == "declined" else {}
    return SM(backend=b, analysis="a"), log, nll, (lambda p: [ed(*p), ed(*p) + p[0]])


def options(env, n):
    """user supplied start and bounds, or none"""
    if env.choice("user_options", [False, True]):
        init = env.reals("init", n, lo=-4.0, hi=4.0)
        bounds = [(-3.5, 3.5 + i) for i in range(n)]
        return {"init_pars": list(init), "par_bounds": bounds}, init, bounds
    return {}, [1.0] * n, None


def problem(env, label, rec, n, nll, e, d, init, bounds, allow, held):
    """the recorded minimisation is that of the likelihood (e, d) with the options asked for"""
    probe = env.reals("probe_" + label, n, lo=-4.0, hi=4.0)
    got = rec["fun"](np.array(probe))
    env.eq(label + "-objective", got[0] if rec["jac"] is True else got, nll(probe, e, d))
    env.check(label + "-held", set(rec["held"]) == set(held), "wrong set of fixed parameters")
    start = list(init)
    for i, v in held.items():
        env.eq(label + "-held-value", rec["held"][i], v)
        start[i] = v
    for a, b in zip(rec["x0"], start):
        env.eq(label + "-start", a, b)
    if bounds is not None:
        for (a, b), (c, d_) in zip(rec["bounds"], bounds):
            env.eq(label + "-bounds", [a, b], [c, d_])
    elif 0 not in held:
        env.eq(label + "-signal-convention", rec["bounds"][0][0], MIN if allow else 0.0)
    else:
        lo, up = rec["bounds"][0]
        env.check(label + "-bounds-contain", env.And(lo <= held[0], held[0] <= up))


def given_data(env, n=2):
    """no data, an array, a list"""
    k = env.choice("data_kind", ["none", "array", "list"])
    if k == "none":
        return None
    v = env.reals("d", 2, lo=0.5, hi=9.0)
    return np.array(v) if k == "array" else list(v)


def result(env, got, want, nll=True):
    env.eq("value", got, want if nll else env.exp(-want))


def h_likelihood(env, n):
    m, log, nll, _ = setup(env, n)
    rec = stub_minimize(env)
    e = env.choice("expected", expectations(env))
    d = given_data(env)
    opts, init, bounds = options(env, n)
    mu = env.real("mu", lo=-3.0, hi=4.0)
    want_nll = env.choice("return_nll", [True, False])
    pars = env.choice("return_parameters", [False, True])
    got = m.likelihood(poi_test=mu, expected=e, data=d, return_nll=want_nll, return_parameters=pars, **log.kw, **opts)
    if n == 1 and not rec:
        x = [mu]
    else:
        env.check("one-fit", len(rec) == 1)
        problem(env, "fit", rec[0], n, nll, e, d, init, bounds, True, {0: mu})
        x = [rec[0]["held"].get(i) if i in rec[0]["held"] else env.real("min0_%d" % i, lo=-10.0, hi=10.0) for i in range(n)]
    if pars:
        got, p = got
        for a, b in zip(p, x):
            env.eq("parameters", a, b)
    result(env, got, nll(x, e, d), want_nll)


def h_maximize(env, n):
    m, log, nll, _ = setup(env, n)
    rec = stub_minimize(env)
    e = env.choice("expected", expectations(env))
    d = given_data(env)
    opts, init, bounds = options(env, n)
    allow = env.choice("allow_negative_signal", [True, False, None])
    kw = {} if allow is None else {"allow_negative_signal": allow}
    want_nll = env.choice("return_nll", [True, False])
    got = m.maximize_likelihood(expected=e, data=d, return_nll=want_nll, **log.kw, **kw, **opts)
    env.check("one-fit", len(rec) == 1)
    problem(env, "fit", rec[0], n, nll, e, d, init, bounds, allow is not False, {})
    x = [env.real("min0_%d" % i, lo=-10.0, hi=10.0) for i in range(n)]
    env.eq("muhat", got[0], x[0])
    result(env, got[1], nll(x, e, d), want_nll)


def asimov_fit(env, rec, n, nll, e, init, bounds, ts):
    held = {0: 1.0 if ts == "q0" else 0.0}
    problem(env, "asimov", rec, n, nll, e, None, init, bounds, ts in ("q", "qmu"), held)
    if bounds is None and ts != "q0":
        pass
    return [held.get(i, None) if i in held else env.real("min%d_%d" % (rec["index"], i), lo=-10.0, hi=10.0) for i in range(n)]


TS = ["qtilde", "q", "q0", "qmu", "qmutilde"]


def h_asimov_data(env, n):
    m, log, nll, mean = setup(env, n)
    rec = stub_minimize(env)
    e = env.choice("expected", expectations(env))
    ts = env.choice("test_statistic", TS)
    opts, init, bounds = options(env, n)
    got = m.generate_asimov_data(expected=e, test_statistic=ts, **log.kw, **opts)
    env.check("one-fit", len(rec) == 1)
    x = asimov_fit(env, rec[0], n, nll, e, init, bounds, ts)
    for a, b in zip(got, mean(x)):
        env.eq("expected-data", a, b)


def h_asimov_likelihood(env, n):
    m, log, nll, mean = setup(env, n)
    rec = stub_minimize(env)
    e = env.choice("expected", expectations(env))
    ts = env.choice("test_statistic", TS)
    opts, init, bounds = options(env, n)
    mu = env.real("mu", lo=-3.0, hi=4.0)
    want_nll = env.choice("return_nll", [True, False])
    got = m.asimov_likelihood(poi_test=mu, expected=e, test_statistics=ts, return_nll=want_nll, **log.kw, **opts)
    x = asimov_fit(env, rec[0], n, nll, e, init, bounds, ts)
    d = mean(x)
    if n == 1 and len(rec) == 1:
        y = [mu]
    else:
        problem(env, "fit", rec[1], n, nll, e, d, init, bounds, True, {0: mu})
        y = [mu] + [env.real("min1_%d" % i, lo=-10.0, hi=10.0) for i in range(1, n)]
    result(env, got, nll(y, e, d), want_nll)


def h_maximize_asimov(env, n):
    m, log, nll, mean = setup(env, n)
    rec = stub_minimize(env)
    e = env.choice("expected", expectations(env))
    ts = env.choice("test_statistic", TS)
    opts, init, bounds = options(env, n)
    want_nll = env.choice("return_nll", [True, False])
    got = m.maximize_asimov_likelihood(expected=e, test_statistics=ts, return_nll=want_nll, **log.kw, **opts)
    env.check("two-fits", len(rec) == 2)
    x = asimov_fit(env, rec[0], n, nll, e, init, bounds, ts)
    d = mean(x)
    problem(env, "fit", rec[1], n, nll, e, d, init, bounds, ts in ("q", "qmu"), {})
    y = [env.real("min1_%d" % i, lo=-10.0, hi=10.0) for i in range(n)]
    env.eq("muhat", got[0], y[0])
    result(env, got[1], nll(y, e, d), want_nll)


def h_shortcuts(env):
    """analytic implementations of the backend receive exactly the query"""
    SM = env.mod("spey.interface.statistical_model").StatisticalModel
    f, g, h, k = env.uf("nll"), env.uf("best"), env.uf("anll"), env.uf("abest")

    b, log = analytic_backend(
        env,
        nll=lambda mu, e, d: f(mu, tag(env, e), first(d)),
        mle=lambda e, allow, d: (g(tag(env, e), float(allow), first(d)), g(tag(env, e) + 10.0, float(allow), first(d))),
        anll=lambda mu, e, ts: h(mu, tag(env, e), tsfam(ts)),
        amle=lambda e, ts: (k(tag(env, e), tsfam(ts)), k(tag(env, e) + 10.0, tsfam(ts))),
    )
    m = SM(backend=b, analysis="a")
    stub_minimize(env)
    e = env.choice("expected", expectations(env))
    ts = env.choice("test_statistic", TS)
    allow = env.choice("allow", [True, False])
    mu = env.real("mu", lo=-3.0, hi=4.0)
    d = given_data(env)
    init, bounds = [2.0], [(-1.0, 3.0)]
    kw = {"init_pars": init, "par_bounds": bounds, "tol": 1e-3}
    opts = dict(kw)
    ll = env.choice("return_nll", [None, True, False])
    if ll is not None:
        kw["return_nll"] = ll
    out = (lambda v: env.exp(-v)) if ll is False else (lambda v: v)
    q = env.choice("query", ["likelihood", "maximize", "asimov", "maximize-asimov"])
    t, dv = tag(env, e), first(d)
    if q == "likelihood":
        env.eq("value", m.likelihood(poi_test=mu, expected=e, data=d, **kw), out(f(mu, t, dv)))
        c = log.of("nll")
        env.eq("poi", c[0]["poi"], mu)
    elif q == "maximize":
        got = m.maximize_likelihood(expected=e, data=d, allow_negative_signal=allow, **kw)
        env.eq("value", list(got), [g(t, float(allow), dv), out(g(t + 10.0, float(allow), dv))])
        c = log.of("mle")
    elif q == "asimov":
        env.eq("value", m.asimov_likelihood(poi_test=mu, expected=e, test_statistics=ts, **kw), out(h(mu, t, tsfam(ts))))
        c = log.of("anll")
    else:
        got = m.maximize_asimov_likelihood(expected=e, test_statistics=ts, **kw)
        env.eq("value", list(got), [k(t, tsfam(ts)), out(k(t + 10.0, tsfam(ts)))])
        c = log.of("amle")
    env.check("one-call", len(c) == 1)
    for name in ("init_pars", "par_bounds", "tol"):
        env.check("option-" + name, c[0]["kw"].get(name) == opts[name])


def h_conventions(env):
    """test statistic and calculator decide whether negative signal is allowed in every underlying query"""
    SM = env.mod("spey.interface.statistical_model").StatisticalModel
    vals = {}

    def u(name):
        return vals.setdefault(name, env.real(name, lo=-0.5, hi=3.0))

    b, log = analytic_backend(
        env,
        nll=lambda mu, e, d: 4.0 + mu * mu + tag(env, e),
        mle=lambda e, allow, d: (u("muhat"), 3.0 + tag(env, e)),
        anll=lambda mu, e, ts: 2.0 + mu * mu,
        amle=lambda e, ts: (0.0, 2.0),
        sampler=lambda pars: (lambda size: np.array([[10.0 * i + pars[0]] for i in range(1, size + 1)])),
    )
    m = SM(backend=b, analysis="a", ntoys=2)
    e = env.choice("expected", expectations(env))
    q = env.choice("query", ["cls", "cls-negative", "toy", "toy-negative", "chi_square", "chi_square-negative", "significance", "limit", "sigma-q", "sigma-qtilde"])
    mu = env.real("mu", lo=0.5, hi=2.0)
    neg = q.endswith("negative")
    opts = env.choice("options", [{}, {"init_pars": [0.5], "par_bounds": [(-4.0, 5.0)], "tol": 1e-3, "maxiter": 7}, {"init_pars": [0.5]}, {"par_bounds": [(-4.0, 5.0)]}])
    if q.startswith("sigma"):
        m.sigma_mu(mu, expected=e, test_statistics=q.split("-")[1], **opts)
        want_allow, want_ts = None, q.split("-")[1]
    elif q == "significance":
        m.significance(expected=e, **opts)
        want_allow, want_ts = False, "q0"
    elif q == "limit":
        from checks.common import stub_root_finders

        stub_root_finders(env)
        m.poi_upper_limit(expected=e, optimiser_arguments=opts)
        want_allow, want_ts = False, "qtilde"
    else:
        calc = {"cls": "asymptotic", "toy": "toy", "chi_": "chi_square"}[q[:4] if q[:3] == "chi" else q.split("-")[0]]
        m.exclusion_confidence_level(mu, expected=e, allow_negative_signal=neg, calculator=calc, verbose=False, **opts)
        want_allow, want_ts = neg, "q" if neg else "qtilde"
    for c in log.of("mle"):
        env.check("signal-convention", bool(c["allow"]) == want_allow)
    for c in log.of("amle") + log.of("anll"):
        env.check("test-statistic", tsfam(c["ts"]) == tsfam(want_ts))
    for name in ("nll", "mle", "anll", "amle"):
        for c in log.of(name):
            env.check("expectation", c["expected"] == e)
            for k, v in opts.items():
                env.check("forwards-options", c["kw"].get(k) == v, f"{k} did not reach {name}")
    toys = [c["data"] for c in log.of("mle") if c["data"] is not None]
    env.check("toy-data", len(toys) == (4 if q.startswith("toy") else 0))


NUMBERS = [True, np.int64(2), np.float32(1.5), np.array(1.5)]


def h_number_types(env):
    """a tested signal strength means the same whichever numeric type carries it"""
    SM = env.mod("spey.interface.statistical_model").StatisticalModel
    top = env.real("top", lo=41.0, hi=44.0)

    def build():
        b, _ = analytic_backend(
            env,
            nll=lambda mu, e, d: top + mu * mu + 0.01 * first(d),
            mle=lambda e, allow, d: (0.25, 39.0),
            anll=lambda mu, e, ts: top + 1.0 + mu * mu,
            amle=lambda e, ts: (0.0, 39.5),
            sampler=lambda pars: (lambda size: np.array([[10.0 * i + pars[0]] for i in range(1, size + 1)])),
        )
        return SM(backend=b, analysis="a", ntoys=2)

    q = env.choice("query", ["asymptotic", "chi_square", "toy", "likelihood", "asimov", "chi2", "sigma"])
    v = env.choice("number", NUMBERS)
    if q == "chi2" and isinstance(v, np.ndarray):
        v = 2
    m = build()
    stub_minimize(env, deterministic_answers(env, 1))

    def run(mu):
        if q in ("asymptotic", "chi_square", "toy"):
            return m.exclusion_confidence_level(mu, calculator=q, verbose=False)
        if q == "likelihood":
            return [m.likelihood(mu)]
        if q == "asimov":
            return [m.asimov_likelihood(mu)]
        return [m.chi2(mu)] if q == "chi2" else [m.sigma_mu(mu)]

    got, want = run(v), run(float(v))
    env.check("size", len(got) == len(want))
    for a, b in zip(got, want):
        env.eq("same-answer", a, b, tol=1e-9)


def h_builtin(env, which):
    """background-only expectation of a shipped model replaces the data by the background yields"""
    SM = env.mod("spey.interface.statistical_model").StatisticalModel
    sp = env.mod("spey.backends.default_pdf.simple_pdf")
    nb = 2
    s = env.reals("s", nb, lo=0.5, hi=4.0)
    b = env.reals("b", nb, lo=2.0, hi=9.0)
    d = env.reals("d", nb, lo=0.0, hi=12.0)
    g = env.reals("given", nb, lo=0.0, hi=12.0)
    mu = env.real("mu", lo=0.0, hi=3.0)
    sig = [0.5, 0.75]
    e = env.choice("expected", expectations(env))
    use = env.choice("explicit_data", [False, True])
    if which == "poisson":
        m = SM(backend=sp.Poisson(np.array(s), np.array(b), np.array(d)), analysis="a")
        term = lambda x, l: l - x * env.log(l) + env.gammaln(x + 1.0)
    else:
        m = SM(backend=sp.Gaussian(np.array(s), np.array(b), np.array(d), np.array(sig)), analysis="a")
        term = lambda x, l, i=0: 0.5 * ((x - l) / sig[i]) ** 2 + float(np.log(sig[i] * np.sqrt(2 * np.pi)))
    x = g if use else (b if str(e) == "apriori" else d)
    want = env.sum([term(x[i], b[i] + mu * s[i]) if which == "poisson" else term(x[i], b[i] + mu * s[i], i) for i in range(nb)])
    got = m.likelihood(poi_test=mu, expected=e, data=np.array(g) if use else None)
    env.eq("value", got, want, tol=1e-6)


def harnesses(tier):
    st = "scipy.optimize.minimize: any point reached; arbitrary likelihood and mean"
    hs = []
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
        for name, f in (("likelihood", h_likelihood), ("maximize", h_maximize), ("asimov-data", h_asimov_data), ("asimov-likelihood", h_asimov_likelihood), ("maximize-asimov", h_maximize_asimov)):
            hs.append(Harness("%s-%d" % (name, n), f, "%d parameters, arbitrary likelihood, any signal strength, data, start" % n, stubs=st, n=n))
    hs.append(Harness("shortcuts", h_shortcuts, "arbitrary analytic backend"))
    hs.append(Harness("conventions", h_conventions, "every hypothesis test, arbitrary fitted signal"))
    hs.append(Harness("number-types", h_number_types, "%d numeric types, parabola of any height" % len(NUMBERS)))
    hs.append(Harness("builtin-poisson", h_builtin, "2 bins, any yields", which="poisson"))
    hs.append(Harness("builtin-normal", h_builtin, "2 bins, any yields", which="normal"))
    return hs
