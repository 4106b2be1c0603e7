"""C09: queries are independent of each other and leave model and arguments alone."""
import numpy as np

from engine.env import Harness

from checks.common import deterministic_answers, expectations, first, numeric_backend, stub_minimize

QUERIES = ["likelihood", "likelihood-data", "maximize", "maximize-data", "maximize-several", "asimov-data", "asimov-likelihood", "maximize-asimov", "sampler", "config", "chi2", "sigma"]


def numeric(env, n=2):
    SM = env.mod("spey.interface.statistical_model").StatisticalModel
    f = {}

    def nll(p, e, d):
        if d is None:
            return f.setdefault(str(e), env.uf("nll_" + str(e)))(*p)
        return f.setdefault("data", env.uf("nll_data"))(*p, *d[:2])

    def build():
        b, log = numeric_backend(
            env,
            npar=n,
            names=["mu", "theta"][:n],
            nll=nll,
            expected_data=lambda p: np.array([p[0] + p[1], p[0] - p[1]]),
            sampler=lambda p: (lambda size: np.array([[p[0] + i, p[1] - i] for i in range(size)])),
            hessian=lambda e, d: (lambda p: -np.array([[2.0 + p[0] * p[0], 0.5], [0.5, 1.0 + p[1] * p[1]]])),
        )
        return SM(backend=b, analysis="a"), log

    return build, 2


def builtin(env, which, sym=False):
    """models shipped with the package; data (and for some all yields) symbolic"""
    SM = env.mod("spey.interface.statistical_model").StatisticalModel
    dp = env.mod("spey.backends.default_pdf")
    sp = env.mod("spey.backends.default_pdf.simple_pdf")
    d = env.real("data", lo=1.0, hi=12.0)
    s, b, u = 1.5, 6.0, 0.5
    if sym or which == "normal":
        s = env.real("signal", lo=0.5, hi=4.0)
        b = env.real("background", lo=2.0, hi=9.0)
        u = env.real("uncertainty", lo=0.2, hi=1.0)
    if which == "uncorrelated":
        return (lambda: (SM(backend=dp.UncorrelatedBackground([s], [b], [d], [u]), analysis="a"), None)), 2
    if which == "normal":
        return (lambda: (SM(backend=sp.Gaussian([s], [b], [d], [u]), analysis="a"), None)), 1
    if which == "mvn":
        return (lambda: (SM(backend=sp.MultivariateNormal([s, 1.0], [b, 3.0], [d, 2.0], [[2.0, 0.5], [0.5, 1.0]]), analysis="a"), None)), 1
    if which == "correlated":
        return (lambda: (SM(backend=dp.CorrelatedBackground([s], [b], [d], [[u * u]]), analysis="a"), None)), 2


def query(env, m, q, a, npar):
    """runs one query with the arguments a; returns a flat list of numbers"""
    e, mu, opts = a["e"], a["mu"], a["opts"]
    kw = dict(opts, do_grad=False)
    if q == "likelihood":
        v, x = m.likelihood(poi_test=mu, expected=e, return_parameters=True, **kw)
        return [v, *x], x
    if q == "likelihood-data":
        return [m.likelihood(poi_test=mu, expected=e, data=a["data"], **kw)], None
    if q == "maximize":
        return list(m.maximize_likelihood(expected=e, allow_negative_signal=a["allow"], **kw)), None
    if q == "maximize-data":
        return list(m.maximize_likelihood(expected=e, data=a["data"], **kw)), None
    if q == "maximize-several":
        r = m.maximize_likelihood(expected=e, poi_indices=list(range(npar)), **kw)
        return [r[1], *r[0].values()], r[0]
    if q == "asimov-data":
        d = m.generate_asimov_data(expected=e, test_statistic=a["ts"], **kw)
        return list(d), d
    if q == "asimov-likelihood":
        return [m.asimov_likelihood(poi_test=mu, expected=e, test_statistics=a["ts"], **kw)], None
    if q == "maximize-asimov":
        return list(m.maximize_asimov_likelihood(expected=e, test_statistics=a["ts"], **kw)), None
    if q == "config":
        c = m.config(allow_negative_signal=a["allow"])
        return [c.poi_index, c.minimum_poi, *c.suggested_init, *[v for bb in c.suggested_bounds for v in bb if v is not None]], None
    if q == "chi2":
        k = {key: v for key, v in opts.items() if key in ("init_pars", "par_bounds")}
        return [m.chi2(poi_test=mu, expected=e, mle_kwargs={"do_grad": False}, likelihood_kwargs={"do_grad": False}, **k)], None
    if q == "sampler":
        s = m.fixed_poi_sampler(mu, size=2, expected=e, **kw)
        return list(np.ravel(s)), s
    if q == "sigma":
        return [m.sigma_mu_from_hessian(mu, expected=e, **kw)], None
    raise KeyError(q)


def spoil(x):
    """a caller scribbling over a returned value"""
    if isinstance(x, dict):
        for k in x:
            x[k] = 99.0
    elif isinstance(x, (list, np.ndarray)):
        for i in range(len(x)):
            x[i] = x[i] * 0 + 99.0


def config_numbers(m):
    out = []
    for allow in (True, False):
        c = m.config(allow_negative_signal=allow)
        out += [c.poi_index, c.minimum_poi, *c.suggested_init, *[0.0 if v is None else v for bb in c.suggested_bounds for v in bb]]
    return out


def h_pair(env, make, q1s, q2s, arg=None):
    build, npar = make(env) if arg is None else make(env, arg)
    answer = deterministic_answers(env, npar)
    stub_minimize(env, answer)
    E = expectations(env)
    q1, q2 = env.choice("first", q1s), env.choice("second", q2s)
    mu = env.real("mu", lo=-1.0, hi=4.0)
    nu = env.real("nu", lo=-1.0, hi=4.0)
    dlen = 2
    data = np.array(env.reals("d", dlen, lo=1.0, hi=9.0))
    init = [1.5] * npar
    bounds = [(-3.0, 3.0)] * npar
    same = env.choice("same_arguments", [True, False])
    a2 = {"e": E[0], "mu": mu, "allow": True, "data": data, "ts": "qtilde", "opts": {}}
    a1 = dict(a2) if same else dict(a2, e=env.choice("other_expectation", [E[0], E[2]]), mu=nu, allow=False, data=data * 2.0, ts="q", opts={"init_pars": init, "par_bounds": bounds})
    used, _ = build()
    fresh, _ = build()
    before = config_numbers(used)
    keep = [list(v) for v in (a1["data"], a2["data"])]
    _, ret = query(env, used, q1, a1, npar)
    spoil(ret)
    got, _ = query(env, used, q2, a2, npar)
    want, _ = query(env, fresh, q2, a2, npar)
    env.check("same-shape", len(got) == len(want))
    for g, w in zip(got, want):
        env.eq("same-answer-as-fresh", g, w)
    after = config_numbers(used)
    env.check("config-unchanged", len(before) == len(after))
    for x, y in zip(before, after):
        env.eq("config-unchanged", x, y)
    for k, v in zip(keep, (a1["data"], a2["data"])):
        for x, y in zip(k, v):
            env.eq("data-unchanged", x, y)
    env.check("arguments-unchanged", init == [1.5] * npar and bounds == [(-3.0, 3.0)] * npar)


def h_mutate_argument(env):
    """changing an argument in place between two calls counts as a different argument"""
    build, npar = numeric(env)
    stub_minimize(env, deterministic_answers(env, npar))
    used, _ = build()
    fresh, _ = build()
    data = np.array(env.reals("d", 2, lo=1.0, hi=9.0))
    new = env.reals("n", 2, lo=1.0, hi=9.0)
    used.maximize_likelihood(data=data, do_grad=False)
    for i in range(2):
        data[i] = new[i]
    got = used.maximize_likelihood(data=data, do_grad=False)
    want = fresh.maximize_likelihood(data=np.array(new), do_grad=False)
    env.eq("uses-current-data", list(got), list(want))


def h_triple(env):
    """three cached queries in a row, with failures in between"""
    build, npar = numeric(env)
    stub_minimize(env, deterministic_answers(env, npar))
    used, _ = build()
    fresh, _ = build()
    E = expectations(env)
    ts = [env.choice("ts%d" % i, ["q", "qtilde", "q0"]) for i in range(3)]
    es = [env.choice("e%d" % i, [E[0], E[2]]) for i in range(2)]
    used.generate_asimov_data(expected=es[0], test_statistic=ts[0], do_grad=False)
    used.maximize_asimov_likelihood(expected=es[1], test_statistics=ts[1], do_grad=False)
    got = used.generate_asimov_data(expected=es[0], test_statistic=ts[2], do_grad=False)
    want = fresh.generate_asimov_data(expected=es[0], test_statistic=ts[2], do_grad=False)
    env.eq("same-answer-as-fresh", list(got), list(want))
    got = used.maximize_asimov_likelihood(expected=es[0], test_statistics=ts[2], do_grad=False)
    want = fresh.maximize_asimov_likelihood(expected=es[0], test_statistics=ts[2], do_grad=False)
    env.eq("same-answer-as-fresh", list(got), list(want))


def harnesses(tier):
    st = "scipy.optimize.minimize: arbitrary function of the problem (objective, start, bounds, held values)"
    hs = []
    for i in range(0, len(QUERIES), 3):
        hs.append(Harness("numeric-%s" % "-".join(q[:6] for q in QUERIES[i : i + 3]), h_pair, "2 parameters, arbitrary likelihoods; this first query, then each other", stubs=st, make=numeric, q1s=QUERIES[i : i + 3], q2s=QUERIES))
    b = [q for q in QUERIES if q not in ("sampler", "sigma")]
    some = ["likelihood", "maximize", "asimov-data", "likelihood-data"] if tier == "quick" else b
    for w in ("uncorrelated", "normal", "mvn", "correlated"):
        hs.append(Harness("builtin-" + w, h_pair, "built-in model with symbolic yields, pairs of queries", stubs=st, make=builtin, q1s=some, q2s=some, arg=w))
    hs.append(Harness("mutated-argument", h_mutate_argument, "data changed in place between calls", stubs=st))
    hs.append(Harness("triple", h_triple, "sequences of three Asimov queries", stubs=st))
    return hs
