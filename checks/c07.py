"""C07: chi2 and pull."""
import numpy as np

from engine.env import Harness

from checks.common import analytic_backend, expectations, numeric_backend, stub_minimize, tag


def model(env, one=True):
    """likelihood: arbitrary function of the tested value, per expectation and signal convention"""
    SM = env.mod("spey.interface.statistical_model").StatisticalModel
    fs = {}
    got = {}

    def nll(p, e, d):
        return fs.setdefault(str(e), env.uf("nll_" + str(e)))(p)

    def mle(e, allow, d):
        k = (str(e), bool(allow))
        return got.setdefault(k, (env.real("muhat_%s_%d" % (k[0], k[1]), lo=-9.0, hi=9.0), env.real("min_%s_%d" % (k[0], k[1]), lo=-50.0, hi=50.0)))

    b, log = analytic_backend(env, nll=nll, mle=mle)
    return SM(backend=b, analysis="a"), log, nll, mle


def bounded(env, *vs):
    for v in vs:
        env.assume(env.And(v >= -50.0, v <= 50.0))


OPTS = [(None, None), ([1.0], [(-3.0, 3.0)])]


def h_scalar(env):
    m, log, nll, mle = model(env)
    e = env.choice("expected", expectations(env))
    allow = env.bool("allow")
    mu = env.real("mu", lo=-9.0, hi=9.0)
    den = env.choice("denominator", ["fit", "value"])
    init, bounds = env.choice("options", OPTS)
    kw = dict(expected=e, allow_negative_signal=allow, init_pars=init, par_bounds=bounds)
    kw["mle_kwargs"] = {"tol": 1e-3}
    kw["likelihood_kwargs"] = {"maxiter": 7}
    if den == "value":
        a = env.real("alternative", lo=-9.0, hi=9.0)
        kw["poi_test_denominator"] = a
        ref = nll(a, e, None)
    else:
        ref = mle(e, allow, None)[1]
    bounded(env, nll(mu, e, None), ref)
    got = m.chi2(poi_test=mu, **kw)
    env.eq("twice-nll-difference", got, 2.0 * (nll(mu, e, None) - ref))
    env.check("expectation", all(c["expected"] == e for c in log.of("nll") + log.of("mle")))
    env.check("signal-convention", all(c["allow"] == allow for c in log.of("mle")))
    n = len(log.of("nll"))
    env.check("fits-needed", (len(log.of("mle")) == 1) == (den == "fit") and n == (1 if den == "fit" else 2))
    for c in log.of("mle"):
        env.check("forwards-to-fit", c["kw"].get("init_pars") == init and c["kw"].get("par_bounds") == bounds and c["kw"].get("tol") == 1e-3)
    for c in log.of("nll"):
        env.check("forwards-to-likelihood", c["kw"].get("init_pars") == init and c["kw"].get("par_bounds") == bounds)
    env.check("forwards-options", "maxiter" in log.of("nll")[-1]["kw"] and log.of("nll")[-1]["kw"]["maxiter"] == 7)
    if den == "value":
        env.check("forwards-options", log.of("nll")[0]["kw"].get("tol") == 1e-3)


def h_list(env):
    m, log, nll, mle = model(env)
    e = env.choice("expected", expectations(env))
    n = env.choice("n", [1, 2, 3])
    mus = env.reals("mu", n, lo=-9.0, hi=9.0)
    kind = env.choice("kind", ["list", "tuple", "array"])
    what = env.choice("what", ["chi2-fit", "chi2-value", "pull"])
    arg = {"list": list, "tuple": tuple, "array": np.array}[kind](mus)
    vals = [nll(p, e, None) for p in mus]
    bounded(env, *vals)
    before = list(mus)
    opts = {"init_pars": [1.0], "par_bounds": [(-3.0, 3.0)], "mle_kwargs": {"tol": 1e-3}, "likelihood_kwargs": {"maxiter": 7}}
    if what == "pull":
        muhat, ref = mle(e, True, None)
        for p, v in zip(mus, vals):
            env.assume(env.And(v >= ref, env.Or(p - muhat > 1e-3, muhat - p > 1e-3)))
        got = m.pull(poi_test=arg, expected=e)
        want = [env.ite(muhat > p, 1.0, -1.0) * env.sqrt(2.0 * (v - ref)) for p, v in zip(mus, vals)]
    elif what == "chi2-value":
        got = m.chi2(poi_test=arg, poi_test_denominator=0.0, expected=e, **opts)
        ref = nll(0.0, e, None)
        want = [2.0 * (v - ref) for v in vals]
    else:
        got = m.chi2(poi_test=arg, expected=e, **opts)
        ref = mle(e, False, None)[1]
        want = [2.0 * (v - ref) for v in vals]
    env.check("one-value-per-point", len(got) == n)
    for g, w in zip(got, want):
        env.eq("element-by-element", g, w)
    env.check("argument-unchanged", len(arg) == n)
    for a, c in zip(arg, before):
        env.eq("argument-unchanged", a, c)
    if what != "pull":
        for c in log.of("mle") + log.of("nll"):
            mine = c in log.of("mle") or (what == "chi2-value" and c is log.of("nll")[0])
            env.check("forwards-options", c["kw"].get("init_pars") == [1.0] and c["kw"].get("par_bounds") == [(-3.0, 3.0)])
            env.check("forwards-options", c["kw"].get("tol") == 1e-3 if mine else c["kw"].get("maxiter") == 7)
    env.check("one-reference", len(log.of("mle")) == (0 if what == "chi2-value" else 1))


def h_pull(env):
    m, log, nll, mle = model(env)
    e = env.choice("expected", expectations(env))
    allow = env.bool("allow")
    mu = env.real("mu", lo=-9.0, hi=9.0)
    muhat, ref = mle(e, allow, None)
    v = nll(mu, e, None)
    bounded(env, v)
    env.assume(v >= ref)
    env.assume(env.Or(mu == muhat, mu - muhat > 1e-3, muhat - mu > 1e-3))
    got = m.pull(poi_test=mu, expected=e, allow_negative_signal=allow, tol=1e-3)
    s = env.sqrt(2.0 * (v - ref))
    env.eq("signed-root", got, env.ite(muhat > mu, s, env.ite(muhat < mu, -s, 0.0)))
    c2 = m.chi2(poi_test=mu, expected=e, allow_negative_signal=allow)
    if muhat != mu:
        env.eq("squares-to-chi2", got * got, c2, tol=1e-5)
    env.check("forwards-options", all(c["kw"].get("tol") == 1e-3 for c in log.of("mle")[:1] + log.of("nll")[:1]))


def h_scan(env):
    """one scanned and one held parameter, by name or index, on a model that is fitted numerically"""
    SM = env.mod("spey.interface.statistical_model").StatisticalModel
    X = NotImplementedError
    f = env.uf("nll")
    fb = env.uf("nllb")

    def nll(p, e, d):
        return (f if str(e) != "apriori" else fb)(*p)

    b, log = numeric_backend(env, npar=3, names=["mu", "t1", "t2"], nll=nll)
    m = SM(backend=b, analysis="a")
    free = {"t2": env.real("t2hat", lo=-5.0, hi=5.0)}
    fits = [env.real("fit%d" % i, lo=-5.0, hi=5.0) for i in range(3)]

    def answer(rec):
        if not rec["held"]:
            return list(fits)
        return [rec["held"].get(i, free["t2"]) for i in range(3)]

    recs = stub_minimize(env, answer)
    e = env.choice("expected", expectations(env)[::2])
    n = env.choice("n", [1, 2, 3])
    which = env.choice("keys", [("mu", "t1"), (0, "t1"), ("t1", 0), (1, 0)])
    pts = env.reals("p", n, lo=-5.0, hi=5.0)
    fixed = env.real("fixed", lo=-5.0, hi=5.0)
    kind = env.choice("kind", ["list", "array"])
    arg = {which[0]: list(pts) if kind == "list" else np.array(pts), which[1]: fixed}
    idx = [{"mu": 0, "t1": 1}.get(w, w) for w in which]

    def value(p):
        x = [None, None, free["t2"]]
        x[idx[0]], x[idx[1]] = p, fixed
        return nll(x, e, None)

    bounded(env, *[value(p) for p in pts], nll(fits, e, None))
    opts = env.choice("options", [False, True])
    kw = {}
    if opts:
        kw = {"init_pars": [0.5, 0.25, -0.25], "par_bounds": [(-6.0, 6.0), (-7.0, 7.0), (-8.0, 8.0)], "mle_kwargs": {"tol": 1e-3, "maxiter": 11}, "likelihood_kwargs": {"tol": 1e-4, "maxiter": 22}}
        # each of them also without the other
        if which[1] == 0:
            del kw["init_pars" if which[0] == 1 else "par_bounds"]
    got = m.chi2(poi_test=arg, expected=e, **kw)
    if opts:
        env.check("fits", len(recs) == n + 1)
        for r in recs:
            tol, it = (1e-4, 22) if r["held"] else (1e-3, 11)
            env.check("forwards-options", r["tol"] == tol and r["options"].get("maxiter") == it, f"fit {r['index']} ran with tol {r['tol']}, options {r['options']}")
            if "par_bounds" in kw:
                env.check("forwards-bounds", [tuple(x) for x in r["bounds"]] == kw["par_bounds"])
            for i in range(3) if "init_pars" in kw else []:
                env.eq("forwards-start", r["x0"][i], r["held"].get(i, kw["init_pars"][i]))
    ref = nll(fits, e, None)
    env.check("one-value-per-point", len(got) == n)
    for p, g in zip(pts, got):
        env.eq("element-by-element", g, 2.0 * (value(p) - ref))
    env.check("argument-unchanged", list(arg) == list(which) and len(arg[which[0]]) == n)
    for a, p in zip(arg[which[0]], pts):
        env.eq("argument-unchanged", a, p)
    env.eq("argument-unchanged", arg[which[1]], fixed)
    env.raises("one-scan-only", X, lambda: m.chi2(poi_test={"mu": [1.0, 2.0], "t1": [0.0, 1.0]}, expected=e))
    # a point given as a dictionary of numbers is a single value
    one = m.chi2(poi_test={which[0]: pts[0], which[1]: fixed}, expected=e)
    env.check("single-value", np.ndim(one) == 0)
    env.eq("single-value", one, 2.0 * (value(pts[0]) - ref))


def harnesses(tier):
    return [
        Harness("scalar", h_scalar, "all values and likelihoods bounded by 50; every expectation, convention and denominator"),
        Harness("list", h_list, "lists, tuples and arrays of 1 to 3 values"),
        Harness("pull", h_pull, "tested value equal to or at least 1e-3 away from the fit"),
        Harness("scan", h_scan, "3 parameters, scans of 1 to 3 points over either parameter", stubs="scipy.optimize.minimize: arbitrary point respecting the pinned parameters"),
    ]
