"""C29: fits over several named parameters."""
import numpy as np

from engine.env import Harness

from checks.common import analytic_backend, deterministic_answers, expectations, numeric_backend, stub_minimize, tag

NAMES = ["mu", "theta", "xi", "eta", "zeta", "psi"]


def setup(env, npar, named=True, poi=None, simple=False):
    SM = env.mod("spey.interface.statistical_model").StatisticalModel
    poi = env.int("poi", 0, npar - 1) if poi is None else poi
    f = env.uf("nll")
    pad = [0.0] * (max(4, npar) - npar)
    nll = lambda p, e, d: f(*list(p), *pad, tag(env, e))
    b, log = numeric_backend(env, npar=npar, poi=poi, names=NAMES[:npar] if named else None, nll=nll, expected_data=lambda p: [p[0]])
    rec = stub_minimize(env, deterministic_answers(env, npar))
    return SM(backend=b, analysis="a"), poi, rec, nll


def key(i, style):
    return NAMES[i] if style == "name" else (np.int64(i) if style == "numpy" else i)


def h_fit(env, npar, asimov=False):
    """one number per requested key, from the same minimum as the plain fit"""
    m, poi, rec, nll = setup(env, npar, poi=None if not asimov else 0)
    e = env.choice("expected", [None] + expectations(env)[:: (2 if asimov else 1)])
    kw = {} if e is None else {"expected": e}
    if asimov:
        kw["test_statistics"] = env.choice("statistic", ["qtilde", "q", "q0"])
    allow = True
    if not asimov:
        allow = env.bool("allow")
        kw["allow_negative_signal"] = allow
        if env.bool("as_likelihood"):
            # small numbers keep exp() apart from rounding
            kw["return_nll"] = False
    first, second = env.choice("keys", [(0, None), (npar - 1, None), (0, npar - 1), (npar - 1, 0), (1, 0)])
    styles = env.choice("style", ["name", "index", "mixed", "numpy"])
    keys = [key(first, "name" if styles in ("name", "mixed") else styles)]
    want = [first]
    if second is not None:
        keys.append(key(second, "index" if styles == "mixed" else styles))
        want.append(second)
    fit = m.maximize_asimov_likelihood if asimov else m.maximize_likelihood
    got, val = fit(poi_indices=list(keys), **kw)
    last = rec[-1]
    env.check("keys", list(got) == keys, f"keys {list(got)} instead of {keys}")
    for k, i in zip(keys, want):
        env.eq("own-value", got[k], last["x"][i])
    plain, pval = fit(**kw)
    env.eq("same-minimum", pval, val)
    env.eq("plain-value", plain, last["x"][poi])
    if poi in want:
        env.eq("agrees-with-plain", got[keys[want.index(poi)]], plain)
    if not asimov and not kw.get("return_nll", True) is False:
        env.eq("value-is-nll", val, nll(last["x"], expectations(env)[0] if e is None else e, None))


def h_held(env, npar, what):
    """several tested parameters are held at their own values, the rest is profiled"""
    m, poi, rec, nll = setup(env, npar)
    e = env.choice("expected", expectations(env)[::2])
    v = env.reals("v", npar, lo=-4.0, hi=4.0)
    sets = [(0,), (npar - 1,), (0, 1), (1, 0), tuple(range(npar))[::-1]]
    which = env.choice("which", sets[: 4 if npar == 2 else 5])
    style = env.choice("style", ["name", "index", "mixed"])
    arg = {key(i, "name" if style == "name" or (style == "mixed" and n == 0) else "index"): v[i] for n, i in enumerate(which)}
    keep = dict(arg)
    val, pars = None, None
    if what == "likelihood":
        val, pars = m.likelihood(poi_test=arg, expected=e, return_parameters=True)
    elif what == "fit":
        got, val = m.maximize_likelihood(expected=e, fixed_poi_value=arg, poi_indices=list(range(npar)))
        pars = [got[i] for i in range(npar)]
    env.check("argument-kept", list(arg) == list(keep))
    last = rec[-1]
    env.check("held-exactly", sorted(last["held"]) == sorted(which), f"held {sorted(last['held'])}, tested {sorted(which)}")
    env.check("length", len(pars) == npar)
    for i in range(npar):
        if i in which:
            env.eq("held-at-own-value", last["held"][i], v[i])
            env.eq("reported-own-value", pars[i], v[i])
        else:
            env.eq("profiled", pars[i], last["x"][i])
    env.eq("value", val, nll(last["x"], e, None))


def h_equivalent(env, npar):
    """the same request by name, by index and as plain number"""
    m, poi, rec, nll = setup(env, npar)
    v = env.reals("v", npar, lo=-4.0, hi=4.0)
    i = env.int("i", 0, npar - 1)
    ll = env.bool("as_likelihood")
    kw = {"return_nll": not ll}
    a = m.likelihood(poi_test={NAMES[i]: v[i]}, **kw)
    b = m.likelihood(poi_test={i: v[i]}, **kw)
    env.eq("name-and-index", a, b)
    if i == poi:
        env.eq("plain", m.likelihood(poi_test=v[i], **kw), a)
    j = (i + 1) % npar
    c = m.likelihood(poi_test={NAMES[i]: v[i], j: v[j]}, **kw)
    d = m.likelihood(poi_test={j: v[j], NAMES[i]: v[i]}, **kw)
    env.eq("order", c, d)
    n0 = len(rec)
    c2 = m.likelihood(poi_test={i: v[i], NAMES[j]: v[j]}, **kw)
    env.eq("styles", c, c2)


def h_distinct(env):
    """a second request with other values or keys is not answered with the first one"""
    m, poi, rec, nll = setup(env, 3, poi=0)
    v = env.reals("v", 2, lo=-4.0, hi=4.0)
    w = env.reals("w", 2, lo=-4.0, hi=4.0)
    ks = [("theta", "xi"), ("theta", "mu"), (1, 2), (0, 1)]
    k1, k2 = env.choice("first", ks), env.choice("second", ks)
    idx = lambda k: NAMES.index(k) if isinstance(k, str) else k
    for ks_, x in ((k1, v), (k2, w)):
        val, pars = m.likelihood(poi_test={ks_[0]: x[0], ks_[1]: x[1]}, return_parameters=True)
        env.eq("own-value-0", pars[idx(ks_[0])], x[0])
        env.eq("own-value-1", pars[idx(ks_[1])], x[1])
    a = m.maximize_likelihood(poi_indices=list(k1))
    b = m.maximize_likelihood(poi_indices=list(k2))
    env.check("own-keys", list(a[0]) == list(k1) and list(b[0]) == list(k2))
    x = rec[-1]["x"]
    for r, k in ((a, k1), (b, k2)):
        for q in k:
            env.eq("own-fit-value", r[0][q], x[idx(q)])


def h_many(env, npar):
    """long requests in any order: every key has its own value"""
    m, poi, rec, nll = setup(env, npar)
    rot = env.int("rotation", 0, npar - 1)
    step = env.choice("step", [1, -1])
    n = env.int("keys", 3, npar)
    want = [(rot + step * i) % npar for i in range(n)]
    style = env.choice("style", ["name", "index", "mixed"])
    keys = [key(i, "name" if style == "name" or (style == "mixed" and j % 2) else "index") for j, i in enumerate(want)]
    if env.bool("held"):
        v = env.reals("v", 2, lo=-4.0, hi=4.0)
        hold = {keys[0]: v[0], keys[-1]: v[1]}
        got, val = m.maximize_likelihood(fixed_poi_value=hold, poi_indices=list(keys))
        env.eq("held", got[keys[0]], v[0])
        env.eq("held", got[keys[-1]], v[1])
    else:
        got, val = m.maximize_likelihood(poi_indices=list(keys))
    env.check("keys", list(got) == keys)
    x = rec[-1]["x"]
    for k, i in zip(keys, want):
        env.eq("own-value", got[k], x[i])
    env.eq("value-is-nll", val, nll(x, expectations(env)[0], None))


def h_combiner(env):
    """the combination has one parameter; every key names it"""
    SM = env.mod("spey.interface.statistical_model").StatisticalModel
    UC = env.mod("spey").UnCorrStatisticsCombiner
    f = env.uf("nll")
    ms = []
    for k in range(2):
        b, _ = analytic_backend(env, nll=lambda p, e, d, k=k: f(p, float(k), tag(env, e)), mle=lambda e, a, d, k=k: (0.5 + k, 1.0))
        ms.append(SM(backend=b, analysis="m%d" % k))
    rec = stub_minimize(env, deterministic_answers(env, 1))
    c = UC(*ms)
    keys = env.choice("keys", [[0], ["mu"], [0, "mu"]])
    got, val = c.maximize_likelihood(poi_indices=keys)
    plain, pval = c.maximize_likelihood()
    env.check("keys", list(got) == keys)
    env.eq("same-minimum", val, pval)
    for k in keys:
        env.eq("own-value", got[k], plain)


def harnesses(tier):
    st = "minimiser is an arbitrary function of its problem"
    hs = []
    for n in (2, 3) if tier == "quick" else (2, 3, 4):
        hs.append(Harness(f"fit-{n}", h_fit, f"{n} parameters, every POI, up to 2 requested keys", stubs=st, npar=n, max_paths=4000))
        for w in ("likelihood", "fit"):
            hs.append(Harness(f"held-{w}-{n}", h_held, f"{n} parameters, 1 to {n} tested values", stubs=st, npar=n, what=w, max_paths=4000))
        hs.append(Harness(f"equivalent-{n}", h_equivalent, f"{n} parameters", stubs=st, npar=n))
    for n in (5,) if tier == "quick" else (5, 6):
        hs.append(Harness(f"many-{n}", h_many, f"{n} parameters, 3 to {n} requested keys in either direction", stubs=st, npar=n, max_paths=4000))
    hs.append(Harness("asimov-2", h_fit, "2 parameters, Asimov fit", stubs=st, npar=2, asimov=True))
    hs.append(Harness("distinct", h_distinct, "3 parameters, two requests", stubs=st))
    hs.append(Harness("combiner", h_combiner, "two one-parameter members", stubs=st))
    return hs
