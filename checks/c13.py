"""C13: configurations and constraints of the built-in models."""
import numpy as np

from engine.env import Harness

from checks.c11 import build

NB3 = ("poisson", "normal", "uncorrelated")


def make(env, which, s, b, d, **kw):
    """(model, number of background nuisances)"""
    dp = env.mod("spey.backends.default_pdf")
    sp = env.mod("spey.backends.default_pdf.simple_pdf")
    nb = len(b)
    u = [0.5 + 0.25 * i for i in range(nb)]
    cov = np.diag(np.array(u) ** 2)
    b, d = np.array(b), np.array(d)
    if which == "poisson":
        return sp.Poisson(s, b, d), 0
    if which == "poisson-uncertainty":
        return sp.Poisson(s, b, d, u), nb
    if which == "normal":
        return sp.Gaussian(s, b, d, u, **kw), 0
    if which == "mvn":
        return sp.MultivariateNormal(s, b, d, cov, **kw), 0
    if which == "uncorrelated":
        return dp.UncorrelatedBackground(s, b, d, u, **kw), nb
    if which == "correlated":
        return dp.CorrelatedBackground(s, b, d, cov, **kw), nb
    if which == "third-moment":
        return dp.ThirdMomentExpansion(s, b, d, cov, [0.05 + 0.01 * i for i in range(nb)], **kw), nb
    return dp.EffectiveSigma(s, b, d, np.eye(nb), [(v, v + 0.1) for v in u], **kw), nb


MODELS = ("poisson", "poisson-uncertainty", "normal", "mvn", "uncorrelated", "correlated", "third-moment", "effective-sigma")


def reference_minimum(env, s, b):
    """minus the smallest ratio over bins with positive signal, None if there is none"""
    r = None
    for si, bi in zip(s, b):
        if bool(si > 0):
            q = bi / si
            r = q if r is None else env.ite(q < r, q, r)
    return None if r is None else -1.0 * r


def h_bounds(env, which, nb):
    s = env.reals("s", nb, lo=-3.0, hi=6.0)
    for v in s:
        env.assume(env.Or(v >= 0.05, v <= -0.05, v == 0.0))
    b = env.reals("b", nb, lo=0.0, hi=20.0)
    d = [3.0] * nb
    m, nn = make(env, which, np.array(s), b, d)
    ref = reference_minimum(env, s, b)
    env.check("alive", bool(m.is_alive) == (ref is not None))
    allow, given = env.choice("call", [(True, False), (True, True), (False, False), (False, True)])
    ub = env.real("upper", lo=0.5, hi=60.0) if given else 10.0
    c = m.config(allow, ub) if given else m.config(allow_negative_signal=allow)
    env.check("index", c.poi_index == 0)
    if ref is None:
        env.check("minimum", c.minimum_poi == -np.inf)
    else:
        env.eq("minimum", c.minimum_poi, ref)
        for si, bi in zip(s, b):
            env.le("physical", 0.0, bi + c.minimum_poi * si)
    lo, hi = c.suggested_bounds[0]
    if allow:
        env.check("lower", lo == -np.inf) if ref is None else env.eq("lower", lo, ref)
    else:
        env.eq("lower", lo, 0.0)
    env.eq("upper", hi, ub)
    n = 1 + nn
    env.check("sizes", c.npar == n and len(c.suggested_init) == n and len(c.suggested_bounds) == n)
    env.check("rest", all(tuple(x) == (None, None) for x in c.suggested_bounds[1:]))
    env.check("names", c.parameter_names is None or (len(c.parameter_names) == n and len(set(c.parameter_names)) == n))
    again = m.config()
    if ref is None:
        env.check("again", again.suggested_bounds[0][0] == -np.inf)
    else:
        env.eq("again", again.suggested_bounds[0][0], ref)
    env.eq("again", again.suggested_bounds[0][1], 10.0)
    if which in ("poisson", "normal", "mvn", "uncorrelated", "correlated") and ref is not None:
        ed = m.expected_data(np.array([c.minimum_poi] + [0.0] * nn))
        for i in range(nb):
            env.le("expected-yield", 0.0, ed[i])


def h_function(env, which):
    """signal given as a function, signal parameters with bounds"""
    nsp, kind = env.choice("setting", [(0, "none"), (1, "none"), (1, "given"), (2, "given"), (2, "some"), (2, "short"), (1, "long")])
    f = lambda p: np.array([1.0, 2.0])
    bs = [(env.real("lo%d" % i, lo=-5.0, hi=0.0), env.real("hi%d" % i, lo=1.0, hi=5.0)) for i in range(2)]
    arg = {"none": None, "given": bs[:nsp], "some": [None, bs[1]], "short": bs[:1], "long": bs}[kind]
    mk = lambda: make(env, which, f, [4.0, 5.0], [3.0, 6.0], n_signal_parameters=nsp, signal_parameter_bounds=arg)
    if kind in ("short", "long"):
        env.raises("bounds-length", ValueError, mk)
        return
    m, nn = mk()
    env.check("alive", bool(m.is_alive))
    allow, ub = env.choice("call", [(True, 10.0), (True, 3.0), (False, 10.0), (False, 4.5)])
    c = m.config(allow, ub)
    env.check("minimum", c.minimum_poi == -np.inf)
    env.check("signal-bound", tuple(c.suggested_bounds[0]) == ((-np.inf if allow else 0), ub))
    n = 1 + nsp + nn
    env.check("sizes", c.npar == n and len(c.suggested_bounds) == n and len(c.suggested_init) == n)
    want = {"none": [(None, None)] * nsp, "given": bs[:nsp], "some": [(None, None), bs[1]]}[kind] + [(None, None)] * nn
    for x, y in zip(c.suggested_bounds[1:], want):
        for v, w in zip(x, y):
            if w is None:
                env.check("open", v is None)
            else:
                env.eq("bound", v, w)
    if nsp:
        nm = c.parameter_names
        env.check("names", len(nm) == n and len(set(nm)) == n and nm[0] == "mu" and all("signal" in x for x in nm[1 : 1 + nsp]))


def h_modifiers(env):
    """signal uncertainties add parameters after the background's"""
    which = env.choice("model", ["uncorrelated", "correlated", "third-moment", "effective-sigma"])
    kinds = env.choice("types", [("normalization",), ("shape",), ("normalization", "shape"), ("shape", "normalization")])
    s = env.reals("s", 2, lo=0.5, hi=4.0)
    mods = [{"type": k, "name": "m%d" % i, "uncertainties": [s[0] * 0.1, s[1] * 0.2]} for i, k in enumerate(kinds)]
    m, nn = make(env, which, np.array(s), env.reals("b", 2, lo=0.5, hi=9.0), [3.0, 6.0], modifiers=mods)
    allow = env.choice("allow", [True, False])
    c = m.config(allow, env.choice("upper", [10.0, 4.0]))
    extra = sum(1 if k == "normalization" else 2 for k in kinds)
    n = 1 + nn + extra
    env.check("sizes", c.npar == n and len(c.suggested_bounds) == n and len(c.parameter_names) == n and len(set(c.parameter_names)) == n)
    env.check("order", c.parameter_names[0] == "mu" and all(x.startswith("theta_bkg") for x in c.parameter_names[1 : 1 + nn]) and not any(x.startswith("theta_bkg") for x in c.parameter_names[1 + nn :]))
    env.raises("function-and-modifiers", ValueError, lambda: make(env, which, lambda p: np.array([1.0, 1.0]), [4.0, 5.0], [3.0, 6.0], modifiers=mods))


def h_constraints(env, which, nb, sig):
    """the registered constraint is the background with its nuisance shift"""
    be, n, d, b, mean, logp, aux = build(env, which, nb, sig)
    p = env.reals("p", n, lo=-3.0, hi=3.0)
    want = mean([0.0] + list(p[1:]))
    env.check("one", len(be.constraints) == 1)
    c = be.constraints[0]
    env.eq("value", list(c.fun(np.array(p))), want, tol=2e-4 if which == "third-moment" else 1e-6)
    env.check("range", c.lb == 0.0 and c.ub == np.inf)
    be.get_objective_function(do_grad=False)
    be.config(False, 4.0)
    env.check("still-one", len(be.constraints) == 1)


def harnesses(tier):
    hs = []
    for w in MODELS:
        for nb in (1, 2) if tier == "quick" else ((1, 2, 3) if w in NB3 else (1, 2)):
            hs.append(Harness("bounds-%s-%d" % (w, nb), h_bounds, "%d bins, any yields and bounds" % nb, which=w, nb=nb))
        if not w.startswith("poisson"):
            hs.append(Harness("function-%s" % w, h_function, "up to 2 signal parameters with any bounds", which=w))
        if w not in ("poisson", "normal", "mvn"):
            for sig in ("array", "function") if w != "poisson-uncertainty" else ("array",):
                hs.append(Harness("constraint-%s-%s" % (w, sig), h_constraints, "2 bins, signal %s" % sig, which=w, nb=2, sig=sig))
    hs.append(Harness("modifiers", h_modifiers, "up to 2 modifiers, 2 bins"))
    return hs
