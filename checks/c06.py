"""C06: chi-square intervals."""
from scipy.stats import chi2 as _chi2

from engine.env import Harness

from checks.common import analytic_backend, expectations, numeric_backend, stub_minimize, stub_root_finders, tag

LEVELS = (0.68, 0.9, 0.95)


def stub_minimize_scalar(env):
    """bounded 1-d minimisation: any point of the interval, with the value there"""
    n = [0]

    def minimize_scalar(fun, bracket=None, bounds=None, args=(), method=None, tol=None, options=None):
        x = env.real("scalarmin%d" % n[0])
        n[0] += 1
        env.assume(env.And(x >= bounds[0], x <= bounds[1]))

        class R:
            pass

        r = R()
        r.x, r.fun, r.success = x, fun(x), True
        return r

    env.stub("scipy.optimize", "minimize_scalar", minimize_scalar)


def profile(env, x, at, k, thr):
    """convex profile (twice the rise over its minimum), reaching thr at 1/k on each side"""
    return env.ite(x >= at, thr * k[1] * (x - at), thr * k[0] * (at - x))


def h_poi(env, limit, regime, only=None):
    SM = env.mod("spey.interface.statistical_model").StatisticalModel
    E = expectations(env)
    cases = [(None, 0.95, E[0], 0.3), (None, 0.68, E[2], 1.5), (True, 0.9, E[1], 0.3), (False, 0.95, E[0], 0.3), (False, 0.68, E[2], 1.5)]
    allow, level, e, sigma = env.choice("case", [cases[i] for i in only])
    neg = limit != "right" or allow is True
    thr = float(_chi2.isf(1.0 - level, 1))
    span = max(6.0 * sigma, 3.0)
    mn = env.real("min", lo=-20.0, hi=20.0)
    at = env.real("muhat", lo=-2.0 if neg else 0.0, hi=4.0)
    k = []
    for side in (0, 1):
        if regime == "near":
            k.append(env.real("k%d" % side, lo=1.1 / span, hi=6.0))
        elif regime == "far":
            k.append(env.real("k%d" % side, lo=0.02, hi=0.9 / span))
        else:
            k.append(0.0)
    f = lambda p, ex, d: mn + 0.5 * profile(env, p, at, k, thr)  # noqa: E731
    b, log = analytic_backend(env, nll=f, mle=lambda ex, al, d: (at, mn))
    m = SM(backend=b, analysis="a")
    env.stub("spey.base.hypotest_base", "HypothesisTestingBase.sigma_mu", lambda self, *a, **kw: sigma)
    stub_root_finders(env)
    stub_minimize_scalar(env)
    got = m.chi2_test(expected=e, confidence_level=level, limit_type=limit, allow_negative_signal=allow)
    env.check("fit-signal-convention", all(c["allow"] == neg for c in log.of("mle")))
    env.check("fit-expectation", all(c["expected"] == e for c in log.of("mle") + log.of("nll")))
    env.check("number-of-ends", len(got) == (2 if limit == "two-sided" else 1))
    sides = {"left": [0], "right": [1], "two-sided": [0, 1]}[limit]
    for s, x in zip(sides, got):
        if regime == "flat":
            env.check("edge-when-never-crossing", x == (1e5 if s else -1e5))
            continue
        rise = 2.0 * (f(x, e, None) - mn)
        env.eq("twice-rise-is-threshold", rise, thr, tol=1e-5)
        env.check("requested-side", x > at if s else x < at)


def h_scan(env):
    """arbitrary (also multi-modal) curves: every reported crossing is one, in increasing order"""
    U = env.mod("spey.base.utils")
    f = env.uf("f")
    lo = env.choice("lo", [-1.0, 0.0])
    hi = env.choice("hi", [1.0, 3.0])
    n = env.choice("n", [2, 3, 4])
    used = stub_root_finders(env)
    got = U._enumerate_crossings_1d(f, lo, hi, n_scan=n)
    for i, x in enumerate(used):
        for g in [lo + (hi - lo) * i / 12 for i in range(13)] + used[:i]:
            env.assume(env.Or(x - g > 1e-6, g - x > 1e-6))
    env.check("all-inside", all(x >= lo for x in got) and all(x <= hi for x in got))
    for x in got:
        env.eq("is-crossing", f(x), 0.0, tol=1e-5)
    for x, y in zip(got, got[1:]):
        env.check("increasing", x < y)
    grid = [lo + (hi - lo) * i / (max(n, 3) - 1) for i in range(max(n, 3))]
    for a, c in zip(grid, grid[1:]):
        fa, fc = f(a), f(c)
        if fa * fc < 0:
            env.check("no-sign-change-missed", env.Or(*[env.And(x > a - 1e-6, x < c + 1e-6) for x in got]) if got else False)


def h_refine(env):
    """the anchor is never above the fit or any scanned point, and is attained"""
    U = env.mod("spey.base.utils")
    f = env.uf("f")
    ref = env.real("reference", lo=-3.0, hi=3.0)
    n = env.choice("n", [2, 3])
    lo, hi = -4.0, 4.0
    m0 = f(ref)
    stub_minimize_scalar(env)
    val, arg = U._refine_global_min_1d(f, m0, ref, lo, hi, n_samples=n)
    env.eq("attained", f(arg), val, tol=1e-6)
    env.le("not-above-fit", val, m0)
    for i in range(n):
        env.le("not-above-scan", val, f(lo + (hi - lo) * i / (n - 1)), tol=1e-6)
    env.check("inside", env.Or(arg == ref, env.And(arg >= lo, arg <= hi)))


def h_reanchor(env):
    """a fit stuck in a local minimum: the interval is built around the deeper minimum"""
    SM = env.mod("spey.interface.statistical_model").StatisticalModel
    level = 0.95
    thr = float(_chi2.isf(0.05, 1))
    at = env.real("muhat", lo=-1.0, hi=1.0)
    depth = env.real("depth", lo=2.5, hi=6.0)
    # second valley whose bottom is the lower end of the scan or next to it
    second = at - 3.0

    def f(p, ex=None, d=None):
        a = 4.0 * env.ite(p >= at, p - at, at - p)
        c = 4.0 * env.ite(p >= second, p - second, second - p) - depth
        return env.ite(a <= c, a, c)

    b, log = analytic_backend(env, nll=f, mle=lambda ex, al, d: (at, 0.0))
    m = SM(backend=b, analysis="a")
    env.stub("spey.base.hypotest_base", "HypothesisTestingBase.sigma_mu", lambda self, *a, **kw: 1.0)
    stub_root_finders(env)
    stub_minimize_scalar(env)
    got = m.chi2_test(confidence_level=level, n_multistart=5, n_scan=5)
    lowest = -depth
    for x in got:
        env.eq("measured-from-deepest", 2.0 * (f(x) - lowest), thr, tol=1e-4)
    env.check("both-sides", got[0] < second and got[-1] > second)


def h_nuisance(env, limit, regime, only=(1, 2)):
    """two-parameter model without shortcuts"""
    SM = env.mod("spey.interface.statistical_model").StatisticalModel
    E = expectations(env)
    # signal position, signal value, key, bounds, level, expectation, correlation
    cases = [
        (0, 1.0, "index", (-5.0, 5.0), 0.95, E[0], 0.0),
        (1, 0.3, "name", (0.0, 4.0), 0.9, E[2], 0.5),
        (1, 1.0, "name", (-5.0, 5.0), 0.95, E[1], 0.5),
        (0, 1.0, "index", (0.0, 4.0), 0.68, E[0], 0.5),
        (0, None, "name", (-5.0, 5.0), 0.95, E[0], 0.5),
        (0, 0.3, "index", (None, None), 0.95, E[2], 0.0),
    ]
    poi, mu, key, (lo, hi), level, e, slope = env.choice("case", [cases[i] for i in only])
    nui = 1 - poi
    thr = float(_chi2.isf(1.0 - level, 1))
    L, H = (-1e5 if lo is None else lo), (1e5 if hi is None else hi)
    at = env.real("theta_hat", lo=max(L, -1.9), hi=min(H, 1.9))
    if regime != "edge":
        env.assume(env.And(at >= L + 0.2, at <= H - 0.2))
    mn = env.real("min", lo=-20.0, hi=20.0)
    k = [env.real("k%d" % s, lo=0.2 if regime == "near" else 1e-3, hi=4.0) for s in (0, 1)]
    if regime == "near":
        # crossings inside the bounds
        if lo is not None:
            env.assume(env.And(k[0] * (at - L) >= 1.01, k[1] * (H - at) >= 1.01))
    else:
        # crossings outside the bounds
        env.assume(env.And(k[0] * (at - L) <= 0.99, k[1] * (H - at) <= 0.99))

    def f(p, ex=None, d=None):
        shift = slope * (p[poi] - (1.0 if mu is None else mu))
        return mn + 0.5 * profile(env, p[nui], at + shift, k, thr) + (0.0 if mu is not None else 0.25 * (p[poi] - 1.0) * (p[poi] - 1.0))

    names = ["mu", "theta"] if poi == 0 else ["theta", "mu"]
    bounds = [None, None]
    bounds[poi], bounds[nui] = (-10.0, 10.0), (lo, hi)
    b, log = numeric_backend(env, poi=poi, names=names, bounds=bounds, nll=f)

    def answer(rec):
        x = [None, None]
        h = rec["held"]
        x[poi] = h.get(poi, 1.0)
        x[nui] = h.get(nui, at + slope * (x[poi] - (1.0 if mu is None else mu)))
        return x

    recs = stub_minimize(env, answer)
    m = SM(backend=b, analysis="a")
    stub_root_finders(env)
    stub_minimize_scalar(env)
    got = m.chi2_test(expected=e, confidence_level=level, limit_type=limit, parameter=nui if key == "index" else "theta", poi_value=mu)
    env.check("number-of-ends", len(got) == (2 if limit == "two-sided" else 1))
    sides = {"left": [0], "right": [1], "two-sided": [0, 1]}[limit]
    held = set() if mu is None else {poi}
    env.check("profile-holds-signal", all(set(r["held"]) in (held, held | {nui}) for r in recs))
    for r in recs:
        if mu is not None:
            env.check("signal-value", r["held"][poi] == mu)
    env.check("expectation", all(c["expected"] == e for c in log.of("objective") + log.of("logpdf")))
    for s, x in zip(sides, got):
        env.check("inside-bounds", x >= L and x <= H)
        if regime == "near":
            y = [1.0 if mu is None else mu] * 2
            y[nui] = x
            env.eq("twice-rise-is-threshold", 2.0 * (f(y) - mn), thr, tol=1e-5)
            env.check("requested-side", x > at if s else x < at)
        else:
            env.check("edge-of-bounds", x == (H if s else L))


def harnesses(tier):
    root = "root finders: any point of the bracket with |f|<=1e-7; 1-d minimiser: any point of its interval; sigma_mu fixed numbers"
    hs = []
    for lim in ("left", "right", "two-sided"):
        some = {"quick": (0, 2, 4), "thorough": (0, 1, 2, 3, 4)}[tier] if lim == "right" else (0, 1)
        for i in some:
            hs.append(Harness(f"poi-{lim}-near-{i}", h_poi, "convex piecewise-linear profiles crossing inside the first scan, muhat in [-2,4]", stubs=root, limit=lim, regime="near", only=(i,)))
        for i in (0, 2) if lim == "right" else (0,):
            hs.append(Harness(f"poi-{lim}-far-{i}", h_poi, "crossings at distance 1.1 to 16 spans (extended scans)", stubs=root, limit=lim, regime="far", only=(i,)))
        hs.append(Harness(f"poi-{lim}-flat", h_poi, "flat profiles: no crossing", stubs=root, limit=lim, regime="flat", only=(0, 2) if lim == "right" else (0,)))
        st = root + "; scipy.optimize.minimize: exact minimum of the given profile"
        bd = "two parameters, either order, by index or name, crossings %s the bounds; minimiser exact for the profile"
        hs.append(Harness(f"nuisance-{lim}-edge", h_nuisance, bd % "outside", stubs=st, limit=lim, regime="edge"))
        near = {"left": (0, 1), "right": (2, 3), "two-sided": (1, 4, 5)}[lim]
        for i in near if tier == "quick" else range(6):
            hs.append(Harness(f"nuisance-{lim}-near-{i}", h_nuisance, bd % "inside", stubs=st, limit=lim, regime="near", only=(i,)))
    hs.append(Harness("scan", h_scan, "arbitrary functions, 3 or 4 scan points", stubs=root))
    hs.append(Harness("refine", h_refine, "arbitrary functions, 2 or 3 samples", stubs=root))
    hs.append(Harness("reanchor", h_reanchor, "two V-shaped valleys, the fit in the shallower one", stubs=root))
    return hs
