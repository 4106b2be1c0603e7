"""C23: contour points lie on the threshold and inside the bounds."""
import warnings
from math import log, sqrt
from statistics import NormalDist

import numpy as np

from engine.env import Harness

from checks.common import OptResult, RootResult, numeric_backend

NAMES = ["mu", "theta", "xi", "eta"]
# directions with exact norm
# almost parallel to one or the other bound
SHALLOW = [(20000.0 * 2, 399999999.0), (399999999.0, -20000.0 * 2), (-20000.0 * 2, -399999999.0), (-399999999.0, 20000.0 * 2)]
DIRS = {1: [(1.0,), (-2.0,)], 2: [(3.0, 4.0), (-5.0, 12.0), (-8.0, -15.0), (1.0, 0.0)]}
G2 = [[2.0, 0.6], [0.6, 1.0]]


def quantile(cl, k):
    """chi-squared quantile from its closed form"""
    return NormalDist().inv_cdf(0.5 * (1.0 + cl)) ** 2 if k == 1 else -2.0 * log(1.0 - cl)


class Rng:
    """generator stand-in: directions and uniform numbers are chosen by the solver"""

    def __init__(self, env, k, tag, ndirs):
        self.env, self.k, self.tag, self.n, self.ndirs = env, k, tag, 0, ndirs

    def _name(self, what):
        self.n += 1
        return f"{self.tag}_{what}{self.n}"

    def uniform(self, lo=0.0, hi=1.0, size=None):
        x = self.env.real(self._name("u"), lo=-60.0, hi=60.0)
        self.env.assume(self.env.And(x >= lo, x <= hi))
        return x

    def standard_normal(self, size=None):
        if isinstance(size, tuple):
            return np.array([self.standard_normal(size[1]) for _ in range(size[0])])
        return np.array(self.env.choice(self._name("dir"), SHALLOW if self.ndirs == "shallow" else DIRS[self.k][: self.ndirs]))

    def integers(self, *a, **k):
        return 7


def quiet(contour):
    """no progress bar"""


def stand_ins(env, k, ndirs, answer, hess=None):
    """random generator, gradient, minimiser and root finder"""
    made = []

    def default_rng(seed=None):
        made.append(seed)
        return Rng(env, k, "rng%d" % len(made), ndirs)

    env.stub("numpy.random", "default_rng", default_rng)
    rec = []

    def minimize(fun, x0, args=(), method=None, jac=None, hess=None, bounds=None, constraints=(), tol=None, options=None, **kw):
        r = dict(fun=fun, x0=list(x0), method=method, bounds=bounds, constraints=list(constraints), n=len(x0), index=len(rec))
        rec.append(r)
        x = np.array(answer(r), dtype=object) if any(env.is_sym(v) for v in answer(r)) else np.array(answer(r), dtype=float)
        f = fun(x)
        r["x"], r["f"] = list(x), f[0] if jac is True else f
        return OptResult(x, r["f"], True)

    env.stub("scipy.optimize", "minimize", minimize)
    roots = []

    def root_scalar(f, args=(), method=None, bracket=None, xtol=None, rtol=None, **kw):
        g = (lambda v: f(v, *args)) if args else f
        a, b = bracket[0], bracket[1]
        fa, fb = g(a), g(b)
        if (fa > 0) == (fb > 0):
            raise ValueError("f(a) and f(b) must have different signs")
        env.check("root-accuracy", xtol is None or xtol <= 1e-6)
        x = env.real("root%d" % len(roots), lo=0.0, hi=100.0)
        env.assume(env.And(x >= a, x <= b))
        env.near(g(x), 1e-9)
        roots.append((x, g))
        return RootResult(x)

    for n in ("toms748", "brentq", "root_scalar"):
        env.stub("scipy.optimize", n, root_scalar)
    env.stub("tqdm", "tqdm", lambda iterable=None, **kw: iterable)
    return rec, roots


def gradients(env, f=None, chosen=0):
    """gradient stand-in: an arbitrary function, one of a few vectors, or exact for a quadratic"""
    calls = []

    def grad(fun, argnum=0):
        def g(p, *a):
            n = len(p)
            if chosen:
                calls.append(n)
                return np.array(env.choice("gradient%d" % len(calls), [(1.0, 0.5), (-0.5, 2.0)][:chosen]) if len(calls) < 3 else (1.0, -0.25))
            if f is None:
                return np.array([env.uf("grad%d_%d" % (n, i))(*list(p)) for i in range(n)], dtype=object)
            out = []
            for i in range(n):
                up, dn = list(p), list(p)
                up[i], dn[i] = up[i] + 0.5, dn[i] - 0.5
                out.append(fun(np.array(up)) - fun(np.array(dn)))
            return np.array(out, dtype=object)

        return g

    env.stub("autograd", "grad", grad)


def bounded(env, label, pts, bounds):
    for p in pts:
        for x, (lo, hi) in zip(p, bounds):
            if lo is not None:
                env.le(label, lo, x, tol=1e-9)
            if hi is not None:
                env.le(label, x, hi, tol=1e-9)


def common(env, r, k, cl, idx, named):
    q = quantile(cl, k)
    env.eq("delta", r.delta, q, tol=1e-6)
    env.eq("threshold", r.threshold, r.nll_min + 0.5 * q, tol=1e-6)
    env.check("dof", r.dof == k)
    env.eq("level", r.confidence_level, cl)
    env.check("names", (r.parameter_names is None and not named) or list(r.parameter_names) == [NAMES[i] for i in idx])
    env.check("shape", np.shape(r.contour_points)[1:] == (k,) and len(r.from_radial) == len(r.contour_points))
    env.check("centre-shape", len(r.theta_mle) == k)


def h_arbitrary(env, k, n_radial, multistart, steps, ndirs, newton=1, levels=(0.95,), bracket=3.0, pois=(0, 1), fixed=False, ngrad=2, margin=0.25, G=G2):
    """arbitrary likelihood; every parameter but the POI is on the contour"""
    C = env.mod("spey.multiparameter.contour")
    SM = env.mod("spey.interface.statistical_model").StatisticalModel
    poi = env.choice("poi", list(pois))
    f = env.uf("nll")
    n = k + 1
    idx = [i for i in range(n) if i != poi]
    if fixed:
        lo, w = [-1.5] * k, [2.5] * k
    else:
        lo, w = env.reals("lo", k, lo=-4.0, hi=0.0), env.reals("w", k, lo=4.0, hi=9.0)
    bounds = [(lo[i], lo[i] + w[i]) for i in range(k)]
    kind = "one" if steps else env.choice("bounds", ["closed", "low", "up"]) if k == 1 and multistart == 1 else "closed"
    cb = [(None if kind == "up" else b[0], None if kind == "low" else b[1]) for b in bounds]
    if kind == "one":
        cb = [(None, bounds[0][1])] + [(None, None)] * (k - 1)
    allb = [(-5.0, 5.0) if i == poi else cb[idx.index(i)] for i in range(n)]
    given = env.bool("bounds_given") if k == 1 and multistart == 1 else False
    named = True

    def nll(p, e, d):
        return f(*list(p))

    hessian = -np.eye(n)
    for a, i in enumerate(idx):
        for b_, j in enumerate(idx):
            hessian[i, j] = -G[a][b_]
    b, log_ = numeric_backend(env, npar=n, poi=poi, names=NAMES[:n], bounds=allb, init=[0.5] * n, nll=nll, hessian=lambda e, d: (lambda p: hessian))

    memo = {}

    def answer(r):
        i = r["index"]
        if i not in memo:
            xs = env.reals("fit%d" % i, k, lo=-4.0, hi=9.0)
            if steps:
                xs = [0.0] * k
            for x, (lo_, hi_) in zip(xs, bounds):
                env.assume(env.And(x >= lo_ + margin, x <= hi_ - margin))
            memo[i] = xs
        xs = list(memo[i])
        if r["n"] == n:  # the fit of the full model, POI held at one
            xs = xs[: poi] + [1.0] + xs[poi:]
        return xs

    rec, roots = stand_ins(env, k, ndirs, answer)
    gradients(env, chosen=ngrad if steps > 0 else 0)
    m = SM(backend=b, analysis="a")
    cl = env.choice("level", list(levels))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = C.find_contour(
            m,
            confidence_level=cl,
            n_radial=n_radial,
            n_hmc_chains=1 if steps else 0,
            n_hmc_steps=steps,
            n_gap_candidates=1,
            max_radial_bracket=bracket,
            newton_max_iter=newton,
            n_jobs=1,
            bounds=[tuple(x) for x in cb] if given else None,
            n_coverage_passes=1,
            n_multistart=multistart,
        )
    common(env, r, k, cl, idx, named)

    def full(p):
        p = list(p)
        return f(*(p[:poi] + [1.0] + p[poi:]))

    # the deepest of everything the minimiser reported
    env.check("starts", len(rec) == multistart, f"{len(rec)} minimisations for {multistart} starts")
    vals = [full(memo[i]) for i in range(len(rec))]
    for v in vals:
        env.le("deepest", r.nll_min, v, tol=1e-9)
    env.check("is-a-minimum", env.Or(*[r.nll_min == v for v in vals]) if len(vals) > 1 else r.nll_min == vals[0])
    env.eq("centre-value", full(r.theta_mle), r.nll_min)
    thr = r.nll_min + 0.5 * quantile(cl, k)
    for p in r.contour_points:
        res = full(p) - thr
        acc = 1e-6 * env.ite(abs(thr) > 1.0, abs(thr), 1.0) + 1e-7
        env.check("on-the-contour", env.And(res <= acc, res >= -1.0 * acc), "a reported point is off the threshold")
    bounded(env, "inside-bounds", r.contour_points, cb)
    for p in r.contour_points:
        env.observe("point", list(p))


def h_quadratic(env, k, ndirs):
    """exact paraboloid: the search runs in coordinates in which it is a sphere"""
    C = env.mod("spey.multiparameter.contour")
    SM = env.mod("spey.interface.statistical_model").StatisticalModel
    c = env.reals("c", k, lo=-2.0, hi=2.0)
    n = k + 1
    G = [r[:k] for r in G2[:k]]
    f0 = env.real("f0", lo=-5.0, hi=5.0)

    def quad(p):
        d = [p[i] - c[i] for i in range(k)]
        return f0 + 0.5 * env.sum([G[i][j] * d[i] * d[j] for i in range(k) for j in range(k)])

    nll = lambda p, e, d: quad(list(p)[1:]) + 1.5 * (p[0] - 1.0) * (p[0] - 1.0)
    H = np.zeros((n, n))
    H[0, 0] = -3.0
    H[1:, 1:] = -np.array(G)
    lim = 20.0
    b, _ = numeric_backend(env, npar=n, poi=0, names=NAMES[:n], bounds=[(-5.0, 5.0)] + [(-lim, lim)] * k, init=[0.5] * n, nll=nll, hessian=lambda e, d: (lambda p: H))
    rec, roots = stand_ins(env, k, ndirs, lambda r: [1.0] + list(c) if r["n"] == n else list(c))
    gradients(env, quad)
    m = SM(backend=b, analysis="a")
    cl = env.choice("level", [0.68, 0.95, 0.99])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = C.find_contour(m, confidence_level=cl, n_radial=2, n_hmc_chains=0, n_hmc_steps=0, n_gap_candidates=1, n_jobs=1, n_coverage_passes=1, n_multistart=1)
    common(env, r, k, cl, list(range(1, n)), True)
    env.check("every-direction", len(r.contour_points) == 2, f"{len(r.contour_points)} of 2 directions found")
    env.eq("minimum", r.nll_min, f0)
    env.eq("centre", list(r.theta_mle), list(c))
    for p in r.contour_points:
        env.eq("on-the-ellipse", 2.0 * (quad(p) - f0), quantile(cl, k), tol=1e-5)
    t = env.real("t", lo=0.0, hi=4.0)
    for x, g in roots:
        env.eq("sphere", g(t) - g(0.0), 0.5 * t * t, tol=1e-6)


def h_profiled(env, k, npro, constraint):
    """parameters that are not on the contour are profiled"""
    C = env.mod("spey.multiparameter.contour")
    SM = env.mod("spey.interface.statistical_model").StatisticalModel
    n = 1 + k + npro
    a = [2.0, 1.0][:k]
    bq = [4.0, 0.5][:npro]
    c, h, s = env.reals("c", k, lo=-1.0, hi=1.0), env.reals("h", npro, lo=-1.0, hi=1.0), env.reals("s", npro, lo=-2.0, hi=2.0)
    order = env.choice("order", ["contour-first", "contour-last"])
    free = list(range(1, n))
    ci = free[:k] if order == "contour-first" else free[npro:]
    pi = [i for i in free if i not in ci]

    def nll(p, e, d):
        p = list(p)
        v = 3.0 + 7.0 * (p[0] - 1.0) * (p[0] - 1.0)
        for j, i in enumerate(ci):
            v = v + 0.5 * a[j] * (p[i] - c[j]) * (p[i] - c[j])
        for j, i in enumerate(pi):
            t = p[i] - h[j] - s[j] * (p[ci[0]] - c[0])
            v = v + 0.5 * bq[j] * t * t
        return v

    H = -np.eye(n) * 2.0
    for j, i in enumerate(ci):
        H[i, i] = -a[j]
    hooks = {}
    if constraint:
        from scipy.optimize import NonlinearConstraint

        seen = []

        def far(p):
            seen.append(len(p))
            return np.array([100.0 + 0.0 * p[i] for i in range(n)])

        hooks["constraints"] = [NonlinearConstraint(far, 0.0, np.inf)] if constraint == "object" else [{"type": "ineq", "fun": far}]
    lim = 20.0
    named = env.bool("named")
    b, _ = numeric_backend(env, npar=n, poi=0, names=NAMES[:n] if named else None, bounds=[(-5.0, 5.0)] + [(-lim, lim)] * (n - 1), init=[0.5] * n, nll=nll, hessian=lambda e, d: (lambda p: H), **hooks)

    def answer(r):
        if r["n"] == n:  # full model at POI one
            x = [1.0] * n
            for j, i in enumerate(ci):
                x[i] = c[j]
            for j, i in enumerate(pi):
                x[i] = h[j]
            return x
        if "ask" not in r:
            # exact minimum of the given quadratic, one coordinate at a time (it is separable)
            f = r["fun"]
            z = [0.0] * r["n"]
            f0 = f(np.array(z))
            out = []
            for j in range(r["n"]):
                up, dn = list(z), list(z)
                up[j], dn[j] = 1.0, -1.0
                fu, fd = f(np.array(up)), f(np.array(dn))
                out.append(-0.5 * (fu - fd) / bq[j] if r["n"] == npro else c[j])
            for con in r["constraints"]:
                g = con["fun"] if isinstance(con, dict) else con.fun
                env.check("constraint-full-size", len(g(np.array(z))) == n, "constraint evaluated on an incomplete parameter vector")
            r["ask"] = out
        return r["ask"]

    rec, roots = stand_ins(env, k, 2, answer)
    gradients(env)
    m = SM(backend=b, analysis="a")
    cl = env.choice("level", [0.68, 0.95])
    # naming a parameter twice, or the signal strength, changes nothing
    req = list(ci) + env.choice("request", [[], [0], [ci[0]]])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = C.find_contour(m, confidence_level=cl, poi_indices=req[::-1], n_radial=1, n_hmc_chains=0, n_hmc_steps=0, n_gap_candidates=1, n_jobs=1, n_coverage_passes=1, n_multistart=1)
    common(env, r, k, cl, ci, named)
    env.eq("minimum", r.nll_min, 3.0)
    env.eq("centre", list(r.theta_mle), list(c))
    env.check("found", len(r.contour_points) == 1)
    for p in r.contour_points:
        env.eq("profiled-threshold", env.sum([a[j] * (p[j] - c[j]) * (p[j] - c[j]) for j in range(k)]), quantile(cl, k), tol=1e-5)


def h_refused(env):
    C = env.mod("spey.multiparameter.contour")
    SM = env.mod("spey.interface.statistical_model").StatisticalModel
    b, _ = numeric_backend(env, npar=2, nll=lambda p, e, d: 0.5 * p[1] * p[1] + p[0] * p[0])
    m = SM(backend=b, analysis="a")
    rec, _ = stand_ins(env, 1, 2, lambda r: [0.0] * r["n"])
    what = env.choice("what", ["level", "bounds", "no-parameter"])
    if what == "level":
        cl = env.real("cl", lo=-3.0, hi=4.0)
        env.assume(env.Or(cl <= 0.0, cl >= 1.0))
        env.raises("level", ValueError, lambda: C.find_contour(m, confidence_level=cl))
    elif what == "bounds":
        k = env.choice("n", [0, 2, 3])
        env.raises("bounds", ValueError, lambda: C.find_contour(m, bounds=[(-1.0, 1.0)] * k))
    else:
        env.raises("no-parameter", ValueError, lambda: C.find_contour(m, poi_indices=[0]))


def harnesses(tier):
    st = "minimiser: any point inside the bounds; root finder: its contract; gradient: arbitrary function; random directions and starts chosen by the solver"
    hs = [
        Harness("ray-1", h_arbitrary, "1 contour parameter, any likelihood and bounds, 1 ray, bracket up to 3", stubs=st, k=1, n_radial=1, multistart=1, steps=0, ndirs=2, max_paths=3000),
        Harness("ray-2", h_arbitrary, "2 contour parameters, any likelihood and bounds, 1 ray, bracket up to 3", stubs=st, k=2, n_radial=1, multistart=1, steps=0, ndirs=1, max_paths=3000),
        Harness("shallow-2", h_arbitrary, "2 contour parameters, fit up to the bounds, 1 ray almost parallel to one of them", stubs=st, k=2, n_radial=1, multistart=1, steps=0, ndirs="shallow", max_paths=3000, pois=(0,), margin=0.0, G=[[1.0, 0.0], [0.0, 1.0]]),
        Harness("starts-1", h_arbitrary, "1 contour parameter, 2 starts, 1 ray, one bracket", stubs=st, k=1, n_radial=1, multistart=2, steps=0, ndirs=1, max_paths=3000, pois=(0,), bracket=1.75, fixed=True),
        Harness("walk", h_arbitrary, "2 contour parameters, 1 ray, 1 chain of 1 step, gradients from a few vectors", stubs=st, k=2, n_radial=1, multistart=1, steps=1, ndirs=1, max_paths=3000, pois=(0,), levels=(0.68,), bracket=1.75, fixed=True, ngrad=1),
    ]
    if tier != "quick":
        hs += [
            Harness("rays-1-deep", h_arbitrary, "1 contour parameter, 2 rays, bracket up to 8", stubs=st, k=1, n_radial=2, multistart=1, steps=0, ndirs=2, max_paths=20000, levels=(0.68, 0.95), bracket=8.0, budget_s=1200),
            Harness("rays-2-deep", h_arbitrary, "2 contour parameters, 1 ray, bracket up to 8", stubs=st, k=2, n_radial=1, multistart=1, steps=0, ndirs=4, max_paths=20000, levels=(0.68, 0.95), bracket=8.0, pois=(0, 1, 2), budget_s=1200),
            Harness("starts-3", h_arbitrary, "1 contour parameter, 3 starts, 1 ray", stubs=st, k=1, n_radial=1, multistart=3, steps=0, ndirs=1, max_paths=20000, pois=(0,), budget_s=1200),
            Harness("walk-1", h_arbitrary, "2 contour parameters, 1 chain of 1 step, gradients from two vectors", stubs=st, k=2, n_radial=1, multistart=1, steps=1, ndirs=1, max_paths=20000, pois=(0,), levels=(0.68,), bracket=1.75, fixed=True, budget_s=1200),
            Harness("walk-2", h_arbitrary, "2 contour parameters, 1 chain of 2 steps with 2 Newton iterations", stubs=st, k=2, n_radial=1, multistart=1, steps=2, ndirs=1, max_paths=20000, pois=(0,), newton=2, fixed=True, bracket=1.75, levels=(0.68,), budget_s=1200),
        ]
    for k in (1, 2):
        hs.append(Harness(f"quadratic-{k}", h_quadratic, f"{k} contour parameters, exact paraboloid with any centre, 2 rays", stubs=st, k=k, ndirs=2 if tier == "quick" else 4))
    for k, p, c in ((1, 1, None), (1, 1, "object"), (1, 1, "dict"), (2, 1, None), (1, 2, None)):
        hs.append(Harness(f"profiled-{k}-{p}-{c}", h_profiled, f"{k} contour and {p} profiled parameters, exact paraboloid, any centre and coupling", stubs=st.replace("minimiser: any point inside the bounds", "minimiser: exact minimum of the quadratic it is given"), k=k, npro=p, constraint=c))
    hs.append(Harness("refused", h_refused, "invalid levels, bounds and parameter lists", stubs=st))
    return hs
