"""C27: log-densities of the distributions are the documented ones."""
import numpy as np

from engine.env import Harness

LOG2PI = float(np.log(2.0 * np.pi))


def norm_term(env, x, m, s):
    return -0.5 * ((x - m) / s) ** 2 - env.log(s) - 0.5 * LOG2PI


def mvn2(env, x, m, c):
    """two dimensional normal density, written out"""
    det = c[0][0] * c[1][1] - c[0][1] * c[1][0]
    u, v = x[0] - m[0], x[1] - m[1]
    q = (c[1][1] * u * u - (c[0][1] + c[1][0]) * u * v + c[0][0] * v * v) / det
    return -0.5 * q - LOG2PI - 0.5 * env.log(det)


def cov2(env, name="c"):
    a, b = env.real(name + "_aa", lo=0.3, hi=9.0), env.real(name + "_bb", lo=0.3, hi=9.0)
    o = env.real(name + "_ab", lo=-5.0, hi=5.0)
    env.assume(a * b - o * o >= 0.05)
    return [[a, o], [o, b]]


def domains(n):
    """domains of two parameters out of n"""
    return [slice(0, 2), slice(1, 3), slice(n - 2, n), [0, n - 1], [n - 1, 1]]


def pick(x, dom, n):
    return [x[i] for i in (range(n)[dom] if isinstance(dom, slice) else dom)]


def h_poisson(env, n):
    P = env.mod("spey.backends.distributions").Poisson
    loc = env.reals("loc", n, lo=0.01, hi=50.0)
    kind = env.choice("kind", ["float", "int", "scalar"])
    if kind == "int":
        val = [env.choice("count%d" % i, [0, 1, 4]) for i in range(n)]
        arg = np.array(val)
    else:
        val = env.reals("value", n, lo=0.0, hi=60.0)
        arg = np.array(val)
    if kind == "scalar":
        d = P(loc[0])
        got = [d.log_prob(val[0])]
        env.eq("expected", d.expected_data(), loc[0])
        loc, val = loc[:1], val[:1]
    else:
        d = P(np.array(loc))
        got = d.log_prob(arg)
        env.eq("expected", list(d.expected_data()), loc)
    env.check("length", len(got) == len(loc))
    for g, v, l in zip(got, val, loc):
        env.eq("log-density", g, v * env.log(l) - l - env.gammaln(v + 1.0), tol=1e-7)


def h_normal(env, n):
    N = env.mod("spey.backends.distributions").Normal
    dom = env.choice("domain", [None] + domains(n))
    k = n if dom is None else 2
    x = env.reals("x", n, lo=-9.0, hi=9.0)
    m = env.reals("m", k, lo=-5.0, hi=5.0)
    s = env.reals("s", k, lo=0.2, hi=5.0)
    fun = env.choice("callable_scale", [False, True])
    kw = {} if dom is None else {"domain": np.array(dom) if isinstance(dom, list) else dom}
    scale = (lambda p: np.array(s) + 0.1 * p * p) if fun else np.array(s)
    d = N(np.array(m), scale, **kw)
    y = x if dom is None else pick(x, dom, n)
    got = d.log_prob(np.array(x))
    env.check("length", len(got) == k)
    for i in range(k):
        sc = s[i] + 0.1 * y[i] * y[i] if fun else s[i]
        env.eq("log-density", got[i], norm_term(env, y[i], m[i], sc), tol=1e-7)
    env.eq("expected", list(d.expected_data()), m)


def h_mvn(env, n):
    M = env.mod("spey.backends.distributions").MultivariateNormal
    dom = env.choice("domain", domains(n) if n > 2 else [None])
    fun = env.choice("callable_covariance", [False, True])
    x = env.reals("x", n, lo=-9.0, hi=9.0)
    m = env.reals("m", 2, lo=-5.0, hi=5.0)
    c = cov2(env)
    y = x if dom is None else pick(x, dom, n)
    kw = {} if dom is None else {"domain": np.array(dom) if isinstance(dom, list) else dom}
    cov = (lambda p: np.array(c) + np.diag(p * p)) if fun else np.array(c)
    d = M(np.array(m), cov, **kw)
    if fun:  # follows from the assumption on c
        env.assume((c[0][0] + y[0] * y[0]) * (c[1][1] + y[1] * y[1]) - c[0][1] * c[1][0] > 0.01)
    got = d.log_prob(np.array(x))
    if fun:
        c = [[c[0][0] + y[0] * y[0], c[0][1]], [c[1][0], c[1][1] + y[1] * y[1]]]
    env.eq("log-density", got, mvn2(env, y, m, c), tol=1e-7)
    env.eq("expected", list(d.expected_data()), m)


def h_mvn3(env):
    """three dimensional, concrete covariance, symbolic point"""
    M = env.mod("spey.backends.distributions").MultivariateNormal
    c = np.array([[2.0, 0.5, -0.3], [0.5, 1.5, 0.25], [-0.3, 0.25, 0.8]])
    x = env.reals("x", 3, lo=-9.0, hi=9.0)
    m = env.reals("m", 3, lo=-5.0, hi=5.0)
    ic = np.linalg.inv(c)
    want = -0.5 * env.sum([(x[i] - m[i]) * float(ic[i][j]) * (x[j] - m[j]) for i in range(3) for j in range(3)]) - 1.5 * LOG2PI - 0.5 * float(np.log(np.linalg.det(c)))
    env.eq("log-density", M(np.array(m), c).log_prob(np.array(x)), want, tol=1e-7)


def h_main(env):
    D = env.mod("spey.backends.distributions")
    kind = env.choice("type", ["poiss", "normal", "normal-callable", "multivariate_normal", "mvn-callable"])
    p = env.reals("p", 2, lo=0.1, hi=3.0)
    q = env.reals("q", 2, lo=0.1, hi=3.0)
    a = env.reals("a", 2, lo=1.0, hi=5.0)
    x = env.reals("x", 2, lo=0.0, hi=9.0)

    def loc(r):
        return np.array(a) * r[0] + r[1]

    mean = lambda r: [a[i] * r[0] + r[1] for i in range(2)]
    if kind == "poiss":
        mm = D.MainModel(loc)
        want = lambda r: env.sum([x[i] * env.log(mean(r)[i]) - mean(r)[i] - env.gammaln(x[i] + 1.0) for i in range(2)])
    elif kind.startswith("normal"):
        s = env.reals("s", 2, lo=0.2, hi=5.0)
        fun = kind.endswith("callable")
        mm = D.MainModel(loc, cov=(lambda r: np.array(s) + r[0]) if fun else np.array(s), pdf_type="normal")
        want = lambda r: env.sum([norm_term(env, x[i], mean(r)[i], s[i] + r[0] if fun else s[i]) for i in range(2)])
    else:
        c = cov2(env)
        fun = kind.endswith("callable")
        mm = D.MainModel(loc, cov=(lambda r: np.array(c) + np.diag(r)) if fun else np.array(c), pdf_type="multivariate_normal")
        want = lambda r: mvn2(env, x, mean(r), [[c[0][0] + r[0], c[0][1]], [c[1][0], c[1][1] + r[1]]] if fun else c)
    # interleaved evaluations: no state may leak from one point to the next
    e1 = mm.expected_data(np.array(p))
    v2 = mm.log_prob(np.array(q), np.array(x))
    v1 = mm.log_prob(np.array(p), np.array(x))
    env.eq("expected", list(e1), mean(p))
    env.eq("log-prob", v2, want(q), tol=1e-7)
    env.eq("log-prob", v1, want(p), tol=1e-7)


def h_main_one(env):
    """one-bin main models: nothing carries over from earlier evaluations"""
    D = env.mod("spey.backends.distributions")
    kind = env.choice("type", ["poiss", "normal", "multivariate_normal"])
    a = env.real("a", lo=1.0, hi=5.0)
    w = env.real("w", lo=0.3, hi=4.0)
    pts = [env.reals("p%d" % k, 2, lo=0.1, hi=3.0) for k in range(2)]
    x = env.real("x", lo=0.0, hi=9.0)
    mean = lambda r: a * r[0] + r[1]
    cov = {"poiss": None, "normal": np.array([w]), "multivariate_normal": np.array([[w]])}[kind]
    mm = D.MainModel(lambda r: np.array([mean(r)]), cov=cov, pdf_type=kind)
    want = {
        "poiss": lambda r: x * env.log(mean(r)) - mean(r) - env.gammaln(x + 1.0),
        "normal": lambda r: norm_term(env, x, mean(r), w),
        "multivariate_normal": lambda r: -0.5 * (x - mean(r)) ** 2 / w - 0.5 * env.log(w) - 0.5 * LOG2PI,
    }[kind]
    held = [mm.expected_data(np.array(pts[0])), mm.expected_data(np.array(pts[1]))]
    for k in (1, 0, 1):
        env.eq("log-prob", mm.log_prob(np.array(pts[k]), np.array([x])), want(pts[k]), tol=1e-6)
    for k in (0, 1):
        env.eq("expected", list(held[k]), [mean(pts[k])])
        env.eq("expected", list(mm.expected_data(np.array(pts[k]))), [mean(pts[k])])


def h_constraint(env):
    D = env.mod("spey.backends.distributions")
    n = 4
    x = env.reals("x", n, lo=-6.0, hi=6.0)
    m = env.reals("m", 2, lo=-2.0, hi=2.0)
    s = env.reals("s", 2, lo=0.2, hi=3.0)
    c = cov2(env)
    terms = {
        "normal": ({"distribution_type": "normal", "args": [np.array(m), np.array(s)], "kwargs": {"domain": slice(0, 2)}}, lambda: norm_term(env, x[0], m[0], s[0]) + norm_term(env, x[1], m[1], s[1]), m),
        "mvn": ({"distribution_type": "multivariatenormal", "args": [np.zeros(2), np.array(c)], "kwargs": {"domain": slice(1, 3)}}, lambda: mvn2(env, x[1:3], [0.0, 0.0], c), [0.0, 0.0]),
        "unit": ({"distribution_type": "normal", "args": [np.zeros(1), np.ones(1)], "kwargs": {"domain": np.r_[3]}}, lambda: norm_term(env, x[3], 0.0, 1.0), [0.0]),
    }
    use = env.choice("terms", [("normal",), ("mvn",), ("unit",), ("normal", "mvn"), ("mvn", "unit"), ("unit", "normal", "mvn")])
    cm = D.ConstraintModel([terms[t][0] for t in use])
    env.check("count", len(cm) == len(use))
    env.eq("log-prob", cm.log_prob(np.array(x)), env.sum([terms[t][1]() for t in use]), tol=1e-7)
    env.eq("expected", list(cm.expected_data()), [v for t in use for v in terms[t][2]])


def h_refused(env):
    D = env.mod("spey.backends.distributions")
    DE = env.mod("spey.system.exceptions").DistributionError
    a = env.real("a", lo=0.5, hi=2.0)
    case = env.choice("case", ["name", "normal-without", "mvn-without", "constraint"])
    if case == "constraint":
        t = env.choice("type", ["poisson", "uniform", ""])
        env.raises("refused", AssertionError, lambda: D.ConstraintModel([{"distribution_type": "normal", "args": [np.zeros(1), np.ones(1)]}, {"distribution_type": t, "args": [np.zeros(1), np.array([a])]}]))
    elif case == "name":
        env.raises("refused", DE, lambda: D.MainModel(lambda p: p * a, cov=np.array([a]), pdf_type=env.choice("type", ["poisson", "gauss", ""])))
    else:
        env.raises("refused", DE, lambda: D.MainModel(lambda p: p * a, pdf_type="normal" if case == "normal-without" else "multivariate_normal"))


def harnesses(tier):
    hs = [
        Harness("poisson", h_poisson, "2 bins, locations 0.01..50, real and integer counts", n=2),
        Harness("normal", h_normal, "3 parameters, every domain of two, scale array or function", n=3),
        Harness("mvn-2", h_mvn, "2x2 covariance, also a function", n=2),
        Harness("mvn-3", h_mvn, "2 out of 3 parameters", n=3),
        Harness("mvn-concrete", h_mvn3, "one 3x3 covariance, any point"),
        Harness("main-model", h_main, "2 bins, two evaluation points"),
        Harness("main-model-one-bin", h_main_one, "1 bin, two evaluation points in turn"),
        Harness("constraint-model", h_constraint, "up to three terms over 4 parameters"),
        Harness("refused", h_refused, "unknown or incomplete descriptions"),
    ]
    if tier != "quick":
        hs += [Harness("poisson-3", h_poisson, "3 bins", n=3), Harness("normal-4", h_normal, "4 parameters", n=4), Harness("mvn-4", h_mvn, "2 out of 4", n=4)]
    return hs
