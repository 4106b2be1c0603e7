"""C12: gradients, Hessians and constraint Jacobians are exact derivatives."""
import numpy as np

from engine.env import Harness

from checks.c11 import build, poisson_sum
from checks.c27 import norm_term
from checks.common import expectations, numeric_backend, stub_minimize
from checks.dual import D, DEnv


def setting(env, which, nb, sig):
    de = DEnv(env)
    be, n, d, b, mean, logp, aux = build(de, which, nb, sig)
    p = env.reals("p", n, lo=-3.0, hi=3.0)
    E = expectations(env)
    e, given = env.choice("query", [(E[0], "none"), (E[2], "none"), (E[1], "given"), (E[2], "with-auxiliary" if aux else "given")])
    x, arg = (b if str(e) == "apriori" else d), None
    if given != "none":
        x = env.reals("x", nb, lo=0.0, hi=25.0)
        # data made by the model itself carry the centres of the constraint terms
        arg = list(x) + ([0.3] * len(aux) if given == "with-auxiliary" else [])
    return be, n, p, e, x, arg, mean, logp


def h_gradient(env, which, nb, sig, tol):
    be, n, p, e, x, arg, mean, logp = setting(env, which, nb, sig)
    want = logp([D.var(p[i], i, n) for i in range(n)], x)
    if env.choice("entry", ["backend", "helper"]) == "backend":
        f = be.get_objective_function(expected=e, data=None if arg is None else np.array(arg), do_grad=True)
        v, g = f(np.array(p))
    else:
        SM = env.mod("spey.interface.statistical_model").StatisticalModel
        f = env.mod("spey.math").value_and_grad(SM(backend=be, analysis="a"), expected=e, data=arg)
        v, g = f(list(p))
    env.eq("value", v, -want.v, tol=tol)
    env.check("length", len(g) == n)
    env.eq("gradient", list(g), [-a for a in want.g], tol=tol)


def h_hessian(env, which, nb, sig, tol):
    be, n, p, e, x, arg, mean, logp = setting(env, which, nb, sig)
    want = logp([D.var(p[i], i, n) for i in range(n)], x)
    if env.choice("entry", ["backend", "helper"]) == "backend":
        h = be.get_hessian_logpdf_func(expected=e, data=None if arg is None else np.array(arg))(np.array(p))
        s = 1.0
    else:
        SM = env.mod("spey.interface.statistical_model").StatisticalModel
        h = env.mod("spey.math").hessian(SM(backend=be, analysis="a"), expected=e, data=arg)(list(p))
        s = -1.0
    env.check("shape", np.shape(h) == (n, n))
    for i in range(n):
        env.eq("hessian", list(h[i]), [s * a for a in want.h[i]], tol=tol)


def h_jacobian(env, which, nb, sig, tol):
    be, n, p, e, x, arg, mean, logp = setting(env, which, nb, sig)
    P = [D.var(p[i], i, n) for i in range(n)]
    P[0] = D.var(0.0, 0, n) * 0.0
    bg = [v if isinstance(v, D) else P[0].lift(v) for v in mean(P)]
    env.check("constraint", len(be.constraints) == (0 if which in ("poisson", "normal", "mvn") else 1))
    for c in be.constraints:
        v, j = c.fun(np.array(p)), c.jac(np.array(p))
        env.eq("constraint-value", list(v), [a.v for a in bg], tol=tol)
        env.check("shape", np.shape(j) == (nb, n))
        for i in range(nb):
            env.eq("jacobian", list(j[i]), bg[i].g, tol=tol)
        env.check("range", c.lb == 0.0 and c.ub == np.inf)


def h_sigma(env):
    """standard deviation from the Hessian at the profiled point"""
    SM = env.mod("spey.interface.statistical_model").StatisticalModel
    n = 3
    poi = env.choice("poi", [0, 1, 2])
    hs = {(i, j): env.uf("h%d%d" % (i, j)) for i in range(n) for j in range(i, n)}

    def hess(e, d):
        return lambda p: -np.array([[hs[min(i, j), max(i, j)](*p, {"observed": 0.0, "aposteriori": 1.0, "apriori": 2.0}[str(e)]) for j in range(n)] for i in range(n)])

    f = env.uf("nll")
    b, log = numeric_backend(env, npar=n, poi=poi, nll=lambda p, e, d: f(*p), hessian=hess)
    m = SM(backend=b, analysis="a")
    rec = stub_minimize(env)
    e = env.choice("expected", expectations(env))
    mu = env.choice("test", [0.5, 1, 2.0])
    x = [env.real("min0_%d" % i, lo=-10.0, hi=10.0) for i in range(n)]
    x[poi] = float(mu)
    H = [[float(v) if not env.is_sym(v) else v for v in r] for r in -hess(e, None)(x)]
    o = [i for i in range(n) if i != poi]
    det = H[0][0] * (H[1][1] * H[2][2] - H[1][2] * H[2][1]) - H[0][1] * (H[1][0] * H[2][2] - H[1][2] * H[2][0]) + H[0][2] * (H[1][0] * H[2][1] - H[1][1] * H[2][0])
    minor = H[o[0]][o[0]] * H[o[1]][o[1]] - H[o[0]][o[1]] * H[o[1]][o[0]]
    for i in range(n):
        for j in range(i, n):
            env.assume(env.And(H[i][j] <= 9.0, H[i][j] >= (1.0 if i == j else -9.0)))
    env.assume(env.And(det >= 0.05, minor >= 0.05))
    via = env.choice("entry", ["hessian", "sigma_mu"])
    opts = dict(do_grad=False, tol=1e-3, maxiter=7)
    if mu != 1:
        opts["par_bounds"] = [(-20.0, 20.0), (-21.0, 21.0), (-22.0, 22.0)]
    if mu != 2.0:
        opts["init_pars"] = [0.5, 0.25, 1.0]
    got = m.sigma_mu_from_hessian(mu, expected=e, **opts) if via == "hessian" else m.sigma_mu(mu, expected=e, **opts)
    env.check("forwards-options", rec[0]["tol"] == 1e-3 and rec[0]["options"].get("maxiter") == 7)
    if "par_bounds" in opts:
        env.check("forwards-bounds", [tuple(v) for v in rec[0]["bounds"]] == opts["par_bounds"])
    for i in o if "init_pars" in opts else []:
        env.eq("forwards-start", rec[0]["x0"][i], opts["init_pars"][i])
    env.check("held", set(rec[0]["held"]) == {poi})
    env.eq("held-value", rec[0]["held"][poi], mu)
    env.check("positive", got >= 0.0)
    env.eq("variance", got * got, minor / det, tol=1e-6)


def h_sigma_model(env):
    """one-bin model with a background uncertainty"""
    dp = env.mod("spey.backends.default_pdf")
    SM = env.mod("spey.interface.statistical_model").StatisticalModel
    s, b, d, u = 1.5, 6.0, env.real("d", lo=4.0, hi=12.0), 0.75
    m = SM(backend=dp.UncorrelatedBackground([s], [b], [d], [u]), analysis="a")
    stub_minimize(env)
    mu = env.real("mu", lo=0.0, hi=2.0)
    t = env.real("min0_1", lo=-10.0, hi=10.0)
    env.assume(env.And(t >= -2.0, t <= 2.0))
    e = env.choice("expected", [expectations(env)[0], expectations(env)[2]])
    x = b if str(e) == "apriori" else d
    lam = b + mu * s + t * u
    k = x / (lam * lam)
    H = [[k * s * s, k * s * u], [k * s * u, k * u * u + 1.0]]
    det = H[0][0] * H[1][1] - H[0][1] * H[1][0]
    got = m.sigma_mu_from_hessian(mu, expected=e)
    env.eq("variance", got * got, H[1][1] / det, tol=1e-5)


def h_constraint_only(env):
    """gradient with respect to signal-uncertainty parameters"""
    dp = env.mod("spey.backends.default_pdf")
    de = DEnv(env)
    kind = env.choice("type", ["normalization", "shape"])
    s = [1.5, 2.5]
    b, d, u = ([env.real("%s%d" % (v, i), lo=0.5, hi=6.0) for i in range(2)] for v in "bdu")
    up, dn = [1.2, 1.3], [1.1, 1.4]
    mod = [{"type": kind, "name": "m", "uncertainties": [[s[i] * (up[i] - 1), s[i] * (dn[i] - 1)] for i in range(2)]}]
    m = dp.UncorrelatedBackground(s, b, d, u, modifiers=mod)
    n = 4 if kind == "normalization" else 5
    p = [env.real("p%d" % i, lo=0.1, hi=2.0) for i in range(3)] + [env.real("p%d" % i, lo=-2.0, hi=2.0) for i in range(3, n)]
    for v in p[3:]:
        env.assume(env.Or(v >= 0.01, v <= -0.01))
    P = [D.var(p[i], i, n) for i in range(n)]
    al = [P[3]] * 2 if kind == "normalization" else P[3:]
    lam = []
    for i in range(2):
        lf = float(np.log(up[i])) if bool(al[i].v > 0) else float(np.log(dn[i]))
        lam.append(b[i] + P[1 + i] * u[i] + P[0] * s[i] * de.exp(al[i] * lf))
    want = poisson_sum(de, d, lam) + de.sum([norm_term(de, t, 0.0, 1.0) for t in P[1:]])
    v, g = m.get_objective_function(do_grad=True)(np.array(p))
    env.eq("value", v, -want.v, tol=1e-5)
    env.eq("gradient", list(g), [-a for a in want.g], tol=1e-5)


def harnesses(tier):
    hs = []
    for w in ("poisson", "poisson-uncertainty", "normal", "normal-function", "mvn", "mvn-function", "uncorrelated", "correlated", "third-moment", "effective-sigma"):
        sigs = ["array"] if w in ("poisson", "poisson-uncertainty") else ["array", "function"]
        nb = 2 if "mvn" in w or w == "correlated" or tier != "quick" else 1
        for sig in sigs:
            kw = dict(which=w, nb=nb, sig=sig, tol=1e-5)
            bd = "%d bins, signal %s, any yields, parameters, data" % (nb, sig)
            hs.append(Harness("gradient-%s-%s-%d" % (w, sig, nb), h_gradient, bd, **kw))
            if tier != "quick" or w not in ("mvn-function",):
                hs.append(Harness("hessian-%s-%s-%d" % (w, sig, nb), h_hessian, bd, **kw))
            if not w.startswith(("normal", "mvn")):
                hs.append(Harness("jacobian-%s-%s-%d" % (w, sig, nb), h_jacobian, bd, **kw))
    hs.append(Harness("sigma", h_sigma, "3 parameters, any Hessian, any signal index", stubs="scipy.optimize.minimize: any point"))
    hs.append(Harness("sigma-model", h_sigma_model, "one-bin model", stubs="scipy.optimize.minimize: any point"))
    hs.append(Harness("signal-uncertainty", h_constraint_only, "2 bins, asymmetric modifier"))
    return hs
