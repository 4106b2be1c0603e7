"""C11: built-in models evaluate the published likelihoods."""
import numpy as np

from engine.env import Harness

from checks.c27 import LOG2PI, cov2, mvn2, norm_term
from checks.common import expectations


def poisson_sum(env, x, lam):
    for l in lam:
        env.assume(l >= 0.01)
    return env.sum([x[i] * env.log(lam[i]) - lam[i] - env.gammaln(x[i] + 1.0) for i in range(len(lam))])


def yields(env, nb):
    s = env.reals("s", nb, lo=-2.0, hi=6.0)
    b = env.reals("b", nb, lo=0.5, hi=20.0)
    d = env.reals("d", nb, lo=0.0, hi=25.0)
    return s, b, d


def mvn1(env, x, m, v):
    return norm_term(env, x, m, env.sqrt(v))


MODIFIERS = [{"type": "normalization", "name": "lumi", "uncertainties": None}]


def build(env, which, nb, sig="array"):
    """(backend, number of parameters, data, background, mean(pars), log-density(pars, x), auxiliary centres)"""
    dp = env.mod("spey.backends.default_pdf")
    sp = env.mod("spey.backends.default_pdf.simple_pdf")
    s, b, d = yields(env, nb)
    nsp = 0
    kw = {}
    if sig == "function":
        nsp = 1

        def signal(p):
            # it is given the signal parameters and nothing else
            return np.array(s) * p[0] + p[0] * p[0] if len(p) == nsp else np.array(s) * 0.0 + 77.0

        kw = {"n_signal_parameters": 1}
        sval = lambda p: [s[i] * p[1] + p[1] * p[1] for i in range(nb)]
    else:
        # some bin carries signal
        env.assume(s[0] >= 0.2)
        signal = np.array(s)
        sval = lambda p: list(s)
    th = lambda p: [p[1 + nsp + i] for i in range(nb)]
    base = lambda p: [b[i] + p[0] * sval(p)[i] for i in range(nb)]
    aux = []
    if which == "poisson":
        be = sp.Poisson(signal, np.array(b), np.array(d))
        return be, 1, d, b, base, lambda p, x: poisson_sum(env, x, base(p)), aux
    if which == "poisson-uncertainty":
        u = env.reals("u", nb, lo=0.1, hi=4.0)
        be = sp.Poisson(signal, np.array(b), np.array(d), np.array(u))
        mean = lambda p: [base(p)[i] + th(p)[i] * u[i] for i in range(nb)]
        return be, 1 + nb, d, b, mean, lambda p, x: poisson_sum(env, x, mean(p)), aux
    if which == "normal":
        u = env.reals("u", nb, lo=0.1, hi=4.0)
        be = sp.Gaussian(signal, np.array(b), np.array(d), np.array(u), **kw)
        return be, 1 + nsp, d, b, base, lambda p, x: env.sum([norm_term(env, x[i], base(p)[i], u[i]) for i in range(nb)]), aux
    if which == "normal-function":
        u = env.reals("u", nb, lo=0.1, hi=4.0)
        be = sp.Gaussian(signal, np.array(b), np.array(d), lambda p: np.array(u) + 0.1 * p[0] * p[0], **kw)
        return be, 1 + nsp, d, b, base, lambda p, x: env.sum([norm_term(env, x[i], base(p)[i], u[i] + 0.1 * p[0] * p[0]) for i in range(nb)]), aux
    if which == "mvn":
        c = cov2(env)
        be = sp.MultivariateNormal(signal, np.array(b), np.array(d), np.array(c), **kw)
        return be, 1 + nsp, d, b, base, lambda p, x: mvn2(env, x, base(p), c), aux
    if which == "mvn-function":
        c = cov2(env)
        be = sp.MultivariateNormal(signal, np.array(b), np.array(d), lambda p: np.array(c) * (1.0 + p[0] * p[0]), **kw)

        def lp(p, x):
            k = 1.0 + p[0] * p[0]
            env.assume((c[0][0] * k) * (c[1][1] * k) - (c[0][1] * k) * (c[1][0] * k) > 0.01)
            return mvn2(env, x, base(p), [[v * k for v in r] for r in c])

        return be, 1 + nsp, d, b, base, lp, aux
    if which == "uncorrelated":
        u = env.reals("u", nb, lo=0.1, hi=4.0)
        be = dp.UncorrelatedBackground(signal, np.array(b), np.array(d), np.array(u), **kw)
        mean = lambda p: [base(p)[i] + th(p)[i] * u[i] for i in range(nb)]
        lp = lambda p, x: poisson_sum(env, x, mean(p)) + env.sum([norm_term(env, t, 0.0, 1.0) for t in th(p)])
        return be, 1 + nsp + nb, d, b, mean, lp, [0.0] * nb
    if which == "correlated":
        # covariance given through standard deviations and a correlation
        u = env.reals("u", nb, lo=0.2, hi=4.0)
        if nb == 1:
            cov, con = [[u[0] * u[0]]], lambda t: norm_term(env, t[0], 0.0, 1.0)
        else:
            r = env.real("rho", lo=-0.9, hi=0.9)
            cov = [[u[0] * u[0], r * u[0] * u[1]], [r * u[0] * u[1], u[1] * u[1]]]
            con = lambda t: mvn2(env, t, [0.0, 0.0], [[1.0, r], [r, 1.0]])
        be = dp.CorrelatedBackground(signal, np.array(b), np.array(d), np.array(cov), **kw)
        mean = lambda p: [base(p)[i] + th(p)[i] * u[i] for i in range(nb)]
        return be, 1 + nsp + nb, d, b, mean, lambda p, x: poisson_sum(env, x, mean(p)) + con(th(p)), [0.0] * nb
    if which == "third-moment":
        # uncertainties and skewness concrete (their expansion is C14); everything else arbitrary
        cov = [[2.0, 0.6], [0.6, 3.0]][:nb]
        cov = [r[:nb] for r in cov]
        m3 = [0.8, -1.5][:nb]
        be = dp.ThirdMomentExpansion(signal, np.array(b), np.array(d), np.array(cov), np.array(m3), **kw)
        C = [float(-np.sign(m3[i]) * np.sqrt(2 * cov[i][i]) * np.cos(4 * np.pi / 3 + np.arctan(np.sqrt(8 * cov[i][i] ** 3 / m3[i] ** 2 - 1)) / 3)) for i in range(nb)]
        B = [float(np.sqrt(cov[i][i] - 2 * C[i] ** 2)) for i in range(nb)]
        bg = lambda p: [b[i] - C[i] + B[i] * th(p)[i] + C[i] * th(p)[i] * th(p)[i] for i in range(nb)]
        mean = lambda p: [bg(p)[i] + p[0] * sval(p)[i] for i in range(nb)]
        if nb == 1:
            con = lambda t: norm_term(env, t[0], 0.0, 1.0)
        else:
            bb, cc = B[0] * B[1], C[0] * C[1]
            rho = float((np.sqrt(bb * bb + 8 * cc * cov[0][1]) - bb) / (4 * cc))
            con = lambda t: mvn2(env, t, [0.0, 0.0], [[1.0, rho], [rho, 1.0]])
        return be, 1 + nsp + nb, d, b, mean, lambda p, x: poisson_sum(env, x, mean(p)) + con(th(p)), [0.0] * nb
    if which == "effective-sigma":
        up = env.reals("up", nb, lo=0.3, hi=3.0)
        dn = env.reals("dn", nb, lo=0.3, hi=3.0)
        if nb == 1:
            corr, con = [[1.0]], lambda t: norm_term(env, t[0], 0.0, 1.0)
        else:
            r = env.real("rho", lo=-0.9, hi=0.9)
            corr = [[1.0, r], [r, 1.0]]
            con = lambda t: mvn2(env, t, [0.0, 0.0], corr)
        sign = env.choice("envelope_sign", [1.0, -1.0])
        be = dp.EffectiveSigma(signal, np.array(b), np.array(d), np.array(corr), [(up[i], sign * dn[i]) for i in range(nb)], **kw)

        def mean(p):
            out = []
            for i in range(nb):
                v = up[i] * dn[i] + (up[i] - dn[i]) * (th(p)[i] - b[i])
                env.assume(v >= 0.01)
                out.append(b[i] + env.sqrt(v) * th(p)[i] + p[0] * sval(p)[i])
            return out

        return be, 1 + nsp + nb, d, b, mean, lambda p, x: poisson_sum(env, x, mean(p)) + con(th(p)), [0.0] * nb
    raise KeyError(which)


def h_model(env, which, nb, sig, tol=1e-6):
    be, n, d, b, mean, logp, aux = build(env, which, nb, sig)
    p = env.reals("p", n, lo=-3.0, hi=3.0)
    E = expectations(env)
    e, given = env.choice("query", [(E[0], "none"), (E[1], "none"), (E[2], "none"), (E[0], "given"), (E[2], "with-auxiliary" if aux else "given")])
    x = b if str(e) == "apriori" else d
    arg = None
    if given != "none":
        x = env.reals("x", nb, lo=0.0, hi=25.0)
        arg = np.array(list(x) + ([0.3] * len(aux) if given == "with-auxiliary" else []))
    want = logp(p, x)
    m = mean(p)
    lp = be.get_logpdf_func(expected=e, data=arg)
    ob = be.get_objective_function(expected=e, data=arg, do_grad=False)
    got, obj, ed = lp(np.array(p)), ob(np.array(p)), be.expected_data(np.array(p))
    env.eq("log-likelihood", got, want, tol=tol)
    env.eq("objective", obj, -want, tol=tol)
    env.check("expected-length", len(ed) == nb + len(aux))
    env.eq("expected-data", list(ed), list(m) + aux, tol=tol)
    if aux:
        env.eq("expected-data-main", list(be.expected_data(np.array(p), include_auxiliary=False)), list(m), tol=tol)


def h_two_models(env):
    """two models of the same kind do not share anything; evaluation order does not matter"""
    dp = env.mod("spey.backends.default_pdf")
    out = []
    for k in ("a", "b"):
        s, b, d, u = (env.real(v + k, lo=0.5, hi=6.0) for v in ("s", "b", "d", "u"))
        out.append((dp.UncorrelatedBackground([s], [b], [d], [u]), s, b, d, u))
    p = env.reals("p", 2, lo=0.0, hi=3.0)
    fs = [m.get_logpdf_func() for m, *_ in out]
    for (m, s, b, d, u), f in list(zip(out, fs))[::-1]:
        lam = b + p[1] * u + p[0] * s
        env.eq("log-likelihood", f(np.array(p)), d * env.log(lam) - lam - env.gammaln(d + 1.0) + norm_term(env, p[1], 0.0, 1.0))


def h_modifiers(env):
    """a model with signal uncertainties: factor and constraint enter the likelihood"""
    dp = env.mod("spey.backends.default_pdf")
    which = env.choice("model", ["uncorrelated", "correlated"])
    kind = env.choice("type", ["normalization", "shape"])
    nb = 2
    s, b, d, u = ([env.real("%s%d" % (v, i), lo=0.5, hi=6.0) for i in range(nb)] for v in "sbdu")
    rel = [0.1, 0.25]
    mod = [{"type": kind, "name": "m", "uncertainties": [s[i] * rel[i] for i in range(nb)]}]
    if which == "uncorrelated":
        m = dp.UncorrelatedBackground(s, b, d, u, modifiers=mod)
    else:
        m = dp.CorrelatedBackground(s, b, d, np.diag(np.array(u) ** 2), modifiers=mod)
    n = 3 + (1 if kind == "normalization" else 2)
    p = env.reals("p", n, lo=0.1, hi=2.0)
    al = [p[3]] * 2 if kind == "normalization" else p[3:]
    lam = [b[i] + p[1 + i] * u[i] + p[0] * s[i] * env.exp(al[i] * float(np.log(1.0 + rel[i]))) for i in range(nb)]
    want = poisson_sum(env, d, lam) + env.sum([norm_term(env, t, 0.0, 1.0) for t in p[1:]])
    env.eq("log-likelihood", m.get_logpdf_func()(np.array(p)), want, tol=1e-5)
    env.eq("expected-data", list(m.expected_data(np.array(p))), lam + [0.0] * (n - 1), tol=1e-5)


def harnesses(tier):
    hs = []
    for w in ("poisson", "poisson-uncertainty", "normal", "normal-function", "mvn", "mvn-function", "uncorrelated", "correlated", "third-moment", "effective-sigma"):
        sigs = ["array"] if w in ("poisson", "poisson-uncertainty") else ["array", "function"]
        for sig in sigs:
            for nb in (2,) if tier == "quick" or "mvn" in w else ((1, 2, 3) if w in ("poisson", "poisson-uncertainty", "normal", "normal-function", "uncorrelated") else (1, 2)):
                hs.append(Harness("%s-%s-%d" % (w, sig, nb), h_model, "%d bins, signal %s, any yields, parameters, data" % (nb, sig), which=w, nb=nb, sig=sig, tol=2e-4 if w == "third-moment" else 1e-6))
    hs.append(Harness("two-models", h_two_models, "two one-bin models"))
    hs.append(Harness("modifiers", h_modifiers, "2 bins, symmetric modifier"))
    return hs
