"""C14: third-moment expansion."""
import math

import numpy as np

from engine.env import Harness


def mod(env):
    return env.mod("spey.backends.default_pdf.third_moment")


def moments(env, i):
    """mean, variance, third moment satisfying the condition away from its edge"""
    m1 = env.real("mean%d" % i, lo=-50.0, hi=50.0)
    v = env.real("var%d" % i, lo=0.25, hi=9.0)
    m3 = env.real("third%d" % i, lo=-75.0, hi=75.0)
    env.assume(env.Or(m3 >= 0.01, m3 <= -0.01))
    env.assume(8.0 * v * v * v >= 1.002 * m3 * m3)
    return m1, v, m3


def h_moments(env, nb):
    ms = [moments(env, i) for i in range(nb)]
    off = env.real("cov", lo=-0.2, hi=0.2) if nb == 2 else 0.0
    cov = np.array([[ms[i][1] if i == j else off for j in range(nb)] for i in range(nb)])
    A, B, C = mod(env).third_moment_expansion(np.array([m[0] for m in ms]), cov, np.array([m[2] for m in ms]))
    env.check("sizes", len(A) == nb and len(B) == nb and len(C) == nb)
    for i in range(nb):
        m1, v, m3 = ms[i]
        a, b, c = A[i], B[i], C[i]
        env.check("numbers", not (env.is_nan(a) or env.is_nan(b) or env.is_nan(c)))
        # moments of a + b*theta + c*theta**2 for a unit normal theta
        env.eq("mean", a + c, m1)
        env.eq("variance", b * b + 2.0 * c * c, v)
        env.eq("third", 6.0 * b * b * c + 8.0 * c * c * c, m3)
        env.le("sign", 0.0, b)
        # of the three cubic roots the one that vanishes with the skewness
        env.le("branch", c * c, v / 2.0)


def h_fallback(env):
    """no or too large skewness"""
    nb = 2
    m1 = env.reals("mean", nb, lo=-50.0, hi=50.0)
    v = env.reals("var", nb, lo=0.25, hi=9.0)
    kinds = env.choice("kinds", [("zero", "zero"), ("zero", "large"), ("large", "large"), ("large", "fine"), ("fine", "zero")])
    m3 = []
    for i, k in enumerate(kinds):
        if k == "zero":
            m3.append(0.0)
        else:
            x = env.real("third%d" % i, lo=-200.0, hi=200.0)
            env.assume(env.Or(x >= 0.01, x <= -0.01))
            if k == "large":
                env.assume(8.0 * v[i] * v[i] * v[i] <= 0.998 * x * x)
            else:
                env.assume(8.0 * v[i] * v[i] * v[i] >= 1.002 * x * x)
            m3.append(x)
    cov = np.array([[v[0], 0.1], [0.1, v[1]]])
    A, B, C = mod(env).third_moment_expansion(np.array(m1), cov, np.array(m3))
    for i, k in enumerate(kinds):
        if k == "fine":
            env.eq("mean", A[i] + C[i], m1[i])
            env.eq("third", 6.0 * B[i] * B[i] * C[i] + 8.0 * C[i] * C[i] * C[i], m3[i])
        else:
            env.eq("C", C[i], 0.0)
            env.eq("A", A[i], m1[i])
            env.eq("B", B[i], env.sqrt(v[i]))


CASES = [
    ((1.0, 0.5), (2.0, 1.5)),
    ((1.0, 0.5), (2.0, -1.5)),
    ((4.0, -20.0), (0.5, -0.3)),
    ((1.0, 2.5), (2.0, 0.0)),
    ((1.0, 0.0), (2.0, 0.0)),
    ((9.0, 60.0), (0.5, 5.0)),
]


def h_correlation(env):
    """the correlation reproduces the covariance of the expanded backgrounds"""
    (v0, t0), (v1, t1) = env.choice("case", CASES)
    sd = math.sqrt(v0 * v1)
    cov = env.real("cov", lo=-0.75 * sd, hi=0.75 * sd)
    M = np.array([[v0, cov], [cov, v1]])
    A, B, C, R = mod(env).third_moment_expansion(np.array([3.0, 4.0]), M, np.array([t0, t1]), True)
    env.check("shape", np.shape(R) == (2, 2))
    bb, cc = float(B[0] * B[1]), float(C[0] * C[1])
    # the covariances that such backgrounds can have at all
    env.assume(bb * bb + 8.0 * cc * cov >= 0.01)
    for i in range(2):
        for j in range(2):
            env.eq("covariance", B[i] * B[j] * R[i, j] + 2.0 * C[i] * C[j] * R[i, j] * R[i, j], M[i, j], tol=2e-3)
    env.eq("symmetric", R[0, 1], R[1, 0])
    env.eq("diagonal", [R[0, 0], R[1, 1]], [1.0, 1.0], tol=2e-3)
    # the solution that grows with the covariance, not the other root
    env.le("root", -bb, 4.0 * cc * R[0, 1], tol=1e-3) if cc > 0 else env.le("root", 4.0 * cc * R[0, 1] * -1.0, bb, tol=1e-3)


def h_correlation_skewed(env):
    """one bin with arbitrary skewness against itself"""
    m1, v, m3 = moments(env, 0)
    A, B, C, R = mod(env).third_moment_expansion(np.array([m1]), np.array([[v]]), np.array([m3]), True)
    r = R[0, 0]
    env.eq("covariance", B[0] * B[0] * r + 2.0 * C[0] * C[0] * r * r, v, tol=5e-3)


def h_computed(env):
    """third moments of two-sided Gaussians"""
    nb = env.choice("bins", [1, 2])
    tm = mod(env)
    up = env.reals("up", nb, lo=0.2, hi=5.0)
    dn = env.reals("dn", nb, lo=0.2, hi=5.0)
    sign = env.choice("sign", [1.0, -1.0])
    K = math.sqrt(2.0 / math.pi)
    count = {}

    def quad(f, a, b, args=(), **kw):
        side = {(-np.inf, np.inf): "both", (-np.inf, 0.0): "-", (0.0, np.inf): "+"}[(float(a), float(b))]
        i = count[side] = count.get(side, -1) + 1
        u, l = up[i], dn[i]
        tot = 0.0
        for s, w in (("+", u), ("-", l)):
            if side in ("both", s):
                x = env.real("x%s%d" % ("p" if s == "+" else "m", i), lo=0.01 if s == "+" else -20.0, hi=20.0 if s == "+" else -0.01)
                z = x / w
                # density of the two-sided Gaussian with mode zero, times the cube
                want = x * x * x * K / (u + l) * env.exp(-0.5 * z * z)
                env.eq("integrand", f(x, *args), want)
                tot = tot + (2.0 if s == "+" else -2.0) * K * w * w * w * w / (u + l)
        return (tot, 1e-9 * (i + 1))

    env.stub("scipy.integrate", "quad", quad)
    want = [2.0 * K * (u * u * u * u - l * l * l * l) / (u + l) for u, l in zip(up, dn)]
    dn_arg = [sign * v for v in dn]
    if env.choice("error", [False, True]):
        got, err = tm.compute_third_moments(up, dn_arg, return_integration_error=True)
        env.check("errors", len(err) == nb)
    else:
        got = tm.compute_third_moments(up, dn_arg)
    env.eq("moments", list(got), want)


def harnesses(tier):
    ax = "cos(c + arctan(t)/n): multiple-angle identity; range of cos"
    hs = [
        Harness("moments-1", h_moments, "one bin, any moments", axioms=ax, nb=1),
        Harness("moments-2", h_moments, "two bins, any moments", axioms=ax, nb=2),
        Harness("fallback", h_fallback, "two bins, zero / too large / valid skewness", axioms=ax),
        Harness("correlation", h_correlation, "any covariance for 6 pairs of variance and skewness"),
        Harness("computed", h_computed, "up to 2 bins, any uncertainties", stubs="scipy.integrate.quad: exact integral of the verified integrand"),
    ]
    if tier != "quick":
        hs.append(Harness("correlation-skewed", h_correlation_skewed, "one bin, any skewness", axioms=ax, timeout_ms=60000))
    return hs
