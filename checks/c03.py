"""C03: toy-based p-values are empirical tail fractions."""
from engine.env import Harness

from checks.c01 import consistent, spec
from checks.common import analytic_backend, expectations, first, tag

NS = [2.0, 1.0, 0.0, -1.0, -2.0]


def quantile(env, srt, nsigma):
    """linear-interpolation quantile of a sorted sample; also returns its two neighbours"""
    n = len(srt)
    h = (n - 1) * float(env.Phi_num(nsigma))
    lo = int(h)
    hi = min(lo + 1, n - 1)
    f = h - lo
    return srt[lo] + (srt[hi] - srt[lo]) * f, srt[lo], srt[hi], f


def phi(n):
    from math import erf, sqrt

    return 0.5 * (1.0 + erf(n / sqrt(2.0)))


def tail(env, sample, v):
    return env.sum([env.ite(x >= v, 1.0, 0.0) for x in sample]) / float(len(sample))


def h_empirical(env, ns, nb):
    T = env.mod("spey.hypothesis_testing.toy_calculator")
    env.Phi_num = phi
    sig, bkg = env.reals("s", ns, lo=-50.0, hi=50.0), env.reals("b", nb, lo=-50.0, hi=50.0)
    obs = env.real("obs", lo=-50.0, hi=50.0)
    name = env.choice("name", ["qtilde", "q", "q0"])
    srt = sorted(bkg)
    vals = []
    for n in NS:
        v, a, b, f = quantile(env, srt, n)
        if f > 1e-12 and nb > 1:
            for x in sig + bkg:  # exact coincidence with an interpolated value is a rounding matter
                env.assume(env.Or(x > v + 1e-6, x < v - 1e-6, env.And(a == b, x == a)))
        vals.append(v)
    o, e = T.compute_toy_confidence_level(list(sig), list(bkg), obs, name)
    env.check("one-observed", len(o) == 1)
    env.check("five-expected", len(e) == 5)

    def ref(v):
        sb, b = tail(env, sig, v), tail(env, bkg, v)
        if name == "q0":
            return sb
        return sb / b if b > 0 else 0.0

    env.eq(f"observed-{name}", o[0], ref(obs))
    for v, got in zip(vals, e):
        env.eq(f"expected-{name}", got, ref(v))


def setup(env, ntoys):
    """every data set carries its own number; fits and likelihoods are free per data set"""
    SM = env.mod("spey.interface.statistical_model").StatisticalModel

    def key(e, d):
        return "%d_%d" % (tag(env, e), -1 if d is None else int(first(d)))

    def nll(p, e, d):
        return env.uf("nll_" + key(e, d))(p)

    def mle(e, allow, d):
        k = key(e, d) + "_" + str(int(allow))
        return env.real("muhat_" + k, lo=-20.0, hi=20.0), env.real("min_" + k, lo=-20.0, hi=20.0)

    sizes = []

    def sampler(pars):
        tested = bool(pars[0] != 0.0)

        def f(size, *a, **k):
            sizes.append((tested, size))
            return [[(10.0 if tested else 20.0) + i] for i in range(size)]

        return f

    b, log = analytic_backend(env, nll=nll, mle=mle, sampler=sampler)
    return SM(backend=b, analysis="a", ntoys=ntoys), log, sizes, nll, mle


def run(env, ntoys, restricted, every):
    m, log, sizes, nll, mle = setup(env, ntoys)
    allow = env.bool("allow") if not restricted else False
    mu = env.real("mu", lo=0.1, hi=20.0) if restricted else env.real("mu", lo=-20.0, hi=20.0)
    if not restricted:
        env.assume(mu != 0)
    e = env.choice("expected", every)
    ee = expectations(env)[0] if e == "all" else e
    name = "q" if allow else "qtilde"
    stats = {}
    for key, d in [("obs", None)] + [(("s", i), [10.0 + i]) for i in range(ntoys)] + [(("b", i), [20.0 + i]) for i in range(ntoys)]:
        muhat, mn = mle(ee, allow, d)

        def ll(p, d=d):
            return -nll(p, ee, d)

        consistent(env, mu, muhat, -mn, ll)
        env.assume(env.And(nll(mu, ee, d) <= 100, nll(mu, ee, d) >= -100))
        if restricted:
            env.assume(env.And(muhat >= 0, muhat <= mu, nll(mu, ee, d) >= mn))
            stats[key] = 2.0 * (nll(mu, ee, d) - mn)
        else:
            stats[key] = spec(env, name, mu, muhat, -mn, ll)
    got = m.exclusion_confidence_level(poi_test=mu, expected=e, allow_negative_signal=allow, calculator="toy", verbose=False)
    sig = [stats[("s", i)] for i in range(ntoys)]
    bkg = [stats[("b", i)] for i in range(ntoys)]
    env.check("toys-per-hypothesis", sorted(sizes) == [(False, ntoys), (True, ntoys)])
    env.Phi_num = phi

    def ref(v):
        sb, b = tail(env, sig, v), tail(env, bkg, v)
        r = sb / b if b > 0 else 0.0
        return 1.0 - (1.0 if r > 1.0 else r)

    exp = None
    if str(e) != "observed":
        srt = sorted(bkg)
        exp = []
        for n in NS:
            v, a, b, f = quantile(env, srt, n)
            if ntoys > 1:
                for x in sig + bkg:
                    env.assume(env.Or(x > v + 1e-4, x < v - 1e-4, env.And(a == b, x == a)))
            exp.append(ref(v))
    if not restricted:  # exact ties of floats are a rounding matter
        o = stats["obs"]
        for x in sig + bkg:
            env.assume(env.Or(x > o + 1e-4, x < o - 1e-4, env.And(x == 0, o == 0)))
    if e == "all":
        env.check("all-is-a-pair", len(got) == 2)
        env.eq("observed", got[0], [ref(stats["obs"])])
        env.eq("expected", got[1], exp)
    elif str(e) == "observed":
        env.eq("observed", got, [ref(stats["obs"])])
    else:
        env.eq("expected", got, exp)
    env.check("refits-with-convention", all(c["allow"] == allow for c in log.of("mle")))


def harnesses(tier):
    sizes = [(1, 1), (2, 2), (3, 1), (1, 3)] + ([] if tier == "quick" else [(3, 2), (2, 3), (3, 3), (1, 4), (4, 2)])
    st = "the draws, the fitted values and the likelihood are arbitrary functions of the data set"
    from spey.utils import ExpectationType as E

    return [
        Harness(f"empirical-{a}-{b}", h_empirical, f"{a} and {b} toys, statistics and observed value within [-50, 50]", ns=a, nb=b)
        for a, b in sizes
    ] + [
        Harness("full-1", run, "1 toy per hypothesis, all fits and likelihoods, observed", stubs=st, ntoys=1, restricted=False, every=[E.observed]),
        Harness("full-2-obs", run, "2 toys per hypothesis, 0<=muhat<=mu, observed", stubs=st, ntoys=2, restricted=True, every=[E.observed, E.apriori, "all"][:1]),
        Harness("full-2-exp", run, "2 toys per hypothesis, 0<=muhat<=mu, expected", stubs=st, ntoys=2, restricted=True, every=[E.apriori]),
        Harness("full-2-post", run, "2 toys per hypothesis, 0<=muhat<=mu, post-fit expected", stubs=st, ntoys=2, restricted=True, every=[E.aposteriori]),
        Harness("full-2-all", run, "2 toys per hypothesis, 0<=muhat<=mu, 'all'", stubs=st, ntoys=2, restricted=True, every=["all"]),
    ]
