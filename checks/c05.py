"""C05: upper limits."""
from engine.env import Harness

from checks.c01 import consistent, spec
from checks.c02 import NS
from checks.common import analytic_backend, expectations, stub_root_finders, tag, tsfam


def base_model(env, alive=True, nll=None, anll=None, xsec=None, b0=None):
    SM = env.mod("spey.interface.statistical_model").StatisticalModel
    f, fa = env.uf("nll"), env.uf("anll")
    got = {}

    def mle(e, allow, data):
        k = (tag(env, e), int(allow))
        return got.setdefault(("d",) + k, (env.real("muhat%d%d" % k, lo=-20.0, hi=20.0), env.real("min%d%d" % k, lo=-20.0, hi=20.0)))

    def amle(e, ts):
        k = (tag(env, e), int(tsfam(ts)))
        return got.setdefault(("a",) + k, (env.real("muhatA%d%d" % k, lo=-20.0, hi=20.0), env.real("minA%d%d" % k, lo=-20.0, hi=20.0)))

    hooks = dict(
        nll=nll or (lambda p, e, d: f(p, tag(env, e))),
        anll=anll or (lambda p, e, ts: fa(p, tag(env, e), tsfam(ts))),
        mle=mle,
        amle=amle,
        alive=alive,
    )
    b, log = analytic_backend(env, **hooks)
    kw = {} if xsec is None else {"xsection": xsec}
    return SM(backend=b, analysis="a", **kw), log, hooks


def stub_levels(env, obs, exp, seen):
    """the exclusion level as a function of the signal strength is given directly"""

    def ts(mu, ml, lp, mal, alp, name):
        seen.append((ml, mal, name))
        return 0.0, mu, 0.0

    def cl(sA, d, name="qtilde"):
        return [1.0 - obs(sA)], [1.0 - exp(i, sA) for i in range(5)]

    env.stub("spey.hypothesis_testing.test_statistics", "compute_teststatistics", ts)
    env.stub("spey.hypothesis_testing.asymptotic_calculator", "compute_asymptotic_confidence_level", cl)


def every(env):
    return expectations(env) + ["observed"]


def h_curve(env):
    """nominal limit of an arbitrary exclusion curve, full bracketing"""
    m, log, hk = base_model(env)
    e = env.choice("expected", every(env))
    cl = env.real("confidence_level", lo=0.0, hi=1.0)
    E = env.uf("level")
    seen = []
    stub_levels(env, lambda mu: E(mu, -1.0), lambda i, mu: E(mu, float(i)), seen)
    stub_root_finders(env)
    got = m.poi_upper_limit(expected=e, confidence_level=cl)
    obs = str(e) == "observed"
    band = -1.0 if obs else 2.0
    env.check("single-value", not isinstance(got, (list, tuple)))
    muhat, mn = hk["mle"](e, False, None)
    muhatA, mnA = hk["amle"](e, "qtilde")
    ml, mal, name = seen[0]
    env.eq("uses-data-fit", [ml[0], ml[1]], [muhat, mn])
    env.eq("uses-asimov-fit", [mal[0], mal[1]], [muhatA, mnA])
    env.check("uses-qtilde", name in ("qtilde", "qmutilde"))
    if env.is_inf(got):
        env.check("infinity-positive", got > 0)
        # there was no sign change between the starting point and the far end
        lo, hi = E(1e-10, band) - cl, E(1e5, band) - cl
        start = E(1.0, band) - cl
        env.check("infinite-only-without-crossing", env.Or(env.And(start < 0, hi < 0), env.And(start > 0, lo > 0)))
    else:
        f = E(got, band) - cl
        env.le("is-crossing", f, 1e-5)
        env.le("is-crossing", -f, 1e-5)
        env.check("positive", got > 0)


def h_insensitive(env):
    """below some signal strength the Asimov statistic vanishes: nothing is excluded there"""
    m, log, hk = base_model(env)
    zero = env.mod("spey.system.exceptions").AsimovTestStatZero
    e = env.choice("expected", every(env))
    band = env.choice("band", ["nominal", "2sigma"])
    cl = env.real("confidence_level", lo=0.05, hi=0.99)
    t = env.real("threshold", lo=0.01, hi=3.0)
    k = env.real("slope", lo=0.01, hi=1.0)
    jump = env.real("jump", lo=0.0, hi=0.04)
    lev = lambda mu: jump + k * (mu - t)  # noqa: E731

    def ts(mu, *a):
        if mu < t:
            raise zero()
        return 0.0, mu, 0.0

    env.stub("spey.hypothesis_testing.test_statistics", "compute_teststatistics", ts)
    env.stub(
        "spey.hypothesis_testing.asymptotic_calculator",
        "compute_asymptotic_confidence_level",
        lambda sA, d, name="qtilde": ([1.0 - lev(sA)], [1.0 - lev(sA)] * 5),
    )
    stub_root_finders(env)
    got = m.poi_upper_limit(expected=e, confidence_level=cl, expected_pvalue=band)
    for v in got if isinstance(got, (list, tuple)) else [got]:
        env.check("crossing-exists", env.Not(env.is_inf(v)), "infinite although the level crosses above the insensitive region")
        env.le("is-crossing", lev(v) - cl, 1e-5)
        env.le("is-crossing", cl - lev(v), 1e-5)


def h_bands(env, which):
    """the band bookkeeping, every band with or without a crossing"""
    m, log, hk = base_model(env)
    e = env.choice("expected", expectations(env)[1:] + ["apriori"] if which else every(env))
    cl = env.real("confidence_level", lo=0.05, hi=0.99)
    root, slope, has = [], [], []
    idx = [0, 1, 2, 3, 4] if which == 2 else [1, 2, 3]
    for i in range(6):
        root.append(env.real(f"crossing{i}", lo=1.1, hi=4.0))
    has = [env.bool(f"has{i}") if i in idx else True for i in range(5)]

    def lev(i, mu):
        if not (i < 0 or has[i]):
            return cl - 0.01
        return cl + 0.1 * (mu - root[i])

    stub_levels(env, lambda mu: lev(-1, mu), lambda i, mu: lev(i, mu), [])
    stub_root_finders(env)
    got = m.poi_upper_limit(expected=e, confidence_level=cl, expected_pvalue={1: "1sigma", 2: "2sigma"}[which])
    if str(e) == "observed":
        env.check("observed-is-single", not isinstance(got, (list, tuple)))
        return
    env.check("number-of-values", isinstance(got, (list, tuple)) and len(got) == {1: 3, 2: 5}[which])
    for i, v in zip(idx, got):
        if has[i]:
            env.eq("own-crossing", v, root[i], tol=1e-4)
        else:
            env.check("own-infinity", env.is_inf(v))


def h_observed_bands(env):
    m, log, hk = base_model(env)
    e = env.choice("expected", [expectations(env)[0], "observed"])
    root = env.real("crossing", lo=1.1, hi=4.0)
    other = env.real("other", lo=5.5, hi=9.0)
    stub_levels(env, lambda mu: 0.95 + 0.1 * (mu - root), lambda i, mu: 0.95 + 0.1 * (mu - other), [])
    stub_root_finders(env)
    got = m.poi_upper_limit(expected=e, expected_pvalue=env.choice("band", ["nominal", "1sigma", "2sigma"]))
    env.check("observed-is-single", not isinstance(got, (list, tuple)))
    env.eq("observed-crossing", got, root, tol=1e-4)


def h_start(env):
    """user supplied or automatic starting points"""
    m, log, hk = base_model(env)
    e = expectations(env)[1]
    k = env.real("slope", lo=0.01, hi=1.0)
    cl = env.real("confidence_level", lo=0.05, hi=0.95)
    low = env.choice("low", [None, 0.3, 1.0, 4.0])
    hig = env.choice("hig", [None, 0.3, 1.0, 4.0])
    if low is None or hig is None:
        muhat, mn = hk["mle"](e, False, None)
        muhatA, mnA = hk["amle"](e, "qtilde")
        env.assume(env.And(muhat >= 0.5, muhat <= 2.0, muhatA >= -2, muhatA <= 2))
        d = hk["anll"](muhat, e, "qtilde") - mnA
        env.assume(env.And(mnA == 0, d >= 0.5, d <= 2.0))
        for p in (0.0, muhat):
            consistent(env, muhat, muhatA, -mnA, lambda x: -hk["anll"](x, e, "qtilde"))
        env.assume(hk["anll"](0.0, e, "qtilde") == 0)
    lev = lambda mu: k * mu  # noqa: E731
    stub_levels(env, lev, lambda i, mu: lev(mu), [])
    stub_root_finders(env)
    got = m.poi_upper_limit(expected=e, confidence_level=cl, low_init=low, hig_init=hig)
    f = k * got - cl
    env.le("is-crossing", f, 1e-5)
    env.le("is-crossing", -f, 1e-5)


def h_real(env, which):
    """with the real statistics: the exclusion level at the limit is the confidence level"""
    m, log, hk = base_model(env)
    e = expectations(env)[which]
    cl = 0.95
    used = stub_root_finders(env)
    muhat, mn = hk["mle"](e, False, None)
    muhatA, mnA = hk["amle"](e, "qtilde")
    env.assume(env.And(muhat >= 0, muhat <= 1, muhatA >= 0, muhatA <= 1))
    env.assume(env.And(hk["nll"](1.0, e, None) >= mn, hk["anll"](1.0, e, "qtilde") > mnA + 0.01))
    env.assume(hk["anll"](1.0, e, "qtilde") < mnA + 5)
    env.assume(hk["nll"](1.0, e, None) < mn + 5)
    band = 0 if str(e) == "observed" else 2

    def level(mu):
        q = 2.0 * (hk["nll"](mu, e, None) - mn)
        qA = 2.0 * (hk["anll"](mu, e, "qtilde") - mnA)
        if q < 0:
            q = 0.0
        if qA < 0:
            qA = 0.0
        s, sA = env.sqrt(q), env.sqrt(qA)
        if str(e) != "observed":
            return 1.0 - env.Phi(-sA) / 0.5
        d = s - sA if s <= sA else (q - qA) / (2.0 * sA)
        return 1.0 - env.Phi(-sA - d) / env.Phi(-d)

    env.assume(level(1.0) < cl - 0.01)
    got = m.poi_upper_limit(expected=e, confidence_level=cl, low_init=1.0, hig_init=1e5)
    if env.is_inf(got):
        return
    env.check("positive", got > 0)
    v = level(got)
    env.le("is-crossing", v - cl, 1e-4)
    env.le("is-crossing", cl - v, 1e-4)
    env.check("no-negative-signal", all(not c["allow"] for c in log.of("mle")))


def h_dead(env):
    m, log, hk = base_model(env, alive=False)
    e = env.choice("expected", every(env))
    p = env.choice("band", ["nominal", "1sigma", "2sigma"])
    got = m.poi_upper_limit(expected=e, expected_pvalue=p)
    n = 1 if str(e) == "observed" else {"nominal": 1, "1sigma": 3, "2sigma": 5}[p]
    if n == 1:
        env.check("dead-is-infinite", env.is_inf(got))
    else:
        env.check("dead-is-infinite", len(got) == n and all(env.is_inf(g) for g in got))


def h_cross_section(env):
    X = env.mod("spey.system.exceptions")
    xs = env.real("xsec", lo=0.0, hi=100.0)
    U = env.uf("limit")
    cls_ = []

    def fake(self, expected="observed", confidence_level=0.95, **kw):
        cls_.append((expected, confidence_level, kw))
        return U(tag(env, expected), confidence_level)

    m, _, _ = base_model(env, xsec=xs)
    n, _, _ = base_model(env)
    env.stub("spey.base.hypotest_base", "HypothesisTestingBase.poi_upper_limit", fake)
    e = env.choice("expected", expectations(env))
    env.eq("limit-times-cross-section", m.excluded_cross_section(expected=e), U(tag(env, e), 0.95) * xs)
    env.eq("s95obs", m.s95obs, U(0.0, 0.95) * xs)
    env.eq("s95exp", m.s95exp, U(2.0, 0.95) * xs)
    env.raises("unset-cross-section", X.UnknownCrossSection, lambda: n.excluded_cross_section(expected=e))
    env.raises("unset-cross-section", X.UnknownCrossSection, lambda: n.s95obs)
    env.raises("unset-cross-section", X.UnknownCrossSection, lambda: n.s95exp)


def h_bad(env):
    m, log, hk = base_model(env)
    cl = env.real("cl", lo=-3.0, hi=3.0)
    env.assume(env.Or(cl < 0, cl > 1))
    env.raises("confidence-level-range", AssertionError, lambda: m.poi_upper_limit(confidence_level=cl))


def harnesses(tier):
    root = "bracketing root finders: any point of the bracket with |f|<=1e-7, errors for invalid brackets"
    lev = root + "; the exclusion level itself is an arbitrary function (see 'real' for the actual one)"
    return [
        Harness("curve", h_curve, "arbitrary exclusion curve, all confidence levels, default starting points; bracketing loops complete", stubs=lev),
        Harness("bands-1", h_bands, "affine curves crossing in [1.1, 4] or not at all, independently per band", stubs=lev, which=1),
        Harness("bands-2", h_bands, "affine curves crossing in [1.1, 4] or not at all, independently per band", stubs=lev, which=2),
        Harness("observed-bands", h_observed_bands, "observed limits with every band request", stubs=lev),
        Harness("start", h_start, "linear curves of slope 0.01..1, starting points None/0.3/1/4 each", stubs=lev),
        *[
            Harness("real-" + n, h_real, "0<=muhat<=1, bracket start 1 (not excluded) and 1e5; arbitrary likelihoods", stubs=root, axioms="Phi as in C02", which=i)
            for i, n in enumerate(("observed", "aposteriori", "apriori"))
        ],
        Harness("insensitive", h_insensitive, "no sensitivity below any threshold in [0.01, 3], linear level above it", stubs=lev),
        Harness("dead", h_dead, "all expectations and bands"),
        Harness("cross-section", h_cross_section, "all limits and cross sections", stubs="the limit itself is an arbitrary function of expectation and level"),
        Harness("bad", h_bad, "all confidence levels outside [0,1]"),
    ]
