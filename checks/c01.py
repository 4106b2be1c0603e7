"""C01: the likelihood-ratio test statistics are the documented ones."""
from engine.env import Harness

NAMES = ["q", "qmu", "qtilde", "qmutilde", "q0", "qmu_left"]


def spec(env, name, mu, muhat, mx, ll):
    pos = lambda d: env.ite(d > 0, d, 0.0)  # noqa: E731
    if name in ("q", "qmu"):
        return env.ite(muhat > mu, 0.0, pos(2.0 * (mx - ll(mu))))
    if name in ("qtilde", "qmutilde"):
        ref = env.ite(muhat >= 0, mx, ll(0.0))
        return env.ite(muhat > mu, 0.0, pos(2.0 * (ref - ll(mu))))
    if name == "q0":
        return env.ite(muhat < 0, 0.0, pos(2.0 * (mx - ll(0.0))))
    return env.ite(muhat < mu, 0.0, pos(2.0 * (mx - ll(mu))))


def consistent(env, mu, muhat, mx, ll):
    """the maximum is the value of the likelihood at muhat"""
    env.assume(env.Implies(muhat == mu, mx == ll(mu)))
    env.assume(env.Implies(muhat == 0, mx == ll(0.0)))
    env.assume(env.Implies(mu == 0, ll(mu) == ll(0.0)))


def h_definition(env):
    T = env.mod("spey.hypothesis_testing.test_statistics")
    name = env.choice("name", NAMES)
    mu, muhat, mx = env.real("mu"), env.real("muhat"), env.real("max_logpdf")
    ll = env.uf("logpdf")
    consistent(env, mu, muhat, mx, ll)
    got = T.get_test_statistic(name)(mu, muhat, mx, ll)
    env.eq(f"definition-{name}", got, spec(env, name, mu, muhat, mx, ll))
    env.le(f"nonneg-{name}", 0.0, got)


def h_unknown(env):
    T = env.mod("spey.hypothesis_testing.test_statistics")
    X = env.mod("spey.system.exceptions")
    bad = env.choice("bad", ["", "qtild", "q1", "QTILDE", "mu", "qmutilde ", None])
    env.raises("unknown-rejected", X.UnknownTestStatistics, lambda: T.get_test_statistic(bad))


def h_pair(env):
    """compute_teststatistics uses the data likelihood for q and the Asimov one for qA"""
    T = env.mod("spey.hypothesis_testing.test_statistics")
    X = env.mod("spey.system.exceptions")
    name = env.choice("name", NAMES)
    mu = env.real("mu")
    muhat, nll = env.real("muhat"), env.real("nll")
    muhatA, nllA = env.real("muhatA"), env.real("nllA")
    ll, llA = env.uf("logpdf"), env.uf("logpdfA")
    consistent(env, mu, muhat, -nll, ll)
    consistent(env, mu, muhatA, -nllA, llA)
    q = spec(env, name, mu, muhat, -nll, ll)
    qA = spec(env, name, mu, muhatA, -nllA, llA)
    try:
        sq, sqA, _ = T.compute_teststatistics(mu, (muhat, nll), ll, (muhatA, nllA), llA, name)
    except X.AsimovTestStatZero:
        env.check(f"asimov-zero-only-{name}", env.And(qA <= 0, q > 0))
        return
    env.eq(f"sqrt-data-{name}", sq * sq, q)
    env.eq(f"sqrt-asimov-{name}", sqA * sqA, qA)
    env.le(f"sqrt-nonneg-{name}", 0.0, sq)
    env.le(f"sqrtA-nonneg-{name}", 0.0, sqA)


def harnesses(tier):
    B = "mu, muhat, maximum and the log-likelihood (an arbitrary function) over all reals; all six names"
    return [
        Harness("definition", h_definition, B),
        Harness("unknown", h_unknown, "seven representative invalid names"),
        Harness("pair", h_pair, B),
    ]
