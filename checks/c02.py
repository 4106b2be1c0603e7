"""C02: asymptotic p-values, CLs and the expected bands follow the documented formulae."""
from engine.env import Harness

from checks.c01 import consistent, spec
from checks.common import analytic_backend, expectations, tag, tsfam

NS = [2.0, 1.0, 0.0, -1.0, -2.0]


def h_delta(env):
    """the Delta statistic handed to the asymptotic distributions"""
    T = env.mod("spey.hypothesis_testing.test_statistics")
    X = env.mod("spey.system.exceptions")
    name = env.choice("name", ["q", "qmu", "qtilde", "qmutilde", "q0"])
    mu = env.real("mu")
    muhat, nll = env.real("muhat"), env.real("nll")
    muhatA, nllA = env.real("muhatA"), env.real("nllA")
    ll, llA = env.uf("logpdf"), env.uf("logpdfA")
    consistent(env, mu, muhat, -nll, ll)
    consistent(env, mu, muhatA, -nllA, llA)
    q = spec(env, name, mu, muhat, -nll, ll)
    qA = spec(env, name, mu, muhatA, -nllA, llA)
    try:
        _, _, d = T.compute_teststatistics(mu, (muhat, nll), ll, (muhatA, nllA), llA, name)
    except X.AsimovTestStatZero:
        env.check(f"zero-asimov-{name}", env.And(qA <= 0, q > 0, name in ("qtilde", "qmutilde")))
        return
    s, sA = env.sqrt(q), env.sqrt(qA)
    if name in ("q", "qmu", "q0") or s <= sA:
        env.eq(f"delta-{name}", d, s - sA)
    else:
        env.eq(f"delta-tail-{name}", d, (q - qA) / (2.0 * sA))


def h_cls(env):
    A = env.mod("spey.hypothesis_testing")
    name = env.choice("name", ["q", "qtilde", "q0"])
    sA = env.real("sqrt_qA", lo=0.0, hi=6.0)
    d = env.real("delta", lo=-6.0, hi=6.0)
    obs, exp = A.compute_asymptotic_confidence_level(sA, d, name)
    env.check("one-observed", len(obs) == 1)
    env.check("five-expected", len(exp) == 5)
    sb, b = env.Phi(-sA - d), env.Phi(-d)
    # tail ratio facts used below: Phi is log-concave, so Phi(x - s)/Phi(x) grows with x
    if name == "q0":
        env.eq("CLsb-observed", obs[0], sb)
        for n, e in zip(NS, exp):
            env.eq(f"CLsb-expected", e, env.Phi(-sA - n))
    else:
        env.eq("CLs-observed", obs[0] * b, sb)
        for n, e in zip(NS, exp):
            env.eq(f"CLs-expected", e * env.Phi(-n), env.Phi(-sA - n))
    for v in list(obs) + list(exp):
        env.le("range-low", 0.0, v)
        env.le("range-high", v, 1.0)


def h_band(env):
    """the five expected values are ordered"""
    A = env.mod("spey.hypothesis_testing")
    name = env.choice("name", ["q", "qtilde", "q0"])
    sA = env.real("sqrt_qA", lo=0.0, hi=6.0)
    for hi, lo in zip(NS, NS[1:]):
        # log-concavity of Phi: Phi(-sA - hi) / Phi(-hi) <= Phi(-sA - lo) / Phi(-lo)
        env.axiom(env.Phi(-sA - hi) * env.Phi(-lo) <= env.Phi(-sA - lo) * env.Phi(-hi))
    _, exp = A.compute_asymptotic_confidence_level(sA, 0.0, name)
    for i in range(4):
        env.le("band-ordered", exp[i], exp[i + 1])


def h_monotone(env):
    """a larger observed test statistic never gives a larger p-value"""
    A = env.mod("spey.hypothesis_testing")
    name = env.choice("name", ["q", "qtilde", "q0"])
    sA = env.real("sqrt_qA", lo=0.0, hi=6.0)
    d1, d2 = env.real("d1", lo=-6.0, hi=6.0), env.real("d2", lo=-6.0, hi=6.0)
    env.assume(d1 <= d2)
    env.axiom(env.Phi(-sA - d2) * env.Phi(-d1) <= env.Phi(-sA - d1) * env.Phi(-d2))
    (p1,), _ = A.compute_asymptotic_confidence_level(sA, d1, name)
    (p2,), _ = A.compute_asymptotic_confidence_level(sA, d2, name)
    env.le("monotone", p2, p1)


def model(env, alive=True):
    """statistical model over arbitrary likelihood / Asimov likelihood functions"""
    SM = env.mod("spey.interface.statistical_model").StatisticalModel
    X = {"nll": env.uf("nll"), "anll": env.uf("anll")}
    opt = {}

    def mle(expected, allow, data):
        t = (tag(env, expected), 1.0 if allow else 0.0)
        return opt.setdefault(("d",) + t, (env.real("muhat%d%d" % t), env.real("min%d%d" % t)))

    def amle(expected, ts):
        t = (tag(env, expected), tsfam(ts))
        return opt.setdefault(("a",) + t, (env.real("muhatA%d%d" % t), env.real("minA%d%d" % t)))

    hooks = dict(
        nll=lambda p, e, d: X["nll"](p, tag(env, e)),
        anll=lambda p, e, ts: X["anll"](p, tag(env, e), tsfam(ts)),
        mle=mle,
        amle=amle,
        alive=alive,
    )
    b, log = analytic_backend(env, **hooks)
    return SM(backend=b, analysis="a"), log, hooks


def h_exclusion(env):
    """exclusion_confidence_level(asymptotic) = 1 - CLs of the documented statistics"""
    m, log, hk = model(env)
    expected = env.choice("expected", expectations(env) + ["all"])
    allow = env.bool("allow")
    mu = env.real("mu")
    name = "q" if allow else "qtilde"
    e = expectations(env)[0] if expected == "all" else expected
    muhat, nll = hk["mle"](e, allow, None)
    muhatA, nllA = hk["amle"](e, name)
    ll = lambda p: -hk["nll"](p, e, None)  # noqa: E731
    llA = lambda p: -hk["anll"](p, e, name)  # noqa: E731
    consistent(env, mu, muhat, -nll, ll)
    consistent(env, mu, muhatA, -nllA, llA)
    got = m.exclusion_confidence_level(poi_test=mu, expected=expected, allow_negative_signal=allow)
    q, qA = spec(env, name, mu, muhat, -nll, ll), spec(env, name, mu, muhatA, -nllA, llA)
    s, sA = env.sqrt(q), env.sqrt(qA)
    zero = False
    if allow or s <= sA:
        d = s - sA
    elif sA > 0:
        d = (q - qA) / (2.0 * sA)
    else:
        zero = True
    if expected == "all":
        env.check("all-is-a-pair", len(got) == 2)
        obs, ex = got
    else:
        obs = got if str(expected) == "observed" else None
        ex = got if obs is None else None
    if obs is not None:
        env.check("one-observed-value", len(obs) == 1)
        if zero:
            env.eq("no-sensitivity", obs, [0.0])
        else:
            env.eq("observed", (1.0 - obs[0]) * env.Phi(-d), env.Phi(-sA - d))
        env.le("range-low", 0.0, obs[0])
        env.le("range-high", obs[0], 1.0)
    if ex is not None:
        env.check("five-expected-values", len(ex) == 5)
        if zero:
            env.eq("no-sensitivity", ex, [0.0] * 5)
        else:
            for n, v in zip(NS, ex):
                env.eq("expected", (1.0 - v) * env.Phi(-n), env.Phi(-sA - n))
        for v in ex:
            env.le("range-low", 0.0, v)
            env.le("range-high", v, 1.0)
    env.check("fit-allows-negative-iff-asked", all(c["allow"] == allow for c in log.of("mle")))


def h_significance(env):
    m, log, hk = model(env)
    expected = env.choice("expected", expectations(env))
    muhat, nll = hk["mle"](expected, False, None)
    muhatA, nllA = hk["amle"](expected, "q0")
    ll = lambda p: -hk["nll"](p, expected, None)  # noqa: E731
    llA = lambda p: -hk["anll"](p, expected, "q0")  # noqa: E731
    consistent(env, 0.0, muhat, -nll, ll)
    consistent(env, 0.0, muhatA, -nllA, llA)
    sA, s, obs, ex = m.significance(expected=expected)
    q, qA = spec(env, "q0", 0.0, muhat, -nll, ll), spec(env, "q0", 0.0, muhatA, -nllA, llA)
    rs, rA = env.sqrt(q), env.sqrt(qA)
    env.eq("sqrt-q0", s, rs)
    env.eq("sqrt-q0A", sA, rA)
    env.check("one-observed-value", len(obs) == 1)
    env.check("five-expected-values", len(ex) == 5)
    env.eq("p0-observed", obs[0], env.Phi(-rs))
    for n, v in zip(NS, ex):
        env.eq("p0-expected", v, env.Phi(-rA - n))


def h_calculators(env):
    """asking for a calculator the backend cannot provide is refused, not answered"""
    SM = env.mod("spey.interface.statistical_model").StatisticalModel
    X = env.mod("spey.system.exceptions")
    b, _ = analytic_backend(env, nll=lambda p, e, d: 0.0, mle=lambda e, a, d: (0.0, 0.0))
    m = SM(backend=b, analysis="a")
    calc = env.choice("calc", ["toy", "nonsense", "TOY"])
    env.raises("calculator-refused", X.CalculatorNotAvailable, lambda: m.exclusion_confidence_level(calculator=calc))


def harnesses(tier):
    R = "mu, fitted values and likelihood functions over all reals"
    SB = "the backend's (Asimov) likelihood and its minimum are arbitrary functions / reals"
    ax = "Phi strictly increasing, Phi(-x)=1-Phi(x), 0<Phi<1, log-concave"
    return [
        Harness("delta", h_delta, "mu, muhat, NLLs and likelihoods over all reals; five names"),
        Harness("cls", h_cls, "0<=sqrt(qA)<=6, |delta|<=6", axioms=ax),
        Harness("band", h_band, "0<=sqrt(qA)<=6", axioms=ax),
        Harness("monotone", h_monotone, "0<=sqrt(qA)<=6, |delta|<=6", axioms=ax),
        Harness("exclusion", h_exclusion, R + "; three expectations plus 'all'; both signal conventions", stubs=SB, axioms=ax),
        Harness("significance", h_significance, R, stubs=SB, axioms=ax),
        Harness("calculators", h_calculators, "three unavailable calculators"),
    ]
