"""C04: the chi-square calculator."""
from engine.env import Harness

from checks.c01 import consistent, spec
from checks.c02 import NS
from checks.common import analytic_backend, expectations, tag


def model(env, full):
    SM = env.mod("spey.interface.statistical_model").StatisticalModel
    f = env.uf("nll")
    got = {}

    def mle(e, allow, data):
        k = (tag(env, e), int(allow))
        return got.setdefault(k, (env.real("muhat%d%d" % k), env.real("min%d%d" % k)))

    def boom(*a):
        env.fail("needs-data-likelihood-only", "Asimov data or sampling used")
        return (0.0, 0.0)

    hooks = dict(nll=lambda p, e, d: f(p, tag(env, e)), mle=mle)
    if full:
        hooks.update(anll=boom, amle=boom, sampler=boom)
    b, log = analytic_backend(env, **hooks)
    return SM(backend=b, analysis="a"), log, hooks


def h_value(env):
    m, log, hk = model(env, env.bool("shortcuts"))
    e = env.choice("expected", expectations(env) + ["all"])
    ee = expectations(env)[0] if e == "all" else e
    allow = env.bool("allow")
    mu = env.real("mu")
    name = "q" if allow else "qtilde"
    muhat, mn = hk["mle"](ee, allow, None)
    ll = lambda p: -hk["nll"](p, ee, None)  # noqa: E731
    consistent(env, mu, muhat, -mn, ll)
    got = m.exclusion_confidence_level(poi_test=mu, expected=e, allow_negative_signal=allow, calculator="chi_square")
    q = spec(env, name, mu, muhat, -mn, ll)
    pos = lambda x: env.ite(x > 0, x, 0.0)  # noqa: E731
    if name == "q":
        q0 = pos(2.0 * (-mn - ll(0.0)))
    else:
        q0 = env.ite(muhat >= 0, pos(2.0 * (-mn - ll(0.0))), 0.0)
    s, s0 = env.sqrt(q), env.sqrt(q0)
    if allow or s0 >= s:
        d = s0 - s
    else:
        d = (q0 - q) / (2.0 * s)
    obs = exp = None
    if e == "all":
        env.check("all-is-a-pair", len(got) == 2)
        obs, exp = got
    elif str(e) == "observed":
        obs = got
    else:
        exp = got
    if obs is not None:
        env.check("one-observed", len(obs) == 1)
        env.eq("observed", (1.0 - obs[0]) * env.Phi(-d), env.Phi(-s - d))
        env.check("no-exclusion-at-the-fit", env.Implies(q == 0, obs[0] == 0))
    if exp is not None:
        env.check("five-expected", len(exp) == 5)
        for n, v in zip(NS, exp):
            env.eq("expected", (1.0 - v) * env.Phi(-n), env.Phi(-s - n))
    for v in (obs or []) + (exp or []):
        env.le("range-low", 0.0, v)
        env.le("range-high", v, 1.0)
    env.check("fit-allows-negative-iff-asked", all(c["allow"] == allow for c in log.of("mle")))
    env.check("no-data-override", all(c["data"] is None for c in log.of("mle") + log.of("nll")))


def h_available(env):
    """it is offered by every model"""
    m, log, hk = model(env, env.bool("shortcuts"))
    env.check("offered", m.is_chi_square_calculator_available and "chi_square" in m.available_calculators)


def harnesses(tier):
    ax = "Phi strictly increasing, Phi(-x)=1-Phi(x), 0<Phi<1"
    return [
        Harness("value", h_value, "mu, fitted values and likelihood function over all reals; all expectations, both conventions", stubs="likelihood and fit are arbitrary", axioms=ax),
        Harness("available", h_available, "models with and without Asimov/sampling shortcuts"),
    ]
