"""C17: the combiner is a collection of distinct analyses."""
from engine.env import Harness

from checks.c16 import NAMES, mod
from checks.common import analytic_backend


def model(env, name, alive=True, low=-10.0, cls=None, **hooks):
    SM = cls or env.mod("spey.interface.statistical_model").StatisticalModel
    MC = env.mod("spey.base.model_config").ModelConfig
    b, _ = analytic_backend(env, nll=lambda mu, e, d: mu * mu, alive=alive, **hooks)
    b.__class__.config = lambda self, allow_negative_signal=True, poi_upper_bound=10.0: MC(0, low, [1.0], [(low, poi_upper_bound)])
    return SM(backend=b, analysis=name)


def agrees(env, comb, ref):
    """every observation of the container agrees with the list of models"""
    env.check("length", len(comb) == len(ref))
    env.check("iteration", [id(m) for m in comb] == [id(m) for m in ref], "iteration order")
    env.check("models", [id(m) for m in comb.statistical_models] == [id(m) for m in ref])
    env.check("names", list(comb.analyses) == [m.analysis for m in ref])
    env.check("items", [(n, id(m)) for n, m in comb.items()] == [(m.analysis, id(m)) for m in ref])
    for m in ref:
        env.check("by-name", comb[m.analysis] is m)
    for i in range(-len(ref), len(ref)):
        env.check("by-index", comb[i] is ref[i])


def h_sequence(env, steps):
    """any sequence of insertions, removals and look-ups"""
    AQ = env.mod("spey.system.exceptions").AnalysisQueryError
    pool = [model(env, n) for n in NAMES[:2]] + [model(env, NAMES[0])]  # two objects share a name
    ref = []
    if env.choice("initial", [False, True]):
        comb = mod(env)(pool[0], pool[1])
        ref = [pool[0], pool[1]]
    else:
        comb = mod(env)()
    for k in range(steps):
        op = env.choice("op%d" % k, [("add", 0), ("add", 1), ("add", 2), ("foreign", 0), ("remove", 0), ("remove", 1), ("remove", 2)])
        what, i = op
        if what == "add":
            m = pool[i]
            if any(x.analysis == m.analysis for x in ref):
                env.raises("duplicate", AQ, lambda: comb.append(m))
            else:
                comb.append(m)
                ref.append(m)
        elif what == "foreign":
            for bad in (m_backend(pool), 3.0, None, NAMES[0], comb):
                env.raises("foreign", TypeError, lambda: comb.append(bad))
        else:
            name = [NAMES[0], NAMES[1], "absent"][i]
            if any(x.analysis == name for x in ref):
                comb.remove(name)
                ref = [x for x in ref if x.analysis != name]
            else:
                env.raises("remove-absent", AQ, lambda: comb.remove(name))
        agrees(env, comb, ref)


def m_backend(pool):
    return pool[0].backend


def h_lookup(env):
    AQ = env.mod("spey.system.exceptions").AnalysisQueryError
    n = env.choice("n", [1, 2, 3, 4])
    ms = [model(env, x) for x in NAMES[:n]]
    comb = mod(env)(*ms)
    i = env.int("index", 0, 5)
    for k in range(6):
        if i == k:
            if k < n:
                env.check("index", comb[k] is ms[k])
            else:
                env.raises("beyond", AQ, lambda: comb[k])
            a = env.choice("from", [None, 0, 1, -1, -2])
            step = env.choice("step", [None, 2, -1])
            env.check("slice", [id(m) for m in comb[a:k:step]] == [id(m) for m in ms[a:k:step]])
    for name in ("absent", "", "On", "one "):
        env.raises("absent", AQ, lambda: comb[name])


def h_concat(env):
    AQ = env.mod("spey.system.exceptions").AnalysisQueryError
    ms = [model(env, x) for x in NAMES[:3]] + [model(env, NAMES[0])]
    left = env.choice("left", [(), (0,), (0, 1), (1, 0)])
    right = env.choice("right", [(), (2,), (1,), (3,), (1, 2), (2, 3), "model0", "model2", "model3", "foreign"])
    L = mod(env)(*[ms[i] for i in left])
    if right == "foreign":
        for bad in (ms[0].backend, 2.0, [ms[2]], None):
            env.raises("foreign", (ValueError, TypeError), lambda: L @ bad)
        return agrees(env, L, [ms[i] for i in left])
    if isinstance(right, str):
        idx = (int(right[-1]),)
        R = ms[idx[0]]
    else:
        idx = right
        R = mod(env)(*[ms[i] for i in idx])
    names = [ms[i].analysis for i in left + idx]
    if len(set(names)) != len(names):
        env.raises("duplicate", AQ, lambda: L @ R)
    else:
        new = L @ R
        env.check("new-object", new is not L and new is not R)
        agrees(env, new, [ms[i] for i in left + idx])
        extra = model(env, "extra")
        new.append(extra)
    agrees(env, L, [ms[i] for i in left])
    if not isinstance(right, str):
        agrees(env, R, [ms[i] for i in idx])


def h_combined(env, n):
    """properties derived from the members"""
    low = env.reals("lowest", n, lo=-10.0, hi=0.0)
    alive = [env.choice("alive%d" % i, [True, False]) for i in range(n)]
    calc = [env.choice("calculators%d" % i, ["all", "none", "fit-only"]) for i in range(n)]
    full = dict(mle=lambda e, a, d: (0.0, 1.0), anll=lambda m, e, t: 1.0, amle=lambda e, t: (0.0, 1.0))
    ms = []
    for i in range(n):
        h = {"all": full, "fit-only": {"mle": full["mle"]}, "none": {}}[calc[i]]
        ms.append(model(env, NAMES[i], alive[i], low[i], **h))
    if calc[0] == "none":
        for i, m in enumerate(ms):
            if calc[i] == "none":
                m.backend.__class__.is_chi_square_calculator_available = False
    comb = mod(env)(*ms)
    v = comb.minimum_poi
    for q in low:
        env.check("not-below-a-member", v >= q - 1e-9)
    env.check("lowest-of-a-member", env.Or(*[v <= q + 1e-9 for q in low]))
    env.check("alive", bool(comb.is_alive) == any(alive))
    for attr in ("is_asymptotic_calculator_available", "is_chi_square_calculator_available"):
        each = [bool(getattr(m, attr)) for m in ms]
        env.check(attr, bool(getattr(comb, attr)) == all(each), "%s offered by %s" % (attr, each))
    each = [bool(m.is_toy_calculator_available) for m in ms]
    env.check("toys", not comb.is_toy_calculator_available or all(each))


def h_calculators(env):
    """members with every combination of calculators; the offer is the common part"""
    SM = env.mod("spey.interface.statistical_model").StatisticalModel
    ms, flags = [], []
    for i in range(3):
        f = env.choice("flags%d" % i, [(True, True), (True, False), (False, True), (False, False)])

        class M(SM):
            is_asymptotic_calculator_available = f[0]
            is_chi_square_calculator_available = f[1]

        ms.append(model(env, NAMES[i], cls=M))
        flags.append(f)
    comb = mod(env)(*ms)
    env.check("asymptotic", bool(comb.is_asymptotic_calculator_available) == all(f[0] for f in flags))
    env.check("chi-square", bool(comb.is_chi_square_calculator_available) == all(f[1] for f in flags))
    CNA = env.mod("spey.system.exceptions").CalculatorNotAvailable
    if not all(f[0] for f in flags):
        env.raises("asymptotic-refused", CNA, lambda: comb.exclusion_confidence_level(1.0, calculator="asymptotic"))
    if not all(f[1] for f in flags):
        env.raises("chi-square-refused", CNA, lambda: comb.exclusion_confidence_level(1.0, calculator="chi_square"))
    env.raises("toys-refused", CNA, lambda: comb.exclusion_confidence_level(1.0, calculator="toy"))


def h_sensitive(env, n):
    """the most sensitive analysis has the smallest expected excluded cross section"""
    SM = env.mod("spey.interface.statistical_model").StatisticalModel
    x = env.reals("s95", n, lo=0.1, hi=50.0)
    for i in range(n):
        for j in range(i):
            env.assume(env.Or(x[i] - x[j] >= 1e-3, x[j] - x[i] >= 1e-3))
    ms = []
    for i in range(n):

        class M(SM):
            s95exp = x[i]

        ms.append(model(env, NAMES[i], cls=M))
    best = mod(env)(*ms).find_most_sensitive()
    k = [i for i in range(n) if ms[i] is best]
    env.check("is-a-member", len(k) == 1)
    for j in range(n):
        env.check("most-sensitive", x[k[0]] <= x[j])


def harnesses(tier):
    hs = []
    for k in (3,) if tier == "quick" else (3, 4):
        hs.append(Harness("sequence-%d" % k, h_sequence, "every sequence of %d operations over 3 models with 2 names" % k, steps=k, max_paths=9000))
    hs.append(Harness("lookup", h_lookup, "1-4 members, indices 0-5, slices"))
    hs.append(Harness("concatenation", h_concat, "up to 2+2 members, clashing names, foreign operands"))
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
        hs.append(Harness("derived-%d" % n, h_combined, "%d members, any lowest signal, liveness, shortcuts" % n, n=n))
    hs.append(Harness("calculators", h_calculators, "3 members, every offer"))
    for n in (2, 3):
        hs.append(Harness("most-sensitive-%d" % n, h_sensitive, "%d members, any expected limits" % n, n=n))
    return hs
