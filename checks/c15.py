"""C15: signal uncertainties."""
import numpy as np

from engine.env import Harness

from checks.c27 import norm_term


def syn(env):
    return env.mod("spey.backends.default_pdf.uncertainty_synthesizer").signal_uncertainty_synthesizer


def signal(env, nb):
    s = env.reals("s", nb, lo=-3.0, hi=6.0)
    for v in s:
        env.assume(env.Or(v >= 0.2, v <= -0.2, v == 0.0))
    return s


def uncertainty(env, name, nb, sym, nan=None):
    if sym:
        u = env.reals(name, nb, lo=-2.0, hi=4.0)
        if nan is not None:
            u[nan] = float("nan")
        return list(u), list(u), list(u)
    up = env.reals(name + "u", nb, lo=-2.0, hi=4.0)
    dn = env.reals(name + "d", nb, lo=-2.0, hi=4.0)
    if nan is not None:
        dn[nan] = float("nan")
    return [(a, b) for a, b in zip(up, dn)], list(up), list(dn)


def log_factor(env, al, s, up, dn):
    """al * log(relative factor), the factor at least one"""
    v = up if bool(al >= 0) else dn
    if env.is_nan(v) or bool(s == 0.0):
        return 0.0
    r = 1.0 + v / s
    return al * env.log(r) if bool(r > 1.0) else 0.0


CASES = [
    ("normalization", True, None),
    ("normalization", False, None),
    ("shape", True, None),
    ("shape", False, None),
    ("shape", False, 0),
    ("normalization", True, 1),
]


def run(env, s, specs, nsp, start=None):
    nb = len(s)
    mods, tabs = [], []
    for k, (kind, sym, nan) in enumerate(specs):
        arg, up, dn = uncertainty(env, "v%d" % k, nb, sym, nan if nan is None else nan % nb)
        mods.append({"type": kind, "name": "m%d" % k, "uncertainties": arg})
        tabs.append((kind, up, dn))
    kw = {} if start is None else {"domain_start": start}
    out = syn(env)(np.array(s), mods, n_signal_parameters=nsp, **kw)
    first = (1 + nsp + nb) if start is None else start
    want_n = sum(1 if kind == "normalization" else nb for kind, _, _ in tabs)
    env.check("count", out["n_parameters"] == want_n and len(out["parameter_names"]) == want_n and len(set(out["parameter_names"])) == want_n)
    n = first + want_n
    p = env.reals("p", n, lo=-2.0, hi=2.0)
    got = out["lambda"](np.array(p))
    at = first
    tot = [0.0] * nb
    for kind, up, dn in tabs:
        for i in range(nb):
            tot[i] = tot[i] + log_factor(env, p[at if kind == "normalization" else at + i], s[i], up[i], dn[i])
        at += 1 if kind == "normalization" else nb
    env.check("bins", np.shape(got) == (nb,))
    for i in range(nb):
        env.eq("factor", got[i], env.exp(tot[i]))
    # every parameter has its own unit normal constraint
    C = env.mod("spey.backends.distributions").ConstraintModel(out["constraint"])
    env.eq("constraint", C.log_prob(np.array(p)), env.sum([norm_term(env, t, 0.0, 1.0) for t in p[first:]]))


def h_single(env, nb, case):
    nsp = env.choice("signal_parameters", [0, 1])
    run(env, signal(env, nb), [case], nsp)


def h_double(env, kinds):
    """two modifiers of one bin"""
    run(env, signal(env, 1), [(k, sym, None) for k, sym in kinds], 0)


def h_layout(env):
    """two modifiers on two bins with symmetric fixed-sign parameters: positions of the parameters"""
    s = env.reals("s", 2, lo=0.5, hi=5.0)
    kinds = env.choice("kinds", [("normalization", "shape"), ("shape", "normalization"), ("shape", "shape"), ("normalization", "normalization", "shape")])
    start = env.choice("start", [None, 2, 7])
    nsp = env.choice("signal_parameters", [0, 2]) if start is None else 0
    rel = [[0.1, 0.2], [0.3, 0.15], [0.25, 0.05]]
    mods = [{"type": k, "name": "m%d" % j, "uncertainties": [s[i] * rel[j][i] for i in range(2)]} for j, k in enumerate(kinds)]
    kw = {} if start is None else {"domain_start": start}
    out = syn(env)(np.array(s), mods, n_signal_parameters=nsp, **kw)
    at = 3 + nsp if start is None else start
    n = at + sum(1 if k == "normalization" else 2 for k in kinds)
    p = env.reals("p", n, lo=0.1, hi=2.0)
    env.check("count", out["n_parameters"] == n - at and len(out["parameter_names"]) == n - at and len(set(out["parameter_names"])) == n - at)
    C = env.mod("spey.backends.distributions").ConstraintModel(out["constraint"])
    env.eq("constraint", C.log_prob(np.array(p)), env.sum([norm_term(env, x, 0.0, 1.0) for x in p[at:]]))
    # the parameters of a modifier carry its name, those of a shape in the order of the bins
    names, k0 = list(out["parameter_names"]), 0
    for j, k in enumerate(kinds):
        mine = names[k0 : k0 + (1 if k == "normalization" else 2)]
        k0 += len(mine)
        env.check("names", all("m%d" % j in x for x in mine) and (len(mine) == 1 or mine == sorted(mine)))
    tot = [0.0, 0.0]
    for j, k in enumerate(kinds):
        for i in range(2):
            tot[i] = tot[i] + p[at if k == "normalization" else at + i] * float(np.log(1.0 + rel[j][i]))
        at += 1 if k == "normalization" else 2
    got = out["lambda"](np.array(p))
    env.eq("factor", list(got), [env.exp(t) for t in tot], tol=1e-5)


def h_model(env):
    """asymmetric modifiers inside a model: factor multiplies the signal only"""
    dp = env.mod("spey.backends.default_pdf")
    which = env.choice("model", ["uncorrelated", "correlated", "effective-sigma", "third-moment"])
    kind = env.choice("type", ["normalization", "shape", "shape-normalization"])
    nb = 2
    s = env.reals("s", nb, lo=0.5, hi=5.0)
    b = env.reals("b", nb, lo=1.0, hi=9.0)
    up, dn = [0.2, 0.3], [0.1, 0.4]
    mods = [{"type": kind.split("-")[0], "name": "m", "uncertainties": [(s[i] * up[i], s[i] * dn[i]) for i in range(nb)]}]
    if "-" in kind:
        mods.append({"type": "normalization", "name": "k", "uncertainties": [s[i] * 0.15 for i in range(nb)]})
    d = [3.0, 4.0]
    if which == "uncorrelated":
        m = dp.UncorrelatedBackground(s, b, d, [0.5, 0.75], modifiers=mods)
    elif which == "correlated":
        m = dp.CorrelatedBackground(s, b, d, np.diag([0.25, 0.5625]), modifiers=mods)
    elif which == "effective-sigma":
        m = dp.EffectiveSigma(s, b, d, np.eye(2), [(0.5, 0.5), (0.75, 0.75)], modifiers=mods)
    else:
        m = dp.ThirdMomentExpansion(s, b, d, np.diag([0.25, 0.5625]), [0.0, 0.0], modifiers=mods)
    n = {"normalization": 4, "shape": 5, "shape-normalization": 6}[kind]
    p = env.reals("p", 3, lo=0.0, hi=2.0) + env.reals("alpha", n - 3, lo=-2.0, hi=2.0)
    got = m.expected_data(np.array(p), include_auxiliary=False)
    for i in range(nb):
        al = p[3 if kind == "normalization" else 3 + i]
        lf = al * (float(np.log(1.0 + up[i])) if bool(al >= 0) else float(np.log(1.0 + dn[i])))
        if "-" in kind:
            lf = lf + p[5] * float(np.log(1.15))
        env.eq("expected", got[i], b[i] + p[1 + i] * [0.5, 0.75][i] + p[0] * s[i] * env.exp(lf), tol=1e-5)
    env.check("parameters", m.config().npar == n)
    # every parameter of a modifier keeps its own unit normal constraint next to those of the background
    env.eq("constraints", m.constraint_model.log_prob(np.array(p)), env.sum([norm_term(env, t, 0.0, 1.0) for t in p[1:]]), tol=1e-6)
    env.eq("auxiliary", list(m.expected_data(np.array(p)))[nb:], [0.0] * (n - 1))


def h_refused(env):
    E = env.mod("spey.system.exceptions").InvalidUncertaintyDefinition
    s = list(env.reals("s", 2, lo=0.5, hi=5.0))
    u = env.real("u", lo=0.1, hi=1.0)
    bad = env.choice(
        "bad",
        [
            {"type": "other", "name": "x", "uncertainties": [u, u]},
            {"name": "x", "uncertainties": [u, u]},
            {"type": "shape", "name": "x", "uncertainties": [u]},
            {"type": "normalization", "uncertainties": [u, u, u]},
            {"type": "normalization", "uncertainties": [(u, u), (u, u), (u, u)]},
            {"type": "shape", "uncertainties": [[[u], [u]], [[u], [u]]]},
            {"type": "shape", "uncertainties": [(u, u, u), (u, u, u)]},
            {"type": "shape", "uncertainties": [(u,), (u,)]},
        ],
    )
    good = {"type": "shape", "name": "g", "uncertainties": [u, u]}
    where = env.choice("where", ["first", "last"])
    env.raises("refused", E, lambda: syn(env)(s, [bad, good] if where == "first" else [good, bad]))
    none = syn(env)(s, [])
    env.check("none", none["n_parameters"] == 0 and none["parameter_names"] == [] and none["constraint"] == [])
    env.eq("none", none["lambda"](np.array([1.0, 2.0, 3.0])), 1.0)


def harnesses(tier):
    hs = []
    for i, c in enumerate(CASES):
        for nb in (1, 2):
            hs.append(Harness("single-%s-%s-%s-%d" % (c[0], "symmetric" if c[1] else "asymmetric", c[2], nb), h_single, "%d bins, any yields, uncertainties, parameters" % nb, nb=nb, case=c))
    for a in ("normalization", "shape"):
        for b in (True, False):
            hs.append(Harness("double-%s-%s" % (a, b), h_double, "one bin, two modifiers", kinds=[(a, b), ("shape" if a == "normalization" else "normalization", True)]))
    hs.append(Harness("layout", h_layout, "2 bins, up to 3 modifiers, positive parameters"))
    hs.append(Harness("model", h_model, "2 bins, asymmetric modifier in three models"))
    hs.append(Harness("refused", h_refused, "malformed modifiers"))
    return hs
