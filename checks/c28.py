"""C28: toys are drawn from the model at the profiled, requested hypothesis."""
import numpy as np
import scipy.stats

from engine.env import Harness

from checks.common import deterministic_answers, expectations, numeric_backend, stub_minimize, swap_names, tag

COV = [[2.0, 0.5, 0.2], [0.5, 1.5, -0.4], [0.2, -0.4, 3.0]]
UNC = [0.5, 0.75, 1.25]


class Draws:
    """stand-in for the random generators: every draw is a new number, its law is recorded"""

    def __init__(self):
        self.law = {}  # drawn number -> (kind, row, parameters of this component)
        self.n = 0
        self.calls = []

    def new(self, *law):
        v = 1000.25 + self.n
        self.n += 1
        self.law[v] = law
        return v

    def frozen(self, kind, params):
        me = self

        class Frozen:
            def rvs(self, size=1, random_state=None):
                call = len(me.calls)
                me.calls.append((kind, params, size))
                if kind == "mvn":
                    mean, cov = params
                    k = len(mean)
                    shape = tuple(size) if isinstance(size, (tuple, list)) else (int(size),)
                    out = np.empty(shape + (k,))
                    for idx in np.ndindex(*shape):
                        row = me.n
                        for j in range(k):
                            out[idx + (j,)] = me.new("mvn", (call, row), j, mean, cov)
                    return np.squeeze(out)
                size = tuple(size) if isinstance(size, (tuple, list)) else (int(size),)
                out = np.empty(size)
                ps = [np.broadcast_to(np.asarray(p, dtype=object), size) for p in params]
                for idx in np.ndindex(*size):
                    out[idx] = me.new(kind, None, 0, *[p[idx] for p in ps])
                return out

        return Frozen()

    def law_of(self, v):
        return self.law.get(float(v))


def generators(env, dr):
    D = env.mod("spey.backends.distributions")

    def dist(kind, names, defaults):
        class Dist:
            def params(self, args, kw):
                vals = dict(zip(names, defaults))
                vals.update(zip(names, args))
                vals.update({k: v for k, v in kw.items() if k in names})
                return [vals[k] for k in names]

            def __call__(self, *args, **kw):
                return dr.frozen(kind, self.params(args, kw))

            def rvs(self, *args, size=1, random_state=None, **kw):
                return dr.frozen(kind, self.params(args, kw)).rvs(size)

        return Dist()

    swap_names(
        env,
        D,
        {
            scipy.stats.poisson: dist("poisson", ("mu",), (None,)),
            scipy.stats.norm: dist("normal", ("loc", "scale"), (0.0, 1.0)),
            scipy.stats.multivariate_normal: dist("mvn", ("mean", "cov"), (None, 1.0)),
        },
    )


def model(env, which, nb):
    """model, number of parameters, reference mean, law of the main draws, constraint blocks"""
    dp = env.mod("spey.backends.default_pdf")
    sp = env.mod("spey.backends.default_pdf.simple_pdf")
    s, b = env.reals("s", nb, lo=0.5, hi=6.0), env.reals("b", nb, lo=8.0, hi=30.0)
    d = [float(5 + i) for i in range(nb)]
    S, B = np.array(s), np.array(b)
    u = UNC[:nb]
    cov = np.array([r[:nb] for r in COV[:nb]])
    sd = np.sqrt(np.diag(cov))
    corr = cov / np.outer(sd, sd)
    base = lambda p: [b[i] + p[0] * s[i] for i in range(nb)]
    shifted = lambda w: (lambda p: [b[i] + p[0] * s[i] + p[1 + i] * w[i] for i in range(nb)])
    if which == "poisson":
        return sp.Poisson(s, B, d), 1, base, ("poisson", None), []
    if which == "poisson-uncertainty":
        return sp.Poisson(s, B, d, u), 1 + nb, shifted(u), ("poisson", None), []
    if which == "normal":
        return sp.Gaussian(S, B, d, u), 1, base, ("normal", lambda p: u), []
    if which == "normal-function":
        return sp.Gaussian(S, B, d, lambda p: np.array(u) + p[0] * p[0]), 1, base, ("normal", lambda p: [v + p[0] * p[0] for v in u]), []
    if which == "mvn":
        return sp.MultivariateNormal(S, B, d, cov), 1, base, ("mvn", lambda p: cov), []
    if which == "mvn-function":
        return sp.MultivariateNormal(S, B, d, lambda p: cov * (1.0 + p[0] * p[0])), 1, base, ("mvn", lambda p: cov * (1.0 + p[0] * p[0])), []
    if which == "uncorrelated":
        return dp.UncorrelatedBackground(S, B, d, u), 1 + nb, shifted(u), ("poisson", None), [("normal", nb)]
    if which == "correlated":
        return dp.CorrelatedBackground(S, B, d, cov), 1 + nb, shifted(sd), ("poisson", None), [("mvn", corr)]
    if which == "effective-sigma":
        return dp.EffectiveSigma(S, B, d, corr, [(v, v) for v in u]), 1 + nb, shifted(u), ("poisson", None), [("mvn", corr)]
    if which in ("correlated-shape", "effective-sigma-normalization"):
        kind = which.split("-")[-1]
        mods = [{"type": kind, "name": "m", "uncertainties": [0.25 * v for v in s]}]
        m = dp.CorrelatedBackground(S, B, d, cov, modifiers=mods) if which == "correlated-shape" else dp.EffectiveSigma(S, B, d, corr, [(v, v) for v in u], modifiers=mods)
        k = 1 if kind == "normalization" else nb
        return m, 1 + nb + k, None, ("poisson", None), [("mvn", corr)] + [("normal", 1)] * k
    if which in ("normalization", "shape"):
        k = 1 if which == "normalization" else nb
        m = dp.UncorrelatedBackground(S, B, d, u, modifiers=[{"type": which, "name": "m", "uncertainties": [0.25 * v for v in s]}])
        return m, 1 + nb + k, None, ("poisson", None), [("normal", nb)] + [("normal", 1)] * k
    raise KeyError(which)


def h_model(env, which, nb):
    """shape, order, law and independence of the draws of one model"""
    dr = Draws()
    generators(env, dr)
    m, n, mean, (kind, width), blocks = model(env, which, nb)
    p = env.reals("p", n, lo=-1.0, hi=2.0)
    size = env.int("size", 1, 3)
    mu = mean(p) if mean else None
    if mu is not None:
        for v in mu:
            env.assume(v >= 0.01)
    else:
        mu = list(m.expected_data(np.array(p), include_auxiliary=False))
    full = env.choice("call", ["default", "with", "without"]) if blocks else "default"
    f = m.get_sampler(np.array(p))
    out = f(size) if full == "default" else f(size, include_auxiliary=full == "with")
    naux = sum(b[1] if b[0] == "normal" else len(b[1]) for b in blocks) if full != "without" else 0
    env.check("shape", np.shape(out) == (size, nb + naux), f"shape {np.shape(out)} for {size} toys of {nb} bins and {naux} auxiliary entries")
    seen = set()
    for r in range(size):
        for v in out[r]:
            env.check("fresh-draw", float(v) in dr.law and float(v) not in seen, "an entry is no draw of the generators or is used twice")
            seen.add(float(v))
        laws = [dr.law_of(v) for v in out[r]]
        for j in range(nb):
            env.check("main-law", laws[j][0] == kind, f"{laws[j][0]} instead of {kind}")
        check_block(env, "main", laws[:nb], kind, mu, width(p) if width else None, 1e-6)
        at = nb
        for b in blocks if naux else []:
            k = b[1] if b[0] == "normal" else len(b[1])
            check_block(env, "auxiliary", laws[at : at + k], b[0], [0.0] * k, [1.0] * k if b[0] == "normal" else b[1], 1e-6)
            at += k
    again = f(size)
    env.check("fresh-toys", not any(float(v) in seen for v in np.ravel(again)), "a second call returned earlier draws")


def check_block(env, label, laws, kind, mean, width, tol):
    for j, law in enumerate(laws):
        env.check(label + "-law", law[0] == kind)
        if kind == "mvn":
            env.check(label + "-component", law[2] == j, "components of a multivariate draw out of order")
            env.check(label + "-one-draw", law[1] == laws[0][1], "components of different draws mixed")
        else:
            env.eq(label + "-mean", law[3], mean[j], tol=tol)
            if kind == "normal":
                env.eq(label + "-width", law[4], width[j], tol=tol)
    if kind == "mvn":
        env.check(label + "-size", len(laws[0][3]) == len(laws))
        env.eq(label + "-mean", list(laws[0][3]), list(mean), tol=tol)
        for a in range(len(laws)):
            for b in range(len(laws)):
                env.eq(label + "-cov", laws[0][4][a][b], width[a][b], tol=tol)


def h_terms(env):
    """constraint terms on their own: order of the blocks, parameters each law depends on"""
    dr = Draws()
    generators(env, dr)
    D = env.mod("spey.backends.distributions")
    p = env.reals("p", 4, lo=-2.0, hi=2.0)
    m = env.reals("m", 2, lo=-2.0, hi=2.0)
    s = [0.5, 1.25]
    c = np.array([[2.0, 0.5], [0.5, 1.5]])
    terms = {
        "normal": ({"distribution_type": "normal", "args": [np.array(m), np.array(s)], "kwargs": {"domain": slice(1, 3)}}, "normal", m, s),
        "normal-function": ({"distribution_type": "normal", "args": [np.array(m), lambda x: np.array(s) + x * x], "kwargs": {"domain": slice(2, 4)}}, "normal", m, [s[i] + p[2 + i] * p[2 + i] for i in range(2)]),
        "mvn": ({"distribution_type": "multivariatenormal", "args": [np.array(m), c], "kwargs": {"domain": slice(0, 2)}}, "mvn", m, c),
        "mvn-function": ({"distribution_type": "multivariatenormal", "args": [np.array(m), lambda x: c * (1.0 + x[0] * x[0])], "kwargs": {"domain": slice(1, 3)}}, "mvn", m, c * (1.0 + p[1] * p[1])),
    }
    use = env.choice("terms", [("normal", "normal-function"), ("mvn", "normal"), ("normal-function", "mvn-function"), ("mvn-function", "mvn", "normal")])
    size = env.int("size", 1, 2)
    out = D.ConstraintModel([terms[t][0] for t in use]).sample(np.array(p), size)
    env.check("shape", np.shape(out) == (size, 2 * len(use)), f"shape {np.shape(out)}")
    for r in range(size):
        laws = [dr.law_of(v) for v in out[r]]
        env.check("fresh-draw", all(l is not None for l in laws))
        for k, t in enumerate(use):
            check_block(env, "auxiliary", laws[2 * k : 2 * k + 2], terms[t][1], terms[t][2], terms[t][3], 1e-6)


def h_interface(env, npar, names):
    """which parameters reach the sampler"""
    SM = env.mod("spey.interface.statistical_model").StatisticalModel
    poi = env.int("poi", 0, npar - 1)
    f = env.uf("nll")
    got, kinds = [], []

    def sampler(pars):
        kinds.append(getattr(pars, "shape", None))
        got.append(list(pars))
        tok = len(got)
        return lambda size: [[float(100 * tok + i)] for i in range(size)]

    pad = [0.0] * (3 - npar)
    b, log = numeric_backend(env, npar=npar, poi=poi, names=["mu", "theta", "xi"][:npar] if names else None, nll=lambda p, e, d: f(*list(p), *pad, tag(env, e)), sampler=sampler)
    rec = stub_minimize(env, deterministic_answers(env, npar))
    m = SM(backend=b, analysis="a")
    E = env.mod("spey.utils").ExpectationType
    e = env.choice("expected", [None] + expectations(env))
    how = env.choice("poi_test", ["value", "dict-poi", "dict-all"] if npar > 1 else ["value", "dict-poi"])
    v = env.reals("v", npar, lo=-4.0, hi=4.0)
    if how == "value":
        arg, want = v[poi], {poi: v[poi]}
    elif how == "dict-poi":
        arg, want = {(["mu", "theta", "xi"][poi] if names else poi): v[poi]}, {poi: v[poi]}
    else:
        arg, want = {i: v[i] for i in range(npar)}, {i: v[i] for i in range(npar)}
    kw = {} if e is None else {"expected": e}
    size = env.choice("size", [None, 1, 3, np.int64(2)])
    out = m.fixed_poi_sampler(arg, **kw) if size is None else m.fixed_poi_sampler(arg, size=size, **kw)
    env.check("one-sampler", len(got) == 1 and len(got[0]) == npar)
    env.check("parameters-are-an-array", kinds == [(npar,)])
    for i, x in want.items():
        env.eq("tested-value", got[0][i], x)
    if size is None:
        env.check("reusable", callable(out))
        env.check("reusable-size", len(out(2)) == 2 and len(out(5)) == 5)
    else:
        env.check("size", not callable(out) and len(out) == int(size), "not the requested number of toys")
        env.check("from-sampler", [x[0] for x in out] == [100.0 + i for i in range(int(size))])
    if npar > 1 or how != "value":
        env.check("fitted", len(rec) >= 1)
        free = [i for i in range(npar) if i not in want]
        last = rec[-1]
        pt = env.reals("pt", npar, lo=-2.0, hi=2.0)
        ee = E.observed if e is None else e
        env.eq("expectation-of-the-fit", last["fun"](np.array(pt)), f(*pt, *pad, tag(env, ee)))
        if free:
            ref, pars = m.likelihood(arg, return_parameters=True, **kw)
            for i in free:
                env.eq("profiled", got[0][i], pars[i])


def h_refused(env):
    """a model that cannot sample"""
    SM = env.mod("spey.interface.statistical_model").StatisticalModel
    X = env.mod("spey.system.exceptions")
    npar = env.int("npar", 1, 2)
    f = env.uf("nll")
    b, log = numeric_backend(env, npar=npar, nll=lambda p, e, d: f(*list(p), *([0.0] * (2 - npar))))
    stub_minimize(env, deterministic_answers(env, npar))
    m = SM(backend=b, analysis="a")
    size = env.choice("size", [None, 2])
    v = env.real("v", lo=-4.0, hi=4.0)
    env.raises("clear-error", X.MethodNotAvailable, lambda: m.fixed_poi_sampler(v, size=size))
    env.check("not-advertised", m.is_toy_calculator_available is False)


def harnesses(tier):
    st = "scipy's Poisson, normal and multivariate normal generators are stand-ins recording the law of every draw"
    nbs = (1, 2) if tier == "quick" else (1, 2, 3)
    out = []
    for w in ("poisson", "poisson-uncertainty", "normal", "normal-function", "mvn", "mvn-function", "uncorrelated", "correlated", "effective-sigma", "normalization", "shape", "correlated-shape", "effective-sigma-normalization"):
        for nb in nbs:
            out.append(Harness(f"{w}-{nb}", h_model, f"{nb} bins, 1 to 3 toys, any yields and parameters", stubs=st, which=w, nb=nb))
    for npar, names in ((1, True), (2, True), (2, False), (3, True)):
        out.append(Harness(f"interface-{npar}-{'names' if names else 'indices'}", h_interface, f"{npar} parameters, arbitrary likelihood, fits and tested values", stubs="minimiser is an arbitrary function of its problem; the sampler records its parameters", npar=npar, names=names))
    out.append(Harness("terms", h_terms, "up to three constraint terms over 4 parameters", stubs=st))
    out.append(Harness("refused", h_refused, "1 or 2 parameters", stubs="minimiser is an arbitrary function of its problem"))
    return out
