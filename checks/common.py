"""Small backends used to drive the public interface with arbitrary likelihoods."""
import numpy as np


def first(x):
    """a real that identifies a data set"""
    if x is None:
        return 0.0
    if isinstance(x, (list, tuple, np.ndarray)):
        return x[0]
    return x


class Log:
    """records the calls that reach the backend"""

    def __init__(self):
        self.calls = []

    def add(self, name, **kw):
        self.calls.append((name, kw))

    def of(self, name):
        return [kw for n, kw in self.calls if n == name]


def analytic_backend(env, **hooks):
    """Backend whose (profiled) likelihoods are the functions given as hooks.

    hooks: nll(poi, expected, data), anll(poi, expected, ts), mle(expected, allow, data),
    amle(expected, ts), sampler(pars), config
    """
    base = env.mod("spey.base.backend_base")
    MC = env.mod("spey.base.model_config").ModelConfig
    log = Log()

    class Backend(base.BackendBase):
        name = "verif.analytic"
        __slots__ = ["alive"]

        @property
        def is_alive(self):
            return hooks.get("alive", True)

        def config(self, allow_negative_signal=True, poi_upper_bound=10.0):
            c = hooks.get("config")
            if c is not None:
                return c
            return MC(0, -10.0, [1.0], [(-10.0 if allow_negative_signal else 0.0, poi_upper_bound)])

        def get_logpdf_func(self, expected=None, data=None):
            return lambda pars: -hooks["nll"](pars[0], expected, data)

        def expected_data(self, pars):
            return [0.0]

        def negative_loglikelihood(self, poi_test=1.0, expected=None, data=None, return_parameters=False, **kw):
            log.add("nll", poi=poi_test, expected=expected, data=data, kw=kw)
            return hooks["nll"](poi_test, expected, data)

    def add(name, f):
        setattr(Backend, name, f)

    if "mle" in hooks:

        def m(self, expected=None, allow_negative_signal=True, data=None, **kw):
            log.add("mle", expected=expected, allow=allow_negative_signal, data=data, kw=kw)
            return hooks["mle"](expected, allow_negative_signal, data)

        add("minimize_negative_loglikelihood", m)
    if "anll" in hooks:

        def m(self, poi_test=1.0, expected=None, test_statistics="qtilde", **kw):
            log.add("anll", poi=poi_test, expected=expected, ts=test_statistics, kw=kw)
            return hooks["anll"](poi_test, expected, test_statistics)

        add("asimov_negative_loglikelihood", m)
    if "amle" in hooks:

        def m(self, expected=None, test_statistics="qtilde", **kw):
            log.add("amle", expected=expected, ts=test_statistics, kw=kw)
            return hooks["amle"](expected, test_statistics)

        add("minimize_asimov_negative_loglikelihood", m)
    if "sampler" in hooks:

        def m(self, pars):
            log.add("sampler", pars=pars)
            return hooks["sampler"](pars)

        add("get_sampler", m)
    Backend.__abstractmethods__ = frozenset()
    return Backend(), log


def expectations(env):
    E = env.mod("spey.utils").ExpectationType
    return [E.observed, E.aposteriori, E.apriori]


def tag(env, expected):
    """a number identifying the expectation, usable as argument of an arbitrary function"""
    return {"observed": 0.0, "aposteriori": 1.0, "apriori": 2.0, "all": 0.0}[str(expected)]


def tsfam(ts):
    """family of the test statistics: one-sided with/without negative signal, discovery"""
    return {"q": 0.0, "qmu": 0.0, "qtilde": 1.0, "qmutilde": 1.0, "q0": 2.0}[ts]


class RootResult:
    def __init__(self, x):
        self.root = x
        self.converged = True
        self.function_calls = self.iterations = 3
        self.flag = "converged"


def stub_root_finders(env, tag="root", tol=1e-7, rtol_max=1e-2):
    """Bracketing root finders become their contract: same errors for an invalid bracket,
    otherwise any point of the bracket where the function vanishes."""
    used = []

    def solve(f, a, b, xtol, rtol):
        if not a < b:
            raise ValueError("a and b are not an interval")
        fa, fb = f(a), f(b)
        if env.is_nan(fa) or env.is_nan(fb):
            raise ValueError("the function value is nan")
        if fa == 0:
            return a
        if fb == 0:
            return b
        if (fa > 0) == (fb > 0):
            raise ValueError("f(a) and f(b) must have different signs")
        env.check("root-accuracy", xtol <= 1e-3 and rtol <= rtol_max, "root requested with too coarse accuracy")
        for v in (fa, fb):
            # a bracket end that is almost but not exactly a root is outside the claim
            env.assume(env.Or(v >= 1e-6, v <= -1e-6))
        x = env.real("%s%d" % (tag, len(used)))
        used.append(x)
        env.assume(env.And(x > a, x < b))
        fx = f(x)
        env.near(fx, tol)
        return x

    def bracketing(f, a, b, args=(), k=1, xtol=2e-12, rtol=8.9e-16, maxiter=100, full_output=False, disp=True):
        g = (lambda v: f(v, *args)) if args else f
        x = solve(g, a, b, xtol, rtol)
        return (x, RootResult(x)) if full_output else x

    def root_scalar(f, args=(), method=None, bracket=None, xtol=None, rtol=None, **kw):
        g = (lambda v: f(v, *args)) if args else f
        return RootResult(solve(g, bracket[0], bracket[1], xtol or 0.0, rtol or 0.0))

    for n in ("toms748", "brentq", "brenth", "ridder", "bisect"):
        env.stub("scipy.optimize", n, bracketing)
    env.stub("scipy.optimize", "root_scalar", root_scalar)
    return used


def held(cons, n):
    """index -> value for the parameters pinned by single-parameter equality constraints"""
    out = {}
    for c in cons:
        if not isinstance(c, dict) or c["type"] != "eq":
            continue
        f = c["fun"]
        v0 = f([0.0] * n)
        for i in range(n):
            d = f([1.0 if k == i else 0.0 for k in range(n)]) - v0
            if not (float(d) == 0.0 if not hasattr(d, "e") else False):
                out[i] = -v0
    return out


class OptResult:
    def __init__(self, x, fun, success=True, message="stub"):
        self.x, self.fun, self.success, self.message = x, fun, success, message
        self.status, self.nit, self.nfev = 0 if success else 1, 1, 1


def stub_minimize(env, answer=None, ok=None):
    """scipy.optimize.minimize becomes a recorder; answer(record) gives the point reached.

    Default answer: arbitrary values, except that pinned parameters have their pinned value."""
    log = []

    def minimize(fun, x0, args=(), method=None, jac=None, hess=None, bounds=None, constraints=(), tol=None, options=None, **kw):
        n = len(x0)
        rec = {
            "fun": fun,
            "x0": list(x0),
            "method": method,
            "jac": jac,
            "hess": hess,
            "bounds": None if bounds is None else [tuple(b) for b in bounds],
            "constraints": list(constraints),
            "tol": tol,
            "options": dict(options or {}),
            "n": n,
            "index": len(log),
        }
        rec["held"] = held(rec["constraints"], n)
        log.append(rec)
        if answer is None:
            x = [rec["held"].get(i, None) for i in range(n)]
            x = [env.real("min%d_%d" % (rec["index"], i), lo=-10.0, hi=10.0) if v is None else v for i, v in enumerate(x)]
        else:
            x = answer(rec)
        x = np.array(x, dtype=object if any(env.is_sym(v) for v in x) else float)
        rec["x"] = list(x)
        f = fun(x)
        if jac is True:
            f = f[0]
        good = True if ok is None else ok(rec)
        return OptResult(x, f, good)

    env.stub("scipy.optimize", "minimize", minimize)
    return log


def numeric_backend(env, npar=2, poi=0, names=None, bounds=None, init=None, nll=None, data=None, grad=False, fixed=None, minimum=-10.0, **hooks):
    """Backend without analytic shortcuts: only an objective, a log-density and expected data."""
    base = env.mod("spey.base.backend_base")
    MC = env.mod("spey.base.model_config").ModelConfig
    log = Log()
    calls = {"n": 0}

    class Backend(base.BackendBase):
        name = "verif.numeric"

        @property
        def is_alive(self):
            return True

        def config(self, allow_negative_signal=True, poi_upper_bound=10.0):
            log.add("config", allow=allow_negative_signal)
            b = list(bounds) if bounds is not None else [(-5.0, 5.0)] * npar
            if bounds is None or poi < len(b):
                lo = (minimum if allow_negative_signal else 0.0) if bounds is None else b[poi][0]
                b[poi] = (lo, b[poi][1] if bounds is not None else poi_upper_bound)
            return MC(poi, minimum, list(init) if init is not None else [1.0] * npar, b, list(names) if names else None, fixed)

        def get_logpdf_func(self, expected=None, data=None):
            log.add("logpdf", expected=expected, data=data)
            return lambda pars: -nll(pars, expected, data)

        def get_objective_function(self, expected=None, data=None, do_grad=True):
            if do_grad and not grad:
                raise NotImplementedError("no gradient")
            log.add("objective", expected=expected, data=data, do_grad=do_grad)
            if do_grad:
                return lambda pars: (nll(pars, expected, data), [0.0] * npar)
            return lambda pars: nll(pars, expected, data)

    if "expected_data" in hooks:
        Backend.expected_data = lambda self, pars: hooks["expected_data"](pars)
    if "sampler" in hooks:

        def get_sampler(self, pars):
            log.add("sampler", pars=pars)
            return hooks["sampler"](pars)

        Backend.get_sampler = get_sampler
    if "hessian" in hooks:
        Backend.get_hessian_logpdf_func = lambda self, expected=None, data=None: hooks["hessian"](expected, data)
    if "constraints" in hooks:
        Backend.constraints = hooks["constraints"]
    Backend.__abstractmethods__ = frozenset()
    return Backend(), log


def key_of(env, v):
    """hashable identity of a (symbolic) number: same term, same key"""
    if v is None:
        return None
    if env.is_sym(v):
        return ("t", v.e.get_id())
    return round(float(v), 12)


def deterministic_answers(env, n, lo=-4.0, hi=4.0, tag="fit"):
    """a minimiser that is a function of the problem it is given: equal problems, equal answers"""
    memo, seen = {}, []
    probe = [0.37 * (-1) ** i * (i + 1) for i in range(n)]
    keep = []

    def answer(rec):
        f = rec["fun"](np.array(probe))
        f = f[0] if rec["jac"] is True else f
        keep.append(f)
        bs = rec["bounds"] or []
        key = (
            key_of(env, f),
            tuple(key_of(env, v) for v in rec["x0"]),
            tuple((key_of(env, a), key_of(env, b)) for a, b in bs),
            tuple(sorted((i, key_of(env, v)) for i, v in rec["held"].items())),
            len(rec["constraints"]),
            rec["method"],
            rec["tol"],
            tuple(sorted(rec["options"].items())),
        )
        keep.extend(rec["x0"])
        keep.extend(rec["held"].values())
        if key not in memo:
            new = [env.real("%s%d_%d" % (tag, len(memo), i), lo=lo, hi=hi) for i in range(n)]
            # problems with different descriptions may have the same values: then the answers agree too
            terms = [f, *rec["x0"], *[v for b in bs for v in b], *[rec["held"][i] for i in sorted(rec["held"])]]
            shape = (*[v is None for v in terms], len(bs), tuple(sorted(rec["held"])), *key[4:])
            for other_shape, other, ans in seen:
                if other_shape == shape:
                    same = env.And(*[a == b for a, b in zip(terms, other) if a is not None and a is not b])
                    env.axiom(env.Implies(same, env.And(*[x == y for x, y in zip(new, ans)])))
            seen.append((shape, terms, new))
            memo[key] = new
        x = list(memo[key])
        for i, v in rec["held"].items():
            x[i] = v
        return x

    return answer


def swap_names(env, module, table):
    """rebinds module-level names whose value is a key of the table (undone at the end)"""
    for k, v in list(module.__dict__.items()):
        for old, new in table.items():
            if v is old:
                module.__dict__[k] = new
                env._undo.append((module.__dict__, k, old))
