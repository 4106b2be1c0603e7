"""C32: wrapping, combining and describing backends."""
import math

import numpy as np

from engine.env import Harness

from checks.common import expectations

OPTIONAL = ["expected_data", "get_sampler", "asimov_negative_loglikelihood", "minimize_asimov_negative_loglikelihood"]


def make(env, own=(), inherited=(), seen=None, combine=None, f=None, name="verif.wrapped"):
    """a backend class providing the given optional methods itself or through a parent"""
    base = env.mod("spey.base.backend_base").BackendBase
    MC = env.mod("spey.base.model_config").ModelConfig
    f = f or (lambda mu: mu * mu)
    body = {
        "expected_data": lambda self, pars, **kw: [pars[0]],
        "get_sampler": lambda self, pars: lambda n, **kw: np.array([[pars[0]]] * n),
        "asimov_negative_loglikelihood": lambda self, poi_test=1.0, **kw: f(poi_test),
        "minimize_asimov_negative_loglikelihood": lambda self, **kw: (0.0, f(0.0)),
    }

    class Common(base):
        def __init__(self, *args, **kwargs):
            """doc of the constructor"""
            self.args, self.kwargs = args, kwargs
            if seen is not None:
                seen.append(self)

        is_alive = property(lambda self: True)

        def config(self, allow_negative_signal=True, poi_upper_bound=10.0):
            return MC(0, -5.0, [1.0], [(-5.0 if allow_negative_signal else 0.0, poi_upper_bound)])

        def get_logpdf_func(self, expected=None, data=None):
            return lambda p: -f(p[0])

        def get_objective_function(self, expected=None, data=None, do_grad=False):
            return lambda p: f(p[0])

        def negative_loglikelihood(self, poi_test=1.0, expected=None, data=None, **kw):
            return f(poi_test)

        def minimize_negative_loglikelihood(self, expected=None, allow_negative_signal=True, data=None, **kw):
            return 0.0, f(0.0)

    Common.__abstractmethods__ = frozenset()
    parent = type("Parent", (Common,), {k: body[k] for k in inherited})
    parent.__abstractmethods__ = frozenset()
    extra = {k: body[k] for k in own}
    if combine is not None:
        extra["combine"] = combine
    if name is not None:
        extra["name"] = name
    extra["__doc__"] = "doc of the backend"
    cls = type("Backend", (parent,), extra)
    cls.__abstractmethods__ = frozenset()
    return cls


def h_wrap(env):
    """arguments reach the backend, the rest describes the model"""
    S = env.mod("spey.interface.statistical_model")
    seen = []
    how = env.choice("how", ["plain", "wrapped-twice"])
    label = env.choice("name", ["verif.wrapped", None])
    cls = make(env, seen=seen, name=label)
    factory = S.statistical_model_wrapper(cls)
    if how == "wrapped-twice":
        factory = S.statistical_model_wrapper(cls)
    a, b, xs = env.real("a", lo=-9.0, hi=9.0), env.real("b", lo=-9.0, hi=9.0), env.real("xsec", lo=1e-3, hi=9.0)
    args = env.choice("args", [0, 1, 2])
    kw = {"extra": b, "data": [a]} if env.bool("keywords") else {}
    own = {}
    if env.bool("analysis"):
        own["analysis"] = "A1"
    if env.bool("xsection"):
        own["xsection"] = xs
    if env.bool("ntoys"):
        own["ntoys"] = 17
    pos = [a, b][:args]
    m = factory(*pos, **kw, **own)
    env.check("model", isinstance(m, S.StatisticalModel) and len(seen) == 1 and m.backend is seen[0])
    got = m.backend
    env.check("positional", len(got.args) == args and all(x is y for x, y in zip(got.args, pos)))
    env.check("keywords", got.kwargs == kw, "%s" % sorted(got.kwargs))
    env.check("analysis", m.analysis == own.get("analysis", "__unknown_analysis__"))
    if "xsection" in own:
        env.eq("xsection", m.xsection, xs)
    else:
        env.check("xsection-unset", math.isnan(m.xsection))
    env.check("ntoys", m.ntoys == own.get("ntoys", 1000))
    env.check("backend-type", m.backend_type == (label or "Backend"), m.backend_type)
    env.check("documentation", cls.__doc__ == "doc of the backend" and (factory.__doc__ or "").count("doc of the backend") == 1 and "xsection" in factory.__doc__, "documentation of the backend changed")
    n = factory(b)
    env.check("independent", n is not m and n.backend is not m.backend and n.analysis == "__unknown_analysis__" and math.isnan(n.xsection) and n.ntoys == 1000)
    env.check("repr", ("A1" if "analysis" in own else "__unknown") in repr(m) if "xsection" not in own else True)


def h_refuse(env):
    """what is not a backend is refused"""
    S = env.mod("spey.interface.statistical_model")
    kind = env.choice("kind", ["object", "class", "model", "none"])
    cls = make(env)
    thing = {"object": object(), "class": cls, "model": S.StatisticalModel(backend=cls(), analysis="x"), "none": None}[kind]
    env.raises("direct", AssertionError, lambda: S.StatisticalModel(backend=thing, analysis="x"))

    def factory(*a, **k):
        return thing

    env.raises("wrapped", AssertionError, lambda: S.statistical_model_wrapper(factory)())


def h_combine(env):
    """the combination is the one of the backend"""
    S = env.mod("spey.interface.statistical_model")
    X = env.mod("spey.system.exceptions")
    kind = env.choice("kind", ["works", "absent", "not-a-backend", "fails", "declines"])
    f, g = env.uf("f"), env.uf("g")
    joint = make(env, f=lambda mu: f(mu) + g(mu), name="verif.joint")()
    calls = []

    class Own(Exception):
        pass

    # failures of the backend's own routine, among them relatives of the one that means "not available"
    Boom = env.choice("failure", [Own, RuntimeError, AttributeError, TypeError, ValueError, KeyError, RecursionError, KeyboardInterrupt]) if kind == "fails" else Own

    def combine(self, other, **kw):
        calls.append((self, other, kw))
        if kind == "fails":
            raise Boom("inner")
        if kind == "declines":
            raise NotImplementedError("no")
        return joint if kind == "works" else object()

    A, B = make(env, f=f, combine=None if kind == "absent" else combine), make(env, f=g)
    left = S.StatisticalModel(backend=A(), analysis="one", xsection=2.0, ntoys=7)
    right = S.StatisticalModel(backend=B(), analysis="two", xsection=3.0)
    by = env.choice("by", ["method", "operator"])
    kw = {"option": 3} if by == "method" and env.bool("options") else {}
    run = (lambda: left.combine(right, **kw)) if by == "method" else (lambda: left @ right)
    if kind == "works":
        m = run()
        env.check("wrapped", isinstance(m, S.StatisticalModel) and m.backend is joint)
        env.check("label", m.analysis == "combine[one, two]", m.analysis)
        env.check("once", len(calls) == 1 and calls[0][0] is left.backend and calls[0][1] is right.backend and calls[0][2] == kw)
        mu = env.real("mu", lo=-4.0, hi=4.0)
        e = env.choice("expected", expectations(env))
        env.eq("likelihood", m.likelihood(mu, expected=e), f(mu) + g(mu))
        env.check("operands-kept", left.analysis == "one" and right.analysis == "two" and left.xsection == 2.0 and left.ntoys == 7 and left.backend is calls[0][0])
        env.eq("operand-likelihood", left.likelihood(mu, expected=e), f(mu))
    elif kind in ("absent", "declines"):
        env.raises("not-available", X.CombinerNotAvailable, run)
    elif kind == "fails":
        env.raises("own-failure", Boom, run)
    else:
        env.raises("not-a-backend", AssertionError, run)


def h_calculators(env):
    """the calculators offered follow from what the backend provides, and the others are refused"""
    S = env.mod("spey.interface.statistical_model")
    X = env.mod("spey.system.exceptions")
    has = {k: env.choice(k, ["no", "own", "inherited"]) for k in OPTIONAL}
    cls = make(env, own=[k for k in OPTIONAL if has[k] == "own"], inherited=[k for k in OPTIONAL if has[k] == "inherited"])
    m = S.StatisticalModel(backend=cls(), analysis="x")
    there = {k: v != "no" for k, v in has.items()}
    toy = there["get_sampler"]
    asy = there["expected_data"] or (there["asimov_negative_loglikelihood"] and there["minimize_asimov_negative_loglikelihood"])
    env.check("toy", bool(m.is_toy_calculator_available) == toy)
    env.check("asymptotic", bool(m.is_asymptotic_calculator_available) == asy)
    env.check("chi-square", bool(m.is_chi_square_calculator_available))
    want = ["toy"] * toy + ["asymptotic"] * asy + ["chi_square"]
    env.check("list", sorted(m.available_calculators) == sorted(want), "%s" % m.available_calculators)
    env.check("described", all(c in repr(m) for c in want))
    for c in ("toy", "asymptotic"):
        if c not in want:
            env.raises("refused-" + c, X.CalculatorNotAvailable, lambda: m.exclusion_confidence_level(calculator=c))
    env.raises("refused-unknown", X.CalculatorNotAvailable, lambda: m.exclusion_confidence_level(calculator="bayesian"))
    if toy:
        r = m.fixed_poi_sampler(1.0, size=3)
        env.check("toys-drawn", np.shape(r)[0] == 3)


def h_works(env):
    """an offered calculator gives an answer between zero and one"""
    S = env.mod("spey.interface.statistical_model")
    c = env.choice("calculator", ["toy", "asymptotic", "chi_square"])
    cls = make(env, own=OPTIONAL)
    m = S.StatisticalModel(backend=cls(), analysis="x", ntoys=4)
    e = env.choice("expected", expectations(env))
    r = m.exclusion_confidence_level(poi_test=1.0, expected=e, calculator=c, verbose=False)
    env.check("values", len(r) in (1, 5))
    for v in r:
        env.check("probability", env.And(v >= 0.0, v <= 1.0), "%s" % (v,))


VALUES = ["apriori", "aposteriori", "observed"]


def h_expectation(env):
    """comparison of the expectation type"""
    E = env.mod("spey.utils").ExpectationType
    a = E[env.choice("a", VALUES)]
    kind = env.choice("kind", ["member", "text", "flag", "none", "number", "list", "other-text"])
    if kind == "member":
        b = E[env.choice("b", VALUES)]
        env.check("members", (a == b) == (a is b) and (a != b) == (a is not b))
        env.check("hash", (hash(a) == hash(b)) or a is not b)
        env.check("as-key", {a: 1}.get(b) == (1 if a is b else None))
        env.check("in-list", (a in [b]) == (a is b))
    elif kind == "text":
        t = env.choice("b", VALUES)
        env.check("text", (a == t) == (a.name == t) and (a != t) == (a.name != t))
        env.check("text-reversed", (t == a) == (a.name == t))
    elif kind == "flag":
        t = env.choice("b", [True, False])
        env.check("flag", (a == t) == (a is (E.apriori if t else E.observed)))
    elif kind == "none":
        env.check("none", not (a == None) and a != None)  # noqa: E711
    elif kind == "other-text":
        t = env.choice("b", ["", "Observed", "observed ", "post", "ExpectationType.observed"])
        env.check("other-text", not (a == t))
    else:
        thing = 3.5 if kind == "number" else [a]
        env.raises("unknown-refused", ValueError, lambda: a == thing)
    env.check("names", str(a) == a.name and repr(a) == a.name and "%s" % a == a.name and f"{a}" == a.name)


def harnesses(tier):
    return [
        Harness("wrap", h_wrap, "up to 2 positional and 2 keyword arguments, every subset of the universal ones", stubs=""),
        Harness("refuse", h_refuse, "four kinds of objects", stubs=""),
        Harness("combine", h_combine, "any likelihoods, five kinds of backends", stubs=""),
        Harness("calculators", h_calculators, "every subset of four optional methods, own or inherited", stubs=""),
        Harness("works", h_works, "three calculators, three expectations", stubs=""),
        Harness("expectation", h_expectation, "all pairs", stubs=""),
    ]
