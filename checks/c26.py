"""C26: the backend registry."""
import importlib.metadata
import itertools

from engine.env import Harness

from checks.common import swap_names

_n = itertools.count()
BUILTIN = (
    "default.correlated_background",
    "default.effective_sigma",
    "default.multivariate_normal",
    "default.normal",
    "default.poisson",
    "default.third_moment_expansion",
    "default.uncorrelated_background",
)
VERSIONS = ["0.2.9", "0.2.10", "1.0.0"]
POINTS = ["0.2.9", "0.2.10", "0.10.0"]
OPS = [">=", ">", "<", "<=", "==", "!="]


def tup(v):
    return tuple(int(x) for x in v.split("."))


def allows(spec, running):
    for part in spec.split(","):
        for op in (">=", "<=", "==", "!=", ">", "<"):
            if part.startswith(op):
                a, b = tup(running), tup(part[len(op):])
                if not {">=": a >= b, "<=": a <= b, "==": a == b, "!=": a != b, ">": a > b, "<": a < b}[op]:
                    return False
                break
    return True


def fresh():
    return "verif.backend%d" % next(_n)


def backend(env, name, requires=">=0.0.1", abstract=False, converter=False, meta=None, seen=None):
    base = env.mod("spey")
    MC = env.mod("spey.base.model_config").ModelConfig

    class Good(base.BackendBase):
        def __init__(self, *args, **kwargs):
            self.args, self.kwargs = args, kwargs
            if seen is not None:
                seen.append((args, kwargs))

        @property
        def is_alive(self):
            return True

        def config(self, allow_negative_signal=True, poi_upper_bound=10.0):
            return MC(0, -1.0, [0.0], [(-1.0, 10.0)])

        def get_logpdf_func(self, expected=None, data=None):
            return lambda p: -p[0] * p[0]

        if not abstract:

            def expected_data(self, pars):
                return [0.0]

    if converter:

        class Good2(base.ConverterBase):
            def __call__(self, *args, **kwargs):
                return Good(*args, **kwargs)

        cls = Good2
    else:
        cls = Good
        if abstract:

            class Abs(base.BackendBase):
                def config(self, allow_negative_signal=True, poi_upper_bound=10.0):
                    return None

            cls = Abs
    if name is not None:
        cls.name = name
    if requires is not None:
        cls.spey_requires = requires
    for k, v in (meta or {}).items():
        setattr(cls, k, v)
    return cls, Good


def running(env, spey):
    """the running version is any of three"""
    v = env.choice("running", VERSIONS)
    env.stub("spey", "__version__", v)
    env.stub("spey._version", "__version__", v)
    return v


def h_register(env):
    spey = env.mod("spey")
    v = running(env, spey)
    kind = env.choice("kind", ["good", "converter", "abstract", "no-requires", "no-name", "not-a-backend", "taken", "bad-requires"])
    spec = ">=0.0.1"
    if kind in ("good", "converter"):
        spec = env.choice("op", OPS) + env.choice("point", POINTS)
        if env.bool("second"):
            spec += ",<" + env.choice("upper", POINTS)
    name = fresh()
    kw = dict(requires=spec)
    if kind == "abstract":
        kw["abstract"] = True
    if kind == "converter":
        kw["converter"] = True
    if kind == "no-requires":
        kw["requires"] = None
    if kind == "bad-requires":
        kw["requires"] = "newer than yesterday"
    if kind == "taken":
        name = env.choice("taken", [BUILTIN[0], BUILTIN[4]])
    cls, _ = backend(env, None if kind == "no-name" else name, **kw)
    if kind == "not-a-backend":
        cls = type("Thing", (), {"name": name, "spey_requires": ">=0.0.1"})
    before = spey.AvailableBackends()
    good = kind in ("good", "converter") and allows(spec, v)
    if not good:
        env.raises("refused", (AssertionError, ValueError, TypeError, env.mod("spey.system.exceptions").PluginError, env.mod("spey.system.exceptions").AbstractModel, env.mod("spey.system.exceptions").MissingMetaData), lambda: spey.register_backend(cls))
        env.check("unchanged", spey.AvailableBackends() == before, "a refused class changed the registry")
        if kind == "taken":
            env.check("original-kept", spey.get_backend_metadata(name)["author"] != "__unknown_author__")
        return
    env.check("returns-class", spey.register_backend(cls) is cls)
    env.check("listed-once", sorted(spey.AvailableBackends()) == sorted(before + [name]))
    env.check("retrievable", callable(spey.get_backend(name)))
    env.raises("twice", Exception, lambda: spey.register_backend(cls))
    env.check("still-once", spey.AvailableBackends().count(name) == 1)


class Entry:
    """stand-in for an entry point"""

    def __init__(self, name, target, group="spey.backend.plugins"):
        self.name, self.target, self.group = name, target, group
        self.value = "stand:in"

    def load(self):
        if isinstance(self.target, Exception):
            raise self.target
        return self.target


class Entries(list):
    def select(self, **kw):
        return Entries(e for e in self if all(getattr(e, k) == v for k, v in kw.items()))

    def get(self, group, default=None):
        return self.select(group=group)

    @property
    def names(self):
        return {e.name for e in self}


def plug(env, spey, entries):
    real = importlib.metadata.entry_points

    def fake(**kw):
        all_ = Entries(list(real()) if not hasattr(real(), "values") else []) + []
        every = Entries(list(all_) + entries)
        return every.select(**kw) if kw else every

    swap_names(env, spey, {real: fake})
    env.stub("importlib.metadata", "entry_points", fake)


def h_plugin(env):
    """installed plugins, found by scanning the system"""
    spey = env.mod("spey")
    X = env.mod("spey.system.exceptions")
    v = running(env, spey)
    kind = env.choice("kind", ["good", "unnamed", "converter", "abstract", "no-requires", "other-name", "other-group"])
    spec = env.choice("op", OPS) + env.choice("point", POINTS) if kind in ("good", "converter", "unnamed") else ">=0.0.1"
    name = fresh()
    cls, made = backend(
        env,
        {"unnamed": None, "other-name": name + "x"}.get(kind, name),
        requires=None if kind == "no-requires" else spec,
        abstract=kind == "abstract",
        converter=kind == "converter",
    )
    before = spey.AvailableBackends()
    plug(env, spey, [Entry(name, cls, "another.group" if kind == "other-group" else "spey.backend.plugins")])
    env.check("not-before-scan", name not in spey.AvailableBackends())
    spey.reset_backend_entries()
    after = spey.AvailableBackends()
    env.check("built-in-kept", all(b in after for b in BUILTIN))
    if kind == "other-group":
        env.check("other-group-ignored", name not in after)
        env.raises("unknown", X.PluginError, lambda: spey.get_backend(name))
        return
    env.check("found", after.count(name) == 1 and len(after) == len(before) + 1)
    if kind in ("good", "converter", "unnamed") and allows(spec, v):
        m = spey.get_backend(name)()
        env.check("builds", isinstance(m, spey.StatisticalModel) and isinstance(m.backend, made))
        env.check("metadata", spey.get_backend_metadata(name)["name"] == name)
        env.check("type", m.backend_type == name or kind == "converter")
    else:
        env.raises("refused", (X.PluginError, X.AbstractModel, AssertionError), lambda: spey.get_backend(name))


def h_build(env, converter):
    """arguments reach the backend, the universal ones reach the model"""
    spey = env.mod("spey")
    name = fresh()
    seen = []
    cls, made = backend(env, name, converter=converter, seen=seen)
    spey.register_backend(cls)
    a = env.reals("a", 2, lo=-5.0, hi=5.0)
    k = env.real("k", lo=-5.0, hi=5.0)
    npos = env.int("npos", 0, 2)
    kw = {}
    if env.bool("analysis_given"):
        kw["analysis"] = "mine"
    xs = env.real("xs", lo=0.0, hi=5.0) if env.bool("xs_given") else None
    if xs is not None:
        kw["xsection"] = xs
    if env.bool("ntoys_given"):
        kw["ntoys"] = env.int("ntoys", 1, 3)
    own = {"own": k} if env.bool("keyword") else {}
    build = spey.get_backend(name)
    m = build(*a[:npos], **own, **kw)
    env.check("model", isinstance(m, spey.StatisticalModel) and isinstance(m.backend, made))
    env.check("once", len(seen) == 1)
    args, kwargs = seen[0]
    env.check("positional", len(args) == npos)
    for x, y in zip(args, a):
        env.eq("positional-value", x, y)
    env.check("keywords", sorted(kwargs) == sorted(own), f"backend got {sorted(kwargs)}")
    for x in own:
        env.eq("keyword-value", kwargs[x], own[x])
    env.check("analysis", m.analysis == kw.get("analysis", "__unknown_analysis__"))
    if xs is None:
        env.check("xsection", env.is_nan(m.xsection))
    else:
        env.eq("xsection", m.xsection, xs)
    env.check("ntoys", m.ntoys == kw.get("ntoys", 1000))
    # two models do not share anything
    m2 = build(*a[:npos], **own)
    env.check("independent", m2 is not m and m2.backend is not m.backend and m2.analysis == "__unknown_analysis__")


def h_metadata(env):
    spey = env.mod("spey")
    X = env.mod("spey.system.exceptions")
    name = fresh()
    fields = {"author": "A", "version": "3.2.1", "doi": ["10/x"], "arXiv": ["1"], "zenodo": ["z"]}
    given = {k: v for k, v in fields.items() if env.bool(k)}
    cls, _ = backend(env, name, meta=given)
    env.raises("unknown-before", X.PluginError, lambda: spey.get_backend_metadata(name))
    env.raises("unknown-backend", X.PluginError, lambda: spey.get_backend(name))
    spey.register_backend(cls)
    md = spey.get_backend_metadata(name)
    env.check("name", md["name"] == name and md["spey_requires"] == ">=0.0.1")
    for k in fields:
        if k in given:
            env.check("given-" + k, md[k] == given[k])
        else:
            env.check("missing-" + k, md[k] in ([], "__unknown_author__", "__unknown_version__"), f"{k} = {md[k]}")
    for b in BUILTIN:
        env.check("built-in", spey.get_backend_metadata(b)["name"] == b)


def h_history(env, n):
    """sequences of operations against a dictionary"""
    spey = env.mod("spey")
    X = env.mod("spey.system.exceptions")
    names = [fresh(), fresh()]
    model = {}
    base = spey.AvailableBackends()
    for i in range(n):
        op = env.choice(f"op{i}", ["register", "register-abstract", "register-incompatible", "get", "metadata", "reset"])
        if op == "reset":
            spey.reset_backend_entries()
            env.check("reset-keeps-installed", all(b in spey.AvailableBackends() for b in BUILTIN))
            model = {k: v for k, v in model.items() if k in spey.AvailableBackends()}
        else:
            nm = names[env.int(f"name{i}", 0, 1)]
            cls, made = backend(env, nm, requires="<0.0.1" if op == "register-incompatible" else ">=0.0.1", abstract=op == "register-abstract")
            if op == "register" and nm not in model:
                spey.register_backend(cls)
                model[nm] = made
            elif op.startswith("register"):
                env.raises("refused", Exception, lambda: spey.register_backend(cls))
            elif nm in model:
                if op == "get":
                    env.check("latest-class", isinstance(spey.get_backend(nm)().backend, model[nm]))
                else:
                    env.check("metadata-name", spey.get_backend_metadata(nm)["name"] == nm)
            else:
                env.raises("unknown", X.PluginError, lambda: (spey.get_backend if op == "get" else spey.get_backend_metadata)(nm))
        env.check("listing", sorted(spey.AvailableBackends()) == sorted(base + list(model)))


def h_builtin(env):
    """every installed plugin builds the documented class"""
    spey = env.mod("spey")
    name = env.choice("name", BUILTIN)
    s, b = env.real("s", lo=0.5, hi=3.0), env.real("b", lo=5.0, hi=9.0)
    kw = dict(signal_yields=[s], background_yields=[b], data=[7.0])
    extra = {
        "default.correlated_background": dict(covariance_matrix=[[1.0]]),
        "default.effective_sigma": dict(correlation_matrix=[[1.0]], absolute_uncertainty_envelops=[(1.0, 1.5)]),
        "default.multivariate_normal": dict(covariance_matrix=[[1.0]]),
        "default.normal": dict(absolute_uncertainties=[1.0]),
        "default.poisson": {},
        "default.third_moment_expansion": dict(covariance_matrix=[[1.0]], third_moment=[0.1]),
        "default.uncorrelated_background": dict(absolute_uncertainties=[1.0]),
    }[name]
    m = spey.get_backend(name)(analysis="x", **kw, **extra)
    env.check("type", m.backend_type == name)
    env.check("alive", m.is_alive)
    env.check("analysis", m.analysis == "x")
    env.eq("signal", m.backend.signal_yields[0], s)
    env.eq("background", m.backend.background_yields[0], b)


def harnesses(tier):
    st = "the running version is one of three final versions"
    return [
        Harness("register", h_register, "8 kinds of classes, version requirements with up to 2 clauses", stubs=st, max_paths=3000),
        Harness("plugin", h_plugin, "7 kinds of installed plugins, one version clause", stubs=st + "; importlib.metadata.entry_points lists an extra plugin", max_paths=3000),
        Harness("build", h_build, "any arguments", converter=False),
        Harness("build-converter", h_build, "any arguments", converter=True),
        Harness("metadata", h_metadata, "every combination of optional metadata"),
        Harness("history", h_history, "2 operations on 2 names" if tier == "quick" else "3 operations on 2 names", n=2 if tier == "quick" else 3, max_paths=5000),
        Harness("built-in", h_builtin, "the seven built-in plugins, any signal and background"),
    ]
