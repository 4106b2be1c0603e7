"""Loads /repo/src/spey for symbolic execution (fresh from the working tree on every run)."""
import builtins
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import math
import os
import sys
import types

SRC = os.environ.get("VERIF_SPEY_SRC", "/repo/src")
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
FUNCS = {}  # qualified name -> file of every spey function executed


def env_defaults():
    os.environ.setdefault("SPEY_CHECKUPDATE", "OFF")
    os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ.setdefault(k, "1")
    sys.dont_write_bytecode = True


def z3_path():
    if VT not in sys.path:
        sys.path.append(VT)


SYM_BUILTINS = None


def _make_builtins():
    from . import sym

    class _M(type):
        def __instancecheck__(cls, obj):
            return isinstance(obj, (float, sym.SymReal))

        def __subclasscheck__(cls, c):
            return issubclass(c, (float, sym.SymReal))

        def __eq__(cls, o):
            return o is cls or o is float

        def __hash__(cls):
            return hash(float)

        def __or__(cls, o):
            return float | o

        def __ror__(cls, o):
            return o | float

    class symfloat(float, metaclass=_M):
        def __new__(cls, x=0.0):
            if isinstance(x, sym.SymReal):
                return x
            if isinstance(x, sym.SymBool):
                return x._num()
            if isinstance(x, sym.SymArr):
                if x.size != 1:
                    raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
                v = x.ravel()[0]
                return v if isinstance(v, sym.SymReal) else float(v)
            if isinstance(x, __import__("numpy").ndarray) and x.dtype == object and x.size == 1:
                return symfloat(x.ravel()[0])
            return float(x)

    symfloat.__name__ = "float"
    symfloat.__qualname__ = "float"
    d = dict(builtins.__dict__)
    d["float"] = symfloat
    real_import = builtins.__import__

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        mod = real_import(name, globals, locals, fromlist, level)
        return PROXIES.get(id(mod), mod) if isinstance(mod, types.ModuleType) else mod

    d["__import__"] = imp

    def sround(x, n=None):
        if isinstance(x, sym.SymReal):
            raise sym.Unsupported("round() of a symbolic value")
        return round(x, n) if n is not None else round(x)

    d["round"] = sround

    real_isinstance = builtins.isinstance

    def sisinstance(obj, cls):
        if real_isinstance(obj, sym.SymReal):
            flat = []

            def fl(c):
                if real_isinstance(c, tuple):
                    for q in c:
                        fl(q)
                elif real_isinstance(c, types.UnionType):
                    for q in c.__args__:
                        fl(q)
                else:
                    flat.append(c)

            fl(cls)
            np = sys.modules["numpy"]
            if any(c in (float, symfloat, np.floating, np.float64, np.number, np.generic) for c in flat if real_isinstance(c, type)):
                return True
        return real_isinstance(obj, cls)

    d["isinstance"] = sisinstance
    return d


PROXIES = {}


class ProxyModule(types.ModuleType):
    def __init__(self, real, overrides):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real
        self.__dict__["_ov"] = overrides

    def __getattr__(self, name):
        ov = self.__dict__["_ov"]
        if name in ov:
            return ov[name]
        v = getattr(self.__dict__["_real"], name)
        if isinstance(v, types.ModuleType):
            return PROXIES.get(id(v), v)
        return v

    def __dir__(self):
        return dir(self.__dict__["_real"])


class _Loader(importlib.machinery.SourceFileLoader):
    def exec_module(self, module):
        code = compile(self.get_data(self.path), self.path, "exec", dont_inherit=True)
        module.__dict__["__builtins__"] = SYM_BUILTINS
        exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "spey" and not fullname.startswith("spey."):
            return None
        rel = fullname.split(".")
        base = os.path.join(SRC, *rel)
        if os.path.isfile(os.path.join(base, "__init__.py")):
            f = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(
                fullname, f, loader=_Loader(fullname, f), submodule_search_locations=[base]
            )
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(
                fullname, base + ".py", loader=_Loader(fullname, base + ".py")
            )
        return None


def trace_functions():
    """Record (once each) the spey functions that are executed."""
    mon = sys.monitoring
    tool = 3
    try:
        mon.use_tool_id(tool, "verif")
    except ValueError:
        return

    def start(code, off):
        if code.co_filename.startswith(SRC):
            FUNCS[code.co_filename[len(SRC) + 1 :] + ":" + code.co_qualname] = 1
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)


def install_symbolic():
    """Prepare this process for symbolic execution of spey."""
    global SYM_BUILTINS
    env_defaults()
    z3_path()
    import numpy as np
    import scipy.special
    import scipy.stats
    import scipy.optimize
    import scipy.integrate
    import scipy.linalg
    import iminuit  # noqa: F401
    import tqdm  # noqa: F401
    import requests  # noqa: F401

    from . import npsym, sym

    # -- scipy.stats objects (before autograd captures them)
    R = npsym.REALFN
    st = scipy.stats

    def patch_method(obj, name, symf, label, pos):
        real = getattr(obj, name)
        R[label] = real

        def f(*a, **k):
            if npsym.has_sym(a) or npsym.has_sym(list(k.values())):
                return symf(*a, **k)
            return real(*a, **k)

        f.__name__ = name
        setattr(obj, name, f)

    for nm, fn in (
        ("cdf", npsym.norm_cdf),
        ("sf", npsym.norm_sf),
        ("logcdf", npsym.norm_logcdf),
        ("logpdf", npsym.norm_logpdf),
        ("pdf", npsym.norm_pdf),
    ):
        patch_method(st.norm, nm, fn, "norm." + nm, 0)
    patch_method(st.poisson, "logpmf", npsym.poisson_logpmf, "poisson.logpmf", 0)
    patch_method(st.poisson, "pmf", lambda *a, **k: np.exp(npsym.poisson_logpmf(*a, **k)), "poisson.pmf", 0)
    patch_method(st.multivariate_normal, "logpdf", npsym.mvn_logpdf, "mvn.logpdf", 0)

    def patch_fn(mod, name, symf, label):
        real = getattr(mod, name)
        R[label] = real

        def f(*a, **k):
            if npsym.has_sym(a) or npsym.has_sym(list(k.values())):
                return symf(*a, **k)
            return real(*a, **k)

        f.__name__ = name
        f.__wrapped__ = real
        setattr(mod, name, f)

    patch_fn(scipy.special, "gammaln", npsym.gammaln, "gammaln")
    patch_fn(scipy.special, "ndtr", npsym.norm_cdf, "ndtr")
    patch_fn(scipy.special, "xlogy", lambda x, y: npsym._ew(lambda a, b: np.float64(0.0) if bool(a == 0) else a * sym.log(b))(x, y), "xlogy")
    patch_fn(scipy.linalg, "inv", lambda a, **k: npsym.inv(a), "sp.inv")
    patch_fn(scipy.linalg, "det", lambda a, **k: npsym.det(a), "sp.det")
    patch_fn(scipy.linalg, "solve", lambda a, b, **k: npsym.solve(a, b), "sp.solve")

    patch_fn(scipy.linalg, "cholesky", lambda a, lower=False, **k: npsym.AF["cholesky"](a) if lower else npsym.AF["cholesky"](a).T, "sp.cholesky")
    patch_fn(scipy.linalg, "solve_triangular", lambda a, b, trans=0, lower=False, **k: npsym.solve(np.transpose(a) if trans in (1, "T") else a, b), "sp.solve_triangular")
    patch_fn(scipy.linalg, "cho_factor", lambda a, lower=False, **k: (a, lower), "sp.cho_factor")
    patch_fn(scipy.linalg, "cho_solve", lambda c, b, **k: npsym.solve(c[0], b), "sp.cho_solve")
    patch_fn(scipy.special, "loggamma", npsym.gammaln, "loggamma")
    patch_fn(scipy.special, "xlog1py", lambda x, y: npsym._ew(lambda a, b: np.float64(0.0) if bool(a == 0) else a * sym.log(1.0 + b))(x, y), "xlog1py")
    patch_fn(scipy.special, "erf", lambda x: 2.0 * npsym.norm_cdf(x * math.sqrt(2.0)) - 1.0, "erf")
    patch_fn(scipy.special, "erfc", lambda x: 2.0 * npsym.norm_cdf(-x * math.sqrt(2.0)), "erfc")

    # -- math
    for nm, fn in (
        ("hypot", lambda *x: sym.sqrt(sum(v * v for v in x))),
        ("copysign", lambda a, b: abs(a) if bool(b >= 0) else -abs(a)),
        ("fsum", lambda x: sum(x)),
        ("prod", lambda x, start=1: __import__("functools").reduce(lambda a, b: a * b, x, start)),
        ("expm1", lambda x: sym.exp(x) - 1.0),
        ("log10", lambda x: sym.log(x) / math.log(10.0)),
        ("log2", lambda x: sym.log(x) / math.log(2.0)),
        ("erf", lambda x: 2.0 * npsym.norm_cdf(x * math.sqrt(2.0)) - 1.0),
        ("erfc", lambda x: 2.0 * npsym.norm_cdf(-x * math.sqrt(2.0))),
        ("sqrt", sym.sqrt),
        ("exp", sym.exp),
        ("log", lambda x, *b: sym.log(x) if not b else sym.log(x) / sym.log(b[0])),
        ("isnan", lambda x: False),
        ("isinf", lambda x: False),
        ("isfinite", lambda x: True),
        ("fabs", abs),
        ("pow", sym.power),
        ("cos", sym.F_COS),
        ("sin", sym.F_SIN),
        ("atan", sym.F_ARCTAN),
        ("lgamma", sym.F_GAMMALN),
        ("log1p", lambda x: sym.log(1.0 + x)),
        ("isclose", lambda a, b, rel_tol=1e-9, abs_tol=0.0: bool(abs(a - b) <= max(rel_tol * max(abs(a), abs(b)), abs_tol))),
    ):
        patch_fn(math, nm, fn, "math." + nm)

    # -- numpy creation
    for nm in ("array", "asarray", "asanyarray", "ascontiguousarray", "asfarray", "atleast_1d", "stack", "concatenate", "hstack", "vstack"):
        if not hasattr(np, nm):
            continue
        real = getattr(np, nm)
        if nm in ("array", "asarray", "asanyarray", "ascontiguousarray"):
            setattr(np, nm, npsym.wrap_creation(real, nm))
    np.fromiter = npsym.wrap_fromiter(np.fromiter)
    # plain lists containing symbols passed to numpy functions: route to the shim
    for nm in set(npsym.AF):
        if not hasattr(np, nm):
            continue
        real = getattr(np, nm)
        setattr(np, nm, _route(real, nm))
    for nm in ("log", "exp", "sqrt", "isnan", "isfinite", "isinf", "sign", "add", "subtract", "multiply", "square", "power", "maximum", "minimum", "abs", "absolute", "less", "greater", "less_equal", "greater_equal", "divide", "true_divide", "logical_and", "logical_or", "logical_not"):
        pass  # ufuncs dispatch through __array_ufunc__ on SymReal / SymArr

    import autograd.numpy as anp
    import autograd.scipy.special  # noqa: F401
    import autograd.scipy.stats  # noqa: F401
    from autograd.core import VSpace
    from autograd.extend import Box
    from autograd.numpy.numpy_boxes import ArrayBox
    from autograd.numpy import numpy_vspaces as nv

    ArrayBox.register(sym.SymReal)
    ArrayBox.register(sym.SymArr)

    class SymVSpace(nv.ArrayVSpace):
        def __init__(self, value):
            self.shape = np.shape(sym.plain(value)) if not isinstance(value, sym.SymReal) else ()
            self.dtype = np.dtype(np.float64)

        def __eq__(self, o):
            return isinstance(o, nv.ArrayVSpace) and self.shape == o.shape

    VSpace.register(sym.SymReal, lambda x: SymVSpace(x))
    VSpace.register(sym.SymArr, lambda x: SymVSpace(x))

    def zeros(self):
        out = np.empty(self.shape, dtype=object)
        out[...] = np.float64(0.0)
        return out.view(sym.SymArr)

    nv.ArrayVSpace.zeros = zeros
    nv.ArrayVSpace._mut_add = lambda self, x, y: x + y
    del Box

    overrides = {}
    for nm, v in (("zeros", 0.0), ("ones", 1.0), ("empty", 0.0)):
        overrides[nm] = npsym.wrap_alloc(getattr(np, nm), nm, v)
    overrides["full"] = npsym.wrap_full(np.full)
    overrides["linspace"] = npsym.wrap_linspace(np.linspace)
    overrides["true_divide"] = npsym.wrap_divide(np.true_divide)
    overrides["divide"] = npsym.wrap_divide(np.divide)
    lin = {}
    for nm in ("inv", "det", "slogdet", "solve", "norm"):
        lin[nm] = _route(getattr(np.linalg, nm), nm)
    PROXIES[id(np.linalg)] = ProxyModule(np.linalg, lin)
    PROXIES[id(np)] = ProxyModule(np, overrides)
    import autograd

    PROXIES[id(autograd)] = ProxyModule(autograd, {})
    PROXIES[id(anp)] = ProxyModule(anp, {k: overrides[k] for k in ("zeros", "ones", "empty", "full")})

    SYM_BUILTINS = _make_builtins()
    sys.meta_path.insert(0, _Finder())
    trace_functions()


def _route(real, nm):
    import numpy as np

    from . import npsym

    def f(*a, **k):
        if a and isinstance(a[0], (list, tuple)) and npsym.has_sym(a):
            return npsym.AF[nm](*a, **k)
        if a and type(a[0]) is np.ndarray and a[0].dtype == object and nm in npsym.AF:
            return npsym.AF[nm](*a, **k)
        if npsym.has_sym(a) and nm in ("linspace", "isclose", "allclose"):
            return npsym.AF[nm](*a, **k)
        return real(*a, **k)

    f.__name__ = nm
    f.__wrapped__ = real
    return f


def install_concrete():
    env_defaults()
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    trace_functions()
