"""C20: different arguments never share a cached result."""
import numpy as np

from engine.env import Harness

from checks.c18 import cache_module
from checks.common import swap_names


# ---------------------------------------------------------------- arrays with symbolic elements
class Bytes:
    """content of a buffer: same elements, same bytes; used through an ideal digest"""

    def __init__(self, kind, items, contiguous=True):
        self.kind, self.items, self.contiguous = kind, list(items), contiguous

    def __hash__(self):
        return 11

    def __len__(self):
        return 8 * len(self.items)

    def __eq__(self, o):
        if not isinstance(o, Bytes) or len(self.items) != len(o.items):
            return False
        if self.kind == o.kind:
            return all(bool(a == b) for a, b in zip(self.items, o.items))
        return all(bool(a == 0) and bool(b == 0) for a, b in zip(self.items, o.items))

    def tobytes(self, *a, **k):
        return self

    def digest(self):
        return self

    def hexdigest(self):
        return self


class Digest:
    """ideal (collision free) hash function"""

    def __init__(self, data=b"", **kw):
        self.parts = ()
        if not (isinstance(data, bytes) and not data):
            self.update(data)

    def update(self, data):
        if isinstance(data, Bytes):
            if not data.contiguous:
                raise ValueError("ndarray is not C-contiguous")
            self.parts = self.parts + tuple(data.items)
            self.kind = data.kind
        else:
            self.parts = self.parts + ("raw", bytes(memoryview(data).cast("B")) if memoryview(data).contiguous else memoryview(data).tobytes())

    def digest(self):
        return Bytes(getattr(self, "kind", "raw"), self.parts)

    hexdigest = digest


class Arr(np.ndarray):
    """array of numbers whose elements are symbolic but which presents itself as numeric"""

    kind = np.dtype("<f8")

    def __array_finalize__(self, obj):
        self.kind = getattr(obj, "kind", np.dtype("<f8"))

    @property
    def dtype(self):
        return self.kind

    def _items(self):
        return list(self.view(np.ndarray).ravel(order="C"))

    @property
    def data(self):
        return Bytes(self.kind.str, self._items(), self.flags["C_CONTIGUOUS"])

    def tobytes(self, order="C"):
        items = self._items() if order != "F" else list(self.view(np.ndarray).ravel(order="F"))
        return Bytes(self.kind.str, items)


class HashLib:
    def __getattr__(self, name):
        return Digest


class Numpy:
    def __init__(self, real):
        self.__dict__["real"] = real

    def __getattr__(self, name):
        f = getattr(self.__dict__["real"], name)
        if name in ("ascontiguousarray", "asanyarray", "asarray", "array", "copy", "require"):

            def g(a, *p, **k):
                if isinstance(a, Arr):
                    return np.array(a, order="C", subok=True)
                return f(a, *p, **k)

            return g
        return f


def ideal(env):
    """numeric arrays of symbolic numbers and a collision-free digest in the cache module"""
    if not env.symbolic:
        return
    import hashlib

    m = env.mod("spey.system.cache")
    real = m.__dict__.get("np", np)
    swap_names(env, m, {hashlib: HashLib(), hashlib.sha256: Digest, real: Numpy(real)})


def array(env, vals, shape, kind, layout):
    n = int(np.prod(shape))
    flat = np.array(list(vals)[:n], dtype=object if env.symbolic else kind)
    if env.symbolic:
        flat = flat.view(Arr)
        flat.kind = np.dtype(kind)
    a = flat.reshape(shape)
    if layout == "fortran":
        a = a.copy(order="F")
    elif layout == "strided":
        big = np.repeat(flat.view(np.ndarray) if env.symbolic else flat, 2)
        big[1::2] = 77.0 if np.dtype(kind).kind == "f" else 77
        if env.symbolic:
            big = big.view(Arr)
            big.kind = np.dtype(kind)
        a = big[::2].reshape(shape)
        if len(shape) == 1:
            a = big[::2]
    elif layout == "reversed":
        r = flat[::-1].copy()
        a = r[::-1].reshape(shape)
        if len(shape) == 1:
            a = r[::-1]
    return a


def counted(env, **kw):
    n = [0]

    def f(x):
        n[0] += 1
        return n[0]

    return cache_module(env).cache_results(**kw)(f), n


def verdict(env, n, same):
    """two calls were made: they shared the result exactly if the arguments are equal"""
    env.check("equal-arguments-share" if same else "different-arguments-differ", n[0] == (1 if same else 2), "%d computations for %s arguments" % (n[0], "equal" if same else "different"))


def h_arrays(env, sizes):
    env.equality_hash()
    ideal(env)
    shape1, shape2 = env.choice("shapes", sizes)
    k1, k2 = env.choice("kinds", [("<f8", "<f8"), ("<i8", "<i8"), ("<f8", "<i8")])
    lay = env.choice("layout", ["c", "fortran", "strided", "reversed"])
    inside = env.choice("inside", ["bare", "list", "dict"])

    def values(name, kind, n):
        if kind == "<f8":
            return env.reals(name, n, lo=-4.0, hi=4.0)
        return [env.count("%s_%d" % (name, i), 5) if env.symbolic else int(env.count("%s_%d" % (name, i), 5)) for i in range(n)]

    n1, n2 = int(np.prod(shape1)), int(np.prod(shape2))
    a, b = values("a", k1, n1), values("b", k2, n2)
    x = array(env, a, shape1, k1, "c")
    y = array(env, b, shape2, k2, lay)
    same = shape1 == shape2 and k1 == k2 and all(bool(u == v) for u, v in zip(a, b))
    wrap = {"bare": lambda v: v, "list": lambda v: [v, 1.0], "dict": lambda v: {"k": v}}[inside]
    f, n = counted(env)
    f(wrap(x))
    f(wrap(y))
    verdict(env, n, same)


# ---------------------------------------------------------------- containers
def structures(v):
    a, b, c = v
    return [
        lambda: a,
        lambda: [a],
        lambda: (a,),
        lambda: [a, b],
        lambda: (a, b),
        lambda: [[a], b],
        lambda: [a, [b]],
        lambda: [[a, b]],
        lambda: [a, b, c],
        lambda: [(a, b), c],
        lambda: {a: b},
        lambda: {0: a, 1: b},
        lambda: {"0": a, "1": b},
        lambda: [(0, a), (1, b)],
        lambda: {"p": [a, b]},
        lambda: {"p": a, "q": b},
        lambda: {"q": b, "p": a},
        lambda: {"p": {"q": a}},
        lambda: (("p", a), ("q", b)),
        lambda: ("list", (a,)),
        lambda: ("tuple", (a, b)),
        lambda: ["dict", a],
        lambda: ("ndarray", a),
        lambda: {"p": a, 1: b},
        lambda: [None, a],
        lambda: ["None", a],
        lambda: [a, None],
        lambda: [[], a],
        lambda: [(), a],
        lambda: [{}, a],
        lambda: [set(), a],
        lambda: [],
        lambda: (),
        lambda: {},
        lambda: None,
        lambda: frozenset([("p", a)]),
        lambda: {"p"},
        lambda: ["p"],
        lambda: "p",
    ]


def equal(env, x, y):
    kinds = (list, tuple, dict, (set, frozenset))
    for k in kinds:
        if isinstance(x, k) or isinstance(y, k):
            if not (isinstance(x, k) and isinstance(y, k)) or len(x) != len(y):
                return False
            if k in (list, tuple):
                return all(equal(env, p, q) for p, q in zip(x, y))
            if k is dict:
                return all(any(equal(env, p, q) and equal(env, x[p], y[q]) for q in y) for p in x)
            return all(any(equal(env, p, q) for q in y) for p in x)
    num = lambda z: env.is_sym(z) or isinstance(z, (int, float))
    if num(x) != num(y):
        return False
    return bool(x == y)


def h_structures(env, part, parts):
    """every pair of shapes of nested containers"""
    env.equality_hash()
    ideal(env)
    u = env.reals("u", 3, lo=-3.0, hi=3.0)
    v = env.reals("v", 3, lo=-3.0, hi=3.0)
    S, T = structures(u), structures(v)
    i = env.choice("first", list(range(part, len(S), parts)))
    j = env.choice("second", list(range(len(T))))
    x, y = S[i](), T[j]()
    f, n = counted(env)
    f(x)
    f(y)
    verdict(env, n, equal(env, x, y))


def h_calls(env):
    """variable arguments, keyword order, methods"""
    env.equality_hash()
    u = env.reals("u", 2, lo=-3.0, hi=3.0)
    v = env.reals("v", 2, lo=-3.0, hi=3.0)
    n = [0]

    def f(*args, **kwargs):
        n[0] += 1
        return n[0]

    f = cache_module(env).cache_results(f)
    forms = [
        lambda a, b: ((a, b), {}),
        lambda a, b: (((a, b),), {}),
        lambda a, b: ((a,), {"b": b}),
        lambda a, b: ((), {"a": a, "b": b}),
        lambda a, b: ((), {"b": b, "a": a}),
        lambda a, b: (({"a": a, "b": b},), {}),
        lambda a, b: ((), {"b": a, "a": b}),
        lambda a, b: ((), {"args": (a, b)}),
        lambda a, b: ((), {"kwargs": {"a": a, "b": b}}),
        lambda a, b: ((("a", a), ("b", b)), {}),
    ]
    i = env.choice("first", list(range(len(forms))))
    j = env.choice("second", list(range(len(forms))))
    a1, k1 = forms[i](*u)
    a2, k2 = forms[j](*v)
    f(*a1, **k1)
    f(*a2, **k2)
    verdict(env, n, equal(env, a1, a2) and equal(env, k1, k2))


def h_concrete(env):
    """arrays whose difference is easily overlooked"""
    big = np.linspace(0.0, 1.0, 3000)
    k = env.choice("index", [0, 1, 3, 500, 1500, 2998, 2999])
    delta = env.choice("change", [1e-12, 1e-3])
    other = big.copy()
    other[k] += delta
    pairs = [
        (big, other, False),
        (big, big.copy(), True),
        (big.reshape(60, 50), other.reshape(60, 50), False),
        (big.reshape(60, 50), np.asfortranarray(big.reshape(60, 50)), True),
        (big.reshape(60, 50), big.reshape(50, 60), False),
        (np.array([1.0]), np.array(1.0), False),
        (np.array([True, False]), np.array([1, 0], dtype=np.uint8), False),
        (np.array([0, 0]), np.array([0.0, 0.0]), False),
        (np.zeros((0,)), np.zeros((0, 3)), False),
        (np.zeros((0,)), np.zeros((0,), dtype=int), False),
        (np.array([1.0, 2.0], dtype="<f8"), np.array([1.0, 2.0], dtype=">f8"), False),
        (np.array([1.0, 2.0]), [1.0, 2.0], False),
        (np.array([1.0, 2.0]), (1.0, 2.0), False),
        (np.array(["a", 1.0], dtype=object), np.array(["a", 2.0], dtype=object), False),
        (np.array(["a", 1.0], dtype=object), np.array(["a", 1.0], dtype=object), True),
        (np.array(["ab"]), np.array(["ac"]), False),
        ([big, other], [other, big], False),
        ({"x": big}, {"x": big.copy()}, True),
        ({"x": big, 1: 2, None: 3}, {None: 3, 1: 2, "x": big}, True),
        ({"x": big}, {"x": other}, False),
        (1.5, "1.5", False),
        (None, "None", False),
        (1 + 0j, "(1+0j)", False),
        # same bytes, other byte order
        (np.array([1], dtype=">i4"), np.array([1 << 24], dtype="<i4"), False),
        (np.array([1, 0], dtype=">i8"), np.array([1 << 56, 0], dtype="<i8"), False),
        # keys that print alike
        ({0: 2.0, 1: 3.0}, {"0": 2.0, "1": 3.0}, False),
        ({1.5: 2.0}, {"1.5": 2.0}, False),
        ({None: 2.0}, {"None": 2.0}, False),
        ({(1, 2): 3.0}, {"(1, 2)": 3.0}, False),
        ({"x": {0: 1.0}}, {"x": {"0": 1.0}}, False),
    ]
    i = env.choice("pair", list(range(len(pairs))))
    x, y, same = pairs[i]
    f, n = counted(env)
    f(x)
    f(y)
    verdict(env, n, same)


def h_expectation(env):
    """the package's own argument types"""
    E = env.mod("spey.utils").ExpectationType
    es = [E.observed, E.apriori, E.aposteriori]
    i, j = env.choice("first", [0, 1, 2]), env.choice("second", [0, 1, 2])
    f, n = counted(env)
    f(es[i])
    f(es[j])
    verdict(env, n, i == j)


def harnesses(tier):
    deep = tier != "quick"
    s1 = [((2,), (2,)), ((2,), (1, 2)), ((1, 2), (2, 1)), ((2,), (1,)), ((), (1,)), ((2, 2), (2, 2)), ((2, 2), (4,))]
    hs = []
    for k, s in enumerate(s1 + ([((3,), (3,)), ((3,), (1, 3)), ((2, 3), (3, 2)), ((2, 3), (2, 3))] if deep else [])):
        hs.append(Harness("arrays-%s-%s" % ("x".join(map(str, s[0])) or "0d", "x".join(map(str, s[1]))), h_arrays, "any elements, float and integer, every layout, nested", stubs="digest is collision free", sizes=[s], max_paths=20000))
    for p in range(4):
        hs.append(Harness("structures-%d" % p, h_structures, "all pairs of 39 nested structures, any leaves", stubs="digest is collision free", part=p, parts=4, max_paths=20000))
    hs.append(Harness("calls", h_calls, "10x10 call forms of a variadic function, any values"))
    hs.append(Harness("lookalikes", h_concrete, "30 pairs of arguments, 7 positions"))
    hs.append(Harness("expectation", h_expectation, "all expectation types"))
    return hs
