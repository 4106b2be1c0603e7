"""Symbolic values and path exploration over the real spey byte-code.

A ``SymReal`` stands for a mathematical real number known to the solver.  The code under
test is executed by CPython itself; wherever it branches on a symbolic condition the
explorer asks z3 which branches are feasible, follows one and queues the other.
"""
import math
import os
import time
from fractions import Fraction

import numpy as np
import z3

from . import ratnf

REAL = z3.RealSort()
NP_ARRAY = np.array  # the untouched numpy functions
NP_ASARRAY = np.asarray


class Unsupported(BaseException):
    """The code did something with a symbolic value the encoding has no meaning for."""


class PathDone(BaseException):
    """This path is over (assumption failed / infeasible)."""


class Budget(BaseException):
    """Exploration budget exceeded."""


def rat(x):
    """z3 rational for a concrete number; floats are read by their shortest decimal form."""
    if isinstance(x, (bool, np.bool_)):
        return z3.RealVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.RealVal(int(x))
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    f = float(x)
    if math.isinf(f) or math.isnan(f):
        raise Unsupported("non finite constant in symbolic arithmetic")
    return z3.RealVal(str(Fraction(repr(f))))


def is_num(x):
    return isinstance(x, (bool, int, float, np.bool_, np.integer, np.floating, Fraction))


# --------------------------------------------------------------------------- context
class Ctx:
    """State of the path being executed."""

    def __init__(self, explorer, prefix):
        self.ex = explorer
        self.prefix = prefix
        self.decisions = []  # (taken, forced)
        self.pc = []  # path constraints
        self.assumed = []  # assumptions
        self.lemmas = []  # facts on function applications
        self.apps = {}  # fname -> list of (args, var)
        self.appkey = {}
        self.order = []  # (var, fname, args) in creation order
        self.inputs = {}  # name -> (z3 var, kind)
        self.inputs_order = []
        self.checks = []
        self.observed = []
        self.notes = []
        self.concretised = []
        self.ncount = 0
        self.refinements = list(explorer.refinements)
        self.simp_cache = {}
        self.rat = ratnf.Normaliser()
        self.entail_memo = {}
        self.shape = []  # names of checks reached

    # -- facts ------------------------------------------------------------
    def facts(self):
        return self.assumed + self.pc + self.lemmas + self.active_refinements()

    def active_refinements(self):
        out = []
        for make in self.refinements:
            out.extend(make(self))
        return out

    def fresh(self, stem):
        self.ncount += 1
        return z3.Real(f"{stem}!{self.ncount}")

    # -- branching --------------------------------------------------------
    def branch(self, expr):
        e = z3.simplify(expr)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        i = len(self.decisions)
        if i < len(self.prefix):
            taken, forced = self.prefix[i]
            self.decisions.append((taken, forced))
            self.pc.append(e if taken else z3.Not(e))
            return taken
        if i >= self.ex.max_decisions:
            raise Budget(f"more than {self.ex.max_decisions} decisions on one path")
        can_t = self.ex.feasible(self, e)
        can_f = self.ex.feasible(self, z3.Not(e)) if can_t else True
        if can_t and can_f:
            self.ex.push(self.decisions + [(False, False)])
            self.ex.forks += 1
            self.decisions.append((True, False))
            self.pc.append(e)
            return True
        if not can_t and not can_f:
            raise PathDone()
        taken = bool(can_t)
        self.decisions.append((taken, True))
        self.pc.append(e if taken else z3.Not(e))
        return taken

    def entailed(self, expr):
        """True / False if the path decides expr, else None (cheap attempt)"""
        e = z3.simplify(expr)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        k = e.get_id()
        if k in self.entail_memo:
            return self.entail_memo[k][0]
        facts = self.ex.slice(self.facts(), self.ex.vars_of(e))
        got = None
        r, m = self.ex.solve(facts + [z3.Not(e)], timeout=300)
        if r == z3.unsat:
            got = True
        elif r == z3.sat:
            r, m = self.ex.solve(facts + [e], timeout=300)
            if r == z3.unsat:
                got = False
        if got is not None:  # only decided answers stay valid as the path grows
            self.entail_memo[k] = (got, e)
        return got

    def some_value(self, expr):
        """A rational value of expr on this path (pins the path to it)."""
        r, m = self.ex.solve(self.facts())
        if r != z3.sat:
            raise Unsupported("cannot concretise")
        v = m.eval(expr, model_completion=True)
        f = to_fraction(v)
        return f


CUR = None  # current Ctx
# set while equal values must meet in hash tables: the hash is constant, equality decides
CONST_HASH = False


def cur():
    if CUR is None:
        raise Unsupported("symbolic value used outside an exploration")
    return CUR


def set_cur(c):
    global CUR
    CUR = c


def to_fraction(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise Unsupported(f"no numeric value: {v}")


# --------------------------------------------------------------------------- booleans
def sbool(e):
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def bexpr(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, SymReal):
        return x.e != 0
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return bexpr(x.item())
    return z3.BoolVal(bool(x))


def _indicator(b):
    """1 or 0; a constant where the path already decides the condition"""
    got = cur().entailed(b.e)
    if got is not None:
        return z3.RealVal(1 if got else 0)
    return z3.If(b.e, z3.RealVal(1), z3.RealVal(0))


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return cur().branch(self.e)

    def __and__(self, o):
        return sbool(z3.And(self.e, bexpr(o)))

    __rand__ = __and__

    def __or__(self, o):
        return sbool(z3.Or(self.e, bexpr(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return sbool(z3.Xor(self.e, bexpr(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return sbool(z3.Not(self.e))

    def logical_not(self):
        return sbool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, SymReal):
            return sreal(_indicator(self)) == o
        return sbool(self.e == bexpr(o))

    def __ne__(self, o):
        return sbool(z3.Not(self.e == bexpr(o)))

    __hash__ = object.__hash__

    def _num(self):
        return sreal(_indicator(self))

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __mul__(self, o):
        if isinstance(o, str):
            return o * int(bool(self))
        return self._num() * o

    __rmul__ = __mul__

    def __neg__(self):
        return -self._num()

    def __truediv__(self, o):
        return self._num() / o

    def __rtruediv__(self, o):
        return o / self._num()

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return f"<SymBool {self.e}>"

    def all(self, *a, **k):
        return self

    any = all

    def item(self):
        return self


# --------------------------------------------------------------------------- reals
def sreal(e):
    """Wrap a z3 real; concrete values come back as np.float64."""
    e = z3.simplify(e, som=False)
    if z3.is_rational_value(e):
        return np.float64(Fraction(e.numerator_as_long(), e.denominator_as_long()))
    return SymReal(e)


def rexpr(x):
    if isinstance(x, SymReal):
        return x.e
    if isinstance(x, SymBool):
        return _indicator(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return rexpr(x.item())
    return rat(x)


def _nonfinite(x):
    return is_num(x) and not isinstance(x, Fraction) and not math.isfinite(float(x))


def _coerce(o):
    """-> operand usable with SymReal, or None."""
    if isinstance(o, (SymReal, SymBool)):
        return o
    if isinstance(o, np.ndarray):
        return o.item() if o.ndim == 0 and not isinstance(o, SymArr) else None
    if is_num(o):
        return o
    return None


class SymReal:
    __slots__ = ("e",)
    __array_priority__ = 1000.0

    def __init__(self, e):
        self.e = e

    # ---- numpy-scalar look
    shape = ()
    ndim = 0
    size = 1
    dtype = np.dtype(np.float64)
    imag = 0.0
    itemsize = 8

    @property
    def real(self):
        return self

    @property
    def T(self):
        return self

    def item(self, *a):
        return self

    def astype(self, *a, **k):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def squeeze(self, *a, **k):
        return self

    def ravel(self):
        return symarr([self])

    flatten = ravel

    def reshape(self, *shape):
        return symarr([self]).reshape(*shape)

    def tolist(self):
        return self

    def sum(self, *a, **k):
        return self

    def max(self, *a, **k):
        return self

    def min(self, *a, **k):
        return self

    def any(self, *a, **k):
        return sbool(self.e != 0)

    all = any

    def conjugate(self):
        return self

    def is_integer(self):
        v = z3.simplify(self.e)
        return sbool(z3.ToReal(z3.ToInt(v)) == v)

    def tobytes(self):
        return repr(self).encode()

    def clip(self, *a, **k):
        return np.clip(self, *a, **k)

    def __getitem__(self, idx):
        if idx == () or idx is Ellipsis:
            return self
        if idx is None:
            return symarr([self])
        raise IndexError("invalid index to scalar variable.")

    # ---- arithmetic
    def __add__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        if _nonfinite(o):
            return np.float64(o)
        return sreal(self.e + rexpr(o))

    __radd__ = __add__

    def __sub__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        if _nonfinite(o):
            return -np.float64(o)
        return sreal(self.e - rexpr(o))

    def __rsub__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        if _nonfinite(o):
            return np.float64(o)
        return sreal(rexpr(o) - self.e)

    def __mul__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        if _nonfinite(o):
            if math.isnan(float(o)):
                return np.float64("nan")
            if sbool(self.e == 0):
                return np.float64("nan")
            return np.float64(o) if sbool(self.e > 0) else -np.float64(o)
        return sreal(self.e * rexpr(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return _div(self, o)

    def __rtruediv__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return _div(o, self)

    def __floordiv__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        q = _div(self, o)
        return floor(q)

    def __rfloordiv__(self, o):
        return floor(_div(o, self))

    def __mod__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return self - floor(_div(self, o)) * o

    def __neg__(self):
        return sreal(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        if sbool(self.e >= 0):
            return self
        return -self

    absolute = __abs__
    fabs = __abs__

    def __pow__(self, o, mod=None):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    # ---- comparison
    def _cmp(self, o, op):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        if _nonfinite(o):
            f = float(o)
            return {
                "<": 0.0 < f,
                "<=": 0.0 <= f,
                ">": 0.0 > f,
                ">=": 0.0 >= f,
                "==": False,
                "!=": True,
            }[op]
        a, b = self.e, rexpr(o)
        return sbool(
            {
                "<": lambda: a < b,
                "<=": lambda: a <= b,
                ">": lambda: a > b,
                ">=": lambda: a >= b,
                "==": lambda: a == b,
                "!=": lambda: a != b,
            }[op]()
        )

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        r = self._cmp(o, "==")
        return False if r is NotImplemented and not isinstance(o, np.ndarray) else r

    def __ne__(self, o):
        r = self._cmp(o, "!=")
        return True if r is NotImplemented and not isinstance(o, np.ndarray) else r

    def __hash__(self):
        return 7 if CONST_HASH else hash(("SymReal", self.e.hash()))

    def __bool__(self):
        return cur().branch(self.e != 0)

    # ---- concretisation
    def __float__(self):
        return concretise(self)

    def __int__(self):
        v = sreal(self.e)
        c = cur()
        f = c.some_value(z3.ToInt(self.e))
        n = int(f)
        c.concretised.append(f"int({self.e}) := {n}")
        if not c.branch(z3.ToInt(self.e) == n):
            raise PathDone()
        return n

    def __index__(self):
        raise TypeError("'numpy.float64' object cannot be interpreted as an integer")

    def __round__(self, n=None):
        raise Unsupported("round of a symbolic real")

    def __floor__(self):
        return floor(self)

    def __trunc__(self):
        return floor(self) if sbool(self.e >= 0) else -floor(-self)

    def __repr__(self):
        return f"<SymReal {self.e.sexpr()}>"

    def __str__(self):
        return "<sym>"

    def __format__(self, spec):
        return "<sym>"

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    # ---- method form used by numpy's object loops
    def sqrt(self):
        return sqrt(self)

    def log(self):
        return log(self)

    def exp(self):
        return exp(self)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import npsym

        return npsym.array_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        from . import npsym

        return npsym.array_function(func, args, kwargs)


import numbers  # noqa: E402

numbers.Real.register(SymReal)


def concretise(x):
    c = cur()
    f = c.some_value(x.e)
    c.concretised.append(f"{x.e} := {f}")
    c.pc.append(x.e == z3.RealVal(str(f)))
    return float(f)


class SymArr(np.ndarray):
    """Object array holding symbolic (and concrete) reals; looks like float64."""

    def astype(self, dtype=None, *a, **k):
        try:
            if dtype is not None and np.dtype(dtype).kind in "fO":
                return self.copy()
        except TypeError:
            return self.copy()
        if dtype is bool or np.dtype(dtype).kind == "b":
            return np.array([bool(v) for v in np.asarray(self).ravel()]).reshape(self.shape)
        return np.ndarray.astype(self, dtype, *a, **k)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import npsym

        return npsym.array_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        from . import npsym

        return npsym.array_function(func, args, kwargs)

    def tobytes(self, *a, **k):
        return repr([str(self.shape)] + [repr(v) for v in plain(self).ravel()]).encode()

    def __getitem__(self, idx):
        return wrap(np.ndarray.__getitem__(plain(self), fix_index(idx)), view=True)

    def __setitem__(self, idx, val):
        np.ndarray.__setitem__(plain(self), fix_index(idx), val)

    def dot(self, o):
        return np.dot(self, o)

    def __deepcopy__(self, memo):
        return self.copy()

    def item(self, *a):
        return np.ndarray.item(plain(self), *a)

    def __float__(self):
        return float(self.item())

    def __bool__(self):
        if self.size == 1:
            return bool(self.item())
        raise ValueError(
            "The truth value of an array with more than one element is ambiguous. "
            "Use a.any() or a.all()"
        )

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def tolist(self):
        return np.ndarray.tolist(plain(self))

    def all(self, *a, **k):
        return np.all(self, *a, **k)

    def any(self, *a, **k):
        return np.any(self, *a, **k)

    def sum(self, *a, **k):
        return np.sum(self, *a, **k)

    def prod(self, *a, **k):
        return np.prod(self, *a, **k)

    def mean(self, *a, **k):
        return np.mean(self, *a, **k)

    def min(self, *a, **k):
        return np.min(self, *a, **k)

    def max(self, *a, **k):
        return np.max(self, *a, **k)

    def clip(self, *a, **k):
        return np.clip(self, *a, **k)


def plain(x):
    """The same buffer seen as a plain object ndarray."""
    if isinstance(x, SymArr):
        return x.view(np.ndarray)
    return x


def fix_index(idx):
    def one(i):
        if isinstance(i, SymReal):
            raise TypeError("symbolic index")
        if isinstance(i, SymBool):
            return bool(i)
        if isinstance(i, SymArr) or (isinstance(i, np.ndarray) and i.dtype == object):
            flat = plain(i).ravel()
            if all(isinstance(v, (SymBool, bool, np.bool_)) for v in flat):
                return np.array([bool(v) for v in flat], dtype=bool).reshape(i.shape)
            return np.array([int(v) for v in flat]).reshape(i.shape)
        return i

    return tuple(one(i) for i in idx) if isinstance(idx, tuple) else one(idx)


def has_sym(x, depth=4):
    if isinstance(x, (SymReal, SymBool, SymArr)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(has_sym(v) for v in x.ravel())
    if isinstance(x, (list, tuple)) and depth:
        return any(has_sym(v, depth - 1) for v in x)
    if isinstance(x, (dict,)) and depth:
        return any(has_sym(v, depth - 1) for v in x.values())
    return False


def symarr(x):
    a = NP_ARRAY(_tolist(x), dtype=object) if not isinstance(x, np.ndarray) else NP_ARRAY(plain(x), dtype=object)
    return a.view(SymArr)


def _tolist(x):
    if isinstance(x, np.ndarray):
        return np.ndarray.tolist(plain(x))
    if isinstance(x, (list, tuple)):
        return [_tolist(v) for v in x]
    return x


def wrap(r, view=False):
    """Result of an object-dtype operation: scalars out, arrays as SymArr or float/bool."""
    if isinstance(r, np.ndarray):
        if r.dtype != object:
            return r
        if r.ndim == 0 and not view:
            return r.item()
        if view:
            return r.view(SymArr)
        flat = r.ravel()
        if flat.size and all(isinstance(v, (bool, np.bool_)) for v in flat):
            return r.astype(bool)
        if all(is_num(v) for v in flat):
            return r.astype(np.float64)
        return r.view(SymArr)
    return r


# --------------------------------------------------------------------------- functions
def _div(a, b):
    """numpy float64 division, extended reals included."""
    if _nonfinite(b):
        if math.isnan(float(b)):
            return np.float64("nan")
        return np.float64(0.0)
    if _nonfinite(a):
        if math.isnan(float(a)):
            return np.float64("nan")
        if sbool(rexpr(b) >= 0):
            return np.float64(a)
        return -np.float64(a)
    if is_num(b):
        if float(b) == 0.0:
            if sbool(rexpr(a) == 0):
                return np.float64("nan")
            return np.float64("inf") if sbool(rexpr(a) > 0) else np.float64("-inf")
        return sreal(rexpr(a) / rat(b))
    be = rexpr(b)
    if sbool(be == 0):
        ae = rexpr(a)
        if sbool(ae == 0):
            return np.float64("nan")
        return np.float64("inf") if sbool(ae > 0) else np.float64("-inf")
    q = rexpr(a) / be
    got = cur().rat.quotient(q)
    return sreal(q if got is None else got)


def floor(x):
    if not isinstance(x, SymReal):
        return np.floor(x)
    return sreal(z3.ToReal(z3.ToInt(x.e)))


def norm_key(e):
    c = cur()
    k = e.get_id()
    got = c.simp_cache.get(k)
    if got is None:
        got = (e, z3.simplify(e, som=True, mul_to_power=True))
        c.simp_cache[k] = got
    return got[1]


class Fn:
    """An uninterpreted real function with facts about it."""

    def __init__(self, name, arity=1, value=None, unary_facts=None, pair_facts=None, const=None):
        self.name = name
        self.arity = arity
        self.value = value  # true numeric function (or None for an arbitrary function)
        self.unary_facts = unary_facts
        self.pair_facts = pair_facts
        self.const = const

    def __call__(self, *args):
        c = cur()
        if all(is_num(a) for a in args):
            if self.value is not None:
                return np.float64(self.value(*[float(a) for a in args]))
        es = tuple(norm_key(rexpr(a)) for a in args)
        key = (self.name,) + tuple(e.sexpr() for e in es)
        got = c.appkey.get(key)
        if got is not None:
            return SymReal(got)
        prev = c.apps.setdefault(self.name, [])
        for (pa, pv) in prev:
            if len(pa) == len(es) and all(c.rat.equal(x, y) for x, y in zip(pa, es)):
                c.appkey[key] = pv
                return SymReal(pv)
        v = c.fresh(self.name)
        c.appkey[key] = v
        # congruence (+ whatever the function adds)
        for (pa, pv) in prev:
            if self.pair_facts is not None:
                c.lemmas.extend(self.pair_facts(pa, pv, es, v))
            else:
                c.lemmas.append(z3.Implies(z3.And([x == y for x, y in zip(pa, es)]), pv == v))
        prev.append((es, v))
        c.order.append((v, self, es))
        if self.unary_facts is not None:
            c.lemmas.extend(self.unary_facts(es, v))
        return SymReal(v)


def _mono(pa, pv, ea, v):
    a, b = pa[0], ea[0]
    return [(a == b) == (pv == v), (a < b) == (pv < v)]


def _mono_sym(pa, pv, ea, v):
    a, b = pa[0], ea[0]
    return _mono(pa, pv, ea, v) + [(a == -b) == (pv + v == 1), (a < -b) == (pv + v < 1)]


from scipy import special as _sp  # noqa: E402
from scipy import stats as _st  # noqa: E402

F_EXP = Fn(
    "exp",
    value=math.exp,
    unary_facts=lambda a, v: [v > 0, v >= 1 + a[0], (a[0] == 0) == (v == 1), (a[0] < 0) == (v < 1)],
    pair_facts=_mono,
)
F_LOG = Fn(
    "log",
    value=math.log,
    unary_facts=lambda a, v: [v <= a[0] - 1, (a[0] == 1) == (v == 0), (a[0] < 1) == (v < 0), v * a[0] >= a[0] - 1],
    pair_facts=_mono,
)
PHI_GRID = (-2.0, -1.0, 0.0, 1.0, 2.0)


def _phi_facts(a, v):
    out = [v > 0, v < 1]
    for c in PHI_GRID:
        out += [(a[0] < rat(c)) == (v < rat(float(_sp.ndtr(c)))), (a[0] == rat(c)) == (v == rat(float(_sp.ndtr(c))))]
    return out


F_PHI = Fn(
    "Phi",
    value=lambda x: float(_sp.ndtr(x)),
    unary_facts=_phi_facts,
    pair_facts=_mono_sym,
)
F_LOGPHI = Fn("logPhi", value=lambda x: float(_sp.log_ndtr(x)), unary_facts=lambda a, v: [v < 0], pair_facts=_mono)
F_GAMMALN = Fn("gammaln", value=lambda x: float(_sp.gammaln(x)))


def _snap(x):
    """values of trigonometric functions at rational multiples of pi written as floats"""
    for n in (0.0, 1.0, -1.0, 0.5, -0.5):
        if abs(x - n) < 1e-12:
            return n
    return x


def _cos_facts(a, v):
    """range; for cos(c + arctan(t)/n) the multiple-angle identity and the range implied by t >= 0"""
    out = [v <= 1, v >= -1]
    c = cur()
    for (es, w) in c.apps.get("arctan", ()):
        k = z3.simplify(z3.substitute(a[0], (w, z3.RealVal(1))) - z3.substitute(a[0], (w, z3.RealVal(0))))
        off = z3.simplify(z3.substitute(a[0], (w, z3.RealVal(0))))
        if not (z3.is_rational_value(k) and z3.is_rational_value(off)):
            continue
        kf, of = float(to_fraction(k)), float(to_fraction(off))
        if kf == 0 or abs(1 / kf - round(1 / kf)) > 1e-9 or round(1 / kf) not in (1, 2, 3):
            continue
        n = round(1 / kf)
        t = es[0]
        # sub-angle identity: cos(n x) = T_n(cos x) with n x = n c + arctan(t)
        r = sqrt(sreal(1 + t * t))
        co, si = _snap(math.cos(n * of)), _snap(math.sin(n * of))
        rhs = (rexpr(co) - rexpr(si) * t) / rexpr(r)
        if n == 1:
            out.append(v == rhs)
        elif n == 2:
            out.append(2 * v * v - 1 == rhs)
            c.rat.power_rule(v, 2, (rhs + 1) / 2)
        else:
            out.append(4 * v * v * v - 3 * v == rhs)
            c.rat.power_rule(v, 3, (rhs + 3 * v) / 4)
        for sgn, cond in ((1, t > 0), (-1, t < 0)):
            lo, hi = sorted((of, of + sgn * math.pi / 2 / n))
            pts = [math.cos(lo), math.cos(hi)] + [math.cos(j * math.pi) for j in range(math.ceil(lo / math.pi), math.floor(hi / math.pi) + 1)]
            out.append(z3.Implies(cond, z3.And(v >= rexpr(_snap(min(pts))), v <= rexpr(_snap(max(pts))))))
            if len(pts) == 2:
                out.append(z3.Implies(cond, z3.And(v > rexpr(_snap(min(pts))), v < rexpr(_snap(max(pts))))))
        break
    return out


F_COS = Fn("cos", value=math.cos, unary_facts=_cos_facts)
F_SIN = Fn("sin", value=math.sin, unary_facts=lambda a, v: [v <= 1, v >= -1])
F_ARCTAN = Fn(
    "arctan",
    value=math.atan,
    unary_facts=lambda a, v: [v < z3.Q(157080, 100000), v > z3.Q(-157080, 100000), (a[0] > 0) == (v > 0), (a[0] == 0) == (v == 0)],
    pair_facts=_mono,
)
F_TANH = Fn("tanh", value=math.tanh, unary_facts=lambda a, v: [v < 1, v > -1], pair_facts=_mono)


def _lookup_app(v, fn):
    """If z3 expr v is the application variable of fn return its argument."""
    c = cur()
    for (es, w) in c.apps.get(fn.name, ()):
        if w.eq(v):
            return es[0]
    return None


def sqrt(x):
    if not isinstance(x, SymReal):
        return np.sqrt(x)
    c = cur()
    e = norm_key(x.e)
    key = ("sqrt", e.sexpr())
    r = c.rat.square_root(e)
    if r is not None:  # the square of a simple term
        return abs(sreal(r))
    if sbool(x.e < 0):
        return np.float64("nan")
    sp = c.rat.split_root(e) if c.appkey.get(key) is None else None
    if sp is not None:
        inner = sreal(sp[1])
        if isinstance(inner, SymReal):
            return abs(sreal(sp[0])) * sqrt(inner)
        return abs(sreal(sp[0])) * np.sqrt(inner)
    got = c.appkey.get(key)
    if got is None:
        for (pa, pv) in c.apps.get("sqrt", ()):
            if c.rat.equal(pa[0], e):
                got = c.appkey[key] = pv
                break
    if got is None:
        got = c.fresh("sqrt")
        c.rat.root(got, e)
        c.appkey[key] = got
        c.order.append((got, SQRT, (e,)))
        c.lemmas += [got >= 0, got * got == e]
        for (pa, pv) in c.apps.setdefault("sqrt", []):
            c.lemmas += [(pa[0] < e) == (pv < got), (pa[0] == e) == (pv == got)]
        c.apps["sqrt"].append(((e,), got))
    return SymReal(got)


SQRT = Fn("sqrt", value=math.sqrt)


def exp(x):
    if not isinstance(x, SymReal):
        return np.exp(x)
    e = norm_key(x.e)
    if z3.is_const(e):
        a = _lookup_app(e, F_LOG)
        if a is not None:
            return SymReal(a)
    got = _exp_factors(e)
    if got is not None:
        return got
    return F_EXP(SymReal(e))


def _exp_factors(e):
    """exp(k*log(a) + c + rest) = a**k * exp(c) * exp(rest) for integer k and a number c"""
    c = cur()
    logs = {v.get_id(): es[0] for es, v in c.apps.get("log", ())}
    if e.decl().kind() != z3.Z3_OP_ADD:
        return None
    factor, rest = None, []
    for t in e.children():
        try:
            n, d = c.rat.nf(t)
        except ratnf.TooBig:
            return None
        f = None
        if not d and len(n) == 1:
            ((m, k),) = n.items()
            if m == ():
                f = sreal(rat(math.exp(float(k))))
            elif len(m) == 1 and m[0][1] == 1 and m[0][0] in logs and k.denominator == 1 and abs(k) <= 4:
                f = power(SymReal(logs[m[0][0]]), int(k))
        if f is None:
            rest.append(t)
        else:
            factor = f if factor is None else factor * f
    if factor is None:
        return None
    if not rest:
        return factor
    return factor * F_EXP(SymReal(z3.Sum(rest)))


def log(x):
    if not isinstance(x, SymReal):
        with np.errstate(all="ignore"):
            return np.log(x)
    e = norm_key(x.e)
    if z3.is_const(e):
        a = _lookup_app(e, F_EXP)
        if a is not None:
            return SymReal(a)
    if sbool(e > 0):
        return F_LOG(SymReal(e))
    if sbool(e == 0):
        return np.float64("-inf")
    return np.float64("nan")


def power(a, b):
    if not isinstance(a, (SymReal, SymBool)) and not isinstance(b, (SymReal, SymBool)):
        return np.power(a, b)
    if isinstance(b, (SymReal, SymBool)):
        if is_num(a) and float(a) > 0:
            if float(a) == math.e:
                return exp(b)
            return exp(b * np.float64(math.log(float(a))))
        la = log(a) if isinstance(a, SymReal) else np.log(a)
        return exp(b * la)
    fb = float(b)
    if fb == int(fb) and abs(fb) <= 12:
        n = int(fb)
        if n == 0:
            return np.float64(1.0)
        r = a
        for _ in range(abs(n) - 1):
            r = r * a
        return r if n > 0 else _div(1.0, r)
    if fb == 0.5:
        return sqrt(a)
    if fb == -0.5:
        return _div(1.0, sqrt(a))
    if fb * 2 == int(fb * 2) and abs(fb) <= 6:
        n = int(fb - 0.5) if fb > 0 else int(fb + 0.5)
        s = sqrt(a)
        base = power(a, abs(n)) if n else np.float64(1.0)
        r = base * s
        return r if fb > 0 else _div(1.0, r)
    return exp(log(a) * fb)


def ite(c, a, b):
    if not isinstance(c, SymBool):
        return a if c else b
    if _nonfinite(a) or _nonfinite(b):
        return a if bool(c) else b
    return sreal(z3.If(c.e, rexpr(a), rexpr(b)))
