"""numpy / scipy entry points that understand symbolic values.

Installed once, in the symbolic process only.  For concrete arguments everything is
passed to the untouched numpy / scipy function.
"""
import builtins
import math

import numpy as np
import z3

from . import sym
from .sym import (
    SymArr,
    SymBool,
    SymReal,
    Unsupported,
    bexpr,
    has_sym,
    is_num,
    ite,
    plain,
    rexpr,
    sbool,
    sreal,
    symarr,
    wrap,
)

REALFN = {}  # original functions by name


# ----------------------------------------------------------------- scalar semantics
def _cmp(op):
    def f(a, b):
        if isinstance(a, SymBool):
            a = a._num()
        if isinstance(b, SymBool):
            b = b._num()
        return op(a, b)

    return f


def _maximum(a, b):
    if _isnan(a) or _isnan(b):
        return np.float64("nan")
    return a if (a >= b) else b


def _minimum(a, b):
    if _isnan(a) or _isnan(b):
        return np.float64("nan")
    return a if (a <= b) else b


def _isnan(a):
    return is_num(a) and math.isnan(float(a))


def _sign(a):
    if not isinstance(a, SymReal):
        return np.sign(a)
    if sbool(a.e > 0):
        return np.float64(1.0)
    if sbool(a.e == 0):
        return np.float64(0.0)
    return np.float64(-1.0)


def _truth(x):
    return x if isinstance(x, SymBool) else sbool(bexpr(x))


def _round(x):
    if not isinstance(x, SymReal):
        return np.rint(x)
    raise Unsupported("rounding a symbolic real")


SCALAR = {
    "add": lambda a, b: a + b,
    "subtract": lambda a, b: a - b,
    "multiply": lambda a, b: a * b,
    "divide": lambda a, b: sym._div(a, b),
    "true_divide": lambda a, b: sym._div(a, b),
    "floor_divide": lambda a, b: sym.floor(sym._div(a, b)),
    "remainder": lambda a, b: a - sym.floor(sym._div(a, b)) * b,
    "power": sym.power,
    "float_power": sym.power,
    "negative": lambda a: -a,
    "positive": lambda a: a,
    "absolute": lambda a: abs(a),
    "fabs": lambda a: abs(a),
    "sqrt": sym.sqrt,
    "square": lambda a: a * a,
    "reciprocal": lambda a: sym._div(1.0, a),
    "exp": sym.exp,
    "log": sym.log,
    "log1p": lambda a: sym.log(1.0 + a),
    "expm1": lambda a: sym.exp(a) - 1.0,
    "log10": lambda a: sym.log(a) / math.log(10.0),
    "log2": lambda a: sym.log(a) / math.log(2.0),
    "hypot": lambda a, b: sym.sqrt(a * a + b * b),
    "copysign": lambda a, b: abs(a) if bool(b >= 0) else -abs(a),
    "signbit": lambda a: sbool(a.e < 0) if isinstance(a, SymReal) else bool(np.signbit(a)),
    "exp2": lambda a: sym.exp(a * math.log(2.0)),
    "heaviside": lambda a, b: 1.0 if bool(a > 0) else (b if bool(a == 0) else 0.0),
    "tan": lambda a: sym._div(sym.F_SIN(a), sym.F_COS(a)),
    "cosh": lambda a: (sym.exp(a) + sym.exp(-a)) / 2.0,
    "sinh": lambda a: (sym.exp(a) - sym.exp(-a)) / 2.0,
    "logaddexp": lambda a, b: sym.log(sym.exp(a) + sym.exp(b)),
    "cos": lambda a: sym.F_COS(a),
    "sin": lambda a: sym.F_SIN(a),
    "arctan": lambda a: sym.F_ARCTAN(a),
    "tanh": lambda a: sym.F_TANH(a),
    "sign": _sign,
    "floor": lambda a: sym.floor(a),
    "ceil": lambda a: -sym.floor(-a),
    "maximum": _maximum,
    "minimum": _minimum,
    "fmax": _maximum,
    "fmin": _minimum,
    "greater": _cmp(lambda a, b: a > b),
    "greater_equal": _cmp(lambda a, b: a >= b),
    "less": _cmp(lambda a, b: a < b),
    "less_equal": _cmp(lambda a, b: a <= b),
    "equal": _cmp(lambda a, b: a == b),
    "not_equal": _cmp(lambda a, b: a != b),
    "logical_and": lambda a, b: sbool(z3.And(bexpr(a), bexpr(b))),
    "logical_or": lambda a, b: sbool(z3.Or(bexpr(a), bexpr(b))),
    "logical_xor": lambda a, b: sbool(z3.Xor(bexpr(a), bexpr(b))),
    "logical_not": lambda a: sbool(z3.Not(bexpr(a))),
    "bitwise_and": lambda a, b: a & b,
    "bitwise_or": lambda a, b: a | b,
    "invert": lambda a: ~a,
    "isfinite": lambda a: True if isinstance(a, (SymReal, SymBool)) else bool(math.isfinite(float(a))),
    "isnan": lambda a: False if isinstance(a, (SymReal, SymBool)) else math.isnan(float(a)),
    "isinf": lambda a: False if isinstance(a, (SymReal, SymBool)) else math.isinf(float(a)),
    "conjugate": lambda a: a,
    "clip": lambda a, lo, hi: _minimum(_maximum(a, lo), hi),
    "arctan2": lambda y, x: (_ for _ in ()).throw(Unsupported("arctan2")),
    "ldexp": lambda a, b: a * (2.0 ** int(b)),
}


def _scalar(name, args):
    if not any(isinstance(a, (SymReal, SymBool)) for a in args):
        with np.errstate(all="ignore"):
            return getattr(np, name)(*[np.float64(a) if isinstance(a, (int, float)) and not isinstance(a, bool) else a for a in args])
    f = SCALAR.get(name)
    if f is None:
        raise Unsupported(f"numpy function {name} on a symbolic value")
    return f(*[a.item() if isinstance(a, np.generic) else a for a in args])


def _obj(x):
    if isinstance(x, np.ndarray):
        return sym.NP_ASARRAY(plain(x), dtype=object)
    if isinstance(x, (list, tuple)):
        return sym.NP_ASARRAY(plain(symarr(x)), dtype=object)
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def elementwise(fn, *arrs):
    objs = [_obj(a) for a in arrs]
    shape = np.broadcast_shapes(*[o.shape for o in objs])
    objs = [np.broadcast_to(o, shape) for o in objs]
    out = np.empty(shape, dtype=object)
    for idx in np.ndindex(*shape):
        out[idx] = fn(*[o[idx] for o in objs])
    return out


def _boxed(xs):
    return any(type(x).__name__.endswith("Box") and hasattr(x, "_node") for x in xs)


def array_ufunc(ufunc, method, inputs, kwargs):
    if _boxed(inputs):  # automatic differentiation takes over
        return NotImplemented
    name = ufunc.__name__
    kwargs = dict(kwargs)
    out = kwargs.pop("out", None)
    where = kwargs.pop("where", True)
    kwargs.pop("dtype", None)
    kwargs.pop("casting", None)
    kwargs.pop("subok", None)
    if name in ("matmul", "vecdot") and method == "__call__":
        res = matmul(*inputs) if name == "matmul" else dot(*inputs)
    elif method == "__call__":
        if where is not True:
            raise Unsupported("ufunc where=")
        res = wrap(elementwise(lambda *a: _scalar(name, a), *inputs))
    elif method == "reduce":
        res = reduce_(name, inputs[0], **kwargs)
    elif method == "outer":
        a, b = [_obj(i) for i in inputs]
        res = wrap(
            elementwise(
                lambda *x: _scalar(name, x),
                a.reshape(a.shape + (1,) * b.ndim),
                b,
            )
        )
    elif method == "accumulate":
        a = _obj(inputs[0])
        axis = kwargs.get("axis", 0)
        a = np.moveaxis(a, axis, 0)
        res = np.empty(a.shape, dtype=object)
        acc = None
        for i in range(a.shape[0]):
            acc = a[i] if i == 0 else elementwise(lambda *x: _scalar(name, x), acc, a[i])
            res[i] = acc
        res = wrap(np.moveaxis(res, 0, axis))
    elif method == "at" and name == "add" and isinstance(inputs[0], np.ndarray) and inputs[0].dtype == object:
        a = plain(inputs[0])
        pos = np.arange(a.size).reshape(a.shape)[sym.fix_index(inputs[1])]
        vals = np.broadcast_to(_obj(inputs[2]), pos.shape)
        for p, v in zip(np.ravel(pos), vals.ravel()):
            k = np.unravel_index(int(p), a.shape)
            a[k] = a[k] + v
        return None
    else:
        raise Unsupported(f"ufunc method {name}.{method}")
    if out is not None:
        o = out[0]
        if isinstance(o, np.ndarray) and o.dtype == object:
            plain(o)[...] = plain(res) if isinstance(res, np.ndarray) else res
            return o
        if isinstance(o, np.ndarray) and not has_sym(res):
            o[...] = res
            return o
        if o is None:
            return res
        raise Unsupported("writing a symbolic value into a float array (out=)")
    return res


IDENT = {"add": 0.0, "multiply": 1.0, "logical_and": True, "logical_or": False}


def reduce_(name, a, axis=0, keepdims=False, initial=None, **kw):
    a = _obj(a)
    if isinstance(axis, tuple):
        axes = sorted((ax % a.ndim for ax in axis), reverse=True)
        res = a
        for ax in axes:
            res = _obj(reduce_(name, res, axis=ax, keepdims=keepdims))
        return wrap(res)
    if axis is None:
        shape = a.shape
        a1 = a.reshape(-1)
        r = _reduce1(name, a1, initial)
        r = wrap(r) if isinstance(r, np.ndarray) else r
        if keepdims:
            o = np.empty((1,) * len(shape), dtype=object)
            o[...] = r
            return wrap(o)
        return r
    if a.ndim == 0:
        return a.item()
    ax = axis % a.ndim
    m = np.moveaxis(a, ax, 0)
    if m.ndim == 1:
        r = _reduce1(name, m, initial)
        if keepdims:
            o = np.empty((1,), dtype=object)
            o[0] = r
            return wrap(o)
        return r
    out = np.empty(m.shape[1:], dtype=object)
    for idx in np.ndindex(*out.shape):
        out[idx] = _reduce1(name, m[(slice(None),) + idx], initial)
    if keepdims:
        out = np.expand_dims(out, ax)
    return wrap(out)


def _reduce1(name, vec, initial):
    items = list(vec)
    if initial is not None and not (type(initial).__name__ == "_NoValueType"):
        items = [initial] + items
    if not items:
        if name in IDENT:
            return IDENT[name]
        raise ValueError("zero-size array to reduction operation")
    if name in ("logical_and", "logical_or"):
        e = [bexpr(i) for i in items]
        return sbool(z3.And(e) if name == "logical_and" else z3.Or(e))
    acc = items[0]
    if name == "add" and isinstance(acc, SymBool):
        acc = acc._num()
    for i in items[1:]:
        acc = _scalar(name, (acc, i))
    return acc


def dot(a, b):
    a, b = _obj(a), _obj(b)
    if a.ndim == 0 or b.ndim == 0:
        return wrap(elementwise(lambda x, y: x * y, a, b))
    return matmul(a, b)


def _mul(x, y):
    # 0 * symbolic = 0 keeps expressions small and is exact over the reals
    return x * y


def matmul(a, b):
    a, b = _obj(a), _obj(b)
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported("matmul of more than 2 dimensions")
    va, vb = a.ndim == 1, b.ndim == 1
    A = a[None, :] if va else a
    B = b[:, None] if vb else b
    if A.shape[1] != B.shape[0]:
        raise ValueError(
            f"matmul: Input operand 1 has a mismatch in its core dimension 0 ({B.shape[0]} is different from {A.shape[1]})"
        )
    out = np.empty((A.shape[0], B.shape[1]), dtype=object)
    for i in range(A.shape[0]):
        for j in range(B.shape[1]):
            s = np.float64(0.0)
            for k in range(A.shape[1]):
                s = s + _mul(A[i, k], B[k, j])
            out[i, j] = s
    if va and vb:
        return out[0, 0]
    if va:
        return wrap(out[0])
    if vb:
        return wrap(out[:, 0])
    return wrap(out)


# ----------------------------------------------------------------- linear algebra
def _det(a):
    n = a.shape[0]
    if n == 0:
        return np.float64(1.0)
    if n == 1:
        return a[0, 0]
    s = np.float64(0.0)
    for j in range(n):
        minor = np.delete(np.delete(a, 0, 0), j, 1)
        t = a[0, j] * _det(minor)
        s = s + t if j % 2 == 0 else s - t
    return s


def det(a):
    return _det(_obj(a))


def inv(a):
    a = _obj(a)
    n = a.shape[0]
    if n > 4:
        raise Unsupported("symbolic inverse beyond 4x4")
    d = _det(a)
    if isinstance(d, SymReal):
        if sbool(d.e == 0):
            raise np.linalg.LinAlgError("Singular matrix")
    elif d == 0.0:
        raise np.linalg.LinAlgError("Singular matrix")
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            minor = np.delete(np.delete(a, j, 0), i, 1)
            c = _det(minor)
            out[i, j] = sym._div(c if (i + j) % 2 == 0 else -c, d)
    return wrap(out)


def solve(a, b):
    return matmul(inv(a), b)


def slogdet(a):
    d = det(a)
    s = _sign(d)
    from numpy.linalg._linalg import SlogdetResult

    if is_num(s) and s == 0.0:
        return SlogdetResult(np.float64(0.0), np.float64("-inf"))
    if isinstance(d, SymReal):
        if sbool(d.e > 0):
            return SlogdetResult(np.float64(1.0), sym.log(d))
        if sbool(d.e < 0):
            return SlogdetResult(np.float64(-1.0), sym.log(-d))
        return SlogdetResult(np.float64(0.0), np.float64("-inf"))
    return SlogdetResult(s, sym.log(abs(d)))


# ----------------------------------------------------------------- array functions
def _where1(c, a, b):
    if not isinstance(c, (SymBool, bool, np.bool_)):
        c = sbool(bexpr(c))
    if isinstance(c, SymBool):
        known = sym.cur().entailed(c.e)
        if known is not None:
            return a if known else b
    return ite(c, a, b)


def _np_where(cond, *xy):
    if not xy:
        c = _obj(cond)
        c = np.array([bool(v) for v in c.ravel()], dtype=bool).reshape(c.shape)
        return np.where(c)
    return wrap(elementwise(_where1, cond, *xy))


def _np_clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = a
    if lo is not None:
        r = elementwise(_maximum, r, lo)
    if hi is not None:
        r = elementwise(_minimum, r, hi)
    return wrap(_obj(r))


def _isclose_scalar(a, b, rtol, atol):
    if sym._nonfinite(a) or sym._nonfinite(b):
        return bool(is_num(a) and is_num(b) and float(a) == float(b))
    d = rexpr(a) - rexpr(b)
    be = rexpr(b)
    tol = sym.rat(atol) + sym.rat(rtol) * z3.If(be >= 0, be, -be)
    return sbool(z3.And(d <= tol, -d <= tol))


def _np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return wrap(elementwise(lambda x, y: _isclose_scalar(x, y, rtol, atol), a, b))


def _np_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return reduce_("logical_and", _np_isclose(a, b, rtol, atol), axis=None)


def _reducer(name, post=None):
    def f(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True, **k):
        if where is not True and type(where).__name__ != "_NoValueType":
            raise Unsupported("where=")
        if type(keepdims).__name__ == "_NoValueType":
            keepdims = False
        return reduce_(name, a, axis=axis, keepdims=keepdims, initial=initial)

    return f


def _np_mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    o = _obj(a)
    n = o.size if axis is None else o.shape[axis]
    return reduce_("add", o, axis=axis) / n


def _np_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    o = _obj(a)
    if axis is not None and o.ndim > 1:
        raise Unsupported("var axis")
    m = _np_mean(o)
    return reduce_("add", elementwise(lambda x: (x - m) * (x - m), o), axis=None) / (o.size - ddof)


def _sorted(vec):
    """insertion sort with symbolic comparisons (forks)"""
    out = []
    for v in vec:
        i = len(out)
        while i > 0 and bool(v < out[i - 1]):
            i -= 1
        out.insert(i, v)
    return out


def _np_sort(a, axis=-1, **k):
    o = _obj(a)
    if o.ndim != 1:
        raise Unsupported("sort of a matrix")
    return symarr(_sorted(o))


def _np_argsort(a, axis=-1, **k):
    o = list(_obj(a))
    out = []
    for j, v in enumerate(o):
        i = len(out)
        while i > 0 and bool(v < o[out[i - 1]]):
            i -= 1
        out.insert(i, j)
    return np.array(out)


def _np_percentile(a, q, axis=None, out=None, overwrite_input=False, method="linear", keepdims=False, **k):
    if method != "linear":
        raise Unsupported(f"percentile method {method}")
    s = _sorted(_obj(a).ravel())
    if isinstance(q, (SymReal,)):
        raise Unsupported("symbolic percentile")

    def one(qq):
        pos = (len(s) - 1) * float(qq) / 100.0
        lo = int(math.floor(pos))
        hi = builtins.min(lo + 1, len(s) - 1)
        g = pos - lo
        return s[lo] + (s[hi] - s[lo]) * g

    if np.ndim(q) == 0:
        return one(q)
    return symarr([one(x) for x in q])


def _np_quantile(a, q, **k):
    return _np_percentile(a, np.asarray(q) * 100.0, **k)


def _np_argmin(a, axis=None, **k):
    o = list(_obj(a).ravel())
    best = 0
    for i in range(1, len(o)):
        if bool(o[i] < o[best]):
            best = i
    return best


def _np_argmax(a, axis=None, **k):
    o = list(_obj(a).ravel())
    best = 0
    for i in range(1, len(o)):
        if bool(o[i] > o[best]):
            best = i
    return best


def _np_outer(a, b, out=None):
    a, b = _obj(a).ravel(), _obj(b).ravel()
    return wrap(elementwise(lambda x, y: x * y, a[:, None], b[None, :]))


def _np_einsum(subs, *ops, **k):
    return wrap(np.einsum(subs, *[_obj(o) for o in ops], optimize=False))


def _np_isin(a, b):
    raise Unsupported("isin")


def _np_interp(*a, **k):
    raise Unsupported("interp")


def _np_trapezoid(y, x=None, dx=1.0, axis=-1):
    y = _obj(y)
    if x is None:
        return reduce_("add", elementwise(lambda a, b: (a + b) / 2.0 * dx, y[1:], y[:-1]), axis=None)
    x = _obj(x)
    return reduce_("add", elementwise(lambda a, b, c, d: (a + b) / 2.0 * (c - d), y[1:], y[:-1], x[1:], x[:-1]), axis=None)


def _np_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def one(v):
        if isinstance(v, SymReal):
            return v
        return np.nan_to_num(np.float64(v), nan=nan, posinf=posinf, neginf=neginf)

    return wrap(elementwise(one, x))


def _linspace(start, stop, num=50, endpoint=True, **k):
    n = num - 1 if endpoint else num
    if num == 1:
        return symarr([start])
    return symarr([start + (stop - start) * (float(i) / n) if i else start + 0.0 for i in range(num - 1)] + ([stop + 0.0] if endpoint else [start + (stop - start) * (float(num - 1) / n)]))


def _full(shape, fill_value, dtype=None, **k):
    out = np.empty(shape, dtype=object)
    out[...] = fill_value
    return out.view(SymArr)


def _like(val):
    def f(a, dtype=None, order="K", subok=True, shape=None, **k):
        out = np.empty(np.shape(plain(a)) if shape is None else shape, dtype=object)
        out[...] = np.float64(val)
        return out.view(SymArr)

    return f


def _full_like(a, fill_value, dtype=None, **k):
    out = np.empty(np.shape(plain(a)), dtype=object)
    out[...] = fill_value
    return out.view(SymArr)


def _any(a, axis=None, **k):
    return reduce_("logical_or", a, axis=axis)


def _all(a, axis=None, **k):
    return reduce_("logical_and", a, axis=axis)


def _array_equal(a, b, **k):
    a, b = _obj(a), _obj(b)
    if a.shape != b.shape:
        return False
    return reduce_("logical_and", elementwise(lambda x, y: x == y, a, b), axis=None)


def _norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2) or axis is not None:
        raise Unsupported("norm")
    o = _obj(x).ravel()
    return sym.sqrt(reduce_("add", elementwise(lambda v: v * v, o), axis=None))


def _real(x):
    return x


def _isreal(x):
    return np.ones(np.shape(plain(x)), dtype=bool)


def _cov_like(*a, **k):
    raise Unsupported("numpy statistics on symbolic values")


def _truthy(v):
    """element as a condition"""
    if isinstance(v, (SymBool, bool, np.bool_)):
        return v
    return v != 0


def _count_nonzero(a, axis=None, keepdims=False, **k):
    return reduce_("add", elementwise(lambda v: ite(_truthy(v), 1, 0), a), axis=axis, keepdims=bool(keepdims) if isinstance(keepdims, (bool, np.bool_)) else False)


def _nonzero(a):
    o = _obj(a)
    idx = [i for i in np.ndindex(*o.shape) if bool(_truthy(o[i]))]
    return tuple(np.array([i[d] for i in idx], dtype=int) for d in range(o.ndim))


def _multi_dot(arrays, **k):
    out = arrays[0]
    for x in arrays[1:]:
        out = dot(out, x)
    return out


def _matrix_power(a, n):
    if n < 0:
        return _matrix_power(inv(a), -n)
    out = np.eye(len(_obj(a)))
    for _ in range(n):
        out = matmul(out, a)
    return out


def _cholesky(a, **k):
    a = _obj(a)
    n = a.shape[0]
    out = np.zeros((n, n), dtype=object)
    out[...] = 0.0
    for i in range(n):
        for j in range(i + 1):
            v = a[i, j]
            for m in range(j):
                v = v - out[i, m] * out[j, m]
            if i == j:
                if bool(v <= 0):
                    raise np.linalg.LinAlgError("Matrix is not positive definite")
                out[i, i] = sym.sqrt(v)
            else:
                out[i, j] = sym._div(v, out[j, j])
    return wrap(out)


def _ptp(a, axis=None, **k):
    return reduce_("maximum", a, axis=axis) - reduce_("minimum", a, axis=axis)


def _tensordot(a, b, axes=2):
    a, b = _obj(a), _obj(b)
    if isinstance(axes, int):
        ia, ib = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        ia, ib = [[int(i) for i in x] if np.iterable(x) else [int(x)] for x in axes]
        ia, ib = [i % a.ndim for i in ia], [i % b.ndim for i in ib]
    ra, rb = [i for i in range(a.ndim) if i not in ia], [i for i in range(b.ndim) if i not in ib]
    A = np.transpose(a, ra + ia).reshape(int(np.prod([a.shape[i] for i in ra])), -1)
    B = np.transpose(b, ib + rb).reshape(-1, int(np.prod([b.shape[i] for i in rb])))
    out = _obj(matmul(A, B)).reshape([a.shape[i] for i in ra] + [b.shape[i] for i in rb])
    return out.item() if out.ndim == 0 else wrap(out)


def _select(condlist, choicelist, default=0):
    out = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        out = _np_where(c, v, out)
    return out


def _searchsorted(a, v, side="left", sorter=None):
    def one(x):
        n = 0
        for e in _obj(a):
            if bool(e < x) if side == "left" else bool(e <= x):
                n += 1
            else:
                break
        return n

    return one(v) if np.ndim(_obj(v)) == 0 else np.array([one(x) for x in _obj(v)])


def _apply_along_axis(fn, axis, arr, *args, **kwargs):
    o = np.moveaxis(_obj(arr), axis, -1)
    res = [fn(wrap(o[i].copy()), *args, **kwargs) for i in np.ndindex(*o.shape[:-1])]
    out = _obj(list(res)).reshape(o.shape[:-1] + np.shape(res[0]))
    if np.ndim(res[0]):
        out = np.moveaxis(out, list(range(o.ndim - 1, out.ndim)), list(range(axis % o.ndim, axis % o.ndim + out.ndim - o.ndim + 1)))
    return wrap(out)


AF = {
    "count_nonzero": _count_nonzero,
    "nonzero": _nonzero,
    "flatnonzero": lambda a: _nonzero(_obj(a).ravel())[0],
    "argwhere": lambda a: np.array(_nonzero(a)).T,
    "multi_dot": _multi_dot,
    "matrix_power": _matrix_power,
    "cholesky": _cholesky,
    "ptp": _ptp,
    "tensordot": _tensordot,
    "kron": lambda a, b: wrap(np.kron(_obj(a), _obj(b))),
    "cross": lambda a, b, **k: wrap(np.cross(_obj(a), _obj(b), **k)),
    "vecdot": lambda a, b, **k: reduce_("add", elementwise(lambda x, y: x * y, a, b), axis=-1),
    "nanmean": _np_mean,
    "nanargmin": lambda a, axis=None, **k: _np_argmin(a, axis),
    "nanargmax": lambda a, axis=None, **k: _np_argmax(a, axis),
    "nanprod": _reducer("multiply"),
    "select": _select,
    "searchsorted": _searchsorted,
    "apply_along_axis": _apply_along_axis,
    "where": _np_where,
    "clip": _np_clip,
    "isclose": _np_isclose,
    "allclose": _np_allclose,
    "sum": _reducer("add"),
    "prod": _reducer("multiply"),
    "max": _reducer("maximum"),
    "amax": _reducer("maximum"),
    "min": _reducer("minimum"),
    "amin": _reducer("minimum"),
    "nanmin": _reducer("minimum"),
    "nanmax": _reducer("maximum"),
    "nansum": _reducer("add"),
    "mean": _np_mean,
    "average": lambda a, axis=None, weights=None, **k: _np_mean(a, axis) if weights is None else reduce_("add", elementwise(lambda x, y: x * y, a, weights), axis=axis) / reduce_("add", weights, axis=axis),
    "var": _np_var,
    "std": lambda a, **k: sym.sqrt(_np_var(a, **k)),
    "sort": _np_sort,
    "argsort": _np_argsort,
    "percentile": _np_percentile,
    "quantile": _np_quantile,
    "median": lambda a, **k: _np_percentile(a, 50.0),
    "argmin": _np_argmin,
    "argmax": _np_argmax,
    "outer": _np_outer,
    "einsum": _np_einsum,
    "any": _any,
    "all": _all,
    "dot": lambda a, b, out=None: dot(a, b),
    "inner": lambda a, b: dot(a, b),
    "vdot": lambda a, b: dot(_obj(a).ravel(), _obj(b).ravel()),
    "matmul": matmul,
    "inv": inv,
    "det": det,
    "slogdet": slogdet,
    "astype": lambda x, dtype, **k: wrap(_obj(x)),
    "solve": solve,
    "norm": _norm,
    "trapezoid": _np_trapezoid,
    "nan_to_num": _np_nan_to_num,
    "linspace": _linspace,
    "full_like": _full_like,
    "zeros_like": _like(0.0),
    "ones_like": _like(1.0),
    "empty_like": _like(0.0),
    "array_equal": _array_equal,
    "real": _real,
    "isreal": _isreal,
    "isrealobj": lambda x: True,
    "iscomplexobj": lambda x: False,
    "real_if_close": lambda x, tol=100: x,
    "isneginf": lambda x: wrap(elementwise(lambda v: False if isinstance(v, SymReal) else float(v) == -math.inf, x)),
    "isposinf": lambda x: wrap(elementwise(lambda v: False if isinstance(v, SymReal) else float(v) == math.inf, x)),
    "nancumsum": lambda a, axis=0, **k: array_ufunc(np.add, "accumulate", (a,), {"axis": axis}),
    "cumsum": lambda a, axis=0, **k: array_ufunc(np.add, "accumulate", (a,), {"axis": 0 if axis is None else axis}),
    "cumprod": lambda a, axis=0, **k: array_ufunc(np.multiply, "accumulate", (a,), {"axis": 0 if axis is None else axis}),
    "diff": lambda a, n=1, axis=-1, **k: wrap(elementwise(lambda x, y: x - y, _obj(a)[1:], _obj(a)[:-1])) if np.ndim(_obj(a)) == 1 and n == 1 else (_ for _ in ()).throw(Unsupported("diff")),
}

# purely structural functions: run on the object buffer and re-wrap
STRUCT = {
    "reshape", "ravel", "transpose", "concatenate", "stack", "hstack", "vstack", "column_stack",
    "atleast_1d", "atleast_2d", "squeeze", "expand_dims", "moveaxis", "swapaxes", "repeat", "tile",
    "diag", "diagonal", "diagflat", "delete", "insert", "append", "split", "array_split", "flip", "roll",
    "broadcast_to", "broadcast_arrays", "take", "copy", "ndim", "shape", "size", "tril", "triu", "block",
    "ix_", "fill_diagonal", "rollaxis", "trace", "compress", "take_along_axis", "meshgrid", "put", "copyto",
    "fliplr", "flipud", "rot90", "result_type", "may_share_memory", "shares_memory", "iterable", "common_type", "dsplit", "hsplit", "vsplit", "dstack",
}


def _unwrap(x):
    if isinstance(x, SymArr):
        return plain(x)
    if isinstance(x, (SymReal, SymBool)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, (list, tuple)):
        if any(isinstance(v, (list, tuple, SymReal, SymBool, SymArr)) for v in x):
            return type(x)(_unwrap(v) for v in x)
    return x


def _rewrap(r):
    if isinstance(r, (list, tuple)) and any(isinstance(v, np.ndarray) for v in r):
        return type(r)(_rewrap(v) for v in r)
    if isinstance(r, np.ndarray) and r.dtype == object:
        return r.item() if r.ndim == 0 else r.view(SymArr)
    return r


def array_function(func, args, kwargs):
    name = func.__name__
    f = AF.get(name)
    if f is not None:
        return f(*args, **kwargs)
    if name in STRUCT:
        if name == "insert":
            kwargs = dict(kwargs)
        if name == "fill_diagonal":
            func(plain(args[0]), _unwrap(args[1]) if not isinstance(args[1], SymReal) else args[1])
            return None
        if name == "copyto":
            plain(args[0])[...] = _unwrap(args[1])
            return None
        if name == "size" or name == "ndim" or name == "shape":
            return func(_unwrap(args[0]), *args[1:], **kwargs)
        if name == "full_like":
            return _full_like(*args, **kwargs)
        return _rewrap(func(*[_unwrap(a) for a in args], **{k: _unwrap(v) for k, v in kwargs.items()}))
    raise Unsupported(f"numpy function {name} on symbolic values")


# ----------------------------------------------------------------- monkey patching
def _scalarise_list(x):
    """0-d symbolic things inside lists -> plain scalars"""
    return x


def install():
    """Replace creation functions that would force floats; concrete calls unchanged."""
    import autograd  # noqa: F401  (import order matters: patched numpy.random etc. below)

    raise RuntimeError("use engine.loader.install")


def wrap_creation(real, name):
    def creation(obj=(), *args, **kwargs):
        if type(obj) is np.ndarray and obj.dtype == object:
            dt = kwargs.get("dtype", args[0] if args else None)
            if dt is None or dt is object or dt == "O":
                return real(obj, *args, **kwargs)
        if has_sym(obj):
            if name == "fromiter":
                obj = list(obj)
            dt = kwargs.get("dtype", args[0] if args else None)
            if dt is not None and dt is not float and dt is not object:
                try:
                    k = np.dtype(dt).kind
                except TypeError:
                    k = "f"
                if k in "iub" and k == "b":
                    o = _obj(obj)
                    return np.array([bool(v) for v in o.ravel()], dtype=bool).reshape(o.shape)
                if k in "iu":
                    raise Unsupported("symbolic values into an integer array")
            if name in ("asarray", "asanyarray", "ascontiguousarray") and isinstance(obj, SymArr):
                return obj
            if isinstance(obj, (SymReal, SymBool)):
                r = symarr(0.0)
                r = np.empty((), dtype=object)
                r[()] = obj
                r = r.view(SymArr)
                if name == "ascontiguousarray":
                    r = r.reshape(1)
            else:
                r = symarr(obj)
            nd = kwargs.get("ndmin", 0)
            while r.ndim < nd:
                r = r[None]
            return r
        return real(obj, *args, **kwargs)

    creation.__name__ = name
    creation.__wrapped__ = real
    return creation


def wrap_fromiter(real):
    def fromiter(it, dtype=float, count=-1, **k):
        items = list(it)
        if has_sym(items):
            return symarr(items)
        return real(iter(items), dtype, count, **k)

    return fromiter


class FloatSlots(np.ndarray):
    pass


def wrap_alloc(real, name, val):
    """zeros/ones/empty used by the code under test: object storage so that symbolic
    values can be assigned; collapses to float as soon as it is read without symbols."""

    def alloc(shape, dtype=float, *a, **k):
        try:
            kind = np.dtype(dtype).kind
        except TypeError:
            kind = "f"
        if sym.CUR is not None and kind == "f":
            out = np.empty(shape, dtype=object)
            out[...] = np.float64(val)
            return out.view(SymArr)
        return real(shape, dtype, *a, **k)

    alloc.__name__ = name
    return alloc


def wrap_full(real):
    def full(shape, fill_value, dtype=None, *a, **k):
        try:
            kind = np.dtype(dtype).kind if dtype is not None else np.asarray(fill_value).dtype.kind
        except TypeError:
            kind = "f"
        if has_sym(fill_value) or (sym.CUR is not None and kind == "f"):
            return _full(shape, np.float64(fill_value) if isinstance(fill_value, (int, float)) else fill_value)
        return real(shape, fill_value, dtype, *a, **k)

    return full


def wrap_linspace(real):
    def linspace(start, stop, num=50, *a, **k):
        if has_sym((start, stop)):
            return _linspace(start, stop, num, *a, **k)
        return real(start, stop, num, *a, **k)

    return linspace


def wrap_divide(real):
    def true_divide(*args, **kw):
        if any(has_sym(a) for a in args):
            return array_ufunc(np.divide, "__call__", args, kw)
        return real(*args, **kw)

    return true_divide


# ----------------------------------------------------------------- scipy pieces
LOG2PI = math.log(2.0 * math.pi)


def _ew(f):
    def g(*args):
        r = elementwise(f, *args)
        return wrap(r)

    return g


def norm_cdf(x, loc=0.0, scale=1.0):
    def f(v, m, s):
        z = (v - m) if is_num(s) and float(s) == 1.0 else sym._div(v - m, s)
        if not isinstance(z, SymReal):
            return REALFN["norm.cdf"](z)
        return sym.F_PHI(z)

    return _ew(f)(x, loc, scale)


def norm_sf(x, loc=0.0, scale=1.0):
    return 1.0 - norm_cdf(x, loc, scale)


def norm_logcdf(x, loc=0.0, scale=1.0):
    def f(v, m, s):
        z = sym._div(v - m, s)
        return sym.F_LOGPHI(z) if isinstance(z, SymReal) else REALFN["norm.logcdf"](z)

    return _ew(f)(x, loc, scale)


def norm_logpdf(x, loc=0.0, scale=1.0):
    def f(v, m, s):
        if isinstance(s, SymReal):
            if not bool(s > 0):
                return np.float64("nan")
        elif not float(s) > 0:
            return np.float64("nan")
        z = sym._div(v - m, s)
        return -(z * z) / 2.0 - LOG2PI / 2.0 - sym.log(s)

    return _ew(f)(x, loc, scale)


def norm_pdf(x, loc=0.0, scale=1.0):
    return _ew(lambda v: sym.exp(v))(norm_logpdf(x, loc, scale))


def gammaln(x):
    return _ew(lambda v: sym.F_GAMMALN(v) if isinstance(v, SymReal) else REALFN["gammaln"](v))(x)


def _is_integer(k):
    if isinstance(k, SymReal):
        return bool(sbool(z3.ToReal(z3.ToInt(k.e)) == k.e))
    return float(k) == math.floor(float(k))


def poisson_logpmf(k, mu, loc=0):
    def f(kk, m):
        if not bool(m >= 0):
            return np.float64("nan")
        kk = kk - loc if not (is_num(loc) and loc == 0) else kk
        # integer counts are the domain; the caller is responsible for it
        if not bool(kk >= 0):
            return np.float64("-inf")
        if bool(m == 0):
            return np.float64(0.0) if bool(kk == 0) else np.float64("-inf")
        t = kk * sym.log(m) if not (is_num(kk) and float(kk) == 0.0) else np.float64(0.0)
        return t - gammaln(kk + 1) - m

    return _ew(f)(k, mu)


def mvn_logpdf(x, mean=None, cov=1, allow_singular=False, **k):
    x = _obj(x)
    n = x.shape[-1] if x.ndim else 1
    mean = _obj(np.zeros(n) if mean is None else mean)
    c = _obj(cov)
    if c.ndim == 0:
        c = plain(symarr(np.eye(n))) * c.item()
    if c.ndim == 1:
        c = np.diag(c)
    d = elementwise(lambda a, b: a - b, x, mean)
    s = solve(c, d)
    quad = dot(d, s)
    return -0.5 * (quad + n * LOG2PI + sym.log(det(c)))


def chi2_check(fn):
    def g(*a, **k):
        if has_sym(a) or has_sym(list(k.values())):
            raise Unsupported("chi2 quantile of a symbolic value")
        return fn(*a, **k)

    return g
