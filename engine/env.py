"""The two faces of a harness: symbolic (all values) and concrete (one solver model)."""
import importlib
import math
import sys
from fractions import Fraction

import numpy as np


class Harness:
    def __init__(self, name, fn, bounds, stubs="", axioms="", max_paths=3000, timeout_ms=20000, tier="quick", budget_s=400, **kw):
        self.name = name
        self.fn = fn
        self.bounds = bounds
        self.stubs = stubs
        self.axioms = axioms
        self.max_paths = max_paths
        self.timeout_ms = timeout_ms
        self.tier = tier
        self.budget_s = budget_s
        self.kw = kw

    def __call__(self, env):
        return self.fn(env, **self.kw)


class EnvBase:
    symbolic = False

    def __init__(self):
        self._undo = []
        self.patched = []

    # -- modules and stubs ------------------------------------------------
    def mod(self, name):
        return importlib.import_module(name)

    def stub(self, modname, attr, fn):
        """Replace modname.attr (and every binding of it inside spey) by fn."""
        m = importlib.import_module(modname)
        path = attr.split(".")
        owner = m
        for p in path[:-1]:
            owner = getattr(owner, p)
        last = path[-1]
        orig = getattr(owner, last)
        setattr(owner, last, fn)
        self._undo.append((owner, last, orig))
        if len(path) == 1:
            for nm, mm in list(sys.modules.items()):
                if (nm == "spey" or nm.startswith("spey.")) and mm is not None and mm is not m:
                    for k, v in list(mm.__dict__.items()):
                        if v is orig:
                            mm.__dict__[k] = fn
                            self._undo.append((mm.__dict__, k, orig))

    def equality_hash(self):
        """from here on symbolic numbers are looked up in tables by value, not by term"""

    def close(self):
        for owner, k, orig in reversed(self._undo):
            if isinstance(owner, dict):
                owner[k] = orig
            else:
                setattr(owner, k, orig)
        self._undo = []

    # -- conveniences -----------------------------------------------------
    def reals(self, name, n, **k):
        return [self.real(f"{name}{i}", **k) for i in range(n)]

    def vec(self, name, n, **k):
        return np.array(self.reals(name, n, **k))

    def bool(self, name):
        return self.choice(name, [False, True])

    def int(self, name, lo, hi):
        return self.choice(name, list(range(lo, hi + 1)))

    def raises(self, label, exc, fn):
        try:
            fn()
        except exc:
            self.check(label, True)
            return True
        except Exception as e:  # noqa: BLE001
            self.fail(label, f"raised {type(e).__name__}: {e}")
            return False
        self.fail(label, "nothing raised")
        return False

    def fail(self, label, why=""):
        self.check(label, False, why)

    def vec_eq(self, label, a, b, tol=1e-6):
        self.eq(label, a, b, tol)

    def sum(self, xs):
        s = 0.0
        for x in xs:
            s = s + x
        return s


class SymEnv(EnvBase):
    symbolic = True

    def __init__(self, ex, ctx):
        super().__init__()
        import z3

        from . import sym

        self.z3 = z3
        self.sy = sym
        self.ex = ex
        self.ctx = ctx

    # -- inputs -----------------------------------------------------------
    def real(self, name, lo=None, hi=None, strict=False):
        z3 = self.z3
        if name in self.ctx.inputs:
            return self.sy.SymReal(self.ctx.inputs[name][0])
        v = z3.Real("in:" + name)
        self.ctx.inputs[name] = (v, "real")
        self.ctx.inputs_order.append(name)
        if lo is not None:
            self.ctx.assumed.append(v > self.sy.rat(lo) if strict else v >= self.sy.rat(lo))
        if hi is not None:
            self.ctx.assumed.append(v < self.sy.rat(hi) if strict else v <= self.sy.rat(hi))
        return self.sy.SymReal(v)

    def equality_hash(self):
        self.sy.CONST_HASH = True

    def close(self):
        self.sy.CONST_HASH = False
        EnvBase.close(self)

    def count(self, name, hi=10):
        """an arbitrary non-negative integer (as a float)"""
        z3 = self.z3
        v = z3.Int("in:" + name)
        self.ctx.inputs[name] = (v, "int")
        self.ctx.inputs_order.append(name)
        self.ctx.assumed += [v >= 0, v <= hi]
        return self.sy.SymReal(z3.ToReal(v))

    def choice(self, name, options):
        z3 = self.z3
        options = list(options)
        if len(options) == 1:
            return options[0]
        v = z3.Int("in:" + name)
        self.ctx.inputs[name] = (v, "int")
        self.ctx.inputs_order.append(name)
        self.ctx.assumed += [v >= 0, v < len(options)]
        for i in range(len(options) - 1):
            if self.ctx.branch(v == i):
                return options[i]
        return options[-1]

    def uf(self, name, facts=None):
        sym = self.sy
        fn = sym.Fn("uf:" + name, unary_facts=facts)

        def call(*args):
            flat = []
            for a in args:
                if isinstance(a, (list, tuple, np.ndarray)):
                    flat += list(sym.plain(sym.symarr(a)).ravel())
                else:
                    flat.append(a)
            flat = [0.0 if a is None else a for a in flat]
            return fn(*flat)

        return call

    # -- facts ------------------------------------------------------------
    def assume(self, cond):
        if isinstance(cond, self.sy.SymBool):
            self.ctx.assumed.append(self.z3.simplify(cond.e))
            r, _ = self.ex.solve(self.ctx.facts(), timeout=self.ex.feas_timeout_ms)
            if r == self.z3.unsat:
                raise self.sy.PathDone()
        elif not cond:
            raise self.sy.PathDone()

    def near(self, x, tol=1e-7):
        """assume |x| <= tol; replays allow for rounding"""
        self.assume(self.And(x <= tol, x >= -tol))

    def axiom(self, cond):
        if isinstance(cond, self.sy.SymBool):
            self.ctx.lemmas.append(self.z3.simplify(cond.e))

    # -- logic without forking --------------------------------------------
    def And(self, *c):
        return self.sy.sbool(self.z3.And([self.sy.bexpr(x) for x in c]))

    def Or(self, *c):
        return self.sy.sbool(self.z3.Or([self.sy.bexpr(x) for x in c]))

    def Not(self, c):
        return self.sy.sbool(self.z3.Not(self.sy.bexpr(c)))

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def ite(self, c, a, b):
        return self.sy.ite(c, a, b)

    # -- functions for specifications --------------------------------------
    def sqrt(self, x):
        return self.sy.sqrt(x)

    def exp(self, x):
        return self.sy.exp(x)

    def log(self, x):
        return self.sy.log(x)

    def gammaln(self, x):
        return self.sy.F_GAMMALN(x)

    def cos(self, x):
        return self.sy.F_COS(x)

    def arctan(self, x):
        return self.sy.F_ARCTAN(x)

    def Phi(self, x):
        return self.sy.F_PHI(x)

    def is_nan(self, x):
        return self.sy.is_num(x) and math.isnan(float(x))

    def is_inf(self, x):
        return self.sy.is_num(x) and math.isinf(float(x))

    def is_sym(self, x):
        return isinstance(x, self.sy.SymReal)

    # -- checks -----------------------------------------------------------
    def observe(self, label, value):
        for i, v in enumerate(_flat(value)):
            self.ctx.observed.append((f"{label}[{i}]", v))

    def check(self, label, cond, why=""):
        self._ask(label, [cond], why)

    def eq(self, label, a, b, tol=1e-6):
        sy = self.sy
        fa, fb = _flat(a), _flat(b)
        self.observe(label, a)
        if len(fa) != len(fb):
            self._ask(label, [False], f"shape {len(fa)} != {len(fb)}")
            return
        for x, y in zip(fa, fb):
            if sy._nonfinite(x) or sy._nonfinite(y):
                same = (
                    sy.is_num(x)
                    and sy.is_num(y)
                    and (float(x) == float(y) or (math.isnan(float(x)) and math.isnan(float(y))))
                )
                self._ask(label, [same], f"{x!r} vs {y!r}")
                continue
            d = sy.norm_key(sy.rexpr(x) - sy.rexpr(y))
            if self.z3.is_rational_value(d):
                f = abs(float(sy.to_fraction(d)))
                self._ask(label, [f <= tol], f"difference {f}")
                continue
            d = self._shrink(d)
            if d is None:
                self._ask(label, [True])
                continue
            self._ask_diff(label, d, tol, two_sided=True)

    def le(self, label, a, b, tol=1e-6):
        """a <= b"""
        sy = self.sy
        fa, fb = _flat(a), _flat(b)
        for x, y in zip(fa, fb):
            if sy._nonfinite(x) or sy._nonfinite(y):
                fx = float(x) if sy.is_num(x) else 0.0
                fy = float(y) if sy.is_num(y) else 0.0
                self._ask(label, [fx <= fy], f"{x!r} vs {y!r}")
                continue
            d = sy.norm_key(sy.rexpr(x) - sy.rexpr(y))
            if self.z3.is_rational_value(d):
                self._ask(label, [float(sy.to_fraction(d)) <= tol])
                continue
            d = self._shrink(d)
            if d is None:
                self._ask(label, [True])
                continue
            self._ask_diff(label, d, tol, two_sided=False)

    def _shrink(self, d):
        """normal form of a difference: None if it vanishes identically"""
        got = self.ctx.rat.term(d)
        if got is None:
            return d
        kind, v = got
        if kind == "const":
            if abs(v) <= 1e-12:
                return None
            return self.z3.Q(v.numerator, v.denominator)
        n, den = v
        return n if den is None else n / den

    def _ask(self, label, conds, why=""):
        sy = self.sy
        self.ex.labels[label] = self.ex.labels.get(label, 0) + 1
        if self.ctx.requery is not None and self.ctx.requery != label:
            return
        for c in conds:
            if not isinstance(c, sy.SymBool):
                if isinstance(c, sy.SymReal):
                    c = c != 0
            if not isinstance(c, sy.SymBool):
                if bool(c):
                    self.ex.trivial += 1
                else:
                    r, m = self.ex.solve(self.ctx.facts())
                    self._candidate(label, r, m, why, self.ctx.facts())
                continue
            neg = self.z3.Not(c.e)
            r, m = self.ex.solve(self.ctx.facts() + [neg])
            self.ctx.last_query = neg
            if r == self.z3.unsat:
                self.ex.discharged += 1
            else:
                self._candidate(label, r, m, why, self.ctx.facts() + [neg])

    def _ask_diff(self, label, d, tol, two_sided):
        z3 = self.z3
        self.ex.labels[label] = self.ex.labels.get(label, 0) + 1
        if self.ctx.requery is not None and self.ctx.requery != label:
            return
        facts = self.ctx.facts()
        exact = d != 0 if two_sided else d > 0
        r, m = self.ex.solve(facts + [exact], timeout=self.ex.feas_timeout_ms)
        if r == z3.unsat:
            self.ex.discharged += 1
            return
        unknown = r == z3.unknown
        for t in (1.0, 1e-2, tol):
            tv = self.sy.rat(t)
            neg = z3.Or(d > tv, d < -tv) if two_sided else d > tv
            r, m = self.ex.solve(facts + [neg], timeout=None if t == tol else self.ex.feas_timeout_ms)
            if r == z3.sat:
                self._candidate(label, r, m, f"difference beyond {t}", facts + [neg])
                return
        if r == z3.unsat:
            self.ex.discharged += 1
            self.ex.tolerance_only += 1
            return
        self._candidate(label, r, None, "unknown" if unknown else "")

    def _candidate(self, label, r, m, why, facts=None):
        z3 = self.z3
        if r == z3.sat:
            if facts is not None:  # prefer a model with moderate numbers
                for lim in (5, 50, 1000):
                    box = [z3.And(v <= lim, v >= -lim) for v, k in self.ctx.inputs.values() if k == "real"]
                    r2, m2 = self.ex.solve(facts + box, timeout=2000)
                    if r2 == z3.sat:
                        m = m2
                        break
            rec = self.ex.model_inputs(self.ctx, m)
            rec.update(
                label=label,
                why=why,
                prefix=list(self.ctx.decisions),
                points=self.ex.fn_points(self.ctx, m),
            )
            self.ex.cands.append(rec)
        elif r == z3.unsat:
            self.ex.discharged += 1  # the path itself is infeasible
        else:
            self.ex.unknown_checks.append((label, list(self.ctx.decisions), why))


def _flat(x):
    from_np = isinstance(x, np.ndarray)
    if from_np:
        return list(np.ndarray.ravel(x.astype(object) if x.dtype != object else x.view(np.ndarray)))
    if isinstance(x, (list, tuple)):
        out = []
        for v in x:
            out += _flat(v)
        return out
    return [x]


class ConcEnv(EnvBase):
    symbolic = False

    def __init__(self, inputs, ufs):
        super().__init__()
        self.inputs = inputs
        self.ufs = ufs
        self.failed = []
        self.passed = {}
        self.observed = []

    class AssumeFailed(BaseException):
        pass

    def real(self, name, lo=None, hi=None, strict=False):
        if name not in self.inputs:
            # not reached symbolically on this path; any value in range
            v = 0.5 * ((lo if lo is not None else (hi - 2.0 if hi is not None else -1.0)) + (hi if hi is not None else (lo + 2.0 if lo is not None else 1.0)))
            return float(v)
        v = float(Fraction(str(self.inputs[name])))
        if lo is not None and (v < lo or (strict and v <= lo)):
            raise ConcEnv.AssumeFailed(f"{name}={v} below {lo}")
        if hi is not None and (v > hi or (strict and v >= hi)):
            raise ConcEnv.AssumeFailed(f"{name}={v} above {hi}")
        return v

    def count(self, name, hi=10):
        return float(int(self.inputs.get(name, 1)))

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[int(self.inputs.get(name, 0))]

    def uf(self, name, facts=None):
        tab = self.ufs.get(name, [])

        def call(*args):
            flat = []
            for a in args:
                if isinstance(a, (list, tuple, np.ndarray)):
                    flat += [float(x) for x in np.asarray(a).ravel()]
                else:
                    flat.append(0.0 if a is None else float(a))
            best, bd = None, None
            for a, v in tab:
                if len(a) != len(flat):
                    continue
                d = sum(abs(x - y) / (1.0 + abs(x)) for x, y in zip(a, flat))
                if bd is None or d < bd:
                    best, bd = v, d
            return 0.0 if best is None else float(best)

        return call

    def assume(self, cond):
        if not bool(cond):
            raise ConcEnv.AssumeFailed("assume")

    def near(self, x, tol=1e-7):
        if not abs(x) <= 10 * tol:
            raise ConcEnv.AssumeFailed("near")

    def axiom(self, cond):
        pass

    def And(self, *c):
        return all(bool(x) for x in c)

    def Or(self, *c):
        return any(bool(x) for x in c)

    def Not(self, c):
        return not bool(c)

    def Implies(self, a, b):
        return (not bool(a)) or bool(b)

    def ite(self, c, a, b):
        return a if bool(c) else b

    def sqrt(self, x):
        return float(np.sqrt(x))

    def exp(self, x):
        return float(np.exp(x))

    def log(self, x):
        with np.errstate(all="ignore"):
            return float(np.log(x))

    def gammaln(self, x):
        from scipy.special import gammaln

        return float(gammaln(x))

    def cos(self, x):
        return float(np.cos(x))

    def arctan(self, x):
        return float(np.arctan(x))

    def Phi(self, x):
        from scipy.special import ndtr

        return float(ndtr(x))

    def is_nan(self, x):
        return bool(np.isnan(x))

    def is_inf(self, x):
        return bool(np.isinf(x))

    def is_sym(self, x):
        return False

    def observe(self, label, value):
        for i, v in enumerate(_flat(value)):
            try:
                self.observed.append((f"{label}[{i}]", float(v)))
            except (TypeError, ValueError):
                self.observed.append((f"{label}[{i}]", None))

    def _rec(self, label, ok, detail=""):
        if ok:
            self.passed[label] = self.passed.get(label, 0) + 1
        else:
            self.failed.append([label, detail])

    def check(self, label, cond, why=""):
        self._rec(label, bool(cond), why)

    def eq(self, label, a, b, tol=1e-6):
        fa, fb = _flat(a), _flat(b)
        self.observe(label, a)
        if len(fa) != len(fb):
            self._rec(label, False, f"shape {len(fa)} != {len(fb)}")
            return
        for x, y in zip(fa, fb):
            if x is None or y is None:
                self._rec(label, x is y, f"{x!r} vs {y!r}")
                continue
            x, y = float(x), float(y)
            if math.isnan(x) or math.isnan(y):
                self._rec(label, math.isnan(x) and math.isnan(y), f"{x!r} vs expected {y!r}")
            elif math.isinf(x) or math.isinf(y):
                self._rec(label, x == y, f"{x!r} vs expected {y!r}")
            else:
                self._rec(label, abs(x - y) <= 0.5 * tol * (1.0 + max(abs(x), abs(y))), f"{x!r} vs expected {y!r}")

    def le(self, label, a, b, tol=1e-6):
        for x, y in zip(_flat(a), _flat(b)):
            x, y = float(x), float(y)
            self._rec(label, x <= y + 0.5 * tol * (1.0 + max(abs(x), abs(y)) if math.isfinite(x) and math.isfinite(y) else 1.0), f"{x!r} > {y!r}")
