"""Path exploration, property queries, counterexample refinement."""
import math
import os
import time
import traceback
from fractions import Fraction

import z3

from . import sym
from .watch import Hang, internal_is_gone, time_limit
from .sym import Ctx, PathDone, Unsupported, Budget, set_cur, to_fraction, rexpr, bexpr, is_num, SymReal, SymBool


def _vars(e, memo):
    k = e.get_id()
    got = memo.get(k)
    if got is not None:
        return got[1]
    out = set()
    stack = [e]
    seen = set()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
        else:
            stack.extend(x.children())
    memo[k] = (e, out)
    return out


SLOW = float(os.environ.get("VERIF_SLOW", "0"))


class Explorer:
    def __init__(self, fn, max_paths=4000, max_decisions=400, timeout_ms=20000, feas_timeout_ms=4000, deadline=None, name=""):
        self.fn = fn
        self.name = name
        self.max_paths = max_paths
        self.max_decisions = max_decisions
        self.timeout_ms = timeout_ms
        self.feas_timeout_ms = feas_timeout_ms
        self.deadline = deadline
        self.work = []
        self.refinements = []
        self.forks = 0
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.vmemo = {}
        self.paths = []
        self.truncated = False
        self.discharged = 0
        self.trivial = 0
        self.tolerance_only = 0
        self.unknown_checks = []
        self.cands = []
        self.gaps = []
        self.labels = {}
        self.query_log = []
        self.second = {"asked": 0, "agreed": 0}

    # -- solver -----------------------------------------------------------
    def slice(self, facts, goal_vars):
        sets = [(_vars(f, self.vmemo), f) for f in facts]
        want = set(goal_vars)
        picked = []
        changed = True
        rest = sets
        while changed:
            changed = False
            nxt = []
            for vs, f in rest:
                if not vs or vs & want:
                    picked.append(f)
                    if not vs <= want:
                        want |= vs
                        changed = True
                else:
                    nxt.append((vs, f))
            rest = nxt
        return picked

    def solve(self, facts, timeout=None):
        t0 = time.time()
        self.queries += 1
        tmo = timeout or self.timeout_ms
        res, model = z3.unknown, None
        for kind in ("default", "nlsat", "smt"):
            if kind == "default":
                s = z3.Solver()
                lim = tmo
            elif kind == "nlsat":
                s = z3.Then("simplify", "solve-eqs", "purify-arith", "qfnra-nlsat").solver()
                lim = tmo
            else:
                s = z3.SimpleSolver()
                lim = tmo
            s.set("timeout", int(lim))
            s.add(facts)
            try:
                res = s.check()
            except z3.Z3Exception:
                res = z3.unknown
            if res != z3.unknown:
                if res == z3.sat:
                    model = s.model()
                break
            if timeout:
                break
        self.solver_s += time.time() - t0
        if SLOW and time.time() - t0 > SLOW:
            print(f"slow query {time.time()-t0:.1f}s {res} facts={len(facts)} :: {str(facts[-1])[:200]}", flush=True)
        if res == z3.unknown:
            self.unknown += 1
        return res, model

    def feasible(self, ctx, e):
        if self.deadline and time.time() > self.deadline:
            raise Budget("time")
        facts = self.slice(ctx.facts(), _vars(e, self.vmemo))
        r, _ = self.solve(facts + [e], timeout=self.feas_timeout_ms)
        return r != z3.unsat

    def vars_of(self, e):
        return _vars(e, self.vmemo)

    def push(self, prefix):
        self.work.append(list(prefix))

    # -- running ----------------------------------------------------------
    def run(self, make_env):
        self.work = [[]]
        while self.work:
            if len(self.paths) >= self.max_paths or (self.deadline and time.time() > self.deadline):
                self.truncated = True
                break
            prefix = self.work.pop()
            self.run_path(prefix, make_env)

    def run_path(self, prefix, make_env, requery=None):
        ctx = Ctx(self, prefix)
        ctx.requery = requery
        set_cur(ctx)
        env = make_env(self, ctx)
        status, err = "ok", None
        try:
            with time_limit(100):
                self.fn(env)
        except Hang:
            # nothing but a wait that is never answered takes this long; replayed on the real code
            status, err = "exception", ("Hang", "no answer within 100 s", "")
            self.work = []
            self.truncated = True
        except PathDone:
            status = "pruned"
        except Budget as b:
            status, err = "budget", str(b)
            self.truncated = True
        except Unsupported as u:
            status, err = "gap", f"{u} :: {_where(u)}"
        except RecursionError as u:
            status, err = "gap", f"recursion {u} :: {_where(u)}"
        except Exception as ex:  # escaped the harness
            if internal_is_gone(ex):
                status, err = "gap", str(ex)
            else:
                status, err = "exception", (type(ex).__name__, str(ex)[:300], _where(ex))
        finally:
            env.close()
            set_cur(None)
        ctx.status, ctx.err = status, err
        if requery is None and status != "pruned":
            self.paths.append(ctx)
        return ctx

    # -- models -----------------------------------------------------------
    def model_inputs(self, ctx, model):
        ins = {}
        for name in ctx.inputs_order:
            var, kind = ctx.inputs[name]
            v = model.eval(var, model_completion=True)
            f = to_fraction(v)
            ins[name] = int(f) if kind == "int" else str(f)
        ufs = {}
        for fname, apps in ctx.apps.items():
            if fname.startswith("uf:"):
                tab = []
                for (es, v) in apps:
                    tab.append([[float(to_fraction(model.eval(e, model_completion=True))) for e in es], float(to_fraction(model.eval(v, model_completion=True)))])
                ufs[fname[3:]] = tab
        return {"inputs": ins, "ufs": ufs}

    def fn_points(self, ctx, model):
        """true values of interpreted functions at the model's arguments (for refinement)"""
        pts = []
        for (v, fn, es) in ctx.order:
            if fn.value is None or len(es) != 1:
                continue
            try:
                a = to_fraction(model.eval(es[0], model_completion=True))
                val = fn.value(float(a))
            except Exception:
                continue
            if not math.isfinite(val):
                continue
            pts.append((fn.name, a, Fraction(repr(val))))
        return pts


MONO = {"exp", "log", "Phi", "logPhi", "arctan", "sqrt", "tanh"}


def point_refinement(points):
    def make(ctx):
        out = []
        for name, a, val in points:
            av, vv = z3.RealVal(str(a)), z3.RealVal(str(val))
            for (es, v) in ctx.apps.get(name, ()):
                if name in MONO:
                    out.append((es[0] < av) == (v < vv))
                    out.append((es[0] == av) == (v == vv))
                else:
                    out.append(z3.Implies(es[0] == av, v == vv))
        return out

    return make


def _where(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    rows = [f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in tb]
    return " > ".join(rows[-4:])


# ------------------------------------------------------------------ numeric evaluation
def num_eval(ctx, inputs, ufs, exprs):
    """Evaluate symbolic expressions with floats and the true functions."""
    val = {}
    for name in ctx.inputs_order:
        var, kind = ctx.inputs[name]
        val[var.decl().name()] = float(Fraction(str(inputs[name])))
    memo = {}

    def ev(e):
        k = e.get_id()
        if k in memo:
            return memo[k][1]
        r = _ev(e)
        memo[k] = (e, r)
        return r

    def _ev(e):
        if z3.is_rational_value(e) or z3.is_int_value(e):
            return float(to_fraction(e))
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        d = e.decl().kind()
        if z3.is_const(e):
            return val[e.decl().name()]
        if d == z3.Z3_OP_ITE:
            return ev(e.arg(1)) if ev(e.arg(0)) else ev(e.arg(2))
        if d == z3.Z3_OP_AND:
            return all(ev(c) for c in e.children())
        if d == z3.Z3_OP_OR:
            return any(ev(c) for c in e.children())
        ch = [ev(c) for c in e.children()]
        if d == z3.Z3_OP_ADD:
            return sum(ch)
        if d == z3.Z3_OP_MUL:
            r = 1.0
            for c in ch:
                r *= c
            return r
        if d == z3.Z3_OP_SUB:
            r = ch[0]
            for c in ch[1:]:
                r -= c
            return r
        if d == z3.Z3_OP_UMINUS:
            return -ch[0]
        if d == z3.Z3_OP_DIV:
            return ch[0] / ch[1] if ch[1] != 0 else math.nan
        if d == z3.Z3_OP_POWER:
            return ch[0] ** ch[1]
        if d == z3.Z3_OP_LE:
            return ch[0] <= ch[1]
        if d == z3.Z3_OP_LT:
            return ch[0] < ch[1]
        if d == z3.Z3_OP_GE:
            return ch[0] >= ch[1]
        if d == z3.Z3_OP_GT:
            return ch[0] > ch[1]
        if d == z3.Z3_OP_EQ:
            return ch[0] == ch[1]
        if d == z3.Z3_OP_DISTINCT:
            return ch[0] != ch[1]
        if d == z3.Z3_OP_NOT:
            return not ch[0]
        if d == z3.Z3_OP_TO_REAL:
            return ch[0]
        if d == z3.Z3_OP_TO_INT:
            return float(math.floor(ch[0]))
        if d == z3.Z3_OP_IMPLIES:
            return (not ch[0]) or ch[1]
        raise ValueError(f"cannot evaluate {e.decl()}")

    for (v, fn, es) in ctx.order:
        args = [ev(a) for a in es]
        if fn.value is not None:
            try:
                val[v.decl().name()] = fn.value(*args)
            except (ValueError, OverflowError):
                val[v.decl().name()] = math.nan
        else:
            tab = ufs.get(fn.name[3:], [])
            best = min(tab, key=lambda r: sum(abs(x - y) for x, y in zip(r[0], args)), default=None)
            val[v.decl().name()] = best[1] if best else 0.0
    return [ev(e) for e in exprs]
