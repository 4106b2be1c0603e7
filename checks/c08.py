"""C08: the problem handed to the minimiser and what is made of its answer."""
import os

import numpy as np

from engine.env import Harness

from checks.common import OptResult, held


def config(env, n, poi, bounds, init, fixed=None):
    MC = env.mod("spey.base.model_config").ModelConfig
    return MC(poi, -10.0, list(init), [tuple(b) for b in bounds], None, fixed)


def recorder(env, n, oks, answers):
    log = []

    def minimize(fun, x0, args=(), method=None, jac=None, hess=None, bounds=None, constraints=(), tol=None, options=None, **kw):
        i = len(log)
        log.append(
            dict(fun=fun, x0=list(x0), method=method, jac=jac, hess=hess, bounds=None if bounds is None else [tuple(b) for b in bounds], constraints=list(constraints), tol=tol, options=dict(options or {}))
        )
        x = answers[min(i, len(answers) - 1)]
        r = fun(x)
        return OptResult(x, r[0] if jac is True else r, oks[min(i, len(oks) - 1)])

    env.stub("scipy.optimize", "minimize", minimize)
    return log


def point(env, name, n):
    return env.reals(name, n, lo=-20.0, hi=20.0)


def bound(env, name, kinds=("closed", "upper", "lower", "open")):
    k = env.choice(name + "_kind", list(kinds))
    lo = env.real(name + "_lo", lo=-9.0, hi=9.0) if k in ("closed", "lower") else None
    up = env.real(name + "_up", lo=-9.0, hi=19.0) if k in ("closed", "upper") else None
    if k == "closed":
        env.assume(lo < up)
    return (lo, up)


def same(env, label, a, b):
    if a is None or b is None:
        env.check(label, a is None and b is None)
    else:
        env.eq(label, a, b)


def same_list(env, label, a, b):
    env.check(label, len(a) == len(b))
    for x, y in zip(a, b):
        if isinstance(x, (tuple, list)):
            env.check(label, len(x) == len(y) == 2)
            same(env, label, x[0], y[0])
            same(env, label, x[1], y[1])
        else:
            same(env, label, x, y)


def fixed_values(env, how, poi, n):
    """argument, {index: value}"""
    v = env.real("fixed0", lo=-4.0, hi=4.0)
    if how == "none":
        return None, {}
    if how == "value":
        return v, {poi: v}
    other = (poi + 1) % n
    if how == "one":
        return {other: v}, {other: v}
    w = env.real("fixed1", lo=-4.0, hi=4.0)
    return {poi: v, other: w}, {poi: v, other: w}


def h_scipy(env, n, how):
    """one successful trial"""
    core = env.mod("spey.optimizer.core")
    poi = env.choice("poi", list(range(n)))
    f = env.uf("objective")
    g = env.uf("logpdf")
    init = point(env, "init", n)
    user_init = env.choice("user_init", [False, True])
    user_bounds = env.choice("user_bounds", [False, True])
    grad = env.choice("grad", [False, True])
    use_log = env.choice("logpdf", [True, False])
    flag = env.choice("flagged", [None, n - 1])
    cbounds = [(-5.0, 5.0)] * n
    bs = [bound(env, "b%d" % i, ("closed", "open") if i else ("closed",)) for i in range(n)] if user_bounds else None
    # any kind of sequence
    ui = {(True, True): tuple, (False, False): np.array}.get((grad, use_log), list)(point(env, "ui", n)) if user_init else None
    arg, fixed = fixed_values(env, how, poi, n)
    sf = None if flag is None else [i == flag for i in range(n)]
    mc = config(env, n, poi, cbounds, init, sf)
    x = point(env, "x", n)
    log = recorder(env, n, [True], [x])
    ucon = {"type": "ineq", "fun": lambda p: p[0] + 100.0}
    cons = [ucon]
    objective = (lambda p: (f(*p), [0.0] * n)) if grad else (lambda p: f(*p))
    hess = object()
    keep_b = None if bs is None else list(bs)
    keep_i = None if ui is None else list(ui)
    keep_arg = dict(arg) if isinstance(arg, dict) else arg
    got, pars = core.fit(
        func=objective,
        model_configuration=mc,
        do_grad=grad,
        hessian=hess,
        initial_parameters=ui,
        bounds=bs,
        fixed_poi_value=arg,
        logpdf=(lambda p: g(*p)) if use_log else None,
        constraints=cons,
        maxiter=env.choice("maxiter", [None, 17]) or 10000,
        nonsense=3,
    )
    env.check("one-trial", len(log) == 1)
    r = log[0]
    probe = point(env, "probe", n)
    val = r["fun"](probe)
    env.eq("objective", val[0] if grad else val, f(*probe))
    env.check("gradient-flag", bool(r["jac"]) == grad)
    env.check("hessian", r["hess"] is hess)
    start = list(ui if user_init else init)
    for i, v in fixed.items():
        start[i] = v
    same_list(env, "starting-point", r["x0"], start)
    if user_bounds:
        same_list(env, "bounds", r["bounds"], keep_b)
    else:
        for i in range(n):
            lo, up = r["bounds"][i]
            if i in fixed:
                env.check("bounds-contain-fixed", env.And(lo <= fixed[i], fixed[i] <= up))
            else:
                env.check("bounds", (lo, up) == (-5.0, 5.0))
    env.check("user-constraint", any(c is ucon or (c["type"] == "ineq" and c["fun"] is ucon["fun"]) for c in r["constraints"]))
    h = held(r["constraints"], n)
    want = dict(fixed)
    if flag is not None:
        want[flag] = start[flag]
    env.check("exactly-these-held", set(h) == set(want))
    for i, v in want.items():
        if i in h:
            env.eq("held-at-own-value", h[i], v)
    env.check("method-default", r["method"] == "SLSQP")
    env.check("options", set(r["options"]) == {"maxiter", "disp"} and r["options"]["maxiter"] in (17, 10000) and r["tol"] == 1e-6)
    same_list(env, "reported-point", list(pars), x)
    env.eq("reported-value", got, g(*x) if use_log else f(*x))
    # nothing of the caller or of the model was modified
    env.check("constraints-untouched", cons == [ucon] and set(ucon) == {"type", "fun"})
    if user_bounds:
        same_list(env, "bounds-untouched", bs, keep_b)
    if user_init:
        same_list(env, "init-untouched", ui, keep_i)
    same_list(env, "model-untouched", mc.suggested_init, init)
    same_list(env, "model-untouched", mc.suggested_bounds, cbounds)
    env.check("model-untouched", mc.suggested_fixed == sf)
    if isinstance(arg, dict):
        env.check("fixed-untouched", set(arg) == set(keep_arg))


def widened(env, signal, before, after):
    """documented: limits of the signal grow by two, those of other parameters by ten"""
    k = 2.0 if signal else 10.0
    env.check("retry-really-widens", env.Or(before <= 1e-3, after >= 0.99 * k * before), "a retry explores the same region again")


def h_trials(env, n):
    """failed attempts"""
    tools = env.mod("spey.optimizer.scipy_tools")
    poi = env.choice("poi", list(range(n)))
    ntrials = env.choice("ntrials", [None, 0, 1, 2, 3])
    allowed = max(1, ntrials or 1)
    oks = [env.bool("ok%d" % i) for i in range(allowed)]
    f = env.uf("objective")
    xs = [point(env, "x%d" % i, n) for i in range(allowed)]
    bs = [bound(env, "b%d" % i) for i in range(n)] if env.bool("bounds") else None
    keep = None if bs is None else list(bs)
    init = point(env, "init", n)
    fx = env.choice("fixed", [None, n - 1])
    fv = [i == fx for i in range(n)]
    log = recorder(env, n, oks, xs)
    opts = {} if ntrials is None else {"ntrials": ntrials}
    start = list(init)
    got, pars = tools.minimize(lambda p: f(*p), init, fv, bounds=bs, constraints=None, poi_index=poi, **opts)
    used = next((i + 1 for i, o in enumerate(oks) if o), allowed)
    env.check("number-of-trials", len(log) == used)
    last = xs[used - 1]
    same_list(env, "reported-point", list(pars), last)
    env.eq("reported-value", got, f(*last))
    same_list(env, "starting-point", log[0]["x0"], start)
    for t in range(1, len(log)):
        same_list(env, "retry-from-last-point", log[t]["x0"], xs[t - 1])
    for t, r in enumerate(log):
        h = held(r["constraints"], n)
        env.check("still-held", set(h) == ({fx} if fx is not None else set()))
        if fx is not None:
            env.eq("still-held", h[fx], start[fx])
        env.check("no-extra-constraints", len(r["constraints"]) == (1 if fx is not None else 0))
        if bs is None:
            env.check("no-bounds-invented", r["bounds"] is None)
            continue
        prev = keep if t == 0 else log[t - 1]["bounds"]
        for i in range(n):
            (lo, up), (plo, pup) = r["bounds"][i], prev[i]
            if t == 0:
                same(env, "first-bounds", lo, plo)
                same(env, "first-bounds", up, pup)
                continue
            env.check("open-stays-open", (lo is None) == (plo is None) and (up is None) == (pup is None))
            if up is not None and pup is not None:
                env.le("upper-only-grows", pup, up)
                widened(env, i == poi, pup, up)
            if lo is not None and plo is not None:
                env.le("lower-only-grows", lo, plo)
                if i == poi:
                    env.eq("signal-lower-kept", lo, plo)
                else:
                    widened(env, False, -plo, -lo)
    if bs is not None:
        same_list(env, "bounds-untouched", bs, keep)
    same_list(env, "init-untouched", init, start)


def h_minuit(env, n, how):
    core = env.mod("spey.optimizer.core")
    poi = env.choice("poi", list(range(n)))
    f, df, g = env.uf("objective"), env.uf("slope"), env.uf("logpdf")
    init = point(env, "init", n)
    user_bounds = env.choice("user_bounds", [False, True])
    grad = env.choice("grad", [False, True])
    flag = env.choice("flagged", [None, n - 1])
    method = env.choice("method", [None, "migrad", "simplex", "other"])
    valid = env.choice("valid", [True, False])
    bs = [bound(env, "b%d" % i, ("closed", "open") if i else ("closed",)) for i in range(n)] if user_bounds else None
    keep_b = None if bs is None else list(bs)
    arg, fixed = fixed_values(env, how, poi, n)
    sf = None if flag is None else [i == flag for i in range(n)]
    mc = config(env, n, poi, [(-5.0, 5.0)] * n, init, sf)
    x = point(env, "x", n)
    made = []

    class FMin:
        has_reached_call_limit = True
        is_above_max_edm = True

    class Minuit:
        LIKELIHOOD = 0.5

        def __init__(self, fcn, *args, grad=None, name=None):
            self.fcn, self.grad = fcn, grad
            self.start = list(args[0]) if len(args) == 1 else list(args)
            self.ran = []
            self.errors = [0.1] * n
            self.accurate = False
            self.fmin = FMin()
            made.append(self)

        def migrad(self, ncall=None, **kw):
            self.ran.append(("migrad", ncall))
            return self.done()

        def simplex(self, ncall=None, **kw):
            self.ran.append(("simplex", ncall))
            return self.done()

        def done(self):
            self.valid = valid
            self.values = list(x)
            self.fval = f(*x)
            return self

    env.stub("spey.optimizer.minuit_tools", "Minuit", Minuit)
    opts = {"maxiter": 17, "nonsense": 1}
    if method is not None:
        opts["method"] = method
    run = lambda: core.fit(  # noqa: E731
        func=(lambda p: (f(*p), [df(*p)] * n)) if grad else (lambda p: f(*p)),
        model_configuration=mc,
        do_grad=grad,
        bounds=bs,
        fixed_poi_value=arg,
        logpdf=lambda p: g(*p),
        minimizer="minuit",
        **opts,
    )
    if method == "other":
        env.raises("unknown-method-refused", ValueError, run)
        return
    got, pars = run()
    env.check("one-minimisation", len(made) == 1)
    m = made[0]
    env.check("one-run", m.ran == [(method or "migrad", 17)])
    probe = point(env, "probe", n)
    env.eq("objective", m.fcn(probe), f(*probe))
    env.check("gradient", (m.grad is not None) == grad)
    if grad:
        env.eq("gradient", m.grad(probe)[0], df(*probe))
    start = list(init)
    for i, v in fixed.items():
        start[i] = v
    same_list(env, "starting-point", m.start, start)
    want = [i in fixed or i == flag for i in range(n)]
    env.check("exactly-these-held", [bool(b) for b in m.fixed] == want)
    if user_bounds:
        same_list(env, "bounds", list(m.limits), keep_b)
        same_list(env, "bounds-untouched", bs, keep_b)
    else:
        for i in range(n):
            lo, up = m.limits[i]
            if i in fixed:
                env.check("bounds-contain-fixed", env.And(lo <= fixed[i], fixed[i] <= up))
            else:
                env.check("bounds", (lo, up) == (-5.0, 5.0))
    env.check("errordef", m.errordef == 0.5 and m.tol == 1e-6 and m.strategy == 0)
    same_list(env, "reported-point", list(pars), x)
    env.eq("reported-value", got, g(*x))
    same_list(env, "model-untouched", mc.suggested_init, init)


def h_choice(env):
    """which minimiser is used"""
    core = env.mod("spey.optimizer.core")
    opt = env.choice("option", [None, "scipy", "minuit", "bogus"])
    var = env.choice("variable", [None, "scipy", "minuit", "MINUIT", "bogus"])
    x = env.real("x", lo=-4.0, hi=4.0)
    used = []

    def fake(name):
        def run(func, init_pars, fixed_vals, **kw):
            used.append((name, sorted(kw)))
            return func([x]), [x]

        return run

    env.stub("spey.optimizer.scipy_tools", "minimize", fake("scipy"))
    env.stub("spey.optimizer.minuit_tools", "minimize", fake("minuit"))
    old = os.environ.pop("SPEY_OPTIMISER", None)
    try:
        if var is not None:
            os.environ["SPEY_OPTIMISER"] = var
        kw = {} if opt is None else {"minimizer": opt}
        val, pars = core.fit(func=lambda p: 2.0 * p[0], model_configuration=config(env, 1, 0, [(-5.0, 5.0)], [1.0]), **kw)
    finally:
        os.environ.pop("SPEY_OPTIMISER", None)
        if old is not None:
            os.environ["SPEY_OPTIMISER"] = old
    want = (opt or (var or "scipy").lower())
    want = "minuit" if want == "minuit" else "scipy"
    env.check("minimiser-used", [u[0] for u in used] == [want])
    env.eq("reported-value", val, 2.0 * x)
    env.check("minimiser-option-consumed", all("minimizer" not in u[1] for u in used))


def h_options(env):
    """user options reach scipy"""
    tools = env.mod("spey.optimizer.scipy_tools")
    x = env.real("x", lo=-4.0, hi=4.0)
    log = recorder(env, 1, [True], [[x]])
    want = {}
    opts = {}
    for name, val in (("method", "COBYLA"), ("maxiter", 5), ("disp", True), ("tol", 1e-9)):
        if env.bool(name):
            opts[name] = want[name] = val
    if env.bool("unknown"):
        opts["unknown"] = 1
    tools.minimize(lambda p: p[0], [0.0], [False], bounds=[(-1.0, 1.0)], poi_index=0, **opts)
    r = log[0]
    env.check("method", r["method"] == want.get("method", "SLSQP"))
    env.check("tolerance", r["tol"] == want.get("tol", 1e-6))
    env.check("options", r["options"] == {"maxiter": want.get("maxiter", 10000), "disp": want.get("disp", False)})
    env.raises("needs-poi-index", AssertionError, lambda: tools.minimize(lambda p: p[0], [0.0], [False]))


def harnesses(tier):
    st = "scipy.optimize.minimize: recorder returning arbitrary points, success per trial symbolic"
    sm = "iminuit.Minuit: recorder returning arbitrary points"
    hs = []
    for how in ("none", "value", "one", "both"):
        for n in (1, 2) if how in ("none", "value") else (2,):
            hs.append(Harness(f"scipy-{how}-{n}", h_scipy, f"{n} parameters, all starting points and bounds, fixed: {how}", stubs=st, n=n, how=how))
    if tier != "quick":
        for how in ("value", "both"):
            hs.append(Harness(f"scipy-{how}-3", h_scipy, f"3 parameters, fixed: {how}", stubs=st, n=3, how=how))
    hs.append(Harness("trials-1", h_trials, "1 parameter, up to 3 trials, open or closed bounds", stubs=st, n=1))
    if tier != "quick":
        hs.append(Harness("trials-2", h_trials, "2 parameters, up to 3 trials, open or closed bounds", stubs=st, n=2, budget_s=1500, max_paths=20000))
    else:
        hs.append(Harness("trials-2", h_trials2, "2 parameters, 2 trials, open or closed bounds", stubs=st))
    for how in ("none", "value", "one", "both"):
        hs.append(Harness(f"minuit-{how}", h_minuit, f"2 parameters, fixed: {how}", stubs=sm, n=2, how=how))
    hs.append(Harness("choice", h_choice, "all combinations of option and environment variable", stubs="both front ends"))
    hs.append(Harness("options", h_options, "all subsets of the options", stubs=st))
    return hs


def h_trials2(env):
    """two parameters, a failure followed by anything"""
    tools = env.mod("spey.optimizer.scipy_tools")
    poi = env.choice("poi", [0, 1])
    ok = env.bool("ok")
    f = env.uf("objective")
    xs = [point(env, "x%d" % i, 2) for i in range(2)]
    bs = [bound(env, "b%d" % i) for i in range(2)]
    keep = list(bs)
    init = point(env, "init", 2)
    start = list(init)
    fv = [False, env.bool("fixed")]
    log = recorder(env, 2, [False, ok], xs)
    got, pars = tools.minimize(lambda p: f(*p), init, fv, bounds=bs, constraints=None, poi_index=poi, ntrials=2)
    env.check("number-of-trials", len(log) == 2)
    same_list(env, "reported-point", list(pars), xs[1])
    same_list(env, "retry-from-last-point", log[1]["x0"], xs[0])
    for i in range(2):
        (lo, up), (plo, pup) = log[1]["bounds"][i], keep[i]
        env.check("open-stays-open", (lo is None) == (plo is None) and (up is None) == (pup is None))
        if up is not None and pup is not None:
            env.le("upper-only-grows", pup, up)
            widened(env, i == poi, pup, up)
        if lo is not None and plo is not None:
            env.le("lower-only-grows", lo, plo)
            if i == poi:
                env.eq("signal-lower-kept", lo, plo)
            else:
                widened(env, False, -plo, -lo)
    for r in log:
        h = held(r["constraints"], 2)
        env.check("still-held", set(h) == ({1} if fv[1] else set()))
        if fv[1]:
            env.eq("still-held", h[1], start[1])
    same_list(env, "first-bounds", log[0]["bounds"], keep)
    same_list(env, "bounds-untouched", bs, keep)
