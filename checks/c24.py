"""C24: parameter names, indices and bounds."""
import numpy as np

from engine.env import Harness

from checks.common import numeric_backend, stub_minimize

NAMES = ["mu", "theta", "xi"]
OPEN = ("closed", "low-open", "up-open", "open")


def config(env, n, poi, names=True, kinds=None):
    """ModelConfig with symbolic bounds; minimum_poi is at or below the POI's lower bound"""
    MC = env.mod("spey.base.model_config").ModelConfig
    minimum = -1.0 * env.real("minimum", lo=0.0, hi=8.0)
    bounds = []
    for i in range(n):
        lo, w = env.real(f"lo{i}", lo=-6.0, hi=4.0), env.real(f"w{i}", lo=0.25, hi=9.0)
        if i == poi:
            env.assume(lo >= minimum)
        k = kinds[i]
        bounds.append((None if k in ("low-open", "open") else lo, None if k in ("up-open", "open") else lo + w))
    return MC(poi, minimum, [0.5] * n, bounds, NAMES[:n] if names else None)


def snapshot(cfg):
    return [tuple(b) for b in cfg.suggested_bounds]


def same_number(env, label, a, b):
    if a is None or b is None:
        env.check(label, a is None and b is None, "open and closed bounds mixed up")
    else:
        env.eq(label, a, b)


def same(env, label, a, b):
    env.check(label + "-size", len(a) == len(b))
    for x, y in zip(a, b):
        same_number(env, label, x[0], y[0])
        same_number(env, label, x[1], y[1])


def covers(env, b, v):
    if b[0] is not None:
        env.le("covers-low", b[0], v)
    if b[1] is not None:
        env.le("covers-up", v, b[1])
    if b[0] is not None and b[1] is not None:
        env.le("ordered", b[0], b[1])


def inside(env, b, v):
    return env.And(True if b[0] is None else b[0] < v, True if b[1] is None else v < b[1])


def h_fixed(env, n, poi, ktot):
    kinds = ["closed"] * n
    for i in range(n):
        if i in ktot:
            kinds[i] = env.choice(f"kind{i}", OPEN)
    cfg = config(env, n, poi, kinds=kinds)
    before = snapshot(cfg)
    multi = env.bool("multi")
    vals = {}
    which = [poi] if not multi else [i for i in range(n) if env.bool(f"fix{i}")]
    for i in which:
        vals[i] = env.real(f"v{i}", lo=-9.0, hi=15.0)
        if i == poi:
            env.assume(vals[i] >= cfg.minimum_poi)
    if multi:
        got = cfg.fixed_poi_bounds_multi(dict(vals))
    else:
        got = cfg.fixed_poi_bounds(vals[poi])
    env.check("size", len(got) == n)
    for i in range(n):
        if i in vals:
            covers(env, got[i], vals[i])
            for x, y in zip(got[i], before[i]):
                env.check("open-and-closed-kept", (x is None) == (y is None), "a limit appeared or was lost")
            if bool(inside(env, before[i], vals[i])):
                same(env, "kept-when-inside", [got[i]], [before[i]])
        else:
            same(env, "others-unchanged", [got[i]], [before[i]])
    same(env, "model-unchanged", snapshot(cfg), before)
    if vals:
        got[0] = "changed"
        env.check("not-shared", cfg.suggested_bounds[0] != "changed", "the model's own list is handed out")
    same(env, "none", cfg.fixed_poi_bounds(), before)
    same(env, "none-multi", cfg.fixed_poi_bounds_multi(None), before)


def h_rescale(env, n, poi):
    kinds = ["closed"] * n
    for i in range(n):
        kinds[i] = env.choice(f"kind{i}", OPEN[:3])
    cfg = config(env, n, poi, kinds=kinds)
    before = snapshot(cfg)
    allow = env.bool("allow")
    if env.bool("given"):
        ub = env.real("ub", lo=0.1, hi=40.0)
        got = cfg.rescale_poi_bounds(allow, ub)
    else:
        got = cfg.rescale_poi_bounds(allow_negative_signal=allow)
        ub = before[poi][1]
    env.check("size", len(got) == n)
    for i in range(n):
        if i != poi:
            same(env, "others-unchanged", [got[i]], [before[i]])
    env.eq("lower", got[poi][0], cfg.minimum_poi if allow else 0.0)
    same_number(env, "upper", got[poi][1], ub)
    same(env, "model-unchanged", snapshot(cfg), before)
    got[poi] = "changed"
    env.check("not-shared", cfg.suggested_bounds[poi] != "changed", "the model's own list is handed out")


def h_resolve(env, n):
    poi = env.int("poi", 0, n - 1)
    named = env.bool("named")
    cfg = config(env, n, poi, names=named, kinds=["closed"] * n)
    v = env.reals("v", n, lo=-9.0, hi=9.0)
    got = cfg.resolve_poi_indices(v[0])
    env.check("scalar-is-poi", list(got) == [poi])
    env.eq("scalar-value", got[poi], v[0])
    req, want, bad = {}, {}, False
    for i in range(n):
        k = env.choice(f"key{i}", ["none", "name", "index", "numpy", "unknown", "too-large", "negative"])
        if k == "none":
            continue
        key = {"name": NAMES[i], "index": i, "numpy": np.int64(i), "unknown": NAMES[i].upper(), "too-large": n + i, "negative": -1 - i}[k]
        bad = bad or k in ("unknown", "too-large", "negative") or (k == "name" and not named)
        req[key] = v[i]
        want[i] = v[i]
    if bad:
        env.raises("refused", ValueError, lambda: cfg.resolve_poi_indices(req))
        return
    got = cfg.resolve_poi_indices(req)
    env.check("keys", sorted(got) == sorted(want) and all(type(i) is int for i in got))
    for i in want:
        env.eq("values", got[i], want[i])
    if named and want:
        i = sorted(want)[0]
        env.raises("repeated", ValueError, lambda: cfg.resolve_poi_indices({NAMES[i]: 1.0, i: 2.0}))


def h_nuisance(env, n):
    R = env.mod("spey.base.utils").resolve_parameter_index
    poi = env.int("poi", 0, n - 1)
    named = env.bool("named")
    cfg = config(env, n, poi, names=named, kinds=["closed"] * n)
    i = env.int("i", -2, n + 1)
    by_name = env.bool("by_name")
    if by_name:
        key = NAMES[i] if 0 <= i < n else "nobody"
    else:
        key = i
    if n < 2 or not 0 <= i < n or i == poi or (by_name and not named):
        env.raises("refused", ValueError, lambda: R(key, cfg))
    else:
        env.check("index", R(key, cfg) == i)


def h_rename(env, n):
    cfg = config(env, n, 0, kinds=["closed"] * n)
    before = snapshot(cfg)
    pool = NAMES[:n] + ["new", "newer"]
    m = {}
    for i in range(n):
        t = env.choice(f"to{i}", [None] + pool)
        if t is not None:
            m[NAMES[i]] = t
    if env.bool("unknown"):
        m["nobody"] = "somebody"
    want = [m.get(x, x) for x in NAMES[:n]]
    if "nobody" in m or len(set(want)) < n:
        env.raises("refused", ValueError, lambda: cfg.change_parameter_names(m))
        return
    cfg.change_parameter_names(m)
    env.check("positions", list(cfg.parameter_names) == want)
    env.check("index-unchanged", cfg.poi_index == 0 and cfg.npar == n)
    same(env, "bounds-unchanged", snapshot(cfg), before)
    for i, x in enumerate(want):
        env.check("lookup", list(cfg.resolve_poi_indices({x: 1.0})) == [i])


def h_fit(env, multi):
    """bounds and constraint that reach the minimiser, through the public interface"""
    poi = env.int("poi", 0, 1)
    SM = env.mod("spey.interface.statistical_model").StatisticalModel
    lo, w = env.reals("lo", 2, lo=-6.0, hi=3.0), env.reals("w", 2, lo=0.5, hi=9.0)
    bounds = [(lo[i], lo[i] + w[i]) for i in range(2)]
    f = env.uf("nll")
    b, log = numeric_backend(env, npar=2, poi=poi, names=NAMES[:2], bounds=bounds, minimum=-8.0, init=[0.25, 0.5], nll=lambda p, e, d: f(p[0], p[1]))
    record = stub_minimize(env)
    m = SM(backend=b, analysis="a")
    v = env.reals("v", 2, lo=-8.0, hi=12.0)
    if multi:
        which = env.choice("which", [(0,), (1,), (0, 1)])
        style = env.choice("style", ["name", "index"])
        poi_test = {(NAMES[i] if style == "name" else i): v[i] for i in which}
    else:
        which = (poi,)
        poi_test = v[poi]
    m.likelihood(poi_test=poi_test)
    env.check("fitted", len(record) >= 1)
    rec = record[0]
    env.check("bounds-size", len(rec["bounds"]) == 2)
    for i in range(2):
        if i in which:
            covers(env, rec["bounds"][i], v[i])
        else:
            same(env, "others-unchanged", [rec["bounds"][i]], [bounds[i]])
    env.check("held", sorted(rec["held"]) == sorted(which), "other parameters are held than the ones tested")
    for i in which:
        env.eq("held-at", rec["held"][i], v[i])
        env.eq("start", rec["x0"][i], v[i])


def h_unknown(env):
    """the public interface refuses unknown names and indices"""
    SM = env.mod("spey.interface.statistical_model").StatisticalModel
    named = env.bool("named")
    f = env.uf("nll")
    b, log = numeric_backend(env, npar=2, names=NAMES[:2] if named else None, nll=lambda p, e, d: f(p[0], p[1]))
    stub_minimize(env)
    m = SM(backend=b, analysis="a")
    key = env.choice("key", ["nobody", "theta", 2, -1, 1])
    v = env.real("v", lo=-4.0, hi=4.0)
    good = key == 1 or (key == "theta" and named)
    call = env.choice("call", ["likelihood", "fit"])

    def do():
        if call == "likelihood":
            return m.likelihood(poi_test={key: v})
        return m.maximize_likelihood(poi_indices=[key])

    if good:
        r = do()
        env.check("answered", call == "likelihood" or list(r[0]) == [key])
    else:
        env.raises("refused", (ValueError, IndexError, KeyError), do)


def harnesses(tier):
    out = []
    ns = [(1, 0), (2, 0), (2, 1), (3, 1)]
    for n, poi in ns:
        if tier == "quick":
            parts = [tuple(range(n))] if n < 3 else [(1,)]
        else:
            parts = [tuple(range(n))]
        for k in parts:
            out.append(Harness(f"fixed-{n}-{poi}", h_fixed, f"{n} parameters, POI {poi}, any bounds (open or closed) and any fixed values in [-9, 15] not below minimum_poi", n=n, poi=poi, ktot=k))
        out.append(Harness(f"rescale-{n}-{poi}", h_rescale, f"{n} parameters, POI {poi}, any bounds", n=n, poi=poi))
    out.append(Harness("resolve-2", h_resolve, "2 parameters, every kind of key", n=2))
    if tier != "quick":
        out.append(Harness("resolve-3", h_resolve, "3 parameters, every kind of key", n=3))
    for n in (1, 2, 3):
        out.append(Harness(f"nuisance-{n}", h_nuisance, f"{n} parameters, every index and name", n=n))
    out.append(Harness("rename-2", h_rename, "2 names, every map", n=2))
    out.append(Harness("rename-3", h_rename, "3 names, every map", n=3, max_paths=2000))
    out.append(Harness("fit-scalar", h_fit, "2 parameters, arbitrary likelihood, bounds and value", stubs="minimiser replaced by a recorder with arbitrary answers", multi=False))
    out.append(Harness("fit-multi", h_fit, "2 parameters, arbitrary likelihood, bounds and values", stubs="minimiser replaced by a recorder with arbitrary answers", multi=True))
    out.append(Harness("unknown", h_unknown, "known and unknown keys", stubs="minimiser replaced by a recorder with arbitrary answers"))
    return out
