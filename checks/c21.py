"""C21: merging bins and converting covariances."""
import numpy as np

from engine.env import Harness

REFUSED = (AssertionError, ValueError, IndexError, TypeError)


def mod(env):
    return env.mod("spey.helper_functions")


def sym_cov(env, n, name="cov"):
    c = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(i, n):
            c[i][j] = c[j][i] = env.real("%s%d%d" % (name, i, j), lo=0.25 if i == j else -2.0, hi=4.0)
    return c


def inputs(env, n):
    b = env.reals("b", n, lo=0.0, hi=20.0)
    d = env.reals("d", n, lo=0.0, hi=20.0)
    s = env.reals("s", n, lo=-2.0, hi=5.0)
    return b, d, s, sym_cov(env, n)


def h_merge(env, n, groups):
    """every assignment of the bins to groups, in either order within the group"""
    b, d, s, c = inputs(env, n)
    lab = [env.choice("group%d" % i, [None] + list(range(groups))) for i in range(n)]
    gs = [[i for i in range(n) if lab[i] == g] for g in range(groups)]
    gs = [g for g in gs if g]
    if env.choice("order", ["increasing", "decreasing"]) == "decreasing":
        gs = [g[::-1] for g in gs]
    with_signal = env.choice("signal", [True, False])
    want_groups = env.choice("return_groups", [False, True])
    given = [list(g) for g in gs]
    arrays = [np.array(b), np.array(d), np.array([list(r) for r in c])] + ([np.array(s)] if with_signal else [])
    before = [list(a.ravel()) for a in arrays]
    kw = {"signal_yields": arrays[3]} if with_signal else {}
    if want_groups:
        kw["return_group_indices"] = True
    r = mod(env).merge_correlated_bins(background_yields=arrays[0], data=arrays[1], covariance_matrix=arrays[2], merge_groups=gs, **kw)
    full = given + [[i] for i in range(n) if lab[i] is None]
    m = len(full)
    env.check("groups-untouched", gs == given, "argument changed")
    for a, q in zip(arrays, before):
        env.check("arrays-untouched", all(x is y or bool(x == y) for x, y in zip(a.ravel(), q)))
    env.check("bins", len(r["background_yields"]) == m and len(r["data"]) == m and r["covariance_matrix"].shape == (m, m))
    for k, g in enumerate(full):
        env.eq("background", r["background_yields"][k], env.sum([b[i] for i in g]))
        env.eq("data", r["data"][k], env.sum([d[i] for i in g]))
        if with_signal:
            env.eq("signal", r["signal_yields"][k], env.sum([s[i] for i in g]))
        for l, h in enumerate(full):
            env.eq("covariance", r["covariance_matrix"][k, l], env.sum([c[i][j] for i in g for j in h]))
    env.check("no-signal", with_signal or r.get("signal_yields") is None)
    env.eq("total-background", env.sum(list(r["background_yields"])), env.sum(b))
    env.eq("total-data", env.sum(list(r["data"])), env.sum(d))
    env.eq("total-variance", env.sum(list(r["covariance_matrix"].ravel())), env.sum([x for row in c for x in row]))
    if want_groups:
        env.check("group-indices", [sorted(g) for g in r["group_indices"]] == [sorted(g) for g in full])


def h_types(env, n):
    """integer and boolean inputs mixed with real ones"""
    ints = env.choice("integer_inputs", ["background", "data", "signal", "covariance", "background+data", "data+signal+covariance"]).split("+")
    kind = env.choice("type", [np.int64, np.int32, np.float32])
    b, d, s, c = inputs(env, n)
    if "background" in ints:
        b = [7 + 3 * i for i in range(n)]
    if "data" in ints:
        d = [5 + 2 * i for i in range(n)]
    if "signal" in ints:
        s = [1 + i for i in range(n)]
    if "covariance" in ints:
        c = [[4 if i == j else 1 for j in range(n)] for i in range(n)]

    def arr(name, v):
        return np.array(v, dtype=kind) if name in ints else np.array(v)

    g = env.choice("groups", [[[0, 1]], [[n - 1, 0]], [list(range(n))], []])
    r = mod(env).merge_correlated_bins(arr("background", b), arr("data", d), arr("covariance", c), [list(x) for x in g], signal_yields=arr("signal", s))
    full = g + [[i] for i in range(n) if not any(i in x for x in g)]
    for k, x in enumerate(full):
        env.eq("background", r["background_yields"][k], env.sum([b[i] for i in x]))
        env.eq("data", r["data"][k], env.sum([d[i] for i in x]))
        env.eq("signal", r["signal_yields"][k], env.sum([s[i] for i in x]))
        for l, y in enumerate(full):
            env.eq("covariance", r["covariance_matrix"][k, l], env.sum([c[i][j] for i in x for j in y]))


def h_refuse(env, n):
    """malformed groups and mismatched sizes"""
    b, d, s, c = inputs(env, n)
    case = env.choice("case", ["overlap", "repeat", "negative", "beyond", "short-data", "short-background", "short-signal", "long-covariance", "rectangular"])
    i = env.choice("index", list(range(n)))
    j = env.choice("other", list(range(n)))
    B, D, S, C, gs = np.array(b), np.array(d), np.array(s), np.array([list(r) for r in c]), [[0, 1]]
    if case == "overlap":
        gs = [[i, j] if i != j else [i], [j]] if env.choice("side", [0, 1]) else [[j], [i, j] if i != j else [i]]
    elif case == "repeat":
        gs = [[i, j, i]]
    elif case == "negative":
        gs = [[i, -1 - j]] if (n - 1 - j) != i else [[-1 - j]]
    elif case == "beyond":
        gs = [[i, n + j]]
    elif case == "short-data":
        D = D[:-1]
    elif case == "short-background":
        B = B[:-1]
    elif case == "short-signal":
        S = S[:-1]
    elif case == "long-covariance":
        C = np.array(sym_cov(env, n + 1, "more"))
    else:
        C = C[:, :-1]
    env.raises("refused", REFUSED, lambda: mod(env).merge_correlated_bins(background_yields=B, data=D, covariance_matrix=C, merge_groups=gs, signal_yields=S))


def h_convert(env, n):
    """covariance -> correlation -> covariance and the other way round"""
    c = sym_cov(env, n)
    m = mod(env)
    C = np.array([list(r) for r in c])
    corr = m.covariance_to_correlation(covariance_matrix=C)
    for i in range(n):
        env.eq("unit-diagonal", corr[i, i], 1.0)
        for j in range(n):
            env.eq("correlation", corr[i, j] * env.sqrt(c[i][i]) * env.sqrt(c[j][j]), c[i][j])
    back = m.correlation_to_covariance(corr, [env.sqrt(c[i][i]) for i in range(n)])
    for i in range(n):
        for j in range(n):
            env.eq("inverse", back[i, j], c[i][j])
            env.eq("untouched", C[i, j], c[i][j])


def h_convert2(env, n):
    u = env.reals("sigma", n, lo=0.1, hi=5.0)
    r = [[1.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            r[i][j] = r[j][i] = env.real("rho%d%d" % (i, j), lo=-1.0, hi=1.0)
    m = mod(env)
    cov = m.correlation_to_covariance(correlation_matrix=np.array(r), standard_deviations=np.array(u))
    for i in range(n):
        for j in range(n):
            env.eq("covariance", cov[i, j], r[i][j] * u[i] * u[j])
    back = m.covariance_to_correlation(cov)
    for i in range(n):
        for j in range(n):
            env.eq("inverse", back[i, j], r[i][j])


def harnesses(tier):
    hs = []
    deep = tier != "quick"
    for n in (2, 3, 4):
        hs.append(Harness("merge-%d" % n, h_merge, "%d bins, any yields, data, signal, covariance; every grouping into up to 2 groups" % n, n=n, groups=2))
    if deep:
        hs.append(Harness("merge-5", h_merge, "5 bins, every grouping into up to 2 groups", n=5, groups=2, max_paths=20000, budget_s=800))
    hs.append(Harness("refuse", h_refuse, "3 bins, every malformed grouping of 9 kinds", n=3))
    for n in (2, 3) if not deep else (2, 3, 4):
        hs.append(Harness("covariance-%d" % n, h_convert, "%d bins, any covariance with positive variances" % n, n=n))
        hs.append(Harness("correlation-%d" % n, h_convert2, "%d bins, any correlation and deviations" % n, n=n))
    hs.append(Harness("types-3", h_types, "3 bins, integer or single precision inputs among real ones", n=3))
    return hs
