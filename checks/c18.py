"""C18: caching is transparent to a sequential caller."""
import copy

from engine.env import Harness


def cache_module(env):
    """the module under test; a wait nobody can end is an error instead of a hang"""
    from checks.sched import Sched, install

    return install(env, Sched(env, 0, 1))


class Boom(Exception):
    pass


class Interrupted(BaseException):
    """like KeyboardInterrupt"""


ERRORS = [Boom, Interrupted]


class Model:
    """what an ideal first-in first-out cache would do"""

    def __init__(self, env, maxsize):
        self.env, self.maxsize = env, maxsize
        self.kept = []  # keys, oldest first

    def hit(self, key):
        for k in self.kept:
            if all(bool(a == b) for a, b in zip(k, key)):
                return True
        return False

    def store(self, key):
        self.kept.append(key)
        while self.maxsize is not None and len(self.kept) > self.maxsize:
            self.kept.pop(0)

    def clear(self):
        self.kept = []


class Counter:
    def __init__(self):
        self.n = 0
        self.fail = False
        self.error = Boom


def call(env, f, args, kwargs, key, model, count, value, share, fail, last):
    """one call compared with the ideal cache and the uncached function"""
    hit = model.hit(key)
    before = count.n
    count.fail = fail
    if fail and not hit:
        count.error = env.choice("error%d" % before, ERRORS)
        env.raises("error-reaches-the-caller", count.error, lambda: f(*args, **kwargs))
        count.fail = False
        env.check("computed-once", count.n == before + 1)
        return
    got = f(*args, **kwargs)
    count.fail = False
    env.check("recomputation" if hit else "computation", count.n == before + (0 if hit else 1), "%d computations, hit=%s" % (count.n - before, hit))
    env.check("form", isinstance(got, list) and len(got) == 3 and got[1] == "intact" and got[2] == {"inner": ["intact"]}, "damaged result")
    env.eq("value", got[0], value(*key))
    if share:
        if hit:
            for k, o in last:
                if all(bool(a == b) for a, b in zip(k, key)):
                    env.check("shared", o is got)
        last[:] = [(k, o) for k, o in last if not all(bool(a == b) for a, b in zip(k, key))] + [(key, got)]
    else:
        got[2]["inner"].append("changed by the caller")
        got.append("changed by the caller")
        got[1] = "changed"
    if not hit:
        model.store(key)


def plain(env, maxsize, share, y0):
    cache_results = cache_module(env).cache_results
    g = env.uf("f")
    count = Counter()

    def body(x, y=y0):
        count.n += 1
        if count.fail:
            raise count.error
        return [g(x, y), "intact", {"inner": ["intact"]}]

    return cache_results(maxsize=maxsize, copy_on_return=not share)(body), count, g


def size_ok(env, f, model, maxsize):
    info = f.cache_info()
    env.check("size", info["size"] == len(model.kept), "retained %s results instead of %d" % (info["size"], len(model.kept)))
    env.check("limit", maxsize is None or info["size"] <= maxsize)
    env.check("stated-limit", info["maxsize"] == maxsize)


def h_forms(env, steps):
    """positional, keyword, reordered and defaulted arguments mean the same call"""
    env.equality_hash()
    y0, y1 = env.real("y0", lo=-3.0, hi=3.0), env.real("y1", lo=-3.0, hi=3.0)
    env.assume(env.Or(y0 - y1 >= 0.01, y1 - y0 >= 0.01))
    share = env.choice("share", [False, True])
    f, count, g = plain(env, 128, share, y0)
    model, last = Model(env, 128), []
    for k in range(steps):
        x = env.real("x%d" % k, lo=-3.0, hi=3.0)
        form = env.choice("form%d" % k, ["positional", "keyword", "reordered", "default", "other"])
        y = y1 if form == "other" else y0
        a, kw = {"positional": ((x, y), {}), "keyword": ((x,), {"y": y}), "reordered": ((), {"y": y, "x": x}), "default": ((x,), {}), "other": ((), {"x": x, "y": y})}[form]
        call(env, f, a, kw, (x, y), model, count, g, share, False, last)
    env.raises("invalid-call", TypeError, lambda: f())
    env.raises("unknown-keyword", TypeError, lambda: f(1.0, z=2.0))


def h_history(env, steps, maxsizes):
    """calls, failing calls and clears in any order, any limit"""
    env.equality_hash()
    y0 = env.real("y0", lo=-3.0, hi=3.0)
    maxsize = env.choice("maxsize", maxsizes)
    share = env.choice("share", [False, True])
    f, count, g = plain(env, maxsize, share, y0)
    model, last = Model(env, maxsize), []
    for k in range(steps):
        op = env.choice("op%d" % k, ["call", "fail", "clear"] if k else ["call", "fail"])
        if op == "clear":
            f.cache_clear()
            model.clear()
            last = []
        else:
            x = env.real("x%d" % k, lo=-3.0, hi=3.0)
            call(env, f, (x,), {}, (x, y0), model, count, g, share, op == "fail", last)
        size_ok(env, f, model, maxsize)


def h_evict(env, steps, maxsizes):
    """limits and first-in first-out replacement"""
    env.equality_hash()
    y0 = env.real("y0", lo=-3.0, hi=3.0)
    maxsize = env.choice("maxsize", maxsizes)
    f, count, g = plain(env, maxsize, False, y0)
    model, last = Model(env, maxsize), []
    for k in range(steps):
        x = env.real("x%d" % k, lo=-3.0, hi=3.0)
        call(env, f, (x,), {}, (x, y0), model, count, g, False, False, last)
        size_ok(env, f, model, maxsize)
    got = f.get_cache()
    env.check("snapshot", len(got) == len(model.kept))
    for v in got.values():
        v[2]["inner"].append("changed")
        v.append("changed")
    for k in list(model.kept):
        call(env, f, k, {}, k, model, count, g, False, False, last)


def classes(env, kind, g, count, maxsize=4):
    cache_results = cache_module(env).cache_results

    def body(self, x, y=0.5):
        count.n += 1
        if count.fail:
            raise count.error
        return [g(x, self.tag), "intact", {"inner": ["intact"]}]

    if kind == "method":

        class C:
            f = cache_results(maxsize=maxsize)(body)

    elif kind == "explicit":

        def other(this, x, y=0.5):
            return body(this, x, y)

        class C:
            f = cache_results(maxsize=maxsize, per_instance=True)(other)

    elif kind == "bare":

        class C:
            f = cache_results(body)

    elif kind == "slots":

        class C:
            __slots__ = ["tag", "__weakref__"]
            f = cache_results(maxsize=maxsize)(body)

    else:

        class C:
            __slots__ = ["tag"]
            f = cache_results(maxsize=maxsize)(body)

    return C


def h_instances(env, kind, steps):
    """every instance has its own results"""
    env.equality_hash()
    g = env.uf("f")
    count = Counter()
    C = classes(env, kind, g, count)
    obs, models = [], []
    for i in range(2):
        o = C()
        o.tag = 10.0 + i
        obs.append(o)
        models.append(Model(env, 128 if kind == "bare" else 4))
    for k in range(steps):
        i, op = env.choice("op%d" % k, [(0, "call"), (1, "call"), (0, "clear"), (1, "fail")])
        if op == "clear":
            obs[i].f.cache_clear()
            models[i].clear()
        else:
            x = env.real("x%d" % k, lo=-3.0, hi=3.0)
            call(env, obs[i].f, (x,), {}, (x,), models[i], count, lambda v, i=i: g(v, 10.0 + i), False, op == "fail", [])
        for j in (0, 1):
            env.check("size", obs[j].f.cache_info()["size"] == len(models[j].kept))
    env.check("unbound", callable(C.f))


def h_identity(env, kind):
    """new instances never see the results of instances that are gone"""
    env.equality_hash()
    g = env.uf("f")
    count = Counter()
    C = classes(env, kind, g, count)
    x = env.real("x", lo=-3.0, hi=3.0)
    for i in range(4):
        o = C()
        o.tag = 1.0 + i
        got = o.f(x)
        env.eq("value", got[0], g(x, 1.0 + i))
        del o, got
    env.check("computed-for-each", count.n == 4)


def h_inheritance(env):
    """overriding methods, several cached methods, copies of instances"""
    env.equality_hash()
    cache_results = cache_module(env).cache_results
    g, h, q = env.uf("base"), env.uf("derived"), env.uf("second")
    same_name = env.choice("second_method", ["named", "lambda"])

    class Base:
        def __init__(self, tag):
            self.tag = tag

        @cache_results
        def f(self, x):
            return [g(x, self.tag)]

        @cache_results(maxsize=2)
        def k(self, x):
            return [q(x, self.tag)]

        if same_name == "lambda":

            def f2(self, x):
                return [q(x, self.tag)]

            f2.__name__ = "f"
            k = cache_results(f2)
            del f2

    class Derived(Base):
        @cache_results
        def f(self, x):
            return [h(x, super().f(x)[0], self.tag)]

    cls = env.choice("class", ["base", "derived"])
    a = (Base if cls == "base" else Derived)(1.0)

    def want(o, x):
        return g(x, o.tag) if cls == "base" else h(x, g(x, o.tag), o.tag)

    xs = env.reals("x", 2, lo=-3.0, hi=3.0)
    env.eq("first", a.f(xs[0])[0], want(a, xs[0]))
    b = env.choice("copy", [copy.copy, copy.deepcopy])(a)
    b.tag = 2.0
    for k in range(3):
        o, m, i = env.choice("op%d" % k, [(a, "f", 0), (b, "f", 0), (b, "f", 1), (a, "k", 0), (b, "k", 0)])
        x = xs[i]
        got = getattr(o, m)(x)[0]
        env.eq("value", got, want(o, x) if m == "f" else q(x, o.tag))


def harnesses(tier):
    deep = tier != "quick"
    hs = [
        Harness("forms", h_forms, "%d calls, any arguments, every form" % (3 if deep else 2), steps=3 if deep else 2, max_paths=20000),
        Harness("history", h_history, "%d operations, any arguments, limits 0-2 or none" % (5 if deep else 4), steps=5 if deep else 4, maxsizes=[1, 2, None, 0], max_paths=20000),
        Harness("eviction", h_evict, "%d calls, limits 1-3 or none" % (6 if deep else 5), steps=6 if deep else 5, maxsizes=[1, 2, 3, None], max_paths=20000),
        Harness("inheritance", h_inheritance, "3 calls, base/derived, copied instances"),
    ]
    for kind in ("method", "explicit", "bare", "slots", "slots-plain"):
        hs.append(Harness("instances-" + kind, h_instances, "2 instances, %d operations" % (4 if deep else 3), kind=kind, steps=4 if deep else 3, max_paths=20000))
        hs.append(Harness("identity-" + kind, h_identity, "4 instances one after another", kind=kind))
    return hs
