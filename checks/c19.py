"""C19: caching is transparent to concurrent callers."""
from engine.env import Harness

from checks.sched import Deadlock, Sched, install


class Boom(Exception):
    pass


class Interrupted(BaseException):
    """like KeyboardInterrupt"""


class World:
    """a cached function whose computations are observable"""

    def __init__(self, env, s, m, kind, maxsize, fail, error=Boom):
        self.env, self.fail, self.s = env, fail, s
        self.computed = []  # (key, caller)
        self.active = {}
        self.overlap = False
        import threading

        def body(x):
            who = self.names.get(threading.get_ident(), "main")
            self.computed.append((x, who))
            self.active[x] = self.active.get(x, 0) + 1
            if self.active[x] > 1:
                self.overlap = True
            s.point()
            self.active[x] -= 1
            if who in self.fail:
                raise error(who)
            return ["value", x]

        self.names = {}
        if kind == "plain":
            f = m.cache_results(maxsize=maxsize)(body)
            self.get = lambda: f
        else:

            def method(self, x):
                return body(x)

            if kind == "method":

                class C:
                    f = m.cache_results(maxsize=maxsize)(method)

            else:

                class C:
                    __slots__ = ["__weakref__"]
                    f = m.cache_results(maxsize=maxsize)(method)

            o = C()
            self.get = lambda: o.f

    def caller(self, name, x):
        import threading

        def go():
            self.names[threading.get_ident()] = name
            got = self.get()(x)
            ok = got == ["value", x]
            got.append("changed")
            return ok

        return go

    def clearer(self):
        return lambda: self.get().cache_clear()


def h_race(env, kind, keys, clear, maxsize, preemptions, horizon, failing, opcodes=False, coarse=False):
    """concurrent calls (one per key in keys), failing ones and a clear in any interleaving"""
    s = Sched(env, preemptions, horizon, opcodes=opcodes, coarse=coarse)
    m = install(env, s)
    names = ["caller%d" % i for i in range(len(keys))]
    if failing == "first":
        fail = names[:1]
    else:
        fail = [n for i, n in enumerate(names) if i in failing and env.choice("fails%d" % i, [False, True])]
    error = env.choice("error", [Boom, Interrupted]) if fail else Boom
    w = World(env, s, m, kind, maxsize, fail, error)
    if kind != "plain" and not clear and not failing:
        pass
    else:
        w.get()
    ts = [s.spawn(w.caller(n, k)) for n, k in zip(names, keys)]
    if clear:
        s.spawn(w.clearer())
    if not s.run():
        return
    for t, n in zip(ts, names):
        if t.error is not None:
            own = isinstance(t.error, error) and t.error.args == (n,) and n in fail
            env.check("own-error", own, "%s raised %s: %s" % (n, type(t.error).__name__, t.error))
        else:
            env.check("own-result", t.result is True, "%s received a wrong result" % n)
    if clear:
        env.check("clear-succeeds", s.ws[-1].error is None)
    if not clear and not fail:
        env.check("no-concurrent-recomputation", not w.overlap, "equal arguments computed concurrently")
        if maxsize is None or maxsize >= len(set(keys)):
            for k in set(keys):
                env.check("one-computation", [c[0] for c in w.computed].count(k) == 1, "%s" % w.computed)
    if not clear:
        env.check("failed-computations-do-not-overlap", not w.overlap, "equal arguments computed concurrently")
    # afterwards
    size = w.get().cache_info()["size"]
    env.check("limit", maxsize is None or size <= maxsize, "%d results retained" % size)
    kept = w.get().get_cache()
    env.check("nothing-pending", all(isinstance(v, list) and v[0] == "value" and len(v) == 2 for v in kept.values()), "unfinished or damaged entry retained")
    w.fail = []
    for rnd in range(2):
        for k in sorted(set(keys)):
            try:
                got = w.get()(k)
            except Deadlock:
                env.fail("later-call", "a later call blocks forever")
                return
            env.check("later-call", got == ["value", k])
    env.check("limit-later", maxsize is None or w.get().cache_info()["size"] <= maxsize)


def harnesses(tier):
    deep = tier != "quick"
    hs = []

    def add(name, bounds, preemptions, coarse=False, **kw):
        where = {"sync": "at synchronisation operations and inside the computation", True: "outside locked regions", False: "at any source line"}[coarse]
        hs.append(
            Harness(
                "%s-%d%s" % (name, preemptions, {"sync": "s", True: "c", False: ""}[coarse]),
                h_race,
                "%s; every schedule with %d preemptions %s (first %d steps), free switches at blocking points" % (bounds, preemptions, where, kw["horizon"]),
                stubs="threading primitives hand over to the scheduler",
                max_paths=400000,
                preemptions=preemptions,
                coarse=coarse,
                **kw,
            )
        )

    H = 80
    two = [
        ("same", "2 equal calls", dict(kind="plain", keys=["a", "a"], clear=False, maxsize=4, failing=())),
        ("fail", "2 equal calls, either may fail", dict(kind="plain", keys=["a", "a"], clear=False, maxsize=4, failing=(0, 1))),
        ("clear", "1 call, which may fail, and a clear", dict(kind="plain", keys=["a"], clear=True, maxsize=4, failing=(0,))),
        ("evict", "2 different calls, limit 1", dict(kind="plain", keys=["a", "b"], clear=False, maxsize=1, failing=())),
        ("method", "2 equal calls of a method, first access included", dict(kind="method", keys=["a", "a"], clear=False, maxsize=4, failing=())),
        ("method-fail", "2 equal calls of a method, either may fail", dict(kind="method", keys=["a", "a"], clear=False, maxsize=4, failing=(0, 1))),
        ("slots", "2 equal calls of a method without instance dictionary", dict(kind="slots", keys=["a", "a"], clear=False, maxsize=4, failing=())),
    ]
    three = [
        ("same-3", "3 equal calls, the first may fail", dict(kind="plain", keys=["a", "a", "a"], clear=False, maxsize=4, failing=(0,))),
        ("same-clear", "2 equal calls and a clear", dict(kind="plain", keys=["a", "a"], clear=True, maxsize=4, failing=())),
        ("mixed-evict", "calls a, b, a with limit 1", dict(kind="plain", keys=["a", "b", "a"], clear=False, maxsize=1, failing=())),
        ("fail-clear", "2 equal calls, one may fail, and a clear", dict(kind="plain", keys=["a", "a"], clear=True, maxsize=4, failing=(0,))),
        ("method-clear", "2 equal calls of a method and a clear", dict(kind="method", keys=["a", "a"], clear=True, maxsize=4, failing=())),
    ]
    for n, b, kw in two:
        add(n, b, 1, horizon=H, **kw)
        if n in ("fail", "method-fail"):
            b, kw = "2 equal calls, one fails", dict(kw, failing="first")
        if n not in ("slots", "method-fail") or deep:
            add(n, b, 2, coarse=True, horizon=H, **kw)
        if deep:
            add(n, b, 2, horizon=H, budget_s=800, **kw)
            add(n, b, 3, coarse=True, horizon=H, budget_s=800, **kw)
            add(n + "-bytecode", b, 1, horizon=8 * H, opcodes=True, budget_s=800, **kw)
    for n, b, kw in three:
        add(n, b, 1, coarse=not deep, horizon=H + 40, **kw)
        if n == "same-3":
            add(n, "3 equal calls, the first fails", 2, coarse="sync", horizon=H, **dict(kw, failing="first"))
        if deep:
            add(n, b, 3, coarse="sync", horizon=H, budget_s=800, **kw)
        if deep:
            add(n, b, 2, coarse=True, horizon=H + 40, budget_s=800, **kw)
    return hs
