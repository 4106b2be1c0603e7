"""C25: temporary log capture and silencing restore the logger."""
import contextlib
import io
import logging

from engine.env import Harness

from checks.common import analytic_backend, expectations

LEVELS = [10, 20, 30, 40]


class Boom(Exception):
    pass


class Recorder(logging.Handler):
    def __init__(self, level=0):
        super().__init__(level)
        self.got = []

    def emit(self, record):
        self.got.append(record.getMessage())


class Stream:
    """collects what is written; may fail at a chosen write"""

    def __init__(self, broken=False):
        self.text, self.broken = [], broken

    def write(self, s):
        if self.broken:
            raise Boom("write")
        self.text.append(s)

    def flush(self):
        if self.broken:
            raise Boom("flush")


class Scene:
    """the package logger in a chosen state; put back whatever happens"""

    def __init__(self, env, level=None, nh=None, small=False):
        self.log = logging.getLogger("Spey")
        self.saved = (self.log.level, self.log.propagate, self.log.handlers[:], logging.root.manager.disable, self.log.disabled)
        for h in self.log.handlers[:]:
            self.log.removeHandler(h)
        self.level = env.choice("level", [10, 30]) if level is None else level
        self.propagate = True if small else env.bool("propagate")
        self.handlers = [Recorder(lv) for lv in ((0, 40) if small else env.choice("handlers", [(), (0,), (0, 40)]))] if nh is None else [Recorder() for _ in range(nh)]
        self.before = env.choice("disabled", [0, 10])
        self.log.setLevel(self.level)
        self.log.propagate = self.propagate
        for h in self.handlers:
            self.log.addHandler(h)
        logging.disable(self.before)
        self.root = logging.getLogger().handlers[:]
        self.last, logging.lastResort = logging.lastResort, None
        for h in self.root:
            logging.getLogger().removeHandler(h)

    def close(self):
        for h in self.log.handlers[:]:
            self.log.removeHandler(h)
        self.log.setLevel(self.saved[0])
        self.log.propagate = self.saved[1]
        for h in self.saved[2]:
            self.log.addHandler(h)
        logging.disable(self.saved[3])
        logging.lastResort = self.last
        for h in self.root:
            logging.getLogger().addHandler(h)

    def restored(self, env):
        env.check("level-restored", self.log.level == self.level, f"level {self.log.level} instead of {self.level}")
        env.check("propagate-restored", self.log.propagate == self.propagate)
        env.check("handlers-restored", self.log.handlers == self.handlers, "handlers differ in number, identity or order")
        env.check("handler-levels", [h.level for h in self.log.handlers] == [h.level for h in self.handlers])
        env.check("silencing-restored", logging.root.manager.disable == self.before)


def text(level, word):
    return f"message {word} at {level}"


def h_history(env, depth, nops):
    """contexts, messages and failures in every arrangement against a reference interpreter"""
    L = env.mod("spey.system.logger")
    sc = Scene(env, small=depth > 1)
    try:
        kinds = [env.choice(f"context{i}", ["capture", "silence"]) for i in range(depth)]
        args = [env.choice(f"arg{i}", [10, 30]) for i in range(depth)]
        streams = [Stream() for _ in range(depth)]
        # reference: thresholds and destination of each nesting level
        ref_base = [[] for _ in sc.handlers]
        ref_cap = [[] for _ in range(depth)]
        state = [dict(disable=sc.before, level=sc.level, dest=None)]
        for i in range(depth):
            s = dict(state[-1])
            if kinds[i] == "capture":
                s["level"], s["dest"] = args[i], i
            else:
                s["disable"] = args[i]
            state.append(s)
        fail_at = env.choice("fails", [None] + list(range(depth + 1)))

        def emit(d, k):
            lv, w = env.choice(f"lv{d}_{k}", [10, 30, 40] if k == 0 else [30]), "A" if k == 0 else env.choice(f"w{d}_{k}", ["A", "B"])
            sc.log.log(lv, "message %s at %d", w, lv)
            s = state[d]
            if lv <= s["disable"] or lv < s["level"]:
                return
            t = text(lv, w)
            if s["dest"] is None:
                for h, r in zip(sc.handlers, ref_base):
                    if lv >= h.level:
                        r.append(t)
            elif t not in ref_cap[s["dest"]]:
                ref_cap[s["dest"]].append(t)

        def body(d):
            if d == depth:
                for k in range(nops):
                    emit(d, k)
                if fail_at == d:
                    raise Boom("body")
                return
            ctx = L.capture_logs(args[d], stream=streams[d]) if kinds[d] == "capture" else L.disable_logging(args[d])
            with ctx:
                body(d + 1)
                if d + 1 < depth:
                    emit(d + 1, nops)  # after the inner context ended
                if fail_at == d and d + 1 < depth:
                    raise Boom("after inner")

        raised = False
        try:
            body(0)
        except Boom:
            raised = True
        env.check("error-passes-through", raised == (fail_at is not None and (fail_at == depth or fail_at + 1 < depth)))
        sc.restored(env)
        inner_ok = fail_at != depth
        for i in range(depth):
            out = "".join(streams[i].text)
            if kinds[i] != "capture":
                env.check("silence-writes-nothing", out == "")
                continue
            finished = inner_ok and (fail_at is None or fail_at < i or fail_at + 1 >= depth)
            lines = [x for x in out.split("\n") if x]
            if finished:
                env.check("each-once-in-order", len(lines) == len(ref_cap[i]) and all(t in x for t, x in zip(ref_cap[i], lines)), f"captured {lines}, expected {ref_cap[i]}")
            else:
                env.check("nothing-else-written", all(any(t in x for t in ref_cap[i]) for x in lines))
        env.check("outside", [h.got for h in sc.handlers] == ref_base, "messages reached handlers they should not have, or were lost")
        # still working afterwards
        before = [len(h.got) for h in sc.handlers]
        sc.log.log(40, "after")
        env.check("works-afterwards", [h.got[n:] for h, n in zip(sc.handlers, before)] == [["after"]] * len(sc.handlers))
    finally:
        sc.close()


def h_broken(env):
    """failing streams, failing formatting, other exceptions"""
    L = env.mod("spey.system.logger")
    sc = Scene(env)
    try:
        exc = env.choice("exception", [None, ValueError, KeyboardInterrupt, GeneratorExit, SystemExit])
        st = Stream(broken=env.bool("broken"))
        msg = env.bool("message")
        badfmt = env.bool("bad_format")
        old = logging.raiseExceptions
        logging.raiseExceptions = False
        try:
            with L.capture_logs(10, stream=st):
                if msg:
                    sc.log.error("hello")
                if badfmt:
                    try:
                        sc.log.error("bad %d", "x")
                    except TypeError:
                        pass
                if exc is not None:
                    raise exc("x")
        except (ValueError, KeyboardInterrupt, GeneratorExit, SystemExit, Boom, RuntimeError):
            pass
        finally:
            logging.raiseExceptions = old
        sc.restored(env)
    finally:
        sc.close()


def h_users(env, which):
    """the package's own uses: the logger is restored although the calculation may fail at any call"""
    SM = env.mod("spey.interface.statistical_model").StatisticalModel
    sc = Scene(env, nh=1)
    try:
        count = {"n": 0}
        fail = env.int("fails_at", 0, 7)
        exc = env.choice("exception", [ValueError, KeyboardInterrupt])

        def maybe():
            count["n"] += 1
            if count["n"] == fail:
                raise exc("planned")

        def nll(p, e=None, d=None):
            maybe()
            sc.log.warning("same")
            return 0.5 * (p - 1.0) ** 2 + 3.0

        def mle(e, allow, d):
            maybe()
            return 1.0, 3.0

        b, _ = analytic_backend(env, nll=nll, mle=mle, anll=lambda p, e, ts: nll(p), amle=lambda e, ts: mle(e, True, None))
        m = SM(backend=b, analysis="a")
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                if which == "upper-limit":
                    r = m.poi_upper_limit()
                    env.check("finite", r == r)
                elif which == "ratio":
                    m.chi2(poi_test=[0.5, 1.5, 2.5], poi_test_denominator=1.0)
                else:
                    m.chi2_test(limit_type="two-sided")
        except (ValueError, KeyboardInterrupt):
            pass
        sc.restored(env)
    finally:
        sc.close()


def harnesses(tier):
    st = "the package logger gets recording handlers; contexts and messages are chosen symbolically"
    out = [
        Harness("history-1", h_history, "one context, 2 messages, failing or not", stubs=st, depth=1, nops=2, max_paths=4000),
        Harness("history-2", h_history, "two nested contexts, 1 message inside, 1 between, failure at any place", stubs=st, depth=2, nops=1, max_paths=6000),
        Harness("broken", h_broken, "failing streams, formatting errors and every kind of exception", stubs=st),
    ]
    if tier != "quick":
        out.append(Harness("history-2-long", h_history, "two nested contexts, 2 messages inside, 1 between", stubs=st, depth=2, nops=2, max_paths=20000, budget_s=800))
        out.append(Harness("history-3", h_history, "three nested contexts", stubs=st, depth=3, nops=1, max_paths=60000, budget_s=1200))
    for w in ("upper-limit", "ratio", "chi2"):
        out.append(Harness("users-" + w, h_users, "any of the first 7 likelihood evaluations fails", stubs=st, which=w))
    return out
