"""C31: package settings and diagnostics."""
import io
import logging
import os
import warnings

import numpy as np

from engine.env import Harness

from checks.c08 import config
from checks.c22 import Logger
from checks.c25 import Recorder
from checks.common import swap_names

LEVEL = {0: logging.ERROR, 1: logging.WARNING, 2: logging.INFO, 3: logging.DEBUG}


class Saved:
    """package logger, root logger and the environment variable are put back whatever happens"""

    def __enter__(self):
        self.log, self.root = logging.getLogger("Spey"), logging.getLogger()
        self.state = (self.log.level, self.log.propagate, self.log.handlers[:], self.root.handlers[:], self.root.level, logging.root.manager.disable)
        logging.disable(0)
        self.env = os.environ.pop("SPEY_OPTIMISER", None)
        return self

    def __exit__(self, *exc):
        self.log.setLevel(self.state[0])
        self.log.propagate = self.state[1]
        self.log.handlers[:] = self.state[2]
        self.root.handlers[:] = self.state[3]
        self.root.setLevel(self.state[4])
        logging.disable(self.state[5])
        os.environ.pop("SPEY_OPTIMISER", None)
        if self.env is not None:
            os.environ["SPEY_OPTIMISER"] = self.env


def h_level(env):
    """the documented levels are taken, anything else is refused and changes nothing"""
    spey = env.mod("spey")
    with Saved() as s:
        start = env.choice("start", sorted(LEVEL))
        s.log.setLevel(LEVEL[start])
        rec = Recorder()
        s.log.handlers[:] = [rec]
        level = env.choice("level", [0, 1, 2, 3, 4, 10, -1, None, "debug", "1"])
        if level in LEVEL:
            spey.set_log_level(level)
        else:
            try:
                spey.set_log_level(level)
                env.fail("refused", "level %r accepted" % (level,))
            except Exception:  # noqa: BLE001
                pass
        want = LEVEL[level if level in LEVEL else start]
        env.check("level", s.log.level == want, "logger at %s instead of %s" % (s.log.level, want))
        n = env.count("record", hi=60)
        env.assume(n >= 1)
        # a record is let through exactly when it is at least as severe as the level
        env.check("filter", env.And(env.Or(n < want, s.log.isEnabledFor(want)), env.Or(n >= want, not s.log.isEnabledFor(want - 1))))
        for lv in (10, 20, 30, 40, 50):
            s.log.log(lv, "at %d", lv)
        env.check("emitted", rec.got == ["at %d" % lv for lv in (10, 20, 30, 40, 50) if lv >= want], "%s" % rec.got)
        env.check("handlers", s.log.handlers == [rec])


def h_optimiser(env, n):
    """any sequence of selections, then a fit"""
    spey, core = env.mod("spey"), env.mod("spey.optimizer.core")
    there = env.choice("iminuit", [True, False])
    x = env.real("x", lo=-4.0, hi=4.0)
    used, log = [], Logger()
    import importlib.util

    def find_spec(name, *a, **k):
        if name == "iminuit":
            return object() if there else None
        return importlib.util.find_spec(name, *a, **k)

    table = {importlib.util.find_spec: find_spec}
    for m in (spey, core):
        swap_names(env, m, table)
    swap_names(env, spey, {spey.__dict__["log"]: log})
    swap_names(env, core, {core.__dict__["log"]: Logger()})

    def fake(name):
        def run(func, init_pars, fixed_vals, **kw):
            used.append(name)
            return func([x]), [x]

        return run

    env.stub("spey.optimizer.scipy_tools", "minimize", fake("scipy"))
    env.stub("spey.optimizer.minuit_tools", "minimize", fake("minuit"))
    with Saved():
        var = env.choice("variable", [None, "scipy", "minuit"])
        if var is not None:
            os.environ["SPEY_OPTIMISER"] = var
        current = var or "scipy"
        for i in range(n):
            name = env.choice("name%d" % i, ["scipy", "minuit", "iminuit", "bogus", ""])
            log.messages.clear()
            spey.set_optimiser(name)
            bad = name not in ("scipy", "minuit", "iminuit") or (name != "scipy" and not there)
            if not bad:
                current = "scipy" if name == "scipy" else "minuit"
            errors = [t for lv, t in log.messages if lv == "error"]
            env.check("reported", bool(errors) == bad, "%s: %s" % (name, errors))
            env.check("variable", os.environ.get("SPEY_OPTIMISER", "scipy") == current, "%s instead of %s" % (os.environ.get("SPEY_OPTIMISER"), current))
        val, pars = core.fit(func=lambda p: 2.0 * p[0], model_configuration=config(env, 1, 0, [(-5.0, 5.0)], [1.0]))
        want = "minuit" if current == "minuit" and there else "scipy"
        env.check("minimiser-used", used == [want], "%s instead of %s" % (used, want))
        env.eq("value", val, 2.0 * x)
        used.clear()
        other = env.choice("option", ["scipy", "minuit"])
        core.fit(func=lambda p: 2.0 * p[0], model_configuration=config(env, 1, 0, [(-5.0, 5.0)], [1.0]), minimizer=other)
        env.check("option-wins", used == ["minuit" if other == "minuit" and there else "scipy"])
        env.check("option-is-not-a-setting", os.environ.get("SPEY_OPTIMISER", "scipy") == current)


def h_once(env, n):
    """a message is written when first given and not again while it is among the last ten"""
    spey = env.mod("spey")
    with Saved() as s:
        s.log.setLevel(10)
        rec = Recorder()
        s.log.handlers[:] = [rec]
        s.log.propagate = False
        if hasattr(spey.log_once, "cache_clear"):
            spey.log_once.cache_clear()
        seen, want = [], []
        fill = env.choice("fill", [0, 8, 9, 10])
        for i in range(fill):
            spey.log_once("filler %d" % i, "info")
            seen.append(("filler %d" % i, "info"))
            want.append("filler %d" % i)
        for i in range(n):
            key = (env.choice("text%d" % i, ["a", "b", "filler 0"]), env.choice("type%d" % i, ["info", "error"]))
            count = len(rec.got)
            spey.log_once(*key)
            if key in seen:
                seen.remove(key)
                env.check("not-again", len(rec.got) == count, "%s repeated" % (key,))
            else:
                env.check("first", len(rec.got) == count + 1 and rec.got[-1] == key[0], "%s not written" % (key,))
            seen.append(key)
            seen = seen[-10:]


def h_once_level(env):
    """each kind of message at its own level"""
    spey = env.mod("spey")
    levels = {"warning": 30, "error": 40, "info": 20, "debug": 10, "other": 20}
    got = []

    class Level(logging.Handler):
        def emit(self, record):
            got.append(record.levelno)

    with Saved() as s:
        s.log.setLevel(10)
        s.log.handlers[:] = [Level()]
        if hasattr(spey.log_once, "cache_clear"):
            spey.log_once.cache_clear()
        a, b = env.choice("first", sorted(levels)), env.choice("second", sorted(levels))
        spey.log_once("text", a)
        spey.log_once("text", b)
        env.check("level", got == [levels[a]] + ([levels[b]] if a != b else []), "%s" % got)


class Boom(Exception):
    pass


def h_tracker(env):
    """warnings inside are kept from the user, the result and everything else is untouched"""
    X = env.mod("spey.system.exceptions")
    x, y = env.real("x", lo=-9.0, hi=9.0), env.real("y", lo=-9.0, hi=9.0)
    nwarn = env.choice("warnings", [0, 1, 2])
    fails = env.choice("fails", [False, True])
    f = env.uf("f")
    got = []

    def inner(a, *rest, scale=1.0, **kw):
        """doc of inner"""
        got.append((a, rest, scale, kw))
        for i in range(nwarn):
            warnings.warn("w%d" % i, RuntimeWarning if i else UserWarning)
        if fails:
            raise Boom("inner")
        return f(a) * scale

    with Saved() as s:
        s.log.setLevel(10)
        rec = Recorder()
        s.log.handlers[:] = [rec]
        s.log.propagate = False
        tracked = X.warning_tracker(inner)
        if env.choice("nested", [False, True]):
            tracked = X.warning_tracker(tracked)
        env.check("identity", tracked.__name__ == "inner" and tracked.__doc__ == "doc of inner")
        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter("always")
            before = (list(warnings.filters), warnings.showwarning)
            try:
                r = tracked(x, 2, scale=y, extra=3)
                env.check("failure-passes", not fails)
                env.eq("result", r, f(x) * y)
            except Boom:
                env.check("only-own-failure", fails)
            env.check("filters-restored", list(warnings.filters) == before[0] and warnings.showwarning is before[1])
            warnings.warn("outside")
        env.check("called-once", len(got) == 1 and got[0][0] is x and got[0][1] == (2,) and got[0][2] is y and got[0][3] == {"extra": 3})
        env.check("user-warnings", [str(w.message) for w in seen] == ["outside"], "%s" % [str(w.message) for w in seen])
        if not fails:
            env.check("kept-as-debug", len(rec.got) == nwarn and all("w%d" % i in t for i, t in enumerate(rec.got)), "%s" % rec.got)


def h_init(env):
    """the package logger ends up with exactly one handler writing to the stream"""
    L = env.mod("spey.system.logger")
    with Saved() as s:
        s.log.handlers[:] = [Recorder() for _ in range(env.choice("handlers", [0, 1, 2, 3]))]
        old = s.log.handlers[:]
        s.log.propagate = env.choice("propagate", [True, False])
        s.log.setLevel(10)
        other = logging.getLogger("verif.other")
        for _ in range(env.choice("times", [1, 2])):
            out = io.StringIO()
            L.init(LoggerStream=out)
        env.check("replaced", len(s.log.handlers) == 1 and s.log.handlers[0] not in old, "%d handlers" % len(s.log.handlers))
        env.check("no-propagation", s.log.propagate is False)
        lv = env.choice("severity", [10, 20, 30, 40, 50])
        s.root.handlers[:] = []
        s.log.log(lv, "text %s and %d", "x", 7)
        env.check("written-once", out.getvalue().count("text x and 7") == 1, out.getvalue())
        env.check("old-handlers-silent", not any(h.got for h in old))
        env.check("others-untouched", not other.handlers)


def h_format(env):
    """severity decides the tag; the record itself is left as it was"""
    L = env.mod("spey.system.logger")
    n = env.count("severity", hi=60)
    args = env.choice("args", [None, ("x", 7), "percent"])
    msg, a = {None: ("plain", ()), ("x", 7): ("text %s and %d", ("x", 7)), "percent": ("100% sure", ())}[args]
    text = {None: "plain", ("x", 7): "text x and 7", "percent": "100% sure"}[args]
    rec = logging.LogRecord("Spey", 20, "/some/where.py", 3, msg, a, None, func="fn")
    rec.levelno = n
    fmt = L.ColoredFormatter("%(message)s")
    out = fmt.format(rec)
    again = fmt.format(rec)
    env.check("text", text in out and out.endswith("\x1b[0m"), out)
    env.check("repeatable", again == out, "second handler would write %r" % again)
    env.check("record-untouched", rec.msg == msg and rec.args == a and rec.getMessage() == text, "record now says %r" % rec.getMessage())
    for tag, cond in (("ERROR", n >= 40), ("WARNING", env.And(n >= 30, n < 40)), ("DEBUG", env.And(n >= 10, n < 20))):
        env.check("tag-" + tag.lower(), cond if tag in out else env.Not(cond), "%r" % out)


def h_numbers(env, which):
    """silencing helpers around numerical entry points do not change results"""
    T = env.mod("spey.backends.default_pdf.third_moment")
    b = [env.real("b%d" % i, lo=1.0, hi=50.0) for i in range(2)]
    raw = getattr(T.third_moment_expansion, "__wrapped__", None)
    cov = np.array([[4.0, 1.0], [1.0, 9.0]])
    m3 = np.array([1.0, -2.0])
    got = T.third_moment_expansion(np.array(b), cov, m3, True)
    if raw is not None:
        ref = raw(np.array(b), cov, m3, True)
        for i in range(4):
            env.vec_eq("same-result", np.ravel(got[i]), np.ravel(ref[i]))
    env.check("four", len(got) == 4)


def harnesses(tier):
    k = 3 if tier == "thorough" else 2
    return [
        Harness("level", h_level, "10 values from 4 starting levels, any record severity up to 60", stubs="handlers"),
        Harness("optimiser", h_optimiser, "sequences of %d selections, iminuit present or not, 3 starting values" % k, stubs="minimisers, find_spec, logger", n=k, max_paths=20000),
        Harness("once", h_once, "histories of %d messages after up to 10 others" % (k + 1), stubs="handlers", n=k + 1, max_paths=20000),
        Harness("once-level", h_once_level, "all pairs of kinds", stubs="handlers"),
        Harness("tracker", h_tracker, "any values, up to 2 warnings, success or failure", stubs="handlers"),
        Harness("init", h_init, "up to 3 handlers before", stubs="handlers"),
        Harness("format", h_format, "any severity up to 60", stubs=""),
        Harness("numbers", h_numbers, "2 bins", stubs="", which=0),
    ]
