"""C22: the update check."""
import fnmatch
import json
import pathlib

from engine.env import Harness

from checks.common import swap_names

DAY = 86400.0
NAMES = ["pypi_latest_20240101_101010.json", "pypi_latest_20240102_101010.json", "pypi_latest_20240103_101010.json"]


class Disk:
    """the cache directory; which operations fail is decided by the harness"""

    def __init__(self, faults=(), exists=True):
        self.files = {}
        self.faults = set(faults)
        self.exists = exists
        self.removed = []

    def op(self, name, file=None):
        for key in (name, (name, file)):
            if key in self.faults:
                raise PermissionError("%s %s" % (name, file))


class Stat:
    st_mode, st_size = 0o100644, 10

    def __init__(self, t):
        self.st_mtime = t


class FakePath:
    """the part of pathlib.Path a cache in a directory can reasonably use"""

    def __init__(self, disk, name=None):
        self.disk, self.file = disk, name

    name = property(lambda self: self.file or ".spey")
    stem = property(lambda self: self.name.rsplit(".", 1)[0])
    suffix = property(lambda self: "." + self.name.rsplit(".", 1)[1])
    parent = property(lambda self: FakePath(self.disk))

    def __truediv__(self, o):
        return FakePath(self.disk, str(o))

    joinpath = __truediv__

    def __str__(self):
        return "/scratch/.spey" + ("/" + self.file if self.file else "")

    __repr__ = __fspath__ = __str__

    def __eq__(self, o):
        return isinstance(o, FakePath) and self.file == o.file

    def __hash__(self):
        return hash(self.file)

    def __lt__(self, o):
        return self.name < o.name

    def __gt__(self, o):
        return self.name > o.name

    def is_dir(self):
        self.disk.op("is_dir")
        return self.file is None and self.disk.exists

    def is_file(self):
        return self.file in self.disk.files

    def exists(self):
        return self.disk.exists if self.file is None else self.is_file()

    def mkdir(self, *a, **k):
        self.disk.op("mkdir")
        if self.disk.exists and not k.get("exist_ok"):
            raise FileExistsError
        self.disk.exists = True

    def glob(self, pattern):
        self.disk.op("glob")
        return iter([FakePath(self.disk, n) for n in list(self.disk.files) if fnmatch.fnmatch(n, pattern)])

    def iterdir(self):
        return self.glob("*")

    def stat(self):
        self.disk.op("stat", self.file)
        if self.file not in self.disk.files:
            raise FileNotFoundError(self.file)
        return Stat(self.disk.files[self.file][0])

    def read_text(self, *a, **k):
        self.disk.op("read", self.file)
        if self.file not in self.disk.files:
            raise FileNotFoundError(self.file)
        return self.disk.files[self.file][1]

    def read_bytes(self):
        return self.read_text().encode()

    def write_text(self, text, *a, **k):
        self.disk.op("write")
        if not self.disk.exists:
            raise FileNotFoundError
        self.disk.files[self.file] = (self.disk.now, text)

    def write_bytes(self, b):
        self.write_text(b.decode())

    def unlink(self, missing_ok=False):
        self.disk.op("unlink", self.file)
        if self.file not in self.disk.files:
            if missing_ok:
                return
            raise FileNotFoundError(self.file)
        del self.disk.files[self.file]
        self.disk.removed.append(self.file)

    def replace(self, target):
        self.disk.files[target.file] = self.disk.files.pop(self.file)
        return target

    rename = replace

    def open(self, mode="r", *a, **k):
        import io

        if "r" in mode:
            return io.StringIO(self.read_text())
        me = self

        class W(io.StringIO):
            def close(self):
                if not self.closed:
                    me.write_text(self.getvalue())
                io.StringIO.close(self)

        return W()


class Clock:
    """stand-in for the datetime class and the time module"""

    def __init__(self, t):
        self.t = t

    def now(self, tz=None):
        return self

    def utcnow(self):
        return self

    def timestamp(self):
        return self.t

    time = timestamp

    def strftime(self, fmt):
        return "20240104_101010"


class Response:
    def __init__(self, payload):
        self.payload, self.encoding, self.status_code, self.ok = payload, None, 200, True

    def raise_for_status(self):
        pass

    @property
    def text(self):
        return self.payload if isinstance(self.payload, str) else json.dumps(self.payload)

    @property
    def content(self):
        return self.text.encode()

    def json(self, **k):
        return json.loads(self.text)


class Logger:
    def __init__(self):
        self.messages = []

    def __getattr__(self, level):
        def emit(msg, *a, **k):
            if level in ("warning", "warn", "error", "info", "critical"):
                self.messages.append((level, str(msg) % a if a else str(msg)))

        return emit


def setup(env, disk, now, network, version="0.2.4", python="3.12.3"):
    import datetime
    import platform
    import time

    import requests

    m = env.mod("spey.system.webutils")
    asked, log = [], Logger()

    class Net:
        exceptions = requests.exceptions
        ConnectionError, ConnectTimeout, RequestException, Timeout = requests.ConnectionError, requests.ConnectTimeout, requests.RequestException, requests.Timeout

        def get(self, url, **kw):
            asked.append((url, kw))
            r = network()
            if isinstance(r, BaseException):
                raise r
            return r

    net, clock = Net(), Clock(now)
    disk.now = now
    table = {requests: net, requests.get: net.get, datetime.datetime: clock, time: clock, time.time: clock.time, platform.python_version: lambda: python, m.__dict__["log"]: log, m.__dict__["__version__"]: version}
    for k, v in list(m.__dict__.items()):
        if isinstance(v, pathlib.PurePath):
            table[v] = FakePath(disk)
    swap_names(env, m, table)
    return m, asked, log


def info(v, requires=">=3.8"):
    return {"info": {"version": v, "requires_python": requires}}


def used(log):
    """version quoted in the warning"""
    return [t for _, t in log.messages]


CONTENT = {
    "good": lambda i: json.dumps(info("9.9.%d" % i)),
    "cut": lambda i: json.dumps(info("9.9.%d" % i))[:-4],
    "empty": lambda i: "",
}


def h_cache(env, n):
    """any number of cached copies of any age, readable or not"""
    now = env.real("now", lo=1.7e9, hi=1.8e9)
    disk = Disk()
    state, prev = [], None
    for i in range(n):
        age = env.real("age%d" % i, lo=0.0, hi=3 * DAY)
        env.assume(env.Or(age >= DAY + 1.0, age <= DAY - 1.0))
        if prev is not None:
            env.assume(age <= prev - 1.0)
        prev = age
        kind = env.choice("content%d" % i, ["good", "cut", "unreadable", "no-stat", "empty"])
        if kind == "unreadable":
            disk.faults.add(("read", NAMES[i]))
        if kind == "no-stat":
            disk.faults.add(("stat", NAMES[i]))
        disk.files[NAMES[i]] = (now - age, CONTENT.get(kind, CONTENT["good"])(i))
        state.append((age, kind))
    disk.files["notes.txt"] = (now, "keep")
    disk.files["latest.json"] = (now, "{}")
    net = env.choice("network", ["ok", "down"])
    import requests

    m, asked, log = setup(env, disk, now, lambda: Response(info("8.8.8")) if net == "ok" else requests.ConnectionError("down"))
    m.check_updates()
    usable = [i for i, (a, k) in enumerate(state) if k == "good" and bool(a <= DAY)]
    env.check("other-files-kept", {"notes.txt", "latest.json"} <= set(disk.files))
    text = " ".join(used(log))
    if usable:
        env.check("no-network", not asked, "network asked although a recent copy is readable")
        env.check("recent-copy-used", "9.9.%d" % usable[-1] in text, "answer not from the newest usable copy: %s" % text)
        env.check("nothing-written", not disk.removed and set(disk.files) == set(NAMES[:n]) | {"notes.txt", "latest.json"})
    else:
        env.check("network-asked-once", len(asked) == 1, "network asked %d times" % len(asked))
        env.check("bounded-wait", asked and isinstance(asked[0][1].get("timeout"), (int, float)) and 0 < asked[0][1]["timeout"] <= 10)
        env.check("old-copy-not-used", "9.9." not in text, "answer from an old or unreadable copy: %s" % text)
        left = [f for f in disk.files if f.startswith("pypi_latest")]
        if net == "ok":
            env.check("download-used", "8.8.8" in text)
            env.check("stored", len(left) == 1 and left[0] not in NAMES and json.loads(disk.files[left[0]][1]) == info("8.8.8"), "files left: %s" % left)
        else:
            env.check("silent", not text)
            env.check("copies-kept", sorted(left) == sorted(NAMES[:n]))
    if not usable and net == "ok":
        asked.clear()
        log.messages.clear()
        m.check_updates()
        env.check("stored-copy-serves", not asked and "8.8.8" in " ".join(used(log)), "stored download not used")


def h_age(env):
    """the age limit is 24 hours"""
    now = env.real("now", lo=1.7e9, hi=1.8e9)
    age = env.real("age", lo=0.0, hi=10 * DAY)
    env.assume(env.Or(age >= DAY + 0.01, age <= DAY - 0.01))
    disk = Disk()
    disk.files[NAMES[0]] = (now - age, CONTENT["good"](0))
    m, asked, log = setup(env, disk, now, lambda: Response(info("8.8.8")))
    m.check_updates()
    env.check("network-iff-old", env.Or(age <= DAY, len(asked) == 1) if asked else age <= DAY, "network: %s" % bool(asked))
    if asked:
        env.check("old", age > DAY, "recent copy ignored")


def h_faults(env):
    """whatever fails, nothing is raised"""
    import requests

    faults = env.choice("disk", [(), ("is_dir",), ("glob",), ("mkdir",), ("write",), ("mkdir", "write"), ("unlink",), ("write", "unlink"), "absent", "absent-mkdir", (("unlink", NAMES[0]),)])
    disk = Disk(() if isinstance(faults, str) and faults == "absent" else ("mkdir",) if faults == "absent-mkdir" else faults, exists=not isinstance(faults, str))
    now = env.real("now", lo=1.7e9, hi=1.8e9)
    if not isinstance(faults, str):
        for i in range(2):
            disk.files[NAMES[i]] = (now - 2 * DAY + i, CONTENT["good"](i))
    net = env.choice(
        "network",
        ["ok", "refused", "timeout", "read-timeout", "os-error", "value-error", "runtime", "html", "empty", "list", "null", "number", "no-info", "null-info", "no-version", "bad-version", "no-requires", "bad-requires", "null-version"],
    )
    E = requests.exceptions
    answers = {
        "ok": Response(info("8.8.8")),
        "refused": E.ConnectionError("x"),
        "timeout": E.ConnectTimeout("x"),
        "read-timeout": E.ReadTimeout("x"),
        "os-error": OSError("x"),
        "value-error": ValueError("x"),
        "runtime": RuntimeError("x"),
        "html": Response("<html></html>"),
        "empty": Response(""),
        "list": Response([1, 2]),
        "null": Response(None),
        "number": Response(3),
        "no-info": Response({"a": 1}),
        "null-info": Response({"info": None}),
        "no-version": Response({"info": {"requires_python": ">=3.8"}}),
        "bad-version": Response(info("not a version")),
        "no-requires": Response({"info": {"version": "8.8.8"}}),
        "bad-requires": Response(info("8.8.8", "???")),
        "null-version": Response(info(None)),
    }
    m, asked, log = setup(env, disk, now, lambda: answers[net])
    for _ in range(2):
        try:
            r = m.check_updates()
        except Exception as e:  # noqa: BLE001
            env.fail("never-raises", "%s: %s" % (type(e).__name__, e))
            return
        env.check("returns-nothing", r is None)
    for _, kw in asked:
        env.check("bounded-wait", isinstance(kw.get("timeout"), (int, float)) and 0 < kw["timeout"] <= 10)
    if net == "ok":
        env.check("answer-used", any("8.8.8" in t for t in used(log)), "downloaded answer not used")
        if faults == () or faults == "absent":
            env.check("stored", len([f for f in disk.files if f.startswith("pypi_latest")]) == 1)
        if faults in (("unlink",), (("unlink", NAMES[0]),)):
            env.check("stored-despite-removal-failure", any(json.loads(v[1]) == info("8.8.8") for v in disk.files.values()))
        if faults == (("unlink", NAMES[0]),):
            env.check("others-removed", NAMES[1] not in disk.files, "removal stopped at the first failure")


def h_versions(env):
    """the message follows the ordering of the versions"""

    def version(name):
        t = [env.choice("%s_%s" % (name, p), o) for p, o in (("major", [0, 1]), ("minor", [2, 10]), ("patch", [0, 9, 10]))]
        return tuple(t)

    a, b = version("local"), version("latest")
    pre = env.choice("local_prerelease", ["", "-beta.1"])
    local, latest = "%d.%d.%d" % a + pre, "%d.%d.%d" % b
    source = env.choice("source", ["network", "cache"])
    now = env.real("now", lo=1.7e9, hi=1.8e9)
    disk = Disk()
    if source == "cache":
        disk.files[NAMES[0]] = (now - 100.0, json.dumps(info(latest)))
    m, asked, log = setup(env, disk, now, lambda: Response(info(latest)), version=local)
    m.check_updates()
    text = used(log)
    if pre:
        env.check("prerelease", len(text) == 1 and local in text[0] and latest in text[0] and "prerelease" in text[0], "%s" % text)
    elif a < b:
        env.check("newer", len(text) == 1 and local in text[0] and latest in text[0] and "newer" in text[0], "%s" % text)
    elif a > b:
        env.check("unstable", len(text) == 1 and local in text[0] and latest in text[0] and "newer" not in text[0] and "prerelease" not in text[0], "%s" % text)
    else:
        env.check("up-to-date", not text, "%s" % text)


def h_python(env):
    """python requirement of the latest version"""
    minor, low, high = env.choice("minor", [7, 8, 9, 10, 12]), env.choice("low", [8, 10]), env.choice("high", [None, 11])
    req = ">=3.%d" % low + (",<3.%d" % high if high else "")
    disk = Disk()
    m, asked, log = setup(env, disk, 1.75e9, lambda: Response(info("0.2.4", req)), version="0.2.4", python="3.%d.4" % minor)
    m.check_updates()
    text = used(log)
    fits = minor >= low and (high is None or minor < high)
    if fits:
        env.check("no-message", not text, "%s" % text)
    else:
        env.check("requirement", len(text) == 1 and "python" in text[0] and "3.%d.4" % minor in text[0], "%s" % text)


def harnesses(tier):
    hs = []
    for n in (0, 1, 2, 3):
        hs.append(Harness("cache-%d" % n, h_cache, "%d cached copies of any age up to 3 days, 5 kinds of content" % n, stubs="disk, clock, network, logger", n=n, max_paths=20000))
    hs.append(Harness("age", h_age, "any age up to 10 days", stubs="disk, clock, network, logger"))
    hs.append(Harness("faults", h_faults, "11 disk faults x 19 network outcomes, two checks in a row", stubs="disk, clock, network, logger"))
    hs.append(Harness("versions", h_versions, "12 x 12 versions, prereleases, both sources", stubs="disk, clock, network, logger"))
    hs.append(Harness("python", h_python, "20 requirements", stubs="disk, clock, network, logger"))
    return hs
