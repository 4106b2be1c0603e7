"""C30: bibliography look-ups."""
import textwrap

from engine.env import Harness

from checks.c22 import Logger
from checks.c26 import backend, fresh
from checks.common import swap_names

WHERE = {
    "inspire/arxiv": "https://inspirehep.net/api/arxiv/%s",
    "inspire/doi": "https://inspirehep.net/api/doi/%s",
    "doi": "https://doi.org/%s",
    "zenodo": "https://zenodo.org/api/records/%s",
}
# é and š distinguish the encodings
RECORD = "@article{%s,\n  title={Mesures \u00e9tranges, \u0161}\n}\n"


class Reply:
    """what requests returns: bytes decoded with whatever encoding is set on it"""

    def __init__(self, code, text):
        self.status_code, self.encoding, self._bytes = code, "ISO-8859-1", text.encode("utf-8")
        self.headers, self.reason = {"content-type": "application/x-bibtex"}, "reason"

    @property
    def ok(self):
        return self.status_code < 400

    def raise_for_status(self):
        import requests

        if self.status_code >= 400:
            raise requests.HTTPError("%s" % self.status_code)

    @property
    def content(self):
        return self._bytes

    @property
    def apparent_encoding(self):
        return "utf-8"

    @property
    def text(self):
        return self._bytes.decode(self.encoding or "utf-8", "replace")


class BrokenReply(Reply):
    """the connection is lost while the body is read"""

    @property
    def content(self):
        raise OSError("reset")

    text = content


def errors():
    import requests

    E = requests.exceptions
    return {
        # no connection
        "refused": (E.ConnectionError("x"), True),
        "connect-timeout": (E.ConnectTimeout("x"), True),
        "read-timeout": (E.ReadTimeout("x"), True),
        "proxy": (E.ProxyError("x"), True),
        "ssl": (E.SSLError("x"), True),
        # anything else
        "redirects": (E.TooManyRedirects("x"), False),
        "url": (E.InvalidURL("x"), False),
        "chunk": (E.ChunkedEncodingError("x"), False),
        "os": (OSError("x"), False),
        "value": (ValueError("x"), False),
        "unicode": (UnicodeEncodeError("latin-1", "x", 0, 1, "x"), False),
        "runtime": (RuntimeError("x"), False),
    }


def network(env, answer):
    """replaces the network; answer(url) gives a reply or an exception"""
    import requests

    m = env.mod("spey.system.webutils")
    asked, log = [], Logger()

    class Net:
        exceptions = requests.exceptions
        ConnectionError, ConnectTimeout, RequestException, Timeout, ReadTimeout, HTTPError = requests.ConnectionError, requests.ConnectTimeout, requests.RequestException, requests.Timeout, requests.ReadTimeout, requests.HTTPError

        def get(self, url, **kw):
            asked.append((url, kw))
            r = answer(url)
            if isinstance(r, BaseException):
                raise r
            return r

        def request(self, method, url, **kw):
            env.check("method", method.upper() == "GET")
            return self.get(url, **kw)

    net = Net()
    swap_names(env, m, {requests: net, requests.get: net.get, m.__dict__["log"]: log})
    return m, asked, log


def h_get(env):
    """one look-up: any status code, any failure"""
    home = env.choice("home", sorted(WHERE))
    ident = env.choice("identifier", ["1809.05548", "10.1007/JHEP04(2019)064", "physics/0406120", "10.1/a%20b"])
    kind = env.choice("kind", ["reply", "empty-reply", "broken"] + sorted(errors()))
    code = 200
    if kind == "reply":
        code = env.count("status", hi=599)
        env.assume(code >= 100)
    text = "" if kind == "empty-reply" else RECORD % "key"
    err = errors().get(kind)
    m, asked, _ = network(env, lambda u: err[0] if err else BrokenReply(200, text) if kind == "broken" else Reply(code, text))
    wait = env.choice("timeout", [None, 1, 7])
    try:
        out = m.get_bibtex(home, ident) if wait is None else m.get_bibtex(home, ident, timeout=wait)
    except m.ConnectionError:
        env.check("only-without-connection", err is not None and err[1], "no-connection error for %s" % kind)
        return
    except Exception as e:  # noqa: BLE001
        env.fail("never-anything-else", "%s: %s" % (type(e).__name__, e))
        return
    env.check("connection-failure-reported", not (err and err[1]), "connection failure hidden: %s" % kind)
    env.check("one-request", len(asked) == 1 and asked[0][0] == WHERE[home] % ident, "asked %s" % [a for a, _ in asked])
    kw = asked[0][1]
    env.check("bibtex-requested", {k.lower(): v for k, v in (kw.get("headers") or {}).items()}.get("accept") == "application/x-bibtex")
    env.check("bounded-wait", kw.get("timeout") == (5 if wait is None else wait))
    if kind == "reply":
        if out == "":
            env.check("found-is-returned", env.Or(code < 200, code > 299), "a successful reply was dropped")
        else:
            env.check("error-page-not-returned", env.And(code >= 200, code <= 299), "error page returned as record")
            env.check("text", out == text, "record changed: %r" % out)
    else:
        env.check("empty", out == "")


OUT = ["found", "missing", "offline", "failed"]


def outcome(env, name, kind, text):
    import requests

    if kind == "found":
        return Reply(200, text)
    if kind == "missing":
        return Reply(404, "not found")
    return requests.ConnectionError("x") if kind == "offline" else RuntimeError("x")


def h_backend(env, narxiv, ndoi, nzen):
    """a backend's references, every service answering as it likes"""
    spey = env.mod("spey")
    name = fresh()
    cls = backend(env, name)[0]
    cls.name, cls.spey_requires = name, ">=0.0.1"
    ids = {"arXiv": ["2001.0000%d" % i for i in range(narxiv)], "doi": ["10.1/d%d" % i for i in range(ndoi)], "zenodo": ["77%d" % i for i in range(nzen)]}
    for k, v in ids.items():
        if v or env.choice("declared-" + k, [False, True]):
            setattr(cls, k, tuple(v) if k == "doi" else v)
    plan = []
    for i in ids["arXiv"]:
        plan.append(("inspire/arxiv", i))
    for i in ids["doi"]:
        plan += [("inspire/doi", i), ("doi", i)]
    for i in ids["zenodo"]:
        plan.append(("zenodo", i))
    kinds = {k: None for k in plan}

    def answer(url):
        for h, i in plan:
            if url == WHERE[h] % i:
                if kinds[h, i] is None:
                    kinds[h, i] = env.choice("%s_%s" % (h, i), OUT)
                return outcome(env, url, kinds[h, i], RECORD % (h + i))
        env.fail("asked-only-own-identifiers", url)
        raise RuntimeError(url)

    _, asked, _ = network(env, answer)
    log = Logger()
    swap_names(env, spey, {spey.__dict__["log"]: log})
    spey.register_backend(cls)
    try:
        try:
            out = spey.get_backend_bibtex(name)
        except Exception as e:  # noqa: BLE001
            env.fail("never-raises", "%s: %s" % (type(e).__name__, e))
            return
    finally:
        spey._backend_entries.pop(name, None)
    env.check("sections", sorted(out) == ["doi.org", "inspire", "zenodo"] and all(isinstance(v, list) for v in out.values()))
    offline = any(v == "offline" for v in kinds.values())
    want = {"inspire": [], "doi.org": [], "zenodo": []}
    for h, i in plan:
        if h == "doi" and kinds["inspire/doi", i] in ("found", "offline", None):
            env.check("doi.org-only-as-fallback", kinds[h, i] is None, "doi.org asked although inspire answered")
        if kinds[h, i] == "found":
            want["doi.org" if h == "doi" else h.split("/")[0]].append(RECORD % (h + i))
        if not offline and not (h == "doi" and kinds["inspire/doi", i] == "found"):
            env.check("everything-looked-up", kinds[h, i] is not None, "%s %s never looked up" % (h, i))
    got = {k: [textwrap.dedent(t).strip() for t in v] for k, v in out.items()}
    env.check("each-record-once", len(asked) == len(set(u for u, _ in asked)), "asked twice")
    for k in want:
        w = [t.strip() for t in want[k]]
        env.check("records-" + k.replace(".", "_"), got[k] == w, "%s: %s instead of %s" % (k, got[k], w))
    said = [lv for lv, _ in log.messages if lv == "error"]
    env.check("offline-reported", bool(said) == offline, "connection failure %sreported" % ("not " if offline else ""))


def h_none(env):
    """unknown names are refused; a backend without references has none and nothing is asked"""
    spey = env.mod("spey")
    _, asked, _ = network(env, lambda u: RuntimeError("x"))
    X = env.mod("spey.system.exceptions")
    env.raises("unknown-backend", X.PluginError, lambda: spey.get_backend_bibtex("verif.nothing"))
    name = fresh()
    cls = backend(env, name)[0]
    cls.name, cls.spey_requires = name, ">=0.0.1"
    if env.choice("empty", [False, True]):
        cls.arXiv = cls.doi = cls.zenodo = []
    spey.register_backend(cls)
    try:
        out = spey.get_backend_bibtex(name)
    finally:
        spey._backend_entries.pop(name, None)
    env.check("nothing", out == {"inspire": [], "doi.org": [], "zenodo": []} and not asked)
    again = spey.get_backend_bibtex("default.poisson")
    env.check("not-shared", again is not out)


def h_builtin(env):
    """the references declared by the built-in models are the ones looked up"""
    spey = env.mod("spey")
    name = env.choice("name", ["default.third_moment_expansion", "default.effective_sigma", "default.poisson"])
    _, asked, _ = network(env, lambda u: Reply(200, RECORD % "k"))
    out = spey.get_backend_bibtex(name)
    meta = spey.get_backend_metadata(name)
    want = [WHERE["inspire/arxiv"] % i for i in meta["arXiv"]] + [WHERE["inspire/doi"] % i for i in meta["doi"]] + [WHERE["zenodo"] % i for i in meta["zenodo"]]
    env.check("asked", sorted(u for u, _ in asked) == sorted(want))
    env.check("count", len(out["inspire"]) == len(meta["arXiv"]) + len(meta["doi"]) and not out["doi.org"])


def h_cite(env):
    """the citation of the package itself"""
    spey = env.mod("spey")
    software = "@software{araz_%s,\n  title={SpeysideHEP/spey},\n  year={2023}\n}\n"
    kinds = {}
    texts = {"arxiv": RECORD % "Araz:2023bwx", "records": software % "2023" if env.choice("keyed", [True, False]) else "@misc{x}"}

    def answer(url):
        for k in texts:
            if k in url:
                if k not in kinds:
                    kinds[k] = env.choice(k, OUT)
                return outcome(env, url, kinds[k], texts[k])
        env.fail("asked-elsewhere", url)
        raise RuntimeError(url)

    _, asked, _ = network(env, answer)
    log = Logger()
    swap_names(env, spey, {spey.__dict__["log"]: log})
    try:
        out = spey.cite()
    except Exception as e:  # noqa: BLE001
        env.fail("never-raises", "%s: %s" % (type(e).__name__, e))
        return
    if "offline" in kinds.values():
        env.check("empty-when-offline", not out, "%r" % (out,))
        env.check("reported", any(lv == "error" for lv, _ in log.messages))
        return
    env.check("asked", sorted(u for u, _ in asked) == [WHERE["inspire/arxiv"] % "2307.06996", WHERE["zenodo"] % "10156353"])
    env.check("text", isinstance(out, str))
    want = [texts["arxiv"].strip()] if kinds["arxiv"] == "found" else []
    if kinds["records"] == "found":
        want.append(texts["records"].replace("araz_2023", "spey_zenodo").strip())
    env.check("records", out.strip() == "\n\n\n".join(want) or [t for t in out.strip().split("\n\n") if t.strip()] == want or out.split() == " ".join(want).split(), "%r" % out)


def harnesses(tier):
    hs = [
        Harness("get", h_get, "4 services, 4 identifiers, any status code 100-599, 14 other outcomes", stubs="network, logger", max_paths=20000),
        Harness("none", h_none, "backends without references, unknown names", stubs="network"),
        Harness("builtin", h_builtin, "three built-in models", stubs="network"),
        Harness("cite", h_cite, "all outcomes of both look-ups", stubs="network, logger"),
    ]
    sizes = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1), (0, 2, 0), (2, 0, 1)]
    if tier == "thorough":
        sizes += [(2, 2, 1), (1, 2, 2)]
    for a, d, z in sizes:
        hs.append(Harness("backend-%d%d%d" % (a, d, z), h_backend, "%d arXiv, %d DOI, %d Zenodo identifiers, every look-up found, missing, failed or without connection" % (a, d, z), stubs="network, logger", narxiv=a, ndoi=d, nzen=z, max_paths=20000))
    return hs
