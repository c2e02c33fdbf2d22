"""The scraper against a simulated network and disk (C08)."""
import http
import os
import runpy
import sys
import tempfile
import traceback
import types
import urllib.parse

from dst.core import REPO, Prop, Violation, require
from dst.simfs import REAL, SimCrash, SimFS, Stuck, rmtree

SCRIPT = os.path.join(REPO, "MahjongAI", "data", "scrape_data.py")
OUT = "processed/2021"


def classify(rel):
    if rel.startswith("processed"):
        return "out" if rel.count(os.sep) >= 2 else "dir"
    return "net" if rel == "net" else "page" if rel.startswith("raw") else "other"


class Hang(BaseException):
    """A request without a timeout that is never answered."""


class Net:
    """The archive server and the network in front of it."""

    def __init__(self, fs, games, plan, stats):
        self.fs, self.games, self.stats = fs, games, stats
        self.plan = plan            # request number -> fault
        self.n = 0
        self.requested = set()
        self.delivered = {}         # gid -> bodies of complete successful responses of this process
        self.bodies = {}            # gid -> all of them, ever
        self.failed = set()

    def begin(self, plan):
        self.plan, self.n = plan, 0
        self.requested, self.delivered, self.failed = set(), {}, set()
        self.marks = []             # (storage faults so far, game requested then)

    def struck(self):
        """The games storage faults struck: the one named by the file, else the one requested last."""
        res = set()
        for i, (_, _, path) in enumerate(self.fs.hits):
            named = {g for g in self.games if g in os.path.basename(path)}
            res |= named or set([g for n, g in self.marks if n <= i][-1:])
        return res

    def module(self):
        m = types.ModuleType("requests")
        e = types.ModuleType("requests.exceptions")

        class RequestException(IOError):
            def __init__(self, *a, **kw):
                self.response, self.request = kw.pop("response", None), kw.pop("request", None)
                super().__init__(*a)

        class HTTPError(RequestException):
            pass

        class ConnectionError(RequestException):
            pass

        class Timeout(RequestException):
            pass

        class ConnectTimeout(ConnectionError, Timeout):
            pass

        class ReadTimeout(Timeout):
            pass

        class ChunkedEncodingError(RequestException):
            pass

        class ContentDecodingError(RequestException):
            pass

        class TooManyRedirects(RequestException):
            pass

        class SSLError(ConnectionError):
            pass

        for c in (RequestException, HTTPError, ConnectionError, Timeout, ConnectTimeout, ReadTimeout,
                  ChunkedEncodingError, ContentDecodingError, TooManyRedirects, SSLError):
            setattr(e, c.__name__, c)
            setattr(m, c.__name__, c)
        net = self

        class Response:
            def __init__(self, status, body, breaks_at, gid):
                self.status_code, self._body, self._breaks, self._gid = status, body, breaks_at, gid
                self.headers = {"Content-Length": str(len(body)), "Content-Type": "text/plain"}
                self.encoding, self.reason, self.url = "utf-8", str(status), None
                self._done = False

            ok = property(lambda s: s.status_code < 400)

            def _finish(self):
                if self.status_code == 200 and self._gid and not self._done:
                    net.delivered.setdefault(self._gid, []).append(self._body)
                    net.bodies.setdefault(self._gid, []).append(self._body)
                self._done = True

            def iter_content(self, chunk_size=1, decode_unicode=False):
                body = self._body if self._breaks is None else self._body[:self._breaks]
                size = chunk_size or len(body) or 1
                for i in range(0, len(body), size):
                    net.fs.tick()
                    yield body[i:i + size]
                if self._breaks is not None:
                    net.failed.add(self._gid)
                    raise ChunkedEncodingError("connection broken: incomplete read (simulated)")
                self._finish()

            def iter_lines(self, *a, **kw):
                return iter(self.content.splitlines())

            @property
            def content(self):
                return b"".join(self.iter_content(1 << 20))

            @property
            def text(self):
                return self.content.decode("utf-8", "replace")

            def raise_for_status(self):
                if self.status_code >= 400:
                    raise HTTPError(f"{self.status_code} (simulated)", response=self)

            def close(self):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def __bool__(self):
                return self.ok

        def get(url, params=None, headers=None, timeout=None, stream=False, **kw):
            fs = net.fs
            if params:
                url += ("&" if "?" in url else "?") + (params if isinstance(params, str) else
                                                       urllib.parse.urlencode(params).rstrip("="))
            f = fs.step("net", os.path.join(fs.root, "net"))
            fs.strike(f, "net", ())
            gid = next((x for x in net.games if url.split("?")[-1] == x and "/0/log/" in url), None)
            if gid is not None:
                net.requested.add(gid)
                net.marks.append((len(fs.hits), gid))
            fault = net.plan.get(str(net.n))
            net.n += 1
            if gid is None:
                return Response(404, b"not found", None, None)
            k = fault and fault["kind"]
            if k in ("refused", "dns", "ssl", "timeout", "stall", "broken", "redirects"):
                net.failed.add(gid)
                net.stats.fault("net-" + k)
            if k in ("refused", "dns"):
                fs.tick(1)
                raise ConnectionError(f"{k} (simulated)")
            if k == "ssl":
                raise SSLError("handshake failed (simulated)")
            if k == "redirects":
                raise TooManyRedirects("(simulated)")
            if k == "timeout":
                fs.tick(75)
                raise ConnectTimeout("no route (simulated)")
            if k == "stall":
                if timeout is None:
                    raise Hang()
                if not isinstance(timeout, (int, float)):
                    timeout = timeout[1]
                    if timeout is None:
                        raise Hang()
                fs.tick(timeout)
                raise ReadTimeout("no answer (simulated)")
            if k == "status":
                net.failed.add(gid)
                net.stats.fault(f"net-status-{fault['status']}")
                return Response(fault["status"], b"<html>sorry</html>", None, gid)
            v = len(net.bodies.get(gid, ()))
            body = f'<mjloggm ver="2.3" id="{gid}" answer="{v}">'.encode() + bytes(
                (i * 7 + v + len(gid)) % 251 for i in range(net.games[gid])) + b"</mjloggm>"
            r = Response(200, body, int(fault["x"] * len(body)) if k == "broken" else None, gid)
            fs.tick()
            if not stream:
                r.content            # requests reads the body before it returns
                if k != "broken":
                    r._done = True
            return r

        class Session:
            def __init__(self):
                self.headers = {}

            def get(self, *a, **kw):
                return get(*a, **kw)

            def mount(self, *a):
                pass

            def close(self):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

        def request(method, url, **kw):
            return get(url, **kw)

        class HTTPAdapter:
            def __init__(self, *a, **kw):
                pass
        Session.request = staticmethod(request)
        m.get, m.Session, m.session, m.request, m.exceptions, m.Response = get, Session, Session, request, e, Response
        m.codes = types.SimpleNamespace(**{x.name.lower(): x.value for x in http.HTTPStatus})
        others = {}
        for name, members in {"adapters": {"HTTPAdapter": HTTPAdapter}, "sessions": {"Session": Session},
                              "models": {"Response": Response}, "api": {"get": get, "request": request},
                              "status_codes": {"codes": m.codes}}.items():
            others["requests." + name] = types.ModuleType("requests." + name)
            others["requests." + name].__dict__.update(members)
            setattr(m, name, others["requests." + name])
        return {"requests": m, "requests.exceptions": e, **others}


OTHER_LINKS = ["http://tenhou.net/3/?log=%s", "https://example.org/?x=%s", "mailto:%s", "/2009/?%s",
               "http://tenhou.net/ranking.html?%s"]


def page(rng, gids):
    lines = ["<html><head><meta charset='utf-8'><title>天鳳</title></head><body>"]
    for gid in gids:
        url = f"http://tenhou.net/0/?log={gid}"
        q = rng.choice("\"\"'")
        lines.append(rng.choice(["", "00:04 | 28 | 四鳳南喰赤－ | "])
                     + rng.choice([f"<a href={q}{url}{q}>牌譜</a>", f"<a class='x' href={q}{url}{q} target='_blank'>log</a>",
                                   f"<a href={q}{url}{q}><b>牌譜</b></a> | A(+50.0) B(-1)<br>"]))
        if rng.random() < 0.3:
            lines.append("<a href='%s'>x</a>" % (rng.choice(OTHER_LINKS) % gid[::-1]))
    sep = rng.choice(["\n", "\n", ""])
    return sep.join(lines + ["</body></html>"])


class C08(Prop):
    id = "C08"
    level = "fault_enumeration"
    runs = {"quick": 14000, "thorough": 400000}
    rule = ("one case is one sequence of scraper runs over simulated archive pages with network faults, disk faults, "
            "kills and power losses, the last run being free of faults; counted per distinct (pages, network faults, "
            "storage faults that struck, ends)")
    measure = "distinct (games per page, faults that struck with their operation, ends of the runs)"
    components = {"real": ["scrape_data.py as a program"],
                  "stub": ["requests (not installed here) and the archive server: simulated network",
                           "storage calls, directory order, clock: simulated machine over a scratch directory"]}
    assumptions = ["requests raises only its documented exceptions, all of them OSErrors, and delivers a body only whole",
                   "a power loss may lose a name change that was not yet committed; the log then counts as not stored"]
    required_probes = ("net-refused", "net-timeout", "net-stall", "net-broken", "net-status-404", "net-status-503",
                       "kill", "power", "ENOSPC", "EIO", "partial-write", "short-write", "torn-write", "overwritten",
                       "same-game-on-two-pages", "failed-then-stored")

    def generate(self, rng, tier, index):
        games = {}
        for _ in range(rng.choice([1, 2, 3, 5, 9])):
            gid = f"2021{rng.randrange(1, 13):02}{rng.randrange(1, 29):02}{rng.randrange(24):02}gm-00a9-0000-{rng.getrandbits(32):08x}"
            games[gid] = rng.choice([0, 100, 3000, 9000, 20000])
        ids = list(games)
        pages = {}
        for i in range(rng.choice([0, 1, 1, 2, 3])):
            name = f"scc202101{i:02}.html" if rng.random() < 0.8 else rng.choice(["a b.html", f"日{i}.html", f".x{i}.html"])
            pages[name] = page(rng, [rng.choice(ids) for _ in range(rng.randrange(0, 7))])
        if rng.random() < 0.3:
            pages[rng.choice(["scc20210101.html.gz", "readme.txt", "scc.htm"])] = page(rng, ids[:1])
        runs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            net = {}
            for _ in range(rng.choice([0, 0, 1, 1, 2, 4])):
                k = rng.choice(["refused", "dns", "ssl", "timeout", "stall", "broken", "redirects", "status", "status"])
                net[str(rng.randrange(rng.choice([1, 3, 10])))] = {
                    "kind": k, "x": round(rng.random(), 3), "status": rng.choice([404, 403, 429, 500, 503, 204, 302])}
            faults = []
            for _ in range(rng.choice([0, 0, 1, 1, 2])):
                kind = rng.choice(["kill", "kill", "power", "ENOSPC", "ENOSPC", "EIO", "short"])
                if kind in ("kill", "power") and rng.random() < 0.2:
                    f = {"cls": rng.choice(["net", "*"]), "op": "*", "n": rng.randrange(rng.choice([4, 20, 50]))}
                else:
                    op = rng.choice(["open_w", "write", "write", "fsync", "replace", "*"])
                    if kind == "short":
                        op = "write"
                    f = {"cls": "out", "op": op, "n": rng.randrange(rng.choice([1, 3, 8]))}
                runs_len = rng.choice([1, 1, 2, 10 ** 6]) if kind in ("ENOSPC", "EIO") else 1
                faults.append(dict(f, kind=kind, x=round(rng.random(), 3), len=runs_len))
            runs.append({"net": net, "faults": faults, "then": rng.choice([None, None, None, "power"])})
        runs.append({"net": {}, "faults": [], "then": None})
        return {"games": games, "pages": pages, "runs": runs, "fs": rng.getrandbits(30)}

    def run(self, plan, stats):
        root = tempfile.mkdtemp(prefix="dst-")
        try:
            self.simulate(plan, stats, root)
        finally:
            rmtree(root)

    def simulate(self, plan, stats, root):
        for d in ("raw/2021", OUT):
            os.makedirs(os.path.join(root, d))
        linked = {}
        for name, text in plan["pages"].items():
            with REAL.open(os.path.join(root, "raw/2021", name), "w", encoding="utf-8") as f:
                f.write(text)
            if name.endswith(".html"):
                for g in plan["games"]:
                    if f"http://tenhou.net/0/?log={g}" in text:
                        linked.setdefault(g, []).append(name)
        if any(len(v) > 1 for v in linked.values()):
            stats.probe("same-game-on-two-pages")
        fs = SimFS(root, plan["fs"], classify, stats, step_limit=20000)
        fs.adopt()
        net = Net(fs, plan["games"], {}, stats)
        ends, ever_failed = [], set()
        self.safe = set()
        for i, spec in enumerate(plan["runs"]):
            before = self.stored(fs, plan)
            net.begin(spec["net"])
            end, error = self.start(fs, net, spec)
            what = f"run {i} ({end}, network {spec['net']}, disk {fs.hits})"
            power = fs.power_lost or spec["then"] == "power"
            if power:
                if not fs.power_lost:
                    stats.fault("power-after-run")
                fs.recover()
            after = self.stored(fs, plan)
            for gid, data in after.items():
                require(data in net.bodies.get(gid, ()), "not-a-whole-log",
                        lambda: f"{what}: {gid}.log holds {len(data)} bytes, none of the "
                                f"{len(net.bodies.get(gid, ()))} successful responses")
                if gid in before and before[gid] != data:
                    stats.probe("overwritten")
            lost = [g for g in before if g not in after]
            require(not lost or power and not set(lost) & self.safe, "stored-log-lost", lambda: f"{what}: {lost}")
            if power:
                self.safe = set(after)      # survived a power loss: certainly on disk
            require(end != "hang", "hangs", lambda: f"{what}: waits for an answer that never comes")
            require(end not in ("stuck",), "no-progress", lambda: f"{what}: {error}")
            if end in ("error",):
                raise Violation("run-ended", f"{what}: {error}")
            if end == "ok":
                for g in linked:
                    require(g in net.requested or g in before, "not-requested",
                            lambda: f"{what}: linked game {g} was not requested")
                    if g in net.delivered and g not in net.struck() and not power:
                        require(g in after, "downloaded-but-not-stored", lambda: f"{what}: {g}")
                    if g in after and g in ever_failed:
                        stats.probe("failed-then-stored")
                if not spec["net"] and not fs.hits and not power:
                    require(set(linked) <= set(after), "not-stored",
                            lambda: f"{what}: without faults, {sorted(set(linked) - set(after))} is not stored")
            extra = set(net.requested) - set(linked)
            require(not extra, "requested-unlinked", lambda: f"{what}: {extra}")
            ever_failed |= net.failed
            ends.append((end, sorted({h[:2] for h in fs.hits}), sorted((n, f["kind"]) for n, f in spec["net"].items())))
        stats.sig((sorted(map(len, linked.values())), len(plan["pages"]), ends))

    def stored(self, fs, plan):
        out = {}
        d = os.path.join(fs.root, OUT)
        for g in plan["games"]:
            p = os.path.join(d, g + ".log")
            if os.path.isfile(p):
                with REAL.open(p, "rb") as f:
                    out[g] = f.read()
        return out

    def start(self, fs, net, spec):
        modules = net.module()
        saved = {n: sys.modules.get(n) for n in modules}
        path0 = list(sys.path)
        try:
            sys.modules.update(modules)
            with fs.process(spec["faults"], ["scrape_data.py"]):
                runpy.run_path(SCRIPT, run_name="__main__")
            return "ok", None
        except SimCrash:
            return ("power" if fs.power_lost else "kill"), None
        except Hang:
            return "hang", None
        except Stuck:
            return "stuck", "no end after many operations"
        except (Exception, SystemExit) as e:  # noqa: BLE001
            tb = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(REPO + os.sep)]
            if not tb:
                raise
            return "error", f"{type(e).__name__}: {e} at {os.path.basename(tb[-1].filename)}:{tb[-1].lineno}"
        finally:
            sys.path[:] = path0
            for n, m in saved.items():
                if m is None:
                    sys.modules.pop(n, None)
                else:
                    sys.modules[n] = m

    def shrink(self, plan):
        runs = plan["runs"]
        for i in range(len(runs)):
            if len(runs) > 1:
                yield dict(plan, runs=runs[:i] + runs[i + 1:])
        for i, r in enumerate(runs):
            def with_(**kw):
                return dict(plan, runs=runs[:i] + [dict(r, **kw)] + runs[i + 1:])
            for j in range(len(r["faults"])):
                yield with_(faults=r["faults"][:j] + r["faults"][j + 1:])
            for k in r["net"]:
                yield with_(net={a: b for a, b in r["net"].items() if a != k})
            if r["then"]:
                yield with_(then=None)
            for j, f in enumerate(r["faults"]):
                if f["n"]:
                    yield with_(faults=r["faults"][:j] + [dict(f, n=f["n"] // 2)] + r["faults"][j + 1:])
        for name in plan["pages"]:
            yield dict(plan, pages={a: b for a, b in plan["pages"].items() if a != name})
        for g in plan["games"]:
            yield dict(plan, games={a: b for a, b in plan["games"].items() if a != g})

    def describe(self, plan, stats):
        return (f"{len(plan['games'])} games, pages {list(plan['pages'])}, runs {plan['runs']}")[:900]
