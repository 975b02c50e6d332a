import asyncio
import copy
import json
import os
import re
import shutil
import sys
import tempfile
import types
from pathlib import Path
from urllib.parse import quote, urlencode

import reactpy
import reactpy.utils as RU
from reactpy import component, html, use_connection, use_location, use_scope
from reactpy.executors.asgi.middleware import ReactPyMiddleware
from reactpy.executors.asgi.standalone import ReactPy

import asgi as A
import world as W  # noqa: F401
from lib import Sub, Violation

PROPERTY = "C15"
ASSUMPTIONS = ["a request path reaches the application decoded, as ASGI servers pass it; static files are checked for GET and HEAD without conditional, range or encoding headers",
               "file serving itself is done by servestatic (third party); no compressed variants, and it does not find files with names or prefixes that are not ASCII or hold a backslash"]

PKG = Path(reactpy.__file__).parent
STATIC = PKG / "static"
SECRET = b"TOP-SECRET-CONTENT"
SEEN = []
CUR = {}


def make_mod():
    m = types.ModuleType("verif_c15_mod")

    def mk(name):
        @component
        def Root():
            SEEN.append({"name": name, "location": use_location(), "scope": use_scope(), "connection": use_connection()})
            return html.div("I am " + name)
        return Root
    for n in ("a", "b", "hidden", "_private", "a2"):
        setattr(m, n, mk(n))
    sys.modules["verif_c15_mod"] = m
    return m


MOD = make_mod()
NAMES = ["verif_c15_mod.a", "verif_c15_mod.b", "verif_c15_mod.a2"]
PREFIXES = ["/reactpy/", "/", "/a.b/", "/a+b/", "/x/y/z/", "/(p)/", "/[q]/", "/a|b/", "/$/", "/reactpy/static/", "/r e/", "/é/", "/a*/", "/^/", "/x{2}/", "/\\d/"]


def tree(root: Path, files):
    for rel, content in files.items():
        p = root / rel
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_bytes(content)


BASE = None


def base():
    """modules/ (served), beside it secrets; made once per process"""
    global BASE
    if BASE is None or not BASE.exists():
        BASE = Path(tempfile.mkdtemp(prefix="verif-c15-"))
        import atexit
        atexit.register(shutil.rmtree, str(BASE), True)
        tree(BASE, {"modules/m.js": b"export let m", "modules/sub/n.js": b"export let n", "modules/sub/deep/o.txt": b"deep", "modules/with space.js": b"space", "modules/\u00e9.js": b"accent",
                    "modules/.hidden.js": b"hid", "modules/a%2e.js": b"pct", "modules/..dots.js": b"dots", "modules/empty.js": b"", "modules/big.js": b"x" * 200_000,
                    "secret.txt": SECRET, "modules2/secret.js": SECRET, "modules-secret/s.js": SECRET, "other/sub/s.js": SECRET})
        os.symlink(BASE / "secret.txt", BASE / "modules" / "link.js")
        os.symlink(BASE / "other", BASE / "modules" / "linkdir")
        os.symlink(BASE / "modules" / "m.js", BASE / "modules" / "inner.js")
    return BASE


def served(directory: Path, rel: str):
    """The content that a canonical relative path names inside the directory, or None; 'unclear' for symlinks."""
    if "\x00" in rel or "\\" in rel or rel.startswith("/") or rel == "" or rel.endswith("/"):
        return None
    parts = rel.split("/")
    if any(p in ("", ".", "..") for p in parts):
        return None
    try:
        raw = rel.encode()
    except UnicodeEncodeError:
        return None
    if max(len(x) for x in raw.split(b"/")) > 250:
        return None
    p = directory / rel
    q = directory
    for x in parts:
        q = q / x
        if q.is_symlink():
            return "unclear"
    if not p.is_file():
        return None
    return p.read_bytes()


class Inner:
    """The wrapped application."""

    def __init__(self):
        self.calls = []

    async def __call__(self, scope, receive, send):
        self.calls.append((scope, receive, send))
        if scope["type"] == "http":
            await send({"type": "http.response.start", "status": 299, "headers": []})
            await send({"type": "http.response.body", "body": b"inner"})
        elif scope["type"] == "websocket":
            await receive()
            await send({"type": "websocket.close", "code": 4001})


IMPORTS = []
_real_import = RU.import_module


def _spy(name, *a, **k):
    IMPORTS.append(name)
    return _real_import(name, *a, **k)


async def websocket(app, scope):
    """Connects and waits for what the application does; returns the messages it sent."""
    out = []
    inq = asyncio.Queue()
    inq.put_nowait({"type": "websocket.connect"})
    woke = asyncio.Event()
    others = asyncio.all_tasks()

    async def send(m):
        out.append(m)
        if m["type"] in ("websocket.send", "websocket.close"):
            woke.set()
    task = asyncio.ensure_future(app(scope, inq.get, send))
    task.add_done_callback(lambda _: woke.set())
    rest = 0
    for i in range(300):
        if woke.is_set():
            break
        # nothing but the application's own task is left: nothing more will come
        rest = 0 if asyncio.all_tasks() - others - {task} else rest + 1
        if rest > 6:
            break
        await asyncio.sleep(0 if i < 100 else 0.005)
    inq.put_nowait({"type": "websocket.disconnect", "code": 1001})
    await asyncio.wait([task], timeout=5)
    if not task.done():
        raise Violation(f"the connection to {scope['path']!r} did not end after the client disconnected") from None
    return out, task.exception()


def run(case, rec):
    with A.config_restored():
        RU.import_module = _spy
        try:
            _run(case, rec)
        finally:
            RU.import_module = _real_import


def routes(case):
    return case.get("routes", ())


def _run(case, rec):
    b = base()
    prefix = case["prefix"]
    inner = Inner()
    registered = case["registered"]
    settings = {"web_modules_dir": b / "modules"}
    if not case.get("default_prefix"):
        settings["path_prefix"] = prefix
    else:
        prefix = "/reactpy/"
    extra = {}
    if case["kind"] == "middleware":
        app = ReactPyMiddleware(inner, registered, **settings)
    else:
        app = ReactPy(MOD.a, **settings)

        for typ, route, full in routes(case):
            x = Inner()
            extra[(typ, full)] = x
            app.route(route, type=typ)(x)
    for n, req in enumerate(case["requests"]):
        one(case, app, prefix, inner, extra, registered, b, n, req, rec)


def one(case, app, prefix, inner, extra, registered, b, n, req, rec):
    path = req["path"].replace("{P}", prefix)
    if not path.startswith("/"):
        path = "/" + path
    what = f"{req['type']} {req.get('method', '')} {path!r} (prefix {prefix!r}, {case['kind']})"
    del inner.calls[:]
    for x in extra.values():
        del x.calls[:]
    del SEEN[:]
    del IMPORTS[:]
    own = [x for (t, full), x in extra.items() if t == req["type"] and re.fullmatch(full, path)]
    if req["type"] == "http":
        scope = A.http_scope(path, req["method"], [(k.encode(), v.encode()) for k, v in req["headers"]])
        before = copy.deepcopy(scope)
        r = A.go(A.request(app, scope))
        if r.bad:
            raise Violation(f"{what}: {r.bad}")
        if SECRET in r.body:
            raise Violation(f"{what}: a file outside the served directories was sent")
        mine = None
        for pre, d in ((prefix + "static/", STATIC), (prefix + "modules/", b / "modules")):
            if path.startswith(pre):
                mine = served(d, path[len(pre):])
                if mine is None:
                    mine = 404
                break
        if mine is not None:
            rec.tag("http:file" if mine != 404 else "http:missing")
            if inner.calls or any(x.calls for x in extra.values()):
                raise Violation(f"{what}: was passed to another application")
            if mine == "unclear":
                return
            if r.status == 404 and mine != 404 and ("\\" in path or not path.isascii()):
                return          # servestatic does not serve these
            if mine == 404:
                if r.status != 404:
                    raise Violation(f"{what}: answered with {r.status} instead of 404")
            elif req["method"] in ("GET", "HEAD"):
                want = mine if req["method"] == "GET" else b""
                if r.status != 200 or r.body != want:
                    raise Violation(f"{what}: answered with {r.status} and {r.body[:80]!r} ({len(r.body)} bytes) instead of the file of {len(mine)} bytes")
            return
        if case["kind"] == "middleware":
            target = inner
        elif own:
            target = own[0]
        else:
            if any(x.calls for x in extra.values()):
                raise Violation(f"{what}: went to a route that does not match")
            if r.status != 200 or (req["method"] == "GET" and b"mountReactPy" not in r.body):
                raise Violation(f"{what}: the page was not served, status {r.status}")
            rec.tag("http:page")
            return
        rec.tag("http:passed")
        if len(target.calls) != 1:
            raise Violation(f"{what}: not passed to the application that serves it, answered with {r.status}")
        check_passed(what, target.calls[0], scope, before, (r.receive, r.sender))
        return
    if req["type"] == "lifespan":
        if case["kind"] == "middleware":
            scope = {"type": "lifespan", "asgi": {"version": "3.0"}}
            before = copy.deepcopy(scope)

            async def receive():
                return {"type": "lifespan.startup"}

            async def send(m):
                pass
            A.go(app(scope, receive, send))
            if len(inner.calls) != 1:
                raise Violation(f"{what}: not passed to the wrapped application")
            check_passed(what, inner.calls[0], scope, before, (receive, send))
        return
    # websocket
    qs = urlencode([("path", req["loc"]["path"]), *([("qs", req["loc"]["qs"])] if req["loc"]["qs"] is not None else [])], quote_via=quote if req.get("pct") else __import__("urllib.parse").parse.quote_plus)
    scope = A.ws_scope(path, qs.encode(), [(b"cookie", b"c=1")])
    before = copy.deepcopy(scope)
    out, err = A.go(websocket(app, scope))
    name = None
    if case["kind"] == "middleware":
        rest = path[len(prefix):] if path.startswith(prefix) else ""
        if re.fullmatch(r"[a-zA-Z0-9_.]+/", rest):
            name = rest[:-1]
        dispatched = name is not None
        ok = name in registered
    else:
        dispatched = ok = path == prefix
        name = "verif_c15_mod.a"
    frames = [json.loads(m["text"]) for m in out if m["type"] == "websocket.send"]
    if not dispatched:
        target = inner if case["kind"] == "middleware" else own[0] if own else None
        if SEEN or frames:
            raise Violation(f"{what}: a component was started")
        if target is not None:
            if err:
                raise err
            if len(target.calls) != 1:
                raise Violation(f"{what}: not passed to the application that serves it")
            if target.calls[0][0] is not scope or scope != before:
                raise Violation(f"{what}: passed on with a different scope")
            rec.tag("ws:passed")
        return
    if err:
        raise err
    if inner.calls or any(x.calls for x in extra.values()):
        raise Violation(f"{what}: was passed to another application")
    if IMPORTS:
        raise Violation(f"{what}: the request made ReactPy import {IMPORTS}")
    if not ok:
        rec.tag("ws:unregistered")
        if SEEN or frames:
            raise Violation(f"{what}: {name} is not registered but was started: {frames}")
        return
    rec.tag("ws:component")
    if not frames or not SEEN:
        raise Violation(f"{what}: no update was sent for the registered component; sent {out}")
    if f"I am {name.rsplit('.', 1)[1]}" not in json.dumps(frames[0]) or {s["name"] for s in SEEN} != {name.rsplit(".", 1)[1]}:
        raise Violation(f"{what}: another component was started: {frames[0]}")
    s = SEEN[0]
    want = (req["loc"]["path"], req["loc"]["qs"] or "")
    if (s["location"].path, s["location"].query_string) != want:
        raise Violation(f"{what}: the component sees location {s['location']}, the client is at {want} ({qs})")
    if s["scope"] is not scope and s["scope"] != before:
        raise Violation(f"{what}: the component sees a different scope")
    if s["connection"].location != s["location"] or s["connection"].scope is not s["scope"]:
        raise Violation(f"{what}: connection, location and scope do not agree")


def check_passed(what, call, scope, before, chans):
    if call[0] is not scope and call[0] != before or scope != before:
        raise Violation(f"{what}: the wrapped application got a different scope")
    if call[1] is not chans[0] or call[2] is not chans[1]:
        raise Violation(f"{what}: the wrapped application got different channels")


TAILS = ["m.js", "sub/n.js", "sub/deep/o.txt", "with space.js", "\u00e9.js", ".hidden.js", "a%2e.js", "..dots.js", "empty.js", "big.js", "link.js", "linkdir/sub/s.js", "inner.js", "", "sub", "sub/", "nope.js",
         "../secret.txt", "../modules2/secret.js", "../modules-secret/s.js", "..", ".", "./m.js", "sub/../m.js", "sub//n.js", "/m.js", "//m.js", "m.js/", "m.js/..", "%2e%2e/secret.txt", "..%2fsecret.txt",
         "..\\secret.txt", "\x00", "m.js\x00", "sub/../../secret.txt", "2/secret.js", "-secret/s.js", "wheels", "pyscript-hide-debug.css", "../__init__.py", "../utils.py", "../../reactpy/utils.py", "m.js?x=1",
         "M.JS", "linkdir", "a" * 300, "etc/passwd", "/etc/passwd", "{ABS}", "m.js\n", "sub/deep", "../modules/m.js", "....//secret.txt", "..;/secret.txt"]
WS_TAILS = ["verif_c15_mod.a/", "verif_c15_mod.b/", "verif_c15_mod.a2/", "verif_c15_mod.hidden/", "verif_c15_mod._private/", "verif_c15_mod.a", "verif_c15_mod.a//", "verif_c15_mod.a/\n", "/verif_c15_mod.a/", "",
            "verif_c15_mod.a/x", "x/verif_c15_mod.a/", "os.system/", "verif_c15_mod/", "a/", "verif_c15_mod..a/", ".verif_c15_mod.a/", "verif_c15_mod.a./", "VERIF_C15_MOD.A/", "verif_c15_mod%2ea/",
            "verif_c15_mod.\u00e9/", "reactpy.html/", "verif_c15_mod.a /", "static/", "modules/", "verif_c15_mod_a/", "verif_c15_modXa/"]
LOCS = ["/", "/a/b", "/é ü", "", "/a?b", "/a&b=c", "/a+b", "/%41", "/#h", "/\U0001F600", "/a;b", "/a/../b"]
QS = [None, "", "?a=1&b=2", "?x=%20+", "?é", "?a=b;c", "a", "?" + "q" * 200, "?&&==", "?path=/evil&qs=1"]
ROUTES = [["/home", "/home"], ["^/x$", "/x"], ["/a|/b", "/a|/b"], ["/item/[0-9]+", "/item/[0-9]+"], ["/pre.*", "/pre.*"], ["^/only", "/only"], ["/(u|v)/w", "/(u|v)/w"]]
RPATHS = ["/home", "/home/", "/homex", "/x", "/xx", "/a", "/b", "/ab", "/a/b", "/c/b", "/item/12", "/item/12/x", "/item/", "/pre", "/prefix/a", "/xpre", "/only", "/u/w", "/u/wx", "/"]


def mutate(g, s):
    for _ in range(g.i(1, 2)):
        i = g.i(0, len(s))
        k = g.i(0, 3)
        if k == 0:
            s = s[:i] + g.pick(["/", "..", ".", "%", "\\", "x", "//", "../", "\n"]) + s[i:]
        elif k == 1 and s:
            s = s[:max(i - 1, 0)] + s[i:]
        elif k == 2:
            s = s + g.pick(["/", "/..", "\n", "x"])
        else:
            s = s.swapcase() if g.p(0.3) else s
    return s


def gen(g):
    kind = g.weighted([(3, "middleware"), (1.5, "standalone")])
    c = {"kind": kind, "prefix": g.pick(PREFIXES), "default_prefix": g.p(0.15), "registered": g.some(NAMES, 0.6), "requests": []}
    if kind == "standalone":
        c["routes"] = [[g.pick(["http", "websocket"]), *r] for r in g.some(ROUTES, 0.5)]
    for _ in range(g.size(1, 7)):
        t = g.weighted([(5, "http"), (3, "websocket"), (0.2, "lifespan")])
        r = g.random()
        if t == "http":
            tail = g.pick(TAILS)
            p = "{P}" + g.pick(["modules/", "modules/", "static/", "modules", "", "modulesx/", "static", "Modules/", "Static/", "STATIC/"]) + tail.replace("{ABS}", str(base() / "secret.txt"))
        else:
            p = "{P}" + (g.pick(NAMES) + "/" if g.p(0.4) else "" if kind == "standalone" and g.p(0.5) else g.pick(WS_TAILS))
        if r < 0.15:
            p = mutate(g, p)
        elif r < 0.25:
            p = g.pick(RPATHS)
        elif r < 0.33:
            # what an unescaped pattern would match as well
            p = p.replace("{P}", g.pick(["/aXb/", "/aab/", "/ab/", "/p/", "/q/", "/a", "/xx/", "/5/", "/reactpy", "/x/reactpy/", "//", "/a.b/"]))
        elif r < 0.4:
            p = g.pick(RPATHS)
        elif r < 0.45:
            c_ = "/reactpy/" if c["default_prefix"] else c["prefix"]
            p = p.replace("{P}", c_.upper() if g.p(0.5) else c_.swapcase())
        req = {"type": t, "path": p}
        if t == "http":
            req["method"] = g.weighted([(6, "GET"), (1.5, "HEAD"), (0.3, "POST"), (0.3, "OPTIONS")])
            req["headers"] = [["x-a", "1"]] if g.p(0.2) else []
        if t == "websocket":
            req["loc"] = {"path": g.pick(LOCS), "qs": g.pick(QS)}
            req["pct"] = g.p(0.5)
        c["requests"].append(req)
    return c


def run_nt(case, rec):
    run(case, rec)
    rec.nt(any(r["type"] != "lifespan" for r in case["requests"]) and len(case["requests"]) >= 2)


def valid(c):
    try:
        if c["kind"] not in ("middleware", "standalone") or c["prefix"] not in PREFIXES or not set(c["registered"]) <= set(NAMES):
            return None
        if any(r[0] not in ("http", "websocket") or r[1:] not in ROUTES for r in c.get("routes", ())):
            return None
        if len({tuple(r) for r in c.get("routes", ())}) != len(c.get("routes", ())):
            return None
        for r in c["requests"]:
            if r["type"] not in ("http", "websocket", "lifespan") or not isinstance(r["path"], str):
                return None
            if r["type"] == "http" and (r["method"] not in ("GET", "HEAD", "POST", "OPTIONS") or r["headers"] not in ([], [["x-a", "1"]])):
                return None
            if r["type"] == "websocket" and not (isinstance(r["loc"]["path"], str) and (r["loc"]["qs"] is None or isinstance(r["loc"]["qs"], str))):
                return None
        return c
    except (KeyError, TypeError, IndexError):
        return None


SUBS = [
    Sub("requests", gen=gen, valid=valid, run=run_nt, quick=12000, thorough=60000, shards=7,
        rule="middleware and standalone applications with any prefix; http, websocket and lifespan requests with valid, mutated and hostile paths; non-trivial = at least two requests"),
]
