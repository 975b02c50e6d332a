import json
import sys
import types

import jinja2
from reactpy import component, html
from reactpy.executors.asgi.standalone import ReactPy
from reactpy.templatetags import ReactPyJinja

import asgi as A
import c12 as H
import world as W  # noqa: F401
from lib import HarnessError, Sub, Violation
from node import Node

PROPERTY = "C16"
ASSUMPTIONS = ["language, class names and dotted paths are plain words; path prefixes begin and end with '/' and hold no control characters",
               "node evaluates the page's inline scripts against a stand-in document; an import statement is recorded, not resolved",
               "extra headers do not replace content-length, etag or last-modified"]

PREFIXES = ["/reactpy/", "/", "/a.b/", "/x/y z/", "/é\U0001F600/", "/it's/", '/q"uo/', "/a\\b/", "/</script>/", "/<!--/", "/a&b/", "/${x}/", "/%2F/", "/a;b/", "/\u2028/", "/a//b/", "/`/"]
SETTINGS = {"reconnect_interval": [0, 1, 750, 12345], "reconnect_max_interval": [0, 60000, 7], "reconnect_max_retries": [0, 1, 150, 10**9], "reconnect_backoff_multiplier": [1.0, 1.25, 2, 1e-3, 1e21, 3.0000000000000004]}
DEFAULTS = {"reconnect_interval": 750, "reconnect_max_interval": 60000, "reconnect_max_retries": 150, "reconnect_backoff_multiplier": 1.25, "path_prefix": "/reactpy/"}
JSN = {"reconnect_interval": "reconnectInterval", "reconnect_max_interval": "reconnectMaxInterval", "reconnect_max_retries": "reconnectMaxRetries", "reconnect_backoff_multiplier": "reconnectBackoffMultiplier", "path_prefix": "pathPrefix"}
HEADERS = ["X-Test", "x-frame-options", "Cache-Control", "cache-control", "Content-Type", "ACCESS-CONTROL-ALLOW-ORIGIN", "Content-Security-Policy", "x"]
HVALS = ["a", "no-store", "text/html; charset=utf-8", "default-src 'self'; x", "é", "1", "a,b"]
LANGS = ["en", "de-AT", "zh-Hant-TW", "x"]
NODE = Node("mountjs.js")
ETAGS = {}
IMPORTS = {"react": "preact.js", "react-dom": "preact-dom.js", "react-dom/client": "preact-dom.js", "react/jsx-runtime": "preact-jsx-runtime.js"}


@component
def Root():
    return html.div("root")


class Page(H.Tree):
    doctype = None

    def handle_decl(self, decl):
        if self.doctype is not None or self.root[2]:
            self.bad = "a second or late doctype"
        self.doctype = decl


def parse_page(s):
    t = Page()
    t.feed(s)
    t.close()
    if t.bad or len(t.stack) != 1:
        raise Violation(f"{t.bad or 'unclosed elements'} in the page {s!r:.900}")
    if (t.doctype or "").lower() != "doctype html":
        raise Violation(f"doctype {t.doctype!r}")
    return [c for c in t.root[2] if c != ""]


def mounts(body, ids, has_map=False):
    """body: scripts in document order"""
    out = NODE.ask({"scripts": [{"type": s[1].get("type", ""), "text": "".join(s[2])} for s in body], "ids": ids, "hasMap": has_map})
    if out is None:
        raise HarnessError("node gave no answer")
    if "error" in out:
        raise Violation(f"the page's scripts fail: {out['error']}\n  {body!r:.900}")
    return out


def check_mounts(out, want, prefix, has_map=False):
    """want: [(element id, component path)]"""
    cfg = want[0][2]
    got = out["mounts"]
    if len(got) != len(want):
        raise Violation(f"{len(got)} mount calls instead of {len(want)}")
    for m, (eid, comp, cfg) in zip(got, want):
        exp = {"mountElement": eid, "componentPath": comp, **{JSN[k]: v for k, v in cfg.items()}}
        if m != exp:
            raise Violation(f"mountReactPy is called with {m} instead of {exp}")
    if out["imports"] != [["mountReactPy", prefix + "static/index.js"]] * len(want):
        raise Violation(f"imports {out['imports']}")
    if has_map:
        if out["importmaps"]:
            raise Violation("a second import map was added to the page")
        return
    if len(out["importmaps"]) != 1:
        raise Violation(f"import maps {out['importmaps']}")
    im = out["importmaps"][0]
    try:
        text = json.loads(im["text"])
    except ValueError:
        raise Violation(f"the import map is not JSON: {im['text']!r}") from None
    if im["type"] != "importmap" or text != {"imports": {k: prefix + "static/" + v for k, v in IMPORTS.items()}}:
        raise Violation(f"import map {im}")


def elements(kids):
    return [k for k in kids if not (isinstance(k, str) and not k.strip())]


def build_app(case):
    kw = {}
    if case["headers"]:
        kw["http_headers"] = dict(case["headers"])
    if case["head"] is not None:
        kw["html_head"] = html.head({}, *[H.build(n) for n in case["head"]])
    if case["prepend"] == "none":
        kw["prepend_body"] = None
    elif case["prepend"] != "default":
        kw["prepend_body"] = H.build(case["prepend"])
    if case["lang"] is not None:
        kw["html_lang"] = case["lang"]
    kw.update(case["settings"])
    return ReactPy(Root, **kw)


def run(case, rec):
    with A.config_restored():
        page(case, rec)


def page(case, rec):
    app = build_app(case)
    cfg = {**DEFAULTS, **case["settings"]}
    full = None
    want_headers = {k.lower(): v for k, v in case["headers"]}
    etag = modified = headers = None
    for n, req in enumerate(case["requests"]):
        cond = []
        for name, kind in req["cond"]:
            v = {"etag": etag, "modified": modified}.get(kind[0], kind[1] if len(kind) > 1 else None)
            if kind[0] == "mangled":
                v = etag[:-2] + '0"' if etag and etag[-2] != "0" else '"0"'
            if kind[0] == "list":
                v = f'"zz", {etag}'
            if v is not None:
                cond.append((name.encode(), v.encode()))
        what = f"request {n}: {req['method']} {req['path']!r} {cond}"
        r = A.go(A.request(app, A.http_scope(req["path"], req["method"], cond)))
        if r.bad or not r.done:
            raise Violation(f"{what}: {r.bad or 'not finished'}")
        names = [k.lower() for k, _ in r.headers]
        if len(set(names)) != len(names):
            raise Violation(f"{what}: a header is sent twice: {r.headers}")
        hd = {k.decode(): v for k, v in zip([x for x in names], [v for _, v in r.headers])}
        for k, v in want_headers.items():
            if hd.get(k, b"").decode("utf-8", "replace") != v and hd.get(k, b"").decode("latin-1") != v:
                raise Violation(f"{what}: header {k} is {hd.get(k)} instead of {v!r}")
        for k, v in (("content-type", b"text/html; charset=utf-8"),):
            if k not in want_headers and r.status == 200 and hd.get(k) != v:
                raise Violation(f"{what}: header {k} is {hd.get(k)}")
        if etag is None:
            etag, modified = hd["etag"].decode(), hd["last-modified"].decode()
            if not (etag.startswith('"') and etag.endswith('"') and len(etag) > 4):
                raise Violation(f"etag {etag!r}")
        elif (hd["etag"].decode(), hd["last-modified"].decode()) != (etag, modified):
            raise Violation(f"{what}: the etag or date changed: {hd}")
        sent = dict(cond)
        if b"if-none-match" in sent:
            v = sent[b"if-none-match"].decode()
            cached = True if v == etag else None if etag in v else False
        elif b"if-modified-since" in sent:
            v = sent[b"if-modified-since"].decode()
            cached = True if v == modified else False if "1999" in v or "garbage" in v else None
        else:
            cached = False
        if req["method"] == "HEAD":
            if r.body or r.status not in (200, 304):
                raise Violation(f"{what}: status {r.status} with {len(r.body)} bytes of body")
            if cached is False and r.status != 200:
                raise Violation(f"{what}: status {r.status}")
            rec.tag("head")
            if r.status == 304:
                continue
        else:
            if cached is not None and r.status != (304 if cached else 200) or r.status not in (200, 304):
                raise Violation(f"{what}: status {r.status} (current etag {etag}, date {modified})")
            rec.tag(f"status:{r.status}")
            if r.status == 304:
                if r.body:
                    raise Violation(f"{what}: a 304 response with a body")
                continue
            if full is None:
                full = r.body
            elif r.body != full:
                raise Violation(f"{what}: the page changed")
        # an unconditional answer
        if headers is None:
            headers = hd
        elif hd != headers:
            raise Violation(f"{what}: headers {hd} differ from {headers}")
    if full is None:
        r = A.go(A.request(app, A.http_scope("/", "GET")))
        full = r.body
        if r.status != 200:
            raise Violation(f"status {r.status}")
        headers = headers or {k.decode(): v for k, v in r.headers}
    if headers["content-length"] != str(len(full)).encode():
        raise Violation(f"content-length {headers['content-length']} for {len(full)} bytes")
    if ETAGS.setdefault(etag, full) != full:
        raise Violation("the same etag for another page")
    if len(ETAGS) > 3000:
        ETAGS.clear()
    top = elements(parse_page(full.decode()))
    if len(top) != 1 or top[0][0] != "html" or top[0][1] != {"lang": "en" if case["lang"] is None else case["lang"]}:
        raise Violation(f"page {full[:300]}")
    parts = elements(top[0][2])
    if [p[0] for p in parts] != ["head", "body"]:
        raise Violation(f"page {full[:300]}")
    exp = []
    for x in case["head"] or ():
        H.expect(x, exp)
    H.compare(parts[0][2], exp, "head", full.decode())
    exp = []
    if case["prepend"] == "default":
        exp = [["noscript", {}, ["Enable JavaScript to view this site."]]]
    elif case["prepend"] != "none":
        H.expect(case["prepend"], exp)
    body = parts[1][2]
    kids = H.join(body)
    own = kids[-3:]
    if [k[0] if isinstance(k, list) else None for k in own] != ["div", "script", "script"] or own[0][1].get("id") != "app" or own[0][2]:
        raise Violation(f"no mount point: {own!r:.500}")
    H.compare(kids[:-3], exp, "body", full.decode())
    if own[2][1].get("type") != "module" or own[1][1].get("type"):
        raise Violation(f"scripts {own!r:.300}")
    want = [("app", "", cfg)]
    check_mounts(mounts(own[1:], ["app"]), want, cfg["path_prefix"])
    check_mounts(mounts(own[1:], ["app"], True), want, cfg["path_prefix"], True)
    # a second application with the same configuration serves the same content and etag, one with other content another
    r2 = A.go(A.request(build_app(case), A.http_scope("/", "GET")))
    if r2.body != full or r2.header(b"etag")[0].decode() != etag:
        raise Violation("an application with the same configuration has another page or etag")
    other = build_app({**case, "lang": "xx"})
    r3 = A.go(A.request(other, A.http_scope("/", "GET", [(b"if-none-match", etag.encode())])))
    if r3.status != 200 or r3.header(b"etag")[0].decode() == etag:
        raise Violation("other content has the same etag")
    rec.nt(bool(case["headers"]) + (case["head"] is not None) + bool(case["settings"]) + any(r["cond"] for r in case["requests"]) >= 2)
    if any(ord(c) > 127 for c in full.decode()):
        rec.tag("non-ascii")
    if case["settings"].get("path_prefix", "/reactpy/") != "/reactpy/":
        rec.tag("prefix")


TXT = [t for t in H.TEXT if t != "tab\t\nnl"]


def head_node(g):
    r = g.i(0, 5)
    if r == 0:
        return {"t": "el", "tag": "title", "attrs": {}, "ch": [{"t": "lit", "v": g.pick(TXT)}]}
    if r == 1:
        return {"t": "el", "tag": "meta", "attrs": {"name": "d", "content": g.pick(TXT)}, "ch": []}
    if r == 2:
        return {"t": "el", "tag": "link", "attrs": {"rel": g.pick(TXT), "crossOrigin": "x"} if False else {"title": g.pick(TXT), "crossOrigin": "x"}, "ch": []}
    if r == 3:
        return {"t": "el", "tag": g.pick(["script", "style"]), "attrs": {}, "ch": [{"t": "lit", "v": g.pick(["a < b && c", "x = \"é&amp;\"", "b > c {}"])}]}
    return H.gen_node(g, g.i(1, 2))


CONDS = [["If-None-Match".lower(), ["etag"]], ["if-none-match", ["raw", '"other"']], ["if-none-match", ["mangled"]], ["if-none-match", ["list"]], ["if-none-match", ["raw", ""]],
         ["if-modified-since", ["modified"]], ["if-modified-since", ["raw", "Mon, 01 Mar 1999 10:00:00 GMT"]], ["if-modified-since", ["raw", "garbage"]], ["accept", ["raw", "text/html"]]]


def gen(g):
    st = {}
    if g.p(0.55):
        st["path_prefix"] = g.pick(PREFIXES)
    for k, vs in SETTINGS.items():
        if g.p(0.3):
            st[k] = g.pick(vs)
    reqs = []
    for _ in range(g.size(1, 5)):
        cond = []
        for c in g.sample(CONDS, g.pick([0, 0, 1, 1, 2])):
            if not any(x[0] == c[0] for x in cond):
                cond.append(c)
        reqs.append({"method": g.pick(["GET", "GET", "GET", "HEAD"]), "path": g.pick(["/", "/", "/some/page", "/é", ""]), "cond": cond})
    hs = []
    for k in g.sample(HEADERS, g.pick([0, 0, 1, 2, 3])):
        if not any(k.lower() == x[0].lower() for x in hs):
            hs.append([k, g.pick([v for v in HVALS if v.isascii()])])
    while True:
        pre = g.pick(["default", "none", None])
        if pre is None:
            pre = H.gen_node(g, 2)
            if pre["t"] != "el" or pre.get("mapping"):
                continue
        break
    return {"lang": g.pick([None, *LANGS]), "head": [head_node(g) for _ in range(g.size(0, 3))] if g.p(0.6) else None, "prepend": pre, "headers": hs, "settings": st, "requests": reqs}


def valid(c):
    try:
        for n in [*(c["head"] or ()), *([c["prepend"]] if isinstance(c["prepend"], dict) else ())]:
            if n["t"] in ("lit", "obj"):
                if n["t"] == "lit" and isinstance(n["v"], (dict, list)):
                    return None
                continue
            if H.valid({"root": n}) is None:
                return None
        if c["prepend"] not in ("default", "none") and (not isinstance(c["prepend"], dict) or c["prepend"]["t"] != "el"):
            return None
        if c["lang"] not in (None, *LANGS) or any(k not in HEADERS or v not in HVALS for k, v in c["headers"]) or len({k.lower() for k, _ in c["headers"]}) != len(c["headers"]):
            return None
        for k, v in c["settings"].items():
            if v not in (PREFIXES if k == "path_prefix" else SETTINGS[k]):
                return None
        for r in c["requests"]:
            if r["method"] not in ("GET", "HEAD") or not isinstance(r["path"], str) or any(x not in CONDS for x in r["cond"]) or len({x[0] for x in r["cond"]}) != len(r["cond"]):
                return None
        return c
    except (KeyError, TypeError, ValueError, AttributeError):
        return None


# ---------------------------------------------------------------- templates
def run_template(case, rec):
    with A.config_restored():
        template(case, rec)


def template(case, rec):
    from reactpy.executors.utils import process_settings
    env = jinja2.Environment(extensions=[ReactPyJinja])
    process_settings(dict(case["settings"]))
    cfg = {**DEFAULTS, **case["settings"]}
    src = "<!doctype html><html><head>"
    if case["has_map"]:
        src += '<script type="importmap" id="reactpy-importmap">{}</script>'
    src += "</head><body>"
    for dotted, cls, text in case["tags"]:
        src += f"<i>{text}</i>" + '{% component "' + dotted + '"' + (f', class="{cls}"' if cls else "") + " %}"
    src += "</body></html>"
    out = env.from_string(src).render()
    top = elements(parse_page(out))[0]
    kids = [k for k in elements(top[2]) if k[0] == "body"][0][2]
    if len(kids) != 4 * len(case["tags"]):
        raise Violation(f"template: {out!r:.600}")
    ids, scripts = [], []
    for n, (dotted, cls, text) in enumerate(case["tags"]):
        i, d, s1, s2 = kids[4 * n:4 * n + 4]
        if i != ["i", {}, [text] if text else []] or d[0] != "div" or d[2] or d[1].get("class") != (cls or "") or not d[1].get("id"):
            raise Violation(f"template: mount point {d}")
        ids.append(d[1]["id"])
        scripts += [s1, s2]
    if len(set(ids)) != len(ids):
        raise Violation("two mount points share an id")
    check_mounts(mounts(scripts, ids, case["has_map"]), [(i, d + "/", cfg) for i, (d, _, _) in zip(ids, case["tags"])], cfg["path_prefix"], case["has_map"])
    try:
        env.from_string('{% component "a.b", other="x" %}').render()
    except ValueError:
        pass
    else:
        raise Violation("an unknown argument of the tag was accepted")
    rec.nt(len(case["tags"]) >= 2)


def gen_template(g):
    st = {}
    if g.p(0.4):
        st["path_prefix"] = g.pick(PREFIXES)
    for k, vs in SETTINGS.items():
        if g.p(0.3):
            st[k] = g.pick(vs)
    return {"settings": st, "has_map": g.p(0.2), "tags": [[g.pick(["a.b", "my_app.sub.Comp_1", "x.Y"]), g.pick(["", "c", "a b-c"]), g.pick(["t", "", "é"])] for _ in range(g.size(1, 4))]}


# ---------------------------------------------------------------- user apps of the standalone application
MOD = types.ModuleType("verif_c16_mod")
sys.modules["verif_c16_mod"] = MOD


def run_routes(case, rec):
    with A.config_restored():
        _routes(case, rec)


def _routes(case, rec):
    app = ReactPy(Root)
    calls = []
    routes = []

    def mk(name):
        async def handler(scope, receive, send):
            calls.append(name)
            if scope["type"] == "http":
                await send({"type": "http.response.start", "status": 201, "headers": [(b"x-by", name.encode())]})
                await send({"type": "http.response.body", "body": name.encode()})
            elif scope["type"] == "websocket":
                await send({"type": "websocket.close", "code": 4002})
            else:
                await send({"type": "lifespan.startup.complete"})
        return handler
    lifespan = None
    for n, op in enumerate(case["ops"]):
        if op["op"] == "lifespan":
            h = mk(f"L{n}")
            setattr(MOD, f"h{n}", h)
            try:
                app.lifespan(f"verif_c16_mod.h{n}" if op["dotted"] else h)
            except ValueError:
                if lifespan is None:
                    raise
            else:
                if lifespan is not None:
                    raise Violation("a second lifespan application was accepted")
                lifespan = f"L{n}"
        elif op["op"] == "route":
            h = mk(f"R{n}")
            setattr(MOD, f"h{n}", h)
            deco = app.route(op["path"], **({"type": op["type"]} if op["type"] == "websocket" or op["dotted"] else {}))
            got = deco(f"verif_c16_mod.h{n}" if op["dotted"] else h)
            if got is not h:
                raise Violation("route() does not return the application it registers")

            old = [i for i, x in enumerate(routes) if x[0] == op["type"] and bare(x[1]) == bare(op["path"])]
            if old:
                routes[old[0]] = (op["type"], op["path"], f"R{n}")
            else:
                routes.append((op["type"], op["path"], f"R{n}"))
        elif op["op"] == "request":
            del calls[:]
            t = op["type"]
            if t == "lifespan":
                scope = {"type": "lifespan", "asgi": {"version": "3.0"}}
            else:
                scope = (A.http_scope if t == "http" else A.ws_scope)(op["path"])
            fits = [name for typ, p, name in routes if typ == t and literal(p, op["path"])] if t != "lifespan" else [lifespan] * (lifespan is not None)
            r = A.Resp()

            async def send(m):
                r.msgs.append(m)

            async def receive():
                return {"type": "http.request" if t == "http" else "websocket.connect" if t == "websocket" else "lifespan.startup"}
            if t == "websocket" and not fits:
                continue
            A.go(app(scope, receive, send))
            if fits:
                if calls != fits[:1]:
                    raise Violation(f"{t} {op['path']!r} was served by {calls} instead of {fits[0]}, the first route that fits")
                rec.tag("served:" + t)
            elif calls:
                raise Violation(f"{t} {op['path']!r} was served by {calls}, which is not registered for it")
    rec.nt(len(routes) >= 2)


def bare(p):
    return p.removeprefix("^").removesuffix("$")


def literal(p, path):
    """patterns of the generator: literal paths and one group of letters, alternatives"""
    if "|" in p:
        return any(literal(x, path) for x in p.split("|"))
    p = bare(p)
    if "(" not in p:
        return p == path
    pre, post = p.split("([a-z]+)")
    mid = path[len(pre):len(path) - len(post)] if post else path[len(pre):]
    return path.startswith(pre) and path.endswith(post) and len(path) > len(pre) + len(post) and all("a" <= c <= "z" for c in mid)


PATHS = ["/", "/home", "/home/", "/api/x", "/api/xy/z", "/home/x", "/Home", "/api/x1", "/index", "/x/index", "/home\n", "/api/x\n"]
PATTERNS = ["/home", "/home/", "/api/([a-z]+)", "/api/([a-z]+)/z", "/", "/home|/index", "/index|/home|/api/([a-z]+)", "^/home$", "^/home", "/home$"]


def gen_routes(g):
    ops = []
    for _ in range(g.size(3, 12)):
        r = g.random()
        if r < 0.15:
            ops.append({"op": "lifespan", "dotted": g.p(0.4)})
        elif r < 0.5:
            ops.append({"op": "route", "type": g.pick(["http", "http", "websocket"]), "path": g.pick(PATTERNS), "dotted": g.p(0.3)})
        else:
            ops.append({"op": "request", "type": g.weighted([(4, "http"), (2, "websocket"), (1, "lifespan")]), "path": g.pick(PATHS)})
    return {"ops": ops}


SUBS = [
    Sub("page", gen=gen, valid=valid, run=run, quick=7500, thorough=60000, shards=4,
        rule="standalone applications with generated language, head, body, headers and settings and a history of GET / HEAD / conditional requests; the page is parsed, its scripts "
             "evaluated; non-trivial = at least two of: headers, head, settings, conditional requests"),
    Sub("template", gen=gen_template, run=run_template, quick=4500, thorough=30000, shards=2, rule="Jinja templates with several component tags; non-trivial = at least two tags"),
    Sub("routes", gen=gen_routes, run=run_routes, quick=6000, thorough=60000, shards=2, rule="histories of route / lifespan registration and requests; non-trivial = at least two routes"),
]
