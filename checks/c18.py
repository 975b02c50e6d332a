import asyncio
import json
import os
import posixpath
import shutil
import sys
import tempfile
import threading
import warnings
from html.parser import HTMLParser
from pathlib import Path

import reactpy.reactjs as R
import reactpy.reactjs.module as M
import reactpy.reactjs.utils as U
import requests
from reactpy import html
from reactpy.config import REACTPY_DEBUG, REACTPY_PATH_PREFIX, REACTPY_WEB_MODULES_DIR
from reactpy.executors.utils import vdom_head_to_html
from reactpy.executors.asgi.middleware import ReactPyMiddleware

import asgi as A
import world as W  # noqa: F401
from lib import Sub, Violation

PROPERTY = "C18"
ASSUMPTIONS = ["export forms: the statement forms of MDN's export page, each at the start of a line or after ';' or '}'; no nested destructuring, destructuring with renaming or string names",
               "fillers hold the word export only where no statement can begin; regular expression literals do not occur",
               "requests.get is a stand-in that knows a set of URLs", "names of modules stay within the modules directory"]

# ---------------------------------------------------------------- export discovery
FILLERS = ['import React, { useState } from "react"', "import * as x from './x.js'", "const inner = 1, other = [2, 3]", "function helper(a, b) { return a + b }", "let s = \"please export default this\"",
           "// one can export let ghost1 here", "/* do not export { ghost2 } */", "console.log(`export class Ghost3 {}`)", "const exports = {}, exported = 1, reexport = 2", "myexport = 1",
           "var t = 'a, b = 2'", "class K { export() { return 1 } }", "if (a) { b() }", "obj.export = { a: 1 }", "const f = async () => { await g() }"]
INITS = ["1", "[1, 2, 3]", "{ p: 1, q: [2] }", "f(1, g(2, 3))", "\"a, b\"", "'x; y'", "`t, u`", "(a, b) => { return a, b }", "function (x, y) { return { x, y } }", "a === b", "x ? y : z", "\"it's\"", "'say \"hi\"'", "{\n  k: 1,\n  l: 2\n}", "async (p) => {\n  const q = 1, r = 2;\n  return q\n}"]
IDS = ["a", "B", "c1", "$d", "_e", "Fooé", "default_", "exportIt", "as_", "from", "g$h", "lets", "constant", "functional", "classy", "asyncX", "let1", "Ä"]


def stmt(s, st):
    """-> text, names, references"""
    k = s["k"]
    sp = st["sp"]
    if k == "filler":
        return FILLERS[s["n"]], set(), set()
    if k == "raw":          # for the known findings
        return s["text"], set(), set()
    if k == "vars":
        return "export " + s["w"] + " " + (sp + "," + st["nl"]).join(n if i is None else n + sp + "=" + sp + i for n, i in s["d"]), {n for n, _ in s["d"]}, set()
    if k == "destr":
        o, c = s["br"]
        return f"export const {o}{sp}" + ("," + sp).join(s["names"]) + f"{sp}{c}{sp}={sp}obj", {n.split("=")[0].strip().replace("...", "") for n in s["names"]}, set()
    if k == "func":
        return "export " + s["w"].replace("NAME", s["n"]), {s["n"]}, set()
    if k == "default":
        return "export default" + s["t"], {"default"}, set()
    if k == "list":
        items = []
        for a, b in s["i"]:
            items.append(a if b is None else f"{a} as {b}")
        body = ("," + st["nl"] + sp).join(items) + ("," if s["trail"] else "")
        if s["multi"]:
            body = "\n  " + body.replace(",", ",\n  ").rstrip() + "\n"
        out = "export" + sp + "{" + sp + body + sp + "}"
        if s["from"]:
            out += sp + "from" + sp + st["q"] + s["from"] + st["q"]
        return out, {b or a for a, b in s["i"]}, set()
    if k == "star":
        if s["as"]:
            return "export" + sp + "*" + sp + "as " + s["as"] + " from" + sp + st["q"] + s["from"] + st["q"], {s["as"]}, set()
        return "export" + sp + "*" + sp + "from" + sp + st["q"] + s["from"] + st["q"], set(), {s["from"]}
    raise ValueError(k)


def render(stmts, st):
    text, names, refs = st["head"], set(), set()
    for n, s in enumerate(stmts):
        t, nm, rf = stmt(s, st)
        names |= nm
        refs |= rf
        text += t
        end = st["ends"][n % len(st["ends"])]
        if s["k"] == "filler" and t.startswith("//"):
            end = "\n"
        text += end
    return text, names, refs


def run_exports(case, rec):
    text, names, refs = render(case["stmts"], case["style"])
    for ex in (False, True):
        got = U.resolve_names_from_source(text, exclude_default=ex)
        want = names - ({"default"} if ex else set())
        if got[0] != want:
            raise Violation(f"exported names {sorted(got[0])} were found instead of {sorted(want)} in\n{text}")
        if got[1] != refs:
            raise Violation(f"references {sorted(got[1])} were found instead of {sorted(refs)} in\n{text}")
    ks = {s["k"] for s in case["stmts"]}
    rec.tag(*ks)
    if ";" in case["style"]["ends"]:
        rec.tag("one-line")
    rec.nt(len(ks - {"filler"}) >= 2)


STYLES_SP = ["", " ", " "]


def gen_stmt(g, used):
    def ident():
        while True:
            n = g.pick(IDS) + (str(g.i(0, 99)) if g.p(0.5) else "")
            if n not in used and n != "from":
                used.add(n)
                return n
    k = g.weighted([(4, "filler"), (3, "vars"), (1, "destr"), (3, "func"), (1, "default"), (4, "list"), (2, "star")])
    if k == "default" and "default" in used:
        k = "func"
    if k == "filler":
        return {"k": k, "n": g.i(0, len(FILLERS) - 1)}
    if k == "vars":
        w = g.pick(["let", "const", "var"])
        return {"k": k, "w": w, "d": [[ident(), g.pick(INITS) if w == "const" or g.p(0.6) else None] for _ in range(g.size(1, 4))]}
    if k == "destr":
        br = g.pick(["{}", "[]"])
        ns = [ident() for _ in range(g.size(1, 3))]
        return {"k": k, "br": br, "names": [*(n + (" = 1" if g.p(0.2) else "") for n in ns), *(["..." + ident()] if g.p(0.2) else [])]}
    if k == "func":
        return {"k": k, "n": ident(), "w": g.pick(["function NAME() { return 1 }", "class NAME {}", "class NAME extends Base { m() { return 1 } }", "async function NAME(a, b) {}", "function* NAME() {}",
                                                    "function *NAME() {}", "async function* NAME() {}", "function NAME(\n  a,\n  b\n) {\n  return a\n}", "class NAME{}", "function NAME(){}"])}
    if k == "default":
        used.add("default")
        return {"k": k, "t": g.pick([" foo", " function () {}", " function named() {}", " class {}", "{ a: 1 }", "[1, 2]", " (a, b) => a", "(x)", " async function () {}", " 'text'", "\n  foo"])}
    if k == "list":
        items = []
        for _ in range(g.size(1, 4)):
            r = g.random()
            if r < 0.5:
                items.append([ident(), None])
            elif r < 0.9 or "default" in used:
                items.append([g.pick(["x", "$y", "default"]), ident()])
            else:
                used.add("default")
                items.append(["z", "default"])
        f = g.pick([None, None, "./o.js", "https://cdn/x@1?a=b", "react"])
        if f is None:
            items = [["local" if a == "default" else a, b] for a, b in items]
        return {"k": k, "i": items, "from": f, "trail": g.p(0.2), "multi": g.p(0.3)}
    return {"k": k, "as": ident() if g.p(0.4) else None, "from": g.pick(["./a.js", "../b/c.js", "https://x/y.js", "/abs.js", "react", "./it-s.js", "./sp ace.js"])}


def gen_exports(g):
    used = {"from"}
    return {"stmts": [gen_stmt(g, used) for _ in range(g.size(1, 8))],
            "style": {"sp": g.pick(STYLES_SP), "nl": g.pick(["", " ", " ", "\n"]), "q": g.pick(["\"", "'"]), "ends": g.pick([[";\n"], ["\n"], [";"], ["; "], [";\n", "\n"], ["\n\n", ";\n  "], [";// note\n"], [" // a, b = 2\n"], [";/* x */"]]),
                      "head": g.pick(["", "", "\n", "'use strict';", "  "])}}


def valid_exports(c):
    try:
        render(c["stmts"], c["style"])
        for s in c["stmts"]:
            if s["k"] == "raw" or s["k"] == "vars" and (not s["d"] or s["w"] not in ("let", "const", "var") or any(not isinstance(n, str) or not n.isidentifier() and "$" not in n or i not in INITS and i is not None for n, i in s["d"])):
                return None
            if s["k"] == "filler" and not 0 <= s["n"] < len(FILLERS):
                return None
            if s["k"] in ("list",) and (not s["i"] or any(not a or b == "" for a, b in s["i"])):
                return None
            if s["k"] == "destr" and (s["br"] not in ("{}", "[]") or not s["names"] or any(not n.strip(". =1") for n in s["names"])):
                return None
            if s["k"] == "func" and (not s["n"] or "NAME" not in s["w"] or s["w"][:5] not in ("funct", "class", "async")):
                return None
            if s["k"] in ("star", "list") and s["from"] is not None and len(s["from"]) < 4:
                return None
            if s["k"] == "default" and s["t"][:1] not in (" ", "{", "[", "(", "\n"):
                return None
        st = c["style"]
        if st["q"] not in ("'", '"') or not st["ends"] or st["sp"] not in ("", " ") or st["nl"] not in ("", " ", "\n") or st["head"] not in ("", "\n", "'use strict';", "  "):
            return None
        if any(e not in (";\n", "\n", ";", "; ", "\n\n", ";\n  ", ";// note\n", " // a, b = 2\n", ";/* x */") for e in st["ends"]):
            return None
        return c
    except (KeyError, TypeError, ValueError, AttributeError, IndexError):
        return None


# ---------------------------------------------------------------- module graphs
class Web:
    def __init__(self, pages, failures):
        self.pages, self.failures = pages, failures
        self.asked = []

    def get(self, url, **kw):
        self.asked.append(url)
        if url in self.failures:
            kind = self.failures[url]
            raise {"connection": requests.exceptions.ConnectionError("no"), "timeout": requests.exceptions.ReadTimeout("slow"), "schema": requests.exceptions.MissingSchema("bad")}[kind]
        if url not in self.pages:
            if "://" not in url:
                raise requests.exceptions.MissingSchema(url)
            raise requests.exceptions.ConnectionError(url)
        r = requests.Response()
        r.status_code = 200
        r._content = self.pages[url].encode()
        r.encoding = "utf-8"
        return r


def run_graph(case, rec):
    mods = case["mods"]           # [{url, names, default, refs: [[index, style]]}]
    kind = case["kind"]
    base = Path(tempfile.mkdtemp(prefix="verif-c18-")) if kind == "file" else None
    try:
        def loc(i):
            return mods[i]["url"]

        def spec(i, j, style):
            a, b = loc(i), loc(j)
            if mods[j]["abs"] or kind == "file" and mods[i]["abs"]:
                return b
            if kind == "file":
                return dot(posixpath.relpath(b, posixpath.dirname(a) or "."))
            oa, pa = origin(a)
            ob, pb = origin(b)
            pa = pa.split("?")[0]
            if style == "absolute" or oa != ob:
                return b
            if style == "host":
                return "//" + ob.split("//")[1] + pb
            if style == "root":
                return pb
            path, _, q = pb.partition("?")
            return dot(posixpath.relpath(path, posixpath.dirname(pa))) + ("?" + q if q else "")
        texts = []
        for i, m in enumerate(mods):
            t = "".join(f"export let {n};\n" for n in m["names"])
            if m["default"]:
                t += "export default 1;\n"
            for j, style in m["refs"]:
                if j == -1:
                    t += f"export * from {json.dumps(style)};\n"
                else:
                    t += f"export * from {json.dumps(spec(i, j, style))};\n"
            texts.append(t)
        pages = {loc(i): t for i, t in enumerate(texts) if kind == "url" or mods[i]["abs"]}
        failures = {loc(i): f for i, f in case["fail"] if loc(i) in pages}
        web = Web(pages, failures)
        lost = {i for i in range(len(mods)) if loc(i) in failures}
        if kind == "file":
            for i, t in enumerate(texts):
                if not mods[i]["abs"]:
                    p = base / loc(i)
                    p.parent.mkdir(parents=True, exist_ok=True)
                    p.write_text(t, encoding="utf-8")
        # expected: everything within reach of the depth
        want, seen, frontier = set(), set(), {0}
        for d in range(case["depth"]):
            nxt = set()
            for i in frontier:
                if i in lost:
                    continue
                want |= set(mods[i]["names"])
                if d == 0 and mods[i]["default"]:
                    want.add("default")
                nxt |= {j for j, _ in mods[i]["refs"] if j != -1}
            frontier = nxt
        real = U.requests
        U.requests = type("Requests", (), {"get": staticmethod(web.get), "exceptions": requests.exceptions})
        try:
            got = U.resolve_names_from_file(base / loc(0), case["depth"]) if kind == "file" else U.resolve_names_from_url(loc(0), case["depth"])
        finally:
            U.requests = real
        if got != want:
            raise Violation(f"names {sorted(got)} instead of {sorted(want)} were resolved from\n" + "\n".join(f"{loc(i)}:\n{t}" for i, t in enumerate(texts)) + f"\nfetched {web.asked}")
        rec.nt(len(mods) >= 3 and case["depth"] >= 2)
        rec.tag(kind, *("fail:" + f for _, f in case["fail"]))
    finally:
        if base:
            shutil.rmtree(str(base))


def origin(u):
    scheme, _, rest = u.partition("://")
    host, _, path = rest.partition("/")
    return f"{scheme}://{host}", "/" + path


def dot(rel):
    return rel if rel.startswith(".") else "./" + rel


def gen_graph(g):
    kind = g.pick(["file", "url", "url"])
    n = g.size(1, 6)
    mods = []
    urls = set()
    while len(mods) < n:
        ab = kind == "file" and bool(mods) and g.p(0.25)
        path = "/".join(g.pick(["a", "b", "v1.2", "@s", "d-e"]) for _ in range(g.i(0, 3)))
        path += ("/" if path else "") + g.pick(["m.js", "index.mjs", "x.js", "pkg@1.0"])
        if kind == "url" or ab:
            u = g.pick(["https://h.one", "https://h.two:8080"]) + "/" + path
            if g.p(0.3):
                u += g.pick(["?bundle", "?external=react,react/jsx-runtime&target=es2020"])
        else:
            u = path
        if u in urls or any(x.startswith(u + "/") or u.startswith(x + "/") for x in urls):
            continue
        urls.add(u)
        mods.append({"url": u, "abs": ab, "names": [f"n{len(mods)}_{k}" for k in range(g.i(0, 2))], "default": g.p(0.3)})
    for m in mods:
        m["refs"] = []
        for _ in range(g.size(0, 3)):
            j = g.i(0, n - 1)
            if kind == "file" and m["abs"] and not mods[j]["abs"]:
                continue            # a page of the web does not refer to the files
            m["refs"].append([j, g.pick(["relative", "relative", "root", "absolute", "host"])])
        if g.p(0.12):
            m["refs"].append([-1, g.pick(["react", "./missing.js", "@scope/pkg", "https://nowhere.test/x.js"])])
    return {"kind": kind, "mods": mods, "depth": g.i(0, 5), "fail": [[g.i(0, n - 1), g.pick(["connection", "timeout", "schema"])]] if g.p(0.15) else []}


def valid_graph(c):
    try:
        n = len(c["mods"])
        if not n or c["kind"] not in ("file", "url") or not isinstance(c["depth"], int) or not 0 <= c["depth"] <= 6:
            return None
        us = [m["url"] for m in c["mods"]]
        if len(set(us)) != n or any(x != y and y.startswith(x + "/") for x in us for y in us):
            return None
        for m in c["mods"]:
            if (c["kind"] == "url" or m["abs"]) != m["url"].startswith(("https://h.one/", "https://h.two:8080/")) or m["abs"] and c["kind"] == "url" or not m["url"].split("/")[-1] or ".." in m["url"] or m["url"].startswith("/") or "//" in m["url"][8:]:
                return None
            for j, s in m["refs"]:
                if not -1 <= j < n or j == -1 and s not in ("react", "./missing.js", "@scope/pkg", "https://nowhere.test/x.js"):
                    return None
                if j >= 0 and c["kind"] == "file" and m["abs"] and not c["mods"][j]["abs"]:
                    return None
            if any(not x.startswith("n") for x in m["names"]):
                return None
        if c["mods"][0]["abs"]:
            return None
        if any(not 0 <= i < n or f not in ("connection", "timeout", "schema") for i, f in c["fail"]):
            return None
        return c
    except (KeyError, TypeError, AttributeError, ValueError):
        return None


# ---------------------------------------------------------------- module creation
NAMES = ["", "", "mod", "Mod", "pkg@1.2", "@org/pkg", "@org/pkg@1.0.0", "a/b/c", "styled.mjs", "dotted.name", "é", "mod2"]
CONTENTS = ["export let A, B;", "export let A;", "export function B() {}\nexport let é = \"ü\u2028\U0001F600\";", "export { x as A, y as default };\r\nexport class C {}", "", "export const A = {k: 1}, D = 2\n", "export let A, C;", "export let B;"]
EXPORTS = [{"A", "B"}, {"A"}, {"B", "é"}, {"A", "default", "C"}, set(), {"A", "D"}, {"A", "C"}, {"B"}]
FALLBACKS = [None, None, "loading", "", {"tagName": "i", "children": ["wait"]}]


async def _noop(scope, receive, send):
    raise Violation("passed on")


def fetch(app, source):
    r = A.go(A.request(app, A.http_scope("/reactpy/modules/" + source)))
    return r.status, r.body


MADE = [(x, x.copy()) for m in [m for n, m in list(sys.modules.items()) if n.startswith("reactpy.reactjs")] for n, x in vars(m).items() if isinstance(x, (dict, set)) and not n.startswith("__")]


def forget():
    """whatever the package has kept about modules since it was imported"""
    for x, initial in MADE:
        x.clear()
        x.update(initial)
    for m in [m for n, m in list(sys.modules.items()) if n.startswith("reactpy.reactjs")]:
        for x in vars(m).values():
            if hasattr(x, "cache_clear"):
                x.cache_clear()


def run_modules(case, rec):
    base = Path(tempfile.mkdtemp(prefix="verif-c18-"))
    forget()
    with A.config_restored():
        try:
            (base / "mods").mkdir()
            (base / "src").mkdir()
            REACTPY_WEB_MODULES_DIR.current = base / "mods"
            app = ReactPyMiddleware(_noop, [], web_modules_dir=base / "mods")
            _modules(case, rec, base, app)
        finally:
            forget()
            shutil.rmtree(str(base))


def _modules(case, rec, base, app):
    held = {}              # source -> content
    comps = []
    files = {}
    for n, op in enumerate(case["ops"]):
        k = op["op"]
        what = f"step {n}: {op}"
        if case.get("frozen"):
            # reproducible builds and image layers: every file has the same modification time
            for d in ("src", "mods"):
                for f in (base / d).rglob("*"):
                    if f.is_file():
                        os.utime(f, (10**9, 10**9))
        if k == "write":
            files[op["file"]] = op["content"]
            (base / "src" / op["file"]).parent.mkdir(exist_ok=True, parents=True)
            (base / "src" / op["file"]).write_bytes(CONTENTS[op["content"]].encode())
            # a module that links to this file follows it
            for s, h in held.items():
                if isinstance(h, tuple) and h[0] == op["file"]:
                    held[s] = (op["file"], op["content"])
            continue
        names = op["names"]
        kw = {"fallback": op["fallback"], "unmount_before_update": op["unmount"], "allow_children": op["kids"]}
        if op["resolve"]:
            kw["resolve_imports"] = True
        if op.get("depth") is not None:
            kw["resolve_imports_depth"] = op["depth"]
        content = None
        if k == "string":
            content = op["content"]
            f = lambda: R.component_from_string(CONTENTS[content], names, name=op["name"], **kw)
        elif k == "file":
            if op["file"] not in files:
                continue
            content = files[op["file"]]
            path = base / "src" / op["file"]
            f = lambda: R.component_from_file(str(path) if op["as_str"] else path, names, name=op["name"], symlink=op["symlink"], **kw)
        elif k == "url":
            kw.pop("resolve_imports", None)
            f = lambda: R.component_from_url(op["url"], names, **kw)
        elif k == "npm":
            kw.pop("resolve_imports", None)
            f = lambda: R.component_from_npm(op["package"], names, version=op["version"], cdn=op["cdn"], bundle=op["bundle"], **kw)
        wanted = [names] if isinstance(names, str) else names
        exports = EXPORTS[content] if content is not None and op.get("depth") != 0 else set()
        missing = op["resolve"] and content is not None and any(x.split(".")[0] not in exports for x in wanted)
        try:
            got = f()
        except ValueError as e:
            if not missing:
                raise
            rec.tag("missing-name")
            if not any(x.split(".")[0] in str(e) for x in wanted if x.split(".")[0] not in exports):
                raise Violation(f"{what}: the error does not name what is missing: {e}") from None
            got = None
        else:
            if missing:
                raise Violation(f"{what}: was created although the module only exports {sorted(exports)} (depth {op.get('depth')})")
        if got is None:
            # the module itself was created all the same; its name is known only with the constructor
            if op["name"]:
                note(held, base, op, op["name"] + suffix(op["name"]), content)
            continue
        if isinstance(names, str) == isinstance(got, list):
            raise Violation(f"{what}: gave {got!r}")
        got = [got] if isinstance(names, str) else got
        if len(got) != len(wanted):
            raise Violation(f"{what}: {len(got)} constructors")
        for name, ctor in zip(wanted, got):
            v = ctor({"id": "x"})
            src = v["importSource"]
            if v["tagName"] != name:
                raise Violation(f"{what}: the element is called {v['tagName']!r}")
            if src["fallback"] != (op["fallback"] or None):
                raise Violation(f"{what}: the fallback is {src['fallback']!r}")
            if src["unmountBeforeUpdate"] is not op["unmount"]:
                raise Violation(f"{what}: unmountBeforeUpdate is {src['unmountBeforeUpdate']!r}")
            if set(src) != {"source", "sourceType", "fallback", "unmountBeforeUpdate"}:
                raise Violation(f"{what}: importSource {src}")
            if k in ("string", "file"):
                if src["sourceType"] != "NAME":
                    raise Violation(f"{what}: importSource {src}")
                if op["name"] and src["source"] != op["name"] + suffix(op["name"]):
                    raise Violation(f"{what}: the source is {src['source']!r}")
                note(held, base, op, src["source"], content)
                status, body = fetch(app, src["source"]) if (op.get("http") or not (base / "mods" / src["source"]).is_symlink()) and src["source"].isascii() else (200, (base / "mods" / src["source"]).read_bytes())
                if status != 200 or body != CONTENTS[content].encode():
                    raise Violation(f"{what}: its module {src['source']!r} is served with {status} as {body!r:.200} instead of {CONTENTS[content]!r}")
            else:
                url = op["url"] if k == "url" else None
                if src["sourceType"] != "URL" or url is not None and src["source"] != url:
                    raise Violation(f"{what}: importSource {src}")
                if k == "npm":
                    head, _, q = src["source"].partition("?")
                    cdn, _, cq = op["cdn"].partition("?")
                    if not src["source"].startswith(f"{op['cdn']}/{op['package']}@{op['version']}"):
                        raise Violation(f"{what}: the URL is {src['source']!r}")
                    parts = q.split("&") if q else []
                    if "esm.sh" in op["cdn"]:
                        if ("bundle" in parts) != op["bundle"] or "external=react,react-dom,react/jsx-runtime" not in parts or "target=es2020" not in parts:
                            raise Violation(f"{what}: the URL is {src['source']!r}")
                    elif parts:
                        raise Violation(f"{what}: the URL is {src['source']!r}")
            try:
                w = ctor({"id": "x"}, "child")
            except TypeError:
                if op["kids"]:
                    raise
            else:
                if not op["kids"]:
                    raise Violation(f"{what}: children were accepted")
                if w["children"] != ["child"]:
                    raise Violation(f"{what}: children {w['children']}")
            comps.append((ctor, dict(src), name, what))
        rec.tag(k)
    # what was created before is as it was
    for ctor, src, name, what in comps:
        v = ctor()
        if v["importSource"] != src or v["tagName"] != name:
            raise Violation(f"{what}: later creations changed it from {src} to {v['importSource']}")
    for source, h in held.items():
        body = (base / "mods" / source).read_bytes()
        want = CONTENTS[h[1] if isinstance(h, tuple) else h].encode()
        if body != want:
            raise Violation(f"in the end the module {source!r} holds {body!r} instead of {want!r}")
    left = [str(p) for p in (base / "mods").rglob("*") if p.name.endswith((".lock", ".tmp"))]
    if left:
        raise Violation(f"left behind: {left}")
    rec.nt(len(comps) >= 3)
    for a, b in ((a, b) for a in case["ops"] for b in case["ops"] if a is not b and a["op"] in ("string", "file") and b["op"] in ("string", "file")):
        if a["name"] == b["name"] != "":
            rec.tag("name-reused")


def note(held, base, op, source, content):
    held[source] = (op["file"], content) if op["op"] == "file" and (base / "mods" / source).is_symlink() else content


def suffix(name):
    """the documented examples: name.ext@version -> .ext, anything else -> .js"""
    n = name.removeprefix("@")
    head, _, tail = n.partition("@")
    tail = tail.partition("/")[2]
    ext = posixpath.splitext((tail or head).split("/")[-1])[1]
    return ext or ".js"


def gen_names(g):
    r = g.random()
    pool = ["A", "B", "C", "D", "default", "A.Sub", "é", "A.Sub.Deep"]
    return g.pick(pool) if r < 0.6 else g.sample(pool, g.i(1, 3))


def gen_modules(g):
    ops = []
    same = g.p(0.3)
    some_files = ["f.js"] if same else ["f.js", "g.js", "sub/h.js"]
    some_names = ["mod"] if same else NAMES
    for _ in range(g.i(4, 9) if same else g.size(2, 9)):
        k = g.weighted([(0.4, "string"), (5, "file"), (3, "write")] if same else [(4, "string"), (3, "file"), (3, "write"), (1.2, "url"), (1, "npm")])
        if k == "write":
            ops.append({"op": k, "file": g.pick(some_files), "content": g.pick([0, 6, 1, 7]) if same else g.i(0, len(CONTENTS) - 1)})
            continue
        op = {"op": k, "names": gen_names(g), "fallback": g.pick(FALLBACKS), "unmount": g.p(0.3), "kids": g.p(0.8), "resolve": g.p(0.4)}
        if op["resolve"] and g.p(0.3):
            op["depth"] = g.pick([0, 1, 5])
        if k == "string":
            op |= {"content": g.pick([0, 6, 1, 7]) if same else g.i(0, len(CONTENTS) - 1), "name": g.pick(some_names)}
        elif k == "file":
            op |= {"file": g.pick(some_files), "name": g.pick(some_names), "as_str": g.p(0.4), "symlink": g.p(0.05 if same else 0.25)}
        elif k == "url":
            op |= {"url": g.pick(["https://cdn.test/x.js", "https://cdn.test/x.js?True5", "/static/local.js", "https://esm.sh/react@19?dev&target=es2022", "data:text/javascript,export let A"])}
        else:
            op |= {"package": g.pick(["react-bootstrap", "@mui/material", "p", "@org/a.b"]), "version": g.pick(["latest", "1.2.3", "^2"]), "cdn": g.pick(["https://esm.sh/v135", "https://esm.sh", "https://cdn.skypack.dev"]), "bundle": g.p(0.5)}
        ops.append(op)
    return {"ops": ops, "frozen": g.p(0.6 if same else 0.2)}


def valid_modules(c):
    try:
        if c.get("frozen", False) not in (False, True):
            return None
        for o in c["ops"]:
            if o["op"] == "write":
                if o["file"] not in ("f.js", "g.js", "sub/h.js") or not 0 <= o["content"] < len(CONTENTS):
                    return None
                continue
            if o["op"] not in ("string", "file", "url", "npm"):
                return None
            if not o["names"] or o["fallback"] not in FALLBACKS or not all(isinstance(o[k], bool) for k in ("unmount", "kids", "resolve")) or o.get("depth") not in (None, 0, 1, 5):
                return None
            if any(not x for x in o["names"]):
                return None
            if o["op"] == "string" and (not 0 <= o["content"] < len(CONTENTS) or o["name"] not in NAMES):
                return None
            if o["op"] == "file" and (o["name"] not in NAMES or "symlink" not in o or "as_str" not in o or o["file"] not in ("f.js", "g.js", "sub/h.js")):
                return None
            if o["op"] == "url" and not ("://" in o["url"] or o["url"].startswith(("/", "data:"))):
                return None
            if o["op"] == "npm" and (not o["package"] or not o["version"] or o["cdn"] not in ("https://esm.sh/v135", "https://esm.sh", "https://cdn.skypack.dev") or "bundle" not in o):
                return None
        return c
    except (KeyError, TypeError, AttributeError):
        return None


# ---------------------------------------------------------------- concurrent creation
def run_threads(case, rec):
    base = Path(tempfile.mkdtemp(prefix="verif-c18-"))
    old = sys.getswitchinterval()
    real_sleep = U.time.sleep
    with A.config_restored():
        try:
            (base / "mods").mkdir()
            REACTPY_WEB_MODULES_DIR.current = base / "mods"
            (base / "a.js").write_text("export let A;\n" + "//" + "x" * case["pad"])
            text = (base / "a.js").read_text()

            def ext(i):
                """the names may differ in the extension only"""
                return ["", ".mjs", ".x"][i % case.get("names", 1)]
            for i in range(3):
                (base / f"a{ext(i)}.js").write_text(text + ext(i))
            errors = []
            barrier = threading.Barrier(case["threads"])
            sys.setswitchinterval(1e-6)
            U.time.sleep = lambda s: real_sleep(min(s, 0.001))

            def work(i):
                try:
                    barrier.wait()
                    for r in range(case["rounds"]):
                        if case["kind"] == "string" or case["kind"] == "both" and (i + r) % 2:
                            m = M.string_to_module(("m" if not case["nested"] else "n/m") + ext(i), text + ext(i))
                        else:
                            m = M.file_to_module(("m" if not case["nested"] else "n/m") + ext(i), base / f"a{ext(i)}.js", symlink=case["symlink"])
                        if m.import_names != {"A"}:
                            raise Violation(f"thread {i} round {r}: the module has names {m.import_names}")
                        if m.file.read_text() != text + ext(i):
                            raise Violation(f"thread {i} round {r}: the module holds {m.file.stat().st_size} characters instead of {len(text)}")
                except BaseException as e:
                    errors.append(f"{type(e).__name__}: {e}")
            ts = [threading.Thread(target=work, args=(i,)) for i in range(case["threads"])]
            for t in ts:
                t.start()
            for t in ts:
                t.join(60)
            if errors:
                raise Violation(errors[0])
            rec.nt(case["threads"] > 1)
            rec.tag(case["kind"])
        finally:
            U.time.sleep = real_sleep
            sys.setswitchinterval(old)
            shutil.rmtree(str(base))


def gen_threads(g):
    return {"threads": g.i(2, 8), "rounds": g.i(1, 6), "kind": g.pick(["string", "file", "both"]), "symlink": g.p(0.3), "nested": g.p(0.3), "pad": g.pick([0, 10, 200_000]), "names": g.pick([1, 1, 2, 3])}


# ---------------------------------------------------------------- import maps
VERSIONS = [None, None, "18", "19", "10.2.4", "latest", "19.0.0-rc.1", "next"]
SPECIFIERS = ["react", "react-dom", "react-dom/client", "react/jsx-runtime"]
WHERE = {"react": {"react": "react@{v}", "react-dom": "react-dom@{v}", "react-dom/client": "react-dom@{v}/client", "react/jsx-runtime": "react@{v}/jsx-runtime"},
         "preact": {"react": "preact@{v}/compat", "react-dom": "preact@{v}/compat", "react-dom/client": "preact@{v}/compat/client", "react/jsx-runtime": "preact@{v}/compat/jsx-runtime"},
         "local": {"react": "preact.js", "react-dom": "preact-dom.js", "react-dom/client": "preact-dom.js", "react/jsx-runtime": "preact-jsx-runtime.js"}}


def run_map(case, rec):
    kw = {k: case[k] for k in ("framework", "version", "use_local") if k in case}
    f, v = kw.get("framework"), kw.get("version")
    bad = kw.get("use_local") and (f or v) or f not in (None, "", "react", "preact")
    with A.config_restored():
        REACTPY_DEBUG.current = case["debug"]
        REACTPY_PATH_PREFIX.current = case["prefix"]
        try:
            tag = R.import_reactjs(**kw) if case["named"] else R.import_reactjs(*[kw.get(k, d) for k, d in (("framework", None), ("version", None), ("use_local", False))])
        except ValueError:
            if not bad:
                raise Violation(f"{kw} is refused") from None
            rec.tag("refused")
            return
        if bad:
            raise Violation(f"{kw} gives {tag}")
        if kw.get("use_local"):
            want = {k: case["prefix"] + "static/" + x for k, x in WHERE["local"].items()}
        else:
            f = f or "preact"
            v = v or {"react": "19", "preact": "10"}[f]
            want = {k: "https://esm.sh/v135/" + x.format(v=v) + ("?dev" if case["debug"] else "") for k, x in WHERE[f].items()}
        page = html.head(html.title("t"), tag, html.script({"src": "x.js"}))
        text = vdom_head_to_html(page)
    found = []

    class Parser(HTMLParser):
        def handle_starttag(self, tag, attrs):
            found.append([tag, dict(attrs), ""])

        def handle_data(self, data):
            found[-1][2] += data
    Parser(convert_charrefs=True).feed(text)
    if [x[0] for x in found] != ["head", "title", "script", "script"]:
        raise Violation(f"the head has the elements {[x[0] for x in found]}")
    _, attrs, content = found[2]
    # (the page looks for one with this id before it adds its own map)
    if attrs.get("type") != "importmap" or attrs.get("id") != "reactpy-importmap" or set(attrs) - {"type", "id", "key"}:
        raise Violation(f"the script has the attributes {attrs}")
    try:
        got = json.loads(content)
    except ValueError:
        raise Violation(f"the map is not JSON: {content}") from None
    if got != {"imports": want}:
        raise Violation(f"the map is {got} instead of {want}")
    rec.tag("local" if kw.get("use_local") else f)
    rec.nt(len(kw) > 0)


def gen_map(g):
    return {**({"framework": g.pick([None, "react", "preact", "react", "preact", "", "vue", "React"])} if g.p(0.7) else {}), **({"version": g.pick(VERSIONS)} if g.p(0.6) else {}), **({"use_local": g.p(0.6)} if g.p(0.4) else {}),
            "debug": g.p(0.5), "named": g.p(0.7), "prefix": g.pick(["/reactpy/", "/", "/a/b/", "/\u00e9/"])}


SUBS = [
    Sub("reactjs", gen=gen_map, run=run_map, quick=1500, thorough=10000, shards=1, rule="import maps of every framework, version and setting, read from the page's head; non-trivial = any argument"),
    Sub("exports", gen=gen_exports, valid=valid_exports, run=run_exports, quick=45000, thorough=500000, shards=3,
        rule="module texts of several export statements of all forms and other code in varying layout; non-trivial = at least two kinds of export"),
    Sub("graphs", gen=gen_graph, valid=valid_graph, run=run_graph, quick=9000, thorough=100000, shards=2,
        rule="graphs of files and URLs that re-export each other by relative, root, host and absolute specifiers, with failures; non-trivial = three modules and depth of two"),
    Sub("modules", gen=gen_modules, valid=valid_modules, run=run_modules, quick=4500, thorough=60000, shards=3,
        rule="histories of creations from strings, files, URLs and packages with reused names; every created module is fetched; non-trivial = three constructors"),
    Sub("threads", gen=gen_threads, run=run_threads, quick=180, thorough=3000, shards=1, rule="threads that create the same module; non-trivial = more than one thread"),
]
