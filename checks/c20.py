import ast
import asyncio
import json
import re
import shutil
import sys
import tempfile
import textwrap
import types
import warnings
from pathlib import Path
from urllib.parse import unquote

import reactpy.executors.pyscript.utils as P
from reactpy import html, pyscript_component
from reactpy.core.layout import Layout
from reactpy.executors.asgi.pyscript import ReactPyCsr
from reactpy.executors.asgi.standalone import ReactPy
from reactpy.templatetags import jinja as J
from reactpy.types import VdomDict  # noqa: F401
from reactpy.utils import reactpy_to_string

import asgi as A
import c12 as H
import vloop
import wheel
import world as W
from c16 import parse_page
from lib import Sub, Violation

warnings.simplefilter("ignore")
PROPERTY = "C20"
WHEEL = wheel.install()
ASSUMPTIONS = ["programs hold what may stand in a function: no star or future imports, no global statements; nothing reads __doc__ or line numbers",
               "raw strings do not hold </script or <!--, no string has a backslash right before them", "path prefixes hold no quotes or &", "the wheel of this package is a stand-in"]

# ---------------------------------------------------------------- programs
PIECES = ["#", " # no comment\n", "\t", "\n", "\n\n\n", "  ", "\\n", "\\\\", "\\t", "a", "é", "日本", "</script>", "<!--", "</SCRIPT >", "&amp;", "&", "<b>", "'", '"', "'''", '"""', "\n    ", "\n\t#x", "def root():", "UUID", "return root()",
          "    def root(): ...", "{{x}}", "\\\n", " \n", "\n   \n", "]]>", "\x0c", "%s", "$", "    '''doc'''", '\n    """\n', ";", "\\x3c", "\\u00e9"]
QUOTES = ["'", '"', "'''", '"""']
PREFIXES = ["", "", "", "r", "b", "f", "rb", "u", "fr"]
T = [
    "v@ = L", "v@ = L  # c L", "v@ = [\n\tL,  # one\n\n\t# two\n\tL\n]", "def f@():\n\tL\n\treturn L", "def f@(): L", "def f@():\n\tL", "class K@:\n\tL", "class K@:\n\tL\n\n\ta = L\n\n\tdef m(self):\n\t\tL\n\t\treturn L\n",
    "v@ = 1 if x else L", "if c@:\n\t# only\n\tpass\nelif d:\n\tv@ = L # t\nelse:\n\t\tv@ = L", "v@ = (L\n\tL\n L)", "v@ = L + \\\n\tL", "v@ = 1 + \\\n\n", "L", "L; v@ = L", "async def f@(a=L):\n\tL; return a", "def f@():\n\t(\n\t\tL\n\t)\n\treturn 1",
    "def f@():\n\tL  # tail\n\n\n\t# more\n\tx = {L: L}\n\treturn x", "@deco(L)\ndef f@(*, a: L = L) -> L:\n\n\tL\n\tyield a", "v@ = lambda: L", "with a as b:\n\n\tL", "try:\n\tv@ = L\nexcept E:  # L\n\tpass\nfinally: pass", "match x:\n\tcase L: v@ = 1\n\tcase _:\n\t\tL",
    "# just a comment", "\n\n", "v@ = f'{x!r:>{w}}' L".replace("L", "'#'"), "v@ = f\"\"\"\n  {a}#\n\t{b}\n# not\n\"\"\"", "v@ = f'''{\n x\n}\n  '''", "for i in L:\n\tif i:\n\t\tL\n\telse:\n\t\tpass\n", "v@ = x[L:L]", "from m import (\n\ta,  # L\n\n\tb as c@\n)",
    "def f@():\n\t\n\tL\n\t \n\treturn 2", "v@ = -1  ;  w@ = 2 ;", "class K@(B): L", "def f@():\n\tdef g():\n\t\tL\n\t\treturn L\n\treturn g", "v@ = L.format(L)", "assert L, L", "def f@():\n\tL\n\tL\n\treturn 0", "v@ = L  \n", "x = L #", "v@ = {\n\t'k': L,\n\n\t\n}", "v@ = L \\\n\nw@ = 2", "def f@():\n\tv = L \\\n\n\treturn v", "v@ = L \\\n  \n\nw@ = L",
]
ROOTS = ["def R():\n\treturn html.div(L)", "@component\ndef R():\n\tL\n\treturn L", "def R() -> VdomDict:\n\treturn 1", "def R(a=L):\n\t# L\n\treturn a", "@component\ndef R():\n\tx, y = hooks.use_state(L)\n\n\t# note\n\tdef inc(e):\n\t\ty(L)\n\n\treturn html.div({'onClick': inc}, L)", "def R(): return L", "def R ():\n\treturn 'UUID', L"]
NAMES = ["root", "main", "App", "my_root", "_r", "root2", "wurzel_é"]


def lit(spec, raw=False):
    pre, q, pieces = spec
    body = "".join(pieces)
    if len(q) == 1:
        body = body.replace("\\\n", "\x00").replace("\n", "\\n").replace("\x00", "\\\n")
    if "f" in pre:
        body = body.replace("{{x}}", "{x}")
    t = pre + q + body + q
    if "r" in pre and not raw:
        if re.search(r"</script|<!--", body, re.I):
            return "'r'"
    if re.search(r"\\</script|\\<!--", body, re.I):
        return "'e'"
    try:
        e = ast.parse(t)
        if len(e.body) != 1 or not isinstance(e.body[0], ast.Expr) or not isinstance(e.body[0].value, (ast.Constant, ast.JoinedStr)):
            return "'x'"
        if ast.get_source_segment(t, e.body[0].value) != t:
            return "'t'"
        compile(t, "x", "eval")
    except (SyntaxError, ValueError):
        return "'s'"
    return t


def source(f, root, number, raw=False):
    out = []
    for n, (t, lits, kind) in enumerate(f["stmts"]):
        text = (ROOTS if kind else T)[t % len(ROOTS if kind else T)]
        text = text.replace("\t", f["ind"]).replace("@", f"{number}_{n}") if not kind else text.replace("\t", f["ind"])
        text = re.sub(r"\bR\b", root, text) if kind else text
        k = 0
        res = ""
        for i, ch in enumerate(text):
            if ch == "L" and not text[i - 1:i].isalnum() and not text[i + 1:i + 2].isalnum():
                l = lit(lits[k % len(lits)], raw) if lits else "'z'"
                line = text[:i].rsplit("\n", 1)[-1]
                if "# " in line:
                    l = l.split("\n")[0]
                res += l
                k += 1
            else:
                res += ch
        try:
            ast.parse(res)
            if not kind:
                compile(res, "x", "exec")
        except (SyntaxError, ValueError):
            res = "pass" if not kind else f"def {root}(): return 1"
        if res.rstrip().endswith("\\"):
            res = "pass"
        out.append(res)
    return "\n".join(out) + ("\n" if f["end"] else "")


class NoDoc(ast.NodeTransformer):
    """docstrings are not part of the program"""

    def visit(self, node):
        self.generic_visit(node)
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Module)):
            b = node.body
            if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
                node.body = b[1:]
            # once gone, the next one could look like one
            node.body = [s for i, s in enumerate(node.body) if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str))] or [ast.Pass()]
            if len(node.body) > 1:
                node.body = [s for s in node.body if not isinstance(s, ast.Pass)] or [ast.Pass()]
        return node


def program_of(tree):
    return ast.dump(NoDoc().visit(tree))


def reduced(code, files, root, what, told):
    """the executor with the author's program replaced by a root that returns `told`"""
    try:
        tree = ast.parse(code)
    except (SyntaxError, ValueError) as e:
        raise Violation(f"{what}: the executor is invalid: {e}\n{code}") from None
    want = [ast.dump(x) for x in NoDoc().visit(ast.Module(body=[s for f in files for s in ast.parse(f).body], type_ignores=[])).body]
    for fn in tree.body:
        if not isinstance(fn, ast.FunctionDef):
            continue
        body = NoDoc().visit(ast.Module(body=fn.body, type_ignores=[])).body
        dumps = [ast.dump(x) for x in body]
        for i in range(len(dumps) - len(want) + 1):
            if dumps[i:i + len(want)] == want:
                fn.body = [*body[:i], *ast.parse(f"def {root}():\n    return {told!r}").body, *body[i + len(want):]]
                return compile(ast.fix_missing_locations(tree), "executor", "exec")
    raise Violation(f"{what}: the program\n{'----'.join(files)}\nbecame\n{code}")


def started(codes):
    """what the layout handler is run with when the given programs are loaded by one page"""
    calls = []

    class Handler:
        def __init__(self, uuid):
            self.uuid = uuid

        async def run(self, fn):
            calls.append((self.uuid, fn))
    mod = types.ModuleType("reactpy.executors.pyscript.layout_handler")
    mod.ReactPyLayoutHandler = Handler
    old = sys.modules.get(mod.__name__)
    sys.modules[mod.__name__] = mod
    try:
        async def main(loop):
            ns = {}
            for code in codes:
                exec(code, ns)
            await asyncio.sleep(0)
            await asyncio.sleep(0)
        vloop.run(main)
    finally:
        if old is None:
            del sys.modules[mod.__name__]
        else:
            sys.modules[mod.__name__] = old
    return calls


def check_executor(code, files, root, uuid, what):
    check_executors({uuid: code}, files, root, what)


def check_executors(codes, files, root, what):
    calls = started([reduced(c, files, root, what, u) for u, c in codes.items()])
    if [u for u, _ in calls] != list(codes):
        raise Violation(f"{what}: the layout handlers of the page are {calls}, not {list(codes)}\n{next(iter(codes.values()))}")
    for u, fn in calls:
        try:
            got = fn()
        except Exception as e:
            raise Violation(f"{what}: starting the root {root} failed with {e!r}\n{codes[u]}") from None
        if got != u:
            raise Violation(f"{what}: not the root {root} of {u} is started but {got!r}\n{codes[u]}")


def run_programs(case, rec):
    texts = [source(f, case["root"], n, case.get("raw", False)) for n, f in enumerate(case["files"])]
    base = Path(tempfile.mkdtemp(prefix="verif-c20-"))
    try:
        paths = []
        for n, t in enumerate(texts):
            p = base / f"f{n}.py"
            p.write_text(t, encoding="utf-8")
            paths.append(str(p))
        raw = {p: t for p, t in zip(paths, texts)}
        for mode in ("minified", "handler"):
            handler = None if mode == "minified" else raw.__getitem__
            code = P.pyscript_executor_html(paths, "abc123", case["root"], handler)
            check_executors({"abc123": code, **({"def456": P.pyscript_executor_html(paths, "def456", case["root"], handler)} if mode == "handler" else {})}, texts, case["root"], mode)
        for p, t in zip(paths, texts):
            m = P.minify_python(t)
            if program_of(ast.parse(m)) != program_of(ast.parse(t)):
                raise Violation(f"minifying\n{t}\ngave\n{m}")
            if re.search(r"(?m)^\s*# only", m) and "# only" not in "".join(l for l in t.split("\n") if "'" in l or '"' in l):
                raise Violation(f"comments are left in\n{m}")
            if P.fetch_cached_python_file(p, False) != t.strip():
                raise Violation("a file was changed although it was not to be minified")
        # the whole page
        page = P.pyscript_component_html(paths, "<p>wait</p>", case["root"])
        top = H.parse(page)
        if [x[0] for x in top] != ["div", "script"] or top[0][2] != [["p", {}, ["wait"]]]:
            raise Violation(f"the component's page is {page!r:.1500}")
        uuid = top[0][1].get("data-uuid")
        if top[0][1] != {"id": f"pyscript-{uuid}", "class": "pyscript", "data-uuid": uuid} or top[1][1] != {"type": "py"} or not uuid:
            raise Violation(f"elements {top[0][1]} {top[1][1]}")
        text = "".join(top[1][2])
        if "<!--" in text:
            raise Violation(f"the script opens a comment: {text}")
        check_executor(text, texts, case["root"], uuid, "page")
        if case["component"]:
            check_component(paths, texts, case["root"])
        if case["missing"]:
            try:
                P.pyscript_executor_html(paths, "u", "nowhere")
            except ValueError:
                pass
            else:
                raise Violation("a root that does not exist is accepted")
        if case["exec"]:
            execute(code, rec)
        rec.nt(sum(len(f["stmts"]) for f in case["files"]) >= 3)
        rec.tag(f"files{len(texts)}", *(["multi-line"] if any("'''" in t or '"""' in t for t in texts) else []))
    finally:
        getattr(P.fetch_cached_python_file, "cache_clear", int)()
        shutil.rmtree(str(base))


def execute(code, rec):
    """run what can be run: the handler gets the workspace"""
    try:
        calls = started([compile(code, "executor", "exec")])
    except SyntaxError as e:
        raise Violation(f"the executor does not compile: {e}\n{code}") from None
    if len(calls) != 1 or calls[0][0] != "abc123" or not callable(calls[0][1]):
        raise Violation(f"the layout handler was run with {calls}")
    rec.tag("executed")


def check_component(paths, texts, root):
    async def main(loop):
        async with Layout(pyscript_component(*paths, initial="<i>soon</i>", root=root)) as layout:
            model = {}
            for _ in range(4):
                try:
                    upd = await asyncio.wait_for(layout.render(), 1)
                except TimeoutError:
                    break
                model = W.apply_update(model, upd)
            return model
    model = vloop.run(main)
    found = []

    def walk(n):
        if isinstance(n, dict):
            if n.get("tagName") in ("script", "div"):
                found.append(n)
            for c in n.get("children", ()):
                walk(c)
    walk(model)
    scripts = [n for n in found if n["tagName"] == "script"]
    divs = [n for n in found if n["tagName"] == "div" and "pyscript" in str(n.get("attributes", {}).get("className", n.get("attributes", {}).get("class")))]
    if len(scripts) != 1 or len(divs) != 1 or scripts[0]["attributes"].get("type") != "py":
        raise Violation(f"the component renders {json.dumps(model)[:1500]}")
    at = divs[0]["attributes"]
    uuid = at.get("id", "")[9:]
    if at.get("data-uuid", at.get("dataUuid")) != uuid or not uuid:
        raise Violation(f"the container has attributes {at}")
    if "soon" not in json.dumps(divs[0]["children"]):
        raise Violation(f"the container holds {divs[0]['children']}")
    check_executor("".join(scripts[0]["children"]), texts, root, uuid, "component")


def gen_lit(g):
    return [g.pick(PREFIXES), g.pick(QUOTES), [g.pick(PIECES) for _ in range(g.weighted([(1, 0), (3, 1), (3, 2), (2, 4)]))]]


def gen_programs(g):
    files = []
    n = g.weighted([(3, 1), (2, 2), (1, 3)])
    at = g.i(0, n - 1)
    for i in range(n):
        st = [[g.i(0, len(T) - 1), [gen_lit(g) for _ in range(g.i(1, 3))], 0] for _ in range(g.size(0, 5))]
        if i == at:
            st.insert(g.i(0, len(st)), [g.i(0, len(ROOTS) - 1), [gen_lit(g) for _ in range(2)], 1])
        files.append({"stmts": st, "ind": g.pick(["    ", "\t", "  "]), "end": g.p(0.7)})
    return {"files": files, "root": g.pick(NAMES), "component": g.p(0.15), "missing": g.p(0.1), "exec": g.p(0.3)}


def valid_programs(c):
    try:
        if c["root"] not in NAMES or not c["files"]:
            return None
        kinds = [s[2] for f in c["files"] for s in f["stmts"]]
        if kinds.count(1) != 1 or any(k not in (0, 1) for k in kinds):
            return None
        for n, f in enumerate(c["files"]):
            if f["ind"] not in ("    ", "\t", "  "):
                return None
            for t, lits, k in f["stmts"]:
                if not 0 <= t < len(ROOTS if k else T) or any(l[0] not in PREFIXES or l[1] not in QUOTES or any(p not in PIECES for p in l[2]) for l in lits):
                    return None
            s = source(f, c["root"], n)
            ast.parse(s)
        return c
    except (KeyError, TypeError, ValueError, SyntaxError, AttributeError, IndexError):
        return None


# ---------------------------------------------------------------- pages
WORDS = ["orjson", "tabulate==0.9", "./x.whl", "https://h/p?a=1&copy=2&lt;=3", "it's", 'say "x"', "</script>", "<b>", "&#39;", "&amp;", "é日本\U0001F600", "a b", "\\", "\n", "{}", "\u2028", "'><img src=x>", "a&b;c", "]]>"]
KEYS = ["packages_cache", "name", "it's", "k&lt;", "packages", "js_modules", "a\"b", "é", "nested"]
PATHPRE = ["/reactpy/", "/", "/x/y/", "/é/"]


def gen_json(g, d=0):
    r = g.random()
    if r < 0.5:
        return g.pick(WORDS)
    if r < 0.7:
        return g.pick([1, 0, True, None, 2.5, "always", "never"])
    if r < 0.85 and d < 2:
        return [gen_json(g, d + 1) for _ in range(g.i(0, 3))]
    return {g.pick(WORDS): gen_json(g, d + 1) for _ in range(g.i(0, 2))} if d < 2 else "x"


def gen_pages(g):
    while True:
        pre = g.pick(["default", "none", None])
        if pre is None:
            pre = H.gen_node(g, 2)
            if pre["t"] != "el" or pre.get("mapping"):
                continue
        break
    return {"py": [g.pick(WORDS) for _ in range(g.i(0, 3))], "js": {g.pick(WORDS): g.pick(WORDS) for _ in range(g.i(0, 3))}, "config": {g.pick(KEYS): gen_json(g) for _ in range(g.i(0, 3))}, "text": [g.p(0.3), g.p(0.3)],
            "prefix": g.pick(PATHPRE), "debug": g.p(0.3), "head": [c16_head(g) for _ in range(g.size(0, 3))] if g.p(0.6) else None, "prepend": pre, "lang": g.pick([None, "en", "de-AT", ""]),
            "initial": g.pick(["", "<b>wait &amp; see</b>", None]) or ({"node": gen_el(g)}), "way": g.pick(["setup", "csr", "csr", "standalone"]), "twice": g.p(0.3)}


def gen_el(g):
    while True:
        n = H.gen_node(g, 2)
        if n["t"] == "el" and not n.get("mapping"):
            return n


def c16_head(g):
    import c16
    if g.p(0.3):
        return {"t": "el", "tag": "script", "attrs": {}, "ch": [{"t": "lit", "v": g.pick(["var a = '</head>';", "x('</head><body>')", "a && b"])}]}
    return c16.head_node(g)


def check_setup(els, case, what):
    """link, (link), script, script type=py with the config"""
    want = ["link", "script", "script"] if case["debug"] else ["link", "link", "script", "script"]
    if [e[0] for e in els] != want:
        raise Violation(f"{what}: the setup is {els!r:.700}")
    st = case["prefix"] + "static/"
    if els[0][1].get("rel") != "stylesheet" or els[0][1].get("href") != st + "pyscript/core.css":
        raise Violation(f"{what}: {els[0]}")
    if not case["debug"] and els[1][1].get("href") != st + "pyscript-hide-debug.css":
        raise Violation(f"{what}: {els[1]}")
    if els[-2][1].get("type") != "module" or els[-2][1].get("src") != st + "pyscript/core.js":
        raise Violation(f"{what}: {els[-2]}")
    py = els[-1]
    if py[1].get("type") != "py" or "config" not in py[1]:
        raise Violation(f"{what}: {py!r:.300}")
    if ast.dump(ast.parse("".join(py[2]))) != HANDLER:
        raise Violation(f"{what}: the handler script is {py[2]!r:.600}")
    try:
        cfg = json.loads(py[1]["config"])
    except ValueError as e:
        raise Violation(f"{what}: the config is no JSON: {e}: {py[1]['config']}") from None
    packages = [st + "wheels/" + WHEEL, "jsonpointer==3.*", *case["py"]]
    exp = {"packages": packages, "js_modules": {"main": {st + "morphdom/morphdom-esm.js": "morphdom", **case["js"]}}, "packages_cache": "never", **case["config"]}
    if cfg != exp:
        raise Violation(f"{what}: the config is\n{cfg}\ninstead of\n{exp}")


HANDLER_SRC = (Path(P.__file__).parent / "layout_handler.py").read_text(encoding="utf-8")


def strip_docs(t):
    for n in ast.walk(t):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)) and ast.get_docstring(n, clean=False) is not None and len(n.body) > 1:
            n.body = n.body[1:]
    return t


HANDLER = ast.dump(strip_docs(ast.parse(HANDLER_SRC)))


def run_pages(case, rec):
    with A.config_restored():
        pages(case, rec)


def pages(case, rec):
    base = Path(tempfile.mkdtemp(prefix="verif-c20-"))
    try:
        f = base / "f.py"
        f.write_text("def root():\n\treturn '<!--x'\n")
        settings = {"path_prefix": case["prefix"], "debug": case["debug"]}
        js = json.dumps(case["js"]) if case["text"][0] else case["js"]
        config = json.dumps(case["config"]) if case["text"][1] else case["config"]
        keep = json.dumps([case["js"], case["config"], case["py"]])
        initial = H.build(case["initial"]["node"]) if isinstance(case["initial"], dict) else case["initial"]
        head = None if case["head"] is None else html.head({}, *[H.build(n) for n in case["head"]])
        head_before = None if head is None else json.dumps(reactpy_to_string(head))
        kw = dict(settings)
        if head is not None:
            kw["html_head"] = head
        if case["prepend"] == "none":
            kw["prepend_body"] = None
        elif case["prepend"] != "default":
            kw["prepend_body"] = H.build(case["prepend"])
        if case["lang"] is not None:
            kw["html_lang"] = case["lang"]
        rec.tag(case["way"])
        if case["way"] == "setup":
            from reactpy.executors.utils import process_settings
            process_settings(settings)
            for out in (P.pyscript_setup_html(case["py"], js, config), J.pyscript_setup(*case["py"], extra_js=js, config=config)):
                check_setup(H.parse(out), case, "setup")
            out = P.pyscript_component_html([str(f)], initial, "root")
            top = H.parse(out)
            want_initial(top[0], case, out)
        else:
            if case["way"] == "csr":
                def build():
                    return ReactPyCsr(f, extra_py=case["py"], extra_js=js or None, pyscript_config=config or None, initial=initial, **kw)
            else:
                opts = {k: v for k, v in (("extra_py", case["py"]), ("extra_js", js), ("config", config)) if v}
                def build():
                    return ReactPy(W_root, pyscript_setup=True, pyscript_options=opts if opts or case["twice"] else None, **kw)
            apps = [build() for _ in range(2 if case["twice"] else 1)]
            for app in apps:
                r = A.go(A.request(app, A.http_scope("/")))
                r2 = A.go(A.request(app, A.http_scope("/")))
                if r.status != 200 or r2.body != r.body or r.bad:
                    raise Violation(f"status {r.status} {r.bad}, the same page again: {r2.body == r.body}")
                page = r.body.decode()
                top = [e for e in parse_page(page) if isinstance(e, list)]
                if len(top) != 1 or top[0][0] != "html" or top[0][1] != {"lang": "en" if case["lang"] is None else case["lang"]}:
                    raise Violation(f"page {page[:300]}")
                parts = [e for e in top[0][2] if isinstance(e, list)]
                if [x[0] for x in parts] != ["head", "body"]:
                    raise Violation(f"page {page[:600]}")
                exp = []
                for x in case["head"] or ():
                    H.expect(x, exp)
                kids = H.join(parts[0][2])
                if case["way"] == "standalone":
                    kids = plain_setup(kids)
                n = 3 if case["debug"] else 4
                H.compare(kids[:-n], exp, "head", page)
                check_setup(kids[-n:], case, case["way"])
                if case["way"] == "csr":
                    exp = []
                    if case["prepend"] == "default":
                        exp = [["noscript", {}, ["Enable JavaScript to view this site."]]]
                    elif case["prepend"] != "none":
                        H.expect(case["prepend"], exp)
                    body = H.join(parts[1][2])
                    H.compare(body[:-2], exp, "body", page)
                    div, script = body[-2:]
                    if div[0] != "div" or script[0] != "script" or script[1] != {"type": "py"}:
                        raise Violation(f"page {page!r:.900}")
                    uuid = div[1].get("data-uuid")
                    if div[1] != {"id": f"pyscript-{uuid}", "class": "pyscript", "data-uuid": uuid}:
                        raise Violation(f"container {div[1]}")
                    want_initial(div, case, page)
                    check_executor("".join(script[2]), [f.read_text()], "root", uuid, "csr")
        if json.dumps([case["js"], case["config"], case["py"]]) != keep:
            raise Violation("the options given were modified")
        if head is not None and json.dumps(reactpy_to_string(head)) != head_before:
            raise Violation("the head given was modified")
        rec.nt(bool(case["py"]) + bool(case["js"]) + bool(case["config"]) >= 2)
    finally:
        getattr(P.fetch_cached_python_file, "cache_clear", int)()
        shutil.rmtree(str(base))


def plain_setup(kids):
    """the setup of standalone pages has been through the parser, which wraps it in a head (browsers ignore it), adds keys and escapes URLs"""
    if not isinstance(kids[-1], list) or kids[-1][0] != "head":
        raise Violation(f"no setup in {kids!r:.500}")
    out = []
    for tag, attrs, ch in kids[-1][2]:
        attrs = {k: unquote(v) if k in ("href", "src") else v for k, v in attrs.items() if k != "key"}
        out.append([tag, attrs, ch])
    return kids[:-1] + out


def want_initial(div, case, out):
    exp = []
    if isinstance(case["initial"], dict):
        H.expect(case["initial"]["node"], exp)
    elif case["initial"]:
        exp = [["b", {}, ["wait & see"]]]
    H.compare(div[2], exp, "initial", out)


from reactpy import component  # noqa: E402


@component
def W_root():
    return html.div("x")


def valid_pages(c):
    import c16
    try:
        if c16.valid({"head": c["head"] and [n for n in c["head"] if not (n.get("tag") == "script" and "head" in str(n["ch"]))], "prepend": c["prepend"], "lang": c["lang"] if c["lang"] not in ("en", "") else None, "headers": [], "settings": {}, "requests": []}) is None:
            return None
        if isinstance(c["initial"], dict):
            if c["initial"]["node"]["t"] != "el" or c["initial"]["node"].get("mapping") or H.valid({"root": c["initial"]["node"]}) is None:
                return None
        elif c["initial"] not in ("", "<b>wait &amp; see</b>"):
            return None
        if c["way"] not in ("setup", "csr", "standalone") or c["prefix"] not in PATHPRE or any(not isinstance(x, str) or not x for x in c["py"]) or not isinstance(c["config"], dict) or any(not isinstance(v, str) for v in c["js"].values()):
            return None
        if not all(isinstance(x, bool) for x in (*c["text"], c["debug"], c["twice"])):
            return None
        return c
    except (KeyError, TypeError, ValueError, AttributeError):
        return None


SUBS = [
    Sub("programs", gen=gen_programs, valid=valid_programs, run=run_programs, quick=10500, thorough=80000, shards=5,
        rule="programs of several files, indentations and comments with string literals of all kinds holding code, comments, quotes, line breaks and markup; non-trivial = three statements"),
    Sub("pages", gen=gen_pages, valid=valid_pages, run=run_pages, quick=6000, thorough=40000, shards=3,
        rule="client-side pages, setups and standalone pages with packages, modules, configs, heads and initial content of hostile text; non-trivial = two kinds of options"),
]
