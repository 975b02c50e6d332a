"""PyScript components in a browser with a stand-in DOM."""
import asyncio
import functools
import json
import logging
import re
import shutil
import sys
import tempfile
import types
import warnings
from pathlib import Path

import reactpy.executors.pyscript.utils as P
from reactpy import Vdom, event

import c12 as H
import vloop
import wheel
from lib import Sub, Violation

warnings.simplefilter("ignore")
logging.getLogger("reactpy").setLevel(logging.CRITICAL)
PROPERTY = "C26"
wheel.install()
ASSUMPTIONS = ["the browser is a stand-in: a DOM written in Python, Pyodide's event wrappers, and a morphdom that keeps elements of the same name (or id) and copies attributes but no listeners",
               "attribute values are strings, whole numbers, booleans or None; styles are strings or whole numbers without unit; no SVG, imported JavaScript or form fields' contents"]


# ------------------------------------------------------------------ a browser
class NodeList(list):
    def item(self, i):
        return self[i] if 0 <= i < len(self) else None

    @property
    def length(self):
        return len(self)


class Node:
    made = 0

    def __init__(self):
        Node.made += 1
        self.js_id = Node.made
        self.parentNode = None
        self.childNodes = NodeList()

    def remove(self):
        if self.parentNode is not None:
            self.parentNode.childNodes[:] = [c for c in self.parentNode.childNodes if c is not self]
            self.parentNode = None

    def appendChild(self, c):
        return self.insertBefore(c, None)

    def insertBefore(self, c, ref):
        c.remove()
        i = len(self.childNodes) if ref is None else next(i for i, x in enumerate(self.childNodes) if x is ref)
        self.childNodes.insert(i, c)
        c.parentNode = self
        return c

    @property
    def firstChild(self):
        return self.childNodes.item(0)

    @property
    def parentElement(self):
        return self.parentNode


class Text(Node):
    nodeType, nodeName = 3, "#text"

    def __init__(self, data):
        super().__init__()
        self.nodeValue = self.data = self.textContent = js_str(data)


class Style:
    def __init__(self, d=()):
        object.__setattr__(self, "d", dict(d))

    def __setattr__(self, k, v):
        self.setProperty(re.sub("[A-Z]", lambda m: "-" + m[0].lower(), k), v) if not k.startswith("-") else None

    def setProperty(self, k, v):
        if v is None or v == "":
            self.d.pop(k, None)
        else:
            self.d[k] = js_str(v)


def js_str(v):
    if v is None:
        return "undefined"
    if v is True or v is False:
        return str(v).lower()
    return str(v)


class El(Node):
    nodeType = 1

    def __init__(self, tag):
        super().__init__()
        self.nodeName = self.tagName = tag.upper()
        self.attributes = {}
        self.style = Style()
        self.listeners = []

    def setAttribute(self, k, v):
        if not k or re.search(r"[\s\"'>/=\x00]", k):
            raise ValueError("InvalidCharacterError")
        self.attributes[k.lower()] = js_str(v)

    def getAttribute(self, k):
        return self.attributes.get(k.lower())

    def hasAttribute(self, k):
        return k.lower() in self.attributes

    def removeAttribute(self, k):
        self.attributes.pop(k.lower(), None)

    className = property(lambda s: s.attributes.get("class", ""), lambda s, v: s.setAttribute("class", v))
    htmlFor = property(lambda s: s.attributes.get("for", ""), lambda s, v: s.setAttribute("for", v))
    id = property(lambda s: s.attributes.get("id", ""), lambda s, v: s.setAttribute("id", v))

    @property
    def dataset(self):
        return types.SimpleNamespace(**{re.sub("-(.)", lambda m: m[1].upper(), k[5:]): v for k, v in self.attributes.items() if k.startswith("data-")})

    def cloneNode(self, deep=False):
        c = El(self.tagName)
        c.attributes = dict(self.attributes)
        c.style = Style(self.style.d)
        if deep:
            for x in self.childNodes:
                c.appendChild(x.cloneNode(True))
        return c

    def addEventListener(self, name, f, *opts):
        if not any(n == name and g is f for n, g in self.listeners):
            self.listeners.append((name, f))

    def removeEventListener(self, name, f, *opts):
        self.listeners = [(n, g) for n, g in self.listeners if not (n == name and g is f)]


class Event:
    def __init__(self, name, target):
        self.type, self.target, self.currentTarget = name, target, None
        self.defaultPrevented = self.stopped = False

    def preventDefault(self):
        self.defaultPrevented = True

    def stopPropagation(self):
        self.stopped = True


def dispatch(el, name):
    ev = Event(name, el)
    while el is not None and not ev.stopped:
        ev.currentTarget = el
        for n, f in list(el.listeners):
            if n == name:
                f(ev)
        el = el.parentNode
    return ev


def descend(node):
    for c in node.childNodes:
        yield c
        yield from descend(c)


class Document:
    def __init__(self):
        self.body = El("body")
        self.used = set()

    def createElement(self, tag):
        return El(tag)

    def createElementNS(self, ns, tag):
        return El(tag)

    def createTextNode(self, data):
        return Text(data)

    def getElementById(self, i):
        return next((n for n in descend(self.body) if n.nodeType == 1 and n.id == i), None)

    def querySelectorAll(self, sel):
        assert re.fullmatch(r"\.[\w-]+", sel), sel
        return NodeList(n for n in descend(self.body) if n.nodeType == 1 and sel[1:] in n.className.split())


def morph(old, new):
    """what morphdom does: the old nodes stay where the new ones are alike"""
    old.attributes = dict(new.attributes)
    old.style = Style(new.style.d)
    by_id = {n.id: n for n in descend(old) if n.nodeType == 1 and n.id}
    new_ids = {n.id for n in descend(new) if n.nodeType == 1 and n.id}
    i = 0
    for c in list(new.childNodes):
        key = c.nodeType == 1 and c.id
        m = by_id.get(key) if key else None
        if m is not None and m.nodeName == c.nodeName and m.parentNode is old:
            if m is not old.childNodes.item(i):
                m.remove()
                old.insertBefore(m, old.childNodes.item(i))
        else:
            m = None
            while not key and i < len(old.childNodes):
                x = old.childNodes[i]
                xkey = x.nodeType == 1 and x.id
                if xkey and xkey in new_ids:
                    break
                if not xkey and x.nodeName == c.nodeName:
                    m = x
                    break
                x.remove()
        if m is None:
            old.insertBefore(c, old.childNodes.item(i))
        elif m.nodeType == 3:
            m.nodeValue = m.data = m.textContent = c.nodeValue
        else:
            morph(m, c)
        i += 1
    for x in list(old.childNodes[i:]):
        x.remove()


PROXIES = {}


def add_event_listener(elt, event, listener):
    p = PROXIES[elt.js_id, event, id(listener)] = functools.partial(listener)
    elt.addEventListener(event, p)


def remove_event_listener(elt, event, listener):
    elt.removeEventListener(event, PROXIES.pop((elt.js_id, event, id(listener))))


def module(name, **kw):
    m = types.ModuleType(name)
    vars(m).update(kw)
    sys.modules[name] = m
    return m


js = module("js")
module("pyodide")
module("pyodide.ffi", create_proxy=lambda f: f, to_js=lambda v, **k: v)
module("pyodide.ffi.wrappers", add_event_listener=add_event_listener, remove_event_listener=remove_event_listener)
module("pyscript", document=None, window=js)
module("pyscript.js_modules", morphdom=types.SimpleNamespace(default=lambda a, b, *o: morph(a, b)))

# ------------------------------------------------------------------ programs
def handler(h, n, set_n):
    def f(e):
        if e.type is None:
            raise ValueError
        set_n(lambda v: v + h[0])
    return event(f, prevent_default=h[1], stop_propagation=h[2]) if h[1] or h[2] else f


def build(node, n, set_n, part):
    if isinstance(node, str):
        return node.replace("@", str(n))
    if "comp" in node:
        return part(node["comp"], key="c" + str(node["comp"]))
    if "none" in node:
        return None
    children = [build(c, n, set_n, part) for c in node["c"]]
    if not node["t"]:
        return Vdom("")(*children)
    attrs = {k: (v.replace("@", str(n)) if isinstance(v, str) else v) for k, v in node["a"].items()}
    if node["s"]:
        attrs["style"] = {k: v.replace("@", str(n % 2)) if isinstance(v, str) else v for k, v in node["s"].items()}
    for name, h in node["h"].items():
        attrs[name] = handler(h, n, set_n)
    return Vdom(node["t"])(attrs, *children)


module("pagelib", build=build)
HELPER = '''
import js
from reactpy import component, hooks
from pagelib import build

TAG = @TAG@
SPEC = js.specs[TAG]


def use_all(where, spec):
    n, set_n = hooks.use_state(spec["start"])

    @hooks.use_effect(dependencies=[])
    def alive():
        js.log.append([TAG, where, "start"])
        return lambda: js.log.append([TAG, where, "stop"])

    v = spec["v"][n % len(spec["v"])]
    if v == "raise":
        raise ValueError("boom")
    return build(v, n, set_n, part)


@component
def part(i):
    return use_all(i, SPEC["parts"][i])
'''
ROOT = '''
@component
def root():
    return use_all("root", SPEC["root"])
'''
NESTED = '''
@component
def INNER():
    return use_all("root", SPEC["root"])


@component
def OUTER():
    return INNER()
'''
EVENTS = {"onClick": "click", "onMouseDown": "mousedown", "onDoubleClick": "dblclick", "onKeyUp": "keyup", "onPointerDown": "pointerdown"}
ATTRS = {"title": ["a", "t@", ""], "className": ["x", "k@ y"], "data-x": ["1", "@", True, False], "aria-hidden": [True, False], "hidden": [True, False, None], "disabled": [True, False], "tabIndex": [0, 3], "htmlFor": ["q"],
         "lang": ["de", None], "id": None, "href": ["#@"], "colSpan": [2]}
TAGS = ["div", "p", "button", "span", "ul", "li", "input", "label", "custom-el"]
STYLES = {"color": ["red", "blue"], "backgroundColor": ["green"], "width": ["1px", "@em"], "opacity": [0, "0.5"], "order": [2, 0]}


class Ref:
    """one component on the page"""

    def __init__(self, spec):
        self.spec = spec
        self.state = {"root": spec["root"]["start"]}

    def sub(self, where):
        return self.spec["root"] if where == "root" else self.spec["parts"][where]

    def shown(self, where):
        s = self.sub(where)
        return s["v"][self.state[where] % len(s["v"])]

    def expect(self):
        live = set()
        out = self.nodes(self.visit("root", live), "root", live)
        for k in set(self.state) - live - {"root"}:
            del self.state[k]
        return out

    def visit(self, where, live):
        live.add(where)
        v = self.shown(where)
        return v

    def nodes(self, v, where, live):
        if v == "raise" or isinstance(v, dict) and "none" in v:
            return []
        n = self.state[where]
        if isinstance(v, str):
            return [v.replace("@", str(n))]
        if "comp" in v:
            i = v["comp"]
            self.state.setdefault(i, self.spec["parts"][i]["start"])
            return self.nodes(self.visit(i, live), i, live)
        kids = [x for c in v["c"] for x in self.nodes(c, where, live)]
        if not v["t"]:
            return kids
        a = {}
        for k, x in v["a"].items():
            if x is None or x is False and k[4:5] != "-":
                continue
            x = x.replace("@", str(n)) if isinstance(x, str) else x if isinstance(x, bool) and k[4:5] != "-" else js_str(x)
            a[{"className": "class", "htmlFor": "for"}.get(k, k.lower())] = x
        st = {re.sub("[A-Z]", lambda m: "-" + m[0].lower(), k): js_str(x).replace("@", str(n % 2)) for k, x in v["s"].items()}
        return [{"t": v["t"].upper(), "a": a, "s": st, "h": {EVENTS[k]: (h, where) for k, h in v["h"].items()}, "c": kids}]


def differs(exp, dom, path):
    def joined(ns, text):
        out = []
        for x in ns:
            t = text(x)
            if t is None:
                out.append(x)
            elif out and isinstance(out[-1], str):
                out[-1] += t
            elif t:
                out.append(t)
        return out
    e = joined(exp, lambda x: x if isinstance(x, str) else None)
    d = joined(dom, lambda x: x.nodeValue if x.nodeType == 3 else None)

    def short(x):
        return repr(x) if isinstance(x, str) else f"<{(x['t'] if isinstance(x, dict) else x.tagName).lower()}>"
    if [short(x) for x in e] != [short(x) for x in d]:
        return f"{path} shows {[short(x) for x in d]} instead of {[short(x) for x in e]}"
    for i, (x, y) in enumerate(zip(e, d)):
        if isinstance(x, str):
            continue
        p = f"{path}/{x['t'].lower()}[{i}]"
        got = dict(y.attributes)
        if set(got) != set(x["a"]) or any(v is not True and got[k] != v for k, v in x["a"].items()):
            return f"{p} has attributes {got} instead of {x['a']}"
        if y.style.d != x["s"]:
            return f"{p} has style {y.style.d} instead of {x['s']}"
        r = differs(x["c"], y.childNodes, p)
        if r:
            return r
    return None


def elements(exp, chain=()):
    for x in exp:
        if not isinstance(x, str):
            yield (*chain, x)
            yield from elements(x["c"], (*chain, x))


class Comp:
    def __init__(self, ref, uuid, box, tag):
        self.ref, self.uuid, self.box, self.tag = ref, uuid, box, tag
        self.on_page = True


def balance(tag):
    n = {}
    for t, where, what in js.log:
        if t == tag:
            n[where] = n.get(where, 0) + (1 if what == "start" else -1)
    return n


def run(case, rec):
    base = Path(tempfile.mkdtemp(prefix="verif_c26_"))
    main = types.ModuleType("__main__")
    old = sys.modules["__main__"]
    sys.modules["__main__"] = main
    try:
        js.document = sys.modules["pyscript"].document = Document()
        js.log, js.specs = [], {}
        PROXIES.clear()
        vloop.run(history, case, rec, base, vars(main))
    finally:
        sys.modules["__main__"] = old
        P.fetch_cached_python_file.cache_clear()
        shutil.rmtree(str(base))


async def history(loop, case, rec, base, ns):
    doc = js.document
    page = H.parse(P.pyscript_setup_html((), {}, {}))
    setups = [n for n in page if not isinstance(n, str) and n[0] == "script" and n[1].get("type") == "py"]
    if len(setups) != 1:
        raise Violation("the setup holds no script")
    exec(compile("".join(setups[0][2]), "setup", "exec"), ns)
    comps = []
    fired = shown = 0

    async def settle():
        await loop.settle(advance=False)
        await loop.settle()

    async def check(what):
        nonlocal shown
        await settle()
        for c in comps:
            if c.on_page:
                exp = c.ref.expect()
                r = differs(exp, c.box.childNodes, f"component {c.tag}")
                if r:
                    raise Violation(f"after {what}: {r}")
                want = {w: 1 for w in c.ref.state}
                got = {w: n for w, n in balance(c.tag).items() if n}
                if want != got and c.ref.shown("root") != "raise" and not any(c.ref.shown(w) == "raise" for w in c.ref.state):
                    raise Violation(f"after {what}: effects of component {c.tag} in progress {got}, instead of {want}")
                shown += bool(exp)

    for n, op in enumerate(case["ops"]):
        k = op["op"]
        what = f"step {n} {json.dumps(op)}"
        live = [c for c in comps if c.on_page]
        if k == "mount":
            spec = case["specs"][op["s"] % len(case["specs"])]
            tag = f"p{n}"
            helper = HELPER.replace("@TAG@", repr(tag))
            js.specs[tag] = spec
            # the names of the template are free to be used
            root = NESTED.replace("OUTER", op["root"]).replace("INNER", "main" if op["root"] == "root" else "root") if op.get("nested") else ROOT.replace("def root(", "def " + op["root"] + "(")
            files = [helper, root] if op.get("split") else [helper + root]
            paths = []
            for i, f in enumerate(files):
                p = base / f"{n}_{i}.py"
                p.write_text(f)
                paths.append(str(p))
            tree = H.parse(P.pyscript_component_html(paths, "<i>soon</i>", op["root"]))
            box = [x for x in tree if x[0] == "div"]
            code = [x for x in tree if x[0] == "script"]
            if len(box) != 1 or len(code) != 1:
                raise Violation(f"{what}: page {tree}")
            el = El("div")
            for a, v in box[0][1].items():
                el.setAttribute(a, v)
            i = El("i")
            i.appendChild(Text("soon"))
            el.appendChild(i)
            doc.body.appendChild(el)
            comps.append(Comp(Ref(spec), el.dataset.uuid, el, tag))
            exec(compile("".join(code[0][2]), "executor", "exec"), ns)
            if op.get("quick"):
                continue
            await check(what)
            for c in comps:
                if not c.on_page:
                    left = {w: x for w, x in balance(c.tag).items() if x}
                    if left:
                        raise Violation(f"after {what}: component {c.tag} is no longer on the page, but its effects are in progress: {left}")
                    names = [x for x in ns if x.endswith(c.uuid)]
                    if names:
                        raise Violation(f"after {what}: component {c.tag} is no longer on the page, but its code is still there: {names}")
        elif k == "drop" and live:
            c = live[op["i"] % len(live)]
            c.box.remove()
            c.on_page = False
            rec.tag("dropped")
            await check(what)
        elif k == "fire" and live:
            await check(f"before {what}")
            c = live[op["i"] % len(live)]
            exp = c.ref.expect()
            cand = [(ch, e) for ch in elements(exp) for e in (sorted(ch[-1]["h"]) if not op.get("any") else sorted(EVENTS.values()))]
            if not cand:
                continue
            ch, name = cand[op["n"] % len(cand)]
            idx = [id(x[-1]) for x in elements(exp)].index(id(ch[-1]))
            el = [x for x in descend(c.box) if x.nodeType == 1][idx]
            ev = dispatch(el, name)
            prevented = False
            for x in reversed(ch):
                if name in x["h"]:
                    h, where = x["h"][name]
                    c.ref.state[where] += h[0]
                    prevented |= h[1]
                    fired += 1
                    rec.tag("part" if where != "root" else "event")
                    if h[2]:
                        rec.tag("stopped")
                        break
            if ev.defaultPrevented != prevented:
                raise Violation(f"{what}: the default action of {name} at {c.tag} was{'' if ev.defaultPrevented else ' not'} prevented")
            await check(what)
    await check("the end")
    rec.nt(shown >= 2 and fired >= 1)
    if len([c for c in comps if c.on_page]) > 1:
        rec.tag("several")
    fails = [str(e.get("exception")) for e in loop.exceptions if "StopIteration" not in str(e)]
    if fails and all(c.on_page for c in comps):
        raise Violation(f"an error in the background: {fails[:2]}")


# ------------------------------------------------------------------ generator
class GN:
    def __init__(self, g, parts):
        self.g, self.parts, self.n = g, parts, 0

    def node(self, d, comps):
        g = self.g
        r = g.weighted([(2, "el"), (2, "text"), (0.5, "frag"), (0.2, "none"), (1 if comps else 0, "comp")]) if d < 3 else "text"
        if r == "text":
            return g.pick(["a", "n=@", "<b>&", "é", " ", "x@y"])
        if r == "none":
            return {"none": 1}
        if r == "comp":
            return {"comp": comps.pop()}
        n = {"t": "" if r == "frag" else g.pick(TAGS), "a": {}, "s": {}, "h": {}, "c": []}
        if n["t"]:
            for _ in range(g.weighted([(3, 0), (2, 1), (1, 2)])):
                a = g.pick(sorted(ATTRS))
                if a == "id":
                    self.n += 1
                    n["a"]["id"] = f"u{self.parts}x{self.n}"
                else:
                    n["a"][a] = g.pick(ATTRS[a])
            if g.p(0.2):
                s = g.pick(sorted(STYLES))
                n["s"][s] = g.pick(STYLES[s])
            while g.p(0.45):
                n["h"][g.pick(sorted(EVENTS))] = [g.i(1, 3), g.p(0.2), g.p(0.2)]
        if n["t"] != "input":
            n["c"] = [self.node(d + 1, comps) for _ in range(g.weighted([(1, 0), (3, 1), (3, 2), (1, 3), (0.15 if d < 2 else 0, 12)]))]
        return n


def gen_spec(g):
    parts = []
    n = g.weighted([(2, 0), (2, 1), (1, 2)])
    for i in range(n):
        gn = GN(g, i)
        parts.append({"start": g.i(0, 3), "v": [gn.node(1, []) for _ in range(g.i(1, 3))]})
    vs = []
    gn = GN(g, "r")
    for _ in range(g.weighted([(1, 1), (3, 2), (1, 3)])):
        v = gn.node(0, [])
        while n and (not isinstance(v, dict) or v.get("t") in (None, "", "input")):
            v = gn.node(0, [])
        if vs and g.p(0.6):
            v = mutate(g, json.loads(json.dumps(g.pick(vs))), gn)
        elif n:
            v["t"] = "div"
            for i in g.sample(range(n), n):
                if g.p(0.8):
                    v["c"].insert(g.i(0, len(v["c"])), {"comp": i})
        vs.append(v)
    if g.p(0.05):
        vs[-1] = "raise"
    return {"root": {"start": g.i(0, 2), "v": vs}, "parts": parts}


def mutate(g, v, gn):
    if not isinstance(v, dict) or "c" not in v:
        return v
    r = g.weighted([(2, "drop"), (2, "add"), (2, "handler"), (1, "attr"), (2, "deep")])
    if r == "drop" and v["c"]:
        v["c"].pop(g.i(0, len(v["c"]) - 1))
    elif r == "add" and v["t"] != "input":
        v["c"].insert(g.i(0, len(v["c"])), gn.node(2, []))
    elif r == "handler" and v["t"]:
        k = g.pick(sorted(EVENTS))
        if v["h"].pop(k, None) is None:
            v["h"][k] = [g.i(1, 3), g.p(0.2), g.p(0.2)]
    elif r == "attr" and v["t"]:
        v["a"] = {}
    elif v["c"]:
        i = g.i(0, len(v["c"]) - 1)
        v["c"][i] = mutate(g, v["c"][i], gn)
    return v


def gen(g):
    specs = [gen_spec(g) for _ in range(g.i(1, 2))]
    ops = []
    for i in range(g.size(2, 14)):
        k = "mount" if i == 0 else g.weighted([(6, "fire"), (1.2, "mount"), (0.8, "drop")])
        if k == "mount":
            ops.append({"op": k, "s": g.i(0, 1), "root": g.pick(["root", "main", "root"]), **({"split": True} if g.p(0.3) else {}), **({"quick": True} if g.p(0.2) else {}), **({"nested": True} if g.p(0.3) else {})})
        elif k == "drop":
            ops.append({"op": k, "i": g.i(0, 3)})
        else:
            ops.append({"op": k, "i": g.i(0, 3), "n": g.i(0, 30), **({"any": True} if g.p(0.1) else {})})
    return {"specs": specs, "ops": ops}


def valid(c):
    def ok(v, parts, seen, ids, who, d=0):
        if isinstance(v, str):
            return v != "" and (v != "raise" or d == 0)
        if set(v) == {"none"}:
            return True
        if set(v) == {"comp"}:
            if d != 1 or type(v["comp"]) is not int or not 0 <= v["comp"] < parts or v["comp"] in seen:
                return False
            seen.add(v["comp"])
            return True
        if set(v) != {"t", "a", "s", "h", "c"} or v["t"] not in [*TAGS, ""] or v["t"] in ("", "input") and (v["t"] == "" and (v["a"] or v["h"] or v["s"]) or v["t"] == "input" and v["c"]):
            return False
        for k, x in v["a"].items():
            if k not in ATTRS or (k == "id" and (not re.fullmatch(rf"u{who}x\d+", x) or x in ids) or k != "id" and not any(type(x) is type(y) and x == y for y in ATTRS[k])):
                return False
            if k == "id":
                ids.add(x)
        if any(k not in STYLES or x not in STYLES[k] for k, x in v["s"].items()):
            return False
        if any(k not in EVENTS or len(h) != 3 or type(h[0]) is not int or not 1 <= h[0] <= 3 or type(h[1]) is not bool or type(h[2]) is not bool for k, h in v["h"].items()):
            return False
        return all(ok(x, parts, seen, ids, who, d + 1) for x in v["c"])
    try:
        if not 1 <= len(c["specs"]) <= 2 or not c["ops"]:
            return None
        for s in c["specs"]:
            for i, p in enumerate([s["root"], *s["parts"]]):
                if type(p["start"]) is not int or not 0 <= p["start"] <= 3 or not p["v"]:
                    return None
                for v in p["v"]:
                    # components belong to the outermost element, so that they keep their state
                    if i == 0 and s["parts"] and v != "raise" and v.get("t") != "div":
                        return None
                    if not ok(v, len(s["parts"]) if i == 0 else 0, set(), set(), i - 1 if i else "r"):
                        return None
        for o in c["ops"]:
            if o["op"] == "mount":
                if type(o["s"]) is not int or o["root"] not in ("root", "main"):
                    return None
            elif o["op"] not in ("drop", "fire") or type(o["i"]) is not int or o["i"] < 0 or o["op"] == "fire" and (type(o["n"]) is not int or o["n"] < 0):
                return None
        return c
    except (KeyError, TypeError, AttributeError, ValueError):
        return None


SUBS = [
    Sub("browser", gen=gen, valid=valid, run=run, quick=9000, thorough=120000, shards=8,
        rule="histories of PyScript components mounted on, used on and removed from one page; non-trivial = something was shown at two moments and an event reached a handler"),
]
