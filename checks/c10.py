import base64
import collections
import copy
import json
import re

from reactpy import component, html
from reactpy._html import h
from reactpy.config import REACTPY_CHECK_JSON_ATTRS, REACTPY_DEBUG
from reactpy.core.events import EventHandler, event
from reactpy.core.vdom import Vdom
from reactpy.types import BaseEventHandler, InlineJavaScript, VdomDict
from reactpy.widgets import image

import world as W  # noqa: F401  (silences logging and warnings)
from lib import Sub, Violation
import vloop

PROPERTY = "C10"
ASSUMPTIONS = ["attributes are given as a plain dict in first position (as documented)",
               "the SVG elements that accept no children are sampled from those whose content model is undisputed"]

VOID = ["area", "base", "br", "col", "command", "embed", "hr", "img", "input", "iframe", "keygen", "link", "meta", "param", "portal",
        "source", "track", "wbr"]
NORMAL = ["div", "p", "span", "a", "ul", "li", "button", "textarea", "select", "option", "style", "template", "body", "table", "del_",
          "data_table", "custom_el_name", "h1", "video", "math", "title", "html", "head"]
SVG_VOID = ["circle", "path", "rect", "line", "ellipse", "polygon", "polyline", "stop", "use", "image", "set", "animate"]
SVG_NORMAL = ["g", "defs", "svg", "symbol", "a", "clipPath", "mask", "marker", "pattern"]


def handler(data=None):
    pass


def wire_name(py):
    return py.rstrip("_").replace("_", "-")


@component
def Comp(*a, **k):
    return None


class Obj:
    pass


class It:
    """iterable without length"""

    def __init__(self, xs):
        self.xs = xs

    def __iter__(self):
        return iter(self.xs)


class CallRec:
    def __init__(self, log):
        self.log = log

    def make(self, kind):
        log = self.log
        if kind == "sync":
            def f(*a):
                log.append((kind, a))
            return f
        if kind == "async":
            async def f(*a):
                log.append((kind, a))
            return f
        if kind == "lambda":
            return lambda *a: log.append((kind, a))
        if kind == "method":
            class K:
                def m(self, *a):
                    log.append((kind, a))
            return K().m
        raise ValueError(kind)


HKINDS = ["sync", "async", "lambda", "method"]


def child(spec, flat):
    """Build a child argument; append what must appear, in order, to flat."""
    t = spec["t"]
    if t == "lit":
        flat.append(spec["v"])
        return spec["v"]
    if t == "comp":
        c = Comp(spec.get("n", 0), key=spec.get("key"))
        flat.append(c)
        return c
    if t == "vdom":
        v = html.span({"key": spec["key"]}, "x") if spec.get("key") else html.span("x")
        flat.append(v)
        return v
    if t == "map":
        m = {"tagName": "p", "children": ["q"]} if not spec.get("order") else collections.OrderedDict(tagName="p")
        flat.append(m)
        return m
    if t == "obj":
        o = Obj()
        flat.append(o)
        return o
    kids = [child(c, flat) for c in spec["ch"]]
    if t == "list":
        return kids
    if t == "tuple":
        return tuple(kids)
    if t == "gen":
        return (k for k in kids)
    if t == "iter":
        return iter(kids)
    if t == "map()":
        return map(lambda x: x, kids)
    if t == "deque":
        return collections.deque(kids)
    if t == "it":
        return It(kids)
    if t == "values":
        return dict(enumerate(kids)).values()
    raise ValueError(t)


def attrs_of(spec, log):
    """(mapping to pass, expected attributes, expected handlers, expected inline)"""
    out, plain, hs, js = {}, {}, {}, {}
    rec = CallRec(log)
    for name, kind, v in spec:
        if kind == "json":
            val = copy.deepcopy(v)
        elif kind == "fn":
            val = rec.make(v)
        elif kind == "eh":
            val = event(rec.make(v), prevent_default=True)
        elif kind == "base":
            val = BaseEventHandler()
        elif kind == "ij":
            val = InlineJavaScript(v)
        else:
            val = Obj()
        out[name] = val
    for name, val in out.items():
        if isinstance(val, BaseEventHandler):
            hs[name] = val
        elif callable(val):
            hs[name] = val
        elif isinstance(val, InlineJavaScript) or (isinstance(val, str) and re.fullmatch(r"on[A-Z]\w+", name)):
            js[name] = val
        else:
            plain[name] = val
    return out, plain, hs, js


def check_parts(got, plain, hs, js, flat, log):
    a = got.get("attributes") or {}
    if list(a) != list(plain) or any(a[k] is not plain[k] for k in plain):
        raise Violation(f"attributes are {a!r:.300}, given were {plain!r:.300}")
    c = list(got.get("children") or [])
    if len(c) != len(flat) or any(x is not y for x, y in zip(c, flat)):
        raise Violation(f"children are {c!r:.300}, given were {flat!r:.300}")
    e = got.get("eventHandlers") or {}
    if set(e) != set(hs):
        raise Violation(f"event handlers are {sorted(e)}, given were {sorted(hs)}")
    for k, fn in hs.items():
        if isinstance(fn, BaseEventHandler):
            if e[k] is not fn:
                raise Violation(f"event handler {k} was replaced")
        else:
            if not isinstance(e[k], BaseEventHandler):
                raise Violation(f"{k} is not an event handler: {e[k]!r}")
            del log[:]

            async def call(loop):
                await e[k].function(["d1", 2])
            vloop.run(call)
            if len(log) != 1 or log[0][1] != ("d1", 2):
                raise Violation(f"calling handler {k} did {log!r}")
    i = got.get("inlineJavaScript") or {}
    if {k: str(v) for k, v in i.items()} != {k: str(v) for k, v in js.items()}:
        raise Violation(f"inline scripts are {i!r}, given were {js!r}")
    for k, v in i.items():
        if not isinstance(v, InlineJavaScript):
            raise Violation(f"inline script {k} is a plain {type(v).__name__}")


CUSTOM_CALLS = []


def custom(**kw):
    CUSTOM_CALLS.append(kw)
    m = {}
    if kw["children"]:
        m["children"] = kw["children"]
    if kw["attributes"]:
        m["attributes"] = kw["attributes"]
    if kw["event_handlers"]:
        m["eventHandlers"] = kw["event_handlers"]
    return m


IMP = {"source": "s.js", "sourceType": "URL", "fallback": None, "unmountBeforeUpdate": False}


def constructor(spec):
    """(constructor, wire name, may have children, kind)"""
    k, name = spec
    if k == "html":
        return getattr(html, name), wire_name(name), name not in VOID, "plain"
    if k == "h":
        return getattr(h, name), wire_name(name), name not in VOID, "plain"
    if k == "svg":
        return (html.svg if name == "svg" else getattr(html.svg, name)), wire_name(name), name not in SVG_VOID, "plain"
    if k == "vdom":
        return Vdom(name), name, True, "plain"
    if k == "leaf":
        return Vdom(name, allow_children=False), name, False, "plain"
    if k == "custom":
        return Vdom(name, custom_constructor=custom), name, True, "plain"
    if k == "import":
        v = Vdom("Lib", import_source=IMP)
        parts = name.split(".")
        for p in parts:
            v = getattr(v, p)
        return v, "Lib." + name, True, "import"
    if k == "importleaf":
        return getattr(Vdom("Lib", allow_children=False, import_source=IMP), name), "Lib." + name, False, "import"
    if k == "frag":
        return (html if name == "call" else html.fragment if name == "fragment" else h), "", True, "frag"
    if k == "script":
        return html.script, "script", True, "script"
    raise ValueError(k)


def run(case, rec):
    REACTPY_DEBUG.current = case["debug"]
    REACTPY_CHECK_JSON_ATTRS.current = case["check"]
    try:
        _run(case, rec)
    finally:
        REACTPY_DEBUG.current = False
        REACTPY_CHECK_JSON_ATTRS.unset()


def _run(case, rec):
    make, name, kids_ok, kind = constructor(case["make"])
    results = []
    for rnd in range(2):
        log = []
        flat = []
        args = []
        out = plain = hs = js = {}
        if case["attrs"] is not None:
            out, plain, hs, js = attrs_of(case["attrs"], log)
            args.append(out)
        before = dict(out)
        deep = {k: copy.deepcopy(v) for k, v in plain.items() if not isinstance(v, Obj)}
        args += [child(c, flat) for c in case["ch"]]
        lists = [(a, list(a)) for a in args if isinstance(a, (list, tuple, collections.deque))]
        CUSTOM_CALLS.clear()
        want_err = None
        key = plain.get("key")
        if case["check"] and any(isinstance(v, Obj) for v in plain.values()):
            want_err = (TypeError, ValueError)
        elif flat and not kids_ok:
            want_err = TypeError
        elif kind == "frag" and (any(k != "key" for k in plain) or hs or js):
            want_err = TypeError
        elif kind == "script" and (hs or len(flat) > 1 or (flat and not isinstance(flat[0], str))):
            want_err = ValueError
        try:
            got = make(*args)
        except Exception as e:
            if want_err is None or not isinstance(e, want_err):
                raise Violation(f"{case['make']} raised {e!r}") from None
            got = None
            rec.tag("rejected")
        else:
            if want_err is not None:
                raise Violation(f"{case['make']} accepted what it cannot have: {got!r:.300}")
        if list(out) != list(before) or any(out[k] is not before[k] for k in before) or any(out[k] != deep[k] for k in deep):
            raise Violation("the caller's attributes were modified")
        for a, b in lists:
            if len(a) != len(b) or any(x is not y for x, y in zip(a, b)):
                raise Violation("the caller's children were modified")
        if got is None:
            continue
        if type(got) is not VdomDict:
            raise Violation(f"{case['make']} gave a {type(got).__name__}")
        if got["tagName"] != name:
            raise Violation(f"{case['make']} has tag {got['tagName']!r} instead of {name!r}")
        extra = set(got) - {"tagName", "children", "attributes", "eventHandlers", "inlineJavaScript", "importSource"}
        if extra:
            raise Violation(f"unexpected parts {extra}")
        if (got.get("importSource") or None) != (IMP if kind == "import" else None):
            raise Violation(f"import source is {got.get('importSource')!r}")
        exp_plain = plain
        if kind == "script":
            k = key
            if k is None and flat:
                k = flat[0]
            if k is None and not flat:
                k = plain.get("src")
            if k is not None:
                exp_plain = {**plain, "key": k}
        check_parts(got, exp_plain, hs, js, flat, log)
        if case["make"][0] == "custom" and len(CUSTOM_CALLS) != 1:
            raise Violation(f"the custom constructor was called {len(CUSTOM_CALLS)} times")
        results.append((got, out, args, exp_plain, hs, js, flat, log))
    if len(results) == 2:
        (g1, o1, a1, *_), (g2, o2, a2, p2, h2, j2, f2, l2) = results
        if set(g1) != set(g2):
            raise Violation("building the same thing twice gives different parts")
        snap = dict(o1)
        for part in ("attributes", "eventHandlers", "inlineJavaScript"):
            if part in g1:
                g1[part]["zzz"] = 1
        if "children" in g1:
            g1["children"].append("zzz")
            g1["children"].reverse()
        if o1 != snap or list(o1) != list(snap):
            raise Violation("the result shares its attributes with the caller")
        if any(isinstance(a, list) and "zzz" in a for a in a1):
            raise Violation("the result shares its children with the caller")
        check_parts(g2, p2, h2, j2, f2, l2)
        if case["attrs"] is None and case["ch"] == []:
            again = make()
            check_parts(again, {}, {}, {}, [], [])
    nested = any(c["t"] not in ("lit", "comp", "vdom", "map", "obj") for c in case["ch"])
    rec.nt(bool(case["attrs"]) or nested or len(case["ch"]) > 1)
    rec.tag(case["make"][0], *(["nested"] if nested else []), *(["debug"] if case["debug"] else []))


NAMES = ["id", "className", "style", "data-x", "key", "onfoo", "on", "ONCLICK", "click", "on_click", "value", "src", "href", "onClick", "onChange",
         "onKeyDown", "onX1", "", "é"]
VALS = [None, 0, 1, "", "x", "alert(1)", True, False, 1.5, [1, "a"], {"color": "red", "a": {"b": 1}}, {}]


def gen_child(g, d):
    t = g.weighted([(4, "lit"), (1.5, "comp"), (1.5, "vdom"), (0.5, "map"), (0.4, "obj")] +
                   ([(1.5, "list"), (1, "tuple"), (0.6, "gen"), (0.4, "iter"), (0.3, "map()"), (0.3, "deque"), (0.3, "it"), (0.3, "values")] if d else []))
    if t == "lit":
        return {"t": t, "v": g.pick(["", "a", "abc", "<b>", 0, 1, 1.5, None, True, False])}
    if t == "comp":
        return {"t": t, "n": g.i(0, 3), "key": g.pick([None, None, "k", 0])}
    if t == "vdom":
        return {"t": t, "key": g.pick([None, None, "k"])}
    if t == "map":
        return {"t": t, "order": g.p(0.4)}
    if t == "obj":
        return {"t": t}
    return {"t": t, "ch": [gen_child(g, d - 1) for _ in range(g.width(4))]}


def gen(g):
    k = g.weighted([(5, "html"), (1, "h"), (2, "svg"), (1, "vdom"), (0.5, "leaf"), (1, "custom"), (1, "import"), (0.4, "importleaf"), (2, "frag"), (2, "script")])
    name = {"html": lambda: g.pick(NORMAL * 2 + VOID), "h": lambda: g.pick(NORMAL + VOID), "svg": lambda: g.pick(SVG_NORMAL + SVG_VOID),
            "vdom": lambda: g.pick(["x", "my-tag", "a.b"]), "leaf": lambda: "x", "custom": lambda: "y", "import": lambda: g.pick(["A", "A.b", "A.B.C", "x_y"]),
            "importleaf": lambda: "A", "frag": lambda: g.pick(["call", "fragment", "h"]), "script": lambda: ""}[k]()
    attrs = None
    if g.p(0.7):
        attrs = []
        used = set()
        for _ in range(g.size(0, 5)):
            n = g.pick(NAMES)
            if n in used:
                continue
            used.add(n)
            kind = g.weighted([(6, "json"), (1.5, "fn"), (0.7, "eh"), (0.3, "base"), (0.7, "ij"), (0.2, "obj")])
            if k in ("frag", "script") and g.p(0.5):
                n2 = g.pick(["key", "src"]) if k == "script" else "key"
                if n2 not in used:
                    n, kind = n2, "json"
                    used.add(n)
            v = g.pick(VALS) if kind == "json" else g.pick(HKINDS) if kind in ("fn", "eh") else g.pick(["", "a()"]) if kind == "ij" else None
            attrs.append([n, kind, v])
    few = (k == "script" or (name in VOID and k in ("html", "h")) or k == "leaf")
    n = g.weighted([(3, 0), (2, 1), (0.5, 2)]) if few else g.size(0, 5)
    ch = [gen_child(g, 3) for _ in range(n)]
    if k == "script" and ch and g.p(0.7):
        ch = [{"t": "lit", "v": g.pick(["", "a", "let x = '</b>'"])}]
    if attrs is None and ch and ch[0]["t"] == "map" and not ch[0].get("order"):
        attrs = []
    return {"make": [k, name], "attrs": attrs, "ch": ch, "debug": g.p(0.5), "check": g.p(0.5)}


def valid(c):
    try:
        constructor(c["make"])

        def ok(x):
            if x["t"] in ("lit", "comp", "vdom", "map", "obj"):
                if x["t"] == "lit":
                    return not isinstance(x["v"], (list, dict))
                return True
            return x["t"] in ("list", "tuple", "gen", "iter", "map()", "deque", "it", "values") and all(ok(y) for y in x["ch"])
        if not all(ok(x) for x in c["ch"]) or type(c["debug"]) is not bool or type(c["check"]) is not bool:
            return None
        if c["attrs"] is None and c["ch"] and c["ch"][0]["t"] == "map" and not c["ch"][0].get("order"):
            return None
        if c["attrs"] is not None:
            if len({a[0] for a in c["attrs"]}) != len(c["attrs"]):
                return None
            for n, kind, v in c["attrs"]:
                if n not in NAMES or kind not in ("json", "fn", "eh", "base", "ij", "obj") or (kind in ("fn", "eh") and v not in HKINDS) or (kind == "ij" and not isinstance(v, str)):
                    return None
        return c
    except (KeyError, TypeError, ValueError, AttributeError):
        return None


# ------------------------------------------------------------------ the component decorator and small constructors
def run_comp(case, rec):
    seen = []
    ret = object()

    def f(*args, **kwargs):
        seen.append((args, kwargs))
        return ret
    c = component(f)
    args = tuple(copy.deepcopy(a) for a in case["args"])
    kw = {k: copy.deepcopy(v) for k, v in case["kw"].items()}
    k = {} if case["key"] is None else {"key": case["key"]}
    inst = c(*args, **k, **kw)
    other = c(*args, **kw)
    if seen:
        raise Violation("the component function ran before it was rendered")
    if inst.key != case["key"] or other.key is not None or inst.type is not f or other.type is not inst.type:
        raise Violation(f"key/type of the component are {inst.key!r}/{inst.type!r}")
    repr(inst)
    for _ in range(2):
        del seen[:]
        if inst.render() is not ret or len(seen) != 1 or len(seen[0][0]) != len(args) or any(x is not y for x, y in zip(seen[0][0], args)) or seen[0][1] != kw:
            raise Violation(f"render called the function with {seen}")
    if case["img"] is not None:
        raw = bytes(case["img"])
        attrs = {"alt": "x", **({"src": "mine"} if case["key"] else {})}
        b = dict(attrs)
        v = image("svg" if case["svg"] else "png", raw.decode("latin1") if case["text"] else raw, attrs)
        want = raw.decode("latin1").encode() if case["text"] else raw
        src = v["attributes"]["src"]
        if attrs != b or v["attributes"]["alt"] != "x":
            raise Violation("image attributes")
        if case["key"]:
            if src != "mine":
                raise Violation(f"given src was replaced: {src}")
        else:
            head, data = src.split(",", 1)
            if head != ("data:image/svg+xml;base64" if case["svg"] else "data:image/png;base64") or base64.b64decode(data) != want:
                raise Violation(f"image source {src!r:.100} does not hold the given data")
    rec.nt(bool(case["args"] or case["kw"]))


def gen_comp(g):
    return {"args": [g.pick(VALS) for _ in range(g.size(0, 3))], "kw": {g.pick(["a", "b", "self", "function", "args", "sig"]): g.pick(VALS) for _ in range(g.size(0, 3))},
            "key": g.pick([None, None, "k", 1, "self"]), "img": [g.i(0, 255) for _ in range(g.size(0, 9))] if g.p(0.5) else None,
            "svg": g.p(0.5), "text": g.p(0.5)}


def valid_comp(c):
    try:
        if c["img"] is not None:
            bytes(c["img"])
        return c if isinstance(c["args"], list) and isinstance(c["kw"], dict) and "key" not in c["kw"] and not isinstance(c["key"], (list, dict)) and \
            type(c["svg"]) is bool and type(c["text"]) is bool else None
    except (KeyError, TypeError, ValueError):
        return None


SUBS = [
    Sub("elements", gen=gen, valid=valid, run=run, quick=80000, thorough=600000, shards=6,
        rule="every kind of constructor (html, svg, fragment, script, custom, imported), attribute mappings mixing values, callables, handlers and inline scripts, "
             "children nested in lists / tuples / generators / iterators; compared by identity with the arguments, twice; non-trivial = attributes or more than one / nested children"),
    Sub("components", gen=gen_comp, valid=valid_comp, run=run_comp, quick=6000, thorough=60000,
        rule="component() called with any arguments and keys, image() with any bytes; non-trivial = has arguments"),
]
