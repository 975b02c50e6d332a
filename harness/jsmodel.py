"""Models as the server sends them: generation, application of updates, and the DOM they describe."""
from __future__ import annotations

import copy
import json

TAGS = ["div", "span", "b", "ul", "li", "p", "button", "svg", "x-thing"]
INPUTS = ["input", "textarea", "select"]
EVENTS = ["onClick", "onChange", "onKeyDown", "onFocus", "onMouseEnter"]
ATTRS = ["className", "id", "title", "data-x", "aria-label", "tabIndex", "disabled", "hidden", "style", "href", "role", "onlytext"]
VALUES = ["", "a", "b c", "<&>\"'", "é日本", 0, 1, -3, 2.5, True, False, None, {"color": "red"}, {"a": {"b": [1, "x", None]}}, [1, "two"], "0", "on"]
TEXTS = ["", "x", "hello", " ", "<b>&amp;", "é\U0001F600", "null", "0", "a\nb", "{}"]
JS = [
    "this.marks = (this.marks || []).concat(['M'])",
    "(e) => { this.marks = (this.marks || []).concat([e.type + 'M']) }",
    "(function (e) { this.marks = (this.marks || []).concat([e.type + 'M']) })",
    "(e) => { e.currentTarget.marks = (e.currentTarget.marks || []).concat(['M']); e.preventDefault() }",
    "if (true) { let x = 'M'; this.marks = (this.marks || []).concat([x]); }\n// comment",
    "async (e) => { this.marks = (this.marks || []).concat(['M']) }",
    "() => { this.marks = (this.marks || []).concat(['M']) }",
    "(function () { this.marks = (this.marks || []).concat(['M']) })",
]


class Gen:
    def __init__(self, g, modules=None, urls=()):
        self.g = g
        self.n = 0
        self.modules = modules or {}

    def target(self):
        self.n += 1
        return f"t{self.n}"

    def handler(self, timing=False):
        g = self.g
        h = {"target": self.target()}
        if g.p(0.8):
            h["preventDefault"] = g.p(0.3)
            h["stopPropagation"] = g.p(0.3)
        if timing:
            if g.p(0.4):
                h["debounce"] = g.pick([0, 1, 10, 50, 200, 500])
            if g.p(0.4):
                h["throttle"] = g.pick([0, 1, 10, 50, 200, 500])
        return h

    def attrs(self, prob=0.35):
        g = self.g
        return {a: copy.deepcopy(g.pick(VALUES)) for a in ATTRS if g.p(prob / 3)}

    def node(self, depth=0, key=None):
        g = self.g
        r = g.random()
        if r < 0.06 and depth:
            m = {"tagName": "", "error": g.pick(["", "", "boom", "ValueError: <x>"])}
            if key is not None:
                m["attributes"] = {"key": key}
            return m
        if self.modules and r < 0.4 and depth:
            return self.imported(depth, key)
        if r < 0.16 and depth:
            text = g.pick(["f()", "let a = '<b>';", "", None])
            at = {"src": g.pick(["/a.js", "/b.js"])} if g.p(0.3) else {}
            if g.p(0.3):
                at["type"] = "module"
            at["key"] = json.dumps([key, text, at])
            return {"tagName": "script", "attributes": at, **({"children": [text]} if text is not None else {})}
        tag = g.weighted([(8, "tag"), (2, ""), (3, "in")])
        if not depth:
            tag = g.pick(["", "", "tag"])
        if tag == "tag":
            tag = g.pick(TAGS)
        elif tag == "in":
            tag = g.pick(INPUTS)
        m = {"tagName": tag}
        at = self.attrs() if tag else {}
        if key is not None:
            at["key"] = key
        if tag in INPUTS and g.p(0.6):
            at["value"] = g.pick(TEXTS)
        if tag in INPUTS and g.p(0.2):
            at["_reactpy_ack_seq"] = g.i(0, 3)
        if at or g.p(0.1):
            m["attributes"] = at
        if tag:
            self.events(m)
        kids = self.children(depth, 0 if tag in ("input", "textarea") else 4)
        if kids or g.p(0.2):
            m["children"] = kids
        return m

    def events(self, m):
        g = self.g
        eh = {e: self.handler() for e in EVENTS if g.p(0.16)}
        js = {e: g.pick(JS).replace("M", self.target()) for e in EVENTS if g.p(0.05)}
        if eh or g.p(0.05):
            m["eventHandlers"] = eh
        if js:
            m["inlineJavaScript"] = js

    def children(self, depth, most):
        g = self.g
        if depth >= 4:
            most = min(most, 1)
        n = (g.width(most) if depth < 3 else g.size(0, most)) if most else 0
        keyed = g.p(0.5)
        out = []
        for i in range(n):
            if g.p(0.3):
                out.append(g.pick(TEXTS))
            else:
                out.append(self.node(depth + 1, f"k{g.i(0, 5 if n < 9 else 20)}" if keyed and g.p(0.8) else None))
        return unique(out)

    def imported(self, depth, key):
        g = self.g
        name = g.pick(sorted(self.modules))
        spec = self.modules[name]
        comp = g.pick(spec["exports"] + (["Missing"] if g.p(0.1) else []))
        m = {"tagName": comp, "importSource": {"source": name, "sourceType": "URL" if spec.get("url") else "NAME", "unmountBeforeUpdate": spec.get("unmount", False)}}
        fb = spec.get("fallback")
        m["importSource"]["fallback"] = fb
        at = self.attrs()
        at.pop("style", None)
        if key is not None:
            at["key"] = key
        if at:
            m["attributes"] = at
        self.events(m)
        kids = self.children(depth, 3)
        if kids:
            m["children"] = kids
        return m

    def mutate(self, m, depth=0):
        """a later version of the same node"""
        g = self.g
        m = copy.deepcopy(m)
        if "error" in m:
            return self.node(depth or 1, (m.get("attributes") or {}).get("key")) if g.p(0.6) else m
        if m["tagName"] == "script" and "importSource" not in m:
            return m
        if g.p(0.05) and not m["tagName"]:
            return {"tagName": "", "error": "later"}
        if m["tagName"] in INPUTS and "importSource" not in m and g.p(0.15):
            m["tagName"] = g.pick(INPUTS)
            if m["tagName"] in ("input", "textarea"):
                m.pop("children", None)
        if g.p(0.4) and m["tagName"]:
            key = (m.get("attributes") or {}).get("key")
            value = (m.get("attributes") or {}).get("value")
            at = self.attrs()
            if "importSource" in m:
                at.pop("style", None)
            if key is not None:
                at["key"] = key
            if value is not None:
                at["value"] = g.pick(TEXTS)
            m["attributes"] = at
        if g.p(0.3) and m["tagName"]:
            m.pop("eventHandlers", None)
            m.pop("inlineJavaScript", None)
            self.events(m)
        ch = m.get("children")
        if ch is not None and m["tagName"] not in ("input", "textarea"):
            ch = [c if isinstance(c, str) else (self.mutate(c, depth + 1) if g.p(0.4) else c) for c in ch]
            if g.p(0.3):
                ch = g.sample(ch, len(ch))
            if g.p(0.2) and ch:
                del ch[g.i(0, len(ch) - 1)]
            if g.p(0.2):
                ch.insert(g.i(0, len(ch)), self.node(depth + 1, f"k{g.i(0, 5)}" if g.p(0.5) else None))
            m["children"] = unique(ch)
        return m


def unique(children):
    """no two siblings with the same key"""
    seen = set()
    for c in children:
        if isinstance(c, dict):
            at = c.get("attributes") or {}
            k = at.get("key")
            if k is not None:
                if k in seen:
                    at.pop("key") if c["tagName"] != "script" else at.update(key=f"{k}{len(seen)}")
                seen.add(at.get("key"))
    return children


def paths(m, path=""):
    """the paths of all element nodes"""
    out = [path]
    if "error" in m:
        return out
    for i, c in enumerate(m.get("children") or ()):
        if isinstance(c, dict):
            out += paths(c, f"{path}/children/{i}")
    return out


def get(m, path):
    for p in path.split("/")[1:]:
        m = m[int(p)] if isinstance(m, list) else m[p]
    return m


def put(m, path, new):
    if not path:
        return copy.deepcopy(new)
    m = copy.deepcopy(m)
    head, _, last = path.rpartition("/")
    get(m, head)[int(last)] = copy.deepcopy(new)
    return m


class El:
    """an element of the expected DOM"""

    def __init__(self, tag, model=None, props=None, fns=None, ch=None, kind="std"):
        self.tag = tag
        self.model = model
        self.props = props or {}
        self.fns = fns or {}
        self.ch = ch if ch is not None else []
        self.kind = kind
        self.parent = None
        self.path = None


def expected(m, loaded=lambda src: True, modules=None, within=None):
    """the DOM nodes (strings and Els) that a model describes"""
    if isinstance(m, str):
        return [m]
    if "error" in m:
        return [El("pre", m, ch=[m["error"]], kind="error")] if m["error"] else []
    at = dict(m.get("attributes") or {})
    at.pop("key", None)
    fns = {n: ("event", h) for n, h in (m.get("eventHandlers") or {}).items()}
    fns.update({n: ("js", t) for n, t in (m.get("inlineJavaScript") or {}).items()})
    props = {k: v for k, v in at.items() if k not in fns}
    kids = m.get("children") or []
    src = m.get("importSource")
    if src:
        state = loaded(src)
        inner = []
        if state:
            spec = modules[src["source"]]
            if m["tagName"] in spec["exports"]:
                inner = [El("x-comp", m, {"data-c": f"{src['source']}:{m['tagName']}", **props}, fns, [x for c in kids for x in expected(c, loaded, modules, src)], "import")]
        if within is not None:
            if same_source(within, src):
                return inner
            return [El("reactpy-child", m, ch=[El("div", m, ch=inner, kind="mount")], kind="child")]
        out = [El("span", m, ch=inner, kind="span")]
        fb = src.get("fallback")
        if not state and fb:
            out += [El("span", m, ch=[fb], kind="fallback")] if isinstance(fb, str) else [El(fb["tagName"], m, {k: v for k, v in (fb.get("attributes") or {}).items() if k != "key"}, ch=[x for c in fb.get("children") or [] for x in expected(c)], kind="fallback")]
        return out
    tag = m["tagName"]
    if within is not None:
        ch = [x for c in kids for x in expected(c, loaded, modules, within)]
        return ch if tag == "" else [El(tag, m, props, fns, ch, "plain")]
    if tag == "script":
        text = next((c for c in kids if isinstance(c, str)), None)
        return [El("div", m, ch=[El("script", m, {k: str(v) for k, v in at.items()}, ch=[text] if text else [], kind="script")], kind="holder")]
    ch = [x for c in kids for x in expected(c, loaded, modules)]
    if tag == "":
        return ch
    if tag in INPUTS:
        value = props.pop("value", None)
        props.pop("_reactpy_ack_seq", None)
        e = El(tag, m, props, fns, ch, "input")
        e.value = value
        return [e]
    return [El(tag, m, props, fns, ch)]


def same_source(a, b):
    return a["source"] == b["source"] and a.get("sourceType") == b.get("sourceType")


def link(nodes, parent=None, base=()):
    """fill in parents and DOM paths; -> all Els"""
    out = []
    for i, n in enumerate(nodes):
        if isinstance(n, El):
            n.parent = parent
            n.path = [*base, i]
            out.append(n)
            out += link(n.ch, n, n.path)
    return out


def differs(exp, got, where="document", values=True):
    """None, or what is different between the expected and the real DOM"""
    # texts side by side may be one or several nodes, and empty ones do not count
    def joined(ns):
        out = []
        for n in ns:
            if isinstance(n, str):
                if not n:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += n
                    continue
            out.append(n)
        return out
    e, g = joined(exp), joined(got)
    if len(e) != len(g):
        return f"{where}: shows {[x if isinstance(x, str) else x['tag'] for x in g]} instead of {[x if isinstance(x, str) else x.tag for x in e]}"
    for i, (a, b) in enumerate(zip(e, g)):
        w = f"{where}/{i}"
        if isinstance(a, str) or isinstance(b, str):
            if a != b:
                return f"{w}: shows {b if isinstance(b, str) else b['tag']!r} instead of {a if isinstance(a, str) else a.tag!r}"
            continue
        if a.tag != b["tag"]:
            return f"{w}: element {b['tag']!r} instead of {a.tag!r}"
        w += f"({a.tag})"
        real = dict(b["props"])
        if a.kind == "script":
            real = {k: v for k, v in b.get("attrs", {}).items() if k != "key"}
        if a.kind == "plain" or a.kind == "import":
            pass
        fns = {k for k, v in real.items() if isinstance(v, dict) and "$fn" in v}
        real = {k: v for k, v in real.items() if k not in fns}
        if fns != set(a.fns):
            return f"{w}: has handlers {sorted(fns)} instead of {sorted(a.fns)}"
        if json.dumps(real, sort_keys=True) != json.dumps(a.props, sort_keys=True):
            return f"{w}: has attributes {real} instead of {a.props}"
        if values and a.kind == "input" and isinstance(a.value, str) and b.get("value") != a.value:
            return f"{w}: shows the value {b.get('value')!r} instead of {a.value!r}"
        d = differs(a.ch, b["ch"], w, values)
        if d:
            return d
    return None


def fire(el, prop, etype):
    """-> (messages, prevented, stopped, marks) of an event that bubbles from an element"""
    msgs, marks, prevented = [], [], False
    while el is not None:
        f = el.fns.get(prop)
        if f:
            kind, x = f
            if kind == "event":
                prevented = prevented or bool(x.get("preventDefault"))
                msgs.append(x)
                if x.get("stopPropagation"):
                    return msgs, prevented, True, marks
            else:
                n = JS_NAME.search(x).group(0)
                marks.append((el, (etype if "e.type" in x else "") + n))
                prevented = prevented or "preventDefault" in x
        el = el.parent
    return msgs, prevented, False, marks


import re  # noqa: E402

JS_NAME = re.compile(r"t\d+")
JS_SHAPES = [re.compile(re.escape(j).replace("M", r"t\d+")) for j in JS]


def ok_node(m, modules=None, depth=0):
    """is this a model the generator could have produced (for shrinking)?"""
    if isinstance(m, str):
        return depth > 0
    if not isinstance(m, dict) or not isinstance(m.get("tagName"), str) or depth > 12:
        return False
    if set(m) - {"tagName", "attributes", "children", "error", "eventHandlers", "inlineJavaScript", "importSource"}:
        return False
    at = m.get("attributes", {})
    if not isinstance(at, dict) or not isinstance(at.get("key", ""), str):
        return False
    if any(k not in ATTRS and k not in ("key", "value", "_reactpy_ack_seq", "src", "type") for k in at):
        return False
    if "error" in m:
        return m["tagName"] == "" and isinstance(m["error"], str) and "children" not in m and "importSource" not in m and depth >= 0
    src = m.get("importSource")
    if src is not None:
        if not modules or not isinstance(src, dict) or src.get("source") not in modules or src.get("sourceType") != ("URL" if modules[src["source"]].get("url") else "NAME"):
            return False
        sp = modules[src["source"]]
        if src.get("unmountBeforeUpdate") is not sp.get("unmount", False) or src.get("fallback") != sp.get("fallback") or not m["tagName"] or "style" in at:
            return False
    elif m["tagName"] == "script":
        ch = m.get("children", [])
        if depth == 0 or not isinstance(ch, list) or len(ch) > 1 or not all(isinstance(c, str) for c in ch) or "eventHandlers" in m or "inlineJavaScript" in m or "key" not in at:
            return False
        if any(not isinstance(v, str) for v in at.values()):
            return False
        try:
            k = json.loads(at["key"].rstrip("0123456789"))
        except ValueError:
            return False
        return isinstance(k, list) and len(k) == 3 and k[1] == (ch[0] if ch else None) and isinstance(k[2], dict) and {**k[2], "key": at["key"]} == at
    elif m["tagName"] not in TAGS + INPUTS + [""]:
        return False
    if m["tagName"] == "" and (set(at) - {"key"} or m.get("eventHandlers") or m.get("inlineJavaScript")):
        return False
    if ("value" in at or "_reactpy_ack_seq" in at) and (m["tagName"] not in INPUTS or src is not None):
        return False
    if "value" in at and not isinstance(at["value"], str) or "_reactpy_ack_seq" in at and (type(at["_reactpy_ack_seq"]) is not int):
        return False
    if "src" in at or "type" in at:
        return False
    if at.get("style") is not None and False:
        return False
    for n, h in (m.get("eventHandlers") or {}).items():
        if n not in EVENTS or not isinstance(h, dict) or not isinstance(h.get("target"), str) or not JS_NAME.fullmatch(h["target"]) or set(h) - {"target", "preventDefault", "stopPropagation", "debounce", "throttle"}:
            return False
        if any(type(h.get(k, 0)) is not int or h.get(k, 0) < 0 for k in ("debounce", "throttle")) or any(not isinstance(h.get(k, False), bool) for k in ("preventDefault", "stopPropagation")):
            return False
    for n, t in (m.get("inlineJavaScript") or {}).items():
        if n not in EVENTS or not isinstance(t, str) or not any(s.fullmatch(t) for s in JS_SHAPES):
            return False
    ch = m.get("children", [])
    if not isinstance(ch, list) or (m["tagName"] in ("input", "textarea") and ch and src is None):
        return False
    keys = [c["attributes"]["key"] for c in ch if isinstance(c, dict) and isinstance(c.get("attributes"), dict) and "key" in c["attributes"]]
    if len(keys) != len(set(keys)):
        return False
    return all(ok_node(c, modules, depth + 1) for c in ch)
