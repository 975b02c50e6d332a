import asyncio
import copy
import json
import math
import re

import jsonschema
import orjson

from reactpy import component, html
from reactpy.config import REACTPY_ASYNC_RENDERING, REACTPY_DEBUG
from reactpy.core import vdom as V
from reactpy.core.events import event
from reactpy.core.hooks import use_effect, use_state
from reactpy.core.layout import Layout
from reactpy.core.vdom import Vdom
from reactpy.types import ImportSourceDict, InlineJavaScript

import vloop
import world as W
from lib import Sub, Violation

PROPERTY = "C09"
ASSUMPTIONS = ["attribute values are JSON values with string keys, finite numbers below 2**53 and no lone surrogates",
               "a missing attributes / children / eventHandlers entry is the same as an empty one"]

ON = re.compile(r"^on[A-Z]\w+")
TAGS = ["div", "p", "input", "select", "textarea", "button", "custom-el", "svg"]
_validator = [None]


def validator():
    if _validator[0] is None:
        schema = V.VDOM_JSON_SCHEMA
        try:
            jsonschema.Draft7Validator.check_schema(schema)
        except jsonschema.SchemaError as e:
            raise Violation(f"the published VDOM schema is not valid JSON schema (draft-07): {e.message}") from None
        _validator[0] = jsonschema.Draft7Validator(schema)
    return _validator[0]


class Stringy:
    def __str__(self):
        return "stringy<&>"


# ------------------------------------------------------------------ building and predicting
class Site:
    def __init__(self, case):
        self.case = case
        self.variant = {}
        self.setters = {}
        self.attr_objs = []
        site = self

        @component
        def Comp(n):
            tick, set_tick = use_state(0)
            site.setters[n["cid"]] = set_tick

            def eff():
                return lambda: site.setters.pop(n["cid"], None) if site.setters.get(n["cid"]) is set_tick else None
            use_effect(eff, [])
            return site.build(site.shown(n))
        self.Comp = Comp

    def shown(self, n):
        vs = n["vs"]
        return vs[self.variant.get(n["cid"], 0) % len(vs)]

    def build(self, n):
        t = n["t"]
        if t == "lit":
            return n["v"]
        if t == "obj":
            return Stringy()
        if t == "list":
            return [self.build(c) for c in n["ch"]]
        if t == "comp":
            return self.Comp(n, **({"key": n["key"]} if n.get("key") else {}))
        attrs = {}
        for k, (kind, v) in n.get("props", {}).items():
            if kind == "json":
                attrs[k] = copy.deepcopy(v)
            elif kind == "tuple":
                attrs[k] = tuple(copy.deepcopy(v))
            elif kind == "fn":
                attrs[k] = (lambda *a: None) if v else _afn
            elif kind == "ev":
                attrs[k] = event(_afn, **v)
            else:
                attrs[k] = InlineJavaScript(v)
        if n.get("key"):
            attrs["key"] = n["key"]
        before = dict(attrs)
        self.attr_objs.append((attrs, before, copy.deepcopy({k: v for k, v in attrs.items() if n.get("props", {}).get(k, [0])[0] in ("json",)})))
        kids = [self.build(c) for c in n.get("ch", ())]
        imp = n.get("imp")
        if imp:
            fb = imp["fallback"]
            if isinstance(fb, dict):
                fb = html.p({"className": fb["c"]}, fb["text"]) if fb["text"] else html.p()
            make = Vdom(n["tag"], import_source=ImportSourceDict(source=imp["source"], sourceType=imp["sourceType"], fallback=fb,
                                                                  unmountBeforeUpdate=imp["unmount"]))
        else:
            make = Vdom(n["tag"]) if n["tag"] == "custom-el" else getattr(html, n["tag"])
        if attrs or n.get("emptyattrs"):
            return make(attrs, *kids)
        return make(*kids)

    def expect(self, n, out):
        t = n["t"]
        if t == "lit":
            if n["v"] is not None:
                out.append(n["v"] if isinstance(n["v"], str) else str(n["v"]))
        elif t == "obj":
            out.append("stringy<&>")
        elif t == "list":
            for c in n["ch"]:
                self.expect(c, out)
        elif t == "comp":
            ch = []
            v = self.shown(n)
            self.expect(v, ch)
            out.append({"tagName": "", **({"children": ch} if ch else {})})
        else:
            m = {"tagName": n["tag"]}
            attrs, hs, js = {}, {}, {}
            for k, (kind, v) in n.get("props", {}).items():
                if kind in ("fn", "ev"):
                    f = v if kind == "ev" else {}
                    h = {"preventDefault": bool(f.get("prevent_default")), "stopPropagation": bool(f.get("stop_propagation"))}
                    for x in ("debounce", "throttle"):
                        if f.get(x) is not None:
                            h[x] = f[x]
                    hs[k] = h
                elif kind == "js" or (isinstance(v, str) and ON.match(k)):
                    js[k] = v
                else:
                    attrs[k] = list(v) if kind == "tuple" else v
            if n.get("key"):
                attrs["key"] = n["key"]
            ch = []
            for c in n.get("ch", ()):
                self.expect(c, ch)
            for name, val in (("attributes", attrs), ("eventHandlers", hs), ("inlineJavaScript", js), ("children", ch)):
                if val:
                    m[name] = val
            imp = n.get("imp")
            if imp:
                fb = imp["fallback"]
                if isinstance(fb, dict):
                    fb = {"tagName": "p", "attributes": {"className": fb["c"]}, "children": [fb["text"]]} if fb["text"] else {"tagName": "p"}
                m["importSource"] = {"source": imp["source"], "sourceType": imp["sourceType"], "fallback": fb,
                                     "unmountBeforeUpdate": imp["unmount"]}
            out.append(m)


async def _afn(*a):
    pass


def norm(m, targets):
    if isinstance(m, str):
        return m
    if not isinstance(m, dict):
        raise Violation(f"model node is neither text nor element: {m!r:.200}")
    r = {}
    for k, v in m.items():
        if k == "children":
            if not isinstance(v, list):
                raise Violation(f"children is not a list: {v!r:.200}")
            if v:
                r[k] = [norm(c, targets) for c in v]
        elif k == "eventHandlers":
            hs = {}
            for name, h in v.items():
                h = dict(h)
                t = h.pop("target", None)
                if not isinstance(t, str):
                    raise Violation(f"event handler {name!r} has no target: {h!r}")
                targets.append(t)
                hs[name] = h
            if hs:
                r[k] = hs
        elif k in ("attributes", "inlineJavaScript"):
            if v:
                r[k] = v
        else:
            r[k] = v
    return r


def C(x):
    return json.dumps(x, sort_keys=True)


def first_diff(a, b, path="$"):
    if type(a) is not type(b):
        return f"{path}: {a!r:.300} is not {b!r:.300}"
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return f"{path}.{k}: only in the {'document' if k in a else 'declared tree'}: {(a.get(k) if k in a else b.get(k))!r:.200}"
            d = first_diff(a[k], b[k], f"{path}.{k}")
            if d:
                return d
    elif isinstance(a, list):
        if len(a) != len(b):
            return f"{path}: {len(a)} items instead of {len(b)}: {a!r:.300} / {b!r:.300}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_diff(x, y, f"{path}[{i}]")
            if d:
                return d
    elif a != b:
        return f"{path}: {a!r:.300} is not {b!r:.300}"
    return None


async def session(loop, case, checks):
    REACTPY_DEBUG.current = checks
    REACTPY_ASYNC_RENDERING.current = case["mode"] == "async"
    site = Site(case)
    msgs = []
    doc = {}
    root = {"t": "comp", "cid": 0, "vs": case["vs"]}
    async with Layout(site.Comp(root)) as layout:
        async def drain():
            nonlocal doc
            while True:
                t = asyncio.ensure_future(layout.render())
                await loop.settle()
                if not t.done():
                    t.cancel()
                    break
                msg = t.result()
                if set(msg) != {"type", "path", "model"} or msg["type"] != "layout-update":
                    raise Violation(f"unexpected message {msg!r:.200}")
                try:
                    wire = json.loads(json.dumps(msg, allow_nan=False))
                    wire2 = orjson.loads(orjson.dumps(msg))
                except (TypeError, ValueError) as e:
                    raise Violation(f"update is not JSON: {e}: {msg!r:.400}") from None
                if C(wire) != C(wire2):
                    raise Violation("the update differs after serialisation with orjson: " + str(first_diff(wire2, wire)))
                for e in validator().iter_errors(wire["model"]):
                    raise Violation(f"model violates the VDOM schema at {'/'.join(map(str, e.absolute_path))}: {e.message[:300]}")
                try:
                    V.validate_vdom_json(wire["model"])
                except Exception as e:
                    raise Violation(f"validate_vdom_json rejects a model: {e}") from None
                msgs.append(wire)
                doc = W.apply_update(doc, wire)
            ch = []
            site.expect(root, ch)
            targets = []
            got = norm(doc, targets)
            d = first_diff(got, ch[0])
            if d:
                raise Violation("the client's document is not what was declared: " + d)
            if len(set(targets)) != len(targets):
                raise Violation(f"event target used twice: {targets}")
            for attrs, before, deep in site.attr_objs:
                if list(attrs) != list(before) or any(attrs[k] is not before[k] for k in before) or any(C(attrs[k]) != C(v) for k, v in deep.items()):
                    raise Violation(f"the caller's attributes were modified: {attrs!r:.300} / {before!r:.300}")
            site.attr_objs.clear()
        await drain()
        for op in case["ops"]:
            if op[0] == "drain":
                await drain()
            else:
                live = sorted(site.setters)
                cid = live[op[1] % len(live)]
                site.variant[cid] = op[2]
                site.n = getattr(site, "n", 0) + 1
                site.setters[cid](site.n)
        await drain()
    return msgs


def run(case, rec):
    res = []
    try:
        for checks in (True, False):
            res.append(vloop.run(session, case, checks))
    finally:
        REACTPY_DEBUG.current = False
        REACTPY_ASYNC_RENDERING.current = True
    if C(res[0]) != C(res[1]):
        raise Violation("messages depend on whether checks are enabled: " + str(first_diff(res[0], res[1])))
    txt = C(res[0])
    for name, word in (("handlers", '"eventHandlers"'), ("inline-js", '"inlineJavaScript"'), ("import", '"importSource"'),
                       ("debounce", '"debounce"'), ("throttle", '"throttle"'), ("fallback", '"fallback": {')):
        if word in txt:
            rec.tag(name)
    rec.nt(len(res[0]) >= 2 and len(txt) > 300)


# ------------------------------------------------------------------ generator
WORDS = ["a", "", "x y", "<b>&\"'", "é\u2028\U0001F600", "\x00\x01\n", "~1/~0", "None", "0", "</script>", "key", "\\u0041"]
NAMES = ["id", "className", "data-x", "style", "value", "checked", "on", "onfoo", "onX", "on_click", "ON", "a:b", "a/b~", "", "__proto__",
         "target", "tagName", "é"]
EVNAMES = ["onClick", "onChange", "onKeyDown", "click", "on-custom", "onX"]


def jval(g, d=2):
    k = g.i(0, 9 if d else 6)
    if k == 0:
        return None
    if k == 1:
        return g.p(0.5)
    if k == 2:
        return g.pick([0, 1, -1, 255, 2 ** 53 - 1, -2 ** 53])
    if k == 3:
        return g.pick([0.0, -0.5, 1e300, 5e-324, 1e16, 3.141592653589793])
    if k <= 6:
        return g.pick(WORDS)
    if k == 7:
        return [jval(g, d - 1) for _ in range(g.size(0, 3))]
    return {g.pick(WORDS + ["color", "fontSize"]): jval(g, d - 1) for _ in range(g.size(0, 3))}


class Ctx:
    def __init__(self, g):
        self.g, self.n, self.cid = g, 0, 1


def gen_node(cx, d):
    g = cx.g
    cx.n += 1
    t = g.weighted([(5 if d else 0.5, "el"), (2, "text"), (0.7, "num"), (0.4, "bool"), (0.6, "none"), (0.7 if d else 0, "list"),
                    (2.2 if d else 0, "comp"), (0.2, "obj")])
    if t == "text":
        return {"t": "lit", "v": g.pick(WORDS)}
    if t == "num":
        return {"t": "lit", "v": g.pick([0, 1, -7, 1.5, 0.1, 1e21, 10 ** 30])}
    if t == "bool":
        return {"t": "lit", "v": g.p(0.5)}
    if t == "none":
        return {"t": "lit", "v": None}
    if t == "obj":
        return {"t": "obj"}
    if t == "list":
        return {"t": "list", "ch": [gen_node(cx, d - 1) for _ in range(g.size(0, 3))]}
    if t == "comp":
        cx.cid += 1
        cid = cx.cid
        return {"t": "comp", "cid": cid, "vs": [gen_top(cx, d - 1) for _ in range(g.i(1, 3))], **({"key": f"k{cx.n}"} if g.p(0.2) else {})}
    n = {"t": "el", "tag": g.pick(TAGS), "props": {}}
    for _ in range(g.size(0, 4)):
        k = g.random()
        if k < 0.5:
            n["props"][g.pick(NAMES)] = ["json", jval(g)]
        elif k < 0.55:
            n["props"][g.pick(NAMES)] = ["tuple", [jval(g, 1)]]
        elif k < 0.65:
            n["props"][g.pick(EVNAMES)] = ["fn", g.p(0.5)]
        elif k < 0.8:
            f = {}
            for name in ("prevent_default", "stop_propagation"):
                if g.p(0.4):
                    f[name] = g.p(0.7)
            for name in ("debounce", "throttle"):
                if g.p(0.4):
                    f[name] = g.pick([0, 1, 200, 100000])
            n["props"][g.pick(EVNAMES)] = ["ev", f]
        elif k < 0.9:
            n["props"][g.pick(EVNAMES + NAMES)] = ["js", g.pick(WORDS + ["alert(1)"])]
        else:
            n["props"][g.pick(EVNAMES)] = ["json", g.pick(WORDS + ["this.x = 1"])]
    if g.p(0.15):
        n["key"] = f"k{cx.n}"
    if g.p(0.1):
        n["emptyattrs"] = True
    if g.p(0.12):
        n["tag"] = g.pick(["Button", "Lib.Item", "default", "x-y"])
        n["imp"] = {"source": g.pick(["https://cdn/x.js", "file.js", "a b"]), "sourceType": g.pick(["URL", "NAME"]),
                    "fallback": g.pick([None, "", "loading…", {"c": "x", "text": "<wait>"}, {"c": "", "text": ""}]), "unmount": g.p(0.5)}
    n["ch"] = [gen_node(cx, d - 1) for _ in range(g.width(4))] if d and n["tag"] not in ("input",) else []
    return n


def gen_top(cx, d):
    while True:
        n = gen_node(cx, d)
        if n["t"] != "list" or True:
            return n if n["t"] != "list" else {"t": "el", "tag": "div", "props": {}, "ch": n["ch"]}


def gen(g):
    cx = Ctx(g)
    vs = [gen_top(cx, g.i(1, 4)) for _ in range(g.i(1, 3))]
    ops = []
    for _ in range(g.i(1, 7)):
        ops.append(["drain"] if g.p(0.3) else ["set", g.i(0, 9), g.i(0, 2)])
    return {"vs": vs, "ops": ops, "mode": g.pick(["async", "async", "serial"])}


def valid(c):
    seen = set()

    def ok(n, top=False):
        t = n["t"]
        if t == "lit":
            v = n["v"]
            return v is None or isinstance(v, (str, bool, int, float))
        if t == "obj":
            return True
        if t == "list":
            return not top and all(ok(x) for x in n["ch"])
        if n.get("key"):
            if n["key"] in seen or not re.fullmatch(r"k\d+", n["key"]):
                return False
            seen.add(n["key"])
        if t == "comp":
            if n["cid"] in seen or type(n["cid"]) is not int or n["cid"] < 1 or not n["vs"]:
                return False
            seen.add(n["cid"])
            return all(ok(x, True) for x in n["vs"])
        if t != "el" or not n["tag"] or (not n.get("imp") and n["tag"] not in TAGS):
            return False
        for k, (kind, v) in n["props"].items():
            if k == "key" or kind not in ("json", "tuple", "fn", "ev", "js"):
                return False
            if kind == "tuple" and not isinstance(v, list) or kind == "js" and not isinstance(v, str):
                return False
            if kind == "ev" and not (isinstance(v, dict) and all(x in ("prevent_default", "stop_propagation", "debounce", "throttle") for x in v)):
                return False
        if n.get("imp"):
            i = n["imp"]
            if i["sourceType"] not in ("URL", "NAME") or type(i["source"]) is not str or type(i["unmount"]) is not bool:
                return False
            if isinstance(i["fallback"], dict) and set(i["fallback"]) != {"c", "text"}:
                return False
        if n["tag"] == "input" and n["ch"]:
            return False
        return all(ok(x) for x in n["ch"])
    try:
        if not c["vs"] or not all(ok(v, True) for v in c["vs"]) or c["mode"] not in ("async", "serial"):
            return None
        if any(len(o) != {"drain": 1, "set": 3}[o[0]] for o in c["ops"]):
            return None
        return c
    except (KeyError, TypeError, ValueError, AttributeError):
        return None


# ------------------------------------------------------------------ acknowledged sequence numbers
SEQ_TAGS = ["input", "select", "textarea"]


def run_seq(case, rec):
    """inputs = [{"tag","evs":[names],"key"}]; ops: deliver / rerender / toggle (mount, unmount) / drain."""
    async def main(loop):
        REACTPY_ASYNC_RENDERING.current = case["mode"] == "async"
        shown = [True] * len(case["inputs"])
        ack = [{} for _ in case["inputs"]]          # per input: event -> highest seq processed since it was mounted
        ctl = {}
        calls = []
        memo = {}

        @component
        def Root():
            n, ctl["set"] = use_state(0)
            kids = []
            for i, spec in enumerate(case["inputs"]):
                if not shown[i]:
                    kids.append(None if not spec.get("key") else html.p())
                    continue
                if i in memo:      # the same object again (a memoised element)
                    kids.append(memo[i])
                    continue
                hs = {}
                for e in spec["evs"]:
                    async def h(ev, i=i, e=e, spec=spec):
                        calls.append((i, e, ev["n"]))
                        if spec.get("sets"):
                            ctl["n"] += 1
                            ctl["set"](ctl["n"])
                    hs[e] = h
                el = getattr(html, spec["tag"])({"id": f"x{i}", **({"key": f"k{i}"} if spec.get("key") else {}), **hs})
                if spec.get("memo"):
                    memo[i] = el
                kids.append(el)
            return html.div(*kids, html.input({"id": "other", "onChange": lambda e: None}))
        ctl["n"] = 0
        async with Layout(Root()) as layout:
            doc = None

            def find(i):
                for m in W.walk(doc):
                    if (m.get("attributes") or {}).get("id") == f"x{i}":
                        return m

            async def drain():
                nonlocal doc
                while True:
                    t = asyncio.ensure_future(layout.render())
                    await loop.settle()
                    if not t.done():
                        t.cancel()
                        break
                    doc = W.apply_update(doc, json.loads(json.dumps(t.result())))

            async def rerender():
                ctl["n"] += 1
                ctl["set"](ctl["n"])
                await drain()
            await drain()
            sent = 0
            checked = 0
            for op in case["ops"]:
                i = op[1] % len(case["inputs"]) if len(op) > 1 else 0
                if op[0] == "ev":
                    m = find(i)
                    if m is None:
                        if ctl.get("targets", {}).get(i):      # event for an element that is gone
                            e, target = sorted(ctl["targets"][i].items())[op[2] % len(ctl["targets"][i])]
                            await layout.deliver({"type": "layout-event", "target": target, "data": [{"n": -1}], **({} if op[3] is None else {"seq": op[3]})})
                            await drain()
                        continue
                    hs = m["eventHandlers"]
                    ctl.setdefault("targets", {})[i] = {e: h["target"] for e, h in hs.items()}
                    e = sorted(hs)[op[2] % len(hs)]
                    msg = {"type": "layout-event", "target": hs[e]["target"], "data": [{"n": sent}]}
                    if op[3] is not None:
                        msg["seq"] = op[3]
                    await layout.deliver(msg)
                    await drain()
                    if calls[-1:] != [(i, e, sent)]:
                        raise Violation(f"event {sent} did not reach its handler: {calls[-3:]}")
                    sent += 1
                    if type(op[3]) is int and op[3] >= 0:
                        ack[i][e] = max(op[3], ack[i].get(e, -1))
                elif op[0] == "rerender":
                    await rerender()
                elif op[0] == "toggle":
                    shown[i] = not shown[i]
                    ack[i] = {}
                    await rerender()
                    if not case["inputs"][i].get("key"):
                        # positional siblings behind it moved (None takes no place): they are different elements now
                        for j in range(i + 1, len(ack)):
                            if not case["inputs"][j].get("key"):
                                ack[j] = {}
                        # ... and their old places are only reused by the same kind of node: start over everywhere
                        ctl["moved"] = True
                await rerender()
                for j in range(len(ack)):
                    m = find(j)
                    if m is None:
                        continue
                    got = m["attributes"].get("_reactpy_ack_seq")
                    want = max(ack[j].values(), default=None)
                    if ctl.get("moved") and not case["inputs"][j].get("key"):
                        continue
                    checked += 1
                    if got != want:
                        raise Violation(f"input {j} carries acknowledgement {got}, the highest number processed is {want}")
            rec.nt(sent >= 2 and checked >= 2)
            rec.tag(case["mode"], *(["toggled"] if ctl.get("moved") or any(o[0] == "toggle" for o in case["ops"]) else []),
                    *(["out-of-order"] if sent else []))
    try:
        vloop.run(main)
    finally:
        REACTPY_ASYNC_RENDERING.current = True


def gen_seq(g):
    inputs = [{"tag": g.pick(SEQ_TAGS), "evs": g.some(["onChange", "onKeyDown", "onBlur"], 0.6) or ["onChange"], "sets": g.p(0.5),
               **({"key": True} if g.p(0.6) else {}), **({"memo": True} if g.p(0.3) else {})} for _ in range(g.i(1, 3))]
    ops = []
    seqs = [0, 0]
    for _ in range(g.i(2, 10 * g.long())):
        k = g.weighted([(6, "ev"), (1, "rerender"), (1.5, "toggle")])
        if k == "ev":
            s = g.weighted([(5, g.i(0, 20)), (1, None), (0.5, -1), (0.3, "7"), (0.5, 2 ** 40)])
            ops.append(["ev", g.i(0, 2), g.i(0, 2), s])
        elif k == "toggle":
            ops.append(["toggle", g.i(0, 2)])
        else:
            ops.append(["rerender"])
    return {"inputs": inputs, "ops": ops, "mode": g.pick(["async", "async", "serial"])}


def valid_seq(c):
    try:
        if not c["inputs"] or c["mode"] not in ("async", "serial"):
            return None
        for s in c["inputs"]:
            if s["tag"] not in SEQ_TAGS or not s["evs"] or len(set(s["evs"])) != len(s["evs"]) or any(not ON.match(e) for e in s["evs"]):
                return None
        for o in c["ops"]:
            if len(o) != {"ev": 4, "rerender": 1, "toggle": 2}[o[0]]:
                return None
        return c
    except (KeyError, TypeError):
        return None


# ------------------------------------------------------------------ the schema itself
def run_schema(case, rec):
    v = validator()
    model = case["model"]
    ok1 = not list(v.iter_errors(model))
    try:
        V.validate_vdom_json(model)
        ok2 = True
    except Exception as e:
        if type(e).__name__ not in ("JsonSchemaValueException",):
            raise Violation(f"validate_vdom_json crashes: {e!r}") from None
        ok2 = False
    want = well_formed(model)
    rec.tag("well-formed" if want else "malformed")
    rec.nt()
    if ok1 != want or ok2 != want:
        raise Violation(f"model is {'well' if want else 'mal'}formed, the schema says {ok1}, validate_vdom_json says {ok2}")


def well_formed(m):
    if not isinstance(m, dict) or not isinstance(m.get("tagName"), str):
        return False
    if "error" in m and (not isinstance(m["error"], str) or m["tagName"] != ""):
        return False
    if "children" in m:
        if not isinstance(m["children"], list) or not all(isinstance(c, str) or well_formed(c) for c in m["children"]):
            return False
    if "attributes" in m and not isinstance(m["attributes"], dict):
        return False
    if "inlineJavaScript" in m:
        if not isinstance(m["inlineJavaScript"], dict) or not all(isinstance(x, str) for x in m["inlineJavaScript"].values()):
            return False
    if "eventHandlers" in m:
        if not isinstance(m["eventHandlers"], dict):
            return False
        for h in m["eventHandlers"].values():
            if not isinstance(h, dict) or not isinstance(h.get("target"), str):
                return False
            for k in ("preventDefault", "stopPropagation"):
                if k in h and not isinstance(h[k], bool):
                    return False
            for k in ("debounce", "throttle"):
                if k in h and not (type(h[k]) is int and h[k] >= 0):
                    return False
    if "importSource" in m:
        i = m["importSource"]
        if not isinstance(i, dict) or not isinstance(i.get("source"), str):
            return False
        if "sourceType" in i and i["sourceType"] not in ("URL", "NAME"):
            return False
        if "unmountBeforeUpdate" in i and not isinstance(i["unmountBeforeUpdate"], bool):
            return False
        if "fallback" in i:
            f = i["fallback"]
            if not (f is None or isinstance(f, str) or well_formed(f)):
                return False
    return True


def gen_model(g, d=3):
    m = {"tagName": g.pick(["div", "p", "", "X"])}
    if g.p(0.5):
        m["attributes"] = {g.pick(WORDS): jval(g, 1)}
    if g.p(0.4):
        m["eventHandlers"] = {e: {"target": "t", **{k: g.p(0.5) for k in g.some(["preventDefault", "stopPropagation"], 0.4)}, **{k: g.i(0, 9) for k in g.some(["debounce", "throttle"], 0.4)}}
                              for e in g.sample(EVNAMES, g.i(1, 2))}
    if g.p(0.4):
        m["inlineJavaScript"] = {g.pick(EVNAMES): "x"}
    if g.p(0.3):
        m["importSource"] = {"source": "s", **({"sourceType": g.pick(["URL", "NAME"])} if g.p(0.8) else {}), **({"unmountBeforeUpdate": g.p(0.5)} if g.p(0.8) else {}),
                             **({"fallback": g.pick([None, "x", "", {"tagName": "p"}, {"tagName": "i", "children": ["wait"]}])} if g.p(0.8) else {})}
    if m["tagName"] == "" and g.p(0.3) or g.p(0.02):
        m["error"] = g.pick(["", "E"])
    if d and g.p(0.8):
        m["children"] = [gen_model(g, d - 1) if g.p(0.6) else g.pick(WORDS) for _ in range(g.size(0, 3))]
    return m


def gen_schema(g):
    m = gen_model(g)
    if g.p(0.65):      # damage one place
        nodes = []

        def go(x):
            if isinstance(x, dict):
                nodes.append(x)
                for v in x.values():
                    go(v)
            elif isinstance(x, list):
                if x:
                    nodes.append(x)
                for v in x:
                    go(v)
        go(m)
        x = g.pick(nodes)
        bad = g.pick([None, 0, 1.5, True, "s", [], {}, -1, [1], {"a": 1}])
        if isinstance(x, dict) and x:
            k = g.pick(sorted(x))
            if g.p(0.25):
                del x[k]
            else:
                x[k] = bad
        elif isinstance(x, list) and x:
            x[g.i(0, len(x) - 1)] = bad
        elif isinstance(x, dict) and g.p(0.5):
            x["error"] = "E"
    return {"model": m}


SUBS = [
    Sub("messages", gen=gen, valid=valid, run=run, quick=4800, thorough=100000, shards=5,
        rule="component trees over every node kind and JSON attribute values, variants switched by state; each message is checked and the document "
             "compared with the declared tree, twice (checks on / off); non-trivial = at least two messages and 300 bytes"),
    Sub("ack", gen=gen_seq, valid=valid_seq, run=run_seq, quick=3000, thorough=40000, shards=3,
        rule="numbered events (out of order, missing, negative) to input elements that are re-rendered, removed and re-created; non-trivial = two events and two comparisons"),
    Sub("schema", gen=gen_schema, valid=lambda c: c if set(c) == {"model"} else None, run=run_schema, quick=24000, thorough=200000, shards=3,
        rule="models, two thirds of them damaged at one place: the published schema and validate_vdom_json against an explicit definition of a well-formed model"),
]
