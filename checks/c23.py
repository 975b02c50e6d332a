import math
import re

from lib import Sub, Violation
from node import Node

PROPERTY = "C23"
ASSUMPTIONS = ["Node, Event, Window, Document, HTMLFormElement, CSSStyleSheet and CSSStyleDeclaration are stand-ins", "the elements of a form have names that can be read"]
NODE = Node("js/e2o.js")
KINDS = ["obj", "cls", "arr", "arrlike", "nolist", "map", "typed", "nullproto", "node", "input", "select", "form", "style", "filelist"]
KEYS = ["a", "b", "detail", "target", "value", "checked", "type", "name", "id", "data", "x", "0", "length2", "Abc", "_x"]
IGNORED = ["view", "size", "length", "AT_TARGET", "_", "NONE", "__x", "__proto_"]
RELATIVES = ["parentNode", "parentElement", "ownerDocument", "childNodes", "children", "firstChild", "lastChild", "previousSibling", "nextSibling", "previousElementSibling", "nextElementSibling",
             "innerHTML", "outerHTML", "offsetParent", "offsetWidth", "offsetHeight", "offsetLeft", "offsetTop", "clientTop", "clientLeft", "clientWidth", "clientHeight", "scrollWidth", "scrollHeight", "scrollTop", "scrollLeft"]
PRIMS = [0, 1, -1.5, 1e21, "", "text", "é\U0001F600", True, False, None]
ODD = [{"f": 1}, {"u": 1}, {"nan": 1}, {"inf": 1}, {"big": "12"}, {"sym": 1}, {"win": 1}, {"doc": 1}, {"sheet": 1}, {"hostile": 1}]
NODES = ("node", "input", "select", "form")
LISTS = ("arr", "arrlike", "typed", "filelist")


def gen(g):
    n = g.i(1, 9)
    deep = g.p(0.25)
    kinds = []
    for i in range(n):
        if i == 0:
            kinds.append(g.weighted([(10, "event"), (2, "obj"), (2, "arr"), (1, "arrlike"), (1, "node"), (1, "cls"), (1, "select"), (1, "form")]))
        elif deep:
            kinds.append(g.pick(["obj", "arr", "cls"]))
        else:
            kinds.append(g.pick(KINDS))
    # once per node there is a path of objects that can be deeper than the limit
    budget = [14]

    def val(i):
        r = g.random()
        if r < (0.6 if deep else 0.4) and budget[0] > 0:
            budget[0] -= 1
            if deep and i + 1 < n and g.p(0.8):
                return {"r": i + 1}
            return {"r": g.i(0, n - 1)}
        if r < 0.55:
            return g.pick(ODD)
        return g.pick(PRIMS)
    nodes = []
    for i, k in enumerate(kinds):
        d = {"kind": k}
        names = KEYS + (IGNORED if g.p(0.3) else []) + (RELATIVES if k in NODES and g.p(0.5) else ["children", "innerHTML"] if g.p(0.2) else [])
        if k == "typed":
            d["items"] = [g.pick([0, 1, 2.5, -3]) for _ in range(g.i(0, 4 * g.long()))]
            nodes.append(d)
            continue
        if k in ("arr", "arrlike", "filelist", "map", "select", "form", "style", "nolist"):
            d["items"] = [val(i) for _ in range(g.size(0, 4 * g.long()))]
            if k == "arr" and d["items"] and g.p(0.1):
                d["throwItems"] = [g.i(0, len(d["items"]) - 1)]
            if k in ("arrlike", "filelist"):
                d["hideItems"] = g.p(0.5)
        if k not in LISTS:
            if k == "style":
                names = ["color", "0", "margin", "cssText"]
            own = {x: val(i) for x in g.sample(names, g.size(1 if deep else 0, min(4, len(names))))}
            if k == "style":
                own = {x: g.pick(["", "red", "1px"]) for x in own}
                d["items"] = []
                own.pop("0", None)
            if i == 0 and n > 1 and g.p(0.85):
                own["target"] = {"r": g.i(1, n - 1)}
            d["own"] = own
            if k not in ("obj", "nullproto"):
                d["proto"] = {x: val(i) for x in g.sample([y for y in names if y not in own], g.size(0, max(0, min(3, len(names) - len(own) - 1))))}
                if k in NODES and i > 0 and g.p(0.7):
                    extra = {"value": g.pick(PRIMS), "checked": g.p(0.5), "type": g.pick(["text", "hidden", "password", "submit"]), "name": g.pick(["n", "size", "NAME", "__t", ""]), "files": {"r": g.i(0, n - 1)}, "dataset": val(i)}
                    d["hidden"] = {x: v for x, v in extra.items() if g.p(0.4) and x not in own and x not in d["proto"]}
            if g.p(0.12):
                d["throws"] = [g.pick(["bad", "value", "dataset", "files", "AT_X"])]
            if k in ("input", "select"):
                for x in ("own", "proto"):
                    if "name" in d[x]:
                        d[x]["name"] = g.pick(["n", "m", "value", "size"])
            if k == "form" and g.p(0.8):
                d["elements"] = [j for j in range(n) if kinds[j] in ("input", "select") and g.p(0.7)]
        nodes.append(d)
    sel = g.weighted([(3, "none"), (2, None), (5, "sel")])
    case = {"nodes": nodes, "root": {"r": 0} if g.p(0.97) else g.pick([None, 0, 1.5, "text", "", True]), "maxDepth": g.weighted([(5, None), (1, 1), (2, 2), (2, 3), (1, 4), (1, 7)])}
    if sel != "none":
        case["selection"] = sel and {"type": "Range", "text": "sel", "anchor": g.pick([None, {"r": g.i(0, n - 1)}, {"r": g.i(0, n - 1)}, {"hostile": 1}]), "focus": g.pick([None, {"r": g.i(0, n - 1)}])}
    return case


def valid(c):
    try:
        n = len(c["nodes"])

        def ok(v):
            if isinstance(v, dict):
                if "r" in v:
                    return set(v) == {"r"} and type(v["r"]) is int and 0 <= v["r"] < n
                return v in ODD
            return v is None or isinstance(v, (str, int, float, bool))
        for i, d in enumerate(c["nodes"]):
            k = d["kind"]
            if k not in KINDS and k != "event":
                return None
            if set(d) - {"kind", "own", "proto", "hidden", "throws", "items", "throwItems", "hideItems", "elements"}:
                return None
            if k in ("arr", "arrlike", "filelist", "map", "select", "form", "style", "nolist", "typed") and not isinstance(d.get("items"), list):
                return None
            if k in ("obj", "cls", "event", "nullproto", "node", "input") and "items" in d or k == "style" and d["items"]:
                return None
            if k in LISTS and (set(d) & {"own", "proto", "hidden", "throws", "elements"}) or k in ("obj", "nullproto") and ("proto" in d or "hidden" in d):
                return None
            if "hidden" in d and (k not in NODES or i == 0 or set(d["hidden"]) - {"value", "checked", "type", "name", "files", "dataset"}):
                return None
            if k == "typed" and any(type(v) not in (int, float) for v in d["items"]):
                return None
            if k == "style" and any(not isinstance(v, str) for v in d["own"].values()):
                return None
            if "elements" in d and (k != "form" or any(c["nodes"][j]["kind"] not in ("input", "select") for j in d["elements"])):
                return None
            if "throwItems" in d and (k != "arr" or any(not 0 <= j < len(d["items"]) for j in d["throwItems"])):
                return None
            keys = [*d.get("own", {}), *d.get("proto", {}), *d.get("hidden", {})]
            if len(keys) != len(set(keys)) or any(not isinstance(x, str) or x in ("", "__proto__", "constructor", "elements", "selection", "toString") for x in keys):
                return None
            for x in ("own", "proto", "hidden"):
                if not all(ok(v) for v in d.get(x, {}).values()):
                    return None
            if not all(isinstance(x, str) and x in ("bad", "value", "dataset", "files", "AT_X") for x in d.get("throws", [])):
                return None
            if not all(ok(v) for v in d.get("items", [])):
                return None
            if "name" in d.get("throws", []) or any(not isinstance(d.get(x, {}).get("name", ""), str) for x in ("own", "proto", "hidden") if k in ("input", "select")):
                return None
        if not ok(c["root"]) or not (c["maxDepth"] is None or 1 <= c["maxDepth"] <= 12):
            return None
        s = c.get("selection")
        if s and (set(s) != {"type", "text", "anchor", "focus"} or any(s[x] is not None and not (isinstance(s[x], dict) and ok(s[x]) and ("r" in s[x] or s[x] == {"hostile": 1})) for x in ("anchor", "focus"))):
            return None
        return c
    except (KeyError, TypeError, ValueError, AttributeError, IndexError):
        return None


SKIP = object()
WILD = object()


class Model:
    def __init__(self, case):
        self.nodes = case["nodes"]
        self.limit = case["maxDepth"] or 10
        self.cut = False
        self.cycle = False

    def odd(self, v):
        return v is None or isinstance(v, dict) and any(x in v for x in ("f", "u", "big", "sym", "win", "doc", "sheet", "hostile"))

    def value(self, v, level, above):
        """what a member becomes, or SKIP"""
        if self.odd(v):
            return SKIP
        if isinstance(v, dict):
            if "r" not in v:
                return None  # JSON has no NaN or Infinity
            return self.node(v["r"], level, above)
        return v

    def node(self, i, level, above):
        if level >= self.limit:
            self.cut = True
            return SKIP
        if i in above:
            self.cycle = True
            return SKIP
        d = self.nodes[i]
        k = d["kind"]
        above = (*above, i)
        if k in LISTS:
            out = []
            for j, v in enumerate(d["items"]):
                if j in d.get("throwItems", ()):
                    continue
                x = self.value(v, level + 1, above)
                if x is not SKIP:
                    out.append(x)
            return out
        members = dict(d.get("own", {}))
        members.update({x: v for x, v in d.get("proto", {}).items() if x not in members})
        for j, v in enumerate(d.get("items", [])):
            members[str(j)] = v
        for t in d.get("throws", ()):
            members[t] = {"u": 1}
        out = {}

        def put(x, v):
            if x.startswith("__") or re.fullmatch("[A-Z_]+", x) or x in ("view", "size", "length") or (k in NODES and x in RELATIVES) or (k == "style" and v == ""):
                return
            r = self.value(v, level + 1, above)
            if r is not SKIP:
                out[x] = r
        for x, v in members.items():
            put(x, v)
        if level:
            for x, v in d.get("hidden", {}).items():
                if x not in d.get("throws", ()):
                    put(x, v)
        # the files of an element may be deeper than everything else
        f = members.get("files", d.get("hidden", {}).get("files"))
        if level and f is not None and (isinstance(f, dict) and "r" in f):
            deep = self.limit - level < 6
            if deep:
                out["files"] = WILD
        if k == "form" and level:
            for j in d.get("elements", []):
                e = self.nodes[j]
                name = {**e.get("hidden", {}), **e.get("proto", {}), **e.get("own", {})}.get("name")
                if not name:
                    continue
                if name not in out:
                    r = self.node(j, level + 1, above)
                    if r is not SKIP:
                        out[name] = r
        return out


def same(a, b, where=""):
    """None or where the model's and the real value differ"""
    if a is WILD:
        return None
    if isinstance(a, dict):
        if not isinstance(b, dict):
            return f"{where or 'root'} is {b!r:.60} instead of an object"
        for k in a:
            if k not in b:
                if a[k] is None or a[k] is WILD:
                    continue
                return f"{where}.{k} is missing (should be {a[k]!r:.80})"
            d = same(a[k], b[k], f"{where}.{k}")
            if d:
                return d
        for k in b:
            if k not in a:
                return f"{where}.{k} is included: {b[k]!r:.80}"
        return None
    if isinstance(a, list):
        if not isinstance(b, list):
            return f"{where or 'root'} is {b!r:.60} instead of a list"
        if len(a) != len(b):
            return f"{where} has the items {b!r:.80} instead of {a!r:.80}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = same(x, y, f"{where}[{i}]")
            if d:
                return d
        return None
    if a is None and b is None:
        return None
    if type(a) is bool or type(b) is bool:
        return None if a is b else f"{where} is {b!r} instead of {a!r}"
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return None if math.isclose(a, b) else f"{where} is {b!r} instead of {a!r}"
    return None if type(a) is type(b) and a == b else f"{where} is {b!r:.80} instead of {a!r:.80}"


def run(case, rec):
    r = NODE.ask({**case})
    if r is None:
        raise Violation("converting did not end")
    if "crash" in r:
        raise RuntimeError(r["crash"])
    if "error" in r:
        raise Violation(f"converting failed: {r['error']}")
    if not isinstance(case["root"], dict):
        if not r.get("prim"):
            raise Violation(f"{case['root']!r} became something else")
        rec.nt(False)
        return
    if "bad" in r:
        raise Violation(f"the result contains {r['bad']}")
    m = Model(case)
    want = m.node(0, 0, ())
    cut, cycle = m.cut, m.cycle
    got = r["out"]
    files = any("files" in {**d.get("own", {}), **d.get("proto", {}), **d.get("hidden", {})} for d in case["nodes"])
    sel = case.get("selection")
    if case["nodes"][0]["kind"] == "event":
        if not isinstance(got, dict) or "selection" not in got:
            raise Violation("the event has no selection")
        got = dict(got)
        s = got.pop("selection")
        if not sel:
            if s is not None:
                raise Violation(f"the selection is {s!r:.80}")
        else:
            rec.tag("selection")
            plain = {"type": sel["type"], "anchorOffset": 1, "focusOffset": 2, "isCollapsed": False, "rangeCount": 1, "selectedText": sel["text"]}
            for k, v in plain.items():
                if not isinstance(s, dict) or s.get(k) != v:
                    raise Violation(f"selection.{k} is {s.get(k) if isinstance(s, dict) else s!r} instead of {v!r}")
            if set(s) != {*plain, "anchorNode", "focusNode"}:
                raise Violation(f"the selection has the members {sorted(s)}")
            for k in ("anchor", "focus"):
                options = [None] if sel[k] is None or "r" not in sel[k] else [None if x is SKIP else x for x in (Model(case).node(sel[k]["r"], 1, (0,)), Model(case).node(sel[k]["r"], 2, (0,)))]
                if all(same(o, s[k + "Node"]) for o in options):
                    raise Violation(f"selection.{k}Node: {same(options[0], s[k + 'Node'])}")
    elif isinstance(got, dict) and "selection" in got:
        raise Violation("a selection was added to something that is no event")
    d = same(want, got)
    if d:
        raise Violation(f"{d[1:] if d.startswith('.') else d}")
    if not files and r["depth"] > m.limit + (1 if sel else 0):
        raise Violation(f"the result is {r['depth']} levels deep, the limit is {m.limit}")
    if cut:
        rec.tag("cut")
    if cycle:
        rec.tag("cyclic")
    rec.tag(f"root:{case['nodes'][0]['kind']}")
    rec.nt(r["depth"] >= 3)


SUBS = [
    Sub("graphs", gen=gen, valid=valid, run=run, quick=48000, thorough=300000, shards=8,
        rule="object graphs of up to 9 events, elements, forms, selects, inputs, lists, list-like and map-like objects with primitive, odd, throwing, hidden and cyclic members, and depth limits; non-trivial = the result has at least three levels"),
]
