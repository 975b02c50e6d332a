import asyncio
import base64
import copy
import json
import logging
import warnings
from html.parser import HTMLParser

from reactpy import component, html
from reactpy.core.hooks import use_state
from reactpy.core.layout import Layout
from reactpy.utils import reactpy_to_string
from reactpy.widgets import image, use_linked_inputs

import vloop
import world as W
from lib import Sub, Violation

warnings.simplefilter("ignore")
logging.getLogger("reactpy").setLevel(logging.CRITICAL)
PROPERTY = "C27"
ASSUMPTIONS = ["inputs whose number varies have keys", "the browser reports the value of the changed input as event.target.value"]
TEXTS = ["", "a", "abc", "0", "12", "-3", " ", "1.5", "é\U0001F600", "<&>", "None"]
EXTRA = {"className": ["x", "y z"], "type": ["text", "number"], "placeholder": ["", "p"], "value": ["own"], "disabled": [True, False], "data-n": [1, "2"], "style": [{"color": "red"}]}


def inner(node):
    while node["tagName"] == "":
        node = node["children"][0]
    return node


# ------------------------------------------------------------------ linked inputs
def cast_of(how):
    def cast(v):
        if how == "boom" or how == "int" and not v.lstrip("-").isdigit():
            raise ValueError(v)
        return int(v) if how == "int" else [v] if how == "list" else v.upper()
    return cast


class Page:
    def __init__(self, case):
        page = self
        self.case = case
        self.calls = []
        self.other = []
        self.variant = 0
        self.returned = []
        self.given = []

        @component
        def Root():
            v, page.set_variant = use_state(0)
            out, page.returned, page.given = [], [], []
            for n, g in enumerate(case["groups"]):
                at = [page.attrs(n, i, a, v) for i, a in enumerate(g["inputs"][v % len(g["inputs"])])]
                before = [dict(a) for a in at]
                kw = {"initial_value": g["initial"], "ignore_empty": g["ignore"], "cast": cast_of(g["cast"]), "on_change": page.changed(n, v)}
                kw = {k: x for k, x in kw.items() if k not in g["omit"]}
                rs = use_linked_inputs(at if g["seq"] == "list" else tuple(at), **kw)
                page.returned.append(rs)
                page.given.append((before, at))
                out.append(html.div(*rs))
            return html.main(*out)
        self.root = Root()

    def attrs(self, n, i, a, v):
        a = copy.deepcopy(a)
        if a.pop("handlers", False):
            a["onKeyDown"] = lambda e: self.other.append((n, i, v))
            a["onChange"] = lambda e: self.other.append("own")
        return a

    def changed(self, n, v):
        def on_change(value):
            self.calls.append((n, v, value))
            if self.case["groups"][n].get("raises"):
                raise RuntimeError("on_change failed")
        return on_change


def run_linked(case, rec):
    vloop.run(linked, case, rec)


async def linked(loop, case, rec):
    page = Page(case)
    doc = {}
    failed = []

    async def pull(layout):
        nonlocal doc
        while True:
            m = await layout.render()
            m = json.loads(json.dumps(m))
            doc = W.apply_update(doc, m)
    values = [g["initial"] if "initial_value" not in g["omit"] else "" for g in case["groups"]]
    want = []
    variant = 0
    wrote = 0

    async with Layout(page.root) as layout:
        task = asyncio.ensure_future(pull(layout))
        await loop.settle()

        def inputs():
            return [g.get("children", []) for g in inner(doc)["children"]]

        def check(what):
            if task.done():
                raise Violation(f"after {what}: rendering failed: {task.exception()!r}")
            shown = inputs()
            for n, g in enumerate(case["groups"]):
                at = g["inputs"][variant % len(g["inputs"])]
                if len(page.returned[n]) != len(at) or type(page.returned[n]) is not list:
                    raise Violation(f"after {what}: {len(page.returned[n])} inputs for {len(at)} sets of attributes")
                if page.given[n][0] != page.given[n][1]:
                    raise Violation(f"after {what}: the given attributes were changed to {page.given[n][1]}")
                if len(shown[n]) != len(at):
                    raise Violation(f"after {what}: shows {len(shown[n])} inputs instead of {len(at)}")
                for i, (a, m) in enumerate(zip(at, shown[n])):
                    a = {**a, "value": values[n]}
                    hs = {"onChange", "onKeyDown"} if a.pop("handlers", False) else {"onChange"}
                    got = {k: v for k, v in m.get("attributes", {}).items() if k != "_reactpy_ack_seq"}
                    if m["tagName"] != "input" or got != a:
                        raise Violation(f"after {what}: input {i} of group {n} is <{m['tagName']}> with {got} instead of {a}")
                    if set(m.get("eventHandlers", {})) != hs:
                        raise Violation(f"after {what}: input {i} of group {n} has the handlers {set(m.get('eventHandlers', {}))}")
            if page.calls != want:
                raise Violation(f"after {what}: on_change was called with {page.calls} instead of {want}")

        def typed(n, text):
            g = case["groups"][n]
            values[n] = text
            ignore = g["ignore"] if "ignore_empty" not in g["omit"] else True
            if text == "" and ignore:
                rec.tag("ignored")
                return
            try:
                v = cast_of(g["cast"])(text) if "cast" not in g["omit"] else text
            except ValueError:
                rec.tag("cast-failed")
                return
            if "on_change" not in g["omit"]:
                want.append((n, variant, v))
                rec.tag("called")
        check("the start")
        for op in case["ops"]:
            what = json.dumps(op)
            if op["op"] == "type":
                ms = [(n, k) for n, ms in enumerate(inputs()) for k in range(len(ms))]
                # several events of one input may arrive before anything is rendered (those of
                # different inputs are handled concurrently)
                for j, text in zip(op["i"], op["v"]):
                    if not ms:
                        break
                    if not op.get("wait"):
                        j = op["i"][0]
                    n, k = ms[j % len(ms)]
                    m = inputs()[n][k]
                    await layout.deliver({"type": "layout-event", "target": m["eventHandlers"]["onChange"]["target"], "data": [{"target": {"value": text, "tagName": "INPUT"}, "type": "change"}]})
                    typed(n, text)
                    wrote += 1
                    if op.get("wait"):
                        await loop.settle()
            elif op["op"] == "key":
                ms = [(n, k) for n, ms in enumerate(inputs()) for k, m in enumerate(ms) if "onKeyDown" in m["eventHandlers"]]
                if ms:
                    n, k = ms[op["i"] % len(ms)]
                    c = len(page.other)
                    await layout.deliver({"type": "layout-event", "target": inputs()[n][k]["eventHandlers"]["onKeyDown"]["target"], "data": [{}]})
                    await loop.settle()
                    if page.other[c:] != [(n, k, variant)]:
                        raise Violation(f"after {what}: the handler for onKeyDown of input {k} of group {n} ran {page.other[c:]}")
                    rec.tag("other-handler")
            else:
                variant = op["v"]
                page.set_variant(variant)
            await loop.settle()
            check(what)
        task.cancel()
    if "own" in page.other:
        raise Violation("a handler for onChange in the attributes was called, too")
    rec.nt(wrote >= 2 and any(len(ms) > 1 for g in case["groups"] for ms in g["inputs"]))


def gen_input(g, i):
    a = {k: copy.deepcopy(g.pick(v)) for k, v in EXTRA.items() if g.p(0.2)}
    a["key"] = f"k{i}"
    if g.p(0.2):
        a["handlers"] = True
    return a


def gen_linked(g):
    groups = []
    for _ in range(g.weighted([(4, 1), (3, 2), (1, 3)])):
        sets = []
        for _ in range(g.weighted([(3, 1), (2, 2), (1, 3)])):
            sets.append([gen_input(g, i) for i in g.sample(range(5), g.weighted([(1, 0), (2, 1), (4, 2), (2, 3), (1, 5)]))])
        groups.append({"inputs": sets, "initial": g.pick(TEXTS), "ignore": g.p(0.5), "cast": g.pick(["str", "str", "int", "list", "boom"]), "raises": g.p(0.1),
                       "omit": [k for k in ("initial_value", "ignore_empty", "cast", "on_change") if g.p(0.15)], "seq": g.pick(["list", "tuple"])})
    ops = []
    for _ in range(g.size(1, 12)):
        k = g.weighted([(5, "type"), (1, "key"), (1.5, "variant")])
        if k == "type":
            n = g.weighted([(4, 1), (1, 2), (1, 3)])
            ops.append({"op": k, "i": [g.i(0, 9) for _ in range(n)], "v": [g.pick(TEXTS) for _ in range(n)], **({"wait": True} if g.p(0.3) else {})})
        elif k == "key":
            ops.append({"op": k, "i": g.i(0, 9)})
        else:
            ops.append({"op": k, "v": g.i(0, 3)})
    return {"groups": groups, "ops": ops}


def valid_linked(c):
    try:
        if not c["groups"]:
            return None
        for g in c["groups"]:
            if not g["inputs"] or type(g["initial"]) is not str or type(g["ignore"]) is not bool or g["cast"] not in ("str", "int", "list", "boom") or type(g["raises"]) is not bool or g["seq"] not in ("list", "tuple"):
                return None
            if set(g["omit"]) - {"initial_value", "ignore_empty", "cast", "on_change"}:
                return None
            for ins in g["inputs"]:
                if len({a["key"] for a in ins}) != len(ins) or any(not isinstance(a["key"], str) or not a["key"] for a in ins):
                    return None
                for a in ins:
                    for k, v in a.items():
                        if k not in ("key", "handlers") and not (k in EXTRA and any(type(v) is type(x) and v == x for x in EXTRA[k])) or k == "handlers" and v is not True:
                            return None
        for o in c["ops"]:
            if o["op"] == "type":
                if not all(isinstance(t, str) for t in o["v"]) or not all(type(i) is int and i >= 0 for i in o["i"]):
                    return None
            elif o["op"] == "key":
                if type(o["i"]) is not int or o["i"] < 0:
                    return None
            elif o["op"] != "variant" or type(o["v"]) is not int or o["v"] < 0:
                return None
        return c
    except (KeyError, TypeError, AttributeError):
        return None


# ------------------------------------------------------------------ images
FORMATS = ["svg", "svg+xml", "png", "jpeg", "gif", "webp", "x-icon"]
IATTRS = {"alt": ["", "a & b", "<é>"], "className": ["x"], "width": [1, 20], "key": ["k", 3], "id": ["i"], "style": [{"width": "1px"}], "data-x": [True], "src": ["/own.png"], "loading": ["lazy"]}


def images(text):
    found = []

    class P(HTMLParser):
        def handle_starttag(self, tag, attrs):
            found.append((tag, dict(attrs)))
    P().feed(text)
    return found


def run_image(case, rec):
    vloop.run(imaged, case, rec)


async def imaged(loop, case, rec):
    value = bytes.fromhex(case["hex"]) if "hex" in case else case["text"]
    raw = value if isinstance(value, bytes) else value.encode()
    at = copy.deepcopy(case["attrs"])
    calls = []
    if at is not None:
        for n in case["handlers"]:
            at[n] = lambda e, n=n: calls.append((n, e))
    keep = dict(at) if at is not None else None
    args = [case["format"], value, at][: 3 if at is not None else 2]
    if case["kw"]:
        v = image(format=args[0], value=args[1], **({"attributes": at} if at is not None else {}))
    else:
        v = image(*args)
    if at != keep:
        raise Violation(f"the attributes {keep} were changed to {at}")

    @component
    def Root():
        return html.div(v)
    async with Layout(Root()) as layout:
        m = await layout.render()
        try:
            m = json.loads(json.dumps(m))
        except TypeError as e:
            raise Violation(f"an image with the attributes {sorted(keep or ())} cannot be sent: {e}") from None
        doc = W.apply_update(None, m)
        node = inner(doc)["children"][0]
        if node["tagName"] != "img" or node.get("children"):
            raise Violation(f"the image is {node}")
        got = dict(node["attributes"])
        want = {k: x for k, x in (case["attrs"] or {}).items() if k != "src"}
        check_src(case, raw, got.pop("src", None), rec)
        if got != want:
            raise Violation(f"the image has the attributes {got} instead of {want}")
        hs = node.get("eventHandlers", {})
        if set(hs) != set(case["handlers"] if at is not None else ()):
            raise Violation(f"the image has the handlers {sorted(hs)} instead of {case['handlers']}")
        for n in hs:
            await layout.deliver({"type": "layout-event", "target": hs[n]["target"], "data": [{"n": n}]})
            await loop.settle()
            if len(calls) != 1 or calls[0][0] != n:
                raise Violation(f"{n} on the image called {calls}")
            calls.clear()
            rec.tag("event")
    if not case["handlers"]:
        tags = images(reactpy_to_string(html.div(image(*args))))
        if [t for t, _ in tags] != ["div", "img"]:
            raise Violation(f"as HTML the image is {tags}")
        check_src(case, raw, tags[1][1].get("src"), rec)
    rec.nt(len(raw) > 0)


def check_src(case, raw, src, rec):
    if "src" in (case["attrs"] or {}):
        rec.tag("own-src")
        if src != case["attrs"]["src"]:
            raise Violation(f"the image has the source {src!r} instead of the given one")
        return
    head, _, data = (src or "").partition(",")
    mime = "image/svg+xml" if case["format"] == "svg" else "image/" + case["format"]
    try:
        back = base64.b64decode(data, validate=True)
    except ValueError:
        back = None
    if head != f"data:{mime};base64" or back != raw:
        raise Violation(f"the source {src!r:.100} does not hold the image/{case['format']} {raw!r:.60}")
    rec.tag("bytes" if "hex" in case else "text")


def gen_image(g):
    c = {"format": g.pick(FORMATS), "kw": g.p(0.3), "attrs": None, "handlers": []}
    if g.p(0.5):
        c["hex"] = bytes(g.i(0, 255) for _ in range(g.size(0, 40))).hex()
    else:
        c["text"] = "".join(g.pick(["<svg>", "</svg>", "é", "\U0001F600", "\n", "a", "%", "?", ">", "~", "\xff"]) for _ in range(g.size(0, 12)))
    if g.p(0.8):
        c["attrs"] = {k: copy.deepcopy(g.pick(v)) for k, v in IATTRS.items() if g.p(0.25)}
        c["handlers"] = [n for n in ("onClick", "onLoad", "onError") if g.p(0.2)]
    return c


def valid_image(c):
    try:
        if c["format"] not in FORMATS or type(c["kw"]) is not bool or ("hex" in c) == ("text" in c) or (c["attrs"] is None and c["handlers"]) or set(c["handlers"]) - {"onClick", "onLoad", "onError"} or len(set(c["handlers"])) != len(c["handlers"]):
            return None
        bytes.fromhex(c["hex"]) if "hex" in c else c["text"].encode()
        for k, v in (c["attrs"] or {}).items():
            if not any(type(v) is type(x) and v == x for x in IATTRS[k]):
                return None
        return c
    except (KeyError, TypeError, AttributeError, ValueError):
        return None


SUBS = [
    Sub("linked", gen=gen_linked, valid=valid_linked, run=run_linked, quick=10000, thorough=120000, shards=6,
        rule="histories of text typed into groups of linked inputs, one by one or several before a rendering, while the inputs change; non-trivial = two texts were typed and a group has several inputs"),
    Sub("image", gen=gen_image, valid=valid_image, run=run_image, quick=10000, thorough=60000, shards=2,
        rule="images of any bytes or text, with attributes and handlers; non-trivial = the content is not empty"),
]
