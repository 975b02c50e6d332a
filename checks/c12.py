import copy
import json
import re
from html.parser import HTMLParser
from urllib.parse import unquote

from reactpy import component, html
from reactpy.core.vdom import Vdom
from reactpy.executors.utils import vdom_head_to_html
from reactpy.types import VdomDict
from reactpy.utils import reactpy_to_string

import world as W  # noqa: F401
from lib import Sub, Violation

PROPERTY = "C12"
ASSUMPTIONS = ["text holds no control characters (lxml refuses them) and script / style text holds no '</'",
               "components use no hooks (the function renders outside a layout); a component that returns plain text is wrapped in a div, as the tests require",
               "attribute values of URL attributes may be percent-encoded; inline scripts and keys may or may not be written"]

VOID = {"br", "img", "input", "hr", "meta", "link", "wbr", "source", "track", "embed", "area", "base", "col", "param"}
RAW = {"script", "style"}
URLS = {"href", "src", "action", "cite", "poster", "name"}


class Tree(HTMLParser):
    """A strict parser: every element that is not void must be closed, in order."""

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.root = ["", {}, []]
        self.stack = [self.root]
        self.bad = None

    def handle_starttag(self, tag, attrs):
        if len({k for k, _ in attrs}) != len(attrs):
            self.bad = f"attribute given twice: {attrs}"
        n = [tag, dict(attrs), []]
        self.stack[-1][2].append(n)
        if tag not in VOID:
            self.stack.append(n)

    def handle_startendtag(self, tag, attrs):
        self.handle_starttag(tag, attrs)
        if tag not in VOID:
            self.stack.pop()

    def handle_endtag(self, tag):
        if tag in VOID:
            return
        if len(self.stack) < 2 or self.stack[-1][0] != tag:
            self.bad = f"unexpected </{tag}>"
            return
        self.stack.pop()

    def handle_data(self, data):
        ch = self.stack[-1][2]
        if ch and isinstance(ch[-1], str):
            ch[-1] += data
        else:
            ch.append(data)

    def handle_comment(self, data):
        self.bad = f"comment {data!r}"

    def handle_decl(self, decl):
        self.bad = f"declaration {decl!r}"

    def unknown_decl(self, data):
        self.bad = f"declaration {data!r}"

    def handle_pi(self, data):
        self.bad = f"instruction {data!r}"


def parse(s):
    t = Tree()
    t.feed(s)
    t.close()
    if t.bad or len(t.stack) != 1:
        raise Violation(f"{t.bad or 'unclosed elements'} in {s!r:.600}")
    return t.root[2]


NAMES = {"className": "class", "htmlFor": "for", "acceptCharset": "accept-charset", "httpEquiv": "http-equiv", "tabIndex": "tabindex",
         "readOnly": "readonly", "maxLength": "maxlength", "colSpan": "colspan", "crossOrigin": "crossorigin", "autoComplete": "autocomplete",
         "contentEditable": "contenteditable", "defaultChecked": "checked", "srcSet": "srcset", "encType": "enctype"}
PLAIN = ["id", "title", "value", "data-x", "data-Camel", "aria-label", "href", "src", "alt", "role", "lang", "name", "type", "x-custom", "content", "charset"]
BOOLS = ["disabled", "checked", "readOnly", "multiple", "required", "hidden", "autoFocus", "open", "selected", "defaultChecked", "allowFullScreen", "async", "autoPlay", "controls", "default",
         "defer", "formNoValidate", "inert", "isMap", "itemScope", "loop", "muted", "noModule", "noValidate", "playsInline", "reversed"]
STYLES = {"color": "color", "backgroundColor": "background-color", "marginLeft": "margin-left", "WebkitBoxFlex": "-webkit-box-flex", "--my-Var": "--my-Var",
          "--x": "--x", "borderTopLeftRadius": "border-top-left-radius", "background-image": "background-image", "msTransform": "-ms-transform", "MozAppearance": "-moz-appearance",
          "zIndex": "z-index"}
SV = ["red", "10px", "1px solid rgb(0, 0, 0)", "url('a.png')", "\"q\"", "calc(1px + 2%)", "<b>", "a&b", "0"]


class Obj:
    def __str__(self):
        return "obj<&>\""


@component
def Comp(kids, mode):
    if mode == "none":
        return None
    if mode == "text":
        return kids[0]
    if mode == "frag":
        return html(*raw_first(kids))
    if mode == "comp":
        return Comp(kids, "div")
    if mode == "keyed":
        return Comp(kids, "frag", key="k")
    if mode == "bare":
        return html.hr()
    return html.div({"title": "c"}, *kids)


def raw_first(kids):
    """a plain dict in the first place would be taken for the attributes"""
    return [{}, *kids] if kids and type(kids[0]) is dict else kids


def build(n):
    t = n["t"]
    if t == "lit":
        return n["v"]
    if t == "obj":
        return Obj()
    kids = [build(c) for c in n.get("ch", ())]
    if t == "comp":
        kids = [n["text"]] if n["mode"] == "text" else kids
        return Comp(kids, n["mode"], key=n["key"]) if n.get("key") else Comp(kids, n["mode"])
    if t == "frag":
        return html(*raw_first(kids)) if not n.get("key") else html({"key": n["key"]}, *kids)
    attrs = {}
    for k, v in n["attrs"].items():
        attrs[k] = copy.deepcopy(v)
    for k in n.get("h", ()):
        attrs[k] = lambda e: None
    if n.get("mapping"):       # a hand-written model
        return {"tagName": n["tag"], "attributes": attrs, "children": kids} if not n.get("h") else html.div(attrs, *kids)
    make = Vdom(n["tag"])
    return make(attrs, *kids) if attrs or n.get("empty") else make(*raw_first(kids))


def expect(n, out):
    t = n["t"]
    if t == "lit":
        if n["v"] is not None:
            out.append(n["v"] if isinstance(n["v"], str) else str(n["v"]))
        return
    if t == "obj":
        out.append("obj<&>\"")
        return
    kids = []
    if t != "comp" or n["mode"] not in ("none", "text", "bare"):
        for c in n.get("ch", ()):
            expect(c, kids)
    if t == "frag":
        out.extend(kids)
        return
    if t == "comp":
        m = n["mode"]
        if m == "none":
            return
        if m == "text":
            out.append(["div", {}, [n["text"]]])
        elif m in ("frag", "keyed"):
            out.extend(kids)
        elif m == "bare":
            out.append(["hr", {}, []])
        else:
            out.append(["div", {"title": "c"}, kids])
        return
    a = {}
    for k, v in n["attrs"].items():
        if v is None or k == "key":
            continue
        if k == "style" and isinstance(v, dict):
            a["style"] = {STYLES[x]: str(y) for x, y in v.items() if y is not None}
        elif k in BOOLS and isinstance(v, bool):
            if v:
                a[NAMES.get(k, k.lower())] = True
        elif k == "defaultValue":
            a["value"] = str(v)
        elif k.startswith(("data-", "aria-")):
            a[k.lower()] = v if isinstance(v, bool) and v is False else str(v)          # parsers lower-case names
        else:
            a[NAMES.get(k, k.lower())] = str(v)
    tag = n["tag"] if not n.get("h") or not n.get("mapping") else "div"
    out.append([tag.lower(), a, kids])


def join(ch):
    out = []
    for c in ch:
        if isinstance(c, str):
            if not c:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += c
                continue
        out.append(c)
    return out


def same_url(a, b):
    a, b = a.strip(" \t\n"), b.strip(" \t\n")          # spaces around a URL have no meaning
    return a == b or unquote(a) == unquote(b)


def css(s):
    """name:value pairs; values of the generator hold no ';'"""
    return [tuple(p.split(":", 1)) for p in s.split(";") if p]


def compare(got, exp, path, src):
    got, exp = join(got), join(exp)
    if len(got) != len(exp):
        raise Violation(f"{path}: {got!r:.300} was written for {exp!r:.300}\n  {src!r:.900}")
    for i, (g, e) in enumerate(zip(got, exp)):
        p = f"{path}[{i}]"
        if isinstance(e, str) or isinstance(g, str):
            if g != e:
                raise Violation(f"{p}: {g!r:.300} was written for {e!r:.300}\n  {src!r:.900}")
            continue
        if g[0] != e[0]:
            raise Violation(f"{p}: <{g[0]}> was written for {e[0]}\n  {src!r:.900}")
        p += "/" + e[0]
        ga = {k: v for k, v in g[1].items() if k != "key"}
        if set(ga) - {"onclick"} != set(e[1]) - {"onclick"}:
            raise Violation(f"{p}: attributes {sorted(ga)} were written for {sorted(e[1])}\n  {src!r:.900}")
        for k, v in e[1].items():
            w = ga[k]
            if v is True:
                continue
            if k.startswith(("data-", "aria-")) and v in (False, "True"):
                v, w = str(v), (w or "").capitalize()     # as text, `true` is as good as `True`
            if k.lower() in ("disabled", "checked", "readonly", "multiple", "selected") and w is None:
                continue                              # minimised boolean attribute
            if isinstance(v, dict):
                ok = css(w or "") == list(v.items())
            elif k in URLS:
                ok = same_url(w or "", v)
            else:
                ok = (w or "") == v
            if not ok:
                raise Violation(f"{p}: attribute {k} is {w!r} instead of {v!r}\n  {src!r:.900}")
        compare(g[2], e[2], p, src)


def run(case, rec):
    v = build(case["root"])
    snap = repr(v) if not contains(case["root"], ("obj",), True) else None
    s = reactpy_to_string(v)
    exp = []
    expect(case["root"], exp)
    compare(parse(s), exp, "$", s)
    if reactpy_to_string(build(case["root"])) != s:
        raise Violation("the same tree gives different strings")
    if snap is not None and re.sub("0x[0-9a-f]+", "", repr(v)) != re.sub("0x[0-9a-f]+", "", snap):
        raise Violation("the tree was modified")
    if case["root"]["t"] == "el" and case["root"]["tag"] == "div":
        h = vdom_head_to_html(html.head({}, v))
        hp = parse(h)
        if len(hp) != 1 or hp[0][0] != "head":
            raise Violation(f"head was written as {h!r:.300}")
        compare(hp[0][2], exp, "head", h)
    rec.nt(size(case["root"]) >= 4)
    if re.search(r"[<&\"'>]", json.dumps(case["root"]).replace('"', "")):
        rec.tag("special-chars")
    rec.tag(*kinds(case["root"]))


def contains(n, ts, handlers=False):
    return n["t"] in ts or n["t"] == "comp" or (handlers and bool(n.get("h"))) or any(contains(c, ts, handlers) for c in n.get("ch", ()))


def size(n):
    return 1 + len(n.get("attrs", ())) + sum(size(c) for c in n.get("ch", ()))


def kinds(n):
    out = {n["t"]}
    if n["t"] == "el":
        out |= {"attr:" + ("style" if k == "style" else "bool" if isinstance(v, bool) else "none" if v is None else "other") for k, v in n["attrs"].items()}
        if n["tag"] in RAW:
            out.add("raw")
    for c in n.get("ch", ()):
        out |= kinds(c)
    return out


TEXT = ["a", "", " ", "<b>x</b>", "&amp;", "&", "a < b > c", "\"'", "</div>", "<!-- c -->", "]]>", "é\u00a0\u2028", "\U0001F600", "tab\t\nnl", "<script>alert(1)</script>", "&#x41;", "%20", "\\", "{}"]
TAGS = ["div", "p", "span", "a", "b", "ul", "li", "table", "td", "button", "label", "form", "input", "br", "img", "meta", "link", "wbr", "source", "textarea",
        "select", "option", "title", "pre", "section", "my-widget", "h1", "video", "svg", "iframe", "template"]


def gen_node(g, d):
    t = g.weighted([(3, "lit"), (5 if d else 0.3, "el"), (0.8 if d else 0, "frag"), (1 if d else 0, "comp"), (0.15, "obj")])
    if t == "lit":
        return {"t": t, "v": g.pick(TEXT) if g.p(0.75) else g.pick([None, 0, 1.5, True, -3])}
    if t == "obj":
        return {"t": t}
    ch = [gen_node(g, d - 1) for _ in range(g.width(4))] if d else []
    if t == "frag":
        return {"t": t, "ch": ch, **({"key": "k"} if g.p(0.2) else {})}
    if t == "comp":
        m = g.pick(["div", "none", "text", "frag", "comp", "keyed", "bare"])
        return {"t": t, "mode": m, "ch": ch, **({"text": g.pick(TEXT[4:])} if m == "text" else {}), **({"key": "c"} if g.p(0.2) else {})}
    if g.p(0.08):
        return {"t": "el", "tag": g.pick(["script", "style"]), "attrs": {}, "ch": [{"t": "lit", "v": g.pick(["if (a < b && c > d) { x = \"&amp;\" }", "a > b { c: 'd' }", "é"])}]}
    tag = g.pick(TAGS)
    if tag in VOID or tag in ("iframe",):
        ch = []
    if tag in ("textarea", "title", "option"):
        ch = [c for c in ch if c["t"] == "lit"]
    if tag in ("pre", "textarea") and ch and isinstance(ch[0].get("v"), str) and ch[0]["v"].startswith("\n"):
        ch = []
    at = {}
    for _ in range(g.size(0, 4)):
        r = g.random()
        if r < 0.45:
            k = g.pick(PLAIN)
            at[k] = g.pick(TEXT + [3, 1.5, 0, None] + ([True, False] * 3 if "-" in k and k != "x-custom" else []))
        elif r < 0.65:
            k = g.pick(sorted(NAMES))
            if k not in BOOLS:
                at[k] = g.pick(TEXT + [3, None])
        elif r < 0.8:
            at[g.pick(BOOLS)] = g.pick([True, False, None])
        elif r < 0.93:
            at["style"] = {k: g.pick(SV + [None]) for k in g.sample(sorted(STYLES), g.i(0, 3))} if g.p(0.8) else "color:red;margin:0"
        elif r < 0.97 and tag == "input":
            at["defaultValue"] = g.pick(TEXT)
        else:
            at["key"] = "k"
    if "defaultValue" in at:
        at.pop("value", None)
    if "defaultChecked" in at:
        at.pop("checked", None)
    return {"t": "el", "tag": tag, "attrs": at, "ch": ch, **({"h": ["onClick"]} if g.p(0.15) else {}), **({"mapping": True} if g.p(0.1) else {})}


def gen(g):
    while True:
        n = gen_node(g, g.i(1, 4))
        if n["t"] in ("el", "frag", "comp"):
            return {"root": n}


def valid(c):
    def ok(n, top=False):
        t = n["t"]
        if t == "lit":
            return not top and not isinstance(n["v"], (list, dict)) and (not isinstance(n["v"], str) or all(x >= " " or x in "\t\n" for x in n["v"]))
        if t == "obj":
            return not top
        if t == "comp":
            return n["mode"] in ("div", "none", "text", "frag", "comp", "keyed", "bare") and (n["mode"] != "text" or isinstance(n["text"], str)) and all(ok(x) for x in n["ch"])
        if t == "frag":
            return all(ok(x) for x in n["ch"])
        if t != "el" or n["tag"] not in TAGS and n["tag"] not in RAW:
            return False
        if n["tag"] in VOID | {"iframe"} and n["ch"]:
            return False
        if n["tag"] in RAW:
            return len(n["ch"]) <= 1 and all(x["t"] == "lit" and isinstance(x["v"], str) and "</" not in x["v"] for x in n["ch"]) and not n["attrs"]
        if n["tag"] in ("textarea", "title", "option") and any(x["t"] != "lit" for x in n["ch"]):
            return False
        for k, v in n["attrs"].items():
            if k == "style":
                if isinstance(v, dict):
                    if any(x not in STYLES or (y is not None and y not in SV) for x, y in v.items()):
                        return False
                elif v != "color:red;margin:0":
                    return False
            elif k in BOOLS:
                if v not in (True, False, None) or isinstance(v, int) and not isinstance(v, bool):
                    return False
            elif k not in PLAIN and k not in NAMES and k not in ("key", "defaultValue"):
                return False
            elif isinstance(v, (list, dict)) or isinstance(v, bool) and not k.startswith(("data-", "aria-")):
                return False
            elif isinstance(v, str) and any(x < " " and x not in "\t\n" for x in v):
                return False
        a = n["attrs"]
        if "defaultValue" in a and ("value" in a or n["tag"] != "input") or "defaultChecked" in a and "checked" in a:
            return False
        if n.get("h", ["onClick"]) != ["onClick"]:
            return False
        return all(ok(x) for x in n["ch"])
    try:
        return c if ok(c["root"], True) else None
    except (KeyError, TypeError, AttributeError):
        return None


SUBS = [
    Sub("trees", gen=gen, valid=valid, run=run, quick=60000, thorough=400000, shards=7,
        rule="VDOM trees of elements, fragments, components, text with HTML-special characters, attributes and styles of all kinds; the written string is "
             "parsed by a strict parser and compared with the tree; non-trivial = at least four nodes and attributes"),
]
