import asyncio
import html as pyhtml
import json
import re

from reactpy import component
from reactpy.core.layout import Layout
from reactpy.types import InlineJavaScript, VdomDict
from reactpy.utils import HTMLParseError, string_to_reactpy

import vloop
import world as W
from lib import Sub, Violation

PROPERTY = "C11"
ASSUMPTIONS = ["whitespace-only text is insignificant unless it separates inline elements", "html / head / body elements that the parser implies are transparent",
               "fragments do not consist of metadata elements (style, script, title) only"]

# ------------------------------------------------------------------ documented attribute names (HTML -> ReactJS)
RENAMED = {n.lower(): n for n in (
    "accessKey autoCapitalize autoComplete autoFocus contentEditable crossOrigin enterKeyHint fetchPriority formAction formMethod formNoValidate formTarget hrefLang imageSizes "
    "imageSrcSet inputMode itemProp maxLength minLength noModule readOnly referrerPolicy spellCheck tabIndex").split()}
RENAMED |= {"class": "className", "for": "htmlFor", "accept-charset": "acceptCharset", "http-equiv": "httpEquiv"}
# both ways of writing these work in the browser
EITHER = {n.lower(): n for n in (
    "allowFullScreen autoPlay cellPadding cellSpacing charSet colSpan dateTime dirName encType formEncType frameBorder itemID itemRef itemScope itemType noValidate playsInline rowSpan srcDoc "
    "srcLang srcSet useMap").split()}
SAME = ("title lang dir role href src alt placeholder min max pattern width height type2 data-x data-long-name data-a.b aria-label aria-hidden x-custom foo accept action allow async capture cite cols "
        "content controls coords data decoding default defer download draggable form headers hidden high integrity is kind label list loading loop low media method muted nonce open optimum ping poster preload "
        "rel required reversed rows sandbox scope shape size sizes slot span start step summary target translate wrap").split()
EVENTS = {"on" + n.lower(): "on" + n for n in (
    "Abort AnimationStart AnimationEnd AnimationIteration AuxClick BeforeInput Toggle Blur CanPlay CanPlayThrough Change Click CompositionStart CompositionEnd CompositionUpdate ContextMenu Copy Cut Paste "
    "Drag DragEnd DragEnter DragLeave DragOver DragStart Drop DurationChange Emptied Encrypted Ended Error Focus GotPointerCapture LostPointerCapture Input Invalid KeyDown KeyPress KeyUp Load LoadedData "
    "LoadedMetadata LoadStart MouseDown MouseEnter MouseLeave MouseMove MouseOut MouseOver MouseUp Pause Play Playing PointerCancel PointerDown PointerEnter PointerLeave PointerMove PointerOut PointerOver "
    "PointerUp Progress RateChange Reset Resize Scroll Seeked Seeking Select Stalled Submit Suspend TimeUpdate TouchCancel TouchEnd TouchMove TouchStart TransitionEnd VolumeChange Waiting Wheel").split()}
EVENTS["ondblclick"] = "onDoubleClick"
# not on React's list; the case does not matter
OTHER_EVENTS = ["onclose", "oncancel", "onscrollend", "onbeforetoggle", "ontransitionstart", "ontransitionrun", "ontransitioncancel", "onformdata", "oncuechange", "onslotchange"]
BLOCK = ["div", "section", "article", "main", "header", "blockquote", "form", "fieldset", "ul", "table", "p", "h1", "pre", "details", "my-widget"]
INLINE = ["span", "b", "em", "code", "label", "a", "button", "input", "textarea", "select", "br", "img", "strong"]
VOID = {"br", "img", "input", "hr"}
TEXTS = ["hello", "a b", "1 < 2 & 3 > 2", "&amp; &lt;b&gt;", "\"q\" 'x'", "é\u00a0\u2603", "\U0001F600", "tab\there", "line\nbreak", "&nbsp", "x;y", "<!-- no -->", "</div>", "</textarea", "100%"]
VALS = ["", "a", "a b", "x\"y", "it's", "<b>", "a&b", "&lt;", "é\U0001F600", "0", "a=b;c:d", " padded ", "javascript:x", "{\"k\": [1]}", "new\nline"]
CODES = ["alert('x')", "this.innerText = \"a < b && c\"", "f(event);g()", "x"]
CSS = [("color", "red", "color"), ("background-color", "green", "backgroundColor"), ("background", "url(data:image/png;base64,iVB=)", "background"),
       ("background-image", "url(\"a;b:c\")", "backgroundImage"), ("content", "';'", "content"), ("--my-var", "1px", "--my-var"),
       ("-webkit-box-flex", "1", "WebkitBoxFlex"), ("border-top-left-radius", "2px 3px", "borderTopLeftRadius"), ("font", "12px/1.5 'A B', serif", "font"),
       ("grid-area", "1 / 2", "gridArea"), ("background-position", "0 0", "backgroundPosition"), ("--a--B", "x", "--a--B"), ("filter", "drop-shadow(0 0 2px rgba(0,0,0,.5))", "filter")]


# ------------------------------------------------------------------ writing HTML
class Wr:
    """Turns a tree into HTML; style choices come from the case's own list of numbers."""

    def __init__(self, style):
        self.style = style or [0]
        self.k = 0

    def c(self, n):
        self.k += 1
        return self.style[self.k % len(self.style)] % n

    def text(self, s):
        m = self.c(3)
        if m == 0:
            return pyhtml.escape(s, quote=False)
        if m == 1:
            return "".join(f"&#{ord(x)};" if x in "<>&" or ord(x) > 126 else x for x in s)
        return pyhtml.escape(s, quote=True).replace("\u00a0", "&nbsp;").replace("é", "&eacute;")

    def attr(self, k, v):
        m = self.c(4)
        if self.c(5) == 4 and not k.startswith(("data", "aria", "x-")):
            k = k.upper()
        if v == "" and m == 0:
            return k
        if m == 1 and re.fullmatch(r"[A-Za-z0-9_\-.]+", v):
            return f"{k}={v}"
        if m == 2 and "'" not in v:
            return f"{k}='{v.replace('&', '&amp;').replace('<', '&lt;')}'"
        return f'{k}="{pyhtml.escape(v)}"'

    def node(self, n):
        t = n["t"]
        if t == "text":
            return self.text(n["v"])
        if t == "comment":
            return f"<?{n['v']}?>" if n.get("pi") else f"<!--{n['v']}-->"
        name = n["tag"]
        if self.c(6) == 5 and "-" not in name:
            name = name.upper()
        s = "<" + name
        for k, v in n["attrs"]:
            if k == "style":
                sep = [";", "; ", " ; ", ";;"][self.c(4)]
                v = sep.join(f"{CSS[i][0]}{[':', ' : ', ': '][self.c(3)]}{CSS[i][1]}" for i in v) + ["", ";"][self.c(2)]
            s += [" ", "\n  ", "  "][self.c(3)] + self.attr(k, v)
        if n["tag"] in VOID:
            return s + [">", "/>", " />"][self.c(3) if s[-1] in "\"'" else 0]
        s += ">"
        if n["tag"] == "textarea" and n.get("nl"):
            s += "\n"
        for i, ch in enumerate(n["ch"]):
            s += self.node(ch)
            if all(x["t"] == "el" for x in n["ch"][i:i + 2]) and self.c(7) == 6 and n["tag"] in ("ul", "table", "tbody", "tr", "select", "optgroup", "div", "section"):
                s += "\n  "
        return s + f"</{name}>"


# ------------------------------------------------------------------ predicting
def text_of(n):
    return "".join(c["v"] for c in n["ch"] if c["t"] == "text")


def expected(n, links):
    """Expected node: dict(tag, attrs, js, ch, click)"""
    a, js = {}, {}
    for k, v in n["attrs"]:
        if k == "style":
            a["style"] = {CSS[i][2]: CSS[i][1] for i in v}
        elif k in EVENTS or k in OTHER_EVENTS:
            js[EVENTS.get(k, "~" + k)] = v
        else:
            a[RENAMED.get(k, k)] = v
    ch = [expected(c, links) if c["t"] == "el" else c["v"] for c in n["ch"] if c["t"] != "comment"]
    tag = n["tag"]
    if tag == "textarea":
        txt = text_of(n)
        ch = []
        a["defaultValue"] = txt
    if tag == "input":
        if "value" in a:
            a["defaultValue"] = a.pop("value")
        if "checked" in a:
            del a["checked"]
            a["defaultChecked"] = True
    if tag == "select":
        multi = "multiple" in a
        if multi:
            a["multiple"] = True
        sel = []
        collect(n, sel)
        if sel:
            a["defaultValue"] = sel if multi else sel[-1]
    if tag == "option":
        a.pop("selected", None)
        if "value" not in a:
            a["~value"] = " ".join(text_of(n).split())   # may be made explicit
    key = a.get("key")
    if key is None:
        key = a.get("id")
        a["~key"] = [key, a.get("name") if tag in ("input", "select", "textarea") and key is None else None]
    return {"tag": tag, "attrs": a, "js": js, "ch": ch, "click": tag == "a" and links}


def collect(n, out):
    for c in n["ch"]:
        if c["t"] == "el":
            if c["tag"] == "option":
                d = dict((k, v) for k, v in c["attrs"])
                if "selected" in d:
                    out.append(d.get("value", " ".join(text_of(c).split())))
            else:
                collect(c, out)


def squash(ch):
    """Join adjacent text, drop whitespace-only text."""
    out = []
    for c in ch:
        if isinstance(c, str) and out and isinstance(out[-1], str):
            out[-1] += c
        else:
            out.append(c)
    return [c for c in out if not (isinstance(c, str) and not c.strip())]


def norm_ws(s):
    return s


def compare(got, exp, path):
    if isinstance(exp, str):
        if not isinstance(got, str) or got.strip(" \n\t") != exp.strip(" \n\t"):
            raise Violation(f"{path}: text is {got!r:.200}, the document has {exp!r:.200}")
        return
    if type(got) is not VdomDict:
        raise Violation(f"{path}: {got!r:.200} instead of element {exp['tag']}")
    if got["tagName"] != exp["tag"]:
        raise Violation(f"{path}: element {got['tagName']!r} instead of {exp['tag']!r}")
    path = f"{path}/{exp['tag']}"
    a = dict(got.get("attributes") or {})
    want = dict(exp["attrs"])
    if "~value" in want:
        v = want.pop("~value")
        if "value" in a:
            want["value"] = v
    keys = want.pop("~key", None)
    if keys is not None:
        k = a.pop("key", None)
        if keys[0]:
            if k != keys[0]:
                raise Violation(f"{path}: key {k!r} was not inferred from the id {keys[0]!r}")
        elif k is not None and k != keys[1]:
            raise Violation(f"{path}: key {k!r} cannot be inferred from {want}")
    for k in ("defaultChecked",):
        if k in want and a.get(k):
            a[k] = True
    if exp["tag"] == "textarea" and not want.get("defaultValue", "").strip():
        want.pop("defaultValue", None)
        if not a.get("defaultValue", "").strip():
            a.pop("defaultValue", None)
    for k in EITHER:
        for g in [g for g in a if g.lower() == k and k in want]:
            want[g] = want.pop(k)
    for b in ("disabled", "multiple", "readOnly", "defer"):      # presence is what counts
        if b in want and a.get(b) not in (None, False) and (b != "multiple" or a[b] or not exp["ch"]):
            want[b] = a[b] = True
    if a != want:
        diff = {k: (a.get(k, "<none>"), want.get(k, "<none>")) for k in set(a) | set(want) if a.get(k, "<none>") != want.get(k, "<none>")}
        raise Violation(f"{path}: attributes (converted, declared) differ: {diff}")
    js = {k: str(v) for k, v in (got.get("inlineJavaScript") or {}).items()}
    for k in [k for k in js if k.lower() in OTHER_EVENTS and "~" + k.lower() in exp["js"]]:
        js["~" + k.lower()] = js.pop(k)
    if js != exp["js"] or not all(isinstance(v, InlineJavaScript) for v in (got.get("inlineJavaScript") or {}).values()):
        raise Violation(f"{path}: inline scripts are {js}, declared {exp['js']}")
    eh = dict(got.get("eventHandlers") or {})
    if exp["click"]:
        h = eh.pop("onClick", None)
        if h is None or not h.prevent_default:
            raise Violation(f"{path}: link is not intercepted")
    if eh:
        raise Violation(f"{path}: unexpected handlers {eh}")
    compare_list(got.get("children") or [], exp["ch"], path, exp["tag"] in ("pre", "textarea"))


def compare_list(gch, ech, path, pre=False):
    g, e = squash(gch), squash(ech)
    if len(g) != len(e):
        raise Violation(f"{path}: children are {g!r:.400}, the document has {e!r:.400}")
    for i, (x, y) in enumerate(zip(g, e)):
        compare(x, y, f"{path}[{i}]")
    # significant whitespace at the borders of non-blank text must survive
    gs = [c for c in g if isinstance(c, str)]
    es = [c for c in e if isinstance(c, str)]
    for x, y in zip(gs, es):
        if (x[0] in " \n\t") < (y[0] in " \n\t") or (x[-1] in " \n\t") < (y[-1] in " \n\t"):
            raise Violation(f"{path}: text {y!r} lost its surrounding space: {x!r}")


def unwrap(v, nroots, exp):
    """Children of the wrapper (several roots) or the root itself."""
    es = squash(exp)
    if len(es) == 1 and not isinstance(es[0], str):
        return [v]
    if v["tagName"] not in ("div", "span", "p", "") or v.get("attributes"):
        raise Violation(f"several roots are wrapped in {v['tagName']!r} with {v.get('attributes')!r}")
    return v.get("children") or []


@component
def Other():
    return "other"


def swapped(case, src, rec):
    """A transform may put anything in place of a node."""
    tags, what = case["swap"]
    value = {"none": None, "empty": "", "text": "<i>", "element": VdomDict(tagName="hr"), "component": Other()}[what]
    ids = {}

    def tr(node):
        if node["tagName"] in tags:
            r = VdomDict(**value) if what == "element" else value
        elif case["swap"][0] and len(ids) % 2:
            r = VdomDict(**node)          # another object
        else:
            r = node
            r.setdefault("attributes", {})["data-in-place"] = "1"
        ids[id(r)] = r
        return r
    got = string_to_reactpy(src, tr, strict=False, intercept_links=case["links"])
    n = [0]

    def visit(v):
        if isinstance(v, str) and v != value:
            return
        if v is not value and (not isinstance(v, dict) or ids.get(id(v)) is not v and v["tagName"] not in tags):
            raise Violation(f"{v!r:.300} is not what the transform returned; it puts {value!r} in place of {tags} in {src}")
        if isinstance(v, dict):
            n[0] += v["tagName"] == "hr"
            if v["tagName"] in tags and v["tagName"] != "hr":
                raise Violation(f"the {v['tagName']!r} is still there, the transform replaced it by {value!r} in {src}")
            for c in v.get("children") or []:
                visit(c)
    visit(got)
    rec.tag("swap:" + what)


def run(case, rec):
    src = "".join(Wr(case["style"]).node(n) for n in case["roots"])
    wr = Wr(case["style"])
    src = "".join(wr.node(n) for n in case["roots"])
    if case["pad"]:
        src = " \n" + src + "\n "
    links = case["links"]
    exp = [expected(n, links) if n["t"] == "el" else n["v"] for n in case["roots"] if n["t"] != "comment"]
    for strict in (True, False):
        try:
            got = string_to_reactpy(src, strict=strict, intercept_links=links)
        except Exception as e:
            raise Violation(f"conversion (strict={strict}) of {src!r} failed: {type(e).__name__}: {e.__cause__ or e}") from None
        try:
            compare_list(unwrap(got, len(case["roots"]), exp), exp, "$")
        except Violation as v:
            raise Violation(f"{v}\n  source: {src}") from None
    # transforms: called on every node, in order, each with the result of the one before
    log = []

    def tr(tag):
        def f(node):
            log.append((tag, node["tagName"], node.get("attributes", {}).get("data-t0")))
            return VdomDict(**{**node, "attributes": {**node.get("attributes", {}), f"data-t{tag}": str(tag)}})
        return f
    got2 = string_to_reactpy(src, tr(0), tr(1), strict=False, intercept_links=links)
    n = [0]

    def count(v):
        if isinstance(v, dict):
            n[0] += 1
            at = v.get("attributes", {})
            if at.get("data-t0") != "0" or at.get("data-t1") != "1":
                raise Violation(f"transforms were not applied to {v['tagName']!r} in {src}")
            for c in v.get("children") or []:
                count(c)
    count(got2)

    def untag(v):
        if not isinstance(v, dict):
            return v
        at = {k: x for k, x in v.get("attributes", {}).items() if k not in ("data-t0", "data-t1")}
        return VdomDict(**{**{k: x for k, x in v.items() if k != "attributes"}, **({"attributes": at} if at else {}), **({"children": [untag(x) for x in v["children"]]} if v.get("children") else {})})
    try:
        compare_list(unwrap(untag(got2), len(case["roots"]), exp), exp, "$")
    except Violation as v:
        raise Violation(f"with two transforms that add an attribute: {v}\n  source: {src}") from None
    tags = [x[0] for x in log]
    if tags != [0, 1] * n[0] or any(x[2] != "0" for x in log if x[0] == 1):
        raise Violation(f"transforms ran {tags} for {n[0]} nodes of {src}")
    if case.get("swap"):
        swapped(case, src, rec)
    # malformed markup
    if case["break"]:
        bad = src.strip() + case["break"]
        try:
            string_to_reactpy(bad, strict=True)
            ok = True
        except HTMLParseError:
            ok = False
        if ok:
            raise Violation(f"strict mode accepts {bad!r}")
        try:
            string_to_reactpy(bad, strict=False)
        except HTMLParseError as e:
            raise Violation(f"{bad!r} is rejected although strict is off: {e}") from None
        rec.tag("malformed")
    # the result can be displayed
    if case["show"]:
        @component
        def Root():
            return got

        async def main(loop):
            async with Layout(Root()) as layout:
                return await layout.render()
        doc = vloop.run(main)["model"]
        if any("error" in m for m in W.walk(doc)):
            raise Violation(f"the converted {src!r} cannot be rendered")
        rec.tag("rendered")
    kinds = set()

    def walk(x):
        if x["t"] == "el":
            kinds.add(x["tag"])
            for c in x["ch"]:
                walk(c)
        else:
            kinds.add("#" + x["t"])
    for r in case["roots"]:
        walk(r)
    for k in ("select", "textarea", "input", "a", "#comment", "table"):
        if k in kinds:
            rec.tag(k)
    rec.tag("multi-root" if len(case["roots"]) > 1 else "single-root")
    rec.nt(len(kinds) >= 3)


# ------------------------------------------------------------------ generator
class GX:
    def __init__(self, g):
        self.g = g
        self.n = 0
        self.budget = 25

    def attrs(self, extra=()):
        g = self.g
        out = list(extra)
        names = {k for k, _ in out}
        for _ in range(g.size(0, 3)):
            k = g.weighted([(2.5, g.pick(SAME)), (3, g.pick(sorted(RENAMED))), (0.7, g.pick(sorted(EITHER))), (1, "id"), (1, "style"), (1.4, g.pick(sorted(EVENTS))), (0.2, g.pick(OTHER_EVENTS)), (0.3, "key")])
            if k in names:
                continue
            names.add(k)
            self.n += 1
            if k == "style":
                v = g.sample(range(len(CSS)), g.i(1, 3))
            elif k in EVENTS or k in OTHER_EVENTS:
                v = g.pick(CODES)
            elif k in ("id", "key"):
                v = f"u{self.n}"
            else:
                v = g.pick(VALS)
            out.append([k, v])
        return out

    def text(self):
        return {"t": "text", "v": self.g.pick(TEXTS)}

    def el(self, tag, attrs=None, ch=()):
        return {"t": "el", "tag": tag, "attrs": self.attrs() if attrs is None else attrs, "ch": list(ch)}

    def inline(self, d, ctx):
        g = self.g
        self.budget -= 1
        if d <= 0 or self.budget < 0 or g.p(0.35):
            return self.text() if g.p(0.85) else {"t": "comment", "v": g.pick([" c ", "<b>", " a - b "])} if g.p(0.7) else {"t": "comment", "v": g.pick(["pi", "php echo 1 ", "xml version='1.0'"]), "pi": True}
        tag = g.pick([t for t in INLINE if not ((t in ("a", "button", "label") or t in ("input", "select", "textarea")) and ctx)])
        if tag == "input":
            return self.input()
        if tag == "textarea":
            n = self.el(tag, self.attrs([["name", g.pick(["n", "m"])]] if g.p(0.5) else []), [self.text()] if g.p(0.7) else [])
            n["nl"] = g.p(0.3)
            return n
        if tag == "select":
            return self.select()
        if tag in VOID:
            return self.el(tag)
        return self.el(tag, None, [self.inline(d - 1, ctx or tag in ("a", "button", "label")) for _ in range(g.size(0, 3))])

    def input(self):
        g = self.g
        t = g.pick(["text", "checkbox", "radio", "hidden", "number", None])
        at = [["type", t]] if t else []
        if g.p(0.5):
            at.append(["name", g.pick(["n", "m", "n2"])])
        if g.p(0.5):
            at.append(["value", g.pick(VALS)])
        if g.p(0.4):
            at.append(["checked", g.pick(["", "checked"])])
        if g.p(0.2):
            at.append(["disabled", ""])
        g.shuffle(at)
        return self.el("input", self.attrs(at))

    def option(self):
        g = self.g
        at = []
        self.n += 1
        if g.p(0.5):
            at.append(["value", g.pick(["", f"v{self.n}", "a b", "x&y"])])
        if g.p(0.35):
            at.append(["selected", g.pick(["", "selected"])])
        txt = [] if g.p(0.15) else [{"t": "text", "v": g.pick([f"Opt {self.n}", f" Opt\n  {self.n} ", "a < b"])}]
        return self.el("option", at, txt)

    def select(self):
        g = self.g
        at = [["multiple", ""]] if g.p(0.4) else []
        if g.p(0.4):
            at.append(["name", g.pick(["n", "m"])])
        ch = [self.option() if g.p(0.7) else self.el("optgroup", [["label", "G"]], [self.option() for _ in range(g.i(1, 3))]) for _ in range(g.size(0, 4))]
        return self.el("select", self.attrs(at), ch)

    def flow(self, d):
        g = self.g
        self.budget -= 1
        if d <= 0 or self.budget < 0 or g.p(0.4):
            return self.inline(d, False)
        tag = g.pick(BLOCK)
        if tag == "form" and getattr(self, "inform", False):
            tag = "div"
        if tag in ("p", "h1", "pre"):
            return self.el(tag, None, [self.inline(d - 1, False) for _ in range(g.size(0, 3))])
        if tag == "ul":
            return self.el(tag, None, [self.el("li", None, [self.flow(d - 1) for _ in range(g.size(0, 2))]) for _ in range(g.size(0, 3))])
        if tag == "table":
            rows = [self.el("tr", None, [self.el(g.pick(["td", "th"]), None, [self.flow(d - 1) for _ in range(g.size(0, 2))]) for _ in range(g.size(0, 3))]) for _ in range(g.size(0, 3))]
            return self.el("table", None, [self.el("tbody", None, rows)])
        if tag == "details":
            return self.el(tag, None, [self.el("summary", [], [self.text()]), self.flow(d - 1)])
        old = getattr(self, "inform", False)
        self.inform = old or tag == "form"
        n = self.el(tag, None, [self.flow(d - 1) for _ in range(g.width(4))])
        self.inform = old
        return n


def gen(g):
    x = GX(g)
    roots = [x.flow(g.i(1, 4)) for _ in range(g.weighted([(5, 1), (2, 2), (1, 4)]))]
    if not any(r["t"] == "el" for r in roots):
        roots.insert(g.i(0, len(roots)), x.el("div", None, [x.flow(2)]))
    return {"roots": roots, "style": [g.i(0, 419) for _ in range(g.i(1, 40))], "pad": g.p(0.2), "links": g.p(0.5), "show": g.p(0.25),
            "swap": [g.sample(["code", "b", "span", "div", "li", "td", "a", "em", "p", "label", "button", "section", "input"], g.i(1, 6)), g.pick(["none", "empty", "text", "element", "component"])] if g.p(0.4) else None,
            "break": g.pick(["", "", "", "</div>", "</span>", "</b></x>"])}


PARENTS = {"li": {"ul"}, "tbody": {"table"}, "tr": {"tbody"}, "td": {"tr"}, "th": {"tr"}, "option": {"select", "optgroup"}, "optgroup": {"select"},
           "summary": {"details"}}
ONLY = {"ul": {"li"}, "table": {"tbody"}, "tbody": {"tr"}, "tr": {"td", "th"}, "select": {"option", "optgroup"}, "optgroup": {"option"}}


def valid(c):
    seen = set()

    def ok(n, parent, inline, inter, form):
        if n["t"] in ("text", "comment"):
            return isinstance(n["v"], str) and parent not in ONLY and (n["t"] == "text" and n["v"].strip() != "" and parent != "option" or
                                                                         n["t"] == "text" and parent == "option" or
                                                                         n["t"] == "comment" and parent not in ("textarea", "option") and (not n.get("pi") or re.match("[a-z]", n["v"]) and ">" not in n["v"]) and "--" not in n["v"] and not n["v"].startswith(">") and not n["v"].endswith("-"))
        if n["t"] != "el":
            return False
        tag = n["tag"]
        if tag in PARENTS and parent not in PARENTS[tag]:
            return False
        if parent in ONLY and tag not in ONLY[parent]:
            return False
        if parent in ("textarea", "option"):
            return False
        if tag not in BLOCK and tag not in INLINE and tag not in PARENTS:
            return False
        if tag in BLOCK and inline:
            return False
        if inter and tag in ("a", "button", "label", "input", "select", "textarea"):
            return False
        if form and tag == "form":
            return False
        if tag in VOID and n["ch"]:
            return False
        if tag == "textarea" and (len(n["ch"]) > 1 or any(x["v"].startswith("\n") for x in n["ch"])):
            return False
        names = [k for k, _ in n["attrs"]]
        if len(set(names)) != len(names):
            return False
        for k, v in n["attrs"]:
            if k == "style":
                if not v or any(type(i) is not int or not 0 <= i < len(CSS) for i in v):
                    return False
                if len(set(v)) != len(v):
                    return False
            elif not isinstance(v, str):
                return False
            elif k not in RENAMED and k not in SAME and k not in EVENTS and k not in EITHER and k not in OTHER_EVENTS and k not in ("id", "key", "name", "value", "checked", "disabled", "selected", "multiple", "label", "type"):
                return False
            elif k in ("id", "key"):
                if v in seen or not re.fullmatch(r"u\d+", v):
                    return False
                seen.add(v)
            elif k == "selected" and tag != "option" or k == "checked" and tag != "input" or k == "multiple" and tag != "select" or k == "value" and tag not in ("option", "input"):
                return False
        inline = inline or tag in ("p", "h1", "pre") or tag in INLINE
        inter = inter or tag in ("a", "button", "label")
        return all(ok(x, tag, inline, inter, form or tag == "form") for x in n["ch"])
    try:
        if not any(r["t"] == "el" for r in c["roots"]) or not all(ok(r, None, False, False, False) for r in c["roots"]):
            return None
        if any(not isinstance(x, int) or x < 0 for x in c["style"]) or c["break"] not in ("", "</div>", "</span>", "</b></x>"):
            return None
        if c.get("swap") and not (all(isinstance(t, str) and t != "hr" for t in c["swap"][0]) and c["swap"][1] in ("none", "empty", "text", "element", "component")):
            return None
        return c if type(c["pad"]) is bool and type(c["links"]) is bool and type(c["show"]) is bool else None
    except (KeyError, TypeError, ValueError, AttributeError):
        return None


# ------------------------------------------------------------------ blanks between words
PHRASING = ["a", "abbr", "b", "cite", "code", "em", "i", "kbd", "q", "small", "span", "strong", "u", "var", "samp", "dfn"]
BLANKS = ["", " ", "\n  ", "\t", "  "]
HOLDERS = ["p", "div", "span", "li", "td", "h1", "section"]


def gen_blanks(g):
    def run_(d, inlink=False):
        out = []
        for _ in range(g.i(1, 4)):
            r = g.random()
            t = g.pick(PHRASING[inlink:])
            out.append([t, run_(d - 1, inlink or t == "a")] if d and r < 0.2 else [t, [g.pick(["x", "one two", " y", "z "])]] if r < 0.75 else g.pick(["word", " w", "w "]))
            out.append(g.pick(BLANKS))
        return out
    return {"holder": g.pick(HOLDERS), "run": run_(2), "strict": g.p(0.5)}


def valid_blanks(c):
    def ok(run_, inlink):
        return isinstance(run_, list) and bool(run_) and all(isinstance(x, str) and "<" not in x and "&" not in x or isinstance(x, list) and len(x) == 2 and x[0] in PHRASING + ["sub", "sup", "mark"] and
                                                   not (inlink and x[0] == "a") and ok(x[1], inlink or x[0] == "a") for x in run_)
    try:
        return c if c["holder"] in HOLDERS and type(c["strict"]) is bool and ok(c["run"], False) else None
    except (KeyError, TypeError):
        return None


def words(n):
    return n if isinstance(n, str) else "".join(map(words, n.get("children") or []))


def run_blanks(case, rec):
    """What is between two inline elements separates words."""
    def write(run_):
        return "".join(x if isinstance(x, str) else f"<{x[0]}>{write(x[1])}</{x[0]}>" for x in run_)

    def text(run_):
        return "".join(x if isinstance(x, str) else text(x[1]) for x in run_)
    src = write(case["run"])
    wrap = {"li": "<ul><li>%s</li></ul>", "td": "<table><tbody><tr><td>%s</td></tr></tbody></table>"}.get(case["holder"], f"<{case['holder']}>%s</{case['holder']}>")
    got = words(string_to_reactpy(wrap % src, strict=case["strict"]))
    if got.split() != text(case["run"]).split():
        raise Violation(f"the words of {wrap % src!r} are {got.split()!r} after the conversion, instead of {text(case['run']).split()!r}")
    rec.tag(case["holder"])
    rec.nt(bool(re.search(r">\s+<\w", src)))


SUBS = [
    Sub("blanks", gen=gen_blanks, valid=valid_blanks, run=run_blanks, quick=9000, thorough=40000, shards=2,
        rule="texts made of nested inline elements with or without blanks between them, in different holders; the words must stay the same; non-trivial = a blank is all there is between two tags"),
    Sub("documents", gen=gen, valid=valid, run=run, quick=27000, thorough=200000, shards=7,
        rule="well-formed HTML trees (blocks, inline, tables, lists, forms, comments) written with varying quoting, escaping, case and spacing; converted "
             "strictly and leniently, with and without transforms, a quarter rendered by a layout; non-trivial = at least three kinds of nodes"),
]
