import ast
import os
import re
import shutil
import tempfile
import warnings
from pathlib import Path

from click.testing import CliRunner
from reactpy._console import ast_utils, rewrite_keys as RK, rewrite_props as RP

from lib import Sub, Violation

warnings.simplefilter("ignore")
PROPERTY = "C19"
ASSUMPTIONS = ["element calls are html.<name>(..), <x>.html.<name>(..), <known name>(..) and vdom('tag', ..), as the tools recognise them by name", "prop names of mixed case and names with letters after digits are not generated",
               "comments within a rewritten call move to lines above it (documented)"]

TEMPLATES = [
    "A", "x = A", "x = A, B", "x = [A, B]", "x = [\n\tA,\n\tB,\n]", "x = [\n\tA, B,\n\tC, D]", "x = {\n\t'a': A, 'b': B,\n}", "a = 1; b = A; c = B",
    "if c:\n\tpass\nelif A:\n\ty = B\nelse:\n\ty = C", "if c: y = A\nelse: y = B", "def f(): return A", "def f(a=A, *, b=B):\n\t'''doc\n\t  more\n\t'''\n\t# note\n\treturn C",
    "async def f(a=A):\n\t\"\"\"doc\n\tmore\"\"\"\n\tawait g(B)  # note", "class K: x = A", "class K(Base, metaclass=M):\n\tx = A\n\n\tdef m(self): return B", "@deco(A, B)\ndef f():\n\t# comment\n\tx = [\n\t\t1\n\t]",
    "with g(A) as x:\n\tpass # z", "with A as x, B:\n\t# keep\n\ty = ( 1,2 )", "for i in A: y = B", "while A:\n\ty = ( 1,2 )  # k\nelse:\n\ty = B", "try: x = A\nexcept E: x = B\nfinally:\n\tx = C",
    "try:\n\tx = 1\nexcept E as e:  # why\n\tx = ( A )", "match x:\n\tcase 1: y = A\n\tcase [a, b] if B:\n\t\ty = C", "r = lambda a, b=A: B", "x = [A for i in y if B]", "x = {\n\tk: A\n\tfor k in B\n}",
    "foo(\n\t1\n).bar(A)", "y = (\n\tr\n\tif c\n\telse A\n)", "y = \\\n\tA", "y = 1 + \\\n\tA, B", "x = '''é\n # not a comment\n''', A", "é = 'ü', A, 'ß', B  # ünï", "assert A, B", "del d[A]", "x: list = A", "x += A",
    "x = y[A:B]", "print(A, B, sep='')  # tail", "raise E(A) from B", "if (y := A): pass", "x = (\n\ty := A\n)", "x = (\n\t# lead\n\tA\n\t# trail\n)", "import os  # html.div(key=1)", "s = \"html.div({'on_click': 1}, key=2)\"",
    "x = A if B else C", "x = not A", "x = -1 ** A", "x = (html\n\t.div)(A)", "x = (A)(B)", "x = A.render(B)[C]", "x = A  ;  y=B  ;  # z", "x = 1 if A else(B)", "n = [\"é\" , A , \"日本\" , B]",
    "def f():\n\treturn(\n\t\tA,\n\n\t\tB)  # end", "# only a comment", "", "x = f(a, *A, **B)", "def g():\n\tyield A\n\tx = yield from B", "async def h():\n\tasync with A: pass\n\tasync for i in B: await C",
    "x = '''\n''' + A, '''\n''', B", "x = (1,  # one\n\tA,  # two\n\tB)  # three", "if 1:\n\tif 2: x = A", "x = lambda: (\n\tA\n)", "@A\nclass Q: pass", "type_ = A | B", "x = {**A, 'k': B}", "x = a < A <= B", "x = `".replace("`", "A") + "  # é",
    # holes within f-strings: only the whole string can be rewritten
    "x = «f'{a}é'», b", "x = «f'{b}{c!r:>4}'»", "x = «f\"\"\"\n{a}\n  {b!s}\n\"\"\"», C", "x = («'plain' f\"{a}\"\n\tf\"{b}\"», C)", "log(«f'{[a, b]}'»)  # f", "x = «f'{x:{a}}'»",
]
ELEMENTS = ["html.div", "html.my_element", "reactpy.html.p", "rp.x.html.a", "div", "h1", "del_", "input", "vdom", "vdom"]
OTHERS = ["sorted", "foo", "not_html.div", "obj.div", "print", "x.y.z", "max", "Component", "vdom2", "(a + b)", "html[0]"]
VALUES = ["1", "x", "f(1, k=2)", "'s'", "lambda e: e", "[i for i in y]", "{'a_b': 1}", "'é日'", "\"\"\"multi\nline\"\"\"", "'it\\'s'", "1_000", "f'{a}b'", "x if y else z", "not a", "(1,)", "'a' 'b'", "b'x'", "call(a_b=1)", "dict(a_b=1)", "{}", "x.y[0]", "...", "-1", "0xFF", "'\\n\\t'"]
SIMPLE_VALUES = ["1", "x", "[y]", "x.z"]           # within f-strings
CHILDREN = ["'text'", "1", "child", "f'{a}'", "None", "*rest", "[x, y]", "('a' 'b')", "c.d", "(i for i in y)", "{'set'}", "f(1)"]
NAMES = ["on_click", "class_name", "x", "data-x", "aria_label", "class_", "for_", "style", "if", "lambda", "_private", "a_1", "readOnly", "http_equiv", "is_", "tab_index", "_1", "a__b", "key_name", "é_ü", "onClick"]


def ident(n):
    return n.isidentifier() and n not in ("if", "lambda")


def camel(n):
    if n in ("if", "lambda") or "_" not in n:
        return n
    first, *rest = n.split("_")
    return first + "".join(r[:1].upper() + r[1:] for r in rest)


class Ren:
    """renders the program before (with layout) and after (as it should be)"""

    def __init__(self, tool, ind, comments=True):
        self.tool, self.ind, self.n, self.comments = tool, ind, 0, comments

    # ---- which calls change
    def changes(self, c):
        if c["fn"] not in ELEMENTS or c["fn"] == "vdom" and c.get("star"):
            return False
        p = c["props"]
        if self.tool == "keys":
            if c["key"] is None:
                return False
            if p is None:
                first = self.first(c)
                return first is None or first in ("const", "fstr")
            return not (p["form"] == "call" and any(k == "key" for k, _ in p["items"]))
        return p is not None and self.conv(p) != p

    def first(self, c):
        if not c["kids"]:
            return None
        k = c["kids"][0]
        if isinstance(k, dict):
            return "call"
        return {"'text'": "const", "1": "const", "None": "const", "('a' 'b')": "const", "f'{a}'": "fstr"}.get(k, "other")

    def conv(self, p, instyle=False):
        names = [k for k, _ in p["items"]]
        done = []
        out = []
        for i, (k, v) in enumerate(p["items"]):
            new = k
            if k is not None:
                if k == "style":
                    if isinstance(v, dict) and "items" in v:
                        v = v if instyle else self.conv(v, True)
                else:
                    new = camel(k)
                if p["form"] == "call":
                    if new in ("class", "for", "is", "") or not new.isidentifier() or new in done + names[i + 1:]:
                        new = k
                done.append(new)
            out.append([new, v])
        return {**p, "items": out}

    def val(self, v, after):
        if isinstance(v, dict):
            return self.call(v, after) if "fn" in v else self.props(v, after)
        return v

    def props(self, p, after):
        if p["form"] == "dict":
            return "{" + ", ".join(("**" + self.val(v, after)) if k is None else repr(k) + ": " + self.val(v, after) for k, v in p["items"]) + "}"
        return "dict(" + ", ".join(("**" + self.val(v, after)) if k is None else k + "=" + self.val(v, after) for k, v in p["items"]) + ")"

    def call(self, c, after):
        p, kids, key = c["props"], list(c["kids"]), c["key"]
        if after and self.changes(c):
            if self.tool == "keys":
                p = {**p, "items": [*p["items"], ["key", key]]} if p else {"form": "dict", "items": [["key", key]]}
                key = None
            else:
                p = self.conv(p)
        args = ["*rest" if c.get("star") else "'tag'"] if c["fn"] == "vdom" else []
        if p is not None:
            args.append(self.props(p, after))
        args += [self.val(k, after) for k in kids]
        kws = [f"{k}={v}" if k else f"**{v}" for k, v in c["kws"]]
        if key is not None:
            kws.insert(min(c["at"], len([k for k in c["kws"] if k[0]])), "key=" + self.val(key, after))
        args += kws
        if after:
            return f"{c['fn']}({', '.join(args)})"
        lay = c["lay"]
        if lay == "tight" or not self.comments or not args:
            return f"{c['fn']}({(',' if lay == 'tight' else ', ').join(args)})"
        if lay == "loose":
            return f"{c['fn']} ( {' , '.join(args)} , )"
        pad = "\n" + " " * c["pad"]
        out = c["fn"] + "("
        for i, a in enumerate(args):
            if lay == "comments" and i == 0:
                out += "  " + self.comment()
            out += pad + a + ("," if i < len(args) - 1 or c["pad"] % 2 else "")
            if lay == "comments":
                out += " " + self.comment()
        return out + ("\n" + " " * (c["pad"] // 2) if lay != "lines" or c["pad"] % 3 else "") + ("\n" if lay == "comments" and out.endswith("'") else "") + ")"

    def comment(self):
        self.n += 1
        return f"# c{self.n} é"

    # ---- segments of the whole: literal text and spans that may be rewritten
    def spans(self, c, base):
        """before-text of an expression, and the outermost changed spans in it"""
        before = self.call(c, False)
        return before


def mark(ren, c):
    """the text of a call with its outermost changed calls between \x01 and \x02"""
    real = Ren.call

    class M(Ren):
        depth = 0

        def call(self, c, after):
            ch = not self.depth and self.changes(c)
            if ch:
                self.depth += 1
            t = real(self, c, after)
            if ch:
                self.depth -= 1
                t = "\x01" + t + "\x02"
            return t
    m = M(ren.tool, ren.ind, ren.comments)
    m.n = ren.n
    t = m.call(c, False)
    ren.n = m.n
    return t


def program(case):
    ren = Ren(case["tool"], case["ind"])
    before, after = [], []
    for s in case["stmts"]:
        t = TEMPLATES[s["t"]]
        lines = t.replace("\t", case["ind"]).split("\n")
        for w in reversed(s["wrap"]):
            lines = [w, *(case["ind"] + x if x else x for x in lines)] if lines != [""] and not lines[0].startswith("#") and lines != ["import os  # html.div(key=1)"] else [w + " pass", *lines]
        text = "\n".join(lines)

        def fill(text, after):
            out = ""
            infs = False
            i = 0
            for ch_i, ch in enumerate(text):
                if ch == "«":
                    start = len(out)
                    infs = True
                elif ch == "»":
                    infs = False
                    if not after and "\x01" in out[start:]:
                        out = out[:start] + "\x01" + out[start:].replace("\x01", "").replace("\x02", "") + "\x02"
                elif ch in "ABCDabcd" and hole(text, ch_i) and (ch.isupper() or infs and text[ch_i - 1] in "{[ "):
                    c = s["holes"]["abcd".index(ch.lower())]
                    r = Ren(case["tool"], case["ind"], comments=not infs)
                    if infs:
                        c = simple(c)
                    r.n = ren.n
                    out += r.call(c, True) if after else mark(r, c)
                    if not after:
                        ren.n = r.n
                else:
                    out += ch
            return out
        before.append(fill(text, False))
        after.append(fill(text, True))
    b, a = "\n".join(before), "\n".join(after)
    if case["last"]:
        b += "\n"
        a += "\n"
    return b, a


def hole(text, i):
    w = re.compile(r"[\w'\"]")
    return not (i and w.match(text[i - 1])) and not (i + 1 < len(text) and re.match(r"[\w'\"]", text[i + 1]))


def simple(c):
    """a call that fits into an f-string: no quotes of the other kind, no backslashes, no line breaks"""
    def v(x):
        if isinstance(x, dict):
            return simple(x) if "fn" in x else {**x, "items": [[k, v(y)] for k, y in x["items"]]}
        return x if x in SIMPLE_VALUES else "x"
    return {**c, "props": {**c["props"], "items": [[k, v(y)] for k, y in c["props"]["items"]]} if c["props"] else None, "kids": [v(k) if isinstance(k, dict) or k in SIMPLE_VALUES else ("'text'" if k == "'text'" and False else "1" if k in ("'text'", "1", "('a' 'b')", "None", "f'{a}'") else "child") for k in c["kids"]],
            "key": None if c["key"] is None else v(c["key"]), "kws": c["kws"]}


def run_rewrite(case, rec):
    marked, after = program(case)
    source = marked.replace("\x01", "").replace("\x02", "")
    nl = case["nl"]
    if nl != "\n":
        source, marked = source.replace("\n", nl), marked.replace("\n", nl)
    mod = RK if case["tool"] == "keys" else RP
    echoed = []
    real = ast_utils.click.echo
    ast_utils.click.echo = echoed.append
    try:
        got = mod.generate_rewrite(Path("t.py"), source)
        again = None if got is None else mod.generate_rewrite(Path("t.py"), got)
    finally:
        ast_utils.click.echo = real
    segs = re.split("\x01.*?\x02", marked, flags=re.DOTALL)
    rec.tag(case["tool"], "unchanged" if len(segs) == 1 else "changed")
    if case["tool"] == "keys":
        check_announced(source if got is None else got, echoed, rec)
    if got is None:
        if len(segs) > 1:
            raise Violation(f"nothing was rewritten in\n{source}")
        return
    if len(segs) == 1:
        raise Violation(f"nothing was to be rewritten in\n{source}\nwhich became\n{got}")
    try:
        tree = ast.parse(got)
    except SyntaxError as e:
        raise Violation(f"what was\n{source}\nbecame the invalid\n{got}\n{e}") from None
    if ast.dump(tree) != ast.dump(ast.parse(after)):
        raise Violation(f"what was\n{source}\nbecame\n{got}\ninstead of what means\n{after}")
    if again is not None:
        raise Violation(f"what was\n{source}\nbecame\n{got}\nand once more\n{again}")
    # text and comments
    moved = []
    for m in re.findall("\x01(.*?)\x02", marked, flags=re.DOTALL):
        moved += re.findall(r"# c\d+ é", m)
    text = got
    for c in moved:
        text, n = re.subn(rf"(?m)(^|(?<=\r))[ \t]*{c}{nl}", "", text)
        if n != 1:
            raise Violation(f"the comment {c!r} of\n{source}\nis {n} times above what it became\n{got}")
    if not re.fullmatch("(?s:.+?)".join(re.escape(s) for s in segs), text):
        raise Violation(f"other text than the calls differs in what was\n{source}\nand became\n{got}")
    if len(moved) and not any("Moved comments" in e for e in echoed):
        raise Violation(f"moved comments were not announced: {echoed}")
    rec.nt(len(segs) >= 3 or bool(moved))
    rec.tag(*(["comments"] if moved else []), f"spans{min(len(segs) - 1, 4)}")


def check_announced(text, echoed, rec):
    """what the tool had to leave to the author is announced with its place, and nothing else is"""
    must, may = set(), set()
    for n in ast.walk(ast.parse(text)):
        if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
            name = n.func.id if isinstance(n.func, ast.Name) else n.func.attr
            if any(k.arg == "key" for k in n.keywords):
                may.add(n.lineno)
                if name in {e.split(".")[-1] for e in ELEMENTS} - {"my_element"}:
                    must.add(n.lineno)
            elif name == "vdom" and n.keywords:
                may.add(n.lineno)
    said = {int(m) for e in echoed for m in re.findall(r"t\.py:(\d+)", str(e)) if "nable to rewrite" in str(e)}
    if must - said:
        raise Violation(f"the keys left in the lines {sorted(must - said)} of\n{text}\nwere not announced: {echoed}")
    if said - may:
        raise Violation(f"nothing was left in the lines {sorted(said - may)} of\n{text}\nas announced: {echoed}")
    if must:
        rec.tag("announced")


def gen_call(g, depth=0, fs=False):
    fn = g.pick(ELEMENTS) if g.p(0.8) else g.pick(OTHERS)
    props = gen_props(g, depth) if g.p(0.65) else None
    kids = [gen_call(g, depth + 1) if depth < 2 and g.p(0.4) else g.pick(CHILDREN) for _ in range(g.weighted([(3, 0), (4, 1), (2, 2), (1, 3)]))]
    seen = False
    # a generator cannot stand among others without its parentheses, they are part of it
    return {"fn": fn, **({"star": True} if fn == "vdom" and g.p(0.15) else {}), "props": props, "kids": kids, "key": None if g.p(0.45) else gen_call(g, depth + 1) if depth < 2 and g.p(0.15) else g.pick(VALUES),
            "kws": ([["event", "1"]] if g.p(0.1) else []) + ([[None, "kw"]] if g.p(0.1) else []), "at": g.i(0, 1),
            "lay": g.weighted([(4, "tight"), (3, "one"), (1, "loose"), (2, "lines"), (3, "comments")]), "pad": g.i(0, 9)}


def gen_props(g, depth, style=0):
    form = g.pick(["dict", "dict", "call"])
    items = []
    used = set()
    for _ in range(g.weighted([(1, 0), (4, 1), (3, 2), (2, 3)])):
        if g.p(0.1):
            items.append([None, "more"])
            continue
        k = g.pick(NAMES + (["key"] if g.p(0.2) else []))
        if form == "call" and not ident(k) or k in used:
            continue
        used.add(k)
        if k == "style" and g.p(0.8):
            v = gen_props(g, depth, style + 1) if g.p(0.7) and style != 2 else g.pick(["call(a_b=1)", "make({'a_b': 1})", "style_(a_b=1)", "x"])
        elif depth < 2 and g.p(0.1):
            v = gen_call(g, depth + 1)
        else:
            v = g.pick([v for v in VALUES if k != "style" or "a_b" not in v])
        items.append([k, v])
    return {"form": form, "items": items}


WRAPS = ["if True:", "def g():", "class K_:", "async def k():", "for i in j:", "with a as b:", "try:"]


def gen_rewrite(g):
    return {"tool": g.pick(["keys", "props"]), "ind": g.pick(["    ", "\t", "  "]), "nl": g.pick(["\n", "\n", "\r\n", "\r"]), "last": g.p(0.7),
            "stmts": [{"t": g.i(0, len(TEMPLATES) - 1), "wrap": [g.pick(WRAPS[:-1]) for _ in range(g.weighted([(5, 0), (3, 1), (1, 2)]))], "holes": [gen_call(g) for _ in range(4)]} for _ in range(g.size(1, 4))]}


def ok_props(p, style=False):
    if p is None:
        return True
    if p["form"] not in ("dict", "call") or not isinstance(p["items"], list):
        return False
    seen = set()
    for k, v in p["items"]:
        if k is None:
            if v != "more":
                return False
            continue
        if k not in NAMES + ["key"] or k in seen or p["form"] == "call" and not ident(k):
            return False
        seen.add(k)
        if isinstance(v, dict):
            if "fn" in v:
                if not ok_call(v):
                    return False
            elif k != "style" or not ok_props(v):
                return False
        elif k == "style" and v in ("{'a_b': 1}", "dict(a_b=1)"):
            return False
        elif v not in VALUES + ["call(a_b=1)", "make({'a_b': 1})", "style_(a_b=1)"]:
            return False
    return True


def ok_call(c):
    return (c["fn"] in ELEMENTS + OTHERS and (c["props"] is None or ok_props(c["props"])) and all(ok_call(k) if isinstance(k, dict) else k in CHILDREN for k in c["kids"])
            and (c["key"] is None or (ok_call(c["key"]) if isinstance(c["key"], dict) else c["key"] in VALUES)) and all(k in (["event", "1"], [None, "kw"]) for k in c["kws"]) and len(c["kws"]) <= 2
            and [k[0] for k in c["kws"]] in ([], ["event"], [None], ["event", None]) and c["at"] in (0, 1) and c["lay"] in ("tight", "one", "loose", "lines", "comments") and isinstance(c["pad"], int) and 0 <= c["pad"] < 12)


def valid_rewrite(c):
    try:
        if c["tool"] not in ("keys", "props") or c["ind"] not in ("    ", "\t", "  ") or c["nl"] not in ("\n", "\r\n", "\r") or not c["stmts"] or not isinstance(c["last"], bool):
            return None
        for s in c["stmts"]:
            if not 0 <= s["t"] < len(TEMPLATES) or any(w not in WRAPS[:-1] for w in s["wrap"]) or len(s["holes"]) != 4 or not all(ok_call(h) for h in s["holes"]):
                return None
        b, a = program(c)
        ast.parse(b.replace("\x01", "").replace("\x02", ""))
        return c
    except (KeyError, TypeError, AttributeError, ValueError, SyntaxError, IndexError):
        return None


# ---------------------------------------------------------------- files
PATHS = ["a.py", "b.py", "sub/c.py", "sub/deep/d.py", "notes.txt", "e.pyi", "f.PY", "sub/g.pyc", "dir.py/h.py", ".hidden/i.py", "sp ace.py", "ü.py", "noext"]
BODIES = {"keys": [("html.div(key='é')", "html.div({'key': 'é'})"), ("x = 1", None), ("y = [html.p('a', key=1),\n  2]  # ü", "y = [html.p({'key': 1}, 'a'),\n  2]  # ü")],
          "props": [("html.div({'on_click': 'é'})", "html.div({'onClick': 'é'})"), ("x = 1", None), ("y = [html.p(dict(class_name=1)),\n  2]  # ü", "y = [html.p(dict(className=1)),\n  2]  # ü")]}


def run_files(case, rec):
    base = Path(tempfile.mkdtemp(prefix="verif-c19-"))
    try:
        want = {}
        for p, body, nl, enc in case["files"]:
            f = base / p
            f.parent.mkdir(parents=True, exist_ok=True)
            head = {"latin-1": "# -*- coding: latin-1 -*-\n", "cp1252": "#!/usr/bin/env python\n# vim: set fileencoding=cp1252 :\n"}.get(enc, "")
            old, new = BODIES[case["tool"]][body]
            data = (head + old + "\n").replace("\n", nl).encode(enc)
            f.write_bytes(data)
            os.utime(f, (1, 1))
            hit = new is not None and any((base / q) == f or (base / q) in f.parents and p.endswith(".py") for q in case["paths"])
            want[p] = ((head + new + "\n").replace("\n", nl).encode(enc) if hit else data, hit)
        for d in case["dirs"]:
            (base / d).mkdir(parents=True, exist_ok=True)
        cmd = RK.rewrite_keys if case["tool"] == "keys" else RP.rewrite_props
        cwd = os.getcwd()
        try:
            os.chdir(base)
            r = CliRunner().invoke(cmd, [str(base / p) if case["abs"] else p for p in case["paths"]], catch_exceptions=False)
        finally:
            os.chdir(cwd)
        if r.exit_code:
            raise Violation(f"exit code {r.exit_code}: {r.output}")
        for p, (data, hit) in want.items():
            got = (base / p).read_bytes()
            if got != data:
                raise Violation(f"{p} holds {got!r} instead of {data!r}")
            if not hit and os.stat(base / p).st_mtime != 1:
                raise Violation(f"{p} was written although it was not to be changed")
        extra = {str(x.relative_to(base)) for x in base.rglob("*") if x.is_file()} - set(want)
        if extra:
            raise Violation(f"files appeared: {extra}")
        rec.nt(sum(h for _, h in want.values()) >= 1 and len(want) >= 2)
        rec.tag(*{e for _, _, _, e in case["files"]})
    finally:
        shutil.rmtree(str(base))


def gen_files(g):
    ps = g.sample(PATHS, g.i(1, 6))
    files = [[p, g.i(0, 2), g.pick(["\n", "\r\n", "\n"]), g.weighted([(5, "utf-8"), (1, "utf-8-sig"), (1, "latin-1"), (1, "cp1252")])] for p in ps]
    cands = [".", *ps, *{str(Path(p).parent) for p in ps}]
    return {"tool": g.pick(["keys", "props"]), "files": files, "dirs": g.sample(["x.py", "sub/y.py"], g.i(0, 2)), "paths": g.sample(cands, g.i(1, 3)) if g.p(0.6) else ["."], "abs": g.p(0.5)}


def valid_files(c):
    try:
        ps = [f[0] for f in c["files"]]
        if c["tool"] not in BODIES or len(set(ps)) != len(ps) or any(p not in PATHS for p in ps) or any(not 0 <= f[1] <= 2 or f[2] not in ("\n", "\r\n") or f[3] not in ("utf-8", "utf-8-sig", "latin-1", "cp1252") for f in c["files"]):
            return None
        cands = {".", *ps, *(str(Path(p).parent) for p in ps)}
        if not c["paths"] or any(p not in cands for p in c["paths"]) or any(d not in ("x.py", "sub/y.py") for d in c["dirs"]):
            return None
        return c
    except (KeyError, TypeError, AttributeError, ValueError, IndexError):
        return None


SUBS = [
    Sub("rewrite", gen=gen_rewrite, valid=valid_rewrite, run=run_rewrite, quick=22500, thorough=300000, shards=6,
        rule="programs with element calls in all syntactic contexts, layouts and line endings; the reference writes the program as it should become; non-trivial = two rewritten spans or moved comments"),
    Sub("files", gen=gen_files, valid=valid_files, run=run_files, quick=900, thorough=20000, shards=2, rule="directory trees with files of several encodings, types and line endings; non-trivial = a rewritten file among others"),
]
