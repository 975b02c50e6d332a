import asyncio
import functools
import json
import re

from reactpy import event as event_decorator
from reactpy import html
from reactpy.core.events import EventHandler, merge_event_handlers, to_event_handler_function
from reactpy.types import Event

import world as W  # noqa: F401
from lib import Sub, Violation

PROPERTY = "C13"
ASSUMPTIONS = ["the handler refers to its event by the name of its argument and does not rebind it; calls made inside inner functions are not its own",
               "code the compiler removes as unreachable does not count", "CPython 3.12 bytecode"]

# ------------------------------------------------------------------ programs

PD_CTX = ["{x}", "_ = {x}", "use({x})", "use(1, k={x})", "COND[0] and {x}", "use(f'{{{x}}}')", "_ = [{x} for _ in range(2)]", "_ = {x} if COND[0] else 1",
          "_ = ({x}, 2)", "(lambda a={x}: a)()", "_ = not {x}", "print(end='') or {x}", "_ = {{'k': {x}}}", "_ = use({x}).y.z", "assert not {x}", "if {x}: pass",
          "with use({x}): pass", "for _ in [{x}]: pass", "use(*[{x}])", "del {x2}", "_ = use(E, E, {x})", "_: object = {x}", "(yy := {x})"]
NOISE = ["OTHER.preventDefault()", "OTHER.stopPropagation()", "OTHER.debounce = 77", "E.target.preventDefault()", "E.target.stopPropagation()", "E.preventDefaults()",
         "_ = 'event.preventDefault()'", "_ = E.debounce", "_ = E.debounce2", "E.debounce2 = 55", "E.target.debounce = 66", "_ = E['preventDefault']", "preventDefault = 1; _ = preventDefault",
         "inner = lambda ev: ev.preventDefault()", "def inner(ev): ev.stopPropagation(); ev.debounce = 1", "_ = use(E).preventDefault()", "use(E); OTHER.stopPropagation()",
         "_ = (E, OTHER.preventDefault())", "_ = E if OTHER.preventDefault() else 1", "_ = E.value", "pass", "use(E.preventDefaultX, 1)", "OTHER.debounce = E.value", "E.value = 3",
         "_ = [e2.preventDefault() for e2 in [OTHER]]", "debounce = 5", "OTHER.debounce, _ = 1, E", "_ = E and OTHER.stopPropagation()", "E == OTHER.preventDefault()"]
CAPTURE = ["inner = lambda: E.value", "def inner(): return E", "_ = list(E.value for _ in range(1))", "class K:\n    q = lambda self: E"]
LATE = "later"        # a variable of the enclosing function that gets its value only after the handler was registered


class Any_:
    """Accepts everything."""

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Any_()

    def __setattr__(self, n, v):
        pass

    def __call__(self, *a, **k):
        return Any_()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __getitem__(self, i):
        return Any_()

    def __delitem__(self, i):
        pass

    def __await__(self):
        return iter(())

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        return False

    def __aiter__(self):
        return self

    async def __anext__(self):
        raise StopAsyncIteration


class Probe(Event):
    """Records what the handler really does when it runs."""

    def __init__(self, *a):
        super().__init__(*a)
        self.__dict__["did"] = []

    def preventDefault(self):
        self.did.append("pd")

    def stopPropagation(self):
        self.did.append("sp")

    def __setattr__(self, k, v):
        if k == "debounce":
            self.did.append(("deb", v))

    def __getattr__(self, n):
        return Any_()

    def __getitem__(self, k):
        return 1


def stmt(s, d, is_async):
    k = s[0]
    ind = "    " * d
    if k in ("pd", "sp"):
        x = "E." + {"pd": "preventDefault", "sp": "stopPropagation"}[k] + "()"
        ctx = PD_CTX[s[1] % len(PD_CTX)]
        if ctx.startswith("(lambda a") and s[1] >= len(PD_CTX):
            ctx = "{x}"
        t = ctx.format(x=x, x2=f"use(1)[{x}]")
        if is_async and s[1] >= len(PD_CTX):
            t = f"await use({x})"
        return [ind + t]
    if k == "deb":
        v = s[1]
        return [ind + ("E.debounce = " if not s[2] else "E.debounce: int = ") + value_src(v)]
    if k == "reassign":
        return [ind + f"{s[1]} = use({s[1]})"]
    if k == "noise":
        return [ind + x for x in NOISE[s[1] % len(NOISE)].split("\n")]
    if k == "capture":
        return [ind + x for x in CAPTURE[s[1] % len(CAPTURE)].split("\n")]
    if k == "capvar":          # an argument or captured variable that an inner function uses, too
        return [ind + f"inner = lambda: use({s[1]})"]
    if k == "late":
        return [ind + "use(later)"]
    if k == "names":
        return [ind + "; ".join(f"OTHER.n{i}" for i in range(s[1], s[1] + s[2]))]
    if k == "consts":
        return [ind + "use(" + ", ".join(str(1000000 + i) for i in range(s[1])) + ")"]
    body = [y for b in s[2] for y in stmt(b, d + 1, is_async)] or [ind + "    pass"]
    other = [y for b in s[3] for y in stmt(b, d + 1, is_async)] or [ind + "    pass"]
    if k == "if":
        return [ind + f"if COND[{s[1]}]:", *body, ind + "else:", *other]
    if k == "for":
        return [ind + "for i in range(COND[2]):", *body, ind + "else:", *other]
    if k == "while":
        return [ind + "while COND[3]():", *body, *[x for x in other]] if False else [ind + "while COND[3]():", *body, ind + "else:", *other]
    if k == "try":
        return [ind + "try:", *body, ind + ("except ValueError:" if s[1] else "finally:"), *other]
    if k == "with":
        a = "async " if is_async and s[1] else ""
        return [ind + f"{a}with use() as w:", *body, *[x for x in [] or []], ind + "if COND[0]:", *other]
    if k == "match":
        return [ind + "match COND[1]:", ind + "    case 5:", *["    " + y for y in body], ind + "    case _:", *["    " + y for y in other]]
    if k == "afor":
        return [ind + ("async for _ in use():" if is_async else "for _ in ():"), *body, ind + "if COND[1]:", *other]
    raise ValueError(k)


def value_src(v):
    return {"const": lambda: str(v[1]), "fold": lambda: f"{v[1]} * 2 + 1", "par": lambda: v[1], "clo": lambda: v[1], "str": lambda: repr("x"), "bool": lambda: "True", "none": lambda: "None",
            "glob": lambda: "GLOBAL_MS", "call": lambda: "use(3)", "local": lambda: "loc", "binop": lambda: "loc + 5", "float": lambda: "2.5", "attr": lambda: "OTHER.ms"}[v[0]]()


PARAMS = ["ms", "delay", "kw1"]
CLOS = ["cms", "cdelay"]


def source(c):
    is_async = c["form"] == "async" or c.get("async", False)
    e = c["event"]
    pos = [*(["self"] if c["form"] in ("method", "callable") else []), *(["cls"] if c["form"] == "classmethod" else []), *c["before"], "E"]
    d = c["defaults"]
    ps = ", ".join(p + (f"={d[p]!r}" if p in d else "") for p in pos)
    if c["posonly"]:
        ps += ", /"
    after = [f"{p}={d[p]!r}" for p in c["after"]]
    kw = [f"{p}={d[p]!r}" for p in c["kwonly"]]
    ps = ", ".join([ps, *after, *(["*", *kw] if kw else [])])
    re_ = sorted({s[1] for s in walk(c["body"]) if s[0] == "reassign" and s[1] in CLOS})
    body = [*[f"    nonlocal {x}" for x in re_], "    LOG.append('run')", "    loc = COND[4]"]
    for s in c["body"]:
        body += stmt(s, 1, is_async)
    if c["form"] == "lambda":
        exprs = [x for s in c["body"] for x in ["E.preventDefault()" if s[0] == "pd" else "E.stopPropagation()" if s[0] == "sp" else "OTHER.preventDefault()"]]
        src = f"h = lambda {ps}: (LOG.append('run'), {', '.join(exprs) or '1'})"
        lines = src.split("\n")
    else:
        kind = "async def" if is_async else "def"
        lines = [f"{kind} h({ps}):", *body]
        if c["ret"] == 1:
            lines.append("    return E.value")
        if c["form"] in ("method", "classmethod", "static", "callable"):
            dec = {"classmethod": ["@classmethod"], "static": ["@staticmethod"]}.get(c["form"], [])
            name = "__call__" if c["form"] == "callable" else "h"
            lines = ["class Owner:", *["    " + x for x in dec], *["    " + x for x in lines]]
            lines[1 + len(dec)] = lines[1 + len(dec)].replace(" h(", f" {name}(", 1)
            lines.append({"method": "h = Owner().h", "classmethod": "h = Owner.h", "static": "h = Owner.h", "callable": "h = Owner()"}[c["form"]])
    clo = [f"{k} = {v!r}" for k, v in c["clos"].items()]
    text = ["def make(finish):", *["    " + x for x in clo], *["    " + x for x in lines], "    r = finish(h)", "    later = 1", "    return r"]
    return re.sub(r"\bE\b", e, "\n".join(text))


def deco(f):
    if asyncio.iscoroutinefunction(f):
        @functools.wraps(f)
        async def w(*a, **k):
            return await f(*a, **k)
    else:
        @functools.wraps(f)
        def w(*a, **k):
            return f(*a, **k)
    return w


def walk(body):
    for s in body:
        yield s
        if s[0] in ("if", "for", "while", "try", "with", "match", "afor"):
            yield from walk(s[2])
            yield from walk(s[3])


def expected(c):
    stmts = list(walk(c["body"]))
    if c["form"] == "lambda":
        stmts = [s for s in c["body"] if s[0] in ("pd", "sp")]
    pd = any(s[0] == "pd" for s in stmts)
    sp = any(s[0] == "sp" for s in stmts)
    re_ = {s[1] for s in stmts if s[0] == "reassign"}
    vals = []
    for s in stmts:
        if s[0] != "deb":
            continue
        v = s[1]
        if v[0] == "const":
            vals.append(v[1])
        elif v[0] == "fold":
            vals.append(v[1] * 2 + 1)
        elif v[0] == "par":
            x = {**c["defaults"], **c["bound"], **c["bound2"]}.get(v[1])
            ok = v[1] not in re_ and type(x) is int and v[1] in params_of(c)
            vals.append(x if ok else None)
        elif v[0] == "clo":
            x = c["clos"].get(v[1])
            vals.append(x if type(x) is int and v[1] not in re_ else None)
        else:
            vals.append(None)
    deb = vals[0] if vals and all(v is not None and v == vals[0] for v in vals) else None
    return pd, sp, deb, bool(vals)


def params_of(c):
    return [*c["before"], *c["after"], *c["kwonly"]]


def run_detect(c, rec):
    src = source(c)
    log = []
    it = [0]

    def once():
        it[0] += 1
        return it[0] % 2 == 1 and it[0] < 8
    # several rounds with other branches, so that most statements get executed
    cond = [True, 5, 1, once, 3]
    ns = {"LOG": log, "COND": cond, "OTHER": Any_(), "use": lambda *a, **k: Any_(), "GLOBAL_MS": 9, "print": lambda *a, **k: None}
    exec(compile(src, "<handler>", "exec"), ns)          # noqa: S102
    kw = {k: v for k, v in c["explicit"].items() if v is not None}
    how = c["how"]

    def finish(h):
        nonlocal kw
        for layer in c["layers"]:
            if layer == "deco":
                h = deco(h)
            elif layer == "partial":
                h = functools.partial(h, *[c["boundpos"][k] for k in c["before"]], **c["bound"])
            elif layer == "partial2":
                h = functools.partial(h, **c["bound2"])
        if how == "handler":
            eh = EventHandler(to_event_handler_function(h), kw.get("stop_propagation", False), kw.get("prevent_default", False), debounce=kw.get("debounce"), throttle=kw.get("throttle"))
        elif how == "raw":      # the function gets the list of arguments
            eh = EventHandler(h, kw.get("stop_propagation", False), kw.get("prevent_default", False), debounce=kw.get("debounce"), throttle=kw.get("throttle"))
        elif how == "event":
            eh = event_decorator(h, **kw)
        elif how == "event2":
            eh = event_decorator(**kw)(h)
        else:
            kw = {}
            eh = html.button({"onClick": h})["eventHandlers"]["onClick"]
        return eh
    eh = ns["make"](finish)
    pd, sp, deb, any_deb = expected(c)
    want = (pd or bool(kw.get("prevent_default")), sp or bool(kw.get("stop_propagation")), deb if deb is not None else kw.get("debounce"), kw.get("throttle"))
    got = (eh.prevent_default, eh.stop_propagation, eh.debounce, eh.throttle)
    if got != want:
        raise Violation(f"(preventDefault, stopPropagation, debounce, throttle) = {got}, the handler asks for {want}; explicit {kw}, layers {c['layers']}, {how}\n{src}")
    did = set()
    for cnd in (True, False):
        cond[0], cond[1] = cnd, 5 if cnd else 6
        del log[:]
        p = Probe({"value": 1})
        asyncio.run(eh.function(p if how == "raw" else [p]))
        if log != ["run"]:
            raise Violation(f"the handler ran {len(log)} times for one event\n{src}")
        for x in p.did:
            did.add(x if isinstance(x, str) else "deb")
            if isinstance(x, tuple) and deb is not None and x[1] != deb:
                raise Violation(f"debounce {deb} was reported, the handler assigned {x[1]}\n{src}")
    if ("pd" in did and not got[0]) or ("sp" in did and not got[1]):
        raise Violation(f"the handler really called {did}, reported {got}\n{src}")
    rec.nt(bool(did) and len(list(walk(c["body"]))) >= 2)
    rec.tag("form:" + c["form"], "how:" + how, *["layer:" + x for x in c["layers"]])
    if any_deb:
        rec.tag("debounce:" + ("resolved" if deb is not None else "ambiguous"))
    if any(s[0] == "capture" for s in walk(c["body"])):
        rec.tag("captured")


def gen_value(g, c):
    k = g.weighted([(4, "const"), (1, "fold"), (3, "par"), (2, "clo"), (3, "bad")])
    if k == "const":
        return ["const", g.pick([0, 5, 100, 100, 250, 300, 70000])]
    if k == "fold":
        return ["fold", g.pick([10, 50])]
    ps = [p for p in params_of(c)]
    if k == "par" and ps:
        return ["par", g.pick(ps)]
    if k == "clo" and c["clos"]:
        return ["clo", g.pick(sorted(c["clos"]))]
    return [g.pick(["str", "bool", "none", "glob", "call", "local", "binop", "float", "attr"])]


def gen_body(g, c, d, n):
    out = []
    for _ in range(n):
        k = g.weighted([(2, "pd"), (2, "sp"), (1.6, "deb"), (3, "noise"), (0.8, "capture"), (0.12, "names"), (0.12, "consts"), (0.3, "reassign"), (0.4, "capvar"), (0.2, "late"),
                        *([(0.8, "if"), (0.5, "for"), (0.4, "while"), (0.5, "try"), (0.4, "with"), (0.4, "match"), (0.3, "afor")] if d else [])])
        if k in ("pd", "sp"):
            out.append([k, g.i(0, len(PD_CTX) + 2)])
        elif k == "deb":
            out.append([k, gen_value(g, c), g.p(0.1)])
        elif k == "noise":
            out.append([k, g.i(0, len(NOISE) - 1)])
        elif k == "capture":
            out.append([k, g.i(0, len(CAPTURE) - 1)])
        elif k == "names":
            out.append([k, g.pick([0, 100]), g.pick([60, 130, 300])])
        elif k == "consts":
            out.append([k, g.pick([50, 260])])
        elif k == "late":
            out.append([k])
        elif k in ("reassign", "capvar"):
            ps = [*params_of(c), *sorted(c["clos"])]
            if ps:
                out.append([k, g.pick(ps)])
        else:
            out.append([k, g.i(0, 1), gen_body(g, c, d - 1, g.size(0, 3)), gen_body(g, c, d - 1, g.size(0, 2))])
    return out


def gen_detect(g):
    form = g.weighted([(4, "def"), (3, "async"), (1, "lambda"), (2, "method"), (1, "classmethod"), (1, "static"), (1.5, "callable")])
    layers = g.weighted([(5, []), (1, ["deco"]), (2, ["partial"]), (0.7, ["deco", "partial"]), (0.5, ["partial", "partial2"]), (0.7, ["partial", "deco", "partial2"])])
    if form == "lambda":
        layers = [x for x in layers if x != "deco"]
    if form == "callable":
        layers = [x for x in layers if x != "deco"]
    names = g.sample([*PARAMS, "extra"], 4)
    before, after, kwonly = [], [], []
    for p in names[: g.i(0, 3)]:
        r = g.random()
        if r < 0.3 and "partial" in layers:
            before.append(p)
        elif r < 0.65:
            after.append(p)
        else:
            kwonly.append(p)
    ints = [100, 250, 300, 0, 400, 12345]
    anyv = [*ints, *ints, "x", True, None, 1.5]
    defaults = {p: g.pick(anyv) for p in [*after, *kwonly]}
    c = {"form": form, "event": g.pick(["event", "e", "ev", "self_", "_", "data"]) if form != "x" else "event", "before": before, "after": after, "kwonly": kwonly, "defaults": defaults,
         "posonly": g.p(0.1), "clos": {k: g.pick(anyv) for k in g.some(CLOS)}, "layers": layers, "async": form in ("method", "callable", "static") and g.p(0.4), "ret": g.i(0, 2),
         "boundpos": {k: g.pick(anyv) for k in before}, "bound": {}, "bound2": {}, "how": g.pick(["handler", "raw", "event", "event2", "vdom"]),
         "explicit": {"stop_propagation": g.pick([None, True, False]), "prevent_default": g.pick([None, True, False]), "debounce": g.pick([None, 5, 999]), "throttle": g.pick([None, 20])}}
    if "partial" in layers:
        c["bound"] = {p: g.pick(anyv) for p in [*after, *kwonly] if g.p(0.4)}
    if "partial2" in layers:
        c["bound2"] = {p: g.pick(anyv) for p in [*after, *kwonly] if g.p(0.4)}
    c["body"] = gen_body(g, c, 0 if form == "lambda" else 2, g.size(0, 5))
    if c["event"] in ("_",):
        c["event"] = "event_"
    return c


def valid_detect(c):
    try:
        if c["form"] not in ("def", "async", "lambda", "method", "classmethod", "static", "callable") or c["event"] not in ("event", "e", "ev", "self_", "event_", "data"):
            return None
        ps = params_of(c)
        if len(set(ps)) != len(ps) or any(p not in (*PARAMS, "extra") for p in ps):
            return None
        if set(c["defaults"]) != {*c["after"], *c["kwonly"]} or set(c["boundpos"]) != set(c["before"]) or not set(c["bound"]) | set(c["bound2"]) <= {*c["after"], *c["kwonly"]} or c["bound2"] and "partial2" not in c["layers"]:
            return None
        if c["layers"] not in ([], ["deco"], ["partial"], ["deco", "partial"], ["partial", "partial2"], ["partial", "deco", "partial2"]) or "partial" not in c["layers"] and (c["before"] or c["bound"]):
            return None
        if c["form"] in ("callable", "lambda") and "deco" in c["layers"] or not set(c["clos"]) <= set(CLOS):
            return None
        for s in walk(c["body"]):
            if s[0] == "deb":
                v = s[1]
                if v[0] == "par" and v[1] not in ps or v[0] == "clo" and v[1] not in c["clos"] or v[0] in ("const", "fold") and type(v[1]) is not int:
                    return None
                value_src(v)
            if s[0] in ("reassign", "capvar") and s[1] not in ps and s[1] not in c["clos"]:
                return None
        compile(source(c), "x", "exec")
        return c
    except (KeyError, TypeError, SyntaxError, IndexError, ValueError, AttributeError):
        return None


# ------------------------------------------------------------------ callables get their data

def run_wrap(c, rec):
    log = []

    def rec_sync(*a, **k):
        log.append([list(a), k])

    async def rec_async(*a, **k):
        for _ in range(c["yields"]):
            await asyncio.sleep(0)
        log.append([list(a), k])

    class Obj:
        def __call__(self, *a):
            rec_sync(*a)

        def m(self, *a):
            rec_sync(*a)

        async def am(self, *a):
            await rec_async(*a)

        @classmethod
        def cm(cls, *a):
            rec_sync(*a)

        @staticmethod
        async def sm(*a):
            await rec_async(*a)

    class AObj:
        async def __call__(self, *a):
            await rec_async(*a)

    class Cls:
        def __init__(self, *a):
            rec_sync(*a)

        async def __call__(self, *a):
            raise AssertionError

    lst = []
    pre, kw = [], {}
    k = c["kind"]
    f = {"sync": rec_sync, "async": rec_async, "lambda": lambda *a: rec_sync(*a), "obj": Obj(), "aobj": AObj(), "method": Obj().m, "amethod": Obj().am, "cm": Obj.cm, "sm": Obj.sm, "class": Cls,
         "builtin": lst.append, "deco": deco(rec_sync), "adeco": deco(rec_async)}[k]
    if k == "builtin" and c["positional"]:
        data = c["data"][:1] or [1]
    else:
        data = c["data"]
        for i in range(c["partials"]):
            pre = [*pre, i]
            f = functools.partial(f, i)
            if k in ("sync", "async"):
                f = functools.partial(f, key=i)
                kw = {"key": i}
    before = json.dumps(data)
    if c["handler"]:
        h = EventHandler(to_event_handler_function(f, True) if c["positional"] else f)
        fn = h.function
        if (h.prevent_default, h.stop_propagation, h.debounce) != (False, False, None):
            raise Violation(f"a handler that asks for nothing reports {h}")
    else:
        fn = to_event_handler_function(f, positional_args=c["positional"])
    for n in range(2):
        asyncio.run(fn(data))
        args = list(data) if c["positional"] else [data]
        got = [[[x], {}] for x in lst] if k == "builtin" else log
        want = [[[*pre, *args], kw]] * (n + 1)
        if got != want:
            raise Violation(f"{k}: called with {got}, the event data is {data!r} (positional={c['positional']}, bound {pre} {kw})")
    if json.dumps(data) != before:
        raise Violation("the event data was modified")
    rec.nt()
    rec.tag(k)


KINDS = ["sync", "async", "lambda", "obj", "aobj", "method", "amethod", "cm", "sm", "class", "builtin", "deco", "adeco"]


def gen_wrap(g):
    k = g.pick(KINDS)
    return {"kind": k, "positional": g.p(0.6), "data": [g.pick([1, "x", None, {"a": [1]}, []]) for _ in range(g.i(0, 3))], "partials": 0 if k == "builtin" else g.pick([0, 0, 1, 2]), "yields": g.i(0, 2), "handler": g.p(0.5)}


def valid_wrap(c):
    try:
        return c if c["kind"] in KINDS and 0 <= c["partials"] <= 2 and 0 <= c["yields"] <= 3 and isinstance(c["data"], list) and not (c["kind"] == "builtin" and c["partials"]) else None
    except (KeyError, TypeError):
        return None


# ------------------------------------------------------------------ merging

def run_merge(c, rec):
    log = []
    hs = []
    same = []
    for i, h in enumerate(c["handlers"]):
        if h.get("same") and hs:
            hs.append(hs[-1])            # the same handler may be given twice
            same.append(same[-1])
            continue

        def make(i=i, h=h):
            if h["async"]:
                async def f(data):
                    log.append((i, "start", data))
                    for _ in range(h["yields"]):
                        await asyncio.sleep(0)
                    log.append((i, "end", data))
            else:
                def f(data):
                    log.append((i, "start", data))
                    log.append((i, "end", data))
            return f
        o = h["opts"]
        hs.append(EventHandler(make(), o["sp"], o["pd"], o["target"], o["debounce"], o["throttle"]))
        same.append(i)
    opts = [(h.stop_propagation, h.prevent_default, h.target, h.debounce, h.throttle) for h in hs]
    differ = any(o != opts[0] for o in opts)
    snapshot = [repr(h) for h in hs]
    try:
        m = merge_event_handlers(tuple(hs) if c["tuple"] else hs)
    except ValueError:
        if hs and not differ:
            raise Violation(f"handlers with the same options {opts[0]} were refused") from None
        rec.nt(len(hs) > 1)
        rec.tag("refused")
        return
    if differ:
        raise Violation(f"handlers with different options were merged: {opts}")
    if not hs:
        raise Violation("merging no handlers gave a handler")
    if (m.stop_propagation, m.prevent_default, m.target, m.debounce, m.throttle) != opts[0]:
        raise Violation(f"merged handler has {m!r}, its parts have {opts[0]}")
    if [repr(h) for h in hs] != snapshot:
        raise Violation("merging modified its parts")
    data = [{"x": 1}]
    for n in range(1, c["runs"] + 1):
        asyncio.run(m.function(data))
        for i in set(same):
            want = n * same.count(i)
            for ph in ("start", "end"):
                got = [e for e in log if e[0] == i and e[1] == ph]
                if len(got) != want or any(e[2] is not data for e in got):
                    raise Violation(f"handler {i} of {same} was run {len(got)} times ({ph}) after {n} events, data as given: {all(e[2] is data for e in got)}")
    rec.nt(len(hs) > 1)
    rec.tag("merged", "async" if any(h["async"] for h in c["handlers"]) else "sync")


def gen_merge(g):
    def o():
        return {"sp": g.p(0.5), "pd": g.p(0.5), "target": g.pick([None, "t"]), "debounce": g.pick([None, 0, 5]), "throttle": g.pick([None, 0, 7])}
    base = o()
    hs = []
    for _ in range(g.size(0, 6)):
        op = dict(base)
        if g.p(0.12):
            k = g.pick(sorted(op))
            op[k] = o()[k]
        hs.append({"opts": op, "async": g.p(0.6), "yields": g.i(0, 3), **({"same": True} if g.p(0.1) else {})})
    return {"handlers": hs, "tuple": g.p(0.3), "runs": g.i(1, 3)}


def valid_merge(c):
    try:
        for h in c["handlers"]:
            o = h["opts"]
            if set(o) != {"sp", "pd", "target", "debounce", "throttle"} or not isinstance(o["sp"], bool) or not isinstance(o["pd"], bool) or not isinstance(h["yields"], int):
                return None
            if any(not (o[k] is None or type(o[k]) is int) for k in ("debounce", "throttle")):
                return None
            h["async"]
        return c if c["runs"] in (1, 2, 3) and "tuple" in c else None
    except (KeyError, TypeError):
        return None


SUBS = [
    Sub("detect", gen=gen_detect, valid=valid_detect, run=run_detect, quick=36000, thorough=200000, shards=7,
        rule="generated handler programs in every supported form, with calls and assignments in nested control flow and expression positions between look-alikes; "
             "non-trivial = the handler really makes a call or assignment when run and has at least two statements"),
    Sub("wrap", gen=gen_wrap, valid=valid_wrap, run=run_wrap, quick=9000, thorough=30000, shards=2, rule="every kind of callable with every argument style"),
    Sub("merge", gen=gen_merge, valid=valid_merge, run=run_merge, quick=9000, thorough=30000, shards=2, rule="at least two handlers"),
]
