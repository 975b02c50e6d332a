"""C30: what is no longer shown is released - histories that come back to where they started must not leave anything behind"""
import asyncio
import collections
import gc
import json
import logging
import sys
import types
import warnings
import weakref
from array import array

from reactpy import component, create_context, html
from reactpy.config import REACTPY_ASYNC_RENDERING
from reactpy.core.events import event
from reactpy.core.hooks import use_async_effect, use_callback, use_connection, use_context, use_effect, use_location, use_memo, use_reducer, use_ref, use_scope, use_state
from reactpy.core.layout import Layout
from reactpy.executors.asgi import ReactPy, ReactPyMiddleware

import asgi as A
import vloop
import world as W
from lib import Sub, Violation

warnings.simplefilter("ignore")
logging.getLogger("reactpy").setLevel(logging.CRITICAL)
PROPERTY = "C30"
ASSUMPTIONS = ["effects end when they are cancelled", "an idle layout was given the time its timers need", "a cycle of operations that ends in the view it started from is repeated; memory may vary but not rise in every repetition"]
WARM, ROUNDS = 3, 6
HOOKS = ["effect", "effect-dep", "effect-once", "effect-cleanup", "async", "async-dep", "async-hang", "async-cleanup", "async-shield", "memo", "memo-once", "callback", "reducer", "ref", "context", "effect-boom", "tick"]
WRAPS = ["div", "provider", "child", "fragment", "input"]
EVENTS = ["plain", "async", "slow", "boom", "set"]
CTX = create_context(None)


class Token:
    """stands for whatever the author's values, closures and effects hold on to"""
    __slots__ = ("__weakref__", "inst", "what")
    alive = weakref.WeakSet()

    def __init__(self, inst, what):
        self.inst, self.what = inst, what
        Token.alive.add(self)


class Page:
    def __init__(self, case):
        self.case = case
        self.count = 0
        self.items = []                       # (key, kind) as shown
        self.sets = {}
        self.failing = set()
        self.turned = False
        self.seq = 0
        self.doc = {}
        self.shown = {}
        page = self

        @component
        def Item(key_, kind):
            return page.item(key_, case["kinds"][kind])

        @component
        def Leaf(tok):
            v, _ = use_state(lambda: Token(tok.inst, "leaf"))
            use_effect(lambda: (lambda: v), [])
            use_context(CTX)
            return html.i({"onClick": lambda e: v}, "leaf")
        self.Leaf = Leaf

        @component
        def Root():
            _, page.set_root = use_state(0)
            items = page.items[::-1] if page.turned else page.items
            return html.main(*[Item(k, n, key=k) if page.case["keyed"] else Item(k, n) for k, n in items])
        self.Root = Root

    def item(self, name, kind):
        page = self
        inst = use_ref(None)
        if inst.current is None:
            page.count += 1
            inst.current = page.count
        me = inst.current
        tok = Token(me, "render")
        v, set_v = use_state(lambda: Token(me, "state"))
        page.sets[name] = lambda: set_v(Token(me, "state"))
        for n, h in enumerate(kind["hooks"]):
            self.hook(h, me, v, tok)
        if name in page.failing:
            raise RuntimeError("failing")
        handlers = {}
        for n, h in enumerate(kind["events"]):
            handlers[("onClick", "onChange", "onKeyDown", "onBlur")[n]] = self.handler(h, tok, set_v, me)
        at = {"data-inst": str(me), "data-name": str(name), **handlers}
        w = kind["wrap"]
        if w == "input":
            return html.input({**at, "value": str(me)})
        if w == "provider":
            return CTX(html.div(at, self.Leaf(tok)), value=tok)
        if w == "child":
            return html.div(at, self.Leaf(tok), self.Leaf(tok))
        if w == "fragment":
            return html.fragment(html.div(at), "text", self.Leaf(tok))
        return html.div(at)

    def hook(self, h, me, v, tok):
        if h == "effect":
            use_effect(lambda: tok and None, None)
        elif h == "effect-dep":
            use_effect(lambda: tok and None, [v])
        elif h == "effect-once":
            use_effect(lambda: tok and None, [])
        elif h == "effect-cleanup":
            use_effect(lambda: (lambda: tok), [v])
        elif h == "effect-boom":
            @use_effect(dependencies=[v])
            def _():
                raise RuntimeError(tok.what)
        elif h.startswith("async"):
            async def run():
                await asyncio.sleep(0)
                if h == "async-hang":
                    await asyncio.Event().wait()
                if h == "async-shield":
                    await asyncio.sleep(0.01)
                return (lambda: tok) if h == "async-cleanup" else None
            use_async_effect(run, None if h == "async" else [v], shield=h == "async-shield")
        elif h == "tick":
            n, set_n = use_state(0)
            use_effect(lambda: (tok, set_n(1))[2:] and None, [])
        elif h == "memo":
            use_memo(lambda: Token(me, "memo"), [v])
        elif h == "memo-once":
            use_memo(lambda: Token(me, "memo"), [])
        elif h == "callback":
            use_callback(lambda: tok, [v])
        elif h == "reducer":
            s, d = use_reducer(lambda s, a: a, Token(me, "reducer"))
        elif h == "ref":
            r = use_ref(None)
            r.current = Token(me, "ref")
        elif h == "context":
            use_context(CTX)

    def handler(self, h, tok, set_v, me):
        if h == "plain":
            return lambda e: tok and None
        if h == "set":
            return lambda e: set_v(Token(me, "state"))
        if h == "boom":
            def boom(e):
                raise RuntimeError(tok.what)
            return boom
        if h == "async":
            @event(prevent_default=True)
            async def f(e):
                await asyncio.sleep(0)
                return tok
            return f

        async def slow(e):
            await asyncio.sleep(0.05)
            return tok
        return slow

    # ------------------------------------------------------ operations
    def add(self, kind):
        self.count += 1
        self.items.append((f"k{self.count}", kind % len(self.case["kinds"])))
        self.set_root(object())

    def targets(self, name=None, doc=None):
        out = []
        for n in W.walk(self.doc if doc is None else doc):
            if name is None or (n.get("attributes") or {}).get("data-name") == str(name):
                out += [(h["target"], k, n["tagName"]) for k, h in (n.get("eventHandlers") or {}).items()]
        return out

    async def do(self, op, layout, base):
        k, i = op[0], op[1] if len(op) > 1 else 0
        name = self.items[i % len(self.items)][0] if self.items else None
        if k == "add":
            self.add(i)
        elif k == "root":
            self.set_root(object())
        elif k == "swap":
            self.turned = not self.turned
            self.set_root(object())
        elif k == "unknown":
            self.seq += 1
            await layout.deliver({"type": "layout-event", "target": f"#{i}/'nowhere{self.seq}':onClick", "data": [{}]})
        elif name is None:
            return
        elif k == "set":
            self.sets.get(name, int)()
        elif k == "fail":
            self.failing ^= {name}
            self.sets.get(name, int)()
            self.set_root(object())
        elif k == "remove":
            late = self.targets(name)
            if i % len(self.items) >= base:
                self.items.pop(i % len(self.items))
                self.failing.discard(name)
                self.sets.pop(name, None)
                self.set_root(object())
                if op[2]:
                    # events that the browser sent before it heard of the removal
                    for t, _, _ in late:
                        await layout.deliver({"type": "layout-event", "target": t, "data": [{"late": 1}]})
        elif k == "event":
            for t, e, tag in self.targets(name if op[2] else None)[: 1 + op[3]]:
                self.seq += 1
                await layout.deliver({"type": "layout-event", "target": t, "data": [{"n": {"m": 1}}], **({"seq": self.seq} if tag == "input" else {})})

    def restore(self, base):
        for name, _ in self.items[base:]:
            self.sets.pop(name, None)
        del self.items[base:]
        self.turned = False
        for name in self.failing:
            if name in self.sets:
                self.sets.get(name, int)()
        self.failing.clear()
        self.set_root(object())


def pump(page, layout):
    async def run():
        while True:
            page.doc = W.apply_update(page.doc, json.loads(json.dumps(await layout.render())))
    return asyncio.ensure_future(run())


SIZED = (dict, list, set, collections.deque, collections.OrderedDict, collections.defaultdict, collections.Counter, weakref.WeakSet, weakref.WeakValueDictionary, weakref.WeakKeyDictionary)
PERMANENT = None


def sized(objs):
    """the containers among the objects and what they refer to (small dictionaries are not always tracked)"""
    out = {id(o): o for o in objs if type(o) in SIZED}
    for o in objs:
        if type(o) not in (dict, list, set, tuple, type(sized), type(weakref)):
            for x in gc.get_referents(o):
                if type(x) in SIZED:
                    out[id(x)] = x
    return out


def freeze():
    """everything that is there now is not counted again, but may not become larger"""
    global PERMANENT
    gc.collect()
    gc.disable()
    if PERMANENT is None:
        PERMANENT = list(sized([o for o in gc.get_objects()]).values())
        PERMANENT.append(PERMANENT)
    gc.freeze()


def thaw():
    gc.unfreeze()
    gc.enable()


def measure():
    """how many objects there are, and how many elements they hold"""
    gc.collect()
    gc.collect()
    objs = gc.get_objects()
    return len(objs), sum(len(o) for o in sized(objs).values()) + sum(len(o) for o in PERMANENT)


def left_over(mounted):
    return sorted({(t.inst, t.what) for t in Token.alive if t.inst not in mounted})


def rising(values):
    return all(b > a for a, b in zip(values, values[1:]))


def describe(before):
    """what there is more of than before"""
    now = {}
    for o in gc.get_objects():
        n = type(o).__qualname__
        now[n] = now.get(n, 0) + 1
    return now, {k: v - before.get(k, 0) for k, v in now.items() if v > before.get(k, 0)}


def run_layout(case, rec):
    saved = REACTPY_ASYNC_RENDERING.current
    REACTPY_ASYNC_RENDERING.current = case["async"]
    freeze()
    try:
        vloop.run(layout_session, case, rec)
        gc.collect()
        if left_over(()):
            raise Violation(f"of a layout that was closed these are left: {left_over(())}")
    finally:
        thaw()
        Token.alive.clear()
        REACTPY_ASYNC_RENDERING.current = saved


async def layout_session(loop, case, rec):
    page = Page(case)
    page.items = []
    objects, elements = array("q", [0] * (WARM + ROUNDS)), array("q", [0] * (WARM + ROUNDS))
    async with Layout(page.Root()) as layout:
        task = pump(page, layout)
        await loop.settle()
        for k in case["base"]:
            page.add(k)
        await loop.settle()
        base = len(page.items)
        kinds = {}
        for r in range(WARM + ROUNDS):
            for op in case["ops"]:
                await page.do(op, layout, base)
                if op[-1] is not False:
                    await loop.settle()
            page.restore(base)
            await loop.settle()
            if task.done():
                raise Violation(f"rendering failed: {task.exception()!r}")
            loop.exceptions.clear()
            page.sets = {k: page.sets[k] for k, _ in page.items}
            mounted = {int(x["attributes"]["data-inst"]) for x in W.walk(page.doc) if "data-inst" in (x.get("attributes") or {})}
            if len(mounted) != base:
                raise Violation(f"round {r} ended with {len(mounted)} of {base} items")
            objects[r], elements[r] = measure()
            left = left_over(mounted)
            if left:
                raise Violation(f"after round {r} of {case['ops']} the page shows {sorted(mounted)}, but these of removed components are left: {left}")
            if r == WARM:
                kinds, _ = describe({})
        for what, values in (("objects", objects[WARM:].tolist()), ("elements of containers", elements[WARM:].tolist())):
            if rising(values):
                raise Violation(f"each time after {case['ops']} there are more {what}: {values}; {describe(kinds)[1]}")
        task.cancel()
    rec.nt(any(o[0] in ("add", "set", "event", "root") for o in case["ops"]) and bool(case["kinds"]))
    rec.tag(*{o[0] for o in case["ops"]}, "async" if case["async"] else "serial")


def gen_kind(g):
    return {"hooks": [g.pick(HOOKS) for _ in range(g.size(0, 4))], "events": [g.pick(EVENTS) for _ in range(g.i(0, 3))], "wrap": g.pick(WRAPS)}


def gen_op(g):
    k = g.weighted([(4, "add"), (3, "set"), (2, "root"), (3, "remove"), (4, "event"), (1, "fail"), (1, "swap"), (1, "unknown")])
    settle = g.p(0.8)
    if k in ("add", "set", "fail", "unknown"):
        return [k, g.i(0, 5), settle]
    if k == "remove":
        return [k, g.i(0, 5), g.p(0.4), settle]
    if k == "event":
        return [k, g.i(0, 5), g.p(0.7), g.i(0, 3), settle]
    return [k, settle]


def gen_layout(g):
    return {"async": g.p(0.5), "keyed": g.p(0.8), "kinds": [gen_kind(g) for _ in range(g.i(1, 3))], "base": [g.i(0, 2) for _ in range(g.i(0, 2))], "ops": [gen_op(g) for _ in range(g.size(1, 6))]}


LENGTHS = {"add": 3, "set": 3, "fail": 3, "unknown": 3, "remove": 4, "event": 5, "root": 2, "swap": 2}


def valid_layout(c):
    try:
        if not c["kinds"] or not c["ops"] or type(c["async"]) is not bool or type(c["keyed"]) is not bool or len(c["kinds"]) > 4:
            return None
        for k in c["kinds"]:
            if set(k["hooks"]) - set(HOOKS) or set(k["events"]) - set(EVENTS) or len(k["events"]) > 4 or k["wrap"] not in WRAPS:
                return None
        for o in c["ops"]:
            if len(o) != LENGTHS[o[0]] or type(o[-1]) is not bool or any(type(x) not in (int, bool) or x < 0 for x in o[1:]):
                return None
        if any(type(b) is not int or b < 0 for b in c["base"]):
            return None
        return c
    except (KeyError, TypeError, AttributeError, IndexError):
        return None


# ---------------------------------------------------------------- connections and requests of an application
MOD = types.ModuleType("verif_c30_mod")
sys.modules["verif_c30_mod"] = MOD
RAW = ["{", "null", "{}", '{"type": "other"}', '{"type": "layout-event", "target": "zzz", "data": []}', '{"type": "layout-event"}']
HTTP = ["page", "head", "cached", "static", "no-static", "no-module", "route", "no-route", "post"]
ENDS = ["disconnect", "gone", "cancel", "refused", "early", "deaf"]
PATHS = ["/reactpy/verif_c30_mod.Conn/", "/reactpy/verif_c30_mod.Other/", "/reactpy/verif_c30_mod.Missing/", "/reactpy/", "/ws-route", "/elsewhere"]


class Peer:
    """a browser at the other end of one connection"""
    def __init__(self, app, path, n, page, early):
        self.n, self.inq, self.doc, self.deaf = n, asyncio.Queue(), {}, False
        self.scope = A.ws_scope(path, query=f"path=%2Fat%2F{n}&qs=%3Fq%3D{n}".encode(), headers=[(b"cookie", b"n=%d" % n)])
        self.scope["x-sid"], self.scope["x-token"] = n, Token(n, "scope")
        self.inq.put_nowait({"type": "websocket.connect"} if not early else {"type": "websocket.disconnect", "code": 1006} if early == "early" else OSError("refused"))
        self.task = asyncio.ensure_future(app(self.scope, self.receive, self.send))

    async def receive(self):
        m = await self.inq.get()
        if isinstance(m, Exception):
            raise m
        return m

    async def send(self, m):
        if self.deaf:
            raise OSError("gone")
        if m["type"] == "websocket.send" and m.get("text"):
            self.doc = W.apply_update(self.doc, json.loads(m["text"]))


async def user_app(scope, receive, send):
    if scope["type"] == "http":
        await send({"type": "http.response.start", "status": 200, "headers": []})
        await send({"type": "http.response.body", "body": b"own"})


def make_app(case, page):
    @component
    def Conn():
        scope, loc = use_scope(), use_location()
        conn = use_connection()
        use_effect(lambda: (lambda: (conn, loc)), [])
        return html.main(page.item(scope["x-sid"], case["kinds"][scope["x-sid"] % len(case["kinds"])]))

    @component
    def Other():
        scope = use_scope()
        tok = Token(scope["x-sid"], "other")
        return html.p({"onClick": lambda e: tok}, "other")
    MOD.Conn, MOD.Other = Conn, Other
    if case["app"] == "middleware":
        return ReactPyMiddleware(user_app, ["verif_c30_mod.Conn", "verif_c30_mod.Other"])
    app = ReactPy(Conn)
    app.route("/ws-route", type="websocket")(user_app)
    app.route("/own/.*")(user_app)
    return app


async def http(app, what, n):
    path, method, headers, query = "/", "GET", [(b"x-n", b"%d" % n)], b"n=%d" % n
    if what == "head":
        method = "HEAD"
    elif what == "post":
        method = "POST"
    elif what == "cached":
        headers.append((b"if-none-match", b'"%d"' % n))
    elif what == "static":
        path = "/reactpy/static/index.js"
    elif what == "no-static":
        path = f"/reactpy/static/none-{n}.js"
    elif what == "no-module":
        path = f"/reactpy/modules/none-{n}.js"
    elif what == "route":
        path = f"/own/{n}"
    elif what == "no-route":
        path = f"/page/{n}"
    scope = A.http_scope(path, method, headers, query)
    scope["x-token"] = Token(n, "request")
    try:
        await A.request(app, scope)
    except Exception:
        pass


def run_sessions(case, rec):
    with A.config_restored():
        REACTPY_ASYNC_RENDERING.current = case["async"]
        freeze()
        try:
            vloop.run(app_session, case, rec)
            MOD.__dict__.pop("Conn"), MOD.__dict__.pop("Other")
            gc.collect()
            if left_over(()):
                raise Violation(f"of an application that is gone these are left: {left_over(())}")
        finally:
            MOD.__dict__.pop("Conn", None)
            MOD.__dict__.pop("Other", None)
            thaw()
            Token.alive.clear()


async def app_session(loop, case, rec):
    page = Page(case)
    app = make_app(case, page)
    serial, steady = 0, []
    standalone = case["app"] == "standalone"

    def connect(path, early=None):
        nonlocal serial
        serial += 1
        # (instances of components have other numbers than connections)
        return Peer(app, "/reactpy/" if standalone and path < 3 else PATHS[path], 10_000 + serial, page, early)
    objects, elements = array("q", [0] * (WARM + ROUNDS)), array("q", [0] * (WARM + ROUNDS))
    for _ in range(case["steady"]):
        steady.append(connect(0))
    await loop.settle()
    kinds, sent = {}, 0
    for r in range(WARM + ROUNDS):
        peers = []
        for op in case["ops"]:
            k = op[0]
            every = steady + peers
            if k == "open":
                peers.append(connect(op[1] % len(PATHS), op[2]))
            elif k == "http":
                serial += 1
                await http(app, op[1], 10_000 + serial)
            elif every:
                p = every[op[1] % len(every)]
                if k == "event":
                    for t, e, tag in page.targets(doc=p.doc)[: 1 + op[2]]:
                        sent += 1
                        p.inq.put_nowait({"type": "websocket.receive", "text": json.dumps({"type": "layout-event", "target": t, "data": [{"n": sent}], **({"seq": sent} if tag == "input" else {})})})
                elif k == "raw" and p not in steady:
                    p.inq.put_nowait({"type": "websocket.receive", "text": RAW[op[2]]})
                elif k == "set":
                    page.sets.get(p.n, int)()
                elif k == "fail":
                    page.failing ^= {p.n}
                    page.sets.get(p.n, int)()
                elif k == "end" and p not in steady:
                    end(p, op[2])
                p = None
            every = None
            if op[-1] is not False:
                await loop.settle()
        for p in peers:
            end(p, "disconnect")
        for p in steady:
            if p.n in page.failing:
                page.failing.discard(p.n)
                page.sets.get(p.n, int)()
        page.failing.clear()
        await loop.settle()
        for p in peers:
            if not p.task.done():
                raise Violation(f"in round {r} of {case['ops']} a connection does not end")
            if not p.task.cancelled():
                p.task.exception()
        for p in steady:
            if p.task.done():
                raise Violation(f"a connection ended by itself: {p.task!r}")
            p.doc = dict(p.doc)
        p = peers = None
        loop.exceptions.clear()
        page.sets = {p.n: page.sets[p.n] for p in steady if p.n in page.sets}
        p = None
        mounted = {int(x["attributes"]["data-inst"]) for p in steady for x in W.walk(p.doc) if "data-inst" in (x.get("attributes") or {})} | {p.n for p in steady}
        objects[r], elements[r] = measure()
        left = left_over(mounted)
        if left:
            raise Violation(f"after round {r} of {case['ops']} only {len(steady)} connections are open, but these are left of others: {left}")
        if r == WARM:
            kinds, _ = describe({})
    for what, values in (("objects", objects[WARM:].tolist()), ("elements of containers", elements[WARM:].tolist())):
        if rising(values):
            raise Violation(f"each time after {case['ops']} there are more {what}: {values}; {describe(kinds)[1]}")
    for p in steady:
        end(p, "disconnect")
    await loop.settle()
    rec.nt(any(o[0] in ("open", "http") or o[0] == "event" and case["steady"] for o in case["ops"]))
    rec.tag(*{o[0] for o in case["ops"]}, *{"http:" + o[1] for o in case["ops"] if o[0] == "http"}, *{"end:" + o[2] for o in case["ops"] if o[0] == "end"}, case["app"])


def end(p, how):
    if p.task.done():
        return
    if how == "cancel":
        p.task.cancel()
    elif how == "gone":
        p.inq.put_nowait(ConnectionResetError("gone"))
    elif how == "deaf":
        p.deaf = True
    else:
        p.inq.put_nowait({"type": "websocket.disconnect", "code": 1001})


def gen_session_op(g):
    k = g.weighted([(5, "open"), (3, "http"), (3, "event"), (1, "raw"), (2, "set"), (1, "fail"), (3, "end")])
    settle = g.p(0.75)
    if k == "open":
        return [k, g.weighted([(6, 0), (2, 1), (1, 2), (1, 3), (1, 4), (1, 5)]), g.weighted([(8, None), (1, "early"), (1, "refused")]), settle]
    if k == "http":
        return [k, g.pick(HTTP), settle]
    if k == "event":
        return [k, g.i(0, 5), g.i(0, 3), settle]
    if k == "raw":
        return [k, g.i(0, 5), g.i(0, len(RAW) - 1), settle]
    if k == "end":
        return [k, g.i(0, 5), g.pick(["disconnect", "gone", "cancel", "deaf"]), settle]
    return [k, g.i(0, 5), settle]


def gen_sessions(g):
    return {"app": g.pick(["standalone", "middleware"]), "async": g.p(0.5), "keyed": True, "kinds": [gen_kind(g) for _ in range(g.i(1, 3))], "steady": g.i(0, 2), "ops": [gen_session_op(g) for _ in range(g.size(1, 7))]}


S_LENGTHS = {"open": 4, "http": 3, "event": 4, "raw": 4, "set": 3, "fail": 3, "end": 4}


def valid_sessions(c):
    try:
        if c["app"] not in ("standalone", "middleware") or type(c["async"]) is not bool or type(c["steady"]) is not int or not 0 <= c["steady"] <= 3 or not c["ops"] or not 1 <= len(c["kinds"]) <= 4:
            return None
        c["keyed"] = True
        for k in c["kinds"]:
            if set(k["hooks"]) - set(HOOKS) or set(k["events"]) - set(EVENTS) or len(k["events"]) > 4 or k["wrap"] not in WRAPS:
                return None
        for o in c["ops"]:
            if len(o) != S_LENGTHS[o[0]] or type(o[-1]) is not bool:
                return None
            if o[0] != "http" and (type(o[1]) is not int or o[1] < 0) or o[0] == "http" and o[1] not in HTTP or o[0] == "open" and o[2] not in (None, "early", "refused"):
                return None
            if o[0] == "end" and o[2] not in ("disconnect", "gone", "cancel", "deaf") or o[0] == "raw" and not 0 <= o[2] < len(RAW) or o[0] == "event" and not 0 <= o[2] < 9:
                return None
        return c
    except (KeyError, TypeError, AttributeError, IndexError):
        return None


SUBS = [
    Sub("layout", gen=gen_layout, valid=valid_layout, run=run_layout, quick=4000, thorough=60000, shards=6,
        rule="cycles of additions, removals, state changes, events, failures in one layout that end where they began, repeated nine times; non-trivial = components and a change of them"),
    Sub("sessions", gen=gen_sessions, valid=valid_sessions, run=run_sessions, quick=3000, thorough=50000, shards=6,
        rule="cycles of connections, their messages and ends, and of requests to one application; non-trivial = connections or requests"),
]
