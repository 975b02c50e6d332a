import asyncio
import json
import sys
import types

from reactpy import component, html, use_connection, use_location, use_scope
from reactpy.config import REACTPY_ASYNC_RENDERING, REACTPY_MAX_QUEUE_SIZE
from reactpy.core.hooks import use_async_effect, use_effect, use_ref, use_state
from reactpy.executors.asgi.middleware import ReactPyMiddleware
from reactpy.executors.asgi.standalone import ReactPy

import asgi as A
import vloop
import world as W
from lib import Sub, Violation

PROPERTY = "C17"
ASSUMPTIONS = ["one event loop with virtual time; thread hand-offs (logging) happen at once", "handlers and effects end when they are cancelled (with whatever outcome)",
               "after a layout event without a usable target the session may either go on or stop, but has to end with its connection"]

WORLD = None
BUTTONS = ["add", "add2", "slow", "boom", "kid0", "kid1", "crash", "hang"]


class Session:
    def __init__(self, sid, spec):
        self.sid, self.spec = sid, spec
        self.inq = asyncio.Queue()
        self.frames = []
        self.sent = 0
        self.state = "new"           # what the server did: accepted / closed
        self.gone = False            # the client is away
        self.broken = False          # a send failed
        self.blocked = False
        self.doc = None
        self.task = None
        self.healthy = spec["comp"] == "ok" and spec["first"] == "connect"
        self.ended = None            # how the connection ended
        self.effects = []            # (instance, name, +1 / -1)
        self.left = None             # effects that were active when the application returned
        self.applied = {b: [] for b in BUTTONS}
        self.posted = {b: [] for b in BUTTONS}
        self.log = []
        self.kids = {}
        self.ticks = 0
        self.instances = 0
        self.scope = None
        self.carriers = []
        self.last_seq = {}
        self.seq = 0

    def fail(self, msg):
        raise Violation(f"connection {self.sid} ({self.spec['comp']}): {msg}")

    async def receive(self):
        if self.spec["slow_recv"]:
            await asyncio.sleep(0)
        m = await self.inq.get()
        if isinstance(m, BaseException):
            raise m
        if m["type"] == "websocket.disconnect":
            self.gone = True
        return m

    async def send(self, m):
        if self.spec["lag"]:
            await asyncio.sleep(self.spec["lag"])
        n = self.sent
        self.sent += 1
        if self.spec["fail_at"] is not None and n >= self.spec["fail_at"]:
            self.broken = True
            self.healthy = False
            raise OSError("transport failed")
        if self.spec["block_at"] is not None and n >= self.spec["block_at"] and m["type"] == "websocket.send":
            self.blocked = True
            self.healthy = False
            await asyncio.Event().wait()
        if self.gone and self.spec["strict"]:
            raise RuntimeError("websocket is closed")
        t = m["type"]
        if t == "websocket.accept":
            if self.state != "new":
                self.fail("accepted twice")
            self.state = "accepted"
        elif t == "websocket.close":
            if self.state == "closed":
                self.fail("closed twice")
            self.state = "closed"
        elif t == "websocket.send":
            if self.state != "accepted":
                self.fail(f"a frame was sent while the connection is {self.state}")
            if not isinstance(m.get("text"), str):
                self.fail(f"frame {m!r:.200}")
            if self.ended and not self.gone and WORLD.settled_since(self):
                self.fail("an update was sent after the session ended")
            self.frames.append(m["text"])
            msg = json.loads(m["text"])
            if msg.get("type") != "layout-update":
                self.fail(f"frame {m['text'][:200]}")
            if self.doc is None and msg["path"] != "":
                self.fail("the first update does not give the whole document")
            self.doc = W.apply_update(self.doc, msg)
            self.see(msg["model"])
        else:
            self.fail(f"message {t}")

    def see(self, model):
        for n in W.walk(model):
            a = n.get("attributes") or {}
            if "data-sid" in a and a["data-sid"] != self.sid:
                self.fail(f"was sent content of connection {a['data-sid']}")
            if "data-seq" in a:
                who = a["data-who"]
                if a["data-seq"] < self.last_seq.get(who, 0):
                    self.fail(f"update {a['data-seq']} of {who} arrived after update {self.last_seq[who]}")
                self.last_seq[who] = a["data-seq"]

    def nodes(self):
        return {n["attributes"]["id"]: n for n in W.walk(self.doc or {}) if "id" in (n.get("attributes") or {})}

    def target(self, button):
        n = self.nodes().get(button)
        return n and n["eventHandlers"]["onClick"]["target"]

    def open_effects(self):
        c = {}
        for who, name, d in self.effects:
            c[(who, name)] = c.get((who, name), 0) + d
        return {k: v for k, v in c.items() if v}


def session_here():
    """the session that the current component's hooks say it belongs to"""
    scope = use_scope()
    s = WORLD.sessions[scope["x-sid"]]
    if scope is not s.scope:
        s.fail("use_scope() is not the connection's scope")
    conn = use_connection()
    if conn.scope is not s.scope:
        s.fail("use_connection() has another scope")
    if not any(c is conn.carrier for c in s.carriers):
        s.carriers.append(conn.carrier)
        if len(s.carriers) > 1:
            s.fail("use_connection() has several carriers")
    loc = use_location()
    if (loc.path, loc.query_string) != (f"/at/{s.sid}", f"?q={s.sid}"):
        s.fail(f"use_location() is {loc}")
    return s


def owned(what):
    """a component instance stays with the connection that created it"""
    s = session_here()
    ref = use_ref(None)
    if ref.current is None:
        s.instances += 1
        ref.current = (s, f"{what}{s.instances}")
    if ref.current[0] is not s:
        s.fail(f"renders an instance of connection {ref.current[0].sid}")
    s.seq += 1
    return s, ref.current[1], {"data-sid": s.sid, "data-seq": s.seq, "data-who": ref.current[1]}


@component
def Kid(name, crash):
    s, who, attrs = owned(name)
    tick, set_tick = use_state(0)

    def sync():
        s.effects.append((who, "sync", 1))
        return lambda: s.effects.append((who, "sync", -1))
    use_effect(sync, [])

    async def ticking():
        s.effects.append((who, "ticking", 1))
        try:
            while True:
                await asyncio.sleep(0.4)
                s.ticks += 1
                set_tick(lambda t: t + 1)
        finally:
            if s.spec["slow_end"]:
                await asyncio.sleep(s.spec["slow_end"])
            s.effects.append((who, "ticking", -1))
    if s.spec["ticks"]:
        use_async_effect(ticking, [])

    async def resource():
        await asyncio.sleep(0)
        s.effects.append((who, "resource", 1))
        return lambda: s.effects.append((who, "resource", -1))
    use_async_effect(resource, [])

    if s.spec["bad_effect"]:
        def bad():
            raise RuntimeError("bad effect")
        use_effect(bad, [])
        use_effect(lambda: (lambda: s.effects.append((who, "late", -1)), s.effects.append((who, "late", 1)))[0], [])
    if crash:
        raise RuntimeError("crash")
    return html.p({**attrs, "id": name}, f"{tick}")


@component
def Main():
    s, who, attrs = owned("main")
    log, set_log = use_state([])
    kids, set_kids = use_state({"kid0": s.spec["kid"]})
    crash, set_crash = use_state(False)

    def sync():
        s.effects.append((who, "main", 1))
        return lambda: s.effects.append((who, "main", -1))
    use_effect(sync, [])

    def check(event):
        v = event["v"]
        if v[0] != s.sid:
            s.fail(f"handled an event of connection {v[0]}")
        return v[1]

    def note(b, n):
        if s.posted[b][len(s.applied[b])] != n:
            s.fail(f"handler {b} got event {n} after {s.applied[b][-5:]}, but they were sent as {s.posted[b]}")
        s.applied[b].append(n)

    def push(b, n):
        s.log.append(n)
        set_log(lambda old: [*old, n])

    def adder(b):
        def add(event):
            n = check(event)
            note(b, n)
            push(b, n)
        return add

    async def slow(event):
        n = check(event)
        note("slow", n)
        await asyncio.sleep(0.3)
        push("slow", n)

    def boom(event):
        n = check(event)
        note("boom", n)
        push("boom", n)
        raise RuntimeError("boom")

    def toggle(k):
        def f(event):
            note(k, check(event))
            s.kids[k] = not s.kids.get(k, s.spec["kid"] and k == "kid0")
            set_kids(lambda old: {**old, k: not old.get(k, False)})
        return f

    def crasher(event):
        note("crash", check(event))
        set_crash(lambda c: not c)

    async def hang(event):
        n = check(event)
        note("hang", n)
        try:
            await asyncio.Event().wait()
        except asyncio.CancelledError:
            if n % 3 == 1:
                raise RuntimeError("interrupted") from None
            if n % 3 == 2:
                raise
    fs = {"add": adder("add"), "add2": adder("add2"), "slow": slow, "boom": boom, "kid0": toggle("kid0"), "kid1": toggle("kid1"), "crash": crasher, "hang": hang}
    return html.div(attrs, *[html.button({"id": "b-" + k, "key": k, "onClick": f}) for k, f in fs.items()],
                    html.pre({"id": "log", "key": "log"}, json.dumps(log)),
                    *[Kid(k, crash, key=k + "!") for k in ("kid0", "kid1") if kids.get(k)])


def BadCtor():
    raise RuntimeError("constructor")


@component
def BadRender():
    s, who, attrs = owned("bad")

    def sync():
        s.effects.append((who, "bad", 1))
        return lambda: s.effects.append((who, "bad", -1))
    use_effect(sync, [])
    raise RuntimeError("render")


@component
def OddModel():
    s, who, attrs = owned("odd")

    def sync():
        s.effects.append((who, "odd", 1))
        return lambda: s.effects.append((who, "odd", -1))
    use_effect(sync, [])
    return html.div({"x": object()})       # cannot be sent


MOD = types.ModuleType("verif_c17_mod")
for _n, _c in (("ok", Main), ("ctor", BadCtor), ("render", BadRender), ("odd", OddModel)):
    setattr(MOD, _n, _c)
sys.modules["verif_c17_mod"] = MOD
COMPS = ["ok", "ctor", "render", "odd", "missing"]

RAW = {
    "cut": ("end", "{"), "list": ("end", "[]"), "null": ("end", "null"), "int": ("end", "1"), "str": ("end", '"x"'), "empty-text": ("end", ""), "bytes": ("end", None),
    "obj": ("go on", "{}"), "other": ("go on", '{"type": "other"}'), "unknown": ("go on", '{"type": "layout-event", "target": "zzz", "data": []}'),
    "no-target": ("maybe", '{"type": "layout-event"}'), "bad-target": ("maybe", '{"type": "layout-event", "target": [1], "data": []}'),
    "no-data": ("go on", '{"type": "layout-event", "target": "T"}'), "bad-data": ("go on", '{"type": "layout-event", "target": "T", "data": 5}'),
}


class Run:
    def __init__(self, case, rec):
        self.case, self.rec = case, rec
        self.sessions = {}
        self.n = 0
        self.rest_no = 0

    def settled_since(self, s):
        return s.ended is not None and s.ended[1] < self.rest_no

    async def rest(self, loop, t=0.0):
        """the present work is done (t: also everything due within t seconds)"""
        if t:
            await asyncio.sleep(t)
        await loop.settle(False)
        self.rest_no += 1

    def connect(self, spec):
        sid = f"s{len(self.sessions)}"
        s = self.sessions[sid] = Session(sid, spec)
        path = "/reactpy/" if self.case["kind"] == "standalone" else f"/reactpy/verif_c17_mod.{spec['comp']}/"
        s.scope = A.ws_scope(path, query=f"path=%2Fat%2F{sid}&qs=%3Fq%3D{sid}".encode())
        s.scope["x-sid"] = sid
        s.inq.put_nowait({"type": "websocket.connect"} if spec["first"] == "connect" else {"type": "websocket.disconnect", "code": 1006} if spec["first"] == "disconnect" else OSError("refused"))
        if spec["first"] != "connect":
            s.ended = (spec["first"], self.rest_no)
        s.task = asyncio.create_task(self.app(s.scope, s.receive, s.send))
        s.task.add_done_callback(lambda _: setattr(s, "left", s.open_effects()))
        return s

    def event(self, s, b):
        t = s.target("b-" + b)
        if t is None or s.ended:
            return
        self.n += 1
        s.posted[b].append(self.n)
        s.inq.put_nowait({"type": "websocket.receive", "text": json.dumps({"type": "layout-event", "target": t, "data": [{"v": [s.sid, self.n]}]})})
        self.rec.tag("event:" + b)

    def end(self, s, how):
        if s.ended:
            return
        s.ended = (how, self.rest_no)
        self.rec.tag("end:" + how)

    async def main(self, loop):
        case = self.case
        if case["kind"] == "standalone":
            self.app = ReactPy(getattr(MOD, case["comp"]))
        else:
            self.app = ReactPyMiddleware(A_unused, [f"verif_c17_mod.{n}" for n in COMPS if n != "missing"])
        me = asyncio.all_tasks()
        for op in case["ops"]:
            k = op["op"]
            ss = list(self.sessions.values())
            s = ss[op["s"] % len(ss)] if ss and "s" in op else None
            if k == "connect":
                if len(ss) < 6:
                    self.connect({**op["spec"], "comp": case["comp"] if case["kind"] == "standalone" else op["spec"]["comp"]})
            elif k == "rest":
                await self.rest(loop, op["t"])
                self.check(op["t"])
            elif s is None or s.ended:
                continue
            elif k == "event":
                for b in op["b"]:
                    self.event(s, b)
            elif k == "raw":
                what, text = RAW[op["kind"]]
                if text and '"T"' in text:
                    t = s.target("b-" + op["b"])
                    if t is None:
                        continue
                    text = text.replace('"T"', json.dumps(t))
                m = {"type": "websocket.receive", "text": text} if op["kind"] != "bytes" else {"type": "websocket.receive", "bytes": b"{}"}
                for _ in range(op["times"]):
                    s.inq.put_nowait(m)
                self.rec.tag("raw:" + op["kind"])
                if what == "end":
                    self.end(s, op["kind"])
                if what != "go on":
                    s.healthy = False
            elif k == "disconnect":
                s.inq.put_nowait({"type": "websocket.disconnect", "code": 1001})
                self.end(s, "disconnect")
            elif k == "cancel":
                s.task.cancel()
                self.end(s, "cancel")
            elif k == "recv_error":
                s.inq.put_nowait(ConnectionResetError("reset"))
                self.end(s, "recv_error")
            elif k == "yield":
                for _ in range(op["n"]):
                    await asyncio.sleep(0)
        await self.rest(loop, 40.0)
        self.check(40.0)
        for s in self.sessions.values():
            if not s.ended:
                s.inq.put_nowait({"type": "websocket.disconnect", "code": 1000})
                self.end(s, "disconnect")
        await self.rest(loop, 40.0)
        await self.rest(loop, 40.0)
        self.check(40.0)
        left = [t for t in asyncio.all_tasks() - me if not t.done()]
        if left:
            raise Violation(f"all connections ended, but {len(left)} tasks are still there: {left[0]!r:.400}")
        # a later connection is not affected
        if case["kind"] == "middleware" or case["comp"] == "ok":
            p = self.connect({**SPEC, "comp": "ok"})
            await self.rest(loop, 1.0)
            self.event(p, "add")
            self.event(p, "slow")
            await self.rest(loop, 1.0)
            self.check(40.0)
            if p.log != [self.n - 1, self.n]:
                p.fail(f"a later connection does not work: {p.log}")

    def check(self, t):
        """called when everything at hand is done"""
        for s in self.sessions.values():
            full = s.spec["lag"] == 0 or t >= 20
            if s.left:
                s.fail(f"ended with {s.ended and s.ended[0]}, the application returned before its effects were cleaned up: {s.left}")
            if s.spec["slow_end"] and t < 20:
                continue
            if s.ended and self.settled_since(s) and t >= 1:
                if not s.task.done():
                    s.fail(f"ended with {s.ended[0]}, but the application is still at work")
                if s.ended[0] == "disconnect" and s.state != "new" and s.task.exception() is not None:
                    s.fail(f"the application failed at the disconnect: {s.task.exception()!r}")
                if s.open_effects():
                    s.fail(f"ended with {s.ended[0]}, but its effects are not cleaned up: {s.open_effects()}")
                mark = (s.ticks, len(s.frames), s.seq, sum(map(len, s.applied.values())))
                if getattr(s, "mark", mark) != mark:
                    s.fail(f"ended with {s.ended[0]}, but it still works in the background: {s.mark} -> {mark}")
                s.mark = mark
            elif s.broken and t >= 1 and s.state != "new":
                if s.open_effects():
                    s.fail(f"sending failed, but its effects are not cleaned up: {s.open_effects()}")
            elif s.healthy and not s.ended and full and s.spec["comp"] == "ok" and self.rest_no:
                if s.doc is None:
                    s.fail("got no document")
                for b in BUTTONS:
                    if b in ("hang", "slow") and t < 20:
                        continue
                    want = s.posted[b] if b != "hang" else s.posted[b][:1]
                    if s.applied[b] != want:
                        s.fail(f"events {want} were sent to {b}, {s.applied[b]} were handled")
                shown = json.loads(s.nodes()["log"]["children"][0])
                if shown != s.log:
                    s.fail(f"the client shows {shown} instead of {s.log}")
                kids = {k for k in ("kid0", "kid1") if s.kids.get(k, s.spec["kid"] and k == "kid0")}
                if len(s.applied["crash"]) % 2 == 0 and {k for k in s.nodes() if k.startswith("kid")} != kids:
                    s.fail(f"the client shows {sorted(s.nodes())} instead of children {sorted(kids)}")
                self.rec.tag("checked")
            for lst in s.applied.values():
                if len(set(lst)) != len(lst):
                    s.fail(f"an event was handled twice: {lst}")


async def A_unused(scope, receive, send):
    raise Violation(f"the wrapped application was called for {scope['path']}")


SPEC = {"comp": "ok", "first": "connect", "slow_recv": False, "lag": 0, "fail_at": None, "block_at": None, "strict": True, "kid": False, "ticks": False, "bad_effect": False, "slow_end": 0}


def run(case, rec):
    global WORLD
    with A.config_restored():
        REACTPY_ASYNC_RENDERING.current = case["async"]
        REACTPY_MAX_QUEUE_SIZE.current = case["queue"]
        WORLD = r = Run(case, rec)
        vloop.run(r.main)
    rec.nt(sum(bool(s.log) for s in r.sessions.values()) >= 2 or len(r.sessions) >= 3)
    rec.tag("async" if case["async"] else "serial", case["kind"])
    if len(r.sessions) >= 3:
        rec.tag("three-connections")


def gen_spec(g):
    return {"comp": g.weighted([(9, "ok"), (0.6, "ctor"), (0.6, "render"), (0.6, "odd"), (0.8, "missing")]), "first": g.weighted([(30, "connect"), (1, "disconnect"), (1, "error")]),
            "slow_recv": g.p(0.3), "lag": g.pick([0, 0, 0, 0.05, 0.2]), "fail_at": g.pick([None] * 7 + [0, 1, 2, 4]), "block_at": g.pick([None] * 12 + [1, 2, 4]),
            "strict": g.p(0.7), "kid": g.p(0.5), "ticks": g.p(0.4), "bad_effect": g.p(0.15), "slow_end": g.pick([0, 0, 0, 0.01, 0.3])}


def gen(g):
    ops = [{"op": "connect", "spec": gen_spec(g)}]
    if g.p(0.8):
        ops.append({"op": "rest", "t": 0.0})
    for _ in range(g.size(5, 30)):
        s = g.i(0, 5)
        k = g.weighted([(3, "connect"), (7, "event"), (1.2, "raw"), (0.8, "disconnect"), (0.3, "cancel"), (0.3, "recv_error"), (5, "rest"), (1.5, "yield")])
        if k == "connect":
            ops.append({"op": k, "spec": gen_spec(g)})
        elif k == "event":
            ops.append({"op": k, "s": s, "b": [g.weighted([(4, "add"), (3, "add2"), (2, "slow"), (1, "boom"), (1.5, "kid0"), (1.5, "kid1"), (0.7, "crash"), (0.6, "hang")]) for _ in range(g.size(1, 8))]})
        elif k == "raw":
            ops.append({"op": k, "s": s, "kind": g.pick(sorted(RAW)), "b": g.pick(BUTTONS), "times": g.pick([1, 1, 1, 4, 12])})
        elif k == "rest":
            ops.append({"op": k, "t": g.pick([0.0, 0.0, 0.1, 1.0, 3.0, 20.0])})
        elif k == "yield":
            ops.append({"op": k, "n": g.i(1, 6)})
        else:
            ops.append({"op": k, "s": s})
    return {"kind": g.pick(["middleware", "middleware", "standalone"]), "comp": g.weighted([(8, "ok"), (1, "render"), (1, "odd"), (1, "ctor")]), "async": g.p(0.5), "queue": g.pick([1, 2, 3, 1000]), "ops": ops}


def valid(c):
    try:
        for o in c["ops"]:
            if o["op"] == "connect":
                if set(o["spec"]) != set(SPEC) or o["spec"]["comp"] not in COMPS or o["spec"]["first"] not in ("connect", "disconnect", "error") or not isinstance(o["spec"]["lag"], (int, float)) or not 0 <= o["spec"]["lag"] <= 0.2:
                    return None
                if any(o["spec"][k] is not None and not isinstance(o["spec"][k], int) for k in ("fail_at", "block_at")):
                    return None
            elif o["op"] == "event":
                if any(b not in BUTTONS for b in o["b"]):
                    return None
            elif o["op"] == "raw":
                if o["kind"] not in RAW or o["b"] not in BUTTONS or not 1 <= o["times"] <= 20:
                    return None
            elif o["op"] == "rest":
                if not isinstance(o["t"], (int, float)) or not 0 <= o["t"] <= 40:
                    return None
            if "s" in o and not isinstance(o["s"], int):
                return None
        if c["kind"] not in ("middleware", "standalone") or c["comp"] not in COMPS[:4] or c["queue"] not in (1, 2, 3, 1000) or not isinstance(c["async"], bool):
            return None
        return c
    except (KeyError, TypeError):
        return None


SUBS = [
    Sub("sessions", gen=gen, valid=valid, run=run, quick=10500, thorough=120000, shards=7,
        rule="histories of up to six concurrent websocket connections to one application: connects, events, malformed messages, disconnects, server cancellation, failing / lagging / blocking "
             "transports, failing components; non-trivial = events handled on two connections, or three connections"),
]
