import asyncio
import json

import asgi as A
import c01
import vloop
import world as W
from lib import Sub, Violation

from reactpy import component, html, use_state
from reactpy.config import REACTPY_ASYNC_RENDERING, REACTPY_MAX_QUEUE_SIZE
from reactpy.core.layout import Layout
from reactpy.core.serve import serve_layout

PROPERTY = "C04"
ASSUMPTIONS = c01.ASSUMPTIONS + ["explicit handler targets given by the application are unique"]
KEYS = ["0", "1", "2", "a", "b", "a/b", "a:onClick", "", "~", "a/0", 1, 2, 100, "é"]
DATA = [[], [{}], [{"x": 1}], [{"target": {"value": "é\"'"}, "n": [1, {"a": None}]}], ["plain", 3, None], [{"a": 1}, {"b": 2}], [True]]


def msg(target, data, seq=None):
    m = {"type": "layout-event", "target": target, "data": data}
    if seq is not None:
        m["seq"] = seq
    return m


def same(args, data):
    return json.loads(json.dumps(list(args))) == data


async def quiet_deliver(w, t, data, rec):
    """On an idle, fully drained layout: one event -> exactly one call of exactly that handler."""
    k = len(w.hlog)
    await w.layout.deliver(msg(t[0], data))
    await w.loop.settle()
    calls = [e for e in w.hlog[k:] if e[4] != "end"]
    if len(calls) != 1:
        raise Violation(f"event for {t} ran {len(calls)} handlers: {calls[:3]}")
    c = calls[0]
    if c[:3] != (t[2], t[3], t[1]):
        raise Violation(f"event for element (inst {t[2]}, node {t[3]}) {t[1]} ran the handler of (inst {c[0]}, node {c[1]}) {c[2]}")
    if c[3] != t[4]:
        raise Violation(f"event for {t} ran the handler of render {c[3]} although render {t[4]} is shown")
    if not same(c[4], data):
        raise Violation(f"handler received {c[4]!r} instead of {data!r}")
    rec.tag("delivered")


def unique_targets(w):
    seen = {}
    for t in w.targets():
        if t[0] in seen:
            raise Violation(f"target {t[0]!r} is shared by {seen[t[0]]} and {t[1:]}")
        if not isinstance(t[0], str):
            raise Violation(f"target {t[0]!r} is not a string")
        seen[t[0]] = t[1:]
    return seen


def run(case, rec):
    async def script(w):
        old = {}
        nd = 0
        for op in case["ops"]:
            if op[0] == "burst":
                await w.drain()
                tg = w.targets()
                if tg:
                    t = tg[op[1] % len(tg)]
                    k = len(w.hlog)
                    for i in range(op[2]):
                        await w.layout.deliver(msg(t[0], [{"burst": i}]))
                    while await w.drain():
                        pass
                    check_burst(w, k, t, op[2], rec)
            elif op[0] == "cross":
                await w.drain()
                tg = w.targets()
                if len(tg) >= 2:
                    a, b = tg[op[1] % len(tg)], tg[op[2] % len(tg)]
                    if a[0] != b[0]:
                        await cross(w, a, b, rec)
            elif op[0] == "check":
                await w.drain()
                w.assert_converged()
                cur = unique_targets(w)
                tg = w.targets()
                if tg:
                    await quiet_deliver(w, tg[op[1] % len(tg)], DATA[op[2] % len(DATA)], rec)
                    nd += 1
                    if cur.keys() != old.keys():
                        rec.tag("handlers-changed")
                await w.drain()
                cur = unique_targets(w)
                gone = [t for t in old if t not in cur]
                if gone:
                    k = len(w.hlog)
                    n = len(w.msgs)
                    await w.layout.deliver(msg(gone[0], [{}]))
                    await w.drain()
                    if len(w.hlog) != k:
                        raise Violation(f"event for removed target {gone[0]!r} ran {w.hlog[k]}")
                    if len(w.msgs) != n:
                        raise Violation("an ignored event changed the view")
                    rec.tag("stale-target")
                old = {**old, **cur}
            else:
                await c01.play(w, [op], rec, drain=False)
        await w.drain()
        w.assert_converged()
        for t in list(unique_targets(w)):
            tt = next((x for x in w.targets() if x[0] == t), None)
            if tt is not None:
                await quiet_deliver(w, tt, [{"z": 1}], rec)
                nd += 1
                await w.drain()
        rec.nt(nd >= 2 and len(w.msgs) >= 2)
    W.run_world(case["prog"], script)


def check_burst(w, k, t, n, rec):
    log = [e for e in w.hlog[k:]]
    begun = [e for e in log if e[4] != "end" and e[4] and isinstance(e[4][0], dict) and "burst" in e[4][0]]
    idx = [e[4][0]["burst"] for e in begun]
    if idx != sorted(idx) or len(set(idx)) != len(idx):
        raise Violation(f"events for {t[0]!r} were handled in order {idx}")
    shown = {x[0] for x in w.targets()}
    if t[0] in shown and idx != list(range(n)) and not changed_identity(w, t):
        raise Violation(f"{n} events were delivered to {t[0]!r}, handled: {idx}")
    # one at a time
    open_ = None
    booms = {id(e) for e in begun}
    for e in log:
        if e[4] == "end":
            open_ = None
        elif id(e) in booms:
            if open_ is not None and not has_boom(w, open_):
                raise Violation(f"two events of {t[0]!r} were handled at the same time")
            open_ = e
    rec.tag("burst")


def has_boom(w, e):
    for d in w.defs:
        for v in d["variants"]:
            for n in nodes(v):
                if n["nid"] == e[1]:
                    return any(a[0] == "boom" for a in n["h"][e[2]]["do"])
    return False


def nodes(n):
    yield n
    for c in n.get("ch", ()):
        yield from nodes(c)


def changed_identity(w, t):
    """The element vanished at some point while the events were queued (it may have come back)."""
    last = next(x for x in w.targets() if x[0] == t[0])
    return last[2:4] != t[2:4] or w.insts[t[2]].seq != t[4]


async def cross(w, a, b, rec):
    """A slow handler on one target does not delay another target."""
    k = len(w.hlog)
    await w.layout.deliver(msg(a[0], [{}]))
    await w.layout.deliver(msg(b[0], [{}]))
    await w.loop.settle(advance=False)
    started = [e[:3] for e in w.hlog[k:] if e[4] != "end"]
    if (b[2], b[3], b[1]) not in started:
        raise Violation(f"handler {b} did not start although only {a} is busy; started: {started}")
    await w.drain()
    rec.tag("cross")


ARITY = {**c01.ARITY, "burst": 3, "cross": 3, "check": 3}


def valid(case):
    prog = W.valid_prog(case.get("prog"))
    if prog is None or any(not o or o[0] not in ARITY or len(o) != ARITY[o[0]] for o in case["ops"]):
        return None
    return {"prog": prog, "ops": case["ops"]}


def gen(**kw):
    def f(g):
        prog = W.gen_prog(g, handlers=0.75, keys=KEYS, pkey=0.6, mounts=0.05, **kw)
        ops = [["pull", 1]]
        for _ in range(g.i(2, 9 * g.long())):
            k = g.weighted([(4, "check"), (4, "add"), (2, "burst"), (1.5, "cross"), (1, "tick"), (1, "pull"), (1, "ev")])
            ops.append({"check": ["check", g.i(0, 9), g.i(0, 9)], "add": ["add", g.i(0, 9), g.i(1, 2)],
                        "burst": ["burst", g.i(0, 9), g.i(2, 4)], "cross": ["cross", g.i(0, 9), g.i(0, 9)],
                        "tick": ["tick", g.i(1, 6)], "pull": ["pull", 1], "ev": ["ev", g.i(0, 9)]}[k])
        return {"prog": prog, "ops": ops}
    return f


# ---------------------------------------------------------------- served: events as they come in over a connection

def run_served(case, rec):
    n, log = case["handlers"], []

    async def main(loop):
        REACTPY_ASYNC_RENDERING.current = case["mode"] == "async"
        REACTPY_MAX_QUEUE_SIZE.current = case["queue"]

        def handler(i, set_count):
            async def handle(e):
                call = [i, e["id"], loop.time(), None]
                log.append(call)
                if e["first"]:
                    set_count(lambda c: c + 1)
                if e["d"]:
                    await asyncio.sleep(e["d"])
                if not e["first"]:
                    set_count(lambda c: c + 1)
                call[3] = loop.time()
                if e["boom"]:
                    raise ValueError("boom")
            return handle

        def plain(i, set_count):
            def handle(e):
                log.append([i, e["id"], loop.time(), loop.time()])
                set_count(lambda c: c + 1)
                if e["boom"]:
                    raise ValueError("boom")
            return handle

        @component
        def Part(i):
            count, set_count = use_state(0)
            return html.button({"onClick": (handler if case["kinds"][i] else plain)(i, set_count)}, str(count))

        @component
        def Root():
            return html.div(*[Part(i, key=str(i)) for i in range(n)])

        doc = [None]
        async def send(m):
            if case["lag"]:
                await asyncio.sleep(case["lag"])
            m = json.loads(json.dumps(m))
            doc[0] = W.apply_update(doc[0], m)

        inq = asyncio.Queue()
        task = asyncio.ensure_future(serve_layout(Layout(Root()), send, inq.get))
        await loop.settle(False)
        await asyncio.sleep(1)

        def buttons(m, out):
            if isinstance(m, dict):
                if m["tagName"] == "button":
                    out.append(m)
                for c in m.get("children", []):
                    buttons(c, out)
            return out

        targets = [b["eventHandlers"]["onClick"]["target"] for b in buttons(doc[0], [])]
        if len(targets) != n or len(set(targets)) != n:
            raise Violation(f"{n} handlers have the targets {targets}")
        want, free, k = [[] for _ in range(n)], [0.0] * n, 0
        for op in case["ops"]:
            if op[0] == "sleep":
                await asyncio.sleep(op[1])
            else:
                _, i, d, boom, first = op
                i %= n
                k += 1
                inq.put_nowait(msg(targets[i], [{"id": k, "d": d, "boom": boom, "first": first}]))
                start = max(loop.time(), free[i])
                free[i] = start + (d if case["kinds"][i] else 0)
                want[i].append((k, start))
        await asyncio.sleep(max(0, max(free) - loop.time()) + 5 + case["lag"] * k)
        if task.done():
            raise Violation(f"the session ended: {task!r:.300}")
        for i in range(n):
            got = [c for c in log if c[0] == i]
            if [c[1] for c in got] != [x for x, _ in want[i]]:
                raise Violation(f"events {[x for x, _ in want[i]]} were sent to handler {i}, {[c[1] for c in got]} were handled")
            for c, (_, start) in zip(got, want[i]):
                if abs(c[2] - start) > 0.2:
                    raise Violation(f"event {c[1]} of handler {i} was handled {c[2] - start:+.2f} s from when it could have been")
            for a, b in zip(got, got[1:]):
                if a[3] is None or b[2] < a[3]:
                    raise Violation(f"event {b[1]} of handler {i} was handled while event {a[1]} was")
        shown = [b["children"] for b in buttons(doc[0], [])]
        if shown != [[str(len(w))] for w in want]:
            raise Violation(f"the view shows the counts {shown} after {[len(w) for w in want]} events")
        slow = [i for i in range(n) if case["kinds"][i] and len(want[i]) > case["queue"]]
        if slow:
            rec.tag("full-queue")
        rec.nt(sum(map(bool, want)) >= 2 and any(b[1] > a[1] for w in want for a, b in zip(w, w[1:])))
        task.cancel()
        await asyncio.wait([task])

    with A.config_restored():
        vloop.run(main)


def gen_served(g):
    n = g.i(2, 5)
    ops = []
    for _ in range(g.size(3, 25)):
        if g.p(0.25):
            ops.append(["sleep", g.pick([0.0, 0.3, 0.6, 1.2, 5.0])])
        else:
            i = g.i(0, n - 1)
            for _ in range(g.pick([1, 1, 1, 2, 4, 6])):
                ops.append(["event", i, g.pick([0, 0, 1, 2, 5]), g.p(0.15), g.p(0.5)])
    return {"handlers": n, "kinds": [g.p(0.7) for _ in range(n)], "mode": g.pick(["async", "serial"]), "queue": g.pick([1, 2, 3, 1000]), "lag": g.pick([0, 0, 0, 0.01, 0.1]), "ops": ops}


def valid_served(c):
    try:
        if not 1 <= c["handlers"] <= 5 or len(c["kinds"]) != c["handlers"] or c["mode"] not in ("async", "serial") or c["queue"] not in (1, 2, 3, 1000) or not 0 <= c["lag"] <= 0.1:
            return None
        for o in c["ops"]:
            if o[0] == "sleep":
                if not 0 <= o[1] <= 10:
                    return None
            elif o[0] != "event" or not isinstance(o[1], int) or not isinstance(o[2], int) or not 0 <= o[2] <= 10 or len(o) != 5:
                return None
        return c
    except (KeyError, TypeError, IndexError):
        return None


SUBS = [
    Sub("route", gen=gen(memo=0.08, twice=0.08), valid=valid, run=run, quick=15000, thorough=400000, shards=8,
        rule="programs rich in handlers, sibling keys that are easily confused ('1' vs position 1, slashes, colons, empty); histories of "
             "changes, single deliveries to shown and to vanished targets, bursts to one target, slow + fast targets; "
             "non-trivial = >=2 verified deliveries and >=2 messages"),
    Sub("flat", gen=gen(max_defs=3, depth=2), valid=valid, run=run, quick=9000, thorough=200000, shards=4,
        rule="same with small trees"),
    Sub("explicit-target", gen=gen(max_defs=3, depth=2, static=0.4, memo=0.06), valid=valid, run=run, quick=9000, thorough=200000, shards=4,
        rule="same, with application-chosen targets that move between elements of one component from render to render"),
    Sub("served", gen=gen_served, valid=valid_served, run=run_served, quick=3000, thorough=60000, shards=4,
        rule="events that come in over a connection for several slow, quick and raising handlers, with queues that fill up; each is handled when it could have been; "
             "non-trivial = >=2 targets of which one has events that were waiting or came later"),
]
