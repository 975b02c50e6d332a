import asyncio
import json

from reactpy import component, html
from reactpy.config import REACTPY_MAX_QUEUE_SIZE, REACTPY_ASYNC_RENDERING
from reactpy.core.hooks import use_effect, use_reducer, use_ref, use_state
from reactpy.core.layout import Layout
from reactpy.widgets import use_linked_inputs

import vloop
import world as W
from lib import Sub, Violation

PROPERTY = "C06"
ASSUMPTIONS = ["all updates are issued from the event loop's thread", "asyncio runs ready callbacks in FIFO order"]

POOL = [0, 1, 2, 7, False, True, 0.0, 1.0, "", "a", "b", None, [], [0], [1], {"k": 1}, {"k": 2}, "0", b"", -1]


def val(i):
    v = POOL[i % len(POOL)]
    return list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v


def same(a, b):
    return type(a) is type(b) and a == b


class Boom(Exception):
    pass


class Inst:
    def __init__(self, iid, cid):
        self.iid, self.cid = iid, cid
        self.model = {}
        self.first = {}
        self.last = {}
        self.renders = 0
        self.parent_renders = 0
        self.batches = 0
        self.pending = False
        self.slot = None
        self.seq = 0
        self.seen = None
        self.errored = False
        self.target = None


class World:
    def __init__(self, prog):
        self.prog = prog
        self.insts = []
        self.seq = 0
        self.extra = 0   # render-time / effect-time updates so far
        self.comps = [self.make(c) for c in range(len(prog["defs"]))]
        self.pending = None
        self.mirror = None
        self.handler_log = []
        self.kinds = set()

    def make(self, cid):
        w = self
        d = w.prog["defs"][cid]

        def Comp(slot):
            ref = use_ref(None)
            if ref.current is None:
                ref.current = Inst(len(w.insts), cid)
                w.insts.append(ref.current)
            inst = ref.current
            inst.renders += 1
            if inst.slot is not None and slot != inst.slot or inst.renders == 1:
                inst.parent_renders += 1
            elif not inst.pending and w.prog["mode"] == "async":
                raise Violation(f"instance {inst.iid} renders again, but its latest render has seen every update already")
            inst.slot = slot
            inst.pending = False
            w.seq += 1
            inst.seq = w.seq
            inst.errored = False
            seen = []
            for n, (kind, init) in enumerate(d["slots"]):
                if d["raise"] is not None and d["raise"][1] == n and n > 0 and same(seen[0], val(d["raise"][0])):
                    inst.errored = True
                    raise Boom("in the middle of the hooks")
                if kind == "reducer":
                    v, s = use_reducer(w.reducer(inst, n), val(init))
                elif kind == "lazy":
                    v, s = use_state(lambda i=init: val(i))
                else:
                    st = use_state(val(init))
                    v, s = st.value, st.set_value
                if n not in inst.model:
                    inst.model[n] = val(init)
                if not same(v, inst.model[n]):
                    raise Violation(f"instance {inst.iid} render {inst.renders}: slot {n} is {v!r}, but the updates issued so far give {inst.model[n]!r}")
                inst.first.setdefault(n, s)
                inst.last[n] = s
                seen.append(v)
                if d["during"] is not None and d["during"][0] == n and same(v, val(d["during"][1])) and w.extra < 5:
                    w.extra += 1
                    w.kinds.add("during-render")
                    w.update(inst, n, ["to", d["during"][2]])
            if d["effect"] is not None:
                def eff():
                    n, x, y = d["effect"]
                    n %= len(d["slots"])
                    if n in inst.model and same(inst.model[n], val(x)) and w.extra < 5:
                        w.extra += 1
                        w.kinds.add("in-effect")
                        w.update(inst, n, ["to", y])
                use_effect(eff, None)
            inst.seen = list(seen)
            if d["raise"] is not None and d["raise"][1] >= len(seen) and same(seen[0], val(d["raise"][0])):
                inst.errored = True
                raise Boom("after the hooks")

            async def on_click(*_):
                pass

            async def click(steps):
                for s in steps:
                    if s == "await":
                        await asyncio.sleep(0)
                    elif s == "sleep":
                        await asyncio.sleep(0.01)
                    else:
                        t = w.resolve(s[0], inst)
                        w.update(t, s[1], s[2])
            return html.div({"on_click": click, "data-i": f"{inst.iid}:{inst.renders}", "data-v": repr(seen)},
                            *[w.comps[c]([inst.iid, inst.renders, k], **({"key": f"k{k}"} if d["keyed"] else {}))
                              for k, c in enumerate(w.kids(inst, seen[0]))])
        return component(Comp)

    def kids(self, inst, v0):
        d = self.prog["defs"][inst.cid]
        if not d["kids"]:
            return []
        i = next((i for i, p in enumerate(POOL) if same(p, v0)), 0)
        return d["kids"][i % len(d["kids"])]

    def reducer(self, inst, n):
        def reduce(state, action):
            if not same(state, inst.model[n]):
                raise Violation(f"reducer of instance {inst.iid} slot {n} got {state!r}, latest state is {inst.model[n]!r}")
            return self.apply(state, action)
        return reduce

    def apply(self, v, upd):
        if upd[0] == "add":
            return v + upd[1] if type(v) is int and abs(v) < 1000 else upd[1]
        if upd[0] == "app":
            return [*v, upd[1]] if isinstance(v, list) and len(v) < 4 else [upd[1]]
        if upd[0] == "same":
            return v
        if upd[0] == "boom":
            raise Boom("in updater")
        return val(upd[1])

    def resolve(self, i, me=None):
        if i == -1 and me is not None:
            return me
        return self.insts[-1 - i % len(self.insts)]

    def update(self, inst, n, upd):
        slots = self.prog["defs"][inst.cid]["slots"]
        n %= len(slots)
        if n not in inst.model:
            return
        setter = (inst.first if upd[-1] == "old" else inst.last)[n]
        upd = [x for x in upd if x != "old"]
        cur = inst.model[n]
        try:
            new = self.apply(cur, upd)
        except Boom:
            new = cur
        change = not same(cur, new)

        def commit():
            inst.model[n] = new
            if change and not inst.pending:
                inst.pending = True
                inst.batches += 1
        try:
            if slots[n][0] == "reducer":
                setter(upd)
            elif upd[0] == "to":
                setter(val(upd[1]))
            else:
                def fn(v):
                    if not same(v, cur):
                        raise Violation(f"functional update of instance {inst.iid} slot {n} got {v!r}, latest state is {cur!r}")
                    return self.apply(v, upd)
                setter(fn)
        except Boom:
            pass
        commit()
        self.kinds.add(upd[0] if change else "redundant")

    async def pull(self, n):
        got = 0
        while got < n:
            if self.pending is None:
                self.pending = asyncio.ensure_future(self.layout.render())
            await self.loop.settle(advance=False)
            if not self.pending.done():
                break
            self.pending, t = None, self.pending
            msg = json.loads(json.dumps(t.result()))
            self.mirror = W.apply_update(self.mirror, msg)
            got += 1
            if self.seq > 4000:
                raise Violation("renders never end")
        return got

    async def drain(self):
        while True:
            k = await self.pull(1000)
            await self.loop.settle()
            if not k and (self.pending is None or not self.pending.done()):
                return

    def live(self):
        by = {}
        for i in self.insts:
            k = tuple(i.slot)
            if k not in by or by[k].seq < i.seq:
                by[k] = i
        out = []

        def go(i):
            out.append(i)
            if i.errored:
                return
            for k, _ in enumerate(self.kids(i, i.model[0])):
                c = by.get((i.iid, i.renders, k))
                if c is None:
                    raise Violation(f"instance {i.iid} never rendered its child {k} for state {i.model[0]!r}")
                go(c)
        go(by[("root", 0, 0)])
        return out

    def check(self):
        shown = {}

        def walk(n):
            if isinstance(n, dict):
                a = n.get("attributes") or {}
                if "data-i" in a:
                    shown[int(a["data-i"].split(":")[0])] = a["data-v"]
                for c in n.get("children", ()):
                    walk(c)
        walk(self.mirror)
        live = self.live()
        ok = [i for i in live if not i.errored]
        if sorted(shown) != sorted(i.iid for i in ok):
            raise Violation(f"shown instances {sorted(shown)}, expected {sorted(i.iid for i in ok)}")
        for i in ok:
            want = repr([i.model[n] for n in range(len(self.prog['defs'][i.cid]['slots']))])
            if shown[i.iid] != want:
                raise Violation(f"instance {i.iid} shows {shown[i.iid]}, its state is {want}")
        for i in self.insts:
            bound = i.parent_renders + i.batches
            if i.renders > bound:
                raise Violation(f"instance {i.iid} rendered {i.renders} times; {i.parent_renders} from its parent and {i.batches} batches of real changes")
        return live


def run(case, rec):
    prog = case["prog"]

    async def main(loop):
        w = World(prog)
        w.loop = loop
        REACTPY_ASYNC_RENDERING.current = prog["mode"] == "async"
        REACTPY_MAX_QUEUE_SIZE.current = prog.get("queue") or 1000
        w.layout = Layout(w.comps[0](["root", 0, 0]))
        async with w.layout:
            for op in case["ops"]:
                k = op[0]
                if k == "many" and w.insts:
                    for i, n, u in op[1]:
                        w.update(w.resolve(i), n, u)
                elif k == "event" and w.insts:
                    ts = []

                    def find(n):
                        if isinstance(n, dict):
                            h = n.get("eventHandlers") or {}
                            ts.extend(e["target"] for e in h.values())
                            for c in n.get("children", ()):
                                find(c)
                    find(w.mirror)
                    if ts:
                        w.kinds.add("event")
                        await w.layout.deliver({"type": "layout-event", "target": ts[op[1] % len(ts)], "data": [op[2]]})
                elif k == "pull":
                    await w.pull(op[1])
                elif k == "tick":
                    for _ in range(op[1]):
                        await asyncio.sleep(0)
                elif k == "drain":
                    await w.drain()
                    w.check()
            await w.drain()
            live = w.check()
            n0 = w.seq
            # redundant updates and updates of unmounted instances do nothing visible
            gone = [i for i in w.insts if i not in live]
            for i in gone:
                for n in list(i.model):
                    w.update(i, n, ["to", 3])
                    w.update(i, n, ["to", 8])
            for i in live:
                for n in list(i.model):
                    w.update(i, n, ["same"])
            await w.drain()
            if w.seq != n0:
                raise Violation("updating an unmounted component / setting an equal value caused a render")
            w.check()
            if w.pending is not None:
                w.pending.cancel()
                try:
                    await w.pending
                except BaseException:
                    pass
        if w.pending is not None and w.pending.done() and not w.pending.cancelled() and w.pending.exception():
            raise w.pending.exception()
        errs = [c for c in loop.exceptions]
        if errs:
            raise Violation(f"loop exception: {errs[0].get('message')} {errs[0].get('exception')!r}")
        for i in w.insts:     # after closing: still harmless
            for n in list(i.model):
                w.update(i, n, ["to", 9])
        rec.tag(*w.kinds, prog["mode"])
        if gone:
            rec.tag("unmounted-updates")
        if any(i.errored for i in w.insts):
            rec.tag("errored")
        rec.nt(sum(i.batches for i in w.insts) >= 2 and len(w.kinds) >= 2)
    try:
        vloop.run(main)
    except vloop.Deadlock as e:
        raise Violation(f"deadlock: {e}")
    finally:
        REACTPY_ASYNC_RENDERING.current = True
        REACTPY_MAX_QUEUE_SIZE.current = 1000


def gen_upd(g, reducers=True):
    k = g.weighted([(4, "to"), (4, "add"), (2, "app"), (1.5, "same"), (0.6, "boom")])
    u = {"to": ["to", g.i(0, len(POOL) - 1)], "add": ["add", g.i(0, 3)], "app": ["app", g.i(0, 3)], "same": ["same"], "boom": ["boom"]}[k]
    if g.p(0.3):
        u = u + ["old"]
    return u


def gen(raises=0.0, extra=0.25):
    def f(g):
        n = g.i(1, 4)
        defs = []
        for i in range(n):
            ns = g.i(1, 4)
            d = {"slots": [[g.pick(["state", "state", "lazy", "reducer"]), g.i(0, len(POOL) - 1)] for _ in range(ns)],
                 "kids": [[g.i(i + 1, n - 1) for _ in range(g.i(0, 2))] for _ in range(g.i(1, 3))] if i < n - 1 else [],
                 "keyed": g.p(0.4), "raise": None, "during": None, "effect": None}
            if g.p(raises):
                d["raise"] = [g.pick([0, 1, d["slots"][0][1]]), g.i(1, ns)]
            if g.p(extra):
                d["during"] = [g.i(0, ns - 1), g.pick([0, 1, 2, d["slots"][0][1]]), g.i(0, len(POOL) - 1)]
            if g.p(extra):
                d["effect"] = [g.i(0, ns - 1), g.pick([0, 1, 2, d["slots"][0][1]]), g.i(0, len(POOL) - 1)]
            defs.append(d)
        ops = []
        for _ in range(g.size(1, 14 * g.long())):
            k = g.weighted([(5, "many"), (3, "event"), (3, "pull"), (3, "tick"), (1.2, "drain")])
            if k == "many":
                ops.append(["many", [[g.i(0, 5), g.i(0, 3), gen_upd(g)] for _ in range(g.size(1, 5))]])
            elif k == "event":
                ops.append(["event", g.i(0, 5), [g.weighted([(2, "await"), (1, "sleep"), (6, [g.i(-1, 4), g.i(0, 3), gen_upd(g)])])
                                                 for _ in range(g.size(1, 5))]])
            elif k == "pull":
                ops.append(["pull", g.i(1, 3)])
            elif k == "tick":
                ops.append(["tick", g.i(1, 6)])
            else:
                ops.append(["drain"])
        return {"prog": {"defs": defs, "mode": g.pick(["async", "async", "serial"]), "queue": g.pick([0, 0, 1, 2])}, "ops": [["pull", 1]] * g.p(0.7) + ops}
    return f


def ok_upd(u):
    return isinstance(u, list) and u and u[0] in ("to", "add", "app", "same", "boom") and \
        (u[0] in ("same", "boom") or len(u) > 1 and type(u[1]) is int)


def valid(case):
    try:
        defs = case["prog"]["defs"]
        if not defs or case["prog"]["mode"] not in ("async", "serial"):
            return None
        for i, d in enumerate(defs):
            if not d["slots"] or not isinstance(d["keyed"], bool):
                return None
            for s in d["slots"]:
                if s[0] not in ("state", "lazy", "reducer") or type(s[1]) is not int or s[1] < 0 or len(s) != 2:
                    return None
            for row in d["kids"]:
                if any(not i < c < len(defs) for c in row):
                    return None
            for k, ln in (("raise", 2), ("during", 3), ("effect", 3)):
                if d[k] is not None and (len(d[k]) != ln or any(type(x) is not int or x < 0 for x in d[k])):
                    return None
            if d["raise"] is not None and d["raise"][1] < 1:
                return None
        for o in case["ops"]:
            if o[0] == "many":
                if any(len(x) != 3 or not ok_upd(x[2]) or type(x[0]) is not int or type(x[1]) is not int for x in o[1]):
                    return None
            elif o[0] == "event":
                for x in o[2]:
                    if isinstance(x, str):
                        if x not in ("await", "sleep"):
                            return None
                    elif len(x) != 3 or not ok_upd(x[2]) or type(x[0]) is not int or type(x[1]) is not int:
                        return None
            elif o[0] not in ("pull", "tick", "drain"):
                return None
            if len(o) != {"many": 2, "event": 3, "pull": 2, "tick": 2, "drain": 1}[o[0]]:
                return None
        return case
    except (KeyError, TypeError, IndexError, ValueError):
        return None


# ---------------------------------------------------------------- linked inputs
def run_linked(case, rec):
    async def main(loop):
        calls = []
        want_calls = []

        def on_change(v):
            calls.append(v)

        @component
        def Root():
            kw = {"initial_value": case["init"]} if case["init"] is not None else {}
            if case["cast"]:
                kw["cast"] = len
            if not case["ignore"]:
                kw["ignore_empty"] = False
            return html.div(*use_linked_inputs([{"data-n": n} for n in range(case["n"])], on_change, **kw))
        layout = Layout(Root())
        async with layout:
            view = W.apply_update(None, json.loads(json.dumps(await layout.render())))
            cur = case["init"] or ""
            for idx, text in case["ops"]:
                kids = view["children"][0]["children"]
                shown = [k["attributes"]["value"] for k in kids]
                if shown != [cur] * case["n"] or [k["attributes"]["data-n"] for k in kids] != list(range(case["n"])):
                    raise Violation(f"inputs show {shown}, value is {cur!r}")
                t = kids[idx % case["n"]]["eventHandlers"]["onChange"]["target"]
                await layout.deliver({"type": "layout-event", "target": t, "data": [{"target": {"value": text}}]})
                await loop.settle()
                if text or not case["ignore"]:
                    want_calls.append(len(text) if case["cast"] else text)
                if calls != want_calls:
                    raise Violation(f"on_change got {calls}, expected {want_calls}")
                if text != cur:
                    view = W.apply_update(view, json.loads(json.dumps(await layout.render())))
                cur = text
            rec.nt(len(case["ops"]) >= 2 and case["n"] >= 2)
    vloop.run(main)


def gen_linked(g):
    return {"n": g.i(1, 4), "init": g.pick([None, "", "x"]), "cast": g.p(0.5), "ignore": g.p(0.5),
            "ops": [[g.i(0, 3), g.pick(["", "", "a", "bc", "0"])] for _ in range(g.i(1, 6))]}


def valid_linked(c):
    try:
        return c if c["n"] >= 1 and c["init"] in (None, "", "x") and isinstance(c["cast"], bool) and isinstance(c["ignore"], bool) and \
            all(len(o) == 2 and type(o[0]) is int and isinstance(o[1], str) for o in c["ops"]) else None
    except (KeyError, TypeError):
        return None


SUBS = [
    Sub("updates", gen=gen(), valid=valid, run=run, quick=13500, thorough=400000, shards=4,
        rule="component trees with state / lazy state / reducer slots; bursts of direct, functional, redundant and failing updates from outside, "
             "event handlers (with awaits), effects and render bodies, interleaved with renders in both modes; non-trivial = >=2 batches of real changes of >=2 kinds"),
    Sub("raising", gen=gen(raises=0.5), valid=valid, run=run, quick=9000, thorough=200000, shards=3,
        rule="same where renders raise between or after hook calls"),
    Sub("linked", gen=gen_linked, valid=valid_linked, run=run_linked, quick=2250, thorough=20000,
        rule="use_linked_inputs histories; non-trivial = >=2 inputs and >=2 events"),
]
