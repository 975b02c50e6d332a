import asyncio

from reactpy import component, html
from reactpy.config import REACTPY_MAX_QUEUE_SIZE, REACTPY_ASYNC_RENDERING, REACTPY_DEBUG
from reactpy.core.hooks import use_async_effect, use_effect, use_ref, use_state
from reactpy.core.layout import Layout

import vloop
import world as W
import world  # noqa: F401  (silences logging)
from lib import Sub, Violation

PROPERTY = "C03"
ASSUMPTIONS = [
    "effects themselves terminate (every generated effect does) and do not swallow cancellation forever",
    "asyncio runs ready callbacks in FIFO order",
]


class Inst:
    def __init__(self, iid, cid):
        self.iid, self.cid = iid, cid
        self.renders = 0
        self.seq = 0
        self.state = 0
        self.slot = None
        self.requested = {}   # effect index -> list of req ids (by the reference dependency rule)
        self.lastdep = {}
        self.failed_render = False
        self.at = set()


class World:
    def __init__(self, prog):
        self.prog = prog
        self.insts = []
        self.log = []     # (what, iid, j, req)
        self.seq = 0
        self.effect_sets = 0
        self.render_sets = 0
        # one component type per definition: a slot that switches definition gets a new instance
        self.comps = [self.make(cid) for cid in range(len(prog["defs"]))]
        self.pending = None
        self.held = 0
        self.passes = {}
        self.targets = []     # of the latest update

    def make(self, cid):
        w = self

        def Child(slot):
            ref = use_ref(None)
            if ref.current is None:
                ref.current = Inst(len(w.insts), cid)
                w.insts.append(ref.current)
            inst = ref.current
            state, set_state = use_state(0)
            inst.set_state = set_state
            inst.slot = slot
            inst.renders += 1
            w.seq += 1
            inst.seq = w.seq
            req = inst.renders
            if slot != "root" and slot not in inst.at:
                inst.at.add(slot)
                w.passes.setdefault(slot[:2], []).append((inst.iid, req))   # rendered along with this render of its parent
            d = w.prog["defs"][cid]
            for j, spec in enumerate(d["effects"]):
                w.meanwhile(d, j, inst)
                deps = spec["deps"]
                if deps == "none":
                    dv, need = None, True
                elif deps == "empty":
                    dv, need = [], j not in inst.lastdep
                else:
                    dv = [deps[state % len(deps)]]
                    need = j not in inst.lastdep or inst.lastdep[j] != dv
                inst.lastdep[j] = dv
                if need:
                    inst.requested.setdefault(j, []).append(req)
                w.effect(inst, j, spec, req, dv)
            w.meanwhile(d, len(d["effects"]), inst)
            kids = d["kids"]
            w.log.append(("rendered", inst.iid, -1, req))
            out = []
            if kids:
                for n, (c, key) in enumerate(kids[state % len(kids)]):
                    kw = {"key": key} if key is not None else {}
                    out.append(w.comps[c]((inst.iid, req, n), **kw))
            return html.div({"onClick": w.handler(w.prog["hold"])} if w.prog.get("hold") else {}, *out)

        return component(Child)

    def meanwhile(self, d, j, inst):
        """a state that is set while a component renders: its own one or that of another instance"""
        if d.get("during") and d["during"][0] == j and self.render_sets < 3:
            self.render_sets += 1
            _, which, value = d["during"]
            target = inst if not which else self.insts[which % len(self.insts)]
            if hasattr(target, "set_state"):
                target.state = value
                target.set_state(value)

    def handler(self, how):
        async def hold(_):
            self.held += 1
            try:
                await asyncio.sleep(1000)
            except asyncio.CancelledError:
                if how == "raise":
                    raise RuntimeError("interrupted") from None
                if how == "plain":
                    raise
        return hold

    async def click(self, i):
        """an event whose handler is still busy when the layout is closed"""
        t = self.targets
        if t:
            await self.layout.deliver({"type": "layout-event", "target": t[i % len(t)], "data": [{}]})

    def effect(self, inst, j, spec, req, deps):
        w = self
        iid = inst.iid

        def begin():
            w.log.append(("start", iid, j, req))
            if spec.get("set") is not None and w.effect_sets < 4:
                w.effect_sets += 1
                inst.state = spec["set"]
                inst.set_state(spec["set"])

        def cleaner():
            def cleanup():
                w.log.append(("cleanup", iid, j, req))
                if spec.get("fail") == "cleanup":
                    raise RuntimeError("cleanup failed")
            return cleanup if spec["cleanup"] else None

        if spec["kind"] == "sync":
            def fn():
                begin()
                if spec.get("fail") == "run":
                    w.log.append(("failed", iid, j, req))
                    raise RuntimeError("effect failed")
                w.log.append(("end", iid, j, req))
                return cleaner()
            use_effect(fn, deps)
            return

        async def fn():
            begin()
            try:
                for s in spec["steps"]:
                    await asyncio.sleep(s)
            except asyncio.CancelledError:
                if spec.get("slow"):
                    # releasing resources takes a while
                    for s in spec["slow"]:
                        await asyncio.sleep(s)
                w.log.append(("cancelled", iid, j, req))
                raise
            if spec.get("fail") == "run":
                w.log.append(("failed", iid, j, req))
                raise RuntimeError("effect failed")
            w.log.append(("end", iid, j, req))
            return cleaner()
        if spec["kind"] == "shield":
            use_async_effect(fn, deps, shield=True)
        else:
            use_async_effect(fn, deps)

    # ---- consumer
    async def pull(self, n):
        got = 0
        while got < n:
            if self.pending is None:
                self.pending = asyncio.ensure_future(self.layout.render())
            await self.loop.settle(advance=False)
            if not self.pending.done():
                break
            self.pending, t = None, self.pending
            found = [h["target"] for m in W.walk(t.result()["model"]) for h in m.get("eventHandlers", {}).values()]
            self.targets = found or self.targets
            got += 1
            if self.seq > 4000:
                raise Violation("renders never end")
        return got

    async def drain(self):
        while True:
            k = await self.pull(1000)
            await self.loop.settle()
            if not k and (self.pending is None or not self.pending.done()):
                return

    # ---- oracle
    def live(self):
        by_slot = {}
        for i in self.insts:
            if i.slot not in by_slot or by_slot[i.slot].seq < i.seq:
                by_slot[i.slot] = i
        res = []

        def go(i):
            res.append(i)
            d = self.prog["defs"][i.cid]
            if d["kids"]:
                for n, _ in enumerate(d["kids"][i.state % len(d["kids"])]):
                    c = by_slot.get((i.iid, i.renders, n))
                    if c is None:
                        raise Violation(f"child {n} of instance {i.iid} was not rendered")
                    go(c)
        go(by_slot["root"])
        return res

    def runs(self):
        r = {}
        for pos, (what, iid, j, req) in enumerate(self.log):
            if j >= 0:
                r.setdefault((iid, j), []).append((what, req, pos))
        return r

    def check_log(self):
        """Always-true facts about the log so far."""
        rendered = {(iid, req): pos for pos, (what, iid, j, req) in enumerate(self.log) if what == "rendered"}
        for parent, kids in self.passes.items():
            group = [parent, *kids]
            last = max(rendered.get(x, -1) for x in group)
            for x in group:
                rendered[x] = max(last, rendered.get(x, 1 << 60))
        for (iid, j), evs in self.runs().items():
            spec = self.prog["defs"][self.insts[iid].cid]["effects"][j]
            req_ok = self.insts[iid].requested.get(j, [])
            where = f"effect {j} ({spec['kind']}, deps {spec['deps']}) of instance {iid}"
            active = None     # running body
            held = None       # finished body whose cleanup is due
            done = set()
            started = []
            for what, req, pos in evs:
                if what == "start":
                    if req not in req_ok:
                        raise Violation(f"{where} ran for render {req}, but its dependencies did not change (runs due: {req_ok})")
                    if req in started:
                        raise Violation(f"{where} ran twice for render {req}")
                    if started and req < started[-1]:
                        raise Violation(f"{where} ran for render {req} after having run for render {started[-1]}")
                    if rendered.get((iid, req), 1 << 60) > pos:
                        raise Violation(f"{where} started before its render finished")
                    if active is not None:
                        raise Violation(f"{where}: run for render {req} started while the run for render {active} was still in progress")
                    if held is not None:
                        raise Violation(f"{where}: run for render {req} started before the cleanup of the run for render {held}")
                    started.append(req)
                    active = req
                elif what in ("end", "cancelled", "failed"):
                    if active != req:
                        raise Violation(f"{where}: unexpected {what} of run {req}")
                    active = None
                    if what == "cancelled" and spec["kind"] == "shield":
                        raise Violation(f"{where}: a shielded run was cancelled")
                    if what == "end" and spec["cleanup"]:
                        held = req
                elif what == "cleanup":
                    if req in done:
                        raise Violation(f"{where}: cleanup of run {req} executed twice")
                    if held != req:
                        raise Violation(f"{where}: cleanup of run {req} executed, but the run holding resources is {held}")
                    done.add(req)
                    held = None
            yield (iid, j), spec, where, active, held, started

    def check_closed(self, iid, entry, when):
        (i, j), spec, where, active, held, started = entry
        if active is not None:
            raise Violation(f"{when}: {where} is still running (run {active})")
        if held is not None:
            raise Violation(f"{when}: {where} was never cleaned up (run {held})")

    def check_quiet(self):
        live = {i.iid for i in self.live()}
        faulty = {iid for iid in live if any(s.get("fail") for s in self.prog["defs"][self.insts[iid].cid]["effects"])}
        entries = {e[0]: e for e in self.check_log()}
        for e in entries.values():
            if e[0][0] not in live:
                self.check_closed(e[0][0], e, "after unmounting")
        for iid in live:
            inst = self.insts[iid]
            for j, spec in enumerate(self.prog["defs"][inst.cid]["effects"]):
                if spec.get("fail"):
                    continue
                want = inst.requested.get(j, [])
                got = entries[(iid, j)][5] if (iid, j) in entries else []
                where = f"effect {j} ({spec['kind']}, deps {spec['deps']}) of instance {iid}"
                if not want:
                    continue
                if not got or got[-1] != want[-1]:
                    raise Violation(f"{where} never ran for render {want[-1]} (ran for {got})")
                if spec["kind"] == "sync" and got != want:
                    raise Violation(f"{where} should have run for renders {want}, ran for {got}")
        return live


def run(case, rec):
    prog = case["prog"]

    async def main(loop):
        w = World(prog)
        w.loop = loop
        w.layout = Layout(w.comps[0]("root"))
        REACTPY_ASYNC_RENDERING.current = prog["mode"] == "async"
        REACTPY_MAX_QUEUE_SIZE.current = prog.get("queue") or 1000
        overlapped = 0
        leaving = asyncio.Event()

        async def session():
            async with w.layout:
                for op in case["ops"]:
                    k = op[0]
                    if k == "set" and w.insts:
                        inst = w.insts[-1 - op[1] % len(w.insts)]
                        inst.state = op[2]
                        inst.set_state(op[2])
                    elif k == "pull":
                        await w.pull(op[1])
                    elif k == "tick":
                        for _ in range(op[1]):
                            await asyncio.sleep(0)
                    elif k == "sleep":
                        await asyncio.sleep(op[1])
                    elif k == "quiet":
                        await w.drain()
                        w.check_quiet()
                    elif k == "click":
                        await w.click(op[1])
                    for _ in w.check_log():
                        pass
                if case["end"] == "drain":
                    await w.drain()
                    w.check_quiet()
                if w.pending is not None and case["end"] != "cancel-late":
                    w.pending.cancel()
                    try:
                        await w.pending
                    except BaseException:
                        pass
                leaving.set()
        task = asyncio.create_task(session())
        await asyncio.wait([task, asyncio.create_task(leaving.wait())], return_when=asyncio.FIRST_COMPLETED)
        for n in case.get("interrupt", ()):
            if isinstance(n, float):
                await asyncio.sleep(n)
            for _ in range(n if isinstance(n, int) else 0):
                await asyncio.sleep(0)
            if not task.done():
                rec.tag("close interrupted")
                task.cancel()
        await asyncio.wait([task])
        if not task.cancelled() or not case.get("interrupt"):
            task.result()
        closed_at = len(w.log)
        for e in w.check_log():
            w.check_closed(e[0][0], e, "after closing the layout")
        if w.pending is not None:
            w.pending.cancel()
        await loop.settle()
        late = [x for x in w.log[closed_at:]]
        if late:
            raise Violation(f"after closing the layout something still happened: {late[:4]}")
        for e in w.check_log():
            w.check_closed(e[0][0], e, "after closing the layout")
        whats = {x[0] for x in w.log}
        rec.tag(*whats, prog["mode"], "end:" + case["end"], *(["busy handler"] if w.held else []))
        nruns = sum(1 for x in w.log if x[0] == "start")
        ncl = sum(1 for x in w.log if x[0] == "cleanup")
        rec.nt(nruns >= 2 and ncl >= 1)
    try:
        vloop.run(main)
    except vloop.Deadlock as e:
        raise Violation(f"deadlock: {e}")
    finally:
        REACTPY_ASYNC_RENDERING.current = True
        REACTPY_MAX_QUEUE_SIZE.current = 1000


STEPS = [0, 0, 0.01, 0.1, 1.0]


def gen_effect(g, kinds, faults):
    kind = g.pick(kinds)
    s = {"kind": kind, "cleanup": g.p(0.75),
         "deps": g.weighted([(3, "none"), (2, "empty"), (5, None)])}
    if s["deps"] is None:
        s["deps"] = [g.i(0, 2) for _ in range(g.i(2, 4))]
    if kind != "sync":
        s["steps"] = [g.pick(STEPS) for _ in range(g.i(0, 3))]
        if g.p(0.25):
            s["slow"] = [g.pick(STEPS) for _ in range(g.i(1, 2))]
    if g.p(0.12):
        s["set"] = g.i(0, 3)
    if faults and g.p(faults):
        s["fail"] = g.pick(["run", "cleanup"])
    return s


def gen(kinds=("sync", "async", "shield"), faults=0.0, modes=("async", "async", "serial")):
    def f(g):
        n = g.i(1, 4)
        defs = []
        for i in range(n):
            kids = []
            if i < n - 1:
                for _ in range(g.i(1, 3)):
                    row, seen = [], set()
                    for _ in range(g.i(0, 2)):
                        key = g.pick([None, "a", "b"])
                        if key in seen and key is not None:
                            continue
                        seen.add(key)
                        row.append([g.i(i + 1, n - 1), key])
                    kids.append(row)
            defs.append({"during": [g.i(0, 2), g.pick([0, 0, 1, 2, 3]), g.i(0, 3)] if g.p(0.15) else None, "effects": [gen_effect(g, kinds, faults) for _ in range(g.i(1 if i == 0 else 0, 2))], "kids": kids})
        ops = []
        for _ in range(g.i(1, 14 * g.long())):
            k = g.weighted([(7, "set"), (4, "pull"), (4, "tick"), (2, "sleep"), (1.5, "quiet")])
            ops.append({"set": ["set", g.i(0, 6), g.i(0, 3)], "pull": ["pull", g.i(1, 3)], "tick": ["tick", g.i(1, 9)],
                        "sleep": ["sleep", g.pick([0.005, 0.05, 0.5])], "quiet": ["quiet"]}[k])
        hold = g.pick([None, None, None, "raise", "swallow", "plain"])
        if hold:
            ops += [["click", g.i(0, 4)], ["tick", g.i(0, 3)]]
        return {"prog": {"defs": defs, "mode": g.pick(modes), "queue": g.pick([0, 0, 1, 2]), "hold": hold}, "ops": [["pull", 1]] * g.p(0.6) + ops,
                "end": g.weighted([(2, "drain"), (3, "now"), (1, "cancel-late")]),
                "interrupt": [g.pick([0, 1, 2, 3, 5, 8, 13, 0.005, 0.05, 0.5]) for _ in range(g.i(1, 2))] if g.p(0.2) else []}
    return f


ARITY = {"set": 3, "pull": 2, "tick": 2, "sleep": 2, "quiet": 1, "click": 2}


def valid(case):
    try:
        defs = case["prog"]["defs"]
        if not defs or case["prog"]["mode"] not in ("async", "serial") or case["end"] not in ("drain", "now", "cancel-late"):
            return None
        if any(type(n) not in (int, float) or not 0 <= n <= 20 for n in case.get("interrupt", ())):
            return None
        for i, d in enumerate(defs):
            for e in d["effects"]:
                if e["kind"] not in ("sync", "async", "shield") or not isinstance(e["cleanup"], bool):
                    return None
                if not (e["deps"] in ("none", "empty") or isinstance(e["deps"], list) and e["deps"]):
                    return None
                if e["kind"] != "sync" and not isinstance(e["steps"], list):
                    return None
            if d.get("during") and (len(d["during"]) != 3 or any(type(x) is not int or x < 0 for x in d["during"])):
                return None
            for row in d["kids"]:
                seen = [x[1] for x in row if x[1] is not None]
                if len(set(seen)) != len(seen):
                    return None
                for c, key in row:
                    if not i < c < len(defs) or key not in (None, "a", "b"):
                        return None
        for o in case["ops"]:
            if len(o) != ARITY[o[0]]:
                return None
        return case
    except (KeyError, TypeError, IndexError, ValueError):
        return None


SUBS = [
    Sub("sync", gen=gen(kinds=("sync",)), valid=valid, run=run, quick=9000, thorough=200000, shards=4,
        rule="trees of components with sync effects, dependency tables, effect-driven state changes, close at any point; "
             "non-trivial = >=2 effect runs and >=1 cleanup"),
    Sub("async", gen=gen(kinds=("async", "async", "sync")), valid=valid, run=run, quick=12000, thorough=300000, shards=4,
        rule="same with cancellable async effects of generated duration and slow cancellation"),
    Sub("shield", gen=gen(kinds=("shield", "shield", "async", "sync")), valid=valid, run=run, quick=12000, thorough=300000, shards=4,
        rule="same with shielded async effects"),
    Sub("faults", gen=gen(faults=0.3), valid=valid, run=run, quick=9000, thorough=200000, shards=4,
        rule="same with effects and cleanups that raise (cleanup obligations of all other runs still hold)"),
]
