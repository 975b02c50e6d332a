from lib import Sub, Violation
import world as W

PROPERTY = "C01"
ASSUMPTIONS = [
    "asyncio runs ready callbacks in FIFO order (virtual-time loop keeps that)",
    "a client applies messages in the order received and replaces the addressed node",
]


def gen_ops(g, n=16, extra=()):
    out = []
    for _ in range(g.i(1, n * g.long())):
        k = g.weighted([(6, "add"), (2, "set"), (4, "ev"), (3, "pull"), (4, "tick"), (1.5, "drain"), (1.5, "settle"),
                        *extra])
        out.append({"add": lambda: ["add", g.i(0, 12), g.i(1, 2)], "set": lambda: ["set", g.i(0, 12), g.i(0, 3)],
                    "ev": lambda: ["ev", g.i(0, 12)], "pull": lambda: ["pull", g.i(1, 3)],
                    "tick": lambda: ["tick", g.i(1, 8)]}.get(k, lambda: [k])())
    return [["pull", 1]] * g.p(0.7) + out


async def play(w, script, rec, drain=True):
    import asyncio
    changes = 0
    slow = 0
    since_pull = 0
    for op in script:
        k = op[0]
        if k in ("add", "set"):
            if w.insts:
                inst = w.insts[-1 - op[1] % len(w.insts)]
                if inst.mounted and inst.unmounted:
                    rec.tag("set-unmounted")
                w.do_set(inst, ("add", op[2]) if k == "add" else ("to", op[2]))
                changes += 1
                since_pull += 1
        elif k == "ev":
            t = w.targets()
            if t:
                target = t[op[1] % len(t)]
                await w.layout.deliver({"type": "layout-event", "target": target[0], "data": [{"x": 1}]})
                changes += 1
                since_pull += 1
        elif k == "pull":
            await w.pull(op[1])
            since_pull = 0
        elif k == "tick":
            for _ in range(op[1]):
                await asyncio.sleep(0)
            if w.pending is not None and w.pending.done():
                task, w.pending = w.pending, None
                w.receive(task.result())
        elif k == "drain":
            await w.drain()
            since_pull = 0
        elif k == "settle":
            await w.loop.settle()
        if since_pull >= 2:
            slow += 1
    if not drain:
        return changes
    await w.drain()
    rec.tag("changes" if changes else "nochange")
    if slow:
        rec.tag("slow-consumer")
    return changes


def run(case, rec):
    async def script(w):
        n = await play(w, case["ops"], rec)
        live = w.assert_converged()
        rec.tag(case["prog"]["mode"], f"msgs{min(len(w.msgs), 10)}", f"inst{min(len(w.insts), 8)}")
        rec.nt(n >= 1 and len(w.msgs) >= 2 and len(w.insts) >= 2)
    W.run_world(case["prog"], script)


def valid(case):
    prog = W.valid_prog(case.get("prog"))
    if prog is None or any(not o or o[0] not in ARITY or len(o) != ARITY[o[0]] for o in case.get("ops", [None])):
        return None
    return {"prog": prog, "ops": case["ops"]}


ARITY = {"add": 3, "set": 3, "ev": 2, "pull": 2, "tick": 2, "drain": 1, "settle": 1}


def gen(**kw):
    return lambda g: {"prog": W.gen_prog(g, **kw), "ops": gen_ops(g)}


SUBS = [
    Sub("converge", gen=gen(memo=0.1, twice=0.08), valid=valid, run=run, quick=12000, thorough=400000, shards=4,
        rule="random component programs (<=5 definitions, keyed/unkeyed children, variants chosen by state) with a random "
             "history of updates/events/pulls/ticks; non-trivial = >=1 change, >=2 messages, >=2 instances"),
    Sub("async", gen=gen(modes=("async",), depth=2, width=3, memo=0.08), valid=valid, run=run, quick=12000, thorough=400000, shards=4,
        rule="same, async mode and small trees (more interleavings per node)"),
]
