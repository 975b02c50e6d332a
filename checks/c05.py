import c01
import world as W
from lib import Sub, Violation

PROPERTY = "C05"
ASSUMPTIONS = c01.ASSUMPTIONS


def run(case, rec):
    async def script(w):
        n = 0
        for op in case["ops"]:
            n += await c01.play(w, [op], rec, drain=False)
            if op[0] == "drain":
                check(w, rec)
        await w.drain()
        live = check(w, rec)
        # everything that can be restored, is: set every live instance back to each variant
        for s in case["after"]:
            for i in list(live):
                w.do_set(w.insts[i], ("to", s))
            await w.drain()
            live = check(w, rec)
        # the layout still reacts to events
        for t in w.targets():
            k = len(w.hlog)
            await w.layout.deliver({"type": "layout-event", "target": t[0], "data": []})
            await w.loop.settle()
            if len(w.hlog) == k or w.hlog[k][:3] != (t[2], t[3], t[1]):
                raise Violation(f"handler {t} is shown but did not run")
            break
        await w.drain()
        check(w, rec)
        rec.nt(n and "failed" in rec.tags)
    W.run_world(case["prog"], script)


def check(w, rec):
    live = w.assert_converged()
    w.assert_liveness(live)
    s = str(w.shown())
    if "'error'" in s:
        rec.tag("failed")
        w.saw_error = True
    elif getattr(w, "saw_error", False):
        rec.tag("recovered")
    return live


def valid(case):
    if not isinstance(case.get("after"), list) or any(not isinstance(x, int) for x in case["after"]):
        return None
    c = c01.valid(case)
    return c and {**c, "after": case["after"]}


def gen(**kw):
    def f(g):
        return {"prog": W.gen_prog(g, **kw), "ops": c01.gen_ops(g, 10), "after": [g.i(0, 2) for _ in range(g.i(0, 3))]}
    return f


SUBS = [
    Sub("raise", gen=gen(raises=0.12, memo=0.08, twice=0.05), valid=valid, run=run, quick=15000, thorough=400000, shards=4,
        rule="C01 programs in which variants raise while building the tree; non-trivial = an error node was shown and a change was made"),
    Sub("invalid", gen=gen(raises=0.05, bad=0.06, dups=0.3, pkey=0.6, keys=["a", "b"], memo=0.05), valid=valid, run=run, quick=15000, thorough=400000, shards=4,
        rule="same with duplicate sibling keys (failure after some children were already rendered)"),
]
