import c01
import world as W
from lib import Sub, Violation

PROPERTY = "C02"
ASSUMPTIONS = c01.ASSUMPTIONS + ["an element that only changes its tag keeps its place (not judged: generated elements share one tag)"]
KEYS = ["a", "b", "c", "d", "0", "1", 0, 1, 2, 100, "a/b"]


class R:
    """Reference node: what should persist between renders."""

    def __init__(self, cls, typ=None):
        self.cls = cls          # "el" | "comp"
        self.typ = typ
        self.children = {}
        self.actual = None      # world instance bound to this reference instance
        self.dead = False
        self.node = None


class Ref:
    def __init__(self, w):
        self.w = w
        self.root = R("comp", ("k", w.defs[0]["kind"]))
        self.unmounted = []
        self.kept = 0
        self.reset = 0

    def unmount(self, r):
        if r.typ is not None and r.typ[0] == "k":
            r.dead = True
            self.unmounted.append(r)
        for c in r.children.values():
            self.unmount(c)
        r.children = {}

    def kids(self, ch):
        out = []
        for i, c in enumerate(ch):
            if c["t"] == "none":
                continue
            k = ("key", c["key"]) if c.get("key") is not None and c["t"] not in ("text", "num") else ("pos", i)
            out.append((k, c))
        return out

    def reconcile(self, r, ch):
        pairs = self.kids(ch)
        new = {}
        for k, r_old in r.children.items():
            if k not in dict(pairs):
                self.unmount(r_old)
        for k, c in pairs:
            old = r.children.get(k)
            new_r = self.one(old, c)
            if new_r is not None:
                new[k] = new_r
        r.children = new

    def one(self, old, c):
        t = c["t"]
        if t in ("text", "num"):
            if old is not None:
                self.unmount(old)
            return None
        cls = "el" if t in ("el", "frag") else "comp"
        typ = None
        if t == "comp":
            typ = ("k", self.w.defs[c["def"]]["kind"])
        elif t == "prov":
            typ = ("ctx", c["ctx"])
        if old is not None and (old.cls != cls or old.typ != typ):
            self.unmount(old)
            self.reset += 1
            old = None
        r = old or R(cls, typ)
        if old is not None and t == "comp":
            self.kept += 1
        r.node = c
        if cls == "el":
            self.reconcile(r, c.get("ch", ()))
        elif t == "prov":
            if self.w.dup_children(c) or any(self.w.has_dup(x) for x in c.get("ch", ())):
                for x in r.children.values():
                    self.unmount(x)
                r.children = {}
            else:
                self.reconcile(r, [{"t": "frag", "ch": c.get("ch", ())}])
        return r

    # ---- user component instances: their content is known only once bound to an actual instance
    def sync(self, r, actual, live, seen):
        """Bind, re-render from the instance's ledger state and descend."""
        w = self.w
        if r.actual is None:
            if actual.iid in seen:
                raise Violation(f"a new component (node {actual.last[1]}) reuses the existing instance {actual.iid}: "
                                "its state should have been reset")
            r.actual = actual
            seen.add(actual.iid)
        elif r.actual is not actual:
            raise Violation(f"instance {r.actual.iid} should have kept its identity (state {r.actual.state}), but instance "
                            f"{actual.iid} took its place")
        live.add(actual.iid)
        v = w.variant(w.defs[actual.defid], actual.state, actual.last[2])
        if w.fails(v):
            for c in r.children.values():
                self.unmount(c)
            r.children = {}
        else:
            self.reconcile(r, [v])
        for c in list(self.comps(r)):
            child = w.child_of(actual.iid, c.node["nid"])
            if child is None:
                raise Violation(f"component node {c.node['nid']} was never rendered")
            self.sync(c, child, live, seen)

    def comps(self, r):
        for c in r.children.values():
            if c.typ is not None and c.typ[0] == "k":
                yield c
            else:
                yield from self.comps(c)


def run(case, rec):
    async def script(w):
        ref = Ref(w)
        seen = set()
        await w.drain()

        def check():
            live = set()
            ref.sync(ref.root, w.child_of(None, -1), live, seen)
            # order matters: identity first, then liveness, then the shown tree
            w.assert_liveness(live)
            live2 = w.assert_converged()
            if live2 != live:
                raise Violation(f"live instances {sorted(live2)} differ from the expected {sorted(live)}")
            return live
        live = check()
        changed = 0
        for op in case["ops"]:
            ids = sorted(live)
            inst = w.insts[ids[op[0] % len(ids)]]
            before = {i: w.insts[i].state for i in live}
            w.do_set(inst, ("to", op[1]))
            before[inst.iid] = op[1]
            await w.drain()
            live = check()
            for i in live:
                if w.insts[i].state != before.get(i, 0):
                    raise Violation(f"instance {i} has state {w.insts[i].state}, expected {before.get(i, 0)}")
            changed += 1
        if ref.kept > 1:
            rec.tag("kept")
        if ref.unmounted:
            rec.tag("unmounted")
        if ref.reset:
            rec.tag("type-changed")
        rec.tag(case["prog"]["mode"])
        rec.nt(ref.kept > 1 and bool(ref.unmounted))
    W.run_world(case["prog"], script)


def valid(case):
    prog = W.valid_prog(case.get("prog"))
    if prog is None or any(not isinstance(o, list) or len(o) != 2 or not all(isinstance(x, int) for x in o) for o in case["ops"]):
        return None
    if any(d.get("mount") for d in prog["defs"]):
        return None
    return {"prog": prog, "ops": case["ops"]}


def gen(nv=5, **kw):
    def f(g):
        p = W.gen_prog(g, during=0, keys=KEYS, handlers=0.1, mounts=0, **kw)
        cfg = W.Cfg(keys=KEYS, handlers=0.0, **kw)
        n = len(p["defs"])
        # the root alternates between near variants of one rich tree
        base = {"t": "el", "tag": "div", "ch": [W.gen_node(g, cfg, list(range(1, n)), g.i(1, 2)) for _ in range(g.i(2, 5))]}
        vs = [base]
        for _ in range(g.i(1, nv - 1)):
            vs.append(W.mutate_children(g, cfg, g.pick(vs), list(range(1, n))))
        p["defs"][0]["variants"] = vs
        for d in p["defs"]:
            for v in d["variants"]:
                one_tag(v)
        ops = [[0 if g.p(0.45) else g.i(0, 9), g.i(0, 4)] for _ in range(g.i(2, 10 * g.long()))]
        return {"prog": W.number(p), "ops": ops}
    return f


def one_tag(n):
    if n["t"] == "el":
        n["tag"] = "div"
    for c in n.get("ch", ()):
        one_tag(c)


SUBS = [
    Sub("identity", gen=gen(pkey=0.6, memo=0.05), valid=valid, run=run, quick=12000, thorough=300000, shards=8,
        rule="near-variants of one rich tree (permuted, dropped, inserted, re-keyed children) shown one after another; "
             "non-trivial = some instance kept and some instance unmounted"),
    Sub("mixed", gen=gen(pkey=0.35, provs=True, dups=0.15, memo=0.08), valid=valid, run=run, quick=9000, thorough=200000, shards=8,
        rule="same, with context providers as siblings and duplicate-key errors"),
]
