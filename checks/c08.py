import asyncio

from reactpy import component, html
from reactpy.config import REACTPY_ASYNC_RENDERING
from reactpy.core.hooks import (ConnectionContext, create_context, use_connection, use_context, use_location, use_ref, use_scope,
                                use_state)
from reactpy.core.layout import Layout
from reactpy.types import Connection, Location

import c01
import vloop
import world as W
from lib import Sub, Violation

PROPERTY = "C08"
ASSUMPTIONS = c01.ASSUMPTIONS


# ------------------------------------------------------------------ whole-program check
def run(case, rec):
    async def script(w):
        n = 0
        provided = False
        for op in case["ops"]:
            n += await c01.play(w, [op], rec, drain=False)
            if op[0] == "drain":
                w.assert_converged()
        await w.drain()
        w.assert_converged()
        for m in W.walk(w.doc):
            for v in (m.get("attributes") or {}).get("data-c", ()):
                if not v.startswith("default"):
                    provided = True
        rec.tag(case["prog"]["mode"], "provided" if provided else "default-only")
        rec.nt(provided and n >= 1 and len(w.msgs) >= 2)
    W.run_world(case["prog"], script)


def gen(**kw):
    return lambda g: {"prog": W.gen_prog(g, provs=3.0, reads=0.9, max_defs=4, memo=0.1, **kw), "ops": c01.gen_ops(g, 12)}


# ------------------------------------------------------------------ values and ownership
class Obj:
    pass


OBJ = Obj()
POOL = [lambda: None, lambda: 0, lambda: False, lambda: "", lambda: [], lambda: [1], lambda: {"a": 1}, lambda: OBJ,
        lambda: Obj(), lambda: "x", lambda: (1, 2), lambda: 1.5, lambda: Obj, lambda: (lambda: 3), lambda: "default"]
DEFAULTS = ["default", None, 0]


class Inst:
    pass


class World2:
    def __init__(self, case):
        self.case = case
        self.ctxs = [create_context(d) for d in DEFAULTS]
        self.vals = [POOL[i]() for i in case["vals"]]
        self.by_token = {}
        self.insts = []
        self.root_renders = 0
        self.used = []     # values handed to providers at the last root render: (slot -> object)
        w = self

        @component
        def Root():
            v, w.set_variant = use_state(0)
            tick, w.set_tick = use_state(0)
            w.root_renders += 1
            w.variant = v
            w.used = list(w.vals)
            return html.div(w.build(w.case["variants"][v % len(w.case["variants"])], (w.root_renders,), ()))
        self.Root = Root

        def User(token, node, env):
            ref = use_ref(None)
            if ref.current is None:
                ref.current = Inst()
                ref.current.own = ["own0"]
                w.insts.append(ref.current)
            inst = ref.current
            w.by_token[token] = inst
            k, inst.bump = use_state(0)
            inst.k = k
            inst.token = token
            inst.seen = {c: use_context(w.ctxs[c]) for c in node["reads"]}
            return html.div(*[w.build(c, token + (i,), env) for i, c in enumerate(node["ch"])])
        self.User = component(User)

        def Owner(token, node, env):
            ref = use_ref(None)
            if ref.current is None:
                ref.current = Inst()
                ref.current.own = ["own0"]
                ref.current.seen = {}
                w.insts.append(ref.current)
            inst = ref.current
            w.by_token[token] = inst
            own, set_own = use_state(inst.own)
            if own is not inst.own:
                raise Violation("owner sees an outdated state")

            def bump(_):
                inst.own = [object()]
                set_own(inst.own)
            inst.bump, inst.k = bump, 0
            inst.token = token
            return w.ctxs[node["ctx"]](*[w.build(c, token + (i,), env) for i, c in enumerate(node["ch"])], value=own)
        self.Owner = component(Owner)

    def build(self, n, token, env):
        t = n["t"]
        kw = {"key": n["key"]} if n.get("key") else {}
        if t == "use":
            return self.User(token, n, env, **kw)
        if t == "own":
            return self.Owner(token, n, env, **kw)
        kids = [self.build(c, token + (i,), env) for i, c in enumerate(n["ch"])]
        if t == "prov":
            if n["src"] is not None:
                kw["value"] = self.used[n["src"] % len(self.used)]
            return self.ctxs[n["ctx"]](*kids, **kw)
        if t == "frag":
            return html._(*kids)
        return html.p(kw, *kids)

    def check(self):
        seen_default = [0, 0]

        def go(n, token, env):
            t = n["t"]
            if t in ("use", "own"):
                inst = self.by_token.get(token)
                if inst is None:
                    raise Violation(f"component at {token} was never rendered")
                if t == "use":
                    for c in n["reads"]:
                        want = env.get(c, DEFAULTS[c])
                        got = inst.seen[c]
                        seen_default[c in env] += 1
                        if got is not want:
                            raise Violation(f"consumer at {token} of context {c} sees {got!r}, the nearest provider gives {want!r}"
                                            + ("" if c in env else " (no provider)"))
                else:
                    env = {**env, n["ctx"]: inst.own}
            elif t == "prov":
                env = {**env, n["ctx"]: self.used[n["src"] % len(self.used)] if n["src"] is not None else DEFAULTS[n["ctx"]]}
            for i, c in enumerate(n["ch"]):
                go(c, token + (i,), env)
        go(self.case["variants"][self.variant % len(self.case["variants"])], (self.root_renders,), {})
        return seen_default


def run_values(case, rec):
    async def main(loop):
        w = World2(case)
        REACTPY_ASYNC_RENDERING.current = case["mode"] == "async"
        layout = Layout(w.Root())
        doc = [None]
        async with layout:
            async def drain():
                while True:
                    t = asyncio.ensure_future(layout.render())
                    await loop.settle()
                    if not t.done():
                        t.cancel()
                        break
                    doc[0] = W.apply_update(doc[0], t.result())
                if "'error'" in repr(doc[0]):
                    raise Violation(f"rendering failed: {doc[0]!r:.500}")
                return w.check()
            s = await drain()
            n = 0
            for op in case["ops"]:
                if op[0] == "val":
                    w.vals[op[1] % len(w.vals)] = POOL[op[2]]()
                elif op[0] == "root":
                    w.set_variant(op[1])
                    n += 1
                    w.set_tick(n)
                elif op[0] == "bump" and w.insts:
                    i = w.insts[-1 - op[1] % len(w.insts)]
                    i.k += 1
                    i.bump(i.k)
                elif op[0] == "tick":
                    for _ in range(op[1]):
                        await asyncio.sleep(0)
                elif op[0] == "drain":
                    s = await drain()
            s = await drain()
            rec.tag(case["mode"], *(["provided"] if s[1] else []), *(["default"] if s[0] else []))
            rec.nt(s[1] >= 1 and w.root_renders >= 2)
    try:
        vloop.run(main)
    finally:
        REACTPY_ASYNC_RENDERING.current = True


def gen_tree(g, depth):
    t = g.weighted([(4, "prov"), (3, "own"), (5, "use"), (1.5, "el"), (0.7, "frag")])
    n = {"t": t, "ch": [gen_tree(g, depth - 1) for _ in range(g.size(1, 2))] if depth else []}
    if t == "prov":
        n["ctx"] = g.i(0, 2)
        n["src"] = None if g.p(0.15) else g.i(0, 2)
    if t == "own":
        n["ctx"] = g.i(0, 2)
    if t == "use":
        n["reads"] = g.some([0, 1, 2], 0.6)
    if t != "frag" and g.p(0.2):
        n["key"] = g.pick(["a", "b", "c"])
    return n


def fix_keys(n):
    seen = set()
    for c in n["ch"]:
        if c.get("key") in seen:
            c.pop("key")
        if c.get("key"):
            seen.add(c["key"])
        fix_keys(c)
    return n


def mutate(g, n):
    import json
    n = json.loads(json.dumps(n))

    def go(x):
        r = g.random()
        if r < 0.25 and x["ch"]:            # remove a level
            x["ch"] = x["ch"][0]["ch"] + x["ch"][1:]
        elif r < 0.4:
            x["ch"] = [{"t": "prov", "ctx": g.i(0, 2), "src": g.i(0, 2), "ch": x["ch"]}]
        elif r < 0.5 and x["t"] == "prov":
            x["ctx"] = g.i(0, 2)
        elif r < 0.6:
            g.shuffle(x["ch"])
        for c in x["ch"]:
            go(c)
    go(n)
    return n


def gen_values(g):
    vs = [gen_tree(g, g.i(2, 4))]
    for _ in range(g.i(0, 2)):
        vs.append(mutate(g, g.pick(vs)))
    ops = []
    for _ in range(g.i(1, 10)):
        k = g.weighted([(3, "val"), (3, "root"), (4, "bump"), (2, "tick"), (2, "drain")])
        ops.append({"val": ["val", g.i(0, 2), g.i(0, len(POOL) - 1)], "root": ["root", g.i(0, 2)], "bump": ["bump", g.i(0, 6)],
                    "tick": ["tick", g.i(1, 4)], "drain": ["drain"]}[k])
    return {"variants": [fix_keys(v) for v in vs], "vals": [g.i(0, len(POOL) - 1) for _ in range(3)], "ops": ops,
            "mode": g.pick(["async", "async", "serial"])}


def valid_values(c):
    try:
        def ok(n):
            if n["t"] not in ("prov", "own", "use", "el", "frag"):
                return False
            if n["t"] in ("prov", "own") and n["ctx"] not in (0, 1, 2):
                return False
            if n["t"] == "prov" and not (n["src"] is None or type(n["src"]) is int):
                return False
            if n["t"] == "use" and any(r not in (0, 1, 2) for r in n["reads"]):
                return False
            if n.get("key", "a") not in ("a", "b", "c"):
                return False
            return all(ok(x) for x in n["ch"])
        if not c["variants"] or not all(ok(v) for v in c["variants"]) or not c["vals"] or c["mode"] not in ("async", "serial"):
            return None
        if any(type(v) is not int or not 0 <= v < len(POOL) for v in c["vals"]):
            return None
        for o in c["ops"]:
            if len(o) != {"val": 3, "root": 2, "bump": 2, "tick": 2, "drain": 1}[o[0]]:
                return None
            if o[0] == "val" and not 0 <= o[2] < len(POOL):
                return None
        for v in c["variants"]:
            fix_keys(v)
        return c
    except (KeyError, TypeError, IndexError):
        return None


# ------------------------------------------------------------------ connection hooks
def run_conn(case, rec):
    async def main(loop):
        seen = []

        @component
        def Leaf():
            seen.append((use_connection(), use_scope(), use_location()))
            return None

        @component
        def Mid(n):
            return html.div(Leaf()) if not n else html.p(Mid(n - 1))
        conn = Connection(scope={"p": case["path"]}, location=Location(case["path"], case["query"]), carrier=object())
        inner = Connection(scope={"q": 1}, location=Location("/in", ""), carrier=None)
        tree = Mid(case["depth"])
        want = conn
        if case["shadow"]:
            tree, want = ConnectionContext(tree, value=inner), inner
        async with Layout(ConnectionContext(html.div(tree) if case["shadow"] else tree, value=conn)) as layout:
            await layout.render()
        if len(seen) != 1 or seen[0][0] is not want or seen[0][1] is not want.scope or seen[0][2] is not want.location:
            raise Violation(f"connection hooks returned {seen}, expected {want}")
        rec.nt(True)
    vloop.run(main)


SUBS = [
    Sub("programs", gen=gen(), valid=c01.valid, run=run, quick=12000, thorough=300000, shards=4,
        rule="C01-style component programs in which about a third of the nodes are providers (3 contexts, state-driven values, shadowing) "
             "and components read random contexts; non-trivial = a shown consumer sees a provided value and something changed"),
    Sub("values", gen=gen_values, valid=valid_values, run=run_values, quick=13500, thorough=300000, shards=4,
        rule="nested provider / owner / consumer trees with values of any type (None, falsy, unhashable, equal-but-distinct), structural variants, "
             "own re-renders of consumers; consumers must see the identical object; non-trivial = a provided value is seen and the root rendered twice"),
    Sub("connection", gen=lambda g: {"path": g.pick(["/", "/a/b", ""]), "query": g.pick(["", "?x=1"]), "depth": g.i(0, 4), "shadow": g.p(0.5)},
        valid=lambda c: c if set(c) == {"path", "query", "depth", "shadow"} and type(c["depth"]) is int and 0 <= c["depth"] < 9 else None,
        run=run_conn, quick=90, thorough=200, rule="connection hooks at any depth, shadowed or not"),
]
