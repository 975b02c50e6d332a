import asyncio
import functools
import logging

from reactpy import component, html
from reactpy.config import REACTPY_ASYNC_RENDERING, REACTPY_DEBUG
from reactpy.core import hooks
from reactpy.core.hooks import (use_async_effect, use_callback, use_debug_value, use_effect, use_memo, use_reducer,
                                use_ref, use_state)
from reactpy.core.layout import Layout

import vloop
import world  # noqa: F401 (silences logging)
from lib import Sub, Violation

PROPERTY = "C07"
ASSUMPTIONS = ["functions defined locally are compared by their code (documented in strictly_equal), all other values by type and =="]


class EqAlways:
    def __eq__(self, o):
        return isinstance(o, EqAlways)
    __hash__ = None


class EqRaises:
    def __eq__(self, o):
        raise RuntimeError("no comparison")
    __hash__ = None


class ArrayLike:
    """== gives an element-wise result that has no truth value, like numpy arrays."""
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        class R:
            def __bool__(self):
                raise ValueError("ambiguous")
        return R()
    __hash__ = None


class Plain:
    pass


P1, P2, R1, R2, A1, A2 = Plain(), Plain(), EqRaises(), EqRaises(), ArrayLike(1), ArrayLike(2)


def f1():
    return 1


def f2():
    return 1


POOL = [
    lambda: 0, lambda: 1, lambda: 2, lambda: False, lambda: True, lambda: 0.0, lambda: 1.0, lambda: "", lambda: "a", lambda: b"a",
    lambda: None, lambda: (), lambda: (1,), lambda: (True,), lambda: [], lambda: [1], lambda: {"a": 1}, lambda: {"a": 2},
    lambda: 10 ** 30, lambda: -0.0, lambda: float("inf"), lambda: 1j, lambda: bytearray(b"a"), lambda: frozenset([1]), lambda: range(3),
    lambda: EqAlways(), lambda: P1, lambda: P2, lambda: R1, lambda: R2, lambda: A1, lambda: A2, lambda: Plain, lambda: EqAlways,
    lambda: f1, lambda: f2, lambda: (lambda: "x"), lambda: (lambda: "y"), lambda: ..., lambda: NotImplemented, lambda: float("nan"),
]
CODE = {36: "x", 37: "y"}   # local functions: compared by code


def differs(i, x, j, y):
    """Reference comparison of pool values x (index i) and y (index j)."""
    if i in CODE and j in CODE:
        return i != j
    if type(x) is not type(y):
        return True
    try:
        return not bool(x == y)
    except Exception:
        return x is not y


def deps_changed(old, new):
    if len(old) != len(new):
        return True
    return any(differs(i, x, j, y) for (i, x), (j, y) in zip(old, new))


class Boom(Exception):
    pass


class Slot:
    def __init__(self):
        self.have = False
        self.deps = None
        self.value = None
        self.first = None


class Inst:
    def __init__(self, iid):
        self.iid = iid
        self.renders = 0
        self.slots = {}
        self.inits = 0


class Capture(logging.Handler):
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.out = []

    def emit(self, r):
        self.out.append(r.getMessage())


def infer(kind, log, a, b, n):
    """Functions closing over 0, 1 or 2 generated variables (besides the constant ``log``)."""
    if n == 0:
        return lambda: log()
    if n == 1:
        return lambda: (log(), a)[0]
    return lambda: (log(), a, b)[0]


def run(case, rec):
    hs = case["hooks"]
    debug = any(h["kind"] == "debug" for h in hs)
    cap = Capture()

    async def main(loop):
        insts = {}
        effects = []    # (iid, j, render)
        want_effects = []
        want_debug = []
        classes = set()

        @component
        def C(name):
            ref = use_ref(None)
            inst = ref.current
            if inst is None:
                if name in insts:
                    raise Violation(f"instance {name} lost its ref")
                inst = ref.current = insts[name] = Inst(name)
                inst.ref = ref
            if inst is not insts[name] or ref is not inst.ref:
                raise Violation(f"instance {name} got a different ref / another instance's ref")
            r = inst.renders
            inst.renders += 1
            step, set_step = use_state(0)
            if r == 0:
                inst.set_step = set_step
            elif set_step is not inst.set_step:
                raise Violation("the state setter changed between renders")
            out = []
            for j, h in enumerate(hs):
                slot = inst.slots.setdefault(j, Slot())
                row = h["rows"][step % len(h["rows"])]
                kind = h["kind"]
                where = f"hook {j} ({kind}) of {name}, render {r} (rows {h['rows'][:step + 1]})"
                if kind == "ref":
                    v = use_ref(POOL[row["d"][0]]() if row["d"] else None)
                    if slot.first is None:
                        slot.first = v
                        v.current = slot.value = [r]
                    elif v is not slot.first or v.current is not slot.value:
                        raise Violation(f"{where}: a different ref or a reset value")
                    if row["fail"]:
                        v.current = slot.value = [r]
                    continue
                if kind == "const":
                    def init():
                        inst.inits += 1
                        return [name, j]
                    st = use_state(init)
                    if slot.first is None:
                        slot.first = (st.value, st.set_value)
                    elif slot.first[0] is not st.value or slot.first[1] is not st.set_value:
                        raise Violation(f"{where}: initial value created again")
                    if st.value != [name, j]:
                        raise Violation(f"{where}: got {st.value} (another slot's value)")
                    continue
                if kind == "reducer":
                    v, dispatch = use_reducer(lambda s, a: s, (name, j))
                    if v != (name, j):
                        raise Violation(f"{where}: got {v}")
                    if slot.first is None:
                        slot.first = dispatch
                    elif slot.first is not dispatch:
                        raise Violation(f"{where}: the dispatcher changed between renders")
                    continue
                # --- hooks with dependencies
                vals = [(i, POOL[i]()) for i in row["d"]]
                if kind == "debug":
                    i = row["d"][0] if row["d"] else 0
                    msg = f"m{i}"
                    if slot.value != msg:
                        slot.value = msg
                        want_debug.append(msg)
                    use_debug_value(msg if h["form"] == "plain" else (lambda: msg))
                    continue
                mode = row["mode"]
                ran = []
                fail = row["fail"] and kind == "memo"

                def log():
                    ran.append(1)
                    if fail:
                        raise Boom("memo failed")
                    return (name, j, r)
                if mode == "none":
                    deps, ref_deps = None, None
                elif mode == "infer":
                    # deps are the captured variables
                    vals = vals[:2]
                    a = vals[0][1] if vals else None
                    b = vals[1][1] if len(vals) > 1 else None
                    lg = inst.slots[j].__dict__.setdefault("log_obj", LogCell())
                    lg.fn = log
                    fn = infer(kind, lg, a, b, len(vals))
                    deps, ref_deps = ..., [*vals, (-1, lg)]
                elif mode == "partial":
                    deps, ref_deps = ..., None
                    fn = functools.partial(log)
                elif mode == "self":
                    # refers to itself through its own (not yet assigned) variable
                    deps, ref_deps = ..., None
                else:
                    if h.get("alias"):
                        buf = slot.__dict__.setdefault("buf", [])
                        buf[:] = [v for _, v in vals]
                        deps = buf
                    else:
                        deps = tuple(v for _, v in vals) if len(vals) % 2 else [v for _, v in vals]
                    ref_deps = vals
                if mode in ("none", "list"):
                    def fn():
                        return log()
                need = not slot.have or ref_deps is None or slot.deps is None or deps_changed(slot.deps, ref_deps)
                # a computation without dependencies counts as having an empty list
                if slot.have and slot.deps is None and ref_deps is not None:
                    need = None   # from absent to given dependencies: either is fine
                classes.add(mode + (":" + ("recompute" if need else "keep")))
                if kind == "memo":
                    if mode == "self":
                        try:
                            @use_memo
                            def selfish():
                                selfish  # noqa: B018
                                return log()
                        except NameError:
                            ran.append(1)
                            classes.add("self-memo")
                            continue
                        raise Violation("self reference resolved?")
                    try:
                        if h["form"] == "decorator":
                            got = use_memo(dependencies=deps)(fn) if deps is not ... else use_memo(fn)
                        else:
                            got = use_memo(fn, deps)
                    except Boom:
                        if need is False:
                            raise Violation(f"{where}: recomputed although the dependencies did not change")
                        classes.add("memo-raised")
                        raise
                    if need is None:
                        need = bool(ran)
                    if bool(ran) != need or len(ran) > 1:
                        raise Violation(f"{where}: computed {len(ran)} times, expected {'one' if need else 'no'} computation")
                    want = (name, j, r) if need else slot.value
                    if got != want:
                        raise Violation(f"{where}: got the value {got}, expected {want}")
                    slot.have, slot.value = True, want
                    if need:
                        slot.deps = ref_deps
                elif kind == "callback":
                    if mode == "self":
                        @use_callback
                        def cb():
                            return cb
                        continue
                    got = use_callback(dependencies=deps)(fn) if h["form"] == "decorator" and deps is not ... else use_callback(fn, deps)
                    if need is None:
                        need = got is fn
                    want = fn if need else slot.value
                    if got is not want:
                        raise Violation(f"{where}: callback identity {'kept' if need else 'changed'}")
                    slot.have, slot.value = True, want
                    if need:
                        slot.deps = ref_deps
                elif kind == "effect":
                    def eff(r=r, j=j):
                        effects.append((name, j, r))
                    if mode == "self":
                        self_effect(eff)
                    elif mode == "infer":
                        # same closure, effect form
                        lg.fn = eff
                        use_effect(infer(kind, lg, a, b, len(vals)))
                    elif mode == "partial":
                        use_effect(functools.partial(eff))
                    else:
                        use_effect(eff, deps)
                    if need:
                        want_effects.append((name, j, r))
                        slot.deps = ref_deps
                    slot.have = True
            return html.p(str(r))

        @component
        def Root():
            n, sn = use_state(0)
            insts.setdefault("__root", sn)
            return html.div(*[C(f"c{k}", key=str(k)) if case["keyed"] else C(f"c{k}") for k in range(case["n"])])

        REACTPY_ASYNC_RENDERING.current = case["mode"] == "async"
        layout = Layout(Root())
        async with layout:
            async def drain():
                while True:
                    t = asyncio.ensure_future(layout.render())
                    await loop.settle()
                    if not t.done():
                        t.cancel()
                        return
                    t.result()
            await drain()
            cur = {}
            for op in case["ops"]:
                if op[0] == "root":
                    cur["root"] = cur.get("root", 0) + 1
                    insts["__root"](cur["root"])
                else:
                    i = insts.get(f"c{op[1] % case['n']}")
                    if i is not None:
                        i.set_step(op[2])
                await drain()
                if not any(h["kind"] == "effect" for h in hs):
                    continue
                if sorted(effects) != sorted(want_effects):
                    raise Violation(f"effects ran for {sorted(effects)}, due were {sorted(want_effects)}")
        if debug:
            got = [m.split()[-1] for m in cap.out if "Component" in m or " m" in m]
            got = [m for m in got if m.startswith("m") and m[1:].isdigit()]
            if sorted(got) != sorted(want_debug):
                raise Violation(f"debug values logged {got}, expected {want_debug}")
        rec.tag(*classes, *{h["kind"] for h in hs})
        for i in range(case["n"]):
            ni = sum(1 for h in hs if h["kind"] == "const")
            inst = insts.get(f"c{i}")
            if inst and inst.inits > ni:
                raise Violation(f"initial values were created {inst.inits} times for {ni} hooks")
        rec.nt(any(c.endswith("recompute") for c in classes) and any(c.endswith("keep") for c in classes))

    lg = logging.getLogger("reactpy.core.hooks")
    try:
        if debug:
            REACTPY_DEBUG.current = True
            lg.isEnabledFor = lambda level: True
            lg.propagate = False
            lg.addHandler(cap)
        vloop.run(main)
    except vloop.Deadlock as e:
        raise Violation(f"deadlock: {e}")
    finally:
        REACTPY_ASYNC_RENDERING.current = True
        if debug:
            REACTPY_DEBUG.current = False
            lg.removeHandler(cap)
            lg.propagate = True
            del lg.isEnabledFor


def self_effect(eff):
    @use_effect
    def e2():
        e2  # noqa: B018
        eff()


class LogCell:
    """Stable object the generated functions close over."""
    fn = None

    def __call__(self):
        return self.fn()


def gen(g):
    hs = []
    for _ in range(g.i(1, 5)):
        kind = g.weighted([(5, "memo"), (3, "callback"), (2, "ref"), (1, "const"), (1, "reducer"), (3, "effect"), (0.5, "debug")])
        mix = g.pick([["list"], ["list"], ["list", "none"], ["infer"], ["list", "partial"], ["infer", "list"], ["self"], ["list"]])
        if kind == "memo" and mix == ["self"]:
            mix = ["list"]
        if kind == "effect" and len(mix) > 1:
            mix = mix[:1]
        base = [g.i(0, len(POOL) - 1) for _ in range(3)]
        rows = []
        for _ in range(g.i(1, 4)):
            ln = g.weighted([(2, 0), (4, 1), (4, 2), (1, 3)])
            d = [base[k] if g.p(0.5) else g.pick([base[k], (base[k] + 1) % len(POOL), g.i(0, len(POOL) - 1)]) for k in range(ln)]
            rows.append({"d": d, "mode": g.pick(mix), "fail": g.p(0.12)})
        hs.append({"kind": kind, "rows": rows, "form": g.pick(["plain", "decorator"]), "alias": g.p(0.2)})
    n = g.i(1, 2)
    ops = [["root"] if g.p(0.2) else ["step", g.i(0, 1), g.i(0, 4)] for _ in range(g.i(1, 8 * g.long()))]
    return {"hooks": hs, "n": n, "keyed": g.p(0.5), "mode": g.pick(["async", "async", "serial"]), "ops": ops}


def valid(c):
    try:
        if not c["hooks"] or c["n"] not in (1, 2) or c["mode"] not in ("async", "serial"):
            return None
        for h in c["hooks"]:
            if h["kind"] not in ("memo", "callback", "ref", "const", "reducer", "effect", "debug") or not h["rows"] or h["form"] not in ("plain", "decorator"):
                return None
            if not isinstance(h["alias"], bool):
                return None
            if h["kind"] == "effect" and len({r["mode"] for r in h["rows"]}) > 1:
                return None
            for r in h["rows"]:
                if r["mode"] not in ("list", "none", "infer", "partial", "self") or any(type(x) is not int or not 0 <= x < len(POOL) for x in r["d"]):
                    return None
                if not isinstance(r["fail"], bool) or h["kind"] == "memo" and r["mode"] == "self":
                    return None
        for o in c["ops"]:
            if o[0] == "step" and len(o) == 3 and type(o[2]) is int and o[2] >= 0 or o == ["root"]:
                continue
            return None
        return c
    except (KeyError, TypeError, IndexError):
        return None


# ---------------------------------------------------------------- the comparison itself
def run_eq(case, rec):
    for i in case["xs"]:
        for j in case["xs"]:
            x, y = POOL[i](), POOL[j]()
            got = hooks.strictly_equal(x, y)
            if got is not (not differs(i, x, j, y)):
                raise Violation(f"strictly_equal({x!r}, {y!r}) is {got}")
    rec.nt(len(set(case["xs"])) > 1)


SUBS = [
    Sub("hooks", gen=gen, valid=valid, run=run, quick=21000, thorough=500000, shards=6,
        rule="components with 1-5 hooks of 7 kinds and per-step dependency rows over 41 values of many types (explicit, absent, inferred, aliased), "
             "two instances, failing computations, both modes; non-trivial = some hook recomputed and some hook kept its value"),
    Sub("equality", gen=lambda g: {"xs": [g.i(0, len(POOL) - 1) for _ in range(8)]}, run=run_eq, quick=600, thorough=2000,
        valid=lambda c: c if all(0 <= x < len(POOL) for x in c.get("xs", [99])) else None,
        rule="pairs of dependency values against the reference comparison; non-trivial = at least two different values"),
]
