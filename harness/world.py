"""Component programs as data: build them for reactpy, mirror the client, predict the view.

A *program* is {"defs": [def...], "mode": "async"|"serial", "debug": bool}.
def  = {"kind": int, "variants": [node...], "reads": [ctx...], "mount": delta|0}
node = {"t": "text"|"num"|"none"|"el"|"frag"|"comp"|"prov"|"raise", ...}; every node carries "nid".
Component instances keep one integer state; it selects the variant that is rendered.
"""
from __future__ import annotations

import asyncio
import copy
import json
import logging

import reactpy
from reactpy import component, html
from reactpy.config import REACTPY_ASYNC_RENDERING, REACTPY_CHECK_JSON_ATTRS, REACTPY_CHECK_VDOM_SPEC, REACTPY_DEBUG, REACTPY_MAX_QUEUE_SIZE
from reactpy.core.hooks import create_context, use_context, use_effect, use_ref, use_state
from reactpy.core.layout import Layout
from reactpy.core.events import event as make_event

from lib import HarnessError, Violation
import vloop

logging.disable(logging.CRITICAL)
import warnings
warnings.simplefilter("ignore")

N_KINDS = 3
N_CTX = 3
MAX_UPDATES = 3000


BAD = [dict, lambda: html.p({"key": ["unhashable"]}), lambda: {"tagName": "p", "attributes": None}, lambda: {"tagName": "p", "eventHandlers": {"onClick": "f()"}},
       lambda: {"tagName": "p", "eventHandlers": ["onClick"]}, lambda: {"attributes": {}}, lambda: {"tagName": "p", "children": [{}]}]


class Boom(Exception):
    pass


# --------------------------------------------------------------------------- mirror
def ptr(path):
    if path == "":
        return []
    if not path.startswith("/"):
        raise Violation(f"update path {path!r} is not a JSON pointer")
    return [p.replace("~1", "/").replace("~0", "~") for p in path[1:].split("/")]


def apply_update(doc, msg):
    """What the client does with a layout-update."""
    parts = ptr(msg["path"])
    model = json.loads(json.dumps(msg["model"]))
    if not parts:
        return model
    cur = doc
    try:
        for p in parts[:-1]:
            cur = cur[int(p)] if isinstance(cur, list) else cur[p]
        last = parts[-1]
        if isinstance(cur, list):
            i = int(last)
            cur[i]  # must exist
            cur[i] = model
        else:
            cur[last]
            cur[last] = model
    except (KeyError, IndexError, TypeError, ValueError) as e:
        raise Violation(f"update addresses {msg['path']!r}, which does not exist in the client's document ({e!r})")
    return doc


def walk(model):
    if isinstance(model, dict):
        yield model
        for c in model.get("children", ()):
            yield from walk(c)


def norm(model, drop_targets=True):
    """Normal form: fragments spliced away, targets dropped, empty children dropped."""
    out = []
    _norm_into(model, out, drop_targets)
    return out


def _norm_into(model, out, drop):
    if isinstance(model, str):
        out.append(model)
        return
    if not isinstance(model, dict):
        raise Violation(f"model node is neither text nor object: {model!r}")
    tag = model.get("tagName")
    if tag == "" and "error" in model:
        out.append({"error": model["error"]})
        return
    if tag == "":
        for c in model.get("children", ()):
            _norm_into(c, out, drop)
        return
    n = {"tag": tag}
    at = dict(model.get("attributes") or {})
    if at:
        n["attrs"] = at
    eh = model.get("eventHandlers")
    if eh:
        n["h"] = {k: {kk: vv for kk, vv in v.items() if kk != "target"} for k, v in eh.items()}
    ch = []
    for c in model.get("children", ()):
        _norm_into(c, ch, drop)
    if ch:
        n["ch"] = ch
    out.append(n)


# --------------------------------------------------------------------------- world
class Inst:
    __slots__ = ("iid", "kind", "state", "set_state", "last", "seq", "renders", "defid",
                 "mounted", "unmounted", "seen", "rendering_state", "refobj", "ref_bad",
                 "own_changes", "forced", "provs", "handler_calls", "applied", "memo")

    def __init__(self, iid):
        self.iid = iid
        self.state = 0
        self.set_state = None
        self.last = None      # (parent iid, nid, prop) at last render
        self.seq = -1
        self.renders = 0
        self.mounted = 0
        self.unmounted = 0
        self.seen = None
        self.defid = None
        self.own_changes = 0
        self.applied = []
        self.memo = {}        # nid -> (object, what it was built from)


class Snap:
    """What a memoised node was built from."""
    __slots__ = ("iid", "seq", "state", "ctxvals", "memo")

    def __init__(self, inst, ctxvals):
        self.iid, self.seq, self.state, self.ctxvals, self.memo = inst.iid, inst.seq, inst.seen, ctxvals, inst.memo


class World:
    def __init__(self, prog, effects=True):
        self.prog = prog
        self.defs = prog["defs"]
        self.insts = []
        self.seq = 0
        self.hlog = []            # (iid, nid, event, seq, data)
        self.render_log = []      # (seq, iid)
        self.effects = effects
        self.layout = None
        self.doc = {}
        self.msgs = []
        self.pending = None
        self.ctxs = [create_context(f"default{i}") for i in range(N_CTX)]
        self.gates = {}
        self.order_problem = None
        self.during_sets = 0
        self.kinds = [self._make_kind(k) for k in range(N_KINDS)]
        self.max_seq_shown = {}

    # ----- components
    def _make_kind(self, k):
        world = self

        def render(parent, nid, defid, prop):
            ref = use_ref(None)
            if ref.current is None:
                ref.current = Inst(len(world.insts))
                ref.current.kind = k
                world.insts.append(ref.current)
            inst = ref.current
            value, set_value = use_state(0)
            inst.set_state = set_value
            if inst.kind != k:
                raise Violation("an instance was handed to a component of another type")
            # the value seen must be the ledger value at this moment
            inst.seen = value
            if value != inst.state:
                world.order_problem = (
                    f"instance {inst.iid} rendered with state {value}, but the updates issued so far give {inst.state}")
            world.seq += 1
            inst.seq = world.seq
            inst.renders += 1
            inst.last = (parent, nid, prop)
            inst.defid = defid
            world.render_log.append((world.seq, inst.iid))
            d = world.defs[defid]
            world.meanwhile(d, inst)
            ctxvals = [use_context(world.ctxs[c]) for c in d.get("reads", ())]

            if world.effects:
                def mount():
                    inst.mounted += 1

                    def cleanup():
                        inst.unmounted += 1
                    if d.get("mount") and inst.mounted == 1:
                        world.do_set(inst, ("add", d["mount"]))
                    return cleanup

                use_effect(mount, [])
            v = world.variant(d, value, prop)
            return world.build(v, inst, ctxvals)

        render.__name__ = render.__qualname__ = f"K{k}"
        return component(render)

    @staticmethod
    def variant(d, state, prop):
        vs = d["variants"]
        return vs[(state + prop) % len(vs)]

    def build(self, n, inst, ctxvals):
        if not n.get("memo"):
            return self.build_now(n, inst, ctxvals)
        if n["nid"] not in inst.memo:  # the very same object is returned by every render
            inst.memo[n["nid"]] = (self.build_now(n, inst, ctxvals), Snap(inst, ctxvals))
        return inst.memo[n["nid"]][0]

    def build_now(self, n, inst, ctxvals):
        t = n["t"]
        if t == "text":
            return n["v"]
        if t == "num":
            return n["v"]
        if t == "none":
            return None
        if t == "raise":
            raise Boom(f"boom{n['nid']}")
        if t == "bad":
            return BAD[n["how"]]()
        kids = []
        for c in n.get("ch", ()):
            k = self.build(c, inst, ctxvals)
            kids += [k, k] if c.get("twice") else [k]
        if t == "frag":
            if n.get("key") is not None:
                return html._({"key": n["key"]}, *kids)
            # a leading dict that is no VDOM would be taken for the attributes
            return html._({}, *kids) if kids and type(kids[0]) is dict else html._(*kids)
        if t == "comp":
            kw = {"key": n["key"]} if n.get("key") is not None else {}
            d = self.defs[n["def"]]
            return self.kinds[d["kind"]](inst.iid, n["nid"], n["def"], self.prop_of(n, inst), **kw)
        if t == "prov":
            return self.ctxs[n["ctx"]](*kids, value=self.prov_value(n, inst.state if inst.seen is None else inst.seen),
                                       key=n.get("key"))
        if t == "el":
            attrs = self.el_attrs(n, inst.iid, inst.seq, ctxvals)
            for ev, spec in n.get("h", {}).items():
                attrs[ev] = self.handler(n, inst, ev, spec, inst.seq)
            return getattr(html, n["tag"])(attrs, *kids)
        raise HarnessError(f"bad node {t}")

    @staticmethod
    def prop_of(n, inst):
        p = n.get("prop", 0)
        return inst.seen + n.get("off", 0) if p == "state" else p

    @staticmethod
    def prov_value(n, state):
        return f"v{n['val']}" if n["val"] != "state" else f"s{state}"

    @staticmethod
    def el_attrs(n, iid, seq, ctxvals):
        a = {"data-i": iid, "data-n": n["nid"], "data-v": seq, **n.get("attrs", {})}
        if n.get("key") is not None:
            a["key"] = n["key"]
        if n.get("frozen"):
            a["data-m"] = 1
        if ctxvals:
            a["data-c"] = list(ctxvals)
        return a

    def handler(self, n, inst, ev, spec, seq):
        world = self

        async def run(args):
            world.hlog.append((inst.iid, n["nid"], ev, seq, args))
            for act in spec["do"]:
                if act[0] == "set":
                    world.do_set(inst, ("to", act[1]))
                elif act[0] == "add":
                    world.do_set(inst, ("add", act[1]))
                elif act[0] == "yield":
                    for _ in range(act[1]):
                        await asyncio.sleep(0)
                elif act[0] == "sleep":
                    await asyncio.sleep(act[1])
                elif act[0] == "boom":
                    raise Boom("handler")
            world.hlog.append((inst.iid, n["nid"], ev, seq, "end"))

        if spec.get("sync"):
            def fn(*args):
                world.hlog.append((inst.iid, n["nid"], ev, seq, args))
                for act in spec["do"]:
                    if act[0] == "set":
                        world.do_set(inst, ("to", act[1]))
                    elif act[0] == "add":
                        world.do_set(inst, ("add", act[1]))
                    elif act[0] == "boom":
                        raise Boom("handler")
                world.hlog.append((inst.iid, n["nid"], ev, seq, "end"))
        else:
            async def fn(*args):
                await run(args)
        flags = spec.get("flags")
        if spec.get("target"):
            h = make_event(fn, **(flags or {}))
            h.target = f"{spec['target']}-{inst.iid}"
            return h
        if flags:
            return make_event(fn, **flags)
        return fn

    def meanwhile(self, d, inst):
        """a state that is set while a component renders: its own one or that of another instance"""
        if d.get("during") and self.during_sets < 4:
            self.during_sets += 1
            which, delta = d["during"]
            self.do_set(self.insts[which % len(self.insts)] if which else inst, ("add", delta))

    # ----- state updates with a ledger
    def do_set(self, inst, how):
        if inst.set_state is None:
            return
        if how[0] == "to":
            if inst.state != how[1]:
                inst.own_changes += 1
            inst.state = how[1]
            inst.set_state(how[1])
        else:
            inst.own_changes += 1
            d = how[1]
            want = inst.state + d

            def f(old):
                if old != want - d:
                    self.order_problem = (
                        f"functional update of instance {inst.iid} received {old}, latest value is {want - d}")
                return old + d
            inst.state = want
            inst.set_state(f)

    # ----- driving
    def root(self):
        d = self.defs[0]
        return self.kinds[d["kind"]](None, -1, 0, 0)

    def check_seq(self, old, new):
        """No shown content may be replaced by content of an older render of the same instance."""
        a, b = {}, {}
        for doc, acc in ((old, a), (new, b)):
            for m in walk(doc):
                at = m.get("attributes") or {}
                if "data-i" in at and "data-v" in at and "data-m" not in at:
                    k = at["data-i"]
                    acc[k] = max(acc.get(k, -1), at["data-v"])
        for k, v in b.items():
            if v < a.get(k, -1):
                raise Violation(f"instance {k}: content of render {v} overwrote content of render {a[k]}")

    def receive(self, msg):
        if msg.get("type") != "layout-update":
            raise Violation(f"unexpected message {msg!r:.200}")
        wire = json.loads(json.dumps(msg))
        self.msgs.append(wire)
        old = copy.deepcopy(self.doc)
        self.doc = apply_update(self.doc, wire)
        self.check_seq(old, self.doc)
        if len(self.msgs) > MAX_UPDATES:
            raise Violation("the layout keeps emitting updates without any change being made")

    async def pull(self, n, advance=False):
        """Let the consumer take up to n updates; returns how many arrived."""
        got = 0
        while got < n:
            if self.pending is None:
                self.pending = asyncio.ensure_future(self.layout.render())
            await self.loop.settle(advance)
            if not self.pending.done():
                break
            task, self.pending = self.pending, None
            self.receive(task.result())
            got += 1
        return got

    async def drain(self):
        total = 0
        while True:
            k = await self.pull(10_000, advance=True)
            total += k
            if not k:
                return total

    # ----- prediction
    def child_of(self, iid, nid):
        best = None
        for i in self.insts:
            if i.last is not None and i.last[0] == iid and i.last[1] == nid:
                if best is None or i.seq > best.seq:
                    best = i
        return best

    def expect(self):
        """The normalised tree the live instances describe, plus the set of live iids."""
        live = set()
        root = self.child_of(None, -1)
        if root is None:
            raise Violation("the root component was never rendered")
        out = self.expect_inst(root, {}, live)
        return out, live

    def expect_inst(self, inst, env, live):
        live.add(inst.iid)
        d = self.defs[inst.defid]
        _, _, prop = inst.last
        v = self.variant(d, inst.state, prop)
        ctxvals = [env.get(c, f"default{c}") for c in d.get("reads", ())]
        if self.fails(v):
            return [{"error": self.error_text(v)}]
        sub_live = set()
        res = []
        self.expect_node(v, inst, ctxvals, env, res, sub_live)
        live |= sub_live
        return res

    def fails(self, v):
        """Does rendering this variant fail inside its own component?"""
        return self.has_raise(v) or self.has_dup(v)

    def has_dup(self, v):
        """Duplicate sibling keys, not counting what a nested component renders itself."""
        if v["t"] == "bad":
            return True
        if v["t"] in ("comp", "prov", "text", "num", "none", "raise"):
            return False
        return self.dup_children(v) or any(self.has_dup(c) for c in v.get("ch", ()))

    @staticmethod
    def dup_children(v):
        keys = [c["key"] for c in v.get("ch", ()) if c.get("key") is not None and c["t"] not in ("text", "num", "none")]
        return len(set(keys)) != len(keys)

    def has_raise(self, v):
        return v["t"] == "raise" or (v["t"] != "comp" and any(self.has_raise(c) for c in v.get("ch", ())))

    def error_text(self, v):
        if not self.prog.get("debug"):
            return ""
        n = self.first_raise(v)
        return f"Boom: boom{n}" if n is not None else None

    def first_raise(self, v):
        if v["t"] == "raise":
            return v["nid"]
        for c in v.get("ch", ()):
            r = self.first_raise(c)
            if r is not None:
                return r
        return None

    def expect_node(self, n, inst, ctxvals, env, out, live):
        if n.get("memo") and n["nid"] in inst.memo:
            inst = inst.memo[n["nid"]][1]
            ctxvals = inst.ctxvals
        t = n["t"]
        if n.get("twice"):
            self.expect_node({**n, "twice": False}, inst, ctxvals, env, out, live)
        if t == "text":
            out.append(n["v"])
        elif t == "num":
            out.append(str(n["v"]))
        elif t == "none":
            pass
        elif t == "frag":
            for c in n.get("ch", ()):
                self.expect_node(c, inst, ctxvals, env, out, live)
        elif t == "prov":
            env2 = {**env, n["ctx"]: self.prov_value(n, inst.state)}
            ch = n.get("ch", ())
            if self.dup_children(n) or any(self.has_dup(c) for c in ch):
                out.append({"error": None if self.prog.get("debug") else ""})
                return
            for c in ch:
                self.expect_node(c, inst, ctxvals, env2, out, live)
        elif t == "comp":
            child = self.child_of(inst.iid, n["nid"])
            if child is None:
                raise Violation(f"component node {n['nid']} of instance {inst.iid} was never rendered")
            want = inst.state + n.get("off", 0) if n.get("prop", 0) == "state" else n.get("prop", 0)
            if child.defid != n["def"] or child.last[2] != want:
                raise Violation(
                    f"instance {child.iid} last rendered with props {(child.defid, child.last[2])}, its parent passes {(n['def'], want)}")
            if child.iid in live:
                raise Violation(f"instance {child.iid} is used at two places")
            out.extend(self.expect_inst(child, env, live))
        elif t == "el":
            a = self.el_attrs(n, inst.iid, inst.seq, ctxvals)
            e = {"tag": n["tag"], "attrs": a}
            if n.get("h"):
                e["h"] = {}
                for ev, spec in n["h"].items():
                    f = {"preventDefault": False, "stopPropagation": False}
                    fl = spec.get("flags") or {}
                    f["preventDefault"] = fl.get("prevent_default", False)
                    f["stopPropagation"] = fl.get("stop_propagation", False)
                    for k in ("debounce", "throttle"):
                        if fl.get(k) is not None:
                            f[k] = fl[k]
                    e["h"][ev] = f
            ch = []
            for c in n.get("ch", ()):
                self.expect_node(c, inst, ctxvals, env, ch, live)
            if ch:
                e["ch"] = ch
            out.append(e)
        else:
            raise HarnessError(t)

    def shown(self):
        return norm(self.doc)

    def targets(self):
        """[(target, event, iid, nid)] of the client's document in document order."""
        res = []
        for m in walk(self.doc):
            at = m.get("attributes") or {}
            for ev, h in (m.get("eventHandlers") or {}).items():
                res.append((h["target"], ev, at.get("data-i"), at.get("data-n"), at.get("data-v")))
        return res

    def assert_converged(self):
        if self.order_problem:
            raise Violation(self.order_problem)
        want, live = self.expect()
        got = self.shown()
        strip_err(want, got)
        if got != want:
            raise Violation("client view differs from the live components\n  shown:    "
                            + json.dumps(got)[:1500] + "\n  expected: " + json.dumps(want)[:1500])
        return live

    def assert_liveness(self, live):
        for i in self.insts:
            if i.iid in live:
                if i.unmounted:
                    raise Violation(f"instance {i.iid} is in the view but was unmounted")
                if self.effects and i.mounted != 1:
                    raise Violation(f"mount effect of live instance {i.iid} ran {i.mounted} times")
            else:
                if i.mounted != i.unmounted or i.mounted > 1:
                    raise Violation(
                        f"instance {i.iid} left the view: mounted {i.mounted} times, cleaned up {i.unmounted} times")

    def assert_all_closed(self):
        for i in self.insts:
            if i.mounted != i.unmounted or i.mounted > 1:
                raise Violation(f"after close: instance {i.iid} mounted {i.mounted}, cleaned up {i.unmounted}")


def strip_err(want, got):
    """Where the expected error text is unknown (None) accept any text."""
    for w, g in zip(want, got):
        if isinstance(w, dict) and isinstance(g, dict):
            if "error" in w and w["error"] is None and "error" in g:
                w["error"] = g["error"]
            strip_err(w.get("ch", []), g.get("ch", []))


def plain(n):
    return n["t"] in ("el", "frag", "text", "num", "none") and not any(s.get("target") for s in n.get("h", {}).values()) \
        and all(plain(c) for c in n.get("ch", ()))


def run_world(prog, script, effects=True):
    """script: async fn(world). The layout is entered and left around it."""
    async def main(loop):
        w = World(prog, effects)
        w.loop = loop
        w.layout = Layout(w.root())
        REACTPY_ASYNC_RENDERING.current = prog.get("mode", "async") == "async"
        REACTPY_DEBUG.current = bool(prog.get("debug"))
        REACTPY_MAX_QUEUE_SIZE.current = prog.get("queue") or 1000
        if prog.get("checks"):  # these options follow the debug mode, but can be changed on their own
            REACTPY_CHECK_VDOM_SPEC.current = not REACTPY_DEBUG.current
            REACTPY_CHECK_JSON_ATTRS.current = not REACTPY_DEBUG.current
        async with w.layout:
            try:
                await script(w)
            finally:
                if w.pending is not None:
                    w.pending.cancel()
                    try:
                        await w.pending
                    except BaseException:
                        pass
        await loop.settle()
        if prog.get("effects", True) and effects:
            w.assert_all_closed()
        bad = [c for c in loop.exceptions if "exception" in c]
        if bad:
            raise Violation(f"background error: {bad[0].get('message')}: {bad[0].get('exception')!r}")
        return w
    try:
        return vloop.run(main)
    except vloop.Deadlock as e:
        raise Violation(f"deadlock: {e}")
    finally:
        REACTPY_DEBUG.current = True
        REACTPY_DEBUG.current = False  # the other ones follow
        REACTPY_ASYNC_RENDERING.current = True
        REACTPY_MAX_QUEUE_SIZE.current = 1000


# --------------------------------------------------------------------------- generators
TAGS = ["div", "span", "p", "ul"]
KEYS = ["a", "b", "c", "d", 0, 1, 2, "0", 100]
EVENTS = ["onClick", "onChange", "onKeyDown"]


def number(prog):
    nid = [0]

    def go(n, frozen=False, top=False):
        n["nid"] = nid[0]
        nid[0] += 1
        frozen = frozen or bool(n.get("memo"))
        n.pop("frozen", None)
        if frozen:
            n["frozen"] = True
        if n.get("twice") and (top or n["t"] != "el" or n.get("key") is not None or not plain(n)):
            n.pop("twice")
        ch = n.get("ch")
        if ch:
            if not n.get("dup"):
                seen = set()
                for c in ch:
                    k = c.get("key")
                    if k is None:
                        continue
                    if k in seen:
                        c.pop("key")
                    else:
                        seen.add(k)
            for c in ch:
                go(c, frozen)
    def targets(n, seen):
        for spec in n.get("h", {}).values():
            if spec.get("target"):
                if spec["target"] in seen:
                    spec.pop("target")
                else:
                    seen.add(spec["target"])
        for c in n.get("ch", ()):
            targets(c, seen)
    for d in prog["defs"]:
        for v in d["variants"]:
            go(v, top=True)
            targets(v, set())
    return prog


def valid_prog(prog):
    """Normalise a (shrunk) program; None if it is not one."""
    try:
        defs = prog["defs"]
        if not defs or prog["mode"] not in ("async", "serial"):
            return None

        def ok(n, i):
            t = n["t"]
            if t not in ("text", "num", "none", "raise", "bad", "el", "frag", "comp", "prov"):
                return False
            if t == "bad" and not (0 <= n["how"] < len(BAD)):
                return False
            if t == "comp" and not (i < n["def"] < len(defs)):
                return False
            if t == "text" and not isinstance(n["v"], str) or t == "num" and not isinstance(n["v"], int):
                return False
            if t == "el" and n["tag"] not in TAGS + ["input"]:
                return False
            if t == "prov" and not (0 <= n["ctx"] < N_CTX and "val" in n):
                return False
            for spec in n.get("h", {}).values():
                if not all(isinstance(a, list) and (len(a) == 2 or a == ["boom"]) and a[0] in ("add", "set", "yield", "sleep", "boom")
                           for a in spec["do"]):
                    return False
            if any(e not in EVENTS for e in n.get("h", {})):
                return False
            if n.get("key", "a") is None or n.get("key", "a") == "":
                return False
            return all(ok(c, i) for c in n.get("ch", ()))
        for i, d in enumerate(defs):
            if not d["variants"] or not (0 <= d["kind"] < N_KINDS):
                return None
            if not all(ok(v, i) for v in d["variants"]):
                return None
            if any(not 0 <= c < N_CTX for c in d.get("reads", ())):
                return None
            if d.get("during") and (len(d["during"]) != 2 or any(type(x) is not int or not 0 <= x < 9 for x in d["during"])):
                return None
        return number(prog)
    except (KeyError, TypeError, AttributeError):
        return None


def gen_handler(g, booms=True, static=0.0):
    acts = []
    for _ in range(g.i(0, 3)):
        k = g.weighted([(4, "add"), (2, "set"), (2, "yield"), (2, "sleep"), (1 if booms else 0, "boom")])
        acts.append({"add": lambda: ["add", g.i(1, 2)], "set": lambda: ["set", g.i(0, 3)],
                     "yield": lambda: ["yield", g.i(1, 3)], "sleep": lambda: ["sleep", g.pick([0.005, 0.05])],
                     "boom": lambda: ["boom"]}[k]())
    spec = {"do": acts, "sync": g.p(0.5)}
    if g.p(0.25):
        fl = {}
        if g.p(0.5):
            fl["prevent_default"] = g.p(0.5)
        if g.p(0.5):
            fl["stop_propagation"] = g.p(0.5)
        if g.p(0.5):
            fl["debounce"] = g.i(0, 500)
        if g.p(0.5):
            fl["throttle"] = g.i(0, 500)
        spec["flags"] = fl
    if static and g.p(static):
        spec["target"] = g.pick(["T", "U"])
    return spec


class Cfg:
    def __init__(self, **kw):
        self.max_defs = 5
        self.depth = 3
        self.width = 4
        self.raises = 0.0
        self.dups = 0.0
        self.provs = False
        self.reads = 0.5
        self.handlers = 0.35
        self.keys = KEYS
        self.pkey = 0.45
        self.modes = ("async", "async", "serial")
        self.mounts = 0.15
        self.during = 0.08
        self.max_variants = 3
        self.booms = True
        self.static = 0.0
        self.bad = 0.0
        self.memo = 0.0
        self.twice = 0.0
        self.__dict__.update(kw)


def gen_node(g, cfg, below, depth, root=False):
    kinds = [(1.5 if not root else 0.4, "text"), (1, "none"), (0.7, "num")]
    if below:
        kinds.append((6, "comp"))
    if depth > 0:
        kinds += [(7, "el"), (1.5, "frag")]
        if cfg.provs:
            kinds.append((4 * cfg.provs, "prov"))
    if cfg.raises:
        tot = sum(w for w, _ in kinds)
        kinds.append((tot * cfg.raises, "raise"))
        if cfg.bad:
            kinds.append((tot * cfg.bad, "bad"))
    t = g.weighted(kinds)
    n = {"t": t}
    if t == "text":
        n["v"] = g.pick(["x", "y", "", "é<&"])
    elif t == "num":
        n["v"] = g.i(0, 9)
    elif t == "bad":
        n["how"] = g.i(0, len(BAD) - 1)
    if t in ("el", "frag", "comp", "prov") and g.p(cfg.pkey):
        n["key"] = g.pick(cfg.keys)
    if t == "comp":
        n["def"] = g.pick(below)
        n["prop"] = g.weighted([(3, 0), (3, "state"), (1, 1), (1, 2)])
        n["off"] = g.pick([0, 0, 1])
    if t == "prov":
        n["ctx"] = g.i(0, N_CTX - 1)
        n["val"] = g.weighted([(3, "state"), (1, 0), (1, 1), (1, 2)])
    if t == "el":
        n["tag"] = g.pick(TAGS)
        if g.p(cfg.handlers):
            n["h"] = {e: gen_handler(g, cfg.booms, cfg.static) for e in g.some(EVENTS, 0.4)}
        if cfg.dups and g.p(cfg.dups):
            n["dup"] = True
    if cfg.memo and t in ("el", "frag", "comp", "prov") and g.p(cfg.memo):
        n["memo"] = True
    if cfg.twice and t == "el" and g.p(cfg.twice):
        n["twice"] = True
    if t in ("el", "frag", "prov"):
        n["ch"] = [gen_node(g, cfg, below, depth - 1) for _ in range(g.size(0, cfg.width * (4 if g.p(0.02) else 1)))]
    return n


def mutate_children(g, cfg, v, below):
    """A variant close to an existing one: permuted / dropped / inserted children, so identity matters."""
    v = json.loads(json.dumps(v))
    def go(n):
        ch = n.get("ch")
        if not ch:
            return
        r = g.random()
        if r < 0.4:
            g.shuffle(ch)
        elif r < 0.6:
            ch.pop(g.i(0, len(ch) - 1))
        elif r < 0.8:
            ch.insert(g.i(0, len(ch)), gen_node(g, cfg, below, 1))
        for c in ch:
            if g.p(0.5):
                go(c)
            if g.p(0.1) and c["t"] in ("el", "frag", "comp", "prov"):
                c["key"] = g.pick(cfg.keys)
    go(v)
    return v


def gen_prog(g, **kw):
    cfg = Cfg(**kw)
    n = g.i(2, cfg.max_defs)
    defs = []
    for i in range(n):
        below = list(range(i + 1, n))
        vs = [gen_node(g, cfg, below, cfg.depth if i == 0 else g.i(0, cfg.depth), root=True)]
        for _ in range(g.i(0, cfg.max_variants - 1)):
            if g.p(0.5):
                vs.append(mutate_children(g, cfg, g.pick(vs), below))
            else:
                vs.append(gen_node(g, cfg, below, g.i(0, cfg.depth), root=True))
        d = {"kind": g.i(0, N_KINDS - 1), "variants": vs}
        if cfg.provs:
            d["reads"] = g.some(list(range(N_CTX)), cfg.reads)
        if g.p(cfg.mounts):
            d["mount"] = 1
        if cfg.during and g.p(cfg.during):
            d["during"] = [g.pick([0, 0, 1, 2, 3]), g.i(1, 2)]
        defs.append(d)
    return number({"defs": defs, "mode": g.pick(cfg.modes), "debug": g.p(0.4), "checks": g.p(0.3), "queue": g.pick([0, 0, 1, 2, 3])})
