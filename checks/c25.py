import copy
import json

import jsmodel as M
from lib import Sub, Violation
from node import Node

PROPERTY = "C25"
ASSUMPTIONS = ["the DOM, Preact, React and json-pointer are small stand-ins (harness/js)", "modules are objects with components, with a bind function of their own or without one",
               "keys of siblings are distinct strings"]
NODE = Node("js/client.js")
NAMES = ["m0", "m1", "http://x/m2.js", "m3"]
EXPORTS = [["Comp"], ["Comp", "Other"], ["Comp", "A.B"], ["input", "Comp", "script"], ["A", "A.B.C", "select"], ["A.B", "B", "Comp"], ["Comp.Other", "Other.Comp"]]
BIND = ["own", "own", None, "bad", "throws"]
BROKEN = ("bad", "throws")
ARGS = [0, -1, 2.5, "", "text", True, False, None, {"a": 1}, {"a": {"b": ["x", 1]}, "c": "d"}, [1, "two"], [], {"$event": "click", "data": {"x": 1}}, {"$event": "change", "data": {"value": "v", "n": 0}}]


def gen_modules(g):
    mods = {}
    for n in NAMES[: g.i(1, 4)]:
        mods[n] = {
            "exports": list(g.pick(EXPORTS)), "bind": g.weighted([(6, "own"), (4, None), (1, "bad"), (1, "throws")]), "delay": 0 if n.startswith("http") else g.pick([0, 0, 10, 100]),
            "fail": g.p(0.1), "url": n.startswith("http"), "unmount": g.p(0.25), "talks": g.p(0.3),
            "fallback": g.pick([None, f"fb-{n}", f"fb-{n}", {"tagName": "i", "children": [f"fb-{n}"], "attributes": {"title": "T"}}]),
        }
    return mods


def gen(g):
    mods = gen_modules(g)
    mg = M.Gen(g, mods)
    doc = None
    steps = []
    for _ in range(g.i(1, 6 * g.long())):
        batch = []
        for _ in range(g.weighted([(6, 1), (1, 2), (1, 3)])):
            if doc is None or g.p(0.2):
                path, new = "", (mg.node() if doc is None or g.p(0.4) else mg.mutate(doc))
                if g.p(0.1):
                    new = mg.imported(1, None)
            else:
                path = g.pick(M.paths(doc))
                old = M.get(doc, path)
                key = (old.get("attributes") or {}).get("key") if old["tagName"] != "script" else None
                new = mg.mutate(old, 1) if g.p(0.6) else mg.node(1 if path else 0, key) if g.p(0.5) else mg.imported(1, key)
                if path and not M.ok_node(M.put(doc, path, new), mods):
                    continue
            doc = M.put(doc, path, new)
            batch.append([path, new])
        if batch:
            steps.append(["update", batch])
        near = [p for p in M.paths(doc) if p and inside(doc, p)] if g.p(0.3) else []
        if near:
            # another module before the previous one arrived
            path = g.pick(near)
            key = (M.get(doc, path).get("attributes") or {}).get("key")
            for _ in range(2):
                new = mg.imported(2, key)
                if M.ok_node(M.put(doc, path, new), mods):
                    doc = M.put(doc, path, new)
                    steps += [["update", [[path, new]]], ["advance", g.pick([0, 1, 5, 10, 60])]]
        r = g.random()
        if r < 0.25:
            steps.append(["advance", g.pick([0, 1, 5, 10, 60, 100])])
        elif r < 0.75:
            steps.append(["quiet"])
            while g.p(0.5):
                steps.append(["event", g.i(0, 30), g.pick(M.EVENTS), {"x": g.pick([0, 1, "v", True, ""]), "n": g.i(0, 9)}])
            while g.p(0.4):
                steps.append(["call", g.i(0, 30), [copy.deepcopy(g.pick(ARGS)) for _ in range(g.i(0, 3))]])
    return {"steps": steps, "delay": g.pick([0, 0, 5]), "modules": mods, "react": g.p(0.2)}


def inside(doc, path):
    """is this an imported component within another one?"""
    m, found = doc, 0
    for p in path.split("/")[1:]:
        m = m[int(p)] if isinstance(m, list) else m[p]
        found += isinstance(m, dict) and "importSource" in m
    return found + ("importSource" in doc) > 1 and "importSource" in m


def valid(c):
    try:
        mods = c["modules"]
        for n, s in mods.items():
            if n not in NAMES or s["exports"] not in EXPORTS or s["bind"] not in BIND or s["url"] != n.startswith("http") or type(s["unmount"]) is not bool or type(s["talks"]) is not bool or (s["url"] and s["delay"]) or type(s["fail"]) is not bool:
                return None
            if s["fallback"] not in (None, f"fb-{n}", {"tagName": "i", "children": [f"fb-{n}"], "attributes": {"title": "T"}}) or not 0 <= s["delay"] <= 100:
                return None
        doc = None
        for s in c["steps"]:
            if s[0] == "update":
                if not s[1]:
                    return None
                for path, new in s[1]:
                    if not isinstance(new, dict) or (path and (doc is None or path not in M.paths(doc))):
                        return None
                    doc = M.put(doc, path, new)
                    if not M.ok_node(doc, mods) or any(x.get("importSource") and x["tagName"] not in mods[x["importSource"]["source"]]["exports"] + ["Missing"] for x in nodes(doc)):
                        return None
            elif s[0] == "event":
                if s[2] not in M.EVENTS or not isinstance(s[3], dict) or set(s[3]) - {"x", "n"} or type(s[1]) is not int or any(isinstance(v, (dict, list)) or v is None for v in s[3].values()):
                    return None
            elif s[0] == "call":
                if type(s[1]) is not int or not isinstance(s[2], list) or any(a not in ARGS for a in s[2]):
                    return None
            elif s[0] == "quiet":
                if len(s) != 1:
                    return None
            elif s[0] != "advance" or not 0 <= s[1] <= 1000:
                return None
        return c if 0 <= c["delay"] <= 20 and isinstance(c["react"], bool) else None
    except (KeyError, TypeError, ValueError, AttributeError, IndexError):
        return None


def nodes(m):
    if isinstance(m, dict):
        yield m
        for c in m.get("children") or ():
            yield from nodes(c)


def works(spec):
    return not spec["fail"] and spec["bind"] not in BROKEN


def run(case, rec):
    mods = case["modules"]
    delay = case["delay"]
    steps, plans = [], []
    doc = None
    quiet = 250 + 6 * delay
    loaded = lambda src: works(mods[src["source"]])  # noqa: E731
    settled = False
    depth = 0
    for s in case["steps"] + [["quiet"]]:
        if s[0] == "update":
            before = doc
            for path, new in s[1]:
                doc = M.put(doc, path, new)
            depth = max(depth, len(list(nodes(doc))))
            steps.append(s)
            plans.append(("update", before, doc, s[1]))
            settled = False
        elif s[0] == "advance":
            steps.append(s)
            plans.append(("advance", None, doc, None))
        elif s[0] == "quiet":
            # nested modules load one after the other
            steps.append(["advance", quiet * 8])
            plans.append(("quiet", None, doc, None))
            settled = True
        elif settled and doc is not None:
            els = [e for e in M.link(M.expected(doc, loaded, mods)) if e.kind in ("std", "import", "plain")]
            if s[0] == "event":
                els = [e for e in els if s[2] in e.fns] or els
                if els:
                    el = els[s[1] % len(els)]
                    steps.append(["event", el.path, s[2], s[3]])
                    plans.append(("event", el, doc, s))
            else:
                els = [e for e in els if e.kind != "std" and any(k == "event" for k, _ in e.fns.values())]
                if els:
                    el = els[s[1] % len(els)]
                    prop = sorted(n for n, (k, _) in el.fns.items() if k == "event")[0]
                    steps.append(["call", el.path, prop, s[2]])
                    plans.append(("call", el, doc, [prop, s[2]]))
    if doc is None:
        return
    r = NODE.ask({"steps": steps, "effectDelay": delay, "modules": {n: {k: v for k, v in s.items() if k != "fallback"} for n, s in mods.items()}, "react": case["react"]})
    if r is None or "crash" in r:
        raise Violation(f"the client crashed: {r}")
    for a in r["steps"]:
        if a["errors"]:
            raise Violation(f"the client failed: {a['errors'][0]}")
    if r["pending"]:
        raise Violation(f"{r['pending']} timers are still pending")
    check_ops(r, case, rec)
    for b in r["binds"]:
        if "pings" in b:
            rec.tag("talks")
            if r["said"].count(b["id"]) != 2:
                raise Violation(f"{r['said'].count(b['id'])} of 2 messages that {b['mod']} sent with the functions given to bind() were sent")
            if b["pings"] != [7]:
                raise Violation(f"the handler that {b['mod']} registered with the function given to bind() got {b['pings']} instead of [7]")
    prev = None
    for a, plan, step in zip(r["steps"], plans, steps):
        kind, x, doc, raw = plan
        dom = a["dom"]
        if kind in ("quiet", "event", "call") and doc is not None:
            exp = M.expected(doc, loaded, mods)
            for e in M.link(exp):
                if e.kind == "plain":
                    e.props.pop("_reactpy_ack_seq", None)
            d = M.differs(exp, fix(dom), values=False)
            if d:
                raise Violation(f"after {json.dumps(step)[:300]}: {d}")
            els = M.link(exp)
            if kind == "quiet":
                check_active(r, a, els, mods, case)
                for e in els:
                    if e.kind == "import":
                        rec.tag("nested" if within(e) else "imported")
                if prev is not None:
                    check_kept(prev, (doc, a), r, mods, loaded, rec)
                prev = (doc, a)
        if kind == "update" and prev is not None:
            prev = (prev[0], prev[1], *prev[2:], raw)
        if kind == "update" and doc is not None and x is None and delay == 0:
            check_fallbacks(doc, dom, mods, rec)
        if kind in ("update", "quiet", "advance") and a["sent"]:
            raise Violation(f"{kind} sent {a['sent']}")
        if kind == "event":
            check_event(x, raw, a)
            rec.tag("event")
        if kind == "call":
            check_call(x, raw, a)
            rec.tag("call")
    rec.nt(any(m.get("importSource") for _, _, d, _ in plans if d for m in nodes(d)) and sum(1 for p in plans if p[0] == "update") >= 2)


def within(e):
    p = e.parent
    while p is not None:
        if p.kind == "import":
            return True
        p = p.parent
    return False


def fix(dom):
    # an acknowledged sequence number is of no use to imported components
    return [n if isinstance(n, str) else {**n, "props": {k: v for k, v in n["props"].items() if k != "_reactpy_ack_seq"} if n["tag"] in M.INPUTS else n["props"], "ch": fix(n["ch"])} for n in dom]


def check_ops(r, case, rec):
    """what happens to each binding over time, and that only one is active per place"""
    last = {}
    for b, op in r["oplog"]:
        bind = r["binds"][b]
        spec = case["modules"].get(bind["mod"])
        node = bind["node"]
        if op == "r":
            for o in r["binds"]:
                if o["node"] == node and o["id"] != b and last.get(o["id"]) == "r":
                    raise Violation(f"two bindings (of {o['mod']} and {bind['mod']}) are active in the same element")
            if last.get(b) == "u" and not (spec or {}).get("unmount") and bind["mod"] != "react":
                raise Violation(f"a component of {bind['mod']} was rendered after it was unmounted")
            if last.get(b) == "r" and spec and spec["unmount"]:
                raise Violation(f"a component of {bind['mod']} was updated without being unmounted before")
        else:
            if last.get(b) == "u":
                raise Violation(f"a component of {bind['mod']} was unmounted twice")
        last[b] = op
    if any(o == "u" for o in last.values()):
        rec.tag("unmounted")


def check_active(r, a, els, mods, case):
    """exactly one binding is active in each place that has a loaded module, and none elsewhere"""
    last = {}
    for b, op in r["oplog"][: a["nop"]]:
        last[b] = op
    active = {}
    for b, op in last.items():
        if op == "r":
            active.setdefault(r["binds"][b]["node"], []).append(b)
    want = {}
    for e in els:
        if e.kind in ("span", "mount"):
            src = e.model["importSource"]
            spec = mods[src["source"]]
            if works(spec) and (spec["bind"] == "own" or case["react"]):
                want[at(a["dom"], e.path)["id"]] = (e, "react" if spec["bind"] is None else src["source"])
    for node, (e, mod) in want.items():
        bs = active.get(node, [])
        if [r["binds"][b]["mod"] for b in bs] != [mod]:
            raise Violation(f"<{e.model['tagName']}> of {e.model['importSource']['source']} has the active bindings {[r['binds'][b]['mod'] for b in bs]} instead of {[mod]}")
    extra = set(active) - set(want)
    if extra:
        b = r["binds"][active[extra.pop()][0]]
        raise Violation(f"a component of {b['mod']} that was removed has not been unmounted: {b['ops']}")


def at(dom, path):
    n = {"ch": dom}
    for i in path:
        n = n["ch"][i]
    return n


def check_fallbacks(doc, dom, mods, rec):
    """right after the first update nothing that has to be fetched is there yet"""
    slow = lambda src: False  # noqa: E731
    if any(m.get("importSource") and mods[m["importSource"]["source"]]["delay"] == 0 for m in nodes(doc)):
        return
    if any(m["tagName"] == "script" for m in nodes(doc)):
        return
    d = M.differs(M.expected(doc, slow, mods), dom, values=False)
    if d:
        raise Violation(f"while the modules are loading: {d}")
    rec.tag("fallback")


def check_kept(prev, cur, r, mods, loaded, rec):
    """components that stay where they are are not created again"""
    if len(prev) != 3:
        return
    (doc0, a0, raw), (doc1, a1) = prev, cur
    if len(raw) != 1:
        return
    path, new = raw[0]
    old = M.get(doc0, path)
    if (old.get("attributes") or {}).get("key") != (new.get("attributes") or {}).get("key") or not path:
        return
    pairs = []

    def stays(x, y):
        if x["tagName"] != y["tagName"] or ("error" in x) != ("error" in y):
            return False
        if x.get("importSource") != y.get("importSource"):
            return False
        s = x.get("importSource")
        return not (s and (mods[s["source"]]["unmount"]))

    def walk(x, y, rest):
        if not stays(x, y):
            return
        if rest == []:
            if x.get("importSource"):
                pairs.append((x, y))
            return
        pairs.append((x, y))
        for j, (c, d) in enumerate(zip(x.get("children") or (), y.get("children") or ())):
            if isinstance(c, dict) and isinstance(d, dict):
                here = rest is not None and int(rest[1]) == j
                if rest is not None and len(rest) == 2 and not here and not same_kind and not (c.get("attributes") or {}).get("key"):
                    continue  # Preact may have taken it for the new sibling if it has no key
                walk(c, d, rest[2:] if here else None)
    same_kind = stays(old, new)
    walk(doc0, doc1, path.split("/")[1:])
    e0 = {id(e.model): e for e in M.link(M.expected(doc0, loaded, mods)) if e.kind in ("import", "plain")}
    e1 = {id(e.model): e for e in M.link(M.expected(doc1, loaded, mods)) if e.kind in ("import", "plain")}
    for x, y in pairs:
        p, q = e0.get(id(x)), e1.get(id(y))
        if p is None or q is None:
            continue
        n0, n1 = at(a0["dom"], p.path), at(a1["dom"], q.path)
        if n0["id"] != n1["id"]:
            raise Violation(f"the update of {path} created <{p.model['tagName']}> anew")
        rec.tag("kept")


def check_event(el, raw, a):
    msgs, prevented, stopped, _ = M.fire(el, raw[2], raw[2][2:].lower())
    got = [m for _, m in a["sent"]]
    if [m["target"] for m in got] != [h["target"] for h in msgs]:
        raise Violation(f"{raw[2]} on {el.tag} sent messages to {[m['target'] for m in got]} instead of {[h['target'] for h in msgs]}")
    for m in got:
        if m.get("type") != "layout-event" or len(m["data"]) != 1 or any(m["data"][0].get(k) != v for k, v in raw[3].items()):
            raise Violation(f"message {json.dumps(m)[:300]} for {raw[3]}")
    if a["prevented"] != prevented or a["stopped"] != stopped:
        raise Violation(f"{raw[2]} on {el.tag}: preventDefault {a['prevented']} instead of {prevented}, stopPropagation {a['stopped']} instead of {stopped}")


def check_call(el, raw, a):
    prop, args = raw
    h = el.fns[prop][1]
    if a.get("missing"):
        raise Violation(f"<{el.tag}> has no handler {prop}")
    got = [m for _, m in a["sent"]]
    if [m["target"] for m in got] != [h["target"]]:
        raise Violation(f"calling {prop} with {args} sent messages to {[m['target'] for m in got]} instead of {[h['target']]}")
    m = got[0]
    if m.get("type") != "layout-event" or not isinstance(m["data"], list) or len(m["data"]) != len(args):
        raise Violation(f"calling {prop} with {args} sent {json.dumps(m)[:300]}")
    for x, y in zip(args, m["data"]):
        if isinstance(x, dict) and "$event" in x:
            ok = isinstance(y, dict) and y.get("type") == x["$event"] and all(y.get(k) == v for k, v in x["data"].items())
        else:
            ok = json.dumps(x, sort_keys=True) == json.dumps(y, sort_keys=True)
        if not ok:
            raise Violation(f"calling {prop} with {x!r} sent {y!r}")
    want = [bool(h.get("preventDefault")), bool(h.get("stopPropagation"))]
    if any(e != want for e in a["events"]):
        raise Violation(f"{prop} with {h}: [preventDefault, stopPropagation] were {a['events']}")


SUBS = [
    Sub("imports", gen=gen, valid=valid, run=run, quick=12000, thorough=100000, shards=8,
        rule="histories of updates, time, events and calls on models with components imported from up to four modules (slow, failing, with unusable bindings, own/React/inferred bindings, fallbacks, unmountBeforeUpdate, nested in each other); non-trivial = two updates of models with an import"),
]
