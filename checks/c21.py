import json

import jsmodel as M
from lib import Sub, Violation
from node import Node

PROPERTY = "C21"
ASSUMPTIONS = ["the DOM, Preact and json-pointer are small stand-ins (harness/js): Preact's own behaviour is not tested", "keys of siblings are distinct strings, and the key of a script changes with its content",
               "attributes are compared as they are given to Preact"]
NODE = Node("js/client.js")


def gen(g):
    mg = M.Gen(g)
    doc = None
    steps = []
    for _ in range(g.i(1, 6 * g.long())):
        batch = []
        for _ in range(g.weighted([(6, 1), (1, 2), (1, 3)])):
            if doc is None or g.p(0.25):
                path, new = "", (mg.node() if doc is None or g.p(0.5) else mg.mutate(doc))
                if g.p(0.12):
                    new = {"tagName": "", "error": g.pick(["", "root failed"])}
            else:
                path = g.pick(M.paths(doc))
                old = M.get(doc, path)
                new = mg.mutate(old, 1) if g.p(0.6) else mg.node(1 if path else 0, (old.get("attributes") or {}).get("key") if old["tagName"] != "script" else None)
                if path:
                    # a place keeps its key
                    trial = M.put(doc, path, new)
                    if not M.ok_node(trial):
                        continue
            doc = M.put(doc, path, new)
            batch.append([path, new])
        if batch:
            steps.append(["update", batch])
        while g.p(0.5):
            steps.append(["event", g.i(0, 30), g.pick(M.EVENTS), {"x": g.pick([0, 1, "v", True, ""]), "n": g.i(0, 9)}])
        if g.p(0.5):
            steps.append(["advance", g.pick([0, 1, 16, 100])])
    return {"steps": steps, "delay": g.pick([0, 0, 1, 16])}


def valid(c):
    try:
        doc = None
        for s in c["steps"]:
            if s[0] == "update":
                if not s[1]:
                    return None
                for path, new in s[1]:
                    if doc is None and path:
                        return None
                    if path and path not in M.paths(doc):
                        return None
                    if not isinstance(new, dict):
                        return None
                    doc = M.put(doc, path, new)
                    if not M.ok_node(doc):
                        return None
            elif s[0] == "event":
                if s[2] not in M.EVENTS or not isinstance(s[3], dict) or set(s[3]) - {"x", "n"} or type(s[1]) is not int:
                    return None
                if any(isinstance(v, (dict, list)) or v is None for v in s[3].values()):
                    return None
            elif s[0] != "advance" or not 0 <= s[1] <= 1000:
                return None
        if not 0 <= c["delay"] <= 100:
            return None
        return c
    except (KeyError, TypeError, ValueError, AttributeError, IndexError):
        return None


def same_kind(a, b):
    return a["tagName"] == b["tagName"] and "error" not in a and "error" not in b and a["tagName"] != "script"


def persist(a, b, out):
    """collect (old model, new model) pairs that stay the same element"""
    if not isinstance(a, dict) or not isinstance(b, dict) or not same_kind(a, b):
        return
    out.append((a, b))
    by = {}
    for c in a.get("children") or ():
        if isinstance(c, dict):
            k = (c.get("attributes") or {}).get("key")
            if k is not None:
                by[k] = c
    for c in b.get("children") or ():
        if isinstance(c, dict):
            k = (c.get("attributes") or {}).get("key")
            if k in by:
                persist(by[k], c, out)


def run(case, rec):
    # resolve events to elements
    doc = None
    steps, plans = [], []
    for s in case["steps"]:
        if s[0] == "update":
            before = doc
            for path, new in s[1]:
                doc = M.put(doc, path, new)
            steps.append(s)
            plans.append(("update", before, doc, s[1]))
        elif s[0] == "advance":
            steps.append(s)
            plans.append(("advance", None, doc, None))
        else:
            els = [] if doc is None else [e for e in M.link(M.expected(doc)) if e.kind in ("std", "input")]
            if not els:
                continue
            with_h = [e for e in els if s[2] in e.fns] or els
            el = with_h[s[1] % len(with_h)] if s[1] % 3 else els[s[1] % len(els)]
            steps.append(["event", el.path, s[2], s[3]])
            plans.append(("event", el, doc, s))
    if not steps:
        return
    # the effects of inputs and scripts take time, so wait before looking at values
    settled = [["advance", 2 * case["delay"] + 1]]
    r = NODE.ask({"steps": [y for x in steps for y in ([x] + settled if x[0] == "update" and case["delay"] == 0 else [x])] + settled, "effectDelay": case["delay"]})
    if r is None or "crash" in r:
        raise Violation(f"the client crashed: {r}")
    out = []
    it = iter(r["steps"])
    for x in steps:
        a = next(it)
        b = next(it) if x[0] == "update" and case["delay"] == 0 else None
        out.append((a, b))
    final = next(it)
    for a in r["steps"]:
        if a["errors"]:
            raise Violation(f"the client failed: {a['errors'][0]}")
    if r["rejections"] or [x for x in r["log"] if x[0] == "error"]:
        raise Violation(f"the client failed: {r['rejections'] or r['log']}")
    marks = {}
    nsent = 0
    # once the user interacted with an input its value depends on acknowledgements (C24)
    untouched = not any(k == "event" and any(y.kind == "input" for y in chain(x)) for k, x, *_ in plans)
    prev_dom = None
    shown = None
    for (a, b), plan, step in zip(out, plans, steps):
        kind, x, doc, raw = plan
        dom = (b or a)["dom"]
        if doc is not None:
            exp = M.expected(doc)
            d = M.differs(exp, strip_scripts(a["dom"], exp) if b is None or kind != "update" else b["dom"], values=untouched and b is not None)
            if d:
                raise Violation(f"after {json.dumps(step)[:300]}: {d}")
        if kind == "update":
            if a["sent"] or (b and b["sent"]):
                raise Violation(f"an update sent {a['sent']}")
            if x is not None and prev_dom is not None and len(raw) == 1:
                check_identity(x, doc, raw[0], prev_dom, dom, rec)
        elif kind == "event":
            el = x
            msgs, prevented, stopped, mk = M.fire(el, raw[2], raw[2][2:].lower())
            got = [m for _, m in a["sent"]]
            nsent += len(got)
            if [m["target"] for m in got] != [h["target"] for h in msgs]:
                raise Violation(f"{raw[2]} on {el.tag} sent messages to {[m['target'] for m in got]} instead of {[h['target'] for h in msgs]}")
            for m in got:
                if m.get("type") != "layout-event" or not isinstance(m["data"], list) or len(m["data"]) != 1 or type(m.get("seq")) is not int or m["seq"] < 0:
                    raise Violation(f"message {json.dumps(m)[:300]}")
                for k, v in {**raw[3], "type": raw[2][2:].lower()}.items():
                    if m["data"][0].get(k) != v or type(m["data"][0].get(k)) is not type(v):
                        raise Violation(f"the event's {k} was sent as {m['data'][0].get(k)!r} instead of {v!r}")
            if a["prevented"] != prevented or a["stopped"] != stopped:
                raise Violation(f"{raw[2]} on {el.tag}: preventDefault {a['prevented']} instead of {prevented}, stopPropagation {a['stopped']} instead of {stopped}")
            # inline scripts ran on their own elements
            all_els = {id(e.model): e for e in M.link(M.expected(doc))}
            for e, text in mk:
                dn = at(a["dom"], all_els[id(e.model)].path if id(e.model) in all_els else e.path)
                if not dn or (dn.get("marks") or [None])[-1] != text:
                    raise Violation(f"the inline script of {raw[2]} did not run with the element as this: {dn and dn.get('marks')} instead of {text}")
                marks[dn["id"]] = marks.get(dn["id"], 0) + 1
                rec.tag("inline")
            for n in flat(a["dom"]):
                if len(n.get("marks") or ()) != marks.get(n["id"], 0):
                    raise Violation(f"inline scripts ran on {n['tag']}: {n.get('marks')}")
            if msgs:
                rec.tag("sent")
            if len(msgs) > 1:
                rec.tag("bubbled")
        prev_dom = dom
        shown = doc
    if shown is not None:
        d = M.differs(M.expected(shown), final["dom"], values=untouched)
        if d:
            raise Violation(f"in the end: {d}")
        if "error" in shown:
            rec.tag("root-error")
    rec.nt(sum(1 for p in plans if p[0] == "update") >= 2 and len(steps) >= 3)


def chain(el):
    while el is not None:
        yield el
        el = el.parent


def strip_scripts(dom, exp):
    """scripts are inserted by effects: where none is there yet, take the expected one"""
    def walk(ns, es):
        out = []
        es_el = [e for e in es if isinstance(e, M.El)]
        k = 0
        for n in ns:
            if isinstance(n, dict):
                e = es_el[k] if k < len(es_el) else None
                k += 1
                if e is not None and e.kind == "holder" and n["tag"] == "div" and len(n["ch"]) <= 1:
                    s = e.ch[0]
                    n = {**n, "ch": [{"tag": "script", "id": 0, "props": {}, "attrs": s.props, "ch": s.ch}]}
                elif e is not None:
                    n = {**n, "ch": walk(n["ch"], e.ch)}
            out.append(n)
        return out
    return walk(dom, exp)


def at(dom, path):
    n = {"ch": dom}
    for i in path:
        if not isinstance(n, dict) or i >= len(n["ch"]):
            return None
        n = n["ch"][i]
    return n if isinstance(n, dict) else None


def flat(dom):
    for n in dom:
        if isinstance(n, dict):
            yield n
            yield from flat(n["ch"])


def check_identity(before, after, upd, dom0, dom1, rec):
    """elements outside of the replaced node and keyed ones within it are still the same"""
    path, new = upd
    old = M.get(before, path)
    pairs = []
    ko, kn = (old.get("attributes") or {}).get("key"), (new.get("attributes") or {}).get("key")
    if path and ko == kn:
        # everything that is not on the way to the node
        def walk(a, b, rest):
            if rest and same_kind(a, b):
                pairs.append((a, b))
                i = int(rest[1])
                for j, (c, d) in enumerate(zip(a.get("children") or (), b.get("children") or ())):
                    if isinstance(c, dict) and isinstance(d, dict):
                        walk(c, d, rest[2:] if j == i else None)
            elif rest is None and same_kind(a, b):
                pairs.append((a, b))
                for c, d in zip(a.get("children") or (), b.get("children") or ()):
                    if isinstance(c, dict):
                        walk(c, d, None)
        walk(before, after, path.split("/")[1:])
    if not path or ko == kn:
        persist(old, M.get(after, path), pairs)
    e0 = {id(e.model): e for e in M.link(M.expected(before)) if e.kind in ("std", "input")}
    e1 = {id(e.model): e for e in M.link(M.expected(after)) if e.kind in ("std", "input")}
    for a, b in pairs:
        x, y = e0.get(id(a)), e1.get(id(b))
        if x is None or y is None:
            continue
        n0, n1 = at(dom0, x.path), at(dom1, y.path)
        if n0 is None or n1 is None:
            raise Violation(f"element {x.tag} is not in the document")
        if n0["id"] != n1["id"]:
            raise Violation(f"the update of {path or 'the root'} replaced the element {x.tag} (key {(a.get('attributes') or {}).get('key')!r}) although it stays")
        rec.tag("kept")


SUBS = [
    Sub("client", gen=gen, valid=valid, run=run, quick=15000, thorough=150000, shards=8,
        rule="histories of updates (of the root, of nodes, batched), events and time with models of elements, texts, fragments, errors, inputs, scripts, handlers and inline scripts; non-trivial = two updates and three steps"),
]
