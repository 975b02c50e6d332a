import copy
import json

from lib import Sub, Violation
from node import Node

PROPERTY = "C24"
ASSUMPTIONS = ["the DOM and Preact are small stand-ins (harness/js); events lose their current target once they were dispatched, effects run after a delay",
               "the server acknowledges the highest sequence number it received for the current handlers of an element (C09), messages and updates keep their order",
               "no value is stated for elements that are replaced before the server acknowledged anything"]
NODE = Node("js/input.js")
INPUTS = ("input", "textarea", "select")
EVENTS = ["onChange", "onInput", "onKeyDown", "onClick"]
LIMITS = [50, 100, 200]
INVALID = [1.5, -50, "50", True, None]  # which is like none
TEXTS = ["", "a", "ab", "abc", "x", "0", "7", "true", "1.5"]
VALUES = ["", "a", "ab", "S", "x", "0", 0, 7, 1.5, True]


def gen_handlers(g, i, limits):
    out = {}
    for ev in EVENTS:
        if not g.p(0.5):
            continue
        h = {"target": f"t{i}{ev}" if g.p(0.9) else f"s{i}{ev}", "preventDefault": g.p(0.3), "stopPropagation": g.p(0.2)}
        if limits and g.p(0.5):
            h["throttle"] = g.pick([*LIMITS, 0]) if g.p(0.95) else g.pick(INVALID)
        if limits and g.p(0.35):
            h["debounce"] = g.pick([*LIMITS, 0]) if g.p(0.95) else g.pick(INVALID)
        out[ev] = h
    return out


def gen_attributes(g, tag, check):
    at = {}
    if g.p(0.75):
        at["checked" if check else "value"] = g.p(0.5) if check else g.pick(VALUES) if g.p(0.3) else g.pick(VALUES[:5])
    if g.p(0.3):
        at["title"] = g.pick(["p", "q"])
    return at


def gen(g):
    limits = g.p(0.6)
    els = []
    for i in range(g.weighted([(5, 1), (3, 2), (1, 3)])):
        tag = g.weighted([(6, "input"), (2, "check"), (1, "textarea"), (1, "select"), (2 if limits else 0, "button"), (1 if limits else 0, "div")])
        check = tag == "check"
        tag = "input" if check else tag
        at = gen_attributes(g, tag, check) if tag in INPUTS else {}
        if check:
            at["type"] = "checkbox"
        els.append({"tagName": tag, "attributes": at, "eventHandlers": gen_handlers(g, i, limits)})
    cur = copy.deepcopy(els)
    steps = []
    hot = g.p(0.6)
    for _ in range(g.size(3, 30)):
        i = g.i(0, len(els) - 1)
        e = cur[i]
        check = e["attributes"].get("type") == "checkbox"
        r = g.random()
        if r < 0.38:
            names = sorted(e["eventHandlers"]) or EVENTS
            for _ in range(g.weighted([(4, 1), (2, 2), (1, 3)])):
                steps.append(["event", i, g.pick(names) if g.p(0.9) else g.pick(EVENTS), None if e["tagName"] not in INPUTS or g.p(0.15) else g.p(0.5) if check else g.pick(TEXTS)])
                if hot and g.p(0.4):
                    steps.append(["advance", g.pick([0, 1, 10, 30, 49, 50, 51, 100])])
        elif r < 0.5:
            steps.append(["recv", g.pick([1, 1, 2, 9])])
        elif r < 0.72:
            if g.p(0.25):
                steps.append(["render", None, None])
            else:
                ch = {}
                if g.p(0.35):
                    at = gen_attributes(g, e["tagName"], check) if e["tagName"] in INPUTS else {"title": g.pick("pq")}
                    if check:
                        at["type"] = "checkbox"
                    ch["attributes"] = at
                if g.p(0.12):
                    ch["eventHandlers"] = gen_handlers(g, i, limits)
                elif g.p(0.1):
                    hs = copy.deepcopy(e["eventHandlers"])
                    for n in list(hs):
                        if g.p(0.5):
                            del hs[n]
                    ch["eventHandlers"] = hs
                if e["tagName"] in INPUTS and not check and g.p(0.3):
                    ch["echo"] = g.pick(["same", "upper"])
                if g.p(0.05):
                    ch["replace"] = True
                for k in ("attributes", "eventHandlers"):
                    if k in ch:
                        e[k] = copy.deepcopy(ch[k])
                steps.append(["render", i, ch or None])
            if g.p(0.7):
                steps.append(["deliver", g.pick([1, 1, 9])])
        elif r < 0.85:
            steps.append(["deliver", g.pick([1, 1, 2, 9])])
        else:
            steps.append(["advance", g.pick([0, 1, 10, 49, 50, 51, 99, 100, 150, 200, 500])])
    return {"elements": els, "steps": steps, "delay": g.pick([0, 0, 0, 5, 16])}


def ok_handlers(i, hs):
    for n, h in hs.items():
        if n not in EVENTS or h["target"] not in (f"t{i}{n}", f"s{i}{n}") or set(h) - {"target", "preventDefault", "stopPropagation", "throttle", "debounce"}:
            return False
        if any(type(h[k]) is not bool for k in ("preventDefault", "stopPropagation")) or any(k in h and h[k] not in (*LIMITS, 0, *INVALID) for k in ("throttle", "debounce")):
            return False
    return True


def ok_attributes(e, at):
    check = e["attributes"].get("type") == "checkbox"
    if set(at) - {"value", "checked", "title", "type"} or ("type" in at) != check or at.get("type", "checkbox") != "checkbox":
        return False
    if "value" in at and (check or e["tagName"] not in INPUTS or type(at["value"]) not in (str, int, float, bool)):
        return False
    return type(at.get("checked", False)) is bool and ("checked" not in at or check) and type(at.get("title", "")) is str


def valid(c):
    try:
        if not 1 <= len(c["elements"]) <= 3 or not 0 <= c["delay"] <= 100:
            return None
        for i, e in enumerate(c["elements"]):
            if e["tagName"] not in (*INPUTS, "button", "div") or set(e) != {"tagName", "attributes", "eventHandlers"} or not ok_handlers(i, e["eventHandlers"]) or not ok_attributes(e, e["attributes"]):
                return None
            if e["attributes"].get("type") and e["tagName"] != "input":
                return None
        for s in c["steps"]:
            if s[0] == "event":
                e = c["elements"][s[1]]
                kinds = {bool} if e["attributes"].get("type") == "checkbox" else {str} if e["tagName"] in INPUTS else set()
                if s[1] < 0 or s[2] not in EVENTS or len(s) != 4 or type(s[3]) not in kinds | {type(None)}:
                    return None
            elif s[0] == "render":
                if len(s) != 3 or (s[1] is None) and s[2] is not None or s[1] is not None and s[1] < 0:
                    return None
                if s[1] is not None:
                    e = c["elements"][s[1]]
                    for k, v in (s[2] or {}).items():
                        if not (k == "attributes" and ok_attributes(e, v) or k == "eventHandlers" and ok_handlers(s[1], v) or k == "replace" and v is True
                                or k == "echo" and v in ("same", "upper") and e["tagName"] in INPUTS and not e["attributes"].get("type")):
                            return None
            elif s[0] in ("recv", "deliver", "advance"):
                if len(s) != 2 or type(s[1]) is not int or not 0 <= s[1] <= 1000:
                    return None
            else:
                return None
        return c
    except (KeyError, TypeError, ValueError, AttributeError, IndexError):
        return None


class Handler:
    """what one handler (a name and a target of an element) has to send"""

    def __init__(self):
        self.events = []  # (number, time, text, limits)
        self.sent = []  # (number, time)
        self.limits = []  # (time, limits) as they changed

    def pending(self):
        return bool(self.events) and (not self.sent or self.sent[-1][0] != self.events[-1][0])


def limits_of(tag, h):
    t, d = (h[k] if type(h.get(k)) is int and h[k] > 0 else 0 for k in ("throttle", "debounce"))
    return (t, d if tag in INPUTS else 0)


class Element:
    def __init__(self):
        self.model = None
        self.handlers = {}
        self.seq = -1
        self.last_sent = {}  # target -> seq
        self.last_ack = -1
        self.deps = None
        self.value = None  # the values it may show
        self.checked = None
        self.todo = None  # the value that will be shown when the effects have run
        self.loose = None  # other values that it may show until the effects have run

    def current(self):
        return {(n, h["target"]): h for n, h in (self.model.get("eventHandlers") or {}).items()}

    def caught_up(self, ack):
        cur = self.current()
        if any(self.handlers[k].pending() for k in cur if k in self.handlers):
            return False
        return all(ack >= s for s in self.last_sent.values())


def text(v):
    return v if isinstance(v, str) else json.dumps(v)


def run(case, rec):
    quiet = ["advance", 1000]
    steps = [["render", None, None], ["deliver", 1], *case["steps"], quiet, ["recv", 999], ["render", None, None], ["deliver", 999], quiet]
    r = NODE.ask({"elements": case["elements"], "steps": steps[2:], "effectDelay": case["delay"]})
    if r is None or "crash" in r:
        raise Violation(f"the client crashed: {r}")
    for a in r["steps"]:
        if a["errors"]:
            raise Violation(f"the client failed: {a['errors'][0]}")
    if r["rejections"]:
        raise Violation(f"the client failed: {r['rejections'][0]}")
    if r["pending"]:
        raise Violation(f"{r['pending']} timers are still pending")
    els = [Element() for _ in case["elements"]]
    stale = shown = 0
    numbers = {}
    was = None
    for s, a in zip(steps, r["steps"]):
        where = f"{json.dumps(s)} at {a['now'] - 1_000_000} ms"
        if s[0] == "event" and a.get("missing"):
            raise Violation(f"{where}: the element is missing")
        ev = None
        if s[0] == "event":
            e = els[s[1]]
            hs = {k[0]: (k, h) for k, h in e.current().items()}
            if a["called"] != (s[2] in hs):
                raise Violation(f"{where}: {a['called']} handlers were called instead of {int(s[2] in hs)}")
            if s[3] is not None:
                if isinstance(s[3], bool):
                    e.checked = {s[3]}
                else:
                    e.value = {s[3]}
            if s[2] in hs:
                k, h = hs[s[2]]
                ev = (s[1], k, a["n"])
                H = e.handlers.setdefault(k, Handler())
                H.events.append((a["n"], a["now"], limits_of(e.model["tagName"], h)))
                numbers[a["n"]] = (s[1], k, {text_at(e), a["dom"][s[1]].get("value")})
                if a["prevented"] is not h["preventDefault"] or a["stopped"] is not h["stopPropagation"]:
                    raise Violation(f"{where}: prevented={a['prevented']}, stopped={a['stopped']} although the handler is {h}")
            if e.todo is not None:
                # effects that have not run yet
                if s[2] not in hs or s[3] is None:
                    e.value = e.loose = e.value | {e.todo}
                    e.todo = None
                elif not isinstance(s[3], bool):
                    e.todo = None
        # ---- what was sent
        for x in a["sent"]:
            msg = x["m"]
            data = msg.get("data")
            if msg.get("type") != "layout-event" or not isinstance(data, list) or len(data) != 1 or not isinstance(data[0], dict) or data[0].get("n") not in numbers:
                raise Violation(f"{where}: sent {json.dumps(x)[:300]}")
            n = data[0]["n"]
            i, k, _ = numbers[n]
            e = els[i]
            if msg["target"] != k[1]:
                raise Violation(f"{where}: an event for {k[1]} was sent to {msg['target']}")
            H = e.handlers[k]
            if H.sent and H.sent[-1][0] >= n:
                raise Violation(f"{where}: event {n} was sent after event {H.sent[-1][0]}")
            if H.events[-1][0] != n and x["at"] == a["now"] and s[0] != "advance":
                raise Violation(f"{where}: event {n} was sent although event {H.events[-1][0]} is newer")
            if e.model["tagName"] in INPUTS:
                if type(msg.get("seq")) is not int or msg["seq"] <= e.seq or msg["seq"] < 0:
                    raise Violation(f"{where}: the sequence number {msg.get('seq')} was sent after {e.seq}")
                e.seq = msg["seq"]
                if k in e.current():
                    e.last_sent[k[1]] = e.seq
            for t in ("target", "currentTarget"):
                if not isinstance(data[0].get(t), dict):
                    raise Violation(f"{where}: the {t} of the event was not sent")
                if e.model["tagName"] in INPUTS and e.model["attributes"].get("type") is None and data[0][t].get("value") not in {*numbers[n][2], a["dom"][i].get("value"), was[i].get("value") if was else None}:
                    raise Violation(f"{where}: the event was sent with the value {data[0][t].get('value')!r}")
            H.sent.append((n, x["at"]))
            if x["at"] > a["now"]:
                raise AssertionError
        if s[0] not in ("event", "advance") and a["sent"]:
            raise Violation(f"{where}: sent {a['sent']}")
        # ---- effects
        for i, e in enumerate(els):
            if e.model is None:
                continue
            if s[0] == "advance" and s[1] >= case["delay"]:
                e.loose = None
            if e.todo is not None:
                if s[0] == "advance" and s[1] >= case["delay"]:
                    e.value = {e.todo}
                    e.todo = None
                elif s[0] in ("advance", "deliver"):
                    e.value = e.value | {e.todo}
        # ---- updates
        for u in a["delivered"]:
            for i, m in (enumerate(u["model"]["children"][0]["children"]) if u["path"] == "" else [(int(u["path"].rsplit("/", 1)[1]), u["model"])]):
                e = els[i]
                first = e.model is None
                before = e.model
                e.model = m
                if first:
                    e.value = {"", None}
                    e.checked = {False, None}
                for k, h in e.current().items():
                    H = e.handlers.setdefault(k, Handler())
                    lim = limits_of(m["tagName"], h)
                    if not H.limits or H.limits[-1][1] != lim:
                        H.limits.append((a["now"], lim))
                if before is not None:
                    for n, h in (before.get("eventHandlers") or {}).items():
                        k = (n, h["target"])
                        if k not in e.current():
                            e.handlers[k].limits.append((a["now"], None))
                if m["tagName"] not in INPUTS:
                    continue
                at = m.get("attributes") or {}
                ack = at.get("_reactpy_ack_seq", -1)
                targets = [h["target"] for h in (m.get("eventHandlers") or {}).values()]
                new = ack < 0 <= e.last_ack
                e.last_ack = ack
                if new:
                    rec.tag("replaced")
                kept = {t: v for t, v in e.last_sent.items() if t in targets and not new}
                forgot = kept != e.last_sent
                e.last_sent = kept
                ok = e.caught_up(ack)
                deps = (at.get("value"), type(at.get("value")), ack)
                changed = e.deps is None or deps != e.deps or forgot
                e.deps = deps
                pend = any(e.handlers[k].pending() for k in e.current() if k in e.handlers)
                if at.get("value") is not None:
                    v = text(at["value"])
                    if ok and changed:
                        e.todo = v
                        e.value = e.value | {v}
                        shown += 1
                    elif ok:
                        e.value = e.value | {v}
                    elif changed:
                        e.todo = None
                        stale += e.value != {v}
                        if pend:
                            rec.tag("held")
                if type(at.get("checked")) is bool:
                    if ok:
                        e.checked = {at["checked"]}
                        shown += 1
                    elif at["checked"] not in e.checked:
                        stale += 1
                else:
                    e.checked = e.checked | {False}
        # ---- what is shown
        for i, e in enumerate(els):
            if e.model is None or e.model["tagName"] not in INPUTS:
                continue
            d = a["dom"][i]
            if type(e.model["attributes"].get("checked")) is bool and s[0] != "event" and e.caught_up(e.last_ack):
                # which is applied with every rendering
                e.checked = e.checked | {e.model["attributes"]["checked"]}
            if d["value"] not in e.value:
                raise Violation(f"{where}: element {i} shows {d['value']!r} instead of {sorted(e.value, key=str)}")
            if d["checked"] not in e.checked and e.model["attributes"].get("type") == "checkbox":
                raise Violation(f"{where}: element {i} is {'' if d['checked'] else 'not '}checked")
            if e.loose:
                e.value = e.value | e.loose
            elif e.todo is None:
                e.value = {d["value"]}
            e.checked = {d["checked"]}
        was = a["dom"]
    for e in els:
        for k, H in e.handlers.items():
            check_limits(e, k, H, r["steps"], rec)
    if stale:
        rec.tag("stale")
    if shown:
        rec.tag("shown")
    limited = any(l and (l[0] or l[1]) for e in els for H in e.handlers.values() for _, l in H.limits if H.events)
    rec.nt(stale or limited)


def text_at(e):
    return next(iter(e.value)) if e.value and len(e.value) == 1 else None


def check_limits(e, k, H, log, rec):
    """which events were sent when"""
    spans = H.limits + [(float("inf"), None)]
    sent = dict(H.sent)
    W = max(x[0] for _, x in H.limits if x) + max(x[1] for _, x in H.limits if x)
    for (t0, lim), (t1, _) in zip(spans, spans[1:]):
        if lim is None:
            continue
        T, D = lim
        evs = [(n, t) for n, t, l in H.events if l == lim and t0 <= t <= t1]
        own = {n for n, _ in evs}
        # of the events while these limits applied, and were not about to change
        if T and D:
            rec.tag("both")
        elif T:
            rec.tag("throttled")
        elif D:
            rec.tag("debounced")
        times = [t for n, t in H.sent if n in own and t < t1]
        if T:
            for x, y in zip(times, times[1:]):
                if y - x < T:
                    raise Violation(f"{k}: events were sent {y - x} ms after each other although they are throttled to one in {T} ms")
        if not T and not D:
            for n, t in evs:
                if sent.get(n) != t:
                    raise Violation(f"{k}: event {n} of {t - 1_000_000} ms was sent at {sent.get(n)}")
        elif not T:
            for (n, t), nxt in zip(evs, [*evs[1:], None]):
                due = t + D
                if due >= t1:
                    continue
                if nxt is not None and nxt[1] < due or nxt is None and next_event(H, n, due):
                    if n in sent:
                        raise Violation(f"{k}: event {n} was sent although another one followed within {D} ms")
                elif sent.get(n) != due:
                    raise Violation(f"{k}: event {n} of {t - 1_000_000} ms was sent at {sent.get(n) and sent[n] - 1_000_000} instead of after {D} ms")
        elif not D:
            if len(H.limits) > 1:
                # an interval may have begun before
                for n, t in evs:
                    if t + W < t1 and not next_event(H, n, t + W) and not (n in sent and sent[n] <= t + W):
                        raise Violation(f"{k}: event {n} of {t - 1_000_000} ms was sent at {sent.get(n)}, throttled to one in {T} ms")
                continue
            last = None
            for (n, t), nxt in zip(evs, [*evs[1:], None]):
                due = t if last is None or t >= last + T else last + T
                if due >= t1:
                    break
                if due > t and nxt is not None and nxt[1] < due:
                    if n in sent:
                        raise Violation(f"{k}: event {n} was sent although a newer one was waiting")
                    continue
                if due > t and nxt is None and next_event(H, n, due):
                    break
                if sent.get(n) != due:
                    raise Violation(f"{k}: event {n} of {t - 1_000_000} ms was sent at {sent.get(n) and sent[n] - 1_000_000} instead of {due - 1_000_000}, throttled to one in {T} ms")
                last = due
        else:
            for n, t in evs:
                if t + W < t1 and not next_event(H, n, t + W) and not (n in sent and t + D <= sent[n] <= t + W):
                    raise Violation(f"{k}: event {n} of {t - 1_000_000} ms was sent at {sent.get(n)}")
        if any(n not in sent for n, _ in evs):
            rec.tag("merged")
    # the last event of a handler that still exists is never lost
    if spans[-2][1] is not None and H.pending():
        raise Violation(f"{k}: the last event ({H.events[-1][0]}) was never sent")


def next_event(H, n, due):
    return any(m > n and t < due for m, t, _ in H.events)


SUBS = [Sub("input", gen=gen, valid=valid, run=run, quick=20000, thorough=150000, shards=8, rule="a value that was to be ignored arrived, or events of a throttled or debounced handler occurred")]
