import copy
import json
from urllib.parse import parse_qsl, urlsplit

from lib import Sub, Violation
from node import Node

PROPERTY = "C22"
ASSUMPTIONS = ["WebSocket, timers and location are stand-ins that behave as in the HTML standard", "a handler is registered once", "timers are exact"]
NODE = Node("js/socket.js")
TYPES = ["layout-update", "custom", "x y", "0"]
MSGS = [{"type": "layout-event", "target": "t", "data": []}, {"type": "a", "v": "é\U0001F600"}, {"type": "b", "v": [1, None, {"x": True}]}, {"type": "c", "v": ""}]
LOCS = [["/", ""], ["/a/b", "?x=1&y=2"], ["/é", "?"], ["/a b", "?q=%20+"], ["/", "?path=/evil&qs=1"]]
INTERVALS = [0, 1, 100, 750, 5000, 60000]
MULT = [1, 1.25, 2, 10, 0.5]


def gen_options(g):
    return {"interval": g.pick(INTERVALS), "maxInterval": g.pick(INTERVALS[2:]) if g.p(0.9) else 0, "maxRetries": g.pick([0, 1, 2, 3, 5, 150]), "backoffMultiplier": g.pick(MULT)}


def gen(g):
    steps = []
    n = [0]

    def on():
        n[0] += 1
        return ["on", g.pick(TYPES[:2]) if g.p(0.8) else g.pick(TYPES), n[0], g.weighted([(8, None), (1, "throws"), (1, "off"), (1, {"off": g.i(1, n[0])})])]
    if g.p(0.85):
        steps.append(on())
    style = g.pick(["mixed", "mixed", "flaky"])
    for _ in range(g.size(3, 40)):
        op = g.weighted([(3, "send"), (3, "open"), (3 if style == "flaky" else 1, "lose"), (3, "receive"), (2, "advance"), (1, "on"), (0.5, "off"), (0.5, "navigate"), (0.3, "closing")])
        if op == "send":
            # as many messages as pile up while there is no connection
            for _ in range(g.pick([300, 600, 1200]) if g.p(0.01) else 0):
                n[0] += 1
                steps.append(["send", {"type": "a", "n": n[0]}])
            m = copy.deepcopy(g.pick(MSGS))
            n[0] += 1
            m["n"] = n[0]
            steps.append(["send", m])
        elif op == "open":
            steps.append(["open", g.weighted([(9, 0), (1, g.i(1, 3))])])
        elif op == "lose":
            steps.append(["lose", g.p(0.5)])
        elif op == "receive":
            n[0] += 1
            steps.append(["receive", {"type": g.pick(TYPES[:2]) if g.p(0.8) else g.pick([*TYPES, "unknown", ""]), "n": n[0], "v": g.pick(["", 0, None, "é", [1]])} if g.p(0.95) else {"n": n[0]}])
        elif op == "advance":
            steps.append(["advance", g.pick([0, 1, 100, 749, 750, 1000, 5000, 60000, 200000])])
        elif op == "on":
            steps.append(on())
        elif op == "off":
            steps.append(["off", g.i(1, max(1, n[0]))])
        elif op == "navigate":
            steps.append(["navigate", *g.pick(LOCS)])
        else:
            steps.append(["closing"])
    loc = g.pick(LOCS)
    return {"steps": steps, "options": gen_options(g), "location": {"pathname": loc[0], "search": loc[1]}, "url": g.pick(["ws://h:1/reactpy/c", "wss://h/x?keep=1&path=old&qs=old", "ws://h/"])}


def gen_mount(g):
    o = gen_options(g)
    names = {"interval": "reconnectInterval", "maxInterval": "reconnectMaxInterval", "maxRetries": "reconnectMaxRetries", "backoffMultiplier": "reconnectBackoffMultiplier"}
    mount = {"pathPrefix": g.pick(["/reactpy/", "/a/b/", "/"])}
    for k, v in names.items():
        if g.p(0.6):
            mount[v] = o[k]
    if g.p(0.7):
        mount["componentPath"] = g.pick(["mod.comp", "é", ""])
    loc = g.pick(LOCS)
    steps = []
    for _ in range(g.size(2, 25)):
        op = g.weighted([(3, "open"), (3, "lose"), (3, "advance"), (1, "receive"), (1, "click"), (0.5, "navigate")])
        if op == "open":
            steps.append(["open", 0])
        elif op == "lose":
            steps.append(["lose", g.p(0.5)])
        elif op == "advance":
            steps.append(["advance", g.pick([0, 1, 749, 750, 937, 60000, 200000])])
        elif op == "receive":
            steps.append(["receive", {"type": "layout-update", "path": "", "model": {"tagName": "button", "eventHandlers": {"onClick": {"target": "t"}}}}])
        elif op == "click":
            steps.append(["click"])
        else:
            steps.append(["navigate", *g.pick(LOCS)])
    return {"steps": steps, "mount": mount, "location": {"pathname": loc[0], "search": loc[1], "protocol": g.pick(["http:", "https:"]), "host": "h:1"}}


def valid(c):
    try:
        ids = set()
        for s in c["steps"]:
            k = s[0]
            if k == "on":
                if "mount" in c or s[1] not in TYPES or s[2] in ids or type(s[2]) is not int or not (s[3] in (None, "throws", "off") or set(s[3]) == {"off"}):
                    return None
                ids.add(s[2])
            elif k == "send":
                if "mount" in c or not isinstance(s[1], dict) or not isinstance(s[1].get("type"), str):
                    return None
            elif k == "receive":
                if not isinstance(s[1], dict) or not isinstance(s[1].get("type", ""), str) or ("mount" in c and (s[1].get("type") != "layout-update" or s[1].get("model", {}).get("tagName") != "button" or s[1].get("path") != "")):
                    return None
                if "mount" in c and s[1]["model"] != {"tagName": "button", "eventHandlers": {"onClick": {"target": "t"}}}:
                    return None
            elif k == "advance":
                if not 0 <= s[1] <= 10**6:
                    return None
            elif k == "navigate":
                if list(s[1:]) not in LOCS:
                    return None
            elif k == "open":
                if type(s[1]) is not int or s[1] < 0 or ("mount" in c and s[1]):
                    return None
            elif k not in ("off", "lose", "closing", "click") or (k == "click" and "mount" not in c):
                return None
        o = c.get("options") or {}
        if not (set(o) == {"interval", "maxInterval", "maxRetries", "backoffMultiplier"} if "mount" not in c else True):
            return None
        if any(isinstance(v, bool) or not isinstance(v, (int, float)) or v < 0 for v in o.values()):
            return None
        if [c["location"]["pathname"], c["location"]["search"]] not in LOCS:
            return None
        for k, v in c.get("mount", {}).items():
            if k.startswith("reconnect") and (isinstance(v, bool) or not isinstance(v, (int, float)) or v < 0):
                return None
        if "mount" in c and c["mount"].get("pathPrefix") not in ("/reactpy/", "/a/b/", "/"):
            return None
        if "mount" not in c and not c["url"].startswith("ws"):
            return None
        return c
    except (KeyError, TypeError, ValueError, AttributeError, IndexError):
        return None


class Model:
    """what the client should do"""

    def __init__(self, case, opts):
        self.o = opts
        self.loc = (case["location"]["pathname"], case["location"]["search"])
        self.now = None
        self.ready = False
        self.n = -1
        self.state = None  # of the current connection
        self.full = None
        self.ever = False
        self.retries = 0
        self.first = min(opts["interval"], opts["maxInterval"])
        self.interval = self.first
        self.timer = None
        self.queue = []
        self.handlers = {}
        self.log = []

    def connect(self):
        self.n += 1
        self.state = 0
        self.full = None
        self.log.append(("connect", self.n, self.now, self.loc))

    def flush(self):
        while self.queue and self.state == 1:
            m = self.queue.pop(0)
            self.log.append(("send", self.n, m))
            if self.full is not None:
                self.full -= 1
                if self.full <= 0:
                    self.state = 2

    def step(self, s):
        k = s[0]
        if k == "on":
            self.handlers[s[2]] = (s[1], s[3])
            if not self.ready:
                self.ready = True
                self.connect()
        elif k == "off":
            self.handlers.pop(s[1], None)
        elif k == "send":
            self.queue.append(s[1])
            self.flush()
        elif k == "open":
            if self.state == 0:
                self.state = 1
                if s[1]:
                    self.full = s[1]
                self.ever = True
                self.interval = self.first
                self.retries = 0
                self.flush()
        elif k == "lose":
            if self.state is not None and self.state < 3:
                self.state = 3
                if self.ever and self.retries < self.o["maxRetries"]:
                    self.timer = self.now + self.interval
                    self.interval = min(self.interval * self.o["backoffMultiplier"], self.o["maxInterval"])
                    self.retries += 1
        elif k == "closing":
            if self.state == 1:
                self.state = 2
        elif k == "receive":
            if self.state == 1:
                m = s[1]
                t = m.get("type")
                if t:
                    # handlers that are registered when the message arrives
                    for i, (ht, how) in list(self.handlers.items()):
                        if ht == t:
                            self.log.append(("got", i, m))
                            if how == "off":
                                self.handlers.pop(i, None)
                            elif isinstance(how, dict):
                                self.handlers.pop(how["off"], None)
        elif k == "navigate":
            self.loc = (s[1], s[2])
        elif k == "advance":
            self.tick(self.now + s[1])
        self.tick(self.now)

    def tick(self, end):
        while self.timer is not None and self.timer <= end:
            self.now = max(self.now, self.timer)
            self.timer = None
            self.connect()
        self.now = end


def check_url(url, case, loc, base):
    u, b = urlsplit(url), urlsplit(base)
    if (u.scheme, u.netloc, u.path) != (b.scheme, b.netloc, b.path):
        raise Violation(f"connected to {url} instead of {base}")
    want = [(k, v) for k, v in parse_qsl(b.query, keep_blank_values=True) if k not in ("path", "qs")]
    got = parse_qsl(u.query, keep_blank_values=True)
    want += [("path", loc[0])] + ([("qs", loc[1])] if loc[1] else [])
    if sorted(got) != sorted(want):
        raise Violation(f"the connection has the parameters {got} instead of {want}")


def run(case, rec):
    mount = "mount" in case
    if mount:
        m = case["mount"]
        opts = {"interval": m.get("reconnectInterval", 750), "maxInterval": m.get("reconnectMaxInterval", 60000), "maxRetries": m.get("reconnectMaxRetries", 150), "backoffMultiplier": m.get("reconnectBackoffMultiplier", 1.25)}
        from urllib.parse import quote
        base = f"{'wss' if case['location']['protocol'] == 'https:' else 'ws'}://h:1{m['pathPrefix']}{quote(m.get('componentPath', ''))}"
    else:
        opts = case["options"]
        base = case["url"]
    # endless retries at once are not interesting
    r = NODE.ask(case)
    if r is None or "crash" in r:
        if r and "timers never end" in str(r):
            return
        raise Violation(f"the client crashed or did not end: {r}")
    model = Model(case, opts)
    log = r["log"]
    bad = [e for e in r["errors"] if "handler failed" not in e]
    if bad or [x for x in r["rejections"] if "handler failed" not in x]:
        raise Violation(f"the client failed: {(bad or r['rejections'])[0]}")
    # split the log at the steps
    parts, cur = [], []
    times = []
    for x in log:
        if x[0] == "step":
            parts.append(cur)
            times.append(x[2])
            cur = []
        else:
            cur.append(x)
    model.now = times[0]
    if mount:
        model.ready = True
        model.connect()
        if parts[0]:
            model.log[-1] = ("connect", 0, parts[0][0][2], model.loc)
    shown = False

    def compare(real, start, label):
        want = model.log[start:]
        got = []
        for x in real:
            if x[0] == "connect":
                if x[4]:
                    raise Violation(f"{label}: connected although another connection is still active")
                got.append(("connect", x[1], x[2], None))
            elif x[0] == "send":
                got.append(("send", x[1], json.loads(x[3])))
            elif x[0] == "got":
                got.append(("got", x[1], x[2]))
            elif x[0] == "lost":
                raise Violation(f"{label}: the message {x[2]} was sent on a connection that is closing")
            else:
                raise Violation(f"{label}: {x}")
        for a, b in zip(want, got):
            if a[0] != b[0] or a[1] != b[1]:
                raise Violation(f"{label}: {b} instead of {a}")
            if a[0] == "connect" and abs(a[2] - b[2]) > 1e-6 * max(1, abs(a[2] - times[0])):
                raise Violation(f"{label}: connected after {b[2] - times[0]} ms instead of {a[2] - times[0]}")
            if a[0] == "send" and ({k: v for k, v in b[2].items() if not mount} != {k: v for k, v in a[2].items() if not mount}):
                raise Violation(f"{label}: sent {b[2]} instead of {a[2]}")
            if a[0] == "got" and a[2] != b[2]:
                raise Violation(f"{label}: handler {a[1]} got {b[2]} instead of {a[2]}")
        if len(want) != len(got):
            raise Violation(f"{label}: {[g[:3] for g in got[len(want):]]} should not happen" if len(got) > len(want) else f"{label}: {want[len(got)][:3]} did not happen")
        for a, x in zip([w for w in want if w[0] == "connect"], [x for x in real if x[0] == "connect"]):
            check_url(x[3], case, a[3], base)
    compare(parts[0], 0, "start")
    for i, s in enumerate(case["steps"]):
        start = len(model.log)
        if mount and s[0] == "click":
            if shown:
                model.step(["send", {}])
        elif mount and s[0] == "receive":
            shown = shown or model.state == 1
        else:
            model.step(s)
        compare(parts[i + 1], start, f"step {i} {json.dumps(s)[:120]}")
        model.now = times[i + 1]
    connects = sum(1 for x in model.log if x[0] == "connect")
    sends = sum(1 for x in model.log if x[0] == "send")
    if connects > 1:
        rec.tag("reconnected")
    if model.ever and model.state == 3 and model.timer is None:
        rec.tag("gave-up")
    if sends:
        rec.tag("sent")
    if any(x[0] == "got" for x in model.log):
        rec.tag("received")
    if mount and shown and r["text"] != ["button"]:
        raise Violation(f"the page shows {r['text']} after a layout update")
    rec.nt(connects > 1 or (sends >= 2 and not mount))


SUBS = [
    Sub("connection", gen=gen, valid=valid, run=run, quick=15000, thorough=150000, shards=8,
        rule="histories of handlers being registered and removed, messages sent and received, connections opening, failing, getting full, closing and being lost, navigation and time, with any reconnect options; non-trivial = it reconnected or sent two messages"),
    Sub("mount", gen=gen_mount, valid=valid, run=run, quick=6250, thorough=40000, shards=8,
        rule="the same through mountReactPy with any subset of settings, prefix, component path, protocol and location; non-trivial = it reconnected"),
]
