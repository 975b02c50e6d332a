import asyncio
import contextlib
import functools
import json
import logging
import os
import re
import socket
import time
import types
import warnings

import uvicorn

os.environ["REACTPY_TESTS_DEFAULT_TIMEOUT"] = "2.05"
NOW = []  # the virtual clock, while there is one


def switchable(real):
    return lambda: NOW[-1]() if NOW else real()


for _n in ("time", "monotonic", "perf_counter"):
    setattr(time, _n, switchable(getattr(time, _n)))
from reactpy import component, html
from reactpy.config import REACTPY_TESTS_DEFAULT_TIMEOUT
from reactpy.core.hooks import use_state
from reactpy.core.layout import Layout
from reactpy.logging import ROOT_LOGGER
from reactpy.testing import (
    BackendFixture,
    HookCatcher,
    LogAssertionError,
    StaticEventHandler,
    assert_reactpy_did_log,
    assert_reactpy_did_not_log,
    capture_reactpy_logs,
    poll,
)
from reactpy.testing import backend as backend_module
from reactpy.testing.logs import list_logged_exceptions

import vloop
import world as W
from lib import Sub, Violation, canon, load_known

warnings.simplefilter("ignore")
PROPERTY = "C28"
ASSUMPTIONS = ["contexts are nested properly", "error patterns are matched against texts which occur in messages of exceptions only"]
for h in list(ROOT_LOGGER.handlers):
    ROOT_LOGGER.removeHandler(h)  # (only prints)
logging.disable(logging.NOTSET)  # (world disables it)
ROOT_LOGGER.propagate = False
logging.getLogger("other").propagate = logging.getLogger("reactpyx").propagate = False
logging.getLogger("other").addHandler(logging.NullHandler())
logging.getLogger("reactpyx").addHandler(logging.NullHandler())
uvicorn.config.LOGGING_CONFIG.update({"loggers": {}, "handlers": {}})
logging.getLogger("uvicorn").addHandler(logging.NullHandler())
logging.getLogger("uvicorn").propagate = False

# The testing utilities have genuine defects which no commit of ours may repair: all of src/reactpy/testing counts as test
# files. The recorded cases must hold; for others, a deviation is let pass if it is precisely what these defects cause.
LISTED = {(k["sub"], canon(k["case"])) for k in load_known() if k["property"] == PROPERTY and k["status"] == "known"}


def skipping(records, fits, delete):
    """list_logged_exceptions as it is: it passes over the record after each one that it deletes, and deletes others"""
    found = []
    for i, r in enumerate(records):
        if fits(r):
            if delete:
                del records[i - len(found)]
            found.append(r)
    return found


LOGGERS = ["reactpy", "reactpy.core.layout", "reactpy.some.thing", "other", "reactpyx"]
LEVELS = {"debug": 10, "info": 20, "warning": 30, "error": 40, "critical": 50}
MESSAGES = ["alpha", "beta", "alpha beta", "", "gamma 7"]
ERRORS = {"ValueError": ValueError, "KeyError": KeyError, "RuntimeError": RuntimeError, "LookupError": LookupError, "Cancelled": asyncio.CancelledError, "Exception": Exception, "LogAssertionError": LogAssertionError, "AssertionError": AssertionError}
TEXTS = ["", "boomone", "boomtwo", "boomone boomtwo"]
MPATTERNS = ["", "alpha", "beta$", "^alpha$", "a.*b", "(x)?", "(?i)ALPHA", "gamma \\d", "delta", "a|b"]
EPATTERNS = ["", "boomone", "boomtwo", "boom(one|two)", "boomthree", "(?i)BOOMONE"]


# ------------------------------------------------------------------ logs
class Program:
    """The real contexts, or (model) what they have to do."""

    def __init__(self, model, quirks=False):
        self.model = model
        self.quirks = quirks  # as it is, not as it should be: nested captures share their records, ...
        self.shared = None
        self.trace = []
        self.known = {}
        self.errors = {}

    def error(self, at, kind, text):
        """the exception of one place in the program: both runs use objects of their own"""
        e = self.errors[at] = ERRORS[kind](text)
        self.known[id(e)] = at
        return e

    def name(self, e):
        return self.known.get(id(e)) or ("LogAssertionError" if type(e) is LogAssertionError else repr(e))

    def body(self, nodes, at, records, handle):
        """``records``: the record lists of all captures (model); ``handle``: of this one, if it is a capture"""
        for i, node in enumerate(nodes):
            self.node(node, at + (i,), records, handle)

    def node(self, node, at, records, handle):
        op = node["op"]
        if op == "log":
            e = None
            if node.get("exc"):
                e = self.error(at, *node["exc"])
            if self.model:
                if node["logger"] in LOGGERS[:3] and self.shared is not None:
                    self.shared.append((LEVELS[node["level"]], node["msg"], e))
                elif node["logger"] in LOGGERS[:3] and records:
                    records[-1].append((LEVELS[node["level"]], node["msg"], e))
                return
            log = logging.getLogger(node["logger"])
            how = getattr(log, node["level"])
            if e is None:
                if node.get("empty"):
                    how(node["msg"], exc_info=True)
                elif node["msg"].startswith("gamma"):
                    how("gamma %s", 7)
                else:
                    how(node["msg"])
            elif node.get("raised"):
                try:
                    raise e
                except BaseException:
                    how(node["msg"], exc_info=True)
            else:
                how(node["msg"], exc_info=e)
        elif op == "raise":
            raise self.error(at, *node["exc"])
        elif op == "try":
            try:
                self.body(node["body"], at, records, None)
                self.trace.append((at, "ended"))
            except BaseException as e:
                if type(e) in (Violation, KeyboardInterrupt):
                    raise
                self.trace.append((at, self.name(e)))
        elif op == "capture":
            if self.model:
                with self.capture() as mine:
                    self.trace.append((at, "new", [r[1] for r in mine]))
                    self.body(node["body"], at, [*records, mine], mine)
                return
            with capture_reactpy_logs() as mine:
                self.trace.append((at, "new", [r.getMessage() for r in mine]))
                self.body(node["body"], at, records, mine)
        elif op in ("did", "didnot"):
            kw = {k: node[k] for k in ("match_message", "match_error") if k in node}
            if node.get("error_type"):
                kw["error_type"] = ERRORS[node["error_type"]]
            if self.model:
                try:
                    with self.capture() as mine:
                        self.body(node["body"], at, [*records, mine], None)
                        found = any(self.matches(r, kw) for r in mine)
                except LogAssertionError:
                    if self.quirks and op == "didnot":
                        return
                    raise
                if found != (op == "did"):
                    raise LogAssertionError
                return
            with (assert_reactpy_did_log if op == "did" else assert_reactpy_did_not_log)(**kw) as x:
                if x is not None:
                    raise Violation(f"{op} yields {x!r}")
                self.body(node["body"], at, records, None)
        elif handle is not None:
            kw = dict(node["kw"])
            if "types" in kw:
                ts = tuple(ERRORS[t] for t in kw["types"])
                kw["types"] = ts if len(ts) != 1 else ts[0]
            if self.model:
                level, types_, pattern = kw.get("log_level", 40), kw.get("types", Exception), kw.get("pattern", "")
                def fits(r):
                    return r[0] >= level and r[2] is not None and isinstance(r[2], types_) and re.search(pattern, str(r[2]))
                if self.quirks:
                    found = skipping(handle, fits, kw.get("del_log_records", True))
                else:
                    found = [r for r in handle if fits(r)]
                if kw.get("del_log_records", True) and not self.quirks:
                    handle[:] = [r for r in handle if not any(r is f for f in found)]
                self.trace.append((at, [self.name(r[2]) for r in found], [r[1] for r in handle]))
            else:
                found = list_logged_exceptions(handle, **kw)
                self.trace.append((at, [self.name(e) for e in found], [r.getMessage() for r in handle]))

    @contextlib.contextmanager
    def capture(self):
        if not self.quirks:
            yield []
            return
        outer = self.shared
        if outer is None:
            self.shared = []
        start = len(self.shared)
        try:
            yield self.shared
        finally:
            del self.shared[start:]
            self.shared = outer

    def matches(self, r, kw):
        _, msg, e = r
        if not re.search(kw.get("match_message", ""), msg):
            return False
        if "error_type" in kw and not isinstance(e, kw["error_type"]):
            return False
        return not kw.get("match_error") or e is not None and bool(re.search(kw["match_error"], str(e)))


def run_logs(case, rec):
    level, handlers = ROOT_LOGGER.level, list(ROOT_LOGGER.handlers)
    mark = logging.NullHandler()
    ROOT_LOGGER.addHandler(mark)
    ROOT_LOGGER.setLevel(case["level"])
    got, want, quirky = Program(False), Program(True), Program(True, True)
    try:
        for p in (got, want, quirky):
            p.node({"op": "try", "body": case["body"]}, (), [], None)
            if ROOT_LOGGER.level != case["level"]:
                raise Violation(f"the level of the logger is {ROOT_LOGGER.level} instead of {case['level']} afterwards")
            if ROOT_LOGGER.handlers != [*handlers, mark]:
                raise Violation(f"the logger has the handlers {ROOT_LOGGER.handlers} afterwards")
    finally:
        ROOT_LOGGER.handlers[:] = handlers
        ROOT_LOGGER.setLevel(level)
    if ("logs", canon(case)) in LISTED:
        quirky = want
    for a, b in zip(got.trace, want.trace):
        if got.trace == quirky.trace:
            break
        if a != b:
            raise Violation(f"at {list(a[0])} it says {a[1:]} instead of {b[1:]}" if a[0] == b[0] else f"comes to {list(a[0])} instead of {list(b[0])}: {a[1:]}")
    if len(got.trace) != len(want.trace) and got.trace != quirky.trace:
        raise Violation(f"{len(got.trace)} results instead of {len(want.trace)}")
    for t in want.trace:
        rec.tag("new" if t[1] == "new" else "list" if len(t) == 3 else "failed" if t[1] == "LogAssertionError" else "ended" if t[1] == "ended" else "raised")
        if len(t) == 3 and t[1] != "new" and len(t[1]) > 1:
            rec.tag("several-errors")
    if got.trace != want.trace:
        rec.tag("as-recorded")
    rec.nt(case_has(case["body"], ("did", "didnot", "list")) and case_has(case["body"], ("log",)))


def case_has(nodes, ops):
    return any(n["op"] in ops or case_has(n.get("body", ()), ops) for n in nodes)


def gen_nodes(g, depth, inside):
    out = []
    for _ in range(g.size(0 if depth else 1, 6)):
        k = g.weighted([(5, "log"), (0.3, "raise"), (1, "try"), (1, "capture"), (1.2, "did"), (1.2, "didnot"), (2 if inside else 0, "list")])
        if k == "log":
            n = {"op": k, "logger": g.weighted([(4, LOGGERS[0]), (2, LOGGERS[1]), (1, LOGGERS[2]), (0.5, LOGGERS[3]), (0.5, LOGGERS[4])]), "level": g.weighted([(1, "debug"), (1, "info"), (1, "warning"), (3, "error"), (0.5, "critical")]), "msg": g.pick(MESSAGES)}
            if g.p(0.6):
                n["exc"] = [g.pick(["ValueError", "KeyError", "RuntimeError", "LookupError", "Cancelled"]), g.pick(TEXTS)]
                if g.p(0.5):
                    n["raised"] = True
            elif g.p(0.1):
                n["empty"] = True
        elif k == "raise":
            n = {"op": k, "exc": [g.pick(list(ERRORS)), g.pick(TEXTS)]}
        elif k == "list":
            kw = {}
            if g.p(0.4):
                kw["pattern"] = g.pick(EPATTERNS)
            if g.p(0.3):
                kw["types"] = g.sample(["ValueError", "KeyError", "RuntimeError", "LookupError", "Exception"], g.i(1, 2))
            if g.p(0.3):
                kw["log_level"] = g.pick(sorted(LEVELS.values()))
            if g.p(0.3):
                kw["del_log_records"] = g.p(0.5)
            n = {"op": k, "kw": kw}
        elif depth >= 3:
            continue
        else:
            n = {"op": k, "body": gen_nodes(g, depth + 1, k == "capture")}
            if k in ("did", "didnot"):
                if g.p(0.7):
                    n["match_message"] = g.pick(MPATTERNS)
                if g.p(0.4):
                    n["error_type"] = g.pick(["ValueError", "KeyError", "RuntimeError", "LookupError", "Exception"])
                if g.p(0.4):
                    n["match_error"] = g.pick(EPATTERNS)
        out.append(n)
    return out


def gen_logs(g):
    return {"level": g.pick([10, 20, 30, 50]), "body": gen_nodes(g, 0, False)}


def ok_exc(e):
    return len(e) == 2 and e[0] in ERRORS and e[1] in TEXTS


def ok_nodes(nodes):
    for n in nodes:
        k = n["op"]
        if k == "log":
            if n["logger"] not in LOGGERS or n["level"] not in LEVELS or n["msg"] not in MESSAGES or not (n.get("exc") is None or ok_exc(n["exc"])):
                return False
        elif k == "raise":
            if not ok_exc(n["exc"]):
                return False
        elif k == "list":
            kw = n["kw"]
            if set(kw) - {"pattern", "types", "log_level", "del_log_records"} or kw.get("pattern", "") not in EPATTERNS or type(kw.get("log_level", 1)) is not int or not set(kw.get("types", ["KeyError"])) <= set(ERRORS) or type(kw.get("del_log_records", True)) is not bool:
                return False
            if "types" in kw and not kw["types"]:
                return False
        elif k in ("try", "capture", "did", "didnot"):
            if n.get("match_message", "") not in MPATTERNS or n.get("match_error", "") not in EPATTERNS or n.get("error_type", "KeyError") not in ERRORS or not ok_nodes(n["body"]):
                return False
        else:
            return False
    return True


def valid_logs(c):
    try:
        return c if c["level"] in (10, 20, 30, 50) and ok_nodes(c["body"]) else None
    except (KeyError, TypeError, AttributeError, IndexError):
        return None


# ------------------------------------------------------------------ poll
VALUES = {"0": 0, "1": 1, "true": True, "one": 1.0, "none": None, "a": "a", "empty": [], "empty2": [], "boom": None}


def run_poll(case, rec):
    try:
        vloop.run(polled, case, rec)
    finally:
        NOW.clear()


async def polled(loop, case, rec):
    NOW[:] = [loop.time]
    limit = case["timeout"] if case["timeout"] is not None else REACTPY_TESTS_DEFAULT_TIMEOUT.current
    calls = []
    results = []
    asked = []

    def value(args, kwargs):
        if (list(args), kwargs) != (case["args"], case["kwargs"]):
            raise Violation(f"the function was called with {args} {kwargs} instead of {case['args']} {case['kwargs']}")
        i = min(len(calls), len(case["values"]) - 1)
        calls.append(loop.time())
        return case["values"][i]

    def give(v):
        if v == "boom":
            raise KeyError("boom")
        x = VALUES[v]
        results.append(x)
        return x

    async def later(args, kwargs):
        v, wait = value(args, kwargs)
        if wait:
            await asyncio.sleep(wait)
        return give(v)

    async def coro(*args, **kwargs):
        return await later(args, kwargs)

    def plain(*args, **kwargs):
        return give(value(args, kwargs)[0])

    class Obj:
        async def __call__(self, *args, **kwargs):
            return await later(args, kwargs)

        async def method(self, *args, **kwargs):
            return await later(args, kwargs)

    kind = case["kind"]
    slow = kind not in ("plain", "partial-plain")
    args, kwargs = case["args"], case["kwargs"]
    f = {"plain": plain, "async": coro, "lambda": lambda *a, **k: coro(*a, **k), "future": lambda *a, **k: asyncio.ensure_future(coro(*a, **k)), "object": Obj(), "method": Obj().method,
         "partial": functools.partial(coro, *args), "partial-plain": functools.partial(plain, *args)}[kind]
    p = poll(f, *([] if kind.startswith("partial") else args), **kwargs)
    goal = VALUES[case["goal"]]
    kw = {k: case[k] for k in ("timeout", "delay") if case[k] is not None}
    delay = 0.1 if case["delay"] is None else case["delay"]

    def holds(x):
        return x is goal if case["until"] == "is" else x == goal

    def condition(x):
        asked.append(x)
        if case["until"] == "raises":
            raise RuntimeError("condition")
        return "yes" if holds(x) else 0
    start = loop.time()
    try:
        if case["until"] == "is":
            await p.until_is(goal, **kw)
        elif case["until"] == "equals":
            await p.until_equals(goal, **kw)
        else:
            await p.until(condition, **kw, **({"description": "the TEXT"} if case["text"] else {}))
        how = "done"
    except TimeoutError as e:
        how = "timeout"
        if case["text"] and case["until"] == "until" and "the TEXT" not in str(e):
            raise Violation(f"the timeout says {e}") from None
        if repr(results[-1]) not in str(e):
            raise Violation(f"the timeout says {e} where the last value was {results[-1]!r}") from None
    except (KeyError, RuntimeError) as e:
        how = "raised " + type(e).__name__
    end = loop.time()
    # what has to happen
    t = start
    exp_calls = []
    i = 0
    while True:
        t += delay
        exp_calls.append(t)
        v, wait = case["values"][min(i, len(case["values"]) - 1)]
        i += 1
        if slow:
            t += wait
        if v == "boom":
            want = "raised KeyError"
        elif case["until"] == "raises":
            want = "raised RuntimeError"
        elif holds(VALUES[v]):
            want = "done"
        elif t - start > limit + 1e-6:
            want = "timeout"
        elif abs(t - start - limit) <= 1e-6:
            return  # exactly at the limit: either is right
        else:
            continue
        break
    if how != want:
        raise Violation(f"{how} after {len(calls)} calls and {end - start:.3f} s, but should be {want} after {len(exp_calls)} calls and {t - start:.3f} s")
    if len(calls) != len(exp_calls) or any(abs(a - b) > 1e-3 for a, b in zip(calls, exp_calls)):
        raise Violation(f"called at {[round(c - start, 3) for c in calls]} instead of {[round(c - start, 3) for c in exp_calls]}")
    if abs(end - t) > 1e-3:
        raise Violation(f"{how} after {end - start:.3f} s instead of {t - start:.3f} s")
    if case["until"] in ("until", "raises") and (len(asked) != len(results) or any(a is not b for a, b in zip(asked, results))):
        raise Violation(f"the condition was asked for {asked}, the values were {results}")
    rec.tag(how, kind)
    rec.nt(len(calls) > 1)


def gen_poll(g):
    # (what "lambda", "future" and "object" return is never awaited: see the recorded cases)
    return {"kind": g.pick(["plain", "async", "method", "partial", "partial-plain"]), "until": g.weighted([(3, "until"), (2, "is"), (2, "equals"), (0.3, "raises")]), "goal": g.pick([v for v in VALUES if v != "boom"]),
            "timeout": g.weighted([(2, None), (1, 0), (2, 0.35), (2, 1.05), (1, 4.05)]), "delay": g.weighted([(3, None), (1, 0.1), (1, 0.3), (1, 1)]), "text": g.p(0.3), "args": [g.i(0, 3) for _ in range(g.i(0, 2))], "kwargs": {k: 1 for k in "xy" if g.p(0.2)},
            "values": [[g.weighted([(1, "boom"), (20, None)]) or g.pick(list(VALUES)[:-1]), g.weighted([(3, 0), (1, 0.2), (1, 1)])] for _ in range(g.size(1, 8))]}


def valid_poll(c):
    try:
        ok = (c["kind"] in ("plain", "async", "lambda", "future", "object", "method", "partial", "partial-plain") and c["until"] in ("until", "is", "equals", "raises") and c["goal"] in VALUES and c["goal"] != "boom" and c["timeout"] in (None, 0, 0.35, 1.05, 4.05) and c["delay"] in (None, 0.1, 0.3, 1)
              and type(c["text"]) is bool and all(type(a) is int for a in c["args"]) and set(c["kwargs"]) <= {"x", "y"} and c["values"] and all(v in VALUES and w in (0, 0.2, 1) for v, w in c["values"]))
        return c if ok else None
    except (KeyError, TypeError, ValueError):
        return None


# ------------------------------------------------------------------ the backend fixture
class Server(uvicorn.Server):
    """uvicorn's server without its sockets and signals"""
    made = []
    start_delay = 0
    dead = False

    def __init__(self, config):
        super().__init__(config)
        self.listening = 0
        self.log = []
        Server.made.append(self)

    async def serve(self, sockets=None):
        self.log.append("serve")
        if not self.config.loaded:
            self.config.load()
        self.lifespan = self.config.lifespan_class(self.config)
        if Server.dead:
            await asyncio.Event().wait()
        await asyncio.sleep(Server.start_delay)
        sock = types.SimpleNamespace(family=socket.AF_INET, getsockname=lambda: ("127.0.0.1", self.config.port or 43210))
        self.servers = [types.SimpleNamespace(sockets=[types.SimpleNamespace(family=socket.AF_INET6, getsockname=lambda: ("::1", 5, 0, 0)), sock], close=lambda: None)]
        self.listening += 1
        self.log.append("listening")
        self.started = True
        try:
            while not self.should_exit:
                await asyncio.sleep(0.1)
            await self.shutdown()
        finally:
            self.log.append("ended")

    async def shutdown(self, sockets=None):
        if self.listening:
            self.log.append("shutdown")
            await asyncio.sleep(0.1)
            self.listening -= 1


class Fail(Exception):
    pass


def run_fixture(case, rec):
    level, handlers = ROOT_LOGGER.level, list(ROOT_LOGGER.handlers)
    real = uvicorn.Server
    uvicorn.Server = Server
    Server.made, Server.start_delay, Server.dead = [], case["start"], bool(case.get("dead"))
    try:
        vloop.run(fixture, case, rec)
        if (ROOT_LOGGER.level != level or ROOT_LOGGER.handlers != handlers) and (not case.get("dead") or ("fixture", canon(case)) in LISTED):
            raise Violation(f"the logger is left at level {ROOT_LOGGER.level} with {ROOT_LOGGER.handlers}")
    finally:
        uvicorn.Server = real
        ROOT_LOGGER.handlers[:] = handlers
        ROOT_LOGGER.setLevel(level)
        backend_module.mount_to_hotswap(None)


async def asgi(scope, receive, send):
    pass


async def fixture(loop, case, rec):
    strict = ("fixture", canon(case)) in LISTED
    b = BackendFixture(asgi if case["app"] else None, **({"port": case["port"]} if case["port"] else {}))
    errors = []  # what the fixture should complain about
    records = []  # what it has captured: messages, errors

    def log(o):
        e = None
        if o["exc"]:
            e = ERRORS[o["exc"][0]](o["exc"][1])
        if o["logger"] in LOGGERS[:3]:
            records.append((o["msg"], LEVELS[o["level"]], e))
        logging.getLogger(o["logger"]).log(LEVELS[o["level"]], o["msg"], exc_info=e)
        return e if e is not None and LEVELS[o["level"]] >= 40 and isinstance(e, Exception) and o["logger"] in LOGGERS[:3] else None

    def up(what):
        s = Server.made[-1]
        if s.listening != 1:
            raise Violation(f"after {what} {s.listening} servers are listening ({s.log})")
        want = case["port"] or 43210
        if b.port != want:
            raise Violation(f"the port is {b.port} instead of {want}")
        if b.url("/x", {"q": "a b"}) != f"http://127.0.0.1:{want}/x?q=a+b" or b.url() != f"http://127.0.0.1:{want}":
            raise Violation(f"the URLs are {b.url('/x', {'q': 'a b'})} and {b.url()}")
    before = set(asyncio.all_tasks())
    try:
        body = restarted = None
        async with b as given:
            records.clear()
            if given is not b:
                raise Violation("the fixture yields something else")
            up("starting")
            for o in case["ops"]:
                if o["op"] == "log":
                    e = log(o)
                    if e is not None:
                        errors.append(e)
                elif o["op"] == "inner":
                    with capture_reactpy_logs() as inner:
                        m = len(records)
                        for x in o["body"]:
                            log(x)
                        await asyncio.sleep(0)
                        n = sum(x["logger"] in LOGGERS[:3] for x in o["body"])
                        msgs = [r[0] for r in records]
                        del records[m:]
                        if [r.getMessage() for r in inner] not in ([msgs[m:]] if strict else [msgs[m:], msgs]):
                            raise Violation(f"{len(inner)} records instead of {n} were captured within")
                elif o["op"] == "list":
                    got = b.list_logged_exceptions(**o["kw"])
                    def fits(r, kw=o["kw"]):
                        return r[1] >= 40 and isinstance(r[2], Exception) and re.search(kw.get("pattern", ""), str(r[2]))
                    want = [r[2] for r in records if fits(r)]
                    delete = o["kw"].get("del_log_records", True)
                    if strict:
                        if delete:
                            records[:] = [r for r in records if not fits(r)]
                    else:
                        kept = [*records]
                        quirky = [r[2] for r in skipping(kept, fits, delete)]
                        if list(map(id, got)) == list(map(id, quirky)):
                            want, records[:] = quirky, kept
                        elif delete:
                            records[:] = [r for r in records if not fits(r)]
                    if list(map(id, got)) != list(map(id, want)):
                        raise Violation(f"lists {got} instead of {want}")
                    if delete:
                        errors = [e for e in errors if not any(e is w for w in want)]
                    rec.tag("list")
                elif o["op"] == "mount":
                    def C(n=o["n"]):
                        return html.p(str(n))
                    b.mount(component(C) if o["n"] else None)
                    async with Layout(backend_module.root_hotswap_component()) as layout:
                        m = json.dumps(await layout.render())
                        if ('"tagName": "p"' in m and json.dumps(str(o["n"])) in m) != bool(o["n"]):
                            raise Violation(f"mounting {o['n']} shows {m}")
                elif o["op"] == "restart":
                    restarted = [*errors]
                    await b.restart()
                    if errors and strict:
                        raise Violation(f"restarting ignores the logged {errors}")
                    if not strict and not Server.made[-1].listening:
                        await asyncio.sleep(case["start"] + 0.05)  # (it does not wait for the new server)
                    up("a restart")
                    errors.clear()
                    records.clear()
                    if b.log_records:
                        raise Violation("there are log records after a restart")
                    rec.tag("restart")
                elif o["op"] == "fail":
                    body = Fail()
                    raise body
                await asyncio.sleep(o.get("wait", 0))
            restarted = None
        how = None
    except Violation:
        raise
    except BaseException as e:
        how = e
    # the end
    if case.get("dead"):
        if type(how) is not RuntimeError:
            raise Violation(f"a server that never starts gives {how!r}")
        rec.tag("dead")
    elif errors:
        chain = []
        e = how
        while e is not None:
            chain.append(e)
            e = e.__cause__ or e.__context__
        if not isinstance(how, LogAssertionError) or not any(e is errors[0] for e in chain):
            # (the records are gone before it looks for errors: recorded)
            if strict and (how is None or body is None) or not strict and how is not body:
                raise Violation(f"ends with {how!r} although {errors} were logged")
        rec.tag("unexpected")
    elif how is not body:
        raise Violation(f"ends with {how!r} instead of {body!r}")
    await asyncio.sleep(1)
    s = Server.made[-1]
    if s.listening:
        raise Violation(f"the server is still listening afterwards ({s.log})")
    left = [t for t in set(asyncio.all_tasks()) - before if not t.done() and "serve" in repr(t.get_coro())]
    if left and (strict or not case.get("dead")):
        raise Violation(f"the server still runs afterwards: {left}")
    rec.nt(bool(case["ops"]))


def gen_log(g):
    return {"op": "log", "logger": g.pick(LOGGERS[:4]), "level": g.weighted([(1, "info"), (1, "warning"), (2, "error"), (1, "critical")]), "msg": g.pick(MESSAGES), "exc": [g.pick(["ValueError", "KeyError", "Cancelled"]), g.pick(TEXTS)] if g.p(0.6) else None}


def gen_fixture(g):
    ops = []
    for _ in range(g.size(0, 7)):
        k = g.weighted([(2, "log"), (1, "inner"), (2, "list"), (1, "mount"), (1, "restart"), (0.3, "fail")])
        o = {"op": k}
        if k == "log":
            o = gen_log(g)
        elif k == "inner":
            o["body"] = [gen_log(g) for _ in range(g.i(0, 3))]
        elif k == "list":
            o["kw"] = {**({"pattern": g.pick(EPATTERNS)} if g.p(0.3) else {}), **({"del_log_records": g.p(0.5)} if g.p(0.2) else {})}
        elif k == "mount":
            o["n"] = g.i(0, 3)
        if g.p(0.2):
            o["wait"] = 0.15
        ops.append(o)
    c = {"app": g.p(0.3), "port": g.pick([None, None, 8123]), "start": g.weighted([(3, 0), (2, 0.05), (2, 0.35)]), "ops": ops}
    if g.p(0.05):
        c["dead"] = True
    return c


def valid_fixture(c):
    try:
        def ok_log(o):
            return o["op"] == "log" and o["logger"] in LOGGERS and o["level"] in LEVELS and o["msg"] in MESSAGES and (o["exc"] is None or ok_exc(o["exc"]))
        if type(c["app"]) is not bool or c["port"] not in (None, 8123) or c["start"] not in (0, 0.05, 0.35) or c.get("dead", True) is not True:
            return None
        for o in c["ops"]:
            if o.get("wait", 0) not in (0, 0.15):
                return None
            if o["op"] == "log" and not ok_log(o) or o["op"] == "inner" and not all(map(ok_log, o["body"])) or o["op"] == "list" and (set(o["kw"]) - {"pattern", "del_log_records"} or o["kw"].get("pattern", "") not in EPATTERNS or type(o["kw"].get("del_log_records", True)) is not bool) or o["op"] == "mount" and type(o["n"]) is not int:
                return None
            if o["op"] not in ("log", "inner", "list", "mount", "restart", "fail"):
                return None
        return c
    except (KeyError, TypeError, AttributeError, IndexError):
        return None


# ------------------------------------------------------------------ hooks and handlers
def run_hooks(case, rec):
    vloop.run(hooked, case, rec)


async def hooked(loop, case, rec):
    catcher = HookCatcher(index_by_kwarg="n") if case["index"] else HookCatcher()
    n = case["n"]
    statics = [StaticEventHandler() for _ in range(n)]
    renders = []  # which were rendered
    shown = [0] * n
    calls = []
    hooks = {}
    setters = {}

    @component
    @catcher.capture
    def Item(n):
        x, setters[n] = use_state(0)
        renders.append(n)
        shown[n] += 1
        now = shown[n]
        hooks[n] = catcher.latest
        if case["index"] and catcher.index[n] is not catcher.latest:
            raise Violation("the indexed hook is not that of the last rendering")

        async def slow(event):
            calls.append((n, now, event))

        def quick(event):
            calls.append((n, now, event))
        return html.button({"onClick": statics[n].use(slow if case["slow"] else quick, **case["flags"])}, f"{n}/{now}")

    @component
    def Root():
        _, setters["root"] = use_state(0)
        return html.div([Item(key=str(i), n=i) for i in range(n)])
    doc = None

    async def pull(layout):
        nonlocal doc
        while True:
            doc = W.apply_update(doc, json.loads(json.dumps(await layout.render())))
    targets = [s.target for s in statics]
    if len(set(targets)) != n:
        raise Violation("handlers share a target")
    async with Layout(Root()) as layout:
        task = asyncio.ensure_future(pull(layout))
        await loop.settle()

        def check(what, expected):
            if task.done():
                raise Violation(f"after {what}: rendering failed: {task.exception()!r}")
            if sorted(renders) != expected:
                raise Violation(f"after {what} the items {sorted(renders)} were rendered instead of {expected}")
            renders.clear()
            node = doc
            while node["tagName"] == "":
                node = node["children"][0]
            items = []
            for c in node.get("children", []):
                while c["tagName"] == "":
                    c = c["children"][0]
                items.append(c)
            for i, c in enumerate(items):
                if c["children"] != [f"{i}/{shown[i]}"]:
                    raise Violation(f"after {what} item {i} shows {c['children']}")
                h = c["eventHandlers"]["onClick"]
                if h["target"] != targets[i] or statics[i].target != targets[i]:
                    raise Violation(f"after {what} the target of item {i} is {h['target']} instead of {targets[i]}")
                if h["preventDefault"] != case["flags"].get("prevent_default", False) or h["stopPropagation"] != case["flags"].get("stop_propagation", False):
                    raise Violation(f"the handler has the flags {h}")
        check("the start", list(range(n)))
        for o in case["ops"]:
            what = json.dumps(o)
            i = o.get("i", 0) % n if n else 0
            if not n:
                break
            if o["op"] == "schedule":
                hook = catcher.index[i] if case["index"] else hooks[i]
                hook.schedule_render()
                await loop.settle()
                check(what, [i])
                if catcher.latest is not hooks[i]:
                    raise Violation(f"after {what} the latest hook is not that of item {i}")
            elif o["op"] == "latest":
                i = next(k for k in hooks if hooks[k] is catcher.latest)
                catcher.latest.schedule_render()
                await loop.settle()
                check(what, [i])
            elif o["op"] == "root":
                setters["root"](lambda x: x + 1)
                await loop.settle()
                check(what, list(range(n)))
            elif o["op"] == "event":
                await layout.deliver({"type": "layout-event", "target": statics[i].target, "data": [{"v": o["v"]}]})
                await loop.settle()
                if [(a, b, dict(c)) for a, b, c in calls] != [(i, shown[i], {"v": o["v"]})]:
                    raise Violation(f"after {what} the calls are {calls} instead of one of item {i} as of rendering {shown[i]}")
                calls.clear()
                check(what, [])
                rec.tag("event")
        task.cancel()
    rec.nt(n > 1 and bool(case["ops"]))


def gen_hooks(g):
    return {"index": g.p(0.6), "n": g.i(1, 4), "slow": g.p(0.3), "flags": {k: g.p(0.7) for k in ("prevent_default", "stop_propagation") if g.p(0.3)},
            "ops": [{"op": g.pick(["schedule", "latest", "root", "event"]), "i": g.i(0, 5), "v": g.i(0, 9)} for _ in range(g.size(1, 8))]}


def valid_hooks(c):
    try:
        ok = type(c["index"]) is bool and type(c["n"]) is int and 1 <= c["n"] <= 4 and type(c["slow"]) is bool and set(c["flags"]) <= {"prevent_default", "stop_propagation"} and all(type(v) is bool for v in c["flags"].values())
        return c if ok and all(o["op"] in ("schedule", "latest", "root", "event") and type(o["i"]) is int and o["i"] >= 0 and type(o["v"]) is int for o in c["ops"]) else None
    except (KeyError, TypeError, AttributeError):
        return None


SUBS = [
    Sub("logs", gen=gen_logs, valid=valid_logs, run=run_logs, quick=30000, thorough=400000, shards=3,
        rule="programs of nested captures and log assertions, log records, lists of logged exceptions and raised errors; non-trivial = something was logged and asked for"),
    Sub("poll", gen=gen_poll, valid=valid_poll, run=run_poll, quick=10000, thorough=100000, shards=2,
        rule="functions of every kind whose values and delays vary, in virtual time; non-trivial = called more than once"),
    Sub("fixture", gen=gen_fixture, valid=valid_fixture, run=run_fixture, quick=2500, thorough=40000, shards=2,
        rule="histories of a backend fixture: logged errors, inner captures, mounts, restarts, failing bodies, servers which start late or never; non-trivial = anything happens"),
    Sub("hooks", gen=gen_hooks, valid=valid_hooks, run=run_hooks, quick=5000, thorough=60000, shards=1,
        rule="renderings and events of components with caught hooks and static handlers; non-trivial = several components and an operation"),
]
