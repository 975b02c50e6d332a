"""C31: states may be set in any thread, and layouts in different threads stay apart - threads that take turns wherever a schedule says so"""
import asyncio
import json
import logging
import os
import sys
import threading
import warnings

import reactpy
from reactpy import component, create_context, html
from reactpy.config import REACTPY_ASYNC_RENDERING
from reactpy.core.hooks import use_context, use_effect, use_memo, use_ref, use_state
from reactpy.core.layout import Layout

import vloop
import world as W
from lib import HarnessError, Sub, Violation

warnings.simplefilter("ignore")
PROPERTY = "C31"
ASSUMPTIONS = ["one state is set by one thread at a time", "threads change places between two lines of reactpy's code, one of them running at a time", "the thread of a closed loop is not used any more"]
SOURCE = os.path.dirname(os.path.abspath(reactpy.__file__)) + os.sep
LOGGER = logging.getLogger("reactpy")
SLOTS = 2
CTX = create_context("none")
OTHER = create_context("none")


class Thread:
    """a thread that runs one job at a time, for as many lines of reactpy's code as it is allowed to"""

    def __init__(self, name):
        self.name = name
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.job = self.error = self.result = None
        self.budget = 0
        self.busy = False
        self.loop = None
        self.paused = 0
        self.thread = threading.Thread(target=self.main, daemon=True)
        self.thread.start()

    def main(self):
        while True:
            self.go.acquire()
            if self.job is None:
                return
            sys.settrace(self.trace)
            try:
                self.job()
            except BaseException as e:
                self.error = e
            finally:
                sys.settrace(None)
                self.job = None
                self.busy = False
                self.back.release()

    def trace(self, frame, what, arg):
        return self.line if frame.f_code.co_filename.startswith(SOURCE) else None

    def line(self, frame, what, arg):
        if what == "line" and self.budget is not None:
            self.budget -= 1
            if self.budget < 0:
                self.paused += 1
                self.back.release()
                self.go.acquire()
        return self.line

    def step(self, lines):
        """None: to the end"""
        if not self.busy:
            return
        self.budget = lines
        self.go.release()
        if not self.back.acquire(timeout=60):
            raise HarnessError(f"thread {self.name} hangs")
        if self.error is not None:
            e, self.error = self.error, None
            raise e

    def start(self, job, lines):
        self.step(None)
        self.job, self.busy = job, True
        self.step(lines)

    def do(self, job):
        box = []
        self.start(lambda: box.append(job()), None)
        return box[0]

    def stop(self):
        if self.busy:
            try:
                self.step(None)
            except BaseException:
                pass
        self.job = None
        self.go.release()
        self.thread.join(20)


class Inst:
    def __init__(self, home):
        self.home = home
        self.values = [0] * SLOTS
        self.setters = [None] * SLOTS
        self.busy = set()
        self.kids = {}


class Home:
    """a layout in a thread of its own"""

    def __init__(self, n, case, thread):
        self.n, self.case, self.thread = n, case, thread
        self.root, self.doc, self.updates, self.problem, self.closed = None, {}, 0, None, False
        thread.do(self.open)

    def open(self):
        self.loop = vloop.VLoop()
        asyncio.set_event_loop(self.loop)
        self.layout = Layout(self.tree())
        self.loop.run_until_complete(self.layout.__aenter__())
        self.task = self.loop.create_task(self.consume())

    def tree(self):
        home = self

        def comp(parent, n, depth):
            ref = use_ref(None)
            if ref.current is None:
                ref.current = Inst(home)
                if parent is None:
                    home.root = ref.current
                else:
                    parent.kids[n] = ref.current
            inst = ref.current
            home.check_place(inst)
            a, inst.setters[0] = use_state(0)
            shape = home.case["shape"][min(depth, len(home.case["shape"]) - 1)]
            if shape["memo"]:
                use_memo(lambda: a, [a])
            if shape["effect"]:
                use_effect(lambda: None, [a])
            b, inst.setters[1] = use_state(0)
            shown = [a, b, use_context(CTX), use_context(OTHER)]
            home.check_place(inst)
            kids = [comp_(inst, i, depth + 1) for i in range(a % 3 if depth < 2 else 0)]
            body = html.div({"data-shown": json.dumps(shown)}, *kids)
            return CTX(body, value=f"{home.n}:{b}") if shape["provider"] else body
        comp_ = component(comp)
        return comp_(None, 0, 0)

    def check_place(self, inst):
        if inst.home is not self:
            self.problem = f"a component of layout {self.n} got the state of one in layout {inst.home.n}"
        elif threading.current_thread() is not self.thread.thread:
            self.problem = f"a component of layout {self.n} was rendered in another thread"
        else:
            try:
                if asyncio.get_running_loop() is not self.loop:
                    self.problem = f"a component of layout {self.n} was rendered by another loop"
            except RuntimeError:
                self.problem = f"a component of layout {self.n} was rendered outside of a loop"

    async def consume(self):
        while True:
            msg = await self.layout.render()
            self.doc = W.apply_update(self.doc, json.loads(json.dumps(msg)))
            self.updates += 1

    def pump(self):
        self.loop.run_until_complete(self.loop.settle())

    def close(self):
        async def leave():
            self.task.cancel()
            await asyncio.wait([self.task])
            await self.layout.__aexit__(None, None, None)
        if not self.closed:
            self.closed = True
            self.loop.run_until_complete(leave())

    def expected(self, inst, ctx, depth=0):
        shape = self.case["shape"][min(depth, len(self.case["shape"]) - 1)]
        a, b = inst.values
        shown = [a, b, ctx, "none"]
        if shape["provider"]:
            ctx = f"{self.n}:{b}"
        kids = []
        for i in range(a % 3 if depth < 2 else 0):
            if i not in inst.kids:
                raise Violation(f"layout {self.n}: state {a} was set, but the component was not rendered with it")
            kids.append(self.expected(inst.kids[i], ctx, depth + 1))
        return [shown, kids]

    def shown(self):
        def go(m):
            kids = [x for c in m.get("children", ()) if isinstance(c, dict) for x in go(c)]
            if m.get("error") is not None:
                raise Violation(f"layout {self.n}: a component failed to render")
            at = m.get("attributes") or {}
            return [[json.loads(at["data-shown"]), kids]] if "data-shown" in at else kids
        return go(self.doc)[0]

    def live(self):
        out, todo = [], [(self.root, 0)]
        while todo:
            i, d = todo.pop(0)
            if i is not None:
                out.append(i)
                todo += [(i.kids.get(n), d + 1) for n in range(i.values[0] % 3 if d < 2 else 0)]
        return out


class Records(logging.Handler):
    def __init__(self):
        super().__init__(logging.ERROR)
        self.records = []

    def emit(self, record):
        self.records.append(record)


def run(case, rec):
    threads, homes = [], []
    saved = REACTPY_ASYNC_RENDERING.current
    records = Records()
    state = LOGGER.level, LOGGER.propagate, LOGGER.handlers[:], logging.root.manager.disable
    REACTPY_ASYNC_RENDERING.current = case["async"]
    try:
        logging.disable(logging.NOTSET)
        LOGGER.handlers[:], LOGGER.propagate = [records], False
        LOGGER.setLevel(logging.ERROR)
        for n in range(case["layouts"]):
            threads.append(Thread(f"L{n}"))
            homes.append(Home(n, case, threads[-1]))
            threads[-1].do(homes[-1].pump)
        for n in range(2):
            threads.append(Thread(f"W{n}"))
        interfere = play(case, threads, homes)
        rest(case, threads, homes, records)
        rec.nt(interfere and any(o[0] == "set" for o in case["ops"]))
        rec.tag(*{o[0] for o in case["ops"]}, "async" if case["async"] else "serial", f"{case['layouts']} layouts", *(["switched within"] if interfere else []))
    except vloop.Deadlock as e:
        raise Violation(f"deadlock: {e}") from None
    finally:
        for t in threads:
            if t.busy:
                try:
                    t.step(None)
                except BaseException:
                    pass
        for h in homes:
            try:
                h.thread.do(h.close)
            except BaseException:
                pass
            try:
                h.thread.do(h.loop.close)
            except BaseException:
                pass
        for t in threads:
            t.stop()
        LOGGER.setLevel(state[0])
        LOGGER.propagate = state[1]
        LOGGER.handlers[:] = state[2]
        logging.disable(state[3])
        REACTPY_ASYNC_RENDERING.current = saved


def play(case, threads, homes):
    for op in case["ops"]:
        k = op[0]
        if k == "step":
            threads[op[1] % len(threads)].step(op[2])
        elif k == "pump":
            h = homes[op[1] % len(homes)]
            if not h.closed:
                h.thread.start(h.pump, op[2])
        elif k == "close":
            h = homes[op[1] % len(homes)]
            if not h.closed:
                h.thread.start(h.close, op[2])
        elif k == "set":
            _, where, which, slot, how, lines = op
            t = threads[where % len(threads)]
            t.step(None)
            h = homes[which[0] % len(homes)]
            insts = h.live()
            inst = insts[which[1] % len(insts)]
            if h.closed or slot in inst.busy or inst.setters[slot] is None or t.busy:
                continue
            t.start(setting(inst, slot, how, homes[where % len(threads)] if where % len(threads) < len(homes) else None), lines)
    return sum(t.paused for t in threads) > 0


def setting(inst, slot, how, home):
    value = inst.values[slot]
    value = how[1] if how[0] == "to" else value + how[1]
    inst.busy.add(slot)
    setter = inst.setters[slot]

    def change():
        inst.values[slot] = value
        try:
            setter(how[1] if how[0] == "to" else lambda old: old + how[1])
        except Exception as e:
            raise Violation(f"a state cannot be set in another thread: {e!r}") from None
        finally:
            inst.busy.discard(slot)

    if home is None or home.closed:
        return change

    async def within():
        change()
    return lambda: home.loop.run_until_complete(within())


def rest(case, threads, homes, records):
    for t in threads:
        t.step(None)
    for _ in range(2):
        for h in homes:
            if not h.closed:
                h.thread.do(h.pump)
    for h in homes:
        if h.problem:
            raise Violation(h.problem)
        if h.loop.exceptions:
            raise Violation(f"layout {h.n}: the loop reports {h.loop.exceptions[0]}")
        if h.closed:
            continue
        if h.task.done():
            raise Violation(f"layout {h.n}: rendering failed: {h.task.exception()!r}")
        want, got = h.expected(h.root, "none"), h.shown()
        if want != got:
            raise Violation(f"layout {h.n} shows {got}, but the states that were set give {want}")
    if records.records and not any(h.closed for h in homes):
        raise Violation(f"an error was logged: {records.records[0].getMessage()} {records.records[0].exc_info and records.records[0].exc_info[1]!r}")


# ---------------------------------------------------------------- cases
def gen_lines(g):
    return g.weighted([(2, None), (1, 0), (5, g.i(1, 12)), (3, g.i(5, 60)), (3, g.i(40, 400))])


def gen(g):
    layouts = g.weighted([(3, 1), (4, 2), (1, 3)])
    ops = []
    for _ in range(g.size(2, 14)):
        k = g.weighted([(6, "set"), (3, "pump"), (4, "step"), (0.2, "close")])
        if k == "set":
            ops.append([k, g.i(0, layouts + 1), [g.i(0, layouts - 1), g.i(0, 6)], g.pick([0, 0, 1]), g.pick([["to", g.i(0, 4)], ["add", g.i(1, 2)]]), gen_lines(g)])
        elif k == "close":
            ops.append([k, g.i(0, layouts - 1), gen_lines(g)])
        else:
            ops.append([k, g.i(0, layouts - 1 if k == "pump" else layouts + 1), gen_lines(g)])
    return {"async": g.p(0.5), "layouts": layouts, "shape": [{"provider": g.p(0.3), "memo": g.p(0.2), "effect": g.p(0.2)} for _ in range(g.i(1, 3))], "ops": ops}


def valid(c):
    def natural(x, top=10_000):
        return type(x) is int and 0 <= x <= top

    def lines(x):
        return x is None or natural(x)
    try:
        if type(c["async"]) is not bool or not natural(c["layouts"], 3) or c["layouts"] < 1 or not c["shape"] or not c["ops"]:
            return None
        for s in c["shape"]:
            if any(type(s[k]) is not bool for k in ("provider", "memo", "effect")):
                return None
        for o in c["ops"]:
            if o[0] == "set":
                if len(o) != 6 or not natural(o[1]) or len(o[2]) != 2 or not all(map(natural, o[2])) or o[3] not in range(SLOTS) or len(o[4]) != 2 or o[4][0] not in ("to", "add") or not natural(o[4][1], 50) or not lines(o[5]):
                    return None
            elif o[0] not in ("pump", "step", "close") or len(o) != 3 or not natural(o[1]) or not lines(o[2]):
                return None
        return c
    except (KeyError, TypeError, AttributeError, IndexError):
        return None


SUBS = [
    Sub("threads", gen=gen, valid=valid, run=run, quick=4000, thorough=80000, shards=8,
        rule="states set by worker threads, other loops and the layout's own one while layouts render in their threads, which change places between any two lines; non-trivial = a thread was stopped within reactpy's code"),
]
