"""Shared runner: generated-case search, shrinking, replay files, evidence.

A check module (checks/cNN.py) defines ``PROPERTY``, ``SUBS`` (list of Sub) and
optionally ``ASSUMPTIONS``.  Every case is plain JSON data: the strategy builds it
and ``run(case, rec)`` decides it, so a shrunk failure is its own replay file.
"""
from __future__ import annotations

import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback
from collections import Counter

VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
if TIER not in ("quick", "thorough"):
    TIER = "quick"
FAST = os.environ.get("VERIF_FAST")  # mutation runs only (tools/mutate.py): share of the cases, first failure ends it all
FAILED = __import__("multiprocessing").get_context("fork").Event() if FAST else None


RAISED = []  # violations raised during the current case, also where the code under test swallows exceptions


class Violation(Exception):
    """The property is broken for this case."""

    def __init__(self, msg=""):
        super().__init__(msg)
        RAISED.append(str(msg))


class HarnessError(Exception):
    """The machinery itself could not decide (never a violation)."""


class Rec:
    """Per-case recorder: classes hit and whether the case was non-trivial."""

    __slots__ = ("tags", "nontrivial")

    def __init__(self):
        self.tags = set()
        self.nontrivial = False

    def tag(self, *names):
        self.tags.update(names)

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True


class G(random.Random):
    """The generator's only source of randomness: seeded from VERIF_SEED, sub-check and case number."""

    def i(self, a, b):
        return self.randint(a, b)

    def long(self):
        """Factor for the length of a history: a few are much longer than the others."""
        return 6 if self.random() < 0.03 else 1

    def p(self, prob):
        return self.random() < prob

    def pick(self, seq):
        return seq[int(self.random() * len(seq))]

    def some(self, seq, prob=0.5):
        return [x for x in seq if self.random() < prob]

    def size(self, lo, hi):
        """Small sizes are likelier, but the whole range is used."""
        return lo + min(int(self.random() ** 1.6 * (hi - lo + 1)), hi - lo)

    def width(self, hi):
        """The number of children: up to hi, and in a few cases more than ten."""
        return self.randint(10, 13) if self.random() < 0.02 else self.size(0, hi)

    def weighted(self, pairs):
        tot = sum(w for w, _ in pairs)
        x = self.random() * tot
        for w, v in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][1]


def make_g(seed, name, i):
    return G(f"{seed}:{name}:{i}")


class Sub:
    """``strategy``: zero-arg callable giving a Hypothesis strategy (Hypothesis generates and shrinks), or
    ``gen``: function of a G returning a JSON case (seeded structured generation; failures are shrunk by
    structural delta-debugging on the JSON, ``valid(case)`` re-normalises a candidate or returns None)."""

    def __init__(self, name, strategy=None, run=None, quick=300, thorough=6000, shards=1,
                 rule="", budget=None, examples=(), thorough_shards=None, gen=None, valid=None, cpu=None):
        self.cpu = cpu
        self.name = name
        self.strategy = strategy
        self.gen = gen
        self.valid = valid
        self.run = run
        self.quick = quick
        self.thorough = thorough
        self.shards = shards
        self.thorough_shards = thorough_shards
        self.rule = rule
        self.budget = budget
        self.examples = examples  # fixed regression cases, always run first


def canon(case) -> str:
    return json.dumps(case, sort_keys=True, ensure_ascii=True, default=str)


CPU_LIMIT = 3 if FAST else 8  # seconds of CPU time for one case (they take milliseconds)


class Endless(KeyboardInterrupt):
    """derived from KeyboardInterrupt so that neither event loops nor the code under test keep it"""


def _endless(signum, frame):
    where = "".join(traceback.format_stack(frame, limit=6))
    RAISED.append(f"did not end within {CPU_LIMIT} s of CPU time\n{where}")
    raise Endless


def run_case(sub, case, rec=None):
    """Returns None, or a failure message."""
    signal.signal(signal.SIGPROF, _endless)
    signal.setitimer(signal.ITIMER_PROF, sub.cpu or CPU_LIMIT, 1)
    try:
        try:
            return _run_case(sub, case, rec)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except Endless:
        return RAISED[0]


def _run_case(sub, case, rec=None):
    rec = rec or Rec()
    RAISED.clear()
    try:
        sub.run(case, rec)
        if RAISED:
            return RAISED[0]
    except HarnessError:
        raise
    except Violation as v:
        return RAISED[0] if RAISED else str(v)
    except AssertionError as e:
        return "AssertionError: " + str(e) + "\n" + traceback.format_exc(limit=-6)
    except RecursionError:
        return "RecursionError\n" + traceback.format_exc(limit=-4)
    except Exception as e:  # crash of the code under test
        return f"unexpected {type(e).__name__}: {e}\n" + traceback.format_exc(limit=-8)
    return None


# ---------------------------------------------------------------- structural shrinking
def _reductions(x):
    """Smaller JSON values near x, most aggressive first."""
    if isinstance(x, list):
        n = len(x)
        k = n
        while k >= 1:
            for a in range(0, n, k):
                yield x[:a] + x[a + k:]
            k //= 2
        for j, v in enumerate(x):
            for r in _reductions(v):
                yield x[:j] + [r] + x[j + 1:]
    elif isinstance(x, dict):
        for c in x.get("ch", ()) if isinstance(x.get("ch"), list) else ():
            if isinstance(c, dict):
                yield c
        for k in sorted(x):
            yield {kk: v for kk, v in x.items() if kk != k}
        for k in sorted(x):
            for r in _reductions(x[k]):
                yield {**x, k: r}
    elif isinstance(x, bool):
        if x:
            yield False
    elif isinstance(x, int):
        if x:
            yield 0
            if abs(x) > 1:
                yield x // 2
            yield x - 1 if x > 0 else x + 1
    elif isinstance(x, str):
        n = len(x)
        if n:
            yield ""
            k = n // 2
            while k >= 1:
                for a in range(0, n, k):
                    yield x[:a] + x[a + k:]
                k //= 2


def _kind(msg):
    return msg.split("\n")[0][:28]


def shrink(sub, best, deadline):
    """Greedy delta debugging; a candidate counts only if it fails in the same way."""
    size, case, msg = best
    progress = True
    while progress and time.monotonic() < deadline:
        progress = False
        for cand in _reductions(case):
            if time.monotonic() > deadline:
                break
            try:
                if sub.valid:
                    cand = sub.valid(json.loads(canon(cand)))
                    if cand is None:
                        continue
                c = canon(cand)
                if len(c) >= size and c >= canon(case):
                    continue
                if len(c) > size:
                    continue
                m = run_case(sub, json.loads(c))
            except Exception:
                continue
            if m is not None and _kind(m) == _kind(msg):
                size, case, msg = len(c), json.loads(c), m
                progress = True
                break
    return size, case, msg


class _Stop(BaseException):
    pass


def run_job(sub, shard, nshards, tier, seed):
    """Search one shard of one sub-check."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    budget = sub.budget or (120 if tier == "quick" else 1500)
    n = sub.quick if tier == "quick" else sub.thorough
    n = max(1, (n + nshards - 1) // nshards)
    if FAST:
        n = max(1, int(n * float(FAST)))
    stats = dict(evaluations=0, nontrivial=set(), tags=Counter(), samples=[],
                 truncated=False, failure=None, sub=sub.name)
    t0 = time.monotonic()
    best = [None]  # (size, case, msg)
    first = [None, None]   # the case that failed first, and its index
    i = None
    fail_t = [None]

    def note(case, msg):
        c = canon(case)
        if best[0] is None or len(c) < best[0][0]:
            best[0] = (len(c), json.loads(c) if c else case, msg)
        if fail_t[0] is None:
            fail_t[0] = time.monotonic()
            first[:] = [json.loads(c), i]

    def one(case):
        if fail_t[0] is None and time.monotonic() - t0 > budget:
            stats["truncated"] = True
            raise _Stop()
        if fail_t[0] is not None and time.monotonic() - fail_t[0] > (40 if tier == "quick" else 150):
            raise _Stop()  # enough shrinking
        rec = Rec()
        stats["evaluations"] += 1
        msg = run_case(sub, case, rec)
        for t in rec.tags:
            stats["tags"][t] += 1
        if rec.nontrivial:
            c = canon(case)
            h = hashlib.sha1(c.encode("utf-8", "replace")).digest()[:8]
            if h not in stats["nontrivial"]:
                stats["nontrivial"].add(h)
                if len(stats["samples"]) < 3 or (len(stats["samples"]) < 6 and stats["evaluations"] % 97 == 0):
                    stats["samples"].append(c[:1500])
        if msg is not None:
            note(case, msg)
            raise Violation(msg)

    # fixed regression cases first (shard 0)
    if shard == 0:
        for case in sub.examples:
            try:
                one(json.loads(canon(case)))
            except Violation:
                break
    if best[0] is None and sub.gen is not None:
        try:
            i = shard
            for _ in range(n):
                if FAST and FAILED.is_set():
                    break
                case = json.loads(canon(sub.gen(make_g(seed, sub.name, i))))
                try:
                    one(case)
                    i += nshards
                except Violation:
                    if FAST:
                        FAILED.set()
                        break
                    best[0] = shrink(sub, best[0], time.monotonic() + (45 if tier == "quick" else 200))
                    break
        except _Stop:
            pass
        except BaseException as e:
            stats["error"] = "".join(traceback.format_exception(e))[-4000:]
    elif best[0] is None:
        test = given(sub.strategy())(one)
        test = settings(
            max_examples=n, deadline=None, database=None, print_blob=False,
            report_multiple_bugs=False, derandomize=False,
            suppress_health_check=list(HealthCheck),
            phases=[Phase.generate, Phase.shrink],
        )(test)
        test = hypothesis.seed(seed * 1009 + shard * 101 + 7)(test)
        try:
            with open(os.devnull, "w") as dn:
                old = sys.stdout
                try:
                    test()
                finally:
                    sys.stdout = old
        except _Stop:
            pass
        except Violation:
            pass
        except BaseException as e:
            if best[0] is None or isinstance(e, (KeyboardInterrupt, HarnessError)):
                stats["error"] = "".join(traceback.format_exception(e))[-4000:]
    if best[0] is not None:
        case, msg = best[0][1], best[0][2]
        # confirm on the JSON form of the case
        for _ in range(5):
            m = run_case(sub, json.loads(canon(case)))
            if m is not None:
                stats["failure"] = dict(sub=sub.name, case=case, message=m)
                stats["first"] = dict(case=first[0], message=msg, index=first[1])
                break
        else:
            stats["error"] = "failure did not reproduce from its JSON case:\n" + msg + "\n" + canon(case)[:3000]
            stats["unstable"] = dict(case=first[0], message=msg, index=first[1])
    stats["wall"] = time.monotonic() - t0
    return stats


def _forked(f, *args):
    """Call f in a process of its own, whose state is that of the start of this one."""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, "wb") as o:
                pickle.dump(f(*args), o)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as i:
        data = i.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else None


def run_history(sub, before, case):
    for c in before:
        run_case(sub, json.loads(canon(c)))
    return run_case(sub, json.loads(canon(case)))


def explain(sub, shard, nshards, seed, unstable, deadline):
    """The failure depends on what was run before in the same process: find that."""
    case, msg, index = unstable["case"], unstable["message"], unstable["index"]

    def fails(before, c):
        m = _forked(run_history, sub, before, c)
        return m if m is not None and _kind(m) == _kind(msg) else None
    before = []
    m = fails(before, case)
    if m is None:
        if index is None:
            return None
        before = [json.loads(canon(sub.gen(make_g(seed, sub.name, j)))) for j in range(shard, index, nshards)]
        m = fails(before, case)
        if m is None:
            return None
        k = len(before)
        while k >= 1 and time.monotonic() < deadline:
            a = 0
            while a < len(before) and time.monotonic() < deadline:
                if fails(before[:a] + before[a + k:], case):
                    before = before[:a] + before[a + k:]
                else:
                    a += k
            k //= 2
    progress = True
    while progress and time.monotonic() < deadline:
        progress = False
        for cand in _reductions(case):
            if time.monotonic() > deadline:
                break
            try:
                if len(canon(cand)) >= len(canon(case)) or sub.valid and sub.valid(json.loads(canon(cand))) is None:
                    continue
            except Exception:
                continue
            if fails(before, cand):
                case, progress = cand, True
                break
    return dict(sub=sub.name, case=case, message=fails(before, case) or m, **({"before": before} if before else {}))


def _worker(args):
    mod, si, shard, nshards, tier, seed = args
    import importlib
    sub = importlib.import_module(mod).SUBS[si]
    stats = _forked(run_job, sub, shard, nshards, tier, seed)
    if stats is None:
        return dict(evaluations=0, nontrivial=set(), tags=Counter(), samples=[], truncated=False, failure=None, sub=sub.name, error="the process of a shard died")
    if stats["failure"] and _forked(run_history, sub, [], stats["failure"]["case"]) is None:
        # what failed before left something behind
        stats["unstable"] = stats["first"]
    if stats.get("unstable"):
        found = explain(sub, shard, nshards, seed, stats["unstable"], time.monotonic() + (60 if tier == "quick" else 300))
        if found:
            stats["failure"] = found
            stats.pop("error", None)
    return stats


def load_known():
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)


def write_replay(prop, failure):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(canon(failure["case"]).encode("utf-8", "replace")).hexdigest()[:10]
    p = os.path.join(d, f"{prop}-{failure['sub']}-{h}.json")
    with open(p, "w") as f:
        json.dump(dict(property=prop, **failure), f, indent=1)
    return p


def main(modname, argv):
    import importlib
    from concurrent.futures import ProcessPoolExecutor
    import multiprocessing as mp

    t0 = time.monotonic()
    mod = importlib.import_module(modname)
    prop = mod.PROPERTY
    subs = mod.SUBS
    only = None
    if "--sub" in argv:
        only = argv[argv.index("--sub") + 1]
    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as f:
            r = json.load(f)
        sub = next(s for s in subs if s.name == r["sub"])
        if hasattr(mod, "setup"):
            mod.setup()
        msg = run_history(sub, r.get("before") or [], r["case"])
        print("REPLAY", prop, sub.name, "->", msg or "holds")
        if msg:
            print(f"VIOLATION property={prop} replay={argv[argv.index('--replay') + 1]}")
        return 1 if msg else 0

    if hasattr(mod, "setup"):
        mod.setup()
    known = [k for k in load_known() if k.get("property") == prop and k.get("status") == "known"]
    jobs = []
    for si, sub in enumerate(subs):
        if only and sub.name != only:
            continue
        ns = sub.shards if TIER == "quick" else (sub.thorough_shards or max(sub.shards, 8))
        for sh in range(ns):
            jobs.append((modname, si, sh, ns, TIER, SEED))
    results = []
    nproc = min(len(jobs), int(os.environ.get("VERIF_JOBS", "8")))
    if nproc <= 1 or os.environ.get("VERIF_INLINE"):
        results = [_worker(j) for j in jobs]
    else:
        ctx = mp.get_context("fork")
        with ProcessPoolExecutor(nproc, mp_context=ctx) as ex:
            results = list(ex.map(_worker, jobs))

    # known findings: exact inputs, re-run every time
    known_hit = 0
    known_cases = set()
    for k in known:
        known_cases.add((k["sub"], canon(k["case"])))
        sub = next((s for s in subs if s.name == k["sub"]), None)
        if sub is None:
            continue
        if run_case(sub, k["case"]) is not None:
            known_hit += 1
            print(f"KNOWN-FINDING: property={prop} {k['what']}")

    errors = [r["error"] for r in results if r.get("error")]
    failures = [r["failure"] for r in results if r["failure"]
                and (r["failure"]["sub"], canon(r["failure"]["case"])) not in known_cases]
    by_sub = {}
    for r in results:
        b = by_sub.setdefault(r["sub"], dict(evaluations=0, nt=set(), tags=Counter(), samples=[], truncated=False))
        b["evaluations"] += r["evaluations"]
        b["nt"] |= r["nontrivial"]
        b["tags"] += r["tags"]
        b["samples"] += r["samples"]
        b["truncated"] |= r["truncated"]
    samples = []
    for name, b in by_sub.items():
        for s in b["samples"][:2]:
            samples.append({"sub": name, "case": s})
    extra = {}
    for r in results:
        pass
    ev = dict(
        property=prop, tier=TIER, seed=SEED, level="exploration",
        coverage=dict(
            evaluations=sum(b["evaluations"] for b in by_sub.values()),
            distinct_nontrivial=sum(len(b["nt"]) for b in by_sub.values()),
            rule=" | ".join(f"{s.name}: {s.rule}" for s in subs if s.rule),
            samples=samples or [{"sub": "-", "case": "none"}],
            per_sub={n: dict(evaluations=b["evaluations"], distinct_nontrivial=len(b["nt"]),
                             classes=dict(b["tags"].most_common(40)), budget_hit=b["truncated"])
                     for n, b in by_sub.items()},
            known_findings_reproduced=known_hit,
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(time.monotonic() - t0, 2),
        violations=len(failures),
    )
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if not only:
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if failures:
        failures.sort(key=lambda f: len(canon(f["case"])))
        for f in failures[:3]:
            p = write_replay(prop, f)
            print(f"[{prop}/{f['sub']}] {f['message'][:3000]}")
            print(f"VIOLATION property={prop} replay={p}")
        return 1
    if errors:
        print("HARNESS ERROR\n" + "\n---\n".join(errors))
        return 2
    c = ev["coverage"]
    print(f"OK property={prop} tier={TIER} seed={SEED} evaluations={c['evaluations']} "
          f"nontrivial={c['distinct_nontrivial']} wall={ev['wall_s']}s")
    if "-v" in argv:
        for n, b in by_sub.items():
            print(" ", n, b["evaluations"], len(b["nt"]), dict(b["tags"].most_common(40)), "TRUNC" if b["truncated"] else "")
    return 0
