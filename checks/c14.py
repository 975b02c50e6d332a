import json
import os
import re
import runpy
import warnings
from pathlib import Path

import reactpy.config
from reactpy._option import DeprecatedOption, Option

import world as W  # noqa: F401
from lib import Sub, Violation

PROPERTY = "C14"
ASSUMPTIONS = ["defaults already have the option's type (they are used as they are); subscribers do not change options themselves",
               "a child option accepts every value its parent accepts; a change of the parent counts as setting the child"]
ENVNAMES = [f"VERIF_C14_{i}" for i in range(6)]
UNSET = object()


def even(x):
    n = int(x)
    if n % 2:
        raise ValueError("odd")
    return n


def strict(x):
    if not isinstance(x, str):
        raise TypeError("not a string")
    return x.upper()


VALID = {"any": lambda x: x, "int": int, "bool": reactpy.config.boolean, "even": even, "strict": strict, "list": lambda x: [x] if not isinstance(x, list) else x}
DEFAULTS = {"any": "d", "int": 7, "bool": False, "even": 8, "strict": "D", "list": ["d"]}


# conversions, written down independently of the validators
def convert(kind, v):
    """('ok', value) | ('value',) | ('type',)"""
    if kind == "any":
        return ("ok", v)
    if kind == "list":
        return ("ok", v if isinstance(v, list) else [v])
    if kind == "strict":
        return ("ok", v.upper()) if isinstance(v, str) else ("type",)
    if kind == "bool":
        if isinstance(v, bool):
            return ("ok", v)
        if isinstance(v, int):
            return ("ok", v != 0)
        if not isinstance(v, str):
            return ("type",)
        low = v.lower()
        return ("ok", low in ("true", "1")) if low in ("true", "1", "false", "0") else ("value",)
    if isinstance(v, (list, type(None))):
        return ("type",)
    if isinstance(v, str):
        if not re.fullmatch(r"\s*[+-]?\d+\s*", v):
            return ("value",)
        n = int(v)
    else:
        n = int(v)
    return ("value",) if kind == "even" and n % 2 else ("ok", n)


class M:
    """Reference option"""

    def __init__(self, name, kind, mutable, default, parent, env):
        self.name, self.kind, self.mutable, self.default, self.parent = name, kind, mutable, default, parent
        self.cur = UNSET
        self.subs = []
        if name in env:
            r = convert(kind, env[name])
            if r[0] != "ok":
                raise KeyError
            self.cur = r[1]
        if parent is not None:
            if self.cur is UNSET:
                self.apply(parent.value())
            parent.subs.append(self)

    def value(self):
        return self.default if self.cur is UNSET else self.cur

    def apply(self, v):
        """set with notification, in the order of subscription; returns the kind of refusal"""
        old = self.value()
        r = convert(self.kind, v)
        if r[0] != "ok":
            return r[0]
        self.cur = r[1]
        if not (r[1] == old):
            self.notify()
        return None

    def notify(self):
        for s in list(self.subs):
            if isinstance(s, M):
                s.apply(self.value())
            else:
                s.append(self.value())


def run(case, rec):
    os_env = {k: v for k, v in os.environ.items()}
    for k in ENVNAMES:
        os.environ.pop(k, None)
    try:
        _run(case, rec)
    finally:
        for k in ENVNAMES:
            os.environ.pop(k, None)
        os.environ.update({k: v for k, v in os_env.items() if k in ENVNAMES})


def _run(case, rec):
    env = {}
    real, model, logs, calls = [], [], [], []
    changes = 0

    def check(what):
        for i, (o, m) in enumerate(zip(real, model)):
            v = o.current
            if not (v == m.value() and type(v) is type(m.value())):
                raise Violation(f"after {what}: option {i} is {v!r} instead of {m.value()!r}")
            if o.default != m.default or o.name != m.name or o.mutable != m.mutable:
                raise Violation(f"after {what}: name, default or mutability of option {i} changed")
            want = m.cur is not UNSET
            if o.is_set() != want and not (v == m.default):
                raise Violation(f"after {what}: option {i} is_set() = {o.is_set()} with {v!r}, default {m.default!r}")
        for j, (a, b) in enumerate(zip(calls, logs)):
            if a != b or [type(x) for x in a] != [type(x) for x in b]:
                raise Violation(f"after {what}: subscriber {j} was told {a}, should have been told {b}")

    for n, op in enumerate(case["ops"]):
        k = op["op"]
        what = f"step {n} {json.dumps(op)}"
        if k == "env":
            name = ENVNAMES[op["n"]]
            if op["v"] is None:
                env.pop(name, None)
                os.environ.pop(name, None)
            else:
                env[name] = op["v"]
                os.environ[name] = op["v"]
            check(what)
            continue
        if k == "new":
            parent = op["parent"] % len(real) if op["parent"] is not None and real else None
            name = ENVNAMES[len(real) % len(ENVNAMES)]
            kind = op["kind"]
            kw = {}
            pm = None
            if parent is not None:
                pm = model[parent]
                kind = pm.kind if kind not in ("any", "list") else "any"
                kw = {"parent": real[parent]}
                default = pm.default
            else:
                default = DEFAULTS[kind]
                kw = {"default": default}
            cls = DeprecatedOption if op.get("deprecated") else Option
            if op.get("deprecated"):
                kw["message"] = "old"
            mutable = op["mutable"]
            bad = pm is not None and not (pm.mutable and mutable)
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    m = None if bad else M(name, kind, mutable, default, pm, env)
            except KeyError:
                m = None
                bad = "env"
            try:
                o = cls(name, mutable=mutable, validator=VALID[kind], **kw)
            except (TypeError, ValueError) as e:
                if not bad:
                    raise Violation(f"{what}: option refused: {e!r}") from None
                rec.tag("refused-option")
                check(what)
                continue
            if bad:
                raise Violation(f"{what}: an option was made although " + ("its environment variable is invalid" if bad == "env" else "parent or child is immutable"))
            real.append(o)
            model.append(m)
            if name in env:
                rec.tag("env", *(["env-child"] if pm else []))
            check(what)
            continue
        if not real:
            continue
        i = op["i"] % len(real)
        o, m = real[i], model[i]
        before = m.value()
        was_set = o.is_set()
        err = None
        try:
            if k == "sub":
                lst = []

                def handler(v, lst=lst):
                    lst.append(v)
                r = o.subscribe(handler)
                if r is not handler:
                    raise Violation(f"{what}: subscribe returned {r!r}")
                calls.append(lst)
            elif k == "set":
                if op.get("method"):
                    o.set_current(op["v"])
                else:
                    o.current = op["v"]
            elif k == "unset":
                if op.get("method"):
                    o.unset()
                else:
                    del o.current
            elif k == "default":
                ret = o.set_default(op["v"])
            elif k == "reload":
                o.reload()
        except (ValueError, TypeError) as e:
            err = e
        # the reference
        exp = None
        if k == "sub":
            if not m.mutable:
                exp = "type"
            else:
                logs.append([m.value()])
                m.subs.append(logs[-1])
        elif k in ("set", "default", "reload"):
            v = env.get(m.name, m.default) if k == "reload" else op["v"]
            # (an option that was set to its default may or may not count as set)
            if k == "default" and was_set:
                v = UNSET
            if v is not UNSET:
                if not m.mutable:
                    same = type(v) is type(before) and v == before
                    exp = "type" if not same else "any"
                else:
                    exp = m.apply(v)
            if k == "default" and err is None and not (ret == m.value()):
                raise Violation(f"{what}: set_default returned {ret!r}, the value is {m.value()!r}")
        elif k == "unset":
            if not m.mutable:
                exp = "type"
            else:
                m.cur = UNSET
                if not (m.value() == before):
                    m.notify()
        got = None if err is None else "type" if isinstance(err, TypeError) else "value"
        if exp == "any":
            pass
        elif exp != got:
            raise Violation(f"{what}: {'accepted' if got is None else f'refused with {err!r}'}, should be {'accepted' if exp is None else f'refused ({exp})'}; value was {before!r}")
        if got == "value" and o.name not in str(err):
            raise Violation(f"{what}: the error does not name the option: {err}")
        if not (m.value() == before):
            changes += 1
        if got:
            rec.tag("refused-value")
        check(what)
    rec.nt(changes >= 2 and len(real) >= 1)
    if any(m.parent for m in model):
        rec.tag("family")
    if any(m.parent and m.parent.parent for m in model):
        rec.tag("grandchild")
    if logs:
        rec.tag("subscribed")


VALUES = [0, 1, 2, 8, 7, "7", "8", " 12 ", "true", "TRUE", "False", "0", "1", "x", "", "d", "D", True, False, None, ["d"], "yes", "-3", 2.0]


def gen(g):
    ops = []
    n = 0
    for _ in range(g.size(3, 22)):
        k = g.weighted([(1.5 if n < 5 else 0.1, "new"), (1.2, "env"), (4, "set"), (1.5, "unset"), (1.2, "default"), (1.5, "reload"), (1.5, "sub")])
        if k == "new" or not n:
            if g.p(0.4):
                ops.append({"op": "env", "n": n % 6, "v": g.pick([v for v in VALUES if isinstance(v, str)])})
            ops.append({"op": "new", "kind": g.pick(sorted(VALID)), "mutable": g.p(0.9), "parent": g.i(0, 5) if n and g.p(0.6) else None, **({"deprecated": True} if g.p(0.1) else {})})
            n += 1
        elif k == "env":
            ops.append({"op": "env", "n": g.i(0, 5), "v": g.pick([v for v in VALUES if isinstance(v, str)] + [None, None])})
        elif k in ("set", "default"):
            ops.append({"op": k, "i": g.i(0, 5), "v": g.pick(VALUES), "method": g.p(0.5)})
        else:
            ops.append({"op": k, "i": g.i(0, 5), "method": g.p(0.5)})
    return {"ops": ops}


def valid(c):
    try:
        for o in c["ops"]:
            if o["op"] == "new":
                if o["kind"] not in VALID or not isinstance(o["mutable"], bool) or not (o["parent"] is None or type(o["parent"]) is int):
                    return None
            elif o["op"] == "env":
                if not (0 <= o["n"] < 6) or not (o["v"] is None or isinstance(o["v"], str)):
                    return None
            elif o["op"] not in ("set", "unset", "default", "reload", "sub") or type(o["i"]) is not int or o["i"] < 0:
                return None
            elif o["op"] in ("set", "default") and not any(type(o["v"]) is type(v) and o["v"] == v for v in VALUES):
                return None
        return c
    except (KeyError, TypeError):
        return None


# ------------------------------------------------------------------ the options of ReactPy itself

CONF = {"REACTPY_DEBUG": ("bool", None), "REACTPY_CHECK_VDOM_SPEC": ("bool", "REACTPY_DEBUG"), "REACTPY_CHECK_JSON_ATTRS": ("bool", "REACTPY_DEBUG"), "REACTPY_WEB_MODULES_DIR": ("path", None),
        "REACTPY_TESTS_DEFAULT_TIMEOUT": ("float", None), "REACTPY_ASYNC_RENDERING": ("bool", None), "REACTPY_RECONNECT_INTERVAL": ("int", None), "REACTPY_RECONNECT_MAX_INTERVAL": ("int", None),
        "REACTPY_RECONNECT_MAX_RETRIES": ("int", None), "REACTPY_RECONNECT_BACKOFF_MULTIPLIER": ("float", None), "REACTPY_PATH_PREFIX": ("str", None), "REACTPY_MAX_QUEUE_SIZE": ("int", None)}
GOOD = {"bool": {"1": True, "0": False, "true": True, "False": False, "TRUE": True}, "path": {"/a/b": Path("/a/b"), "rel": Path("rel")}, "float": {"2.5": 2.5, "3": 3.0}, "int": {"5": 5, "70000": 70000},
        "str": {"/x/": "/x/", "": ""}}
BAD = {"bool": ["yes", "", "2"], "float": ["x", ""], "int": ["1.5", "x", ""]}
DEF = {"REACTPY_DEBUG": False, "REACTPY_CHECK_VDOM_SPEC": False, "REACTPY_CHECK_JSON_ATTRS": False, "REACTPY_TESTS_DEFAULT_TIMEOUT": 15.0, "REACTPY_ASYNC_RENDERING": True, "REACTPY_RECONNECT_INTERVAL": 750,
       "REACTPY_RECONNECT_MAX_INTERVAL": 60000, "REACTPY_RECONNECT_MAX_RETRIES": 150, "REACTPY_RECONNECT_BACKOFF_MULTIPLIER": 1.25, "REACTPY_PATH_PREFIX": "/reactpy/", "REACTPY_MAX_QUEUE_SIZE": 1000}


def run_config(case, rec):
    saved = {k: os.environ.pop(k) for k in CONF if k in os.environ}
    try:
        os.environ.update(case["env"])
        bad = [k for k, v in case["env"].items() if v in BAD.get(CONF[k][0], ())]
        try:
            ns = runpy.run_path(reactpy.config.__file__)
        except (ValueError, TypeError) as e:
            if not bad:
                raise Violation(f"the environment {case['env']} was refused: {e!r}") from None
            rec.tag("refused")
            rec.nt()
            return
        if bad:
            raise Violation(f"the invalid values of {bad} in {case['env']} were accepted: {[ns[k].current for k in bad]}")
        if not set(CONF) <= {k for k, v in ns.items() if isinstance(v, Option)}:
            raise Violation("an option is gone")
        val = {}

        def conv(k, v):
            return GOOD[CONF[k][0]][v]
        for k, (t, parent) in CONF.items():
            val[k] = conv(k, case["env"][k]) if k in case["env"] else val[parent] if parent else DEF.get(k, ns[k].default)

        def check(what):
            for k in CONF:
                if ns[k].current != val[k] or type(ns[k].current) is not type(val[k]) and CONF[k][0] != "path":
                    raise Violation(f"{what}: {k} is {ns[k].current!r} instead of {val[k]!r}; environment {case['env']}")
        check("at the start")
        for k, v in case["ops"]:
            if k == "REACTPY_TESTS_DEFAULT_TIMEOUT":
                continue
            x = conv(k, v)
            ns[k].current = v
            if x != val[k]:
                for c, (_, p) in CONF.items():
                    if p == k:
                        val[c] = x
            val[k] = x
            check(f"after setting {k} to {v!r}")
        rec.nt(bool(case["env"]) and bool(case["ops"]))
        if any(CONF[k][1] for k in case["env"]):
            rec.tag("env-child")
    finally:
        for k in CONF:
            os.environ.pop(k, None)
        os.environ.update(saved)


def gen_config(g):
    env = {}
    for k in CONF:
        if g.p(0.3):
            t = CONF[k][0]
            env[k] = g.pick(BAD[t]) if t in BAD and g.p(0.05) else g.pick(sorted(GOOD[t]))
    ops = []
    for _ in range(g.size(0, 6)):
        k = g.pick([*CONF, "REACTPY_DEBUG", "REACTPY_CHECK_VDOM_SPEC"])
        ops.append([k, g.pick(sorted(GOOD[CONF[k][0]]))])
    return {"env": env, "ops": ops}


def valid_config(c):
    try:
        if any(k not in CONF or v not in GOOD[CONF[k][0]] and v not in BAD.get(CONF[k][0], ()) for k, v in c["env"].items()):
            return None
        if any(k not in CONF or v not in GOOD[CONF[k][0]] for k, v in c["ops"]):
            return None
        return c
    except (KeyError, TypeError, ValueError):
        return None


SUBS = [
    Sub("histories", gen=gen, valid=valid, run=run, quick=40000, thorough=300000, shards=6,
        rule="sequences of set / unset / set-default / reload / environment changes / subscriptions on families of options, compared step by step with a reference; non-trivial = at least two changes"),
    Sub("config", gen=gen_config, valid=valid_config, run=run_config, quick=5000, thorough=30000, shards=2,
        rule="ReactPy's own options under generated environments and settings; non-trivial = some environment variable and some setting, or a refused one"),
]
