import base64
import csv
import hashlib
import importlib
import io
import json
import logging
import os
import shutil
import subprocess
import sys
import tempfile
import types
import warnings
import zipfile
from pathlib import Path

import reactpy
from reactpy.config import REACTPY_PATH_PREFIX
from reactpy.executors.pyscript.utils import extend_pyscript_config

from lib import Sub, Violation

warnings.simplefilter("ignore")
logging.getLogger("reactpy").setLevel(logging.CRITICAL + 1)
PROPERTY = "C29"
ASSUMPTIONS = ["an edit makes a file newer than everything that was built before", "Hatch is a stand-in which packs the sources, or fails; when it succeeds it leaves no older wheel of the same version", "at most one wheel of the current version is in one directory",
               "a concurrent process does its work at once, at any point of the other one's"]
WRITESTR, COPYFILE = zipfile.ZipFile.writestr, shutil.copyfile
sys.modules["hatch"] = None  # only the one in PATH may be found
NAMES = ["__init__.py", "core.py", "sub/a.py", "sub/deep/b.py", "static/index.js", "static/pyscript/core.css", "py.typed", "with space.py", "com,ma.txt", 'quo"te.txt', "\u00e9.txt", "__main__.py", "sub/x.pyc"]
IGNORED = ["__pycache__/core.cpython-312.pyc", "old.pyc", "sub/__pycache__/a.txt", "static/wheels/other.txt"]
OUTSIDE = ["../../bin/reactpy", "{d}/reactpy.conf", "../outside.py", "reactpy/../../evil.py"]
VERSIONS = ["2.0.0b13", "2.0.0", "1.1", "2.0.0.post1"]
TAGS = ["py3-none-any", "cp312-cp312-linux_x86_64", "py2.py3-none-any"]
STRAY = ["reactpy-{v}.whl", "reactpy-{v}-py3.whl", "reactpy_extra-{v}-py3-none-any.whl", "reactpy-{v}0-py3-none-any.whl", "reactpy-0.1-py3-none-any.whl", "reactpy-{v}-py3-none-any.whl.tmp", "reactpy-{v}-py3-none-any.tmp", "notes.txt"]


class Crash(OSError):
    pass


class World:
    def __init__(self, case, d):
        self.case = case
        self.d = Path(d)
        self.now = 1_700_000_000
        self.builds = 0
        self.hatch = "works"
        self.version = case["version"]
        if case["mode"] == "source":
            self.root = self.d / "checkout"
            self.package = self.root / "src" / "reactpy"
            self.write(self.root / "pyproject.toml", b"[project]")
        else:
            self.root = self.d / "lib" / "python3"
            self.package = self.root / "site-packages" / "reactpy"
            self.make_dist()
        self.wheels = self.package / "static" / "wheels"
        for n in ["__init__.py", *case["files"]]:
            self.write(self.package / n, n.encode())
        self.bin = self.d / "bin"
        self.bin.mkdir()

    def write(self, path, data):
        self.now += 10
        path.parent.mkdir(parents=True, exist_ok=True)
        path.write_bytes(data)
        os.utime(path, (self.now, self.now))

    def make_dist(self):
        site = self.package.parent
        info = f"reactpy-{self.version}.dist-info"
        dist = self.case["dist"]
        self.write(site / info / "METADATA", b"Metadata-Version: 2.1\nName: reactpy\nVersion: " + self.version.encode())
        listed = [f"reactpy/{n}" for n in ["__init__.py", *self.case["files"]]] + [f"{info}/METADATA"]
        if dist["tags"] is not None:
            nl = "\r\n" if dist.get("crlf") else "\n"
            self.write(site / info / "WHEEL", nl.join(["Wheel-Version: 1.0", "Root-Is-Purelib: true", *(f"Tag: {t}" for t in dist["tags"]), ""]).encode())
            listed.append(f"{info}/WHEEL")
        for n in dist["outside"]:
            listed.append(n.format(d=self.d))
            self.write((site / listed[-1]).resolve(), b"outside")
        listed += [f"reactpy/missing/{n}.py" for n in range(dist["missing"])]
        if dist["record"]:
            listed.append(f"{info}/RECORD")
        out = io.StringIO()
        csv.writer(out, lineterminator="\n").writerows((n, "", "") for n in listed)
        self.write(site / info / "RECORD", out.getvalue().encode())
        self.listed = listed
        self.info = info

    # what is there
    def sources(self):
        return {str(p.relative_to(self.package)): p.read_bytes() for p in sorted(self.package.rglob("*")) if p.is_file() and p.suffix != ".pyc" and "__pycache__" not in p.parts and self.wheels not in p.parents}

    def stale(self, wheel):
        t = wheel.stat().st_mtime
        files = [p for p in self.package.rglob("*") if p.is_file() and p.suffix != ".pyc" and "__pycache__" not in p.parts and self.wheels not in p.parents]
        return any(p.stat().st_mtime > t for p in [*files, self.root / "pyproject.toml"])

    def current(self):
        if not self.wheels.exists():
            return None
        return next((p for p in sorted(self.wheels.iterdir()) if p.name in [f"reactpy-{self.version}-{t}.whl" for t in TAGS]), None)

    def run(self, cmd, **kw):
        """subprocess.run: the only program is Hatch"""
        if [str(c) for c in cmd[-3:]] != ["build", "-t", "wheel"] or Path(kw.get("cwd") or ".").resolve() != self.root.resolve():
            raise Violation(f"runs {cmd} in {kw.get('cwd')}")
        env = kw.get("env")
        if any(k.startswith("HATCH_ENV_") for k in (os.environ if env is None else env)):
            raise Violation("runs Hatch within the environment of another Hatch")
        self.builds += 1
        if self.hatch == "oserror":
            raise PermissionError("hatch")
        if self.hatch in ("nothing", "other"):
            shutil.rmtree(self.root / "dist", ignore_errors=True)
        if self.hatch != "fails" and self.hatch != "nothing":
            v = "9.9" if self.hatch == "other" else self.version
            self.pack(self.root / "dist" / f"reactpy-{v}-py3-none-any.whl", self.sources())
        return types.SimpleNamespace(returncode=int(self.hatch == "fails"), stdout="", stderr="")

    def pack(self, path, files):
        buf = io.BytesIO()
        with zipfile.ZipFile(buf, "w") as z:
            for n, b in files.items():
                WRITESTR(z, n, b)
        self.write(path, buf.getvalue())


def unpack(path):
    try:
        with zipfile.ZipFile(path) as z:
            if z.testzip() is not None or len(set(z.namelist())) != len(z.namelist()):
                raise Violation(f"the wheel {path.name} is damaged or has files twice: {z.namelist()}")
            return {n: z.read(n) for n in z.namelist()}
    except zipfile.BadZipFile as e:
        raise Violation(f"the wheel {path.name} is damaged: {e}") from None


def run_wheel(case, rec):
    saved = reactpy.__file__, reactpy.__version__, subprocess.run, os.environ.copy(), list(sys.path), REACTPY_PATH_PREFIX.current
    with tempfile.TemporaryDirectory(prefix="c29.") as d:
        w = World(case, d)
        try:
            reactpy.__file__ = str(w.package / "__init__.py")
            reactpy.__version__ = w.version
            subprocess.run = w.run
            os.environ["PATH"] = str(w.bin)
            if case["mode"] == "installed":
                sys.path.insert(0, str(w.package.parent))
                importlib.invalidate_caches()
            if case["env"]:
                os.environ["HATCH_ENV_ACTIVE"] = "x"
            REACTPY_PATH_PREFIX.set_current(case["prefix"])
            for i, o in enumerate(case["ops"]):
                step(case, w, o, f"step {i} {json.dumps(o)}", rec)
        finally:
            reactpy.__file__, reactpy.__version__, subprocess.run = saved[:3]
            os.environ.clear()
            os.environ.update(saved[3])
            sys.path[:] = saved[4]
            REACTPY_PATH_PREFIX.set_current(saved[5])
            zipfile.ZipFile.writestr, shutil.copyfile = WRITESTR, COPYFILE


def step(case, w, o, what, rec):
    k = o["op"]
    if k == "edit":
        if case["mode"] == "source":
            w.write(w.root / "pyproject.toml" if o["name"] == "pyproject.toml" else w.package / o["name"], str(w.now).encode())
    elif k == "stray":
        w.write(w.wheels / o["name"].format(v=w.version), b"not the wheel")
    elif k == "remove":
        if w.wheels.exists():
            shutil.rmtree(w.wheels)
    elif k == "place":
        for p in w.wheels.glob("*.whl") if w.wheels.exists() else ():
            p.unlink()
        w.pack(w.wheels / f"reactpy-{w.version}-{o['tag']}.whl", {"placed": b"1"})
    elif k == "version":
        if case["mode"] == "source":
            w.version = reactpy.__version__ = o["v"]
    elif k == "hatch":
        w.hatch = o["how"]
        link = w.bin / "hatch"
        if o["how"] == "missing":
            link.unlink(missing_ok=True)
        elif not link.exists():
            w.write(link, b"#!/bin/sh\n")
            link.chmod(0o755)
    else:
        ask(case, w, o, what, rec)


def ask(case, w, o, what, rec, inner=False):
    """The page asks for the wheel; at some point the process may crash, or another one does the same"""
    w.now += 10
    link = w.bin / "hatch"
    if w.hatch != "missing" and not link.exists():
        w.write(link, b"#!/bin/sh\n")
        link.chmod(0o755)
    there = w.current()
    before = there and (there.name, there.read_bytes())
    builds = w.builds
    source = case["mode"] == "source"
    fresh = there is not None and not (source and w.stale(there))
    count = [0]
    hit = []

    def event(go, half):
        n = count[0]
        count[0] += 1
        if inner or o.get("at") is None or n != o["at"] or hit:
            return go()
        hit.append(1)
        if o["how"] == "crash":
            half()
            raise Crash("no space left")
        if o["how"] == "before":
            ask(case, w, {"op": "ask"}, what + " (the other process)", rec, inner=True)
            return go()
        r = go()
        ask(case, w, {"op": "ask"}, what + " (the other process)", rec, inner=True)
        return r

    def write_some(z, name, data, *a, **kw):
        return event(lambda: WRITESTR(z, name, data, *a, **kw), lambda: z.fp.write(b"xx"))

    def copy_some(src, dst, *a, **kw):
        return event(lambda: COPYFILE(src, dst, *a, **kw), lambda: Path(dst).write_bytes(Path(src).read_bytes()[:30]))
    if not inner:
        zipfile.ZipFile.writestr, shutil.copyfile = write_some, copy_some
    try:
        config = json.loads(extend_pyscript_config((), {}, {}))
        error = None
    except (RuntimeError, Crash) as e:
        error = e
    except OSError as e:
        raise Violation(f"{what}: {e!r}") from None
    finally:
        if not inner:
            zipfile.ZipFile.writestr, shutil.copyfile = WRITESTR, COPYFILE
    built = w.builds - builds
    if isinstance(error, Crash):
        if fresh:
            raise Violation(f"{what}: something was written although there was a current wheel")
        rec.tag("crash")
        left = w.current()
        if left is not None and not (before and (left.name, left.read_bytes()) == before):
            raise Violation(f"{what}: a crash left the wheel {left.name}")
        return
    if hit and not inner:
        rec.tag("concurrent")
    if fresh:
        if built:
            raise Violation(f"{what}: a wheel is built although there is a current one")
        expected = before
    elif source:
        if w.hatch == "works":
            if not built or built > (2 if hit else 1):
                raise Violation(f"{what}: {built} wheels are built" + (f" although {there.name} is older than the sources" if there else ""))
            rec.tag("rebuilt" if there else "built")
        expected = None
        if w.hatch != "works" and not (hit and not inner):
            if error is None:
                raise Violation(f"{what}: {config['packages'][0]} is used although no current wheel can be built")
            if built != (w.hatch != "missing"):
                raise Violation(f"{what}: Hatch is run {built} times")
            rec.tag("no-wheel")
            return
    else:
        expected = None
    if error is not None:
        raise Violation(f"{what}: {error!r}")
    url = config["packages"][0]
    if config.get("packages_cache") != "never":
        raise Violation(f"{what}: PyScript may keep an old copy of the wheel")
    start = f"{case['prefix']}static/wheels/"
    path = w.wheels / url.removeprefix(start)
    if not url.startswith(start) or path.parent != w.wheels or not path.is_file():
        raise Violation(f"{what}: {url} is not one of {sorted(p.name for p in w.wheels.iterdir())}")
    if path != w.current():
        raise Violation(f"{what}: {path.name} is not the wheel of version {w.version}")
    if expected is not None:
        if (path.name, path.read_bytes()) != expected:
            raise Violation(f"{what}: the current wheel {expected[0]} is not used as it is")
        rec.tag("reused")
        return
    files = unpack(path)
    if source:
        if files != w.sources():
            raise Violation(f"{what}: the wheel holds {files} instead of {w.sources()}")
        others = [p.name for p in w.wheels.glob("reactpy-*.whl") if p != path]
        if others:
            raise Violation(f"{what}: the wheels {others} are left")
        return
    site = w.package.parent
    want = {n: (site / n).read_bytes() for n in w.listed if n[0] not in './' and '..' not in n and not n.startswith("reactpy/missing/") and not n.endswith("/RECORD")}
    tag = (case["dist"]["tags"] or ["py3-none-any"])[0]
    if path.name != f"reactpy-{w.version}-{tag}.whl":
        raise Violation(f"{what}: the wheel is called {path.name}")
    record = files.pop(f"{w.info}/RECORD", None)
    if record is None:
        raise Violation(f"{what}: the wheel has no record")
    if files != want:
        raise Violation(f"{what}: the wheel holds {sorted(files)} instead of {sorted(want)}" if set(files) != set(want) else f"{what}: contents differ")
    rows = {r[0]: r[1:] for r in csv.reader(io.StringIO(record.decode(), newline="")) if r}
    sums = {n: ["sha256=" + base64.urlsafe_b64encode(hashlib.sha256(b).digest()).rstrip(b"=").decode(), str(len(b))] for n, b in want.items()}
    sums[f"{w.info}/RECORD"] = ["", ""]
    if rows != sums:
        raise Violation(f"{what}: the record of the wheel says {rows} instead of {sums}")
    rec.tag("reconstructed")
    rec.nt(True)


def run(case, rec):
    run_wheel(case, rec)
    rec.nt(len(rec.tags) > 1)


def gen(g):
    source = g.p(0.5)
    files = g.sample(NAMES[1:], g.size(0, 8))
    c = {"mode": "source" if source else "installed", "version": g.pick(VERSIONS), "files": files, "env": g.p(0.2), "prefix": g.pick(["/reactpy/", "/x/y/"]), "ops": []}
    if not source:
        c["dist"] = {"tags": g.weighted([(1, None), (5, [g.pick(TAGS)]), (1, ["py2-none-any", "py3-none-any"][::-1])]), "crlf": g.p(0.1), "outside": g.some(OUTSIDE, 0.3), "missing": g.i(0, 2) if g.p(0.3) else 0, "record": g.p(0.9)}
    for _ in range(g.size(1, 10)):
        k = g.weighted([(6, "ask"), (3 if source else 0, "edit"), (1, "stray"), (0.7, "remove"), (0.7, "place"), (0.5 if source else 0, "version"), (1 if source else 0, "hatch")])
        o = {"op": k}
        if k == "ask" and g.p(0.4):
            o["at"] = g.size(0, 6) if not source else 0
            o["how"] = g.pick(["crash", "before", "after"])
        elif k == "edit":
            o["name"] = g.weighted([(4, None), (1, "pyproject.toml")]) or g.pick(NAMES + IGNORED)
        elif k == "stray":
            o["name"] = g.pick(STRAY)
        elif k == "place":
            o["tag"] = g.pick(TAGS)
        elif k == "version":
            o["v"] = g.pick(VERSIONS)
        elif k == "hatch":
            o["how"] = g.weighted([(4, "works"), (1, "fails"), (1, "missing"), (1, "nothing"), (1, "oserror"), (1, "other")])
        c["ops"].append(o)
    return c


def valid(c):
    try:
        if c["mode"] not in ("source", "installed") or c["version"] not in VERSIONS or not set(c["files"]) <= set(NAMES[1:]) or len(set(c["files"])) != len(c["files"]) or type(c["env"]) is not bool or c["prefix"] not in ("/reactpy/", "/x/y/"):
            return None
        if c["mode"] == "installed":
            d = c["dist"]
            if not (d["tags"] is None or d["tags"] and set(d["tags"]) <= set(TAGS)) or not set(d["outside"]) <= set(OUTSIDE) or len(set(d["outside"])) != len(d["outside"]) or type(d["missing"]) is not int or not 0 <= d["missing"] <= 3 or type(d["record"]) is not bool or type(d["crlf"]) is not bool:
                return None
        for o in c["ops"]:
            k = o["op"]
            if k == "ask":
                if o.get("at") is not None and (type(o["at"]) is not int or o["at"] < 0 or o["how"] not in ("crash", "before", "after")):
                    return None
            elif k == "edit":
                if o["name"] not in NAMES + IGNORED + ["pyproject.toml"]:
                    return None
            elif k == "stray":
                if o["name"] not in STRAY:
                    return None
            elif k == "place":
                if o["tag"] not in TAGS:
                    return None
            elif k == "version":
                if o["v"] not in VERSIONS:
                    return None
            elif k == "hatch":
                if o["how"] not in ("works", "fails", "missing", "nothing", "oserror", "other"):
                    return None
            elif k != "remove":
                return None
        return c
    except (KeyError, TypeError, AttributeError):
        return None


SUBS = [
    Sub("wheel", gen=gen, valid=valid, run=run, quick=4000, thorough=80000, shards=7,
        rule="histories of edits, versions, wheels that are there and requests for the wheel - crashed or concurrent ones among them - in a checkout or an installed package; non-trivial = at least two kinds of outcome, or a wheel was reconstructed"),
]
