"""python3 tools/mkplant.py SPECFILE: write seeded/<id>/ from specs.

A spec file defines BUGS = [dict(id=, property=, needs=, breaks=, edits=[(file, old, new), ...], demo=python source)].
Every removed line has to be a line of the original repository."""
import json, os, subprocess, sys
ORIG = "2ded593"
R = "/tmp/mkplant_repo"
subprocess.run(["rm", "-rf", R]); subprocess.run(["git", "clone", "-q", "/repo", R], check=True)
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for b in ns["BUGS"]:
    if only and b["id"] not in only:
        continue
    d = f"/verif/seeded/{b['id']}"
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run(["git", "-C", R, "status", "--porcelain"], capture_output=True, text=True).stdout, "repo dirty"
    try:
        for f, old, new in b["edits"]:
            s = open(f"{R}/{f}").read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(f"{R}/{f}", "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True).stdout
    finally:
        subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."], check=True)
    # original lines only
    blames = {}
    cur = None
    for line in diff.split("\n"):
        if line.startswith("--- a/"):
            cur = line[6:]
            out = subprocess.run(["git", "-C", R, "blame", "-s", cur], capture_output=True, text=True).stdout
            blames[cur] = [l.split(" ")[0].lstrip("^") for l in out.split("\n")]
        elif line.startswith("@@"):
            n = int(line.split("-")[1].split(",")[0].split(" ")[0])
        elif line.startswith("-") and not line.startswith("---"):
            if not blames[cur][n - 1].startswith(ORIG[:7]) :
                print(f"  {b['id']}: line {cur}:{n} is not an original one: {line}")
            n += 1
        elif line.startswith(" "):
            n += 1
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.py", "w").write(b["demo"].lstrip())
    open(f"{d}/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 120 /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n' if not b.get("js") else b["js"])
    for f in b.get("js_files", []):
        open(f"{d}/{f}", "w").write(open(f"/verif/harness/js/{f}").read())
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    print("wrote", b["id"])
