"""python3 tools/rec.py PROP 'substring of the subject of a /repo commit' 'what failed'"""
import subprocess
import sys
prop, sub, what = sys.argv[1:4]
log = [l.split(" ", 1) for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s", "-60"], capture_output=True, text=True).stdout.splitlines()]
hits = [h for h, s in log if sub in s]
assert len(hits) == 1, hits
subprocess.run(["python3", "/verif/tools/fixed.py", prop, hits[0], what], check=True)
