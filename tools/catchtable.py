"""python3 tools/catchtable.py LOG..: the table of planted bugs for DESIGN.md (checks that caught them, from the logs of plant.sh)."""
import json, os, re, sys
log = "".join(open(f).read() for f in sys.argv[1:] if os.path.exists(f))
print("| planted bug | breaks | caught by |\n|---|---|---|")
for i in sorted(os.listdir("/verif/seeded")):
    m = json.load(open(f"/verif/seeded/{i}/meta.json"))
    subs = []
    for blk in re.split(r"(?m)^(?=\S+ \[C\d\d\]: demo)", log):
        if blk.startswith(i + " ["):
            subs += re.findall(r"^\[(C\d\d/\w+)\]", blk, re.M)
    print(f"| {i} | {' '.join(m['what_it_breaks'].split())} | {', '.join(sorted(set(subs))) or m['property']} |")
