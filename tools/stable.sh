#!/bin/bash
# run the repository's tests and compare with the baseline's stable list; usage: stable.sh
bash /opt/vp/test.sh /tmp/out.$$.json >/tmp/test.$$.log 2>&1
python3 - /tmp/out.$$.json <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
o=json.load(open(sys.argv[1]))
p=set(o.get('passed') or [k for k,v in o.items() if v=='passed'])
miss=sorted(b-p)
print(len(b),'stable; missing:',miss[:20],len(miss))
P
rm -f /tmp/out.$$.json /tmp/test.$$.log
