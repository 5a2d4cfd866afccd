#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "what it breaks"  : /tmp/seed is an edited copy of /repo; makes seeded/ID/patch.diff, confirms
# the demonstration and the stable tests.  NOTEST=1 skips the tests.
. /opt/vp/env.sh
D=/verif/seeded/$1
cd /tmp/seed || exit 1
git diff > $D/patch.diff
python3 - "$D" "$2" "$3" "$4" <<'P'
import json,sys
d,p,n,w=sys.argv[1:]
if n: json.dump({"property":p,"needs":n,"what_it_breaks":w},open(d+"/meta.json","w"),indent=1)
P
(cd /repo && timeout 300 bash $D/demo.sh > /tmp/demo.clean 2>&1); a=$?
(cd /tmp/seed && timeout 300 bash $D/demo.sh > /tmp/demo.bug 2>&1); b=$?
echo "$1 demo clean=$a bug=$b"; [ $a != 0 ] && tail -5 /tmp/demo.clean; tail -2 /tmp/demo.bug
if [ -z "$NOTEST" ]; then
PYTHONPATH=/tmp/seed /opt/venv/bin/python -m pytest -q --tb=no -p no:cacheprovider --timeout=600 --randomly-seed=0 --randomly-dont-reorganize -n 4 --junitxml=/tmp/seed.xml --ignore=tests/metrics/test_metric_memory.py --ignore=tests/metrics/test_metric_time.py tests > /tmp/seed.log 2>&1
PYTHONPATH=/tmp/seed /opt/venv/bin/python -m pytest -q --tb=no -p no:cacheprovider --timeout=600 --randomly-seed=0 --randomly-dont-reorganize -p no:xdist --junitxml=/tmp/seed2.xml tests/metrics/test_metric_memory.py >> /tmp/seed.log 2>&1
python3 - <<'P'
import json,xml.etree.ElementTree as E
ok=set()
for f in("/tmp/seed.xml","/tmp/seed2.xml"):
    for c in E.parse(f).iter("testcase"):
        if not list(c): ok.add(c.get("classname")+"::"+c.get("name"))
m=[t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in ok]
print("stable tests missing:",m)
P
fi
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /verif; AIS_EVIDENCE=/tmp/mut/ev AIS_REPO=/tmp/seed python3-vt -m ais.check $P | tail -3 | cut -c1-300
