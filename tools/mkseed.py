"""mkseed.py ID PROP 'needs' 'breaks' < demo.py : takes the diff of /tmp/wt, the demo from stdin"""
import sys, os, json, shutil, subprocess
i, prop, needs, breaks = sys.argv[1:5]
d = "/verif/seeded/" + i
os.makedirs(d, exist_ok=True)
diff = subprocess.run("git -C /tmp/wt diff", shell=True, capture_output=True, text=True).stdout
assert diff.strip()
open(d + "/patch.diff", "w").write(diff)
open(d + "/demo.py", "w").write(sys.stdin.read())
if "common" in open(d + "/demo.py").read():
    shutil.copy("/verif/tools/demo_common.py", d + "/common.py")
open(d + "/demo.sh", "w").write('''#!/bin/bash
export PATH=/opt/venv/bin:/usr/bin:/bin PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg RAY_USAGE_STATS_ENABLED=0 PYTHONPATH="$PWD:$(cd "$(dirname "$0")" && pwd)"
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
''')
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
subprocess.run("git -C /tmp/wt checkout -q -- .", shell=True)
