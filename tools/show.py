import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import env
env.setup()
from harness import dl
d = json.load(open(sys.argv[1]))
print(d.get("message"))
c = d["case"]
for a in c.get("agents", []):
    print({k: v for k, v in a.items() if k not in ("prog", "lay")})
    if a.get("prog"):
        print(dl.render(a["prog"]))
print({k: v for k, v in c.items() if k != "agents"})
