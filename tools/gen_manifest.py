"""Writes MANIFEST.json from the property modules that exist, and the fixed: lines of known-findings.txt."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(V + "/tools/notes.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("%s/harness/props/%s.py" % (V, i.lower())):
        n = NOTES.get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": "./check %s --tier quick" % i,
            "thorough_cmd": "./check %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": n.get("technique", "property-based testing"),
            "level": "exploration",
            "level_note": n.get("note", "generated-input search; see DESIGN.md"),
        })
    else:
        na.append({"property": i, "reason": NOTES.get(i, {}).get("na", "No check built yet.")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")

FIXES = json.load(open(V + "/tools/fixes.json"))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
out = ["# known: property=<id> sub=<subtest> case=<file> :: <what fails>   (still there; reported as KNOWN-FINDING)",
       "# fixed: property=<id> <commit> <what failed>   (repaired in /repo; suppresses nothing)"]
for l in open(V + "/known-findings.txt") if os.path.exists(V + "/known-findings.txt") else []:
    if l.startswith("known:"):
        out.append(l.rstrip())
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        f = FIXES.get(s)
        if not f:
            print("no entry for", s)
            continue
        out.append("fixed: property=%s %s %s" % (f[0], h, f[1]))
open(V + "/known-findings.txt", "w").write("\n".join(out) + "\n")
