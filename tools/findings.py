"""regenerates the fixed entries of known_findings.json from /repo's fix: commits (property map below); known entries are kept as written"""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = json.load(open(os.path.join(V, "tools", "fixmap.json")))   # commit subject prefix -> property
p = os.path.join(V, "known_findings.json")
old = json.load(open(p)) if os.path.exists(p) else []
known = [k for k in old if k.get("status") == "known"]
fixed = []
for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    m = [v for k, v in MAP.items() if s[5:].startswith(k)]
    if len(m) != 1: raise SystemExit("no property for: " + s)
    fixed.append(dict(status="fixed", property=m[0], commit=h, what=s[5:], entry="fixed: property=%s %s %s" % (m[0], h, s[5:])))
json.dump(known + fixed, open(p, "w"), indent=1)
print(len(known), "known", len(fixed), "fixed")
