#!/usr/bin/env python3
"""Rewrites section 4 of DESIGN.md (findings) from known_findings.json; everything else is kept as written."""
import json, os, re, collections
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
k = json.load(open(R + "/known_findings.json"))
o = ["## 4. Defects found in vneiger/pml", "",
     "Recorded (not repaired; the repair is not small): the checks print a KNOWN-FINDING line for them.", ""]
o += ["* %s, operation `%s`: %s" % (e["property"], e["op"], e["what"]) for e in k if e["status"] == "known"]
f = [e for e in k if e["status"] == "fixed"]
o += ["", "Repaired by `fix:` commits in /repo (%d); nothing is suppressed for these, each check reports the violation if it returns:" % len(f), ""]
by = collections.defaultdict(list)
for e in f: by[e["property"]].append("%s (%s)" % (e["what"], e["commit"]))
for p in sorted(by): o.append("* %s: %s" % (p, "; ".join(by[p])))
s = open(R + "/DESIGN.md").read()
s = re.sub(r"## 4\. Defects.*?(?=\n## 5\.)", lambda m: "\n".join(o) + "\n", s, flags=re.S)
open(R + "/DESIGN.md", "w").write(s)
