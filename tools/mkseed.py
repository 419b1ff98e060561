"""mkseed.py: helper to lay down a planted bug: mk(id, property, needs, breaks, [(file, old, new[, count])], demo_cpp)"""
import os, subprocess, json, sys
V = "/verif/seeded"
DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right; run with cwd /repo after the build
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
inc=""; for d in /repo/ntl-extras/*/; do inc="$inc -I$d"; done
g++ -w -std=c++14 -O1 $inc -I/repo/_build/include "$here/demo.cpp" /repo/_build/libpml.a -lntl -lgmp -lm -lpthread -o "$t/demo" || exit 3
cd "$t" && timeout 200 ./demo
'''
W = "/tmp/mkrepo"
def mk(id, prop, needs, breaks, edits, demo):
    d = os.path.join(V, id); os.makedirs(d, exist_ok=True)
    subprocess.call(["rm", "-rf", "/tmp/mkrepo"]); subprocess.check_call(["git", "clone", "-q", "/repo", W])
    try:
        for e in edits:
            p, old, new = e[:3]; n = e[3] if len(e) > 3 else 1
            p = W + "/ntl-extras/" + p; s = open(p).read(); assert s.count(old) == n, (p, s.count(old)); open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", W, "diff"], capture_output=True, text=True).stdout
    finally:
        subprocess.call(["rm", "-rf", "/tmp/mkrepo"])
    assert diff
    open(d + "/patch.diff", "w").write(diff); open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755); open(d + "/demo.cpp", "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
