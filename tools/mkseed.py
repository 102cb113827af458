#!/usr/bin/env python3
"""mkseed.py FILE.py: creates seeded/<id>/ from a description (dict SEED list) - patch by textual substitution."""
import sys, os, json, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# cwd: /repo (built). exit 0: property holds.
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -w -O0 -DNDEBUG -I/usr/include/opencascade -I"$PWD" "$D/demo.cc" -o "$T/demo" -lTKBO -lTKTopAlgo -lTKBRep -lTKGeomAlgo -lTKPrim -lTKGeomBase -lTKG3d -lTKG2d -lTKMath -lTKernel%s
cd "$T"
timeout 120 ./demo
'''
env = {}
exec(open(sys.argv[1]).read(), env)
for s in env["SEED"]:
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="mkseed_")
    subprocess.check_call("git -C /repo archive HEAD frackit python | tar x -C %s && cd %s && git init -q . && git add -A && git -c user.email=a@b -c user.name=n commit -qm b" % (t, t), shell=True)
    for (f, old, new) in s["edits"]:
        p = os.path.join(t, f)
        x = open(p).read()
        assert x.count(old) == 1, (s["id"], f, x.count(old))
        open(p, "w").write(x.replace(old, new))
    diff = subprocess.check_output(["git", "-C", t, "diff"], text=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    # the changed lines have to be lines of the original repository
    base = subprocess.check_output("git -C /repo log --format=%H | tail -1", shell=True, text=True).strip()
    touched = original = 0
    for (f, old, new) in s["edits"]:
        blame = subprocess.check_output(["git", "-C", "/repo", "blame", "-l", "--root", "HEAD", "--", f], text=True).splitlines()
        removed = [int(m) for m in subprocess.check_output("git -C %s diff -U0 -- %s | sed -n 's/^@@ -\\([0-9]*\\).*/\\1/p'" % (t, f), shell=True, text=True).split()]
        for l in removed:
            touched += 1
            original += blame[l - 1].lstrip("^").startswith(base[:30])
    if original < touched:
        print("NOTE", s["id"], "hunks starting in added lines:", touched - original, "of", touched)
    shutil.rmtree(t)
    if s["demo"]:
        open(os.path.join(d, "demo.cc"), "w").write(s["demo"])
    for f, x in s.get("files", {}).items():
        open(os.path.join(d, f), "w").write(x)
    open(os.path.join(d, "demo.sh"), "w").write(s.get("demosh") or DEMO % s.get("libs", ""))
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("seeded", s["id"])
