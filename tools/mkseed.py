#!/usr/bin/env python3
"""Authoring aid: makes seeded/<id>/ from an edit, keeps it only if tests pass and the demo separates.
usage: mkseed.py FILE  (FILE defines SEEDS = {id: dict(prop, edits=[(file, old, new)], demo, needs, breaks)})"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
SH = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
export MPLBACKEND=Agg MPLCONFIGDIR="$W/mpl" NUMBA_CACHE_DIR="$W/numba" PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$W/pyc" PYTHONPATH=/repo
/opt/venv/bin/python -W ignore "$D/demo.py"
'''
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
only = sys.argv[2:]
for id, s in ns["SEEDS"].items():
    if only and id not in only:
        continue
    d = os.path.join(V, "seeded", id)
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
    tmp = tempfile.mkdtemp()
    open(tmp + "/demo.py", "w").write(s["demo"])
    open(tmp + "/demo.sh", "w").write(SH)
    r0 = sh("bash %s/demo.sh" % tmp, cwd="/repo")
    msg = []
    if r0.returncode != 0:
        msg.append("demo fails on clean tree: " + (r0.stderr + r0.stdout)[-400:])
    try:
        for f, a, b in s["edits"]:
            p = "/repo/" + f
            t = open(p).read()
            assert t.count(a) == 1, (id, f, t.count(a), a)
            open(p, "w").write(t.replace(a, b))
        diff = sh("git -C /repo diff").stdout
        rb = sh("bash /opt/vp/build.sh")
        if rb.returncode: msg.append("build fails " + rb.stderr[-300:])
        sh("bash /opt/vp/test.sh %s/o.json" % tmp)
        o = json.load(open(tmp + "/o.json"))
        miss = [t for t in base if t not in o["passed"]]
        if miss: msg.append("tests fail: %s" % miss[:5])
        r1 = sh("bash %s/demo.sh" % tmp, cwd="/repo")
        if r1.returncode == 0: msg.append("demo passes with the change")
    finally:
        sh("git -C /repo checkout -- .")
    if msg:
        print("REJECT", id, msg)
    else:
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        shutil.copy(tmp + "/demo.py", d)
        shutil.copy(tmp + "/demo.sh", d)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print("KEEP", id, "|", (r1.stderr.strip().splitlines() or r1.stdout.strip().splitlines() or [""])[-1][:150])
    shutil.rmtree(tmp)
