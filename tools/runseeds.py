#!/usr/bin/env python3
"""Authoring aid: runs the checks against planted bugs in scratch copies. usage: runseeds.py [-j N] [ids...]"""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
av = sys.argv[1:]
j = 2
if av[:1] == ["-j"]:
    j = int(av[1]); av = av[2:]
ids = av or sorted(os.listdir(V + "/seeded"))


def one(id):
    t = time.time()
    p = json.load(open(f"{V}/seeded/{id}/meta.json"))["property"]
    d = tempfile.mkdtemp(prefix="sd_")
    try:
        subprocess.run(["cp", "-a", "/repo", d + "/r"], check=True)
        subprocess.run(["git", "-C", d + "/r", "apply", f"{V}/seeded/{id}/patch.diff"], check=True)
        r = subprocess.run(["python3", V + "/check.py", p], cwd=V, env=dict(os.environ, VP_REPO=d + "/r", VP_EVID=d), capture_output=True, text=True)
        out = [x for x in r.stdout.strip().splitlines()]
        return f"{id}: exit {r.returncode} {time.time()-t:.0f}s\n   " + "\n   ".join(x[:220] for x in out[:1] + out[1:][-5:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


with ThreadPoolExecutor(j) as ex:
    for x in ex.map(one, ids):
        print(x, flush=True)
