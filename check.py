#!/usr/bin/env python3
"""Decide one property: proof obligations from /repo's current source + the same contracts evaluated on the running code.

usage: python3 check.py <property>   (VERIF_SEED, VERIF_TIER from the environment)"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
EVID = os.path.join(os.environ.get("VP_EVID", HERE), "evidence")
REPL = os.path.join(os.environ.get("VP_EVID", HERE), "replays")
PROVER = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
REAL = "/opt/venv/bin/python"
LANG_TRUST = [
    "the obligation generator itself (engine/*.py: symbolic execution of the Python AST, loop summaries, NumPy/builtin models) and z3",
    "floating-point numbers are treated as mathematical reals extended with nan/+-inf; machine integers as mathematical integers",
    "numba-compiled functions are assumed to behave as their Python source (decorators are dropped); matplotlib, progress bars, warnings and printing are dropped",
]


# properties whose code is mostly numba-compiled: that many further processes evaluate the Python source without compiling it first
UNCOMPILED = {"C10": 1, "C21": 4}


def falsifier(prop, out, seed, secs, scratch, replay=None, jit=True):
    env = dict(os.environ)
    if not jit:
        env["NUMBA_DISABLE_JIT"] = "1"
    env.update(MPLBACKEND="Agg", MPLCONFIGDIR=os.path.join(scratch, "mpl"), NUMBA_CACHE_DIR=os.path.join(scratch, "numba"),
               PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"), VP_REPO=REPO, PYTHONHASHSEED="0",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", NUMBA_NUM_THREADS="1")
    cmd = [REAL, os.path.join(HERE, "falsify", "run.py"), prop, out, "--seed", str(seed), "--secs", str(secs)]
    if replay:
        cmd += ["--replay", replay]
    return subprocess.Popen(cmd, env=env, cwd=scratch, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)


def evaluate(prop, out, seed, secs, scratch, limit):
    """one process, or several for slow properties; the results together"""
    ps = [(out, falsifier(prop, out, seed, secs, scratch))]
    for k in range(UNCOMPILED.get(prop, 0)):
        o = "%s.%d" % (out, k)
        ps.append((o, falsifier(prop, o, seed + 100000 * (k + 1), secs, scratch, jit=False)))
    t0, res, errs = time.time(), None, []
    for o, p in ps:
        rc, err = wait(p, max(1, limit - (time.time() - t0)))
        if rc != 0 or not os.path.exists(o):
            errs.append("falsifier ended: %s %s" % (rc, err))
            continue
        r = json.load(open(o))
        if r.get("error"):
            errs.append(r["error"])
        for f in r["failures"]:
            f["uncompiled"] = o != out
        if res is None:
            res = r
        else:
            for k in ("evaluations", "skipped", "distinct"):
                res[k] = res.get(k, 0) + r.get(k, 0)
            res["failures"] += r["failures"]
            for k, v in r["kinds"].items():
                res["kinds"][k] = res["kinds"].get(k, 0) + v
    if res is None:
        res = {"evaluations": 0, "failures": [], "samples": [], "kinds": {}}
    res["error"] = errs[0] if errs else None
    return res


def wait(p, secs):
    try:
        _, err = p.communicate(timeout=secs)
        return p.returncode, (err or b"").decode(errors="replace")[-2000:]
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None, "time limit"


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return replay(prop, sys.argv[3])
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    scratch = tempfile.mkdtemp(prefix="vp_%s_" % prop)
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(REPL, exist_ok=True)
    try:
        return decide(prop, seed, tier, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("KNOWN-FINDING: property=%s " % prop):
                out.append(line)
    return out


def decide(prop, seed, tier, scratch, t0):
    env = dict(os.environ, VP_REPO=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    pout, fout = os.path.join(scratch, "prove.json"), os.path.join(scratch, "fals.json")
    cmd = [PROVER, os.path.join(HERE, "prove.py"), prop, pout, "--tier", tier]
    pv = subprocess.Popen(cmd, env=env, cwd=HERE, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    fsecs = 25 if tier == "quick" else 300
    fal = evaluate(prop, fout, seed, fsecs, scratch, fsecs + 240)
    prc, perr = wait(pv, 520 if tier == "quick" else 4000)
    pr = json.load(open(pout)) if prc == 0 and os.path.exists(pout) else {"sections": [], "trusted": [], "error": "prover ended: %s %s" % (prc, perr)}
    secs = pr["sections"]
    obls = [dict(o, section=s["section"]) for s in secs for o in s["obligations"]]
    good = [o for o in obls if o["status"] == "proved"]
    failed = [o for o in obls if o["status"] == "failed"]
    undec = [o for o in obls if o["status"] not in ("proved", "failed")]
    outside = [s for s in secs if s["unsupported"]]
    vacuous = [v for s in secs for v in s["vacuity"] if not v[1]]
    # sections whose obligations are not complete: bounded stand-in on the running code
    standin = sorted({s["section"] for s in outside} | {o["section"] for o in undec})
    deep = None
    if not fal["failures"] and (failed or standin or not secs) and not fal.get("error"):
        # look harder for a failing input before reporting or standing in
        dsecs = 150 if tier == "quick" else 900
        dsecs = min(dsecs, max(20, 780 - (time.time() - t0))) if tier == "quick" else dsecs
        dout = os.path.join(scratch, "deep.json")
        deep = evaluate(prop, dout, seed + 1000, dsecs, scratch, dsecs + 60)
    fails = fal["failures"] + (deep["failures"] if deep else [])
    lines, rc = [], 0
    if fails:
        path = os.path.join(REPL, "%s.json" % prop)
        f = fails[0]
        json.dump({"property": prop, "case": f["case"], "np_seed": f.get("np_seed"), "uncompiled": f.get("uncompiled", False), "message": f["message"], "trace": f.get("trace"),
                   "failed_obligations": failed[:20], "replay_cmd": "python3 check.py %s --replay replays/%s.json" % (prop, prop)},
                  open(path, "w"), indent=1)
        lines.append("failing input: %s" % f["message"].replace("\n", " ")[:300])
        for o in failed[:5]:
            lines.append("failed obligation: %s" % o["name"])
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    elif failed:
        path = os.path.join(REPL, "%s.json" % prop)
        json.dump({"property": prop, "case": None, "failed_obligations": failed, "verifier": "z3",
                   "searched": {"evaluations": fal["evaluations"] + (deep["evaluations"] if deep else 0)}}, open(path, "w"), indent=1)
        for o in failed[:8]:
            lines.append("failed obligation: %s (%s)" % (o["name"], o["detail"]))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
        rc = 1
    elif fal.get("error") or (not obls and not fal["evaluations"]) or (vacuous and not standin):
        lines.append("ERROR: the check could not be carried out: %s %s %s" % (fal.get("error"), pr.get("error"), vacuous[:3]))
        rc = 2
    ev_total = fal["evaluations"] + (deep["evaluations"] if deep else 0)
    fns = sorted({f for s in secs for f in s["functions"]})
    status = "proved" if not standin and not failed and obls else ("violated" if rc == 1 else "partly proved, rest bounded")
    evid = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": len(obls), "discharged": len(good),
            "checker_cmd": "python3-vt prove.py %s OUT.json --tier %s" % (prop, tier),
            "trusted_base": LANG_TRUST + pr.get("trusted", []) + ["assumed contract of library function: " + x for x in sorted({x for s in secs for x in s["library"]})]
                + ["assumed: " + x for x in sorted({x for s in secs for x in s["assumed"]})],
            "status": status,
            "functions_under_contract": fns,
            "callee_contracts_used": sorted({f for s in secs for f in s["contracts_used"]}),
            "sections": [{"section": s["section"], "obligations": len(s["obligations"]), "discharged": sum(o["status"] == "proved" for o in s["obligations"]),
                          "inferred_loop_invariants": s["loop_invariants"], "solver_s": s["solver_secs"], "wall_s": s["wall"],
                          "outside_the_verifier": s["unsupported"], "bounded": s["bounded"]} for s in secs],
            "solver_time_s": round(sum(s["solver_secs"] for s in secs), 2), "back_end": "z3 (Python API of python3-vt)",
            "vacuity_checks": sum(len(s["vacuity"]) for s in secs), "vacuous": vacuous,
            "undecided": [o["name"] for o in undec],
            "bounded_stand_in": [] if not standin else [{"sections": standin, "bound": "%d concrete evaluations of the property on the running code" % ev_total}],
            "concrete_evaluations": ev_total, "concrete_distinct": fal.get("distinct", 0), "concrete_kinds": fal.get("kinds", {}),
            "concrete_samples": fal.get("samples", [])[:3],
            "obligation_names": [o["name"] for o in obls][:400],
        },
        "assumptions": LANG_TRUST + pr.get("trusted", []),
        "wall_s": round(time.time() - t0, 2), "violations": 1 if rc == 1 else 0,
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(evid, f, indent=1)
    for k in known(prop):
        print(k)
    print("%s: %d/%d obligations discharged, %d functions under contract, %d concrete evaluations, %.1fs [%s]" % (
        prop, len(good), len(obls), len(fns), ev_total, time.time() - t0, status))
    for s in standin:
        print("bounded stand-in (not counted as proved): %s" % s)
    for line in lines:
        print(line)
    return rc


def replay(prop, path):
    scratch = tempfile.mkdtemp(prefix="vp_%s_" % prop)
    try:
        out = os.path.join(scratch, "r.json")
        rc, err = wait(falsifier(prop, out, int(os.environ.get("VERIF_SEED", "1")), 5, scratch, replay=os.path.abspath(path), jit=not json.load(open(path)).get("uncompiled")), 600)
        r = json.load(open(out))
        for f in r["failures"]:
            print(f["message"])
        return 1 if r["failures"] else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


sys.exit(main())
