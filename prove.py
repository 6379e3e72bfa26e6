#!/usr/bin/env python3
"""Generate and discharge the proof obligations of one property from the current source of /repo.

usage: python3-vt prove.py <property> <out.json> [--tier quick|thorough] [--section NAME]
Every section (one function or method under contract, or one lemma over contracts) runs in its own process."""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def run_section(prop, name, q):
    from specs import base
    t0 = time.time()
    try:
        import resource
        lim = 6 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except Exception:
        pass
    sys.setrecursionlimit(20000)
    mod = importlib.import_module("specs." + prop.lower())
    fn = dict((n, f) for n, f in mod.SECTIONS)[name]
    res = {"section": name, "unsupported": None, "error": None, "obligations": [], "bounded": getattr(fn, "bounded", None)}
    base.Env.all.clear()
    try:
        fn()
    except base.Unsupported as e:
        res["unsupported"] = str(e)[:500]
    except MemoryError:
        res["unsupported"] = "out of memory"
    except Exception as e:
        # the interpreter met something it was not built for: outside the verifier's reach, not a verdict
        res["unsupported"] = "interpreter: %s: %s" % (type(e).__name__, str(e)[:300])
        res["error"] = traceback.format_exc()[-3000:]
    fns, cons, libs, assumed, vac, secs, inv = set(), set(), set(), set(), [], 0.0, 0
    for e in base.Env.all:
        res["obligations"] += [o.as_dict() for o in e.ctx.obls]
        fns |= e.I.inlined
        cons |= e.I.used_contracts
        libs |= e.I.used_lib
        assumed |= e.ctx.assumed | e.assumed
        vac += e.vacuity
        secs += e.ctx.solver_secs
        inv += getattr(e.ctx, "loop_invariants", 0)
    res.update(functions=sorted(fns), contracts_used=sorted(cons), library=sorted(libs), assumed=sorted(assumed),
               vacuity=vac, solver_secs=round(secs, 3), wall=round(time.time() - t0, 2), loop_invariants=inv)
    q.put(res)


def main():
    prop, out = sys.argv[1], sys.argv[2]
    tier = "quick"
    only = None
    a = sys.argv[3:]
    while a:
        if a[0] == "--tier":
            tier = a[1]
        if a[0] == "--section":
            only = a[1]
        a = a[2:]
    os.environ["VP_TIER"] = tier
    from specs import base
    t0 = time.time()
    mod = importlib.import_module("specs." + prop.lower())
    limit = float(os.environ.get("VP_SECTION_SECS", "280" if tier == "quick" else "1500"))
    total = float(os.environ.get("VP_PROVE_SECS", "420" if tier == "quick" else "3600"))
    jobs = [n for n, f in mod.SECTIONS if only is None or n == only]
    results, running = [], {}
    width = int(os.environ.get("VP_JOBS", "8"))
    while jobs or running:
        while jobs and len(running) < width:
            n = jobs.pop(0)
            q = mp.Queue()
            p = mp.Process(target=run_section, args=(prop, n, q))
            p.start()
            running[n] = (p, q, time.time())
        time.sleep(0.05)
        for n, (p, q, ts) in list(running.items()):
            r = None
            try:
                r = q.get_nowait()
            except Exception:
                if not p.is_alive():
                    try:
                        r = q.get(timeout=1)
                    except Exception:
                        r = {"section": n, "unsupported": "verifier process ended (exit %s)" % p.exitcode}
                elif time.time() - ts > limit or time.time() - t0 > total:
                    p.kill()
                    r = {"section": n, "unsupported": "verifier time limit"}
            if r is not None:
                for k, d in (("obligations", []), ("functions", []), ("contracts_used", []), ("library", []), ("assumed", []),
                             ("vacuity", []), ("solver_secs", 0.0), ("wall", round(time.time() - ts, 2)), ("loop_invariants", 0), ("error", None), ("bounded", None)):
                    r.setdefault(k, d)
                results.append(r)
                p.join(2)
                if p.is_alive():
                    p.kill()
                del running[n]
    order = {n: i for i, (n, f) in enumerate(mod.SECTIONS)}
    results.sort(key=lambda r: order[r["section"]])
    with open(out, "w") as f:
        json.dump({"property": prop, "sections": results, "wall": round(time.time() - t0, 2),
                   "trusted": list(getattr(mod, "TRUSTED", []))}, f, indent=1)
    if os.environ.get("VP_PRINT"):
        for r in results:
            obs = r["obligations"]
            bad = [o for o in obs if o["status"] != "proved"]
            print(f"[{r['section']}] {len(obs)-len(bad)}/{len(obs)} {r['wall']}s", "" if not r["unsupported"] else "UNSUPPORTED " + r["unsupported"])
            for o in bad:
                print("    ", o["status"], o["name"], o.get("secs"), o.get("detail", "")[:150], str(o.get("model"))[:int(os.environ.get("VP_MODEL", "0"))])
            if r["error"]:
                print(r["error"])
            if os.environ.get("VP_SLOW"):
                for o in obs:
                    if o["secs"] > float(os.environ["VP_SLOW"]):
                        print("     slow", o["secs"], o["name"])
            for v in r["vacuity"]:
                if not v[1]:
                    print("     VACUOUS", v)


if __name__ == "__main__":
    main()
