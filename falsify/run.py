"""Contract falsifier: the same contracts, evaluated on the real code with concrete inputs.

usage: python falsify/run.py <property> <out.json> --seed N --secs S [--max N] | --replay FILE
Cases are JSON values made by gen(rng, i); test(case) raises Fail when the contract is broken, Skip when a private helper
that it would use is gone."""
import importlib
import json
import os
import random
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, os.environ.get("VP_REPO", "/repo"))
warnings.simplefilter("ignore")
import numpy as np

np.seterr(all="ignore")


def jd(o):
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    return repr(o)


def main():
    prop, out = sys.argv[1], sys.argv[2]
    opt = dict(zip(sys.argv[3::2], sys.argv[4::2]))
    seed = int(opt.get("--seed", "1"))
    secs = float(opt.get("--secs", "20"))
    mx = int(opt.get("--max", "1000000"))
    from falsify import util
    t_imp = time.time()
    import io, contextlib
    sink = io.StringIO()
    res = {"evaluations": 0, "skipped": 0, "failures": [], "samples": [], "kinds": {}, "error": None}
    try:
        with contextlib.redirect_stdout(sink):
            mod = importlib.import_module("falsify." + prop.lower())
    except util.Skip as e:
        res["error"] = "cannot be exercised: " + str(e)
        json.dump(res, open(out, "w"))
        return
    except Exception as e:
        # the package does not import at all
        res["failures"].append({"case": {"import": True}, "message": "importing the package failed: %s: %s" % (type(e).__name__, e),
                                "trace": traceback.format_exc()[-2000:]})
        json.dump(res, open(out, "w"))
        return
    if "--replay" in opt:
        rep = json.load(open(opt["--replay"]))
        cases = iter([rep["case"]])
    else:
        def gen():
            i = 0
            while True:
                rng = random.Random((seed << 32) + i)
                yield mod.gen(rng, i)
                i += 1
        cases = gen()
    t0 = time.time()
    distinct = set()
    for case in cases:
        if res["evaluations"] and time.time() - t0 > secs or res["evaluations"] >= mx:
            break
        random.seed(seed)
        ns = (seed * 7919 + res["evaluations"]) % (2 ** 31)
        if "--replay" in opt and rep.get("np_seed") is not None:
            ns = rep["np_seed"]
        np.random.seed(ns)
        key = json.dumps(case, sort_keys=True, default=jd)
        distinct.add(hash(key))
        res["evaluations"] += 1
        k = case.get("kind", "case") if isinstance(case, dict) else "case"
        res["kinds"][k] = res["kinds"].get(k, 0) + 1
        if len(res["samples"]) < 4 and (res["evaluations"] % 7 == 1):
            res["samples"].append(key[:600])
        try:
            with contextlib.redirect_stdout(sink):
                mod.test(json.loads(key))
        except util.Skip as e:
            res["skipped"] += 1
            res["skip_reason"] = str(e)
        except util.Fail as e:
            res["failures"].append({"case": json.loads(key), "np_seed": ns, "message": str(e)[:1500]})
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            res["failures"].append({"case": json.loads(key), "np_seed": ns, "message": "unexpected %s: %s" % (type(e).__name__, str(e)[:600]),
                                    "trace": "".join(traceback.format_list(tb[-4:]))[-2000:]})
        sink.seek(0); sink.truncate()
        if len(res["failures"]) >= 5:
            break
    res["distinct"] = len(distinct)
    res["wall"] = round(time.time() - t_imp, 2)
    res["seed"] = seed
    json.dump(res, open(out, "w"), default=jd)


main()
